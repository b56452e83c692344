"""C03: a save is acknowledged only if the storage took all of it."""

import gc
import io

import numpy as np

from .. import model as M
from .. import ops as O
from .. import store as S
from .. import core
from ..core import SimCrash, Violation
from ..disk import Disk
from .c01 import patched_time

ID = 'C03'
ISOLATED = True
RUNS = {'quick': 2400, 'thorough': 80000}
MIN_RUNS = 500
RULE = ('a run is a history of 1-8 saves to 1-3 targets where storage '
        'operations fail, the process is killed after the acknowledgement, or '
        'the value or pattern is rejected; non-trivial if a fault fired or a '
        'save was rejected; distinct by event log')
COVER = 'failing operation x error x target kind x outcome; kinds of rejection'
REAL = 'paragami, numpy (savez/load), zipfile, json, the files of the scratch directory'
STUB = 'disk (fault layer over real files), process kill, clock'

ERRORS = {'write': ['EIO', 'ENOSPC', 'EDQUOT', 'SHORT_ENOSPC'],
          'open': ['EACCES', 'EROFS', 'ENOSPC', 'EMFILE', 'EIO'],
          'close': ['EIO', 'ENOSPC'],
          'truncate': ['EIO'], 'rename': ['EIO', 'ENOSPC'], 'sync': ['EIO']}
REJECT = ['shape', 'missing', 'invalid', 'none', 'wrong_kind', 'json',
          'json_member', 'not_pattern', 'flatten']


def generate(rng):
    nt = rng.choice([1, 1, 2, 3])
    targets = [{'kind': rng.choice(['path', 'path', 'path', 'pathlib', 'relative',
                                    'bytesio', 'file']),
                'name': rng.choice(['t%d.npz', 'u%d', 'sub/v%d.npz']) % i}
               for i in range(nt)]
    big = rng.random() < .3
    steps = []
    base = S.gen_version(rng, big=big)
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        v = S.vary(rng, base) if rng.random() < .4 else \
            S.gen_version(rng, big=big and rng.random() < .4)
        v['how'] = None if v['how'] in ('int', 'f4', 'bigint', 'f4all') else v['how']
        st = {'t': rng.randrange(nt), 'v': v}
        r = rng.random()
        if r < .45:
            op = rng.choice(['write'] * 5 + ['open', 'close', 'close',
                                             'truncate', 'rename', 'sync'])
            st['do'] = 'fault'
            st['op'] = op
            st['kind'] = rng.choice(ERRORS[op])
            st['at'] = rng.random()
            st['frac'] = rng.random()
            st['sticky'] = rng.random() < .5
        elif r < .65:
            st['do'] = 'kill_after'
        elif r < .9:
            st['do'] = 'reject'
            st['how'] = rng.choice(REJECT)
        else:
            st['do'] = 'save'
        steps.append(st)
    return {'targets': targets, 'steps': steps, 'clock': 1.6e9}


def execute(sc, ctx):
    import os
    ctx.clock.now = sc['clock']
    root = ctx.scratch()
    ctx.chdir(root)
    disk = Disk(root, ctx.clock, ctx.stats, ctx.log)
    targets = [S.Target(disk, t) for t in sc['targets']]
    good = {}                  # target -> version known to be there
    nontriv = 0
    with disk, patched_time(ctx.clock):
        for i, st in enumerate(sc['steps']):
            ti = st['t'] % len(targets)
            t = targets[ti]
            if i % 2:
                core.run_later()
            why = 'step {}'.format(i)
            ver = S.Version(st['v'])
            if st['do'] == 'reject':
                nontriv += 1
                reject(ctx, disk, t, ver, st, why)
                if ti in good:
                    S.check_exact(t, good[ti], why + ': after a rejected save',
                                  deep=False)
                continue
            if st['do'] == 'fault':
                nontriv += fault(ctx, disk, t, ver, st, why, good, ti)
            else:
                t.save(ver)
                ctx.count('saves')
                if st['do'] == 'kill_after':
                    ctx.count('fault:kill-after-ack')
                    nontriv += 1
                    # the process dies: nothing that was still buffered
                    # anywhere reaches the disk any more
                    disk.dead = True
                    del core.LATER[:]
                    gc.collect()
                    disk.after_crash(0)
                good[ti] = ver
                S.check_exact(t, ver, why + ': after the acknowledgement',
                              deep=False)
            d = ver.unchanged()
            if d:
                raise Violation('modified', '{}: {}'.format(why, d))
        disk.clear()
        for ti, ver in sorted(good.items()):
            S.check_exact(targets[ti], ver, 'at the end', deep=False)
    ctx.nontrivial = nontriv > 0


def fault(ctx, disk, t, ver, st, why, good, ti):
    if t.kind in ('bytesio', 'file'):
        # errors of an open file surface when its owner flushes it
        return own_file(ctx, t, ver, st, why, good, ti)
    op, kind = st['op'], st['kind']
    twin = S.Target(disk, {'kind': t.kind, 'name': 'twin.npz'})
    if disk.get(t.real) is not None:
        disk.put(twin.real, disk.get(t.real))
    disk.install(())
    twin.save(S.Version(st['v']))
    n = disk.count.get(op, 0)
    disk.put(twin.real, None)
    if n == 0:
        disk.clear()
        return 0
    at = 1 + int(st['at'] * n)
    plan = [{'op': op, 'n': at, 'kind': kind, 'frac': st['frac']}]
    if st.get('sticky') and kind != 'SHORT_ENOSPC':
        plan += [{'op': op, 'n': at + k, 'kind': kind, 'frac': st['frac']}
                 for k in range(1, 40)]
    disk.install(plan)
    try:
        t.save(ver)
        acked = True
        err = ''
    except Violation:
        raise
    except Exception as e:
        acked = False
        err = type(e).__name__
    fired = bool(disk.fired)
    gc.collect()
    disk.clear()
    ctx.note('fault', op, kind, at, acked, err)
    ctx.cover.append('{}/{}/{}/{}'.format(op, kind, t.kind,
                                          'ack' if acked else err))
    good.pop(ti, None)
    if acked:
        if fired and (op in ('write', 'close', 'rename', 'sync', 'truncate')
                      or st.get('sticky')):
            raise Violation('error-swallowed', (
                '{}: {} failed with {} (operation {} of {}), but save_folded '
                'returned').format(why, op, kind, at, n))
        S.check_exact(t, ver, why + ': acknowledged although {} failed with {}'
                      .format(op, kind), deep=False)
        good[ti] = ver
    elif not fired:
        raise Violation('save-failed', '{}: raises {} without any fault'.format(
            why, err))
    return fired


class Failing(io.BytesIO):
    """A caller's file object whose n-th write fails."""

    def __init__(self, n, kind):
        super().__init__()
        self.left = n
        self.kind = kind
        self.fired = False

    def write(self, b):
        self.left -= 1
        if self.left < 0:
            self.fired = True
            import errno
            raise OSError(errno.ENOSPC, 'injected')
        return super().write(b)


def own_file(ctx, t, ver, st, why, good, ti):
    import paragami as pg
    count = Failing(10 ** 9, st['kind'])
    pg.save_folded(count, ver.val, ver.pattern, **ver.extras)
    n = 10 ** 9 - count.left
    f = Failing(int(st['at'] * n), st['kind'])
    try:
        pg.save_folded(f, ver.val, ver.pattern, **ver.extras)
        acked = True
    except Violation:
        raise
    except Exception as e:
        acked = False
    ctx.count('fault:file-object-write')
    ctx.note('own', int(st['at'] * n), acked)
    ctx.cover.append('own-file/{}'.format(acked))
    if acked:
        raise Violation('error-swallowed', (
            '{}: write {} of {} to the caller\'s file object failed, but '
            'save_folded returned').format(why, int(st['at'] * n), n))
    f.left = 10 ** 9
    return 1


class JsonFails(Exception):
    pass


def reject(ctx, disk, t, ver, st, why):
    import paragami as pg
    how = st['how']
    spec, val, pat = ver.spec, ver.val, ver.pattern
    if how == 'invalid':
        val = O.invalid(spec, M.value(spec, 3))
        # (no illegal values, or not checked by this pattern: nothing to do)
    elif how in ('shape', 'missing', 'none', 'wrong_kind'):
        val = O._spoil(spec, M.value(spec, 3), how)
    elif how in ('json', 'json_member', 'flatten'):
        class Broken(pg.NumericVectorPattern):
            def to_json(self):
                if how != 'flatten':
                    raise JsonFails('to_json')
                return super().to_json()

            def flatten(self, *a, **k):
                if how == 'flatten':
                    raise JsonFails('flatten')
                return super().flatten(*a, **k)
        b = Broken(2)
        if how == 'json_member':
            d = pg.PatternDict()
            d['ok'] = M.build(spec)
            d['broken'] = b
            pat = d
            val = {'ok': ver.val, 'broken': np.zeros(2)}
        else:
            pat, val = b, np.zeros(2)
    elif how == 'not_pattern':
        pat = ['not', 'a', 'pattern']
    pre = M.outcome(lambda: (pat.flatten(val, free=False), pat.to_json()))
    if pre[0] == 'ok':
        return                  # not rejected
    before = (t.bytes(), t.buf.tell() if t.buf is not None else None)
    existed = disk.get(t.real) is not None
    disk.install(())
    snap = (M.snap(val), M.snap(ver.extras))

    class Tmp:
        pass
    tmp = Tmp()
    tmp.val, tmp.pattern, tmp.extras = val, pat, ver.extras
    try:
        if t.kind == 'bytesio':
            pg.save_folded(t.buf, val, pat, **ver.extras)
        elif t.kind == 'file':
            # the caller's open would truncate: give it an untouched file
            box = io.BytesIO(b'previous')
            pg.save_folded(box, val, pat, **ver.extras)
        else:
            t.save(tmp)
        raised = False
    except Violation:
        raise
    except Exception as e:
        raised = True
        err = type(e).__name__
    if not raised:
        raise Violation('rejected-value-saved', (
            '{}: {} value: flatten or to_json raises {}, but save_folded '
            'returned').format(why, how, pre[1]))
    ctx.note('reject', how, err)
    ctx.count('fault:rejected-' + how)
    ctx.cover.append('reject/{}/{}/{}'.format(how, t.kind, err))
    if t.kind == 'file':
        if box.getvalue() != b'previous':
            raise Violation('target-touched', '{}: a rejected ({}) save wrote '
                            'to the file it was given'.format(why, how))
    if (t.bytes(), t.buf.tell() if t.buf is not None else None) != before or \
            (t.buf is None and (disk.get(t.real) is not None) != existed):
        raise Violation('target-touched', (
            '{}: a rejected ({}) save changed the target {}').format(
                why, how, t.name))
    if (M.snap(val), M.snap(ver.extras)) != snap:
        raise Violation('modified', '{}: a rejected save modified its '
                        'arguments'.format(why))
