"""C01: a saved value and its pattern load back exactly as they were saved."""

import copy
import json
import os
import time as _time

from .. import far
from .. import model as M
from .. import store as S
from ..core import Violation, random_sched, traced
from ..disk import Disk

ID = 'C01'
ISOLATED = True
FAR = True
RUNS = {'quick': 1600, 'thorough': 60000}
MIN_RUNS = 500
RULE = ('a run is a history of 2-14 saves, loads and clock steps over 1-4 '
        'targets (by 1-3 threads on distinct targets), with short and '
        'interrupted disk operations, and in half of the runs loads in '
        'another process at the end; non-trivial if at least one saved file '
        'was loaded back; distinct by event log')
COVER = 'target kind x pattern type x value kind x benign faults x threads'
REAL = 'paragami, numpy (savez/load), zipfile, json, the files of the scratch directory'
STUB = 'disk operations pass through the fault layer, clock, thread scheduler'


def generate(rng):
    nthreads = rng.choice([1, 1, 1, 2, 3])
    nt = max(nthreads, rng.choice([1, 1, 2, 3, 4]))
    names = rng.sample(S.NAMES, nt)
    if len({n if n.endswith('.npz') else n + '.npz' for n in names}) < nt:
        names = ['t%d' % i for i in range(nt)]
    targets = [{'kind': rng.choice(S.KINDS), 'name': n,
                'prefix': rng.choice([0, 0, 1, 2, 3])} for n in names]
    big = rng.random() < .15
    base = None
    saved = []
    # a few files only, each saved to again and again
    tight = rng.random() < .3
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6, 10, 14])):
        r = rng.random()
        t = rng.randrange(nt)
        if r < .5 or not steps:
            if saved and rng.random() < (.6 if tight else .2):
                # the same again, perhaps with other extras
                v = copy.deepcopy(rng.choice(saved[-2:]))
                if rng.random() < .4:
                    v['extras'] = S.gen_extras(rng) if rng.random() < .5 else []
            elif base is not None and rng.random() < .45:
                v = S.vary(rng, base)
                v['extras'] = S.gen_extras(rng)
            else:
                v = S.gen_version(rng, big=big)
                base = v
            if tight and rng.random() < .5:
                v['extras'] = []
            saved.append(v)
            st = {'do': 'save', 't': t, 'v': v, 'as': rng.choice(S.SPELLINGS)}
        elif r < .80:
            st = {'do': 'load', 't': t, 'deep': rng.random() < .3,
                  'as': rng.choice(S.SPELLINGS)}
        elif r < .94:
            # somebody else removes, spoils or replaces the file
            st = {'do': 'outside', 't': t, 'j': rng.randrange(4),
                  'what': rng.choice(['remove', 'remove', 'spoil', 'copy',
                                      'copy', 'rename', 'older', 'older'])}
        else:
            st = {'do': 'clock', 't': t,
                  'dt': rng.choice([-1e9, -3600., 1e5, 1e9, -1.6e9, 3e9])}
        if rng.random() < .25:
            st['faults'] = S.gen_benign(rng, rng.choice([1, 2, 4]))
        steps.append(st)
    for t in range(nt):
        steps.append({'do': 'load', 't': t, 'deep': True})
    return {'targets': targets, 'steps': steps, 'nthreads': nthreads,
            'far': rng.random() < .5,
            'clock': rng.choice([1.6e9, 1.6e9, 0.0, 4e9, 3.2e8, -5e8]),
            'sched': random_sched(rng, opcodes=not big) if nthreads > 1 else
            {'mode': 'serial'}}


class patched_time:
    """time.time() and friends read the simulated clock."""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.saved = (_time.time, _time.localtime)
        real_local = _time.localtime
        clock = self.clock
        _time.time = lambda: clock.now

        def localtime(s=None):
            return real_local(clock.now if s is None else s)
        _time.localtime = localtime

    def __exit__(self, *a):
        _time.time, _time.localtime = self.saved


def execute(sc, ctx):
    ctx.clock.now = sc['clock']
    root = ctx.scratch()
    ctx.chdir(root)
    disk = Disk(root, ctx.clock, ctx.stats, ctx.log)
    targets = [S.Target(disk, t) for t in sc['targets']]
    nthreads = max(1, sc['nthreads'])
    last = {}
    old_extras = {}
    older = {}
    loaded = [0]

    def outside(i, st, ti, t):
        if t.kind == 'bytesio' or not os.path.exists(t.real):
            return
        tj = [j for j in sorted(last) if j != ti and
              targets[j].kind != 'bytesio' and not targets[j].offset and
              not t.offset]
        what = st['what']
        if what == 'older' and older.get(ti):
            ver, data = older[ti][st['j'] % len(older[ti])]
            Disk.put(t.real, data)
            last[ti] = ver
        elif what in ('copy', 'rename') and tj and nthreads == 1:
            o = targets[tj[st['j'] % len(tj)]]
            j = tj[st['j'] % len(tj)]
            Disk.put(t.real, o.bytes())
            last[ti] = last[j]
            old_extras.setdefault(ti, set()).update(old_extras[j])
            if what == 'rename':
                os.remove(o.real)
                del last[j]
        elif what == 'spoil':
            Disk.put(t.real, b'not a save')
            last.pop(ti, None)
        else:
            os.remove(t.real)
            last.pop(ti, None)
        ctx.count('fault:file-changed-outside')
        ctx.note(i, 'outside', what)

    def run_step(i, st):
        ti = st['t'] % len(targets)
        t = targets[ti]
        if st['do'] == 'clock':
            ctx.clock.jump(st['dt'])
            ctx.count('fault:clock-jump')
            return
        if st['do'] == 'outside':
            outside(i, st, ti, t)
            return
        if st.get('faults'):
            disk.install(st['faults'])
        if st['do'] == 'save':
            ver = S.Version(st['v'])
            traced(lambda: t.save(ver, st.get('as')))
            last[ti] = ver
            older.setdefault(ti, []).append((ver, t.bytes()))
            old_extras.setdefault(ti, set()).update(ver.extras)
            d = ver.unchanged()
            if d:
                raise Violation('modified', 'step {}: {}'.format(i, d))
            ctx.note('save', t.name, M.digest(ver.val))
            ctx.count('saves')
            ctx.cover.append('{}/{}/odd={}/{}/{}/{}'.format(
                t.kind, ver.spec['t'], ver.v['odd'], ver.v['how'],
                bool(disk.fired), nthreads))
        elif ti in last:
            before = t.bytes()
            dg = S.check_exact(t, last[ti], 'step {}'.format(i),
                               st.get('deep', True), old_extras[ti],
                               st.get('as'))
            if t.bytes() != before:
                raise Violation('load-writes', 'loading changed ' + t.name)
            ctx.note('load', t.name, dg)
            ctx.count('loads')
            loaded[0] += 1
        disk.clear()

    def body(k):
        def run():
            for i, st in enumerate(sc['steps']):
                if (st['t'] % len(targets)) % nthreads == k:
                    run_step(i, st)
        return run

    with disk, patched_time(ctx.clock):
        if nthreads == 1:
            for i, st in enumerate(sc['steps']):
                run_step(i, st)
        else:
            ctx.run_threads([body(k) for k in range(nthreads)], sc['sched'],
                            trace=False)
        # everything that was saved is still there at the end
        for ti, ver in sorted(last.items()):
            S.check_exact(targets[ti], ver, 'at the end', False,
                          old_extras[ti])
    if sc.get('far') and last:
        # and loads back in another process
        for ti, ver in sorted(last.items()):
            t = targets[ti]
            where = t.bytes() if t.kind == 'bytesio' else t.real
            how = 'bytes' if t.kind == 'bytesio' else 'file' \
                if t.kind == 'file' or not where.endswith('.npz') else \
                ['path', 'pathlib'][ti % 2]
            ctx.note('far', t.name, far.call(
                'sim.store', 'load_elsewhere', how, where, ver.v, t.name,
                t.offset))
            ctx.count('loads in another process')
    ctx.nontrivial = loaded[0] > 0
