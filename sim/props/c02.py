"""C02: a damaged or half-written save never loads as wrong data."""

import gc

from .. import model as M
from .. import store as S
from ..core import SimCrash, Violation, random_sched, traced
from ..disk import DAMAGE, Disk, damage
from .c01 import patched_time

ID = 'C02'
ISOLATED = True
RUNS = {'quick': 2000, 'thorough': 80000}
MIN_RUNS = 500
RULE = ('a run is a history of saves to 1-2 targets with damage at rest, '
        'process kills and power losses during saves, or 2-4 threads saving '
        'and loading one target at once, each followed by loads; non-trivial '
        'if a load met a file that was not one clean save; distinct by event '
        'log')
COVER = 'kind of damage x pattern type x outcome of the load'
REAL = 'paragami, numpy (savez/load), zipfile, json, the files of the scratch directory'
STUB = 'disk (fault layer over real files), crash and restart, clock, thread scheduler'


def _targets(rng, n):
    return [{'kind': rng.choice(['path', 'path', 'pathlib', 'file']),
             'name': 't%d.npz' % i} for i in range(n)]


def generate(rng):
    mode = rng.choice(['damage', 'damage', 'crash', 'crash', 'race'])
    big = rng.random() < .25
    base = S.gen_version(rng, big=big)
    base['how'] = None if base['how'] in ('int', 'f4', 'bigint', 'f4all') else base['how']

    def version():
        if rng.random() < .6:
            v = S.vary(rng, base)
            v['extras'] = base['extras'] if rng.random() < .6 \
                else S.gen_extras(rng)
            return v
        v = S.gen_version(rng, big=rng.random() < .1)
        v['how'] = None if v['how'] in ('int', 'f4', 'bigint', 'f4all') else v['how']
        return v
    sc = {'mode': mode, 'clock': 1.6e9}
    if mode == 'race':
        sc['targets'] = _targets(rng, 1)
        threads = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < .55:
                    ops.append({'do': 'save', 'v': version()})
                else:
                    ops.append({'do': 'load'})
            threads.append(ops)
        if rng.random() < .8:
            sc['first'] = [base]
        sc['threads'] = threads
        sc['sched'] = random_sched(rng, opcodes=False)
        sc['sched']['p'] = rng.choice([.02, .1, .3, .6])
        return sc
    nt = rng.choice([1, 1, 2])
    sc['targets'] = _targets(rng, nt)
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        t = rng.randrange(nt)
        steps.append({'do': 'save', 't': t, 'v': version()})
        if mode == 'damage':
            for _ in range(rng.choice([1, 2, 5])):
                steps.append({'do': 'damage', 't': t,
                              'how': {'kind': rng.choice(DAMAGE),
                                      'a': rng.random(), 'b': rng.random(),
                                      'c': rng.randrange(1 << 16)}})
        else:
            steps.append({'do': 'crash', 't': t, 'v': version(),
                          'kind': rng.choice(['KILL', 'POWER', 'POWER']),
                          'op': rng.choice(['write'] * 6 + ['open', 'truncate',
                                                           'close', 'rename']),
                          'at': rng.random(), 'frac': rng.random(),
                          'seed': rng.randrange(1 << 30)})
        if rng.random() < .5:
            steps.append({'do': 'save', 't': t, 'v': version()})
    sc['steps'] = steps
    return sc


def load_any(t, versions, why, ctx):
    """Load: raises, or exactly one of the versions.  Returns what happened."""
    before = t.bytes()
    try:
        (val, pat, data), f = traced(t.load)
    except Violation:
        raise
    except Exception as e:
        if t.bytes() != before:
            raise Violation('load-writes', '{}: a failing load changed the '
                            'file'.format(why))
        return 'raises ' + type(e).__name__
    S.close(data, f)
    diffs = []
    for i, v in enumerate(versions):
        d = v.value_diff(val) or v.pattern_diff(pat, deep=False)
        if not d:
            return 'version'
        diffs.append('not version {}: {}'.format(i, d))
    if t.bytes() == before or True:
        raise Violation('wrong-data', (
            '{}: a file that is not one clean save loads as something that '
            'was never saved: {}').format(why, '; '.join(diffs)[:1500]))


def execute(sc, ctx):
    ctx.clock.now = sc['clock']
    disk = Disk(ctx.scratch(), ctx.clock, ctx.stats, ctx.log)
    targets = [S.Target(disk, t) for t in sc['targets']]
    with disk, patched_time(ctx.clock):
        if sc['mode'] == 'race':
            race(sc, ctx, disk, targets[0])
        else:
            history(sc, ctx, disk, targets)
        # nothing of this harms what comes later
        disk.clear()
        v = S.Version({'spec': {'t': 'dict', 'fd': True, 'items': [
            ['x', {'t': 'vec', 'n': 3, 'lb': 0.0, 'ub': None, 'dv': True,
                   'fd': None}],
            ['m', {'t': 'psd', 'size': 2, 'diag_lb': 0.0, 'dv': True,
                   'fd': False}]]}, 'vs': 5, 'odd': False, 'how': None,
            'extras': [['x', 'f8', 3]]})
        t = S.Target(disk, {'kind': 'path', 'name': 'later.npz'})
        t.save(v)
        S.check_exact(t, v, 'a clean save and load afterwards', deep=False)


def history(sc, ctx, disk, targets):
    versions = {}
    nontriv = 0
    for i, st in enumerate(sc['steps']):
        ti = st['t'] % len(targets)
        t = targets[ti]
        if st['do'] == 'save':
            ver = S.Version(st['v'])
            t.save(ver)
            versions.setdefault(ti, []).append(ver)
            S.check_exact(t, ver, 'step {}'.format(i), deep=False)
            versions[ti] = [ver]          # the damage is to this save
            ctx.count('saves')
            continue
        if st['do'] == 'damage':
            ver = versions.get(ti)
            clean = disk.get(t.real)
            if not ver or clean is None:
                continue
            bad = damage(clean, st['how'])
            disk.put(t.real, bad)
            got = load_any(t, ver, 'step {}: {}'.format(i, st['how']), ctx)
            if bad != clean:
                nontriv += 1
                ctx.count('fault:at-rest-' + st['how']['kind'])
            ctx.note('damage', st['how']['kind'], got)
            ctx.cover.append('{}/{}/{}'.format(
                st['how']['kind'], ver[-1].spec['t'], got))
            d = ver[-1].unchanged()
            if d:
                raise Violation('harmed', 'step {}: {}'.format(i, d))
            disk.put(t.real, clean)
            S.check_exact(t, ver[-1], 'step {}: after the damaged file was '
                          'restored'.format(i), deep=False)
            continue
        # a crash during a save
        ver = S.Version(st['v'])
        # how many operations does this save make?
        twin = S.Target(disk, {'kind': t.kind, 'name': 'twin.npz'})
        disk.put(twin.real, disk.get(t.real))
        disk.install(())
        twin.save(S.Version(st['v']))
        n = disk.count.get(st['op'], 0)
        if n == 0:
            continue
        disk.put(twin.real, None)
        disk.unsynced = {}
        disk.install([{'op': st['op'], 'n': 1 + int(st['at'] * n),
                       'kind': st['kind'], 'frac': st['frac']}])
        crashed = False
        try:
            t.save(ver)
        except SimCrash:
            crashed = True
        gc.collect()
        disk.dead = True
        gc.collect()
        disk.after_crash(st['seed'])
        allv = versions.setdefault(ti, [])
        allv.append(ver)
        nontriv += crashed
        got = load_any(t, allv, 'step {}: {} at {}'.format(
            i, st['kind'], st['op']), ctx) if disk.get(t.real) is not None \
            else 'no file'
        ctx.note('crash', st['kind'], crashed, got)
        ctx.cover.append('{}-{}/{}/{}'.format(
            st['kind'], st['op'], ver.spec['t'], got))
        d = ver.unchanged()
        if d:
            raise Violation('harmed', 'step {}: {}'.format(i, d))
    ctx.nontrivial = nontriv > 0


def race(sc, ctx, disk, t):
    versions = []
    for v in sc.get('first', ()):
        ver = S.Version(v)
        t.save(ver)
        versions.append(ver)
    mine = [[S.Version(op['v']) if op['do'] == 'save' else None for op in ops]
            for ops in sc['threads']]
    # a version counts as saved to the file from the moment its save starts
    outcomes = []

    def body(k):
        def run():
            for ver, op in zip(mine[k], sc['threads'][k]):
                if ver is not None:
                    versions.append(ver)
                    traced(lambda: t.save(ver))
                    ctx.count('saves')
                else:
                    if disk.get(t.real) is None:
                        continue
                    # versions may be added while the load runs
                    got = load_racing(t, versions, k, ctx)
                    outcomes.append(got)
                    ctx.count('loads')
                    ctx.cover.append('race/{}'.format(got))
        return run
    ctx.run_threads([body(k) for k in range(len(mine))], sc['sched'],
                    trace=False)
    ctx.note('race', outcomes)
    ctx.nontrivial = ctx.stats.get('preemptions', 0) > 0
    if versions and disk.get(t.real) is not None:
        got = load_any(t, versions, 'after all threads ended', ctx)
        ctx.note('final', got)
        ctx.cover.append('race-final/{}'.format(got))
    for ver in versions:
        d = ver.unchanged()
        if d:
            raise Violation('harmed', d)


def load_racing(t, versions, k, ctx):
    try:
        (val, pat, data), f = traced(t.load)
    except Violation:
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__
    S.close(data, f)
    diffs = []
    for i, v in enumerate(list(versions)):
        d = v.value_diff(val) or v.pattern_diff(pat, deep=False)
        if not d:
            return 'version'
        diffs.append('not version {}: {}'.format(i, d))
    raise Violation('wrong-data', (
        'thread {}: a load during saves returns something that was never '
        'saved: {}').format(k, '; '.join(diffs)[:1500]))
