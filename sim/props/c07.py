"""C07: concurrent use of shared patterns equals use one at a time."""

import json

from .. import model as M
from .. import ops as O
from ..core import Violation, random_sched
from .. import oracle

ID = 'C07'
ISOLATED = True
RUNS = {'quick': 3600, 'thorough': 150000}
MIN_RUNS = 1500
RULE = ('a run is 2-5 caller threads doing 1-8 operations each on patterns '
        'that are shared, under one seeded schedule; non-trivial if at least '
        'one preemption happened inside an operation; distinct by event log')
COVER = 'operation kind x pattern type x free x preempted'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'thread scheduler'


def duel(rng):
    """Two threads, one small pattern, one or two kinds of operation."""
    spec = M.gen_leaf(rng, kinds=('num', 'psd', 'simplex', 'vec'))
    if rng.random() < .3:
        spec = {'t': 'dict', 'fd': None, 'items': [['a', spec]]} \
            if rng.random() < .5 or spec['t'] == 'dict' else \
            {'t': 'array', 'shape': [2], 'base': spec, 'fd': None}
    names = rng.choice([['fold'], ['flatten'], ['validate'],
                        ['validate', 'flatten'], ['fold', 'flatten'],
                        ['freeing_jacobian', 'unfreeing_jacobian'],
                        ['flat_indices'], rng.sample(sorted(set(O.NAMES)), 2)])
    free = rng.choice([True, False])
    p_bad = rng.choice([0, .2, .5, .5])
    threads = []
    for _ in range(2):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            op = O.gen_op(rng, names=names, p_bad=0, free=free)
            op.pop('how', None)
            if op['op'] in ('fold', 'flatten', 'validate', 'freeing_jacobian',
                            'unfreeing_jacobian') and rng.random() < p_bad:
                op.update(bad='invalid', vv=True)
                if op['op'] == 'fold':
                    op['free'] = False
            op['on'] = 0
            ops.append(op)
        threads.append(ops)
    return {'spec': spec, 'others': [], 'threads': threads, 'share_args': False,
            'sched': random_sched(rng, opcodes=True)}


def generate(rng):
    if rng.random() < .35:
        return duel(rng)
    big = rng.random() < .1
    spec = M.gen_spec(rng, rng.choice([0, 1, 2, 2, 3]), big=big, empty_ok=True)
    nt = rng.choice([2, 2, 2, 3, 3, 5])
    per = rng.choice([1, 2, 4, 8])
    r = rng.random()
    names = None
    if r < .3:      # few kinds of operations: more collisions
        names = rng.sample(sorted(set(O.NAMES)), rng.choice([1, 2, 3]))
    elif r < .5:
        names = ['fold', 'flatten']
    if rng.random() < .15:
        # arrays of patterns, whose members are taken in turn
        base = M.gen_leaf(rng)
        spec = {'t': 'array', 'shape': rng.choice([[2], [3], [2, 2]]),
                'base': base, 'fd': rng.choice([None, True, False])}
        names = rng.choice([['flat_indices'], ['flat_indices', 'fold'],
                            ['flat_names', 'flat_indices'],
                            ['validate', 'flatten'], None])
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, per)):
            op = O.gen_op(rng, p_bad=.06, names=names)
            op['on'] = 0 if rng.random() < .6 else rng.randrange(8)
            ops.append(op)
        threads.append(ops)
    if rng.random() < .25 and len(threads[0]):
        # the same operation with different values, everywhere
        proto = dict(threads[0][0])
        for t in threads:
            for op in t:
                vs = op['vs']
                on = op['on']
                op.clear()
                op.update(proto)
                op['vs'] = vs
                op['on'] = on if rng.random() < .3 else proto['on']
    others = []
    while rng.random() < .35 and len(others) < 3:
        # patterns that are easily taken for the shared one
        others.append(M.variant(rng, rng.choice([spec] + others)))
    if others:
        for t in threads:
            for op in t:
                if rng.random() < .5:
                    op['on'] = -1 - rng.randrange(len(others))
    return {'spec': spec, 'others': others, 'threads': threads,
            'share_args': rng.random() < .3,
            'sched': random_sched(rng, opcodes=not big)}


def targets(p, spec):
    """The pattern, all its members, and a second container of its members."""
    out = [(p, spec)]

    def walk(q, s):
        if s['t'] == 'dict':
            for k, m in s['items']:
                out.append((q[k], m))
                walk(q[k], m)
        elif s['t'] == 'array':
            out.append((q.base_pattern(), s['base']))
            walk(q.base_pattern(), s['base'])
    walk(p, spec)
    if spec['t'] == 'dict' and spec['items']:
        import paragami as pg
        q = pg.PatternDict(free_default=False)
        items = spec['items'][::-1]
        for k, m in items:
            q[k] = p[k]
        out.append((q, {'t': 'dict', 'fd': False, 'items': items}))
    return out


def execute(sc, ctx):
    spec = sc['spec']
    threads = sc['threads']
    tg = targets(M.build(spec), spec) + [(M.build(s), s)
                                         for s in sc['others']]
    n = len(tg)

    def key(op):
        return json.dumps(op, sort_keys=True)

    want = {key(op): O.alone(tg[op['on'] % n][1], op)
            for t in threads for op in t}
    results = [[] for _ in threads]
    shared = {}
    if sc['share_args']:
        for t in threads:
            for op in t:
                k = (op['on'] % n, op['vs'])
                kk = key(op)
                if kk not in shared:
                    shared[kk] = O.make_args(tg[op['on'] % n][1], op)

    def body(i):
        def run():
            for op in threads[i]:
                p, s = tg[op['on'] % n]
                args = shared.get(key(op))
                if args is None:
                    args = O.make_args(s, op)
                results[i].append(M.outcome(lambda: O.call(p, s, op, args)))
        return run
    sim = ctx.run_threads([body(i) for i in range(len(threads))], sc['sched'])
    ctx.nontrivial = sim.stats.get('preemptions', 0) > 0
    pre = ctx.nontrivial
    for i, t in enumerate(threads):
        for j, op in enumerate(t):
            got = results[i][j]
            w = want[key(op)]
            ctx.count('operations')
            ctx.note(i, op['op'], got[0], M.digest(got[1]))
            s = tg[op['on'] % n][1]
            ctx.cover.append('{}/{}/{}/{}/{}'.format(
                op['op'], s['t'], op['free'], pre, got[0]))
            d = M.same_outcome(got, w)
            if d:
                raise Violation('concurrent-result', (
                    'thread {} operation {} {} on {}: concurrently and alone '
                    'differ: {}').format(i, j, key(op), json.dumps(s), d))
            e = O.expected(s, op)
            if e is not None:
                d = M.same_outcome(got, e, rtol=1e-6, atol=1e-8)
                if d:
                    raise Violation('wrong-result', (
                        'thread {} operation {} {} on {}: result and '
                        'reference differ: {}').format(
                            i, j, key(op), json.dumps(s), d))
    # the patterns are as before
    for i, (p, s) in enumerate(tg):
        d = O.same_probe(O.probe(p, s, deep=not i),
                         oracle.probe(s, deep=not i))
        if d:
            raise Violation('changed-pattern',
                            'after concurrent use, {}: {}'.format(
                                json.dumps(s), d))

