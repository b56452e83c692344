"""C08: a failing or interrupted operation leaves patterns as they were."""

import json

from .. import model as M
from .. import ops as O
from .. import oracle
from ..core import (InjectedInterrupt, InjectedMemoryError, ScenarioInvalid,
                    Violation)
from ..harness import in_child
from .c07 import targets

ID = 'C08'
ISOLATED = True
RUNS = {'quick': 4000, 'thorough': 200000}
MIN_RUNS = 400
RULE = ('a run is a history of 3-14 operations on a nested pattern, its '
        'members and wrapped functions, a third to all of which end with an '
        'injected exception (at a chosen yield point, in a member, in the '
        'wrapped function, or from a rejected argument); non-trivial if at '
        'least one exception ended an operation; distinct by event log')
COVER = 'operation x pattern type x fault kind x whether it ended the operation'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'exceptions at yield points; a user-defined member pattern that fails on request'

KINDS = ['interrupt', 'memory', 'flaky', 'callback']


def add_flaky(rng, spec, p):
    if spec['t'] == 'dict':
        for it in spec['items']:
            it[1] = add_flaky(rng, it[1], p)
        return spec
    if spec['t'] == 'vec' and rng.random() < p:
        spec['flaky'] = True
    elif spec['t'] == 'array' and spec['base']['t'] == 'vec' and \
            rng.random() < p:
        spec['base']['flaky'] = True
    return spec


def generate(rng):
    spec = M.gen_spec(rng, rng.choice([0, 1, 2, 2, 3]), empty_ok=True)
    flaky = rng.random() < .6
    if flaky:
        if spec['t'] == 'dict' and rng.random() < .8:
            leaf = M.gen_leaf(rng, kinds=('vec',))
            leaf['flaky'] = True
            at = rng.randint(0, len(spec['items']))
            keys = {k for k, _ in spec['items']}
            spec['items'].insert(at, ['flaky' if 'flaky' not in keys else 'fl', leaf])
        spec = add_flaky(rng, spec, .7)
    if rng.random() < .3:
        dv = rng.random() < .2
        for _, leaf in M.leaves(spec):
            while leaf['t'] == 'array':
                leaf = leaf['base']
            leaf['dv'] = dv
    pf = rng.choice([.3, .5, .8, 1.])
    names = None
    if rng.random() < .35:
        names = rng.sample(sorted(set(O.NAMES)), rng.choice([1, 2, 3]))
    steps = []
    for _ in range(rng.choice([3, 5, 8, 14])):
        op = O.gen_op(rng, p_bad=.25, names=names)
        st = {'op': op, 'on': 0 if rng.random() < .6 else rng.randrange(8)}
        if rng.random() < .15:
            st['wrap'] = rng.choice(['in_fold', 'in_flatten', 'out_fold',
                                     'out_flatten'])
        if rng.random() < pf:
            st['fault'] = {'kind': rng.choice(KINDS), 'frac': rng.random(),
                           'opcodes': rng.random() < .25}
        if rng.random() < .15:
            st['again'] = True
        steps.append(st)
    return {'spec': spec, 'steps': steps}


def do(pattern, spec, st, args):
    """The operation itself, or a wrapped function over the pattern."""
    w = st.get('wrap')
    if not w:
        return O.call(pattern, spec, st['op'], args)
    import paragami as pg
    free = st['op']['free']
    v = M.value(spec, st['op']['vs'])

    def fun(*a, **k):
        M.FUSE('objective')
        return a[0]
    if w == 'in_flatten':
        f = pg.FlattenFunctionInput(fun, pattern, free)
        return f(M.build(spec).flatten(v, free=bool(free)))
    if w == 'in_fold':
        return pg.FoldFunctionInput(fun, pattern, free)(v)
    if w == 'out_flatten':
        return pg.FlattenFunctionOutput(fun, pattern, free)(v)
    f = pg.FoldFunctionOutput(fun, pattern, free)
    return f(M.build(spec).flatten(v, free=bool(free)))


def execute(sc, ctx):
    spec = sc['spec']
    tg = targets(M.build(spec), spec)
    n = len(tg)
    ended = 0
    for i, st in enumerate(sc['steps']):
        p, s = tg[st['on'] % n]
        for rep in range(2 if st.get('again') else 1):
            ended += one(sc, ctx, tg, st, p, s, i)
    fresh = targets(M.build(spec), spec)
    for i, ((p, s), (q, _)) in enumerate(zip(tg, fresh)):
        d = O.same_probe(O.probe(p, s, deep=not i), oracle.probe(s, deep=not i))
        if d:
            raise Violation('changed-pattern', 'after failed operations, {}: '
                            '{}'.format(json.dumps(s), d))
        if not (p == q and q == p):
            raise Violation('changed-pattern', 'after failed operations, {} '
                            'is no longer equal to itself'.format(json.dumps(s)))
        if s['t'] == 'dict':
            lk = (_locked(p), _locked(q))
            if lk[0] != lk[1]:
                raise Violation('changed-lock', 'after failed operations, {}: '
                                'locked {} and not {}'.format(json.dumps(s), *lk))
    ctx.nontrivial = ended > 0


def isolated(spec, st):
    tg = targets(M.build(spec), spec)
    p, s = tg[st['on'] % len(tg)]
    M.FUSE.reset()
    return M.outcome(lambda: do(p, s, st, O.make_args(s, st['op'])))


def _locked(p):
    try:
        del p['no such member \0']
    except ValueError:
        return True
    except KeyError:
        return False


def one(sc, ctx, tg, st, p, s, i):
    op = st['op']
    fault = st.get('fault')
    args = O.make_args(s, op)
    before = M.snap(args)
    what = 'step {} {} on {}'.format(i, json.dumps(op), json.dumps(s))

    if not fault:
        M.FUSE.reset()
        got = M.outcome(lambda: do(p, s, st, args))
        want = oracle.call(__name__, 'isolated', sc['spec'], st)
        d = M.same_outcome(got, want)
        if d:
            raise Violation('later-operation', '{}: differs from the same '
                            'call on an untouched pattern: {}'.format(what, d))
        e = None if st.get('wrap') else O.expected(s, op)
        if e is not None:
            d = M.same_outcome(got, e, rtol=1e-6, atol=1e-8)
            if d:
                raise Violation('wrong-result', '{}: {}'.format(what, d))
        if M.snap(args) != before:
            raise Violation('argument', what + ': the argument was changed')
        ctx.note(i, op['op'], got[0], M.digest(got[1]))
        if got[0] == 'err':
            ctx.count('fault:rejected-argument')
            ctx.cover.append('{}/{}/bad'.format(op['op'], s['t']))
        return got[0] == 'err'

    kind = fault['kind']
    points = 0
    # how far does the operation go without the fault?
    M.FUSE.reset()
    if kind in ('interrupt', 'memory'):
        points = in_child(lambda: ctx.faulted(
            lambda: do(p, s, st, args), None, kind, fault['opcodes'])[2])
    else:
        def count():
            M.outcome(lambda: do(p, s, st, args))
            return M.FUSE.n
        points = in_child(count)
    at = 1 + int(fault['frac'] * points)
    if points == 0:
        return 0
    at = min(at, points)
    if kind in ('interrupt', 'memory'):
        M.FUSE.reset()
        got, fired, _ = ctx.faulted(lambda: do(p, s, st, args), at, kind,
                                    fault['opcodes'])
    else:
        exc = {'flaky': None, 'callback': KeyboardInterrupt}[kind]
        if kind == 'callback' and fault['opcodes']:
            exc = MemoryError
        M.FUSE.reset(at, exc)
        try:
            got = ('ok', do(p, s, st, args))
        except (Violation, ScenarioInvalid):
            raise
        except (Exception, KeyboardInterrupt) as e:
            got = ('err', type(e).__name__, str(e)[:200])
        fired = M.FUSE.raised is not None
        if fired:
            ctx.count('fault:' + kind)
    M.FUSE.reset()
    ctx.cover.append('{}/{}/{}/{}'.format(op['op'], s['t'], kind,
                                          got[0] != 'ok'))
    ctx.note(i, op['op'], kind, fired, got[0])
    if M.snap(args) != before:
        raise Violation('argument', '{}: the argument was changed by the call '
                        'that ended with {}'.format(what, got[:2]))
    return int(got[0] != 'ok')
