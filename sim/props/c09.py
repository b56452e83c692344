"""C09: patterns never share memory with callers in a way that shows."""

import json

import numpy as np

from .. import model as M
from .. import ops as O
from .. import oracle
from ..core import ScenarioInvalid, Violation

ID = 'C09'
ISOLATED = True
RUNS = {'quick': 5000, 'thorough': 200000}
MIN_RUNS = 500
RULE = ('a run is a history of 3-20 operations whose arguments and results '
        'the caller keeps, overwrites, reuses and mutates at arbitrary points, '
        'also between the failing ones; non-trivial if something was '
        'overwritten before a later operation; distinct by event log')
COVER = 'operation x pattern type x what was overwritten'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'the adversarial caller'

NAMES = ['traced', 'fold', 'fold', 'fold', 'flatten', 'flatten', 'flatten', 'empty',
         'empty_bool', 'validate', 'flat_indices', 'flat_indices', 'flat_names',
         'freeing_jacobian', 'unfreeing_jacobian', 'log_det_f', 'log_det_u',
         'as_dict', 'random', 'keys', 'accessors', 'to_json']


def generate(rng):
    spec = M.gen_spec(rng, rng.choice([0, 0, 1, 2, 2]), empty_ok=True)
    steps = []
    names = NAMES if rng.random() < .7 else \
        rng.sample(sorted(set(NAMES)), 3)
    for _ in range(rng.choice([3, 6, 10, 20])):
        r = rng.random()
        if r < .6 or not steps:
            op = O.gen_op(rng, p_bad=.08, names=names)
            if op.get('how') in ('f4', 'int'):
                del op['how']
            st = {'do': 'op', 'op': op,
                  'on': 0 if rng.random() < .6 else rng.randrange(8)}
            done = [x for x in steps if x['do'] == 'op']
            if done and rng.random() < .3:
                # the same once more, with equal arguments
                st = dict(done[-1] if rng.random() < .7 else rng.choice(done))
                if rng.random() < .3:
                    st['op'] = dict(st['op'], op=op['op'])
            steps.append(st)
        elif r < .95:
            # the latest one, or any
            steps.append({'do': 'scribble',
                          'what': 'arg' if r < .75 else 'result',
                          'j': rng.choice([-1, rng.randrange(40)])})
        else:
            steps.append({'do': 'scribble', 'what': 'constructor', 'j': 0})
    return {'spec': spec, 'steps': steps}


def build_with_lists(s, kept):
    """Build from lists and arrays that the caller keeps (and will change)."""
    import paragami as pg
    t = s['t']
    if t == 'num':
        shape = list(s['shape'])
        kept.append(shape)
        return pg.NumericArrayPattern(
            shape=shape, lb=M.inf_lb(s), ub=M.inf_ub(s),
            default_validate=s['dv'], free_default=s['fd'])
    if t == 'simplex':
        shape = list(s['shape'])
        kw = dict(simplex_size=s['k'], default_validate=s['dv'],
                  free_default=s['fd'])
        try:
            p = pg.SimplexArrayPattern(array_shape=shape, **kw)
            kept.append(shape)
        except TypeError:       # only tuples are documented
            p = pg.SimplexArrayPattern(array_shape=tuple(shape), **kw)
        return p
    if t == 'array':
        shape = list(s['shape'])
        kept.append(shape)
        return pg.PatternArray(array_shape=shape,
                               base_pattern=build_with_lists(s['base'], kept),
                               free_default=s['fd'])
    if t == 'dict':
        d = M.dict_class(s)(free_default=s['fd'])
        for k, m in s['items']:
            d[k] = build_with_lists(m, kept)
        return d
    return M.build(s)


def pairs(p, spec):
    out = [(p, spec)]
    if spec['t'] == 'dict':
        for k, m in spec['items']:
            out += pairs(p[k], m)
    elif spec['t'] == 'array':
        out += pairs(p.base_pattern(), spec['base'])
    return out


def raw_call(p, s, op, args):
    """Like O.call, but the very objects paragami returns."""
    name = op['op']
    if name == 'random':
        np.random.seed(op['vs'] % 2 ** 32)
        return p.random()
    if name == 'flat_indices':
        return p.flat_indices(args[0], free=op['free'])
    if name == 'flat_names':
        return p.flat_names(op['free'])
    if name == 'freeing_jacobian':
        return p.freeing_jacobian(args[0], sparse=op.get('sparse', True))
    if name == 'unfreeing_jacobian':
        return p.unfreeing_jacobian(args[0], sparse=op.get('sparse', True))
    if name == 'as_dict':
        return p.as_dict()
    if name == 'empty' and not op['vs'] % 2:
        v = p.empty(valid=False)
        for a in M.arrays_in(v):
            a[...] = 0
        return v
    return O.call(p, s, op, args)


def norm(v):
    if hasattr(v, 'toarray'):
        return v.toarray()
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray) and v.dtype.kind in 'US':
        return [str(x) for x in v]
    return v


def outcome(fn):
    r = M.outcome(fn)
    return r


def isolated(s, op):
    p = M.build(s)
    args = O.make_args(s, op)
    r = outcome(lambda: raw_call(p, s, op, args))
    return (r[0],) + tuple(norm(x) for x in r[1:])


def garbage(v, seed=0):
    """Overwrite everything the caller can overwrite in v."""
    n = 0
    for a in M.arrays_in(v):
        if a.size and a.flags.writeable:
            if a.dtype.kind == 'f':
                a[...] = -777.25
            elif a.dtype.kind == 'i':
                a[...] = 7
            elif a.dtype.kind == 'b':
                a[...] = ~a
            elif a.dtype.kind in 'US':
                a[...] = '?'
            else:
                continue
            n += 1
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)):
                n += garbage(v[k])
            elif not isinstance(v[k], np.ndarray) and not hasattr(v[k], 'tocoo'):
                v[k] = 'garbage'
                n += 1
        v['garbage'] = 1
        if len(v) > 2:
            v.pop(list(v)[0])
        n += 1
    elif isinstance(v, list):
        for i in range(len(v)):
            if isinstance(v[i], (dict, list)):
                n += garbage(v[i])
            elif not isinstance(v[i], np.ndarray):
                v[i] = 5
                n += 1
        v.append('garbage')
        n += 1
    return n


def execute(sc, ctx):
    spec = sc['spec']
    kept = []
    root = build_with_lists(spec, kept)
    tg = pairs(root, spec)
    held = []          # what the caller holds: [kind, object, snapshot, group]
    scribbled = 0
    used_after = 0

    def check_held(what, skip=()):
        for h in held:
            if h['id'] in skip or h['dead']:
                continue
            if M.snap(h['obj']) != h['snap']:
                raise Violation('changed', '{}: changed {} of {}'.format(
                    what, h['kind'], h['what']))

    def live(v):
        return v if isinstance(v, (np.ndarray, dict, list)) or \
            hasattr(v, 'tocoo') else None

    uid = 0
    last_args = {}
    for i, st in enumerate(sc['steps']):
        if st['do'] == 'op':
            op = st['op']
            p, s = tg[st['on'] % len(tg)]
            what = 'step {} {} on {}'.format(i, json.dumps(op), json.dumps(s))
            args = O.make_args(s, op)
            before = M.snap(args)
            got = outcome(lambda: raw_call(p, s, op, args))
            want = oracle.call(__name__, 'isolated', s, op)
            d = M.same_outcome((got[0],) + tuple(norm(x) for x in got[1:]),
                               want)
            if d:
                raise Violation('later-call', '{}: differs from the call on '
                                'a pattern nobody has touched: {}'.format(what, d))
            e = O.expected(s, op) if op['op'] != 'random' else None
            if e is not None:
                d = M.same_outcome(got, e, rtol=1e-6, atol=1e-8)
                if d:
                    raise Violation('wrong-result', '{}: {}'.format(what, d))
            used_after += scribbled > 0
            if M.snap(args) != before:
                raise Violation('argument', what + ': changed its argument')
            check_held(what)
            ctx.note(i, op['op'], got[0], M.digest(norm(got[1])))
            # a non-free fold may be a view of its argument: same group
            free = op['free'] if op['free'] is not None else s['fd']
            view = op['op'] == 'fold' and not free
            group = uid
            res = live(got[1]) if got[0] == 'ok' else None
            if res is not None and any(a.dtype == object
                                       for a in M.arrays_in(res)):
                res = None           # made of the argument's own objects
            if res is not None and not view:
                for a in M.arrays_in(res):
                    for h in [x for x in held if not x['dead']] + \
                            [{'obj': args, 'kind': 'its argument', 'what': ''}]:
                        for b in M.arrays_in(h['obj']):
                            if a.size and b.size and np.shares_memory(a, b):
                                raise Violation(
                                    'shares-memory', '{}: the result shares '
                                    'memory with {} {}'.format(
                                        what, h['kind'], h['what']))
            for a in args:
                if live(a) is not None:
                    held.append({'id': uid, 'kind': 'the argument', 'obj': a,
                                 'snap': M.snap(a), 'what': what,
                                 'group': group if view else uid,
                                 'dead': False, 'arg': True, 'op': op, 't': s['t']})
                    uid += 1
            if res is not None:
                held.append({'id': uid, 'kind': 'the result', 'obj': res,
                             'snap': M.snap(res), 'what': what,
                             'group': group if view else uid,
                             'dead': False, 'arg': False, 'op': op, 't': s['t']})
                uid += 1
        else:
            if st['what'] == 'constructor':
                for x in kept:
                    garbage(x)
                scribbled += bool(kept)
                ctx.count('fault:overwritten-constructor-list', len(kept))
                continue
            cands = [h for h in held if not h['dead'] and
                     h['arg'] == (st['what'] == 'arg')]
            if not cands:
                continue
            h = cands[st['j'] % len(cands)]
            together = [x for x in held if x['group'] == h['group']]
            n = garbage(h['obj'])
            if not n:
                continue
            scribbled += 1
            ctx.count('fault:overwritten-' + st['what'])
            ctx.cover.append('{}/{}/{}'.format(h['op']['op'], h['t'], st['what']))
            for x in together:
                x['dead'] = True
            check_held('overwriting {} of {}'.format(h['kind'], h['what']))
            ctx.note(i, 'scribble', h['id'])
    ctx.nontrivial = used_after > 0
    for (p, s) in tg:
        f = M.build(s)
        d = O.same_probe(O.probe(p, s, deep=s is spec),
                         oracle.probe(s, deep=s is spec))
        if d:
            raise Violation('changed-pattern', 'at the end, {}: {}'.format(
                json.dumps(s), d))
        if not (p == f and f == p):
            raise Violation('changed-pattern', 'at the end, not equal: ' +
                            json.dumps(s))
    check_held('at the end')
