"""C06: an explicit free wins; defaults are the current one of the pattern
called and are never mixed."""

import copy
import io

import numpy as np

from .. import model as M
from .. import ops as O
from .. import oracle
from ..core import Violation, random_sched, yield_here
from ..world import Node

ID = 'C06'
ISOLATED = True
RUNS = {'quick': 4500, 'thorough': 200000}
MIN_RUNS = 500
RULE = ('a run is a history of 4-25 changes of free_default anywhere in a '
        'nested pattern and calls with explicit and default free (serial), or '
        'callers running while another thread changes defaults; non-trivial '
        'if a default was changed before a call; distinct by event log')
COVER = 'operation x free given x default in force x pattern type x threads'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'thread scheduler (threaded runs)'

#: operations whose meaning depends on free
FREE_OPS = ['fold', 'fold', 'flatten', 'flatten', 'flat_indices',
            'flat_length', 'flat_names']
OTHER_OPS = ['empty', 'empty_bool', 'validate', 'freeing_jacobian',
             'unfreeing_jacobian', 'log_det_f', 'log_det_u']


def agree(s, v, top=None):
    """The same pattern where every member has the same default."""
    s = dict(s, fd=top)
    if s['t'] == 'dict':
        s['items'] = [[k, agree(m, v, v)] for k, m in s['items']]
    elif s['t'] == 'array':
        s['base'] = agree(s['base'], v, v)
    return s


def generate(rng):
    spec = M.gen_spec(rng, rng.choice([0, 1, 1, 2, 3]), p_leaf=.2)
    undecided = rng.random() < .3
    if undecided:
        # the members have a default and the container has none (or another)
        v = rng.choice([True, False])
        spec = agree(M.gen_spec(rng, rng.choice([1, 1, 2]), p_leaf=0), v,
                     rng.choice([None, None, None, not v]))
    threaded = rng.random() < .4
    if threaded:
        threads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 2, 4])):
                op = O.gen_op(rng, p_bad=0, names=FREE_OPS + ['fold', 'flatten'] +
                              OTHER_OPS, free=rng.choice([True, False, True,
                                                          False, None]))
                if op['free'] is None:
                    op['free'] = rng.choice([True, False, None])
                op['on'] = 0 if rng.random() < .6 else rng.randrange(8)
                ops.append(op)
            threads.append(ops)
        sets = [{'n': rng.randrange(12) if rng.random() < .6 else 0,
                 'v': rng.choice([True, False, None])}
                for _ in range(rng.choice([1, 2, 4, 8]))]
        return {'spec': spec, 'threads': threads, 'sets': sets,
                'sched': random_sched(rng)}
    steps = []
    for _ in range(rng.choice([4, 8, 15, 25])):
        r = rng.random()
        if r < (.12 if undecided else .35):
            steps.append({'do': 'default', 'n': rng.randrange(12),
                          'v': rng.choice([True, False, None])})
        elif r < .85:
            op = O.gen_op(rng, p_bad=.05, names=FREE_OPS * 2 + OTHER_OPS +
                          ['traced'])
            op['free'] = rng.choice([True, False, None, None] +
                                    [None, None, None] * undecided)
            steps.append({'do': 'op', 'n': rng.choice([0, 0, rng.randrange(12)]),
                          'op': op})
        elif r < .9:
            steps.append({'do': 'wrap', 'n': rng.choice([0, rng.randrange(12)]),
                          'flat': rng.random() < .5, 'vs': rng.randrange(2**31)})
        elif r < .94:
            steps.append({'do': 'random', 'n': rng.choice([0, rng.randrange(12)]),
                          'vs': rng.randrange(2 ** 31)})
        elif r < .97:
            steps.append({'do': 'save', 'n': rng.choice([0, rng.randrange(12)]),
                          'vs': rng.randrange(2 ** 31)})
        else:
            steps.append({'do': 'copy', 'how': rng.choice(['deep', 'json'])})
    return {'spec': spec, 'steps': steps}


def strip(spec):
    """The same pattern with no defaults anywhere."""
    s = dict(spec, fd=None)
    if s['t'] == 'dict':
        s['items'] = [[k, strip(m)] for k, m in s['items']]
    elif s['t'] == 'array':
        s['base'] = strip(s['base'])
    return s


def drawn(spec, seed):
    np.random.seed(seed)
    return M.build(spec).random()


def pure(spec, op, free):
    """The operation with free given, on a pattern without defaults."""
    return O.alone(strip(spec), dict(op, free=free))


def execute(sc, ctx):
    root = Node.make(sc['spec'])
    if 'threads' in sc:
        return threaded(sc, ctx, root)
    changed = used = 0
    wrappers = []
    for i, st in enumerate(sc['steps']):
        do = st['do']
        nodes = list(root.walk())
        n = nodes[st.get('n', 0) % len(nodes)]
        spec = n.spec()
        what = 'step {} ({}) on {}'.format(i, do, M.as_plain(spec))
        if do == 'default':
            n.p.free_default = st['v']
            n.own['fd'] = st['v']
            if n.p.free_default is not st['v']:
                raise Violation('default', what + ': not what was set')
            changed += 1
            ctx.note(i, 'default', str(st['v']))
        elif do == 'op':
            op = st['op']
            free = op['free'] if op['free'] is not None else spec['fd']
            ctx.cover.append('{}/{}/{}/{}/serial'.format(
                op['op'], op['free'], spec['fd'], spec['t']))
            depends = op['op'] in FREE_OPS + ['traced']
            use = dict(op, free=bool(free)) if free is not None \
                else dict(op, free=False)
            args = O.make_args(strip(spec), use)
            got = M.outcome(lambda: O.call(n.p, spec, op, args))
            used += bool(changed)
            if depends and free is None:
                if op.get('bad'):
                    ok = True       # (not every "bad" argument is rejected)
                elif op['op'] == 'flat_indices' and \
                        got[0] == 'ok' and len(got[1]) == 0 and \
                        not any(a.any() for a in M.arrays_in(args)):
                    ok = True       # nothing selected: same either way
                elif op['op'] == 'flat_names' and got[0] == 'ok' and \
                        spec['t'] in ('num', 'vec', 'scalar'):
                    ok = True       # the names are the same either way
                else:
                    ok = got[0] == 'err' and got[1] == 'ValueError'
                if not ok:
                    raise Violation('no-default', '{}: {} without free and '
                                    'without a default {}'.format(
                                        what, op['op'], M.brief(got)))
            else:
                want = pure(spec, op, use['free'])
                d = M.same_outcome(got, want)
                if d:
                    raise Violation('free', '{}: {} (default {}) and the same '
                                    'call with free={} where no defaults exist '
                                    'differ: {}'.format(
                                        what, op, spec['fd'], free, d))
                e = O.expected(strip(spec), use)
                if e is not None and depends:
                    d = M.same_outcome(got, e, rtol=1e-6, atol=1e-8)
                    if d:
                        raise Violation('free-reference', '{}: {} (default {})'
                                        ' and the reference differ: {}'.format(
                                            what, op, spec['fd'], d))
            ctx.note(i, op['op'], M.digest(got[1]))
        elif do == 'wrap':
            # a wrapper built with free=None asks the pattern at each call
            import paragami as pg
            cls = pg.FoldFunctionInput if st['flat'] else pg.FlattenFunctionInput
            w = cls(lambda x: x, n.p, free=None, argnums=0)
            wrappers.append((w, n, st))
            ctx.note(i, 'wrap')
        elif do == 'random':
            np.random.seed(st['vs'] % 2 ** 32)
            a = n.p.random()
            b = oracle.call(__name__, 'drawn', strip(spec), st['vs'] % 2 ** 32)
            d = M.same(a, b)
            if d:
                raise Violation('random', what + ': depends on defaults: ' + d)
            ctx.note(i, 'random', M.digest(a))
        elif do == 'save':
            import paragami as pg
            v = M.value(spec, st['vs'])
            f = io.BytesIO()
            pg.save_folded(f, v, n.p)
            f.seek(0)
            v2, p2, data = pg.load_folded(f)
            d = M.same(v2, v, exact=True) or \
                M.same(np.array(data['flat_val']), M.ref_flatten(spec, v))
            if d:
                raise Violation('save', what + ': depends on defaults: ' + d)
            if p2.free_default is not spec['fd']:
                raise Violation('save', what + ': default not recorded')
            ctx.note(i, 'save')
        else:
            if st['how'] == 'deep':
                q = copy.deepcopy(root.p)
            else:
                import paragami as pg
                q = pg.get_pattern_from_json(root.p.to_json())
            root = Node.around(q, root.spec())
            ctx.note(i, 'copy')
        for w, m, ws in wrappers:
            s = m.spec()
            free = s['fd']
            op = {'op': 'flatten' if ws['flat'] else 'fold', 'free': free,
                  'vv': None, 'vs': ws['vs']}
            args = O.make_args(strip(s), dict(op, free=bool(free)))
            got = M.outcome(lambda: w(args[0]))
            want = ('err', 'ValueError', '') if free is None else \
                pure(s, op, free)
            d = M.same_outcome(got, want)
            if d:
                raise Violation('wrapper', 'after {}: a wrapper without free '
                                'on {} (default {}): {}'.format(
                                    what, M.as_plain(s), free, d))
    # reads of everything recorded
    root.check('at the end', seed=5, deep=False)
    ctx.nontrivial = used > 0


def threaded(sc, ctx, root):
    nodes = list(root.walk())
    n = len(nodes)
    spec = root.spec()
    threads = sc['threads']
    taken = {}
    for j in range(n):
        taken[j] = {str(nodes[j].own['fd']): nodes[j].own['fd']}
    for s in sc['sets']:
        taken[s['n'] % n][str(s['v'])] = s['v']

    def expected():
        out = []
        for t in threads:
            row = []
            for op in t:
                s = nodes[op['on'] % n].spec()
                if op['free'] is not None:
                    row.append([pure(s, op, op['free'])])
                else:
                    ws = []
                    for v in taken[op['on'] % n].values():
                        ws.append(('err', 'ValueError', 'no default')
                                  if v is None else pure(s, op, v))
                    row.append(ws)
            out.append(row)
        return out
    want = expected()
    results = [[] for _ in threads]

    def body(i):
        def run():
            for op in threads[i]:
                m = nodes[op['on'] % n]
                free = op['free']
                if free is None:
                    # an argument that fits whatever the default is
                    free = False
                args = O.make_args(strip(m.spec()), dict(op, free=free))
                if op['free'] is None and op['op'] == 'fold':
                    results[i].append(None)
                    continue
                s = m.spec()
                results[i].append(M.outcome(lambda: O.call(m.p, s, op, args)))
        return run

    def changer():
        for s in sc['sets']:
            yield_here(('set', 0))
            nodes[s['n'] % n].p.free_default = s['v']
            ctx.count('fault:default-changed')
        yield_here(('set', 1))
    sim = ctx.run_threads([body(i) for i in range(len(threads))] + [changer],
                          sc['sched'])
    ctx.nontrivial = sim.stats.get('preemptions', 0) > 0
    for i, t in enumerate(threads):
        for j, op in enumerate(t):
            got = results[i][j]
            if got is None:
                continue
            s = nodes[op['on'] % n].spec()
            ctx.note(i, op['op'], got[0], M.digest(got[1]))
            ctx.cover.append('{}/{}/{}/{}/threads'.format(
                op['op'], op['free'], '', s['t']))
            ds = []
            if op['op'] == 'flat_indices' and op['free'] is None and \
                    got[0] == 'ok' and len(got[1]) == 0:
                continue
            if op['op'] == 'flat_names' and op['free'] is None and \
                    s['t'] in ('num', 'vec', 'scalar'):
                continue
            for w in want[i][j]:
                if op['op'] not in FREE_OPS and w[:2] == ('err', 'ValueError') \
                        and w[2] == 'no default':
                    w = want[i][j][-1]
                    w = pure(s, op, False)
                ds.append(M.same_outcome(got, w))
            if all(ds):
                raise Violation('free-threads', 'thread {} {} on {} while '
                                'another thread changed defaults: {}'.format(
                                    i, op, M.as_plain(s), ds[0]))
    del spec
