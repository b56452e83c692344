"""C13: the latest preconditioner is the one in force, everywhere."""

import autograd
import numpy as np

from .. import precond as P
from ..core import Violation, random_sched, yield_here
from .. import model as M

ID = 'C13'
RUNS = {'quick': 2600, 'thorough': 60000}
MIN_RUNS = 500
RULE = ('a run is a history of 4-25 settings and uses of 1-4 preconditioned '
        'functions of one objective (with optimisation objectives on top of '
        'them), serial or followed by 2-3 threads with one object each; '
        'non-trivial if a use was compared after a second setting; distinct '
        'by event log')
COVER = 'setting x previous setting x use x mode'
REAL = 'paragami, autograd, scipy.sparse, scikit-sparse, numpy'
STUB = 'the objective and user-supplied multiplication functions, thread scheduler'


def gen_op(rng, n, threads=False):
    w = rng.randrange(n)
    if rng.random() < .4:
        return {'op': 'set', 'w': w, 's': P.gen_setting(rng, threads)}
    if not threads and rng.random() < .05:
        return {'op': 'nest', 'w': w, 'ms': rng.randrange(6),
                'kind': rng.choice(['general', 'triangular', 'diagonal']),
                'cast': rng.choice(['C', 'F', 'view', 'csc']),
                'vs': rng.randrange(2 ** 31)}
    u = rng.choice(P.PLAIN_USES + ['grad', 'jac_un', 'jac_pre', 'jvp']
                   if threads else P.USES + ['o.f', 'o.grad', 'o.hessian',
                                             'o.hvp', 'everything'])
    return {'op': 'use', 'w': w, 'u': u, 'vs': rng.randrange(2 ** 31)}


def generate(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    sc = {'params': {'dim': rng.choice([1, 2, 2, 3, 3, 4, 5]),
                     'spd': rng.random() < .6,
                     'seed': rng.randrange(2 ** 31), 'n': n,
                     'one': rng.random() < .5},
          'ops': [gen_op(rng, n) for _ in range(rng.choice([4, 8, 15, 25]))]}
    if rng.random() < .25:
        sc['params']['n'] = n = max(n, 2)
        k = rng.randint(2, min(3, n))
        sc['threads'] = [[dict(gen_op(rng, n, True), w=i)
                          for _ in range(rng.choice([1, 3, 6]))]
                         for i in range(k)]
        sc['sched'] = random_sched(rng)
    return sc


def execute(sc, ctx):
    p = sc['params']
    obj = P.Objective(p['dim'], p['seed'], p['spd'],
                      lambda site: yield_here(('callback', site)))
    fun = obj.fun()
    pool = {}
    objs = []
    for i in range(p['n']):
        if i and not p['one']:
            obj = P.Objective(p['dim'], p['seed'] + i, p['spd'],
                              lambda site: yield_here(('callback', site)))
            fun = obj.fun()
        objs.append(P.Pre(obj, fun, pool))
    import paragami as pg
    tops = [pg.OptimizationObjective(o.f, print_every=0) for o in objs]
    seen = [0, 0]
    nested = []

    def do(op, i, mode):
        w = objs[op['w'] % len(objs)]
        what = 'op {} {}'.format(i, op)
        if op['op'] == 'set':
            old = w.kind
            w.set(op['s'], what)
            ctx.cover.append('{}>{}/{}'.format(old, w.kind, mode))
            seen[0] += 1
            # the others are not affected
            if mode == 'serial':
                for j, o in enumerate(objs):
                    o.use(('precondition', 'unprecondition')[(i + j) % 2],
                          i + j, what + ': object {}'.format(j))
            return
        if op['op'] == 'nest':
            nested.append(Nested(w, op))
            for j, x in enumerate(nested):
                x.check(op['vs'] + j, what)
            return
        u = op['u']
        if u.startswith('o.'):
            top(tops[op['w'] % len(objs)], w, u, op['vs'], what)
        elif u == 'everything':
            for v in P.USES:
                w.use(v, op['vs'], what)
        else:
            w.use(u, op['vs'], what)
        if seen[0] > 1:
            seen[1] += 1
        ctx.cover.append('{}/{}/{}'.format(w.kind, u, mode))

    for i, op in enumerate(sc['ops']):
        do(op, i, 'serial')
        if op['op'] == 'set':
            for j, x in enumerate(nested):
                x.check(i + j, 'after op {} {}'.format(i, op))
    if sc.get('threads'):
        def body(k):
            def run():
                for j, op in enumerate(sc['threads'][k]):
                    do(op, 't%d.%d' % (k, j), 'threads')
            return run
        ctx.run_threads([body(k) for k in range(len(sc['threads']))],
                        sc['sched'])
    for j, o in enumerate(objs):
        for u in P.USES:
            o.use(u, 11 + j, 'end: object {}'.format(j))
        ctx.note(M.digest([o.a, o.b]), o.kind)
    ctx.nontrivial = seen[0] > 1


class Nested:
    """A preconditioned function of a preconditioned function."""

    def __init__(self, w, op):
        from paragami.optimization_lib import PreconditionedFunction
        self.w = w
        self.f = PreconditionedFunction(w.f)
        self.m = P.matrix(op['kind'], w.d, op['ms'] + 1)
        self.f.set_preconditioner_matrix(P.cast(self.m, op['cast']))

    def check(self, vs, what):
        w, r = self.w, M.rs(vs)
        x = r.normal(size=w.d)
        a = w.a @ self.m
        for n, got, want in (
                ('value', self.f(x), w.o.value(a @ x)),
                ('gradient', autograd.grad(self.f)(x), a.T @ w.o.grad(a @ x)),
                ('unprecondition', self.f.unprecondition(x), self.m @ x),
                ('precondition', self.f.precondition(self.m @ x), x)):
            e = M.same(np.asarray(got), np.asarray(want), rtol=P.RTOL,
                       atol=P.ATOL)
            if e:
                raise Violation('nested', '{}: {} of a preconditioned function '
                                'of a preconditioned function ("{}" in force '
                                'on the inner one): {}'.format(
                                    what, n, w.kind, e))


def top(t, w, u, vs, what):
    """Derivatives of an optimisation objective made before the setting."""
    r = M.rs(vs)
    x, v = r.normal(size=w.d), r.normal(size=w.d)
    a, o = w.a, w.o
    if u == 'o.f':
        got, want = t.f(x), o.value(a @ x)
    elif u == 'o.grad':
        got, want = t.grad(x), a.T @ o.grad(a @ x)
    elif u == 'o.hessian':
        got, want = t.hessian(x), a.T @ o.hess(a @ x) @ a
    else:
        got = t.hessian_vector_product(x, v)
        want = a.T @ (o.hess(a @ x) @ (a @ v))
    e = M.same(np.asarray(got), np.asarray(want), rtol=P.RTOL, atol=P.ATOL)
    if e:
        raise Violation('in-force', '{}: {} with preconditioner "{}" in force: '
                        '{}'.format(what, u, w.kind, e))
