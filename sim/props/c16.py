"""C16: log entries are an immutable history of the optimisation."""

import numpy as np

from .. import model as M
from .. import precond as P
from ..core import Violation, ScenarioInvalid

ID = 'C16'
RUNS = {'quick': 4000, 'thorough': 150000}
MIN_RUNS = 1000
RULE = ('a run is a history of 3-40 logged evaluations on 1-2 objectives by a '
        'caller that reuses, overwrites and updates its argument, gradient '
        'and Hessian arrays, and of real scipy optimisations (which reuse '
        'their own), some of which fail half way; non-trivial if a log with '
        'at least two entries was compared after something was overwritten; '
        'distinct by event log')
COVER = 'operation x kind of argument x log_every'
REAL = 'paragami, autograd, scipy.optimize, numpy'
STUB = 'the objective (records its arguments, fails on request)'

METHODS = ['BFGS', 'CG', 'L-BFGS-B', 'Nelder-Mead', 'Newton-CG', 'trust-ncg',
           'Powell', 'trust-krylov', 'TNC', 'SLSQP', 'COBYLA', 'dogleg',
           'trust-exact']
ARGS = ['buffer', 'buffer', 'buffer', 'view', 'stride', 'reverse', 'fresh',
        'int', 'scalar', '0d', 'list', 'F', '2d', 'row', 'alias', 'readonly']
SCRIBBLE = ['fill', 'add', 'nan', 'swap', 'copyto', 'zero']


def gen_op(rng, n):
    w = rng.randrange(n)
    r = rng.random()
    if r < .55:
        return {'op': 'f', 'w': w, 'vs': rng.randrange(2 ** 31),
                'x': rng.choice(ARGS), 'then': rng.choice(SCRIBBLE + [None]),
                'ret': rng.choice(['', '', '', 'buffer', '0d'])}
    if r < .7:
        return {'op': rng.choice(['grad', 'hessian', 'hvp']), 'w': w,
                'vs': rng.randrange(1000),
                'x': rng.choice(['buffer', 'buffer', 'fresh', 'view']),
                'then': rng.choice(SCRIBBLE)}
    if r < .78:
        return {'op': 'scribble', 'how': rng.choice(SCRIBBLE)}
    if r < .87:
        return {'op': 'minimize', 'w': w, 'm': rng.choice(METHODS),
                'vs': rng.randrange(1000),
                'fail': rng.choice([None, None, 2, 5, 9]),
                }
    if r < .92:
        return {'op': 'log_every', 'w': w, 'n': rng.choice([1, 1, 2, 3])}
    return {'op': rng.choice(['reset_log', 'reset', 'reset_iteration_count']),
            'w': w}


def generate(rng):
    n = rng.choice([1, 1, 2])
    if rng.random() < .04:
        # a long optimisation
        return {'params': {'n': n, 'dim': 2, 'seed': rng.randrange(2 ** 31),
                           'sub': False},
                'ops': [{'op': 'many', 'w': rng.randrange(n),
                         'k': rng.choice([70, 150, 300, 700, 1500, 4000]),
                         'vs': rng.randrange(2 ** 31)}
                        for _ in range(rng.choice([1, 2, 3]))] +
                [gen_op(rng, n) for _ in range(3)]}
    return {'params': {'n': n, 'dim': rng.choice([2, 2, 3, 4]),
                       'seed': rng.randrange(2 ** 31), 'sub': rng.random() < .2},
            'ops': [gen_op(rng, n) for _ in range(rng.choice([3, 8, 20, 40]))]}


class Obj:
    def __init__(self, w, fun):
        import paragami as pg
        self.o = pg.OptimizationObjective(fun, print_every=0, log_every=1)
        self.every = 1
        self.n = 0
        self.log = []
        self.kept = []           # (log object, what it held)


def scribble(a, how):
    if not isinstance(a, np.ndarray) or a.size == 0 or not a.flags.writeable:
        return False
    if how == 'fill':
        a[...] = 77
    elif how == 'add':
        a += 1
    elif how == 'nan':
        a[...] = np.nan if a.dtype.kind == 'f' else -9
    elif how == 'swap':
        a[...] = np.array(a).reshape(-1)[::-1].reshape(a.shape) * 3 + 1
    elif how == 'copyto':
        np.copyto(a, np.arange(a.size).reshape(a.shape) - 50,
                  casting='unsafe')
    else:
        a *= 0
    return True


class World:
    def __init__(self, sc, ctx):
        p = sc['params']
        self.ctx = ctx
        self.d = p['dim']
        self.seen = []           # (copy of argument, value) per evaluation
        self.fail_at = None
        self.ret = ''
        self.ret_buf = np.array(0.0)
        self.buf = np.zeros(self.d)
        self.big = np.zeros(2 * self.d + 1)
        self.big2 = np.zeros((self.d, self.d))
        obj = P.Objective(self.d, p['seed'], True)
        plain = obj.fun()
        import autograd.numpy as anp
        from autograd.tracer import isbox

        def fun(x):
            if isbox(x):
                return plain(x)
            self.ctx.clock.advance(1e-3)
            if self.fail_at is not None:
                self.fail_at -= 1
                if self.fail_at == 0:
                    self.ctx.count('fault:failing-objective')
                    raise M.InjectedFailure('objective')
            a = np.asarray(x, dtype=float)
            v = plain(a) if a.shape == (self.d,) else \
                np.sum(anp.cos(a)) + np.sum(a) / 10
            if self.ret == 'buffer':
                self.ret_buf[...] = v
                r = self.ret_buf
            elif self.ret == '0d':
                r = np.array(v)
            else:
                r = v
            self.seen.append((M.copy_value(np.array(x) if
                                           isinstance(x, np.ndarray) else x),
                              float(v)))
            return r
        self.fun = fun
        self.objs = [Obj(self, fun) for _ in range(p['n'])]

    def argument(self, op):
        r = M.rs(op['vs'])
        d, k = self.d, op['x']
        v = r.normal(size=d)
        if k == 'buffer':
            self.buf[:] = v
            return self.buf
        if k == 'alias':
            self.buf[:] = v
            return self.buf[:]
        if k == 'view':
            self.big[:d] = v
            return self.big[:d]
        if k == 'stride':
            self.big[1:2 * d:2] = v
            return self.big[1:2 * d:2]
        if k == 'reverse':
            self.buf[:] = v
            return self.buf[::-1]
        if k == 'row':
            self.big2[0] = v
            return self.big2[0]
        if k == '2d':
            self.big2[:] = r.normal(size=(d, d))
            return self.big2.T
        if k == 'F':
            return np.asfortranarray(r.normal(size=(d, 2)))
        if k == 'int':
            return np.arange(d) + op['vs'] % 5
        if k == 'scalar':
            return float(v[0])
        if k == '0d':
            return np.array(v[0])
        if k == 'list':
            return [float(a) for a in v]
        if k == 'readonly':
            self.buf[:] = v
            x = self.buf.view()
            x.flags.writeable = False
            return x
        return v

    def took(self, ob, start, what):
        """Evaluations ``start``.. of the recorder were made through ob."""
        for x, v in self.seen[start:]:
            if ob.every > 0 and ob.n % ob.every == 0:
                ob.log.append((ob.n, x, v))
            ob.n += 1
        del self.seen[:]

    def check(self, what):
        for j, ob in enumerate(self.objs):
            for log, want, name in [(ob.o.optimization_log, ob.log, 'the log')
                                    ] + [(a, b, 'an earlier log')
                                         for a, b in ob.kept]:
                if len(log) != len(want):
                    raise Violation('log', '{}: {} of object {} has {} entries '
                                    'and not {}'.format(
                                        what, name, j, len(log), len(want)))
                for i, (g, w) in enumerate(zip(log, want)):
                    g = tuple(g)
                    d = '' if g[0] == w[0] else 'number {} and not {}'.format(
                        g[0], w[0])
                    d = d or M.same(g[1], w[1], exact=True)
                    if not d and not (float(g[2]) == w[2] or
                                      (np.isnan(g[2]) and np.isnan(w[2]))):
                        d = 'value {} and not {}'.format(g[2], w[2])
                    if d:
                        raise Violation('entry', '{}: entry {} of {} of object '
                                        '{}: {}'.format(what, i, name, j, d))


def minimise(w, ob, op, what):
    import scipy.optimize
    import paragami as pg
    r = M.rs(op['vs'])
    x0 = r.normal(size=w.d)
    m = op['m']
    kw = {}
    o, f = ob.o, ob.o.f
    if m not in ('Nelder-Mead', 'Powell', 'COBYLA'):
        kw['jac'] = o.grad
    if m in ('Newton-CG', 'trust-ncg', 'trust-krylov'):
        if op['vs'] % 2:
            kw['hess'] = o.hessian
        else:
            kw['hessp'] = o.hessian_vector_product
    elif m in ('dogleg', 'trust-exact'):
        kw['hess'] = o.hessian
    seen = []

    def callback(xk, *a):
        seen.append(xk)
    if m not in ('TNC', 'COBYLA'):
        kw['callback'] = callback
    res = None
    try:
        res = scipy.optimize.minimize(f, x0, method=m,
                                      options={'maxiter': 8}, **kw)
    except M.InjectedFailure:
        w.ctx.count('optimisations cut short')
    except ValueError:
        pass          # dogleg needs convexity; not our business
    x0[:] = -5
    for x in seen:
        scribble(x, 'fill')
    if res is not None:
        scribble(res.x, 'nan')
        for n in ('jac', 'hess'):
            if isinstance(res.get(n), np.ndarray):
                scribble(res[n], 'fill')
    w.ctx.count('optimisations')


def execute(sc, ctx):
    w = World(sc, ctx)
    wrote = 0
    for i, op in enumerate(sc['ops']):
        k = op['op']
        what = 'op {} {}'.format(i, op)
        ob = w.objs[op.get('w', 0) % len(w.objs)]
        del w.seen[:]
        if k == 'f':
            x = w.argument(op)
            w.ret = op['ret']
            r = ob.o.f(x)
            w.ret = ''
            w.took(ob, 0, what)
            if op['then']:
                if isinstance(x, list):
                    x[:] = [1e9] * len(x)
                elif scribble(x, op['then']):
                    wrote += 1
                if op['ret'] == '0d':
                    scribble(r, 'add')
                ctx.count('fault:overwritten-array')
            ctx.cover.append('f/{}/{}/{}'.format(op['x'], op['then'], ob.every))
        elif k == 'many':
            vs = M.rs(op['vs']).normal(size=(op['k'], w.d))
            for v in vs:
                w.buf[:] = v
                ob.o.f(w.buf)
            w.took(ob, 0, what)
            wrote += 1
            ctx.count('fault:overwritten-array', op['k'])
            ctx.cover.append('many/{}'.format(op['k']))
        elif k in ('grad', 'hessian', 'hvp'):
            x = w.argument(op)
            o = ob.o
            g = o.grad(x) if k == 'grad' else o.hessian(x) if k == 'hessian' \
                else o.hessian_vector_product(x, np.ones(w.d))
            del w.seen[:]
            wrote += scribble(g, op['then'])
            scribble(x, op['then'])
            ctx.count('fault:overwritten-array')
        elif k == 'scribble':
            for a in (w.buf, w.big, w.big2, w.ret_buf):
                scribble(a, op['how'])
            wrote += 1
            ctx.count('fault:overwritten-array')
        elif k == 'minimize':
            w.fail_at = op['fail'] if op['m'] != 'COBYLA' else None
            minimise(w, ob, op, what)
            w.fail_at = None
            w.took(ob, 0, what)
            ctx.cover.append('min/{}/{}/{}'.format(op['m'], op['fail'],
                                                   ob.every))
        elif k == 'log_every':
            ob.o.set_log_every(op['n'])
            ob.every = op['n']
        elif k in ('reset_log', 'reset'):
            ob.kept.append((ob.o.optimization_log, ob.log))
            getattr(ob.o, k)()
            ob.log = []
            if k == 'reset':
                ob.n = 0
        elif k == 'reset_iteration_count':
            ob.o.reset_iteration_count()
            ob.n = 0
        else:
            raise ScenarioInvalid(k)
        w.check(what)
    for a in (w.buf, w.big, w.big2, w.ret_buf):
        scribble(a, 'fill')
    w.check('end')
    for ob in w.objs:
        ctx.note(len(ob.log), M.digest([list(e) for e in ob.log]))
    ctx.nontrivial = wrote > 0 and any(
        len(ob.log) > 1 or any(len(b) > 1 for _, b in ob.kept)
        for ob in w.objs)
