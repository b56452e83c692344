"""C18: differentiable operators stay bound to their own matrix."""

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg

from .. import model as M
from .. import precond as P
from ..core import Violation, ScenarioInvalid, random_sched, yield_here

ID = 'C18'
RUNS = {'quick': 2600, 'thorough': 80000}
MIN_RUNS = 700
RULE = ('a run is a history of making 2-10 operators (products, solvers, '
        'square roots) and 3-25 evaluations and first to third order forward '
        'and reverse derivatives of nonlinear compositions of several of '
        'them, with solver callbacks that fail at chosen calls, rejected '
        'arguments and failed constructions, serial or followed by 2-3 '
        'threads; non-trivial if a derivative of a composition of two '
        'operators was compared; distinct by event log')
COVER = 'derivative x kinds of operators composed x outcome'
REAL = 'paragami, autograd, scipy.sparse (products, SuperLU), scikit-sparse'
STUB = 'the solver callbacks (fail on request), thread scheduler'

EXC = {'InjectedFailure': M.InjectedFailure, 'ValueError': ValueError,
       'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'LinAlgError': np.linalg.LinAlgError, 'RuntimeError': RuntimeError,
       'NotImplementedError': NotImplementedError,
       'FloatingPointError': FloatingPointError, 'TypeError': TypeError}
DERIVS = ['value', 'value', 'grad', 'grad', 'jacobian', 'jvp', 'jvp', 'hessian',
          'hvp', 'jvp_grad', 'grad_jvp', 'jvp_jvp', 'third', 'vjp_fun',
          'hess_vec']
SINGLE = ['value', 'grad', 'jacobian', 'jvp']
LIKE = ['near-sym', 'near-sym', 'near-skew', 'sym', 'diag', 'tiny',
        'perm', 'near-eye']
PLAIN = ['normal', 'normal', 'inf', 'nan', 'zeros', 'tiny', 'huge', 'int',
         'readonly', 'strided']


def gen_make(rng):
    k = rng.choice(['product', 'product', 'solver', 'solver', 'root'])
    op = {'op': 'make', 'k': k, 'ms': rng.randrange(2 ** 31)}
    if k == 'product':
        op.update(m=rng.choice([0, 0, 1, 2, 3]),     # extra rows
                  cast=rng.choice(sorted(P.FORMATS) + ['C', 'F']),
                  density=rng.choice([.3, .6, 1.0]))
        if rng.random() < .3:
            # all but symmetric, skew, diagonal, or of another magnitude
            op['like'] = rng.choice(LIKE)
    elif k == 'solver':
        op.update(how=rng.choice(['dense', 'factorized', 'splu', 'spsolve',
                                  'tri']), swap=rng.random() < .2,
                  shared=rng.random() < .2)
    else:
        op['cast'] = rng.choice(sorted(P.FORMATS))
    return op


def gen_expr(rng, n):
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        steps.append({'o': rng.randrange(n), 't': rng.random() < .5,
                      'f': rng.choice(['', 'sin', 'tanh', 'sq', 'mix', 'exp'])})
    return steps


def gen_eval(rng, n, single=False):
    e = {'op': 'eval', 'd': rng.choice(SINGLE if single else DERIVS),
         'e': gen_expr(rng, n), 'vs': rng.randrange(2 ** 31)}
    if rng.random() < .15:
        e['at'] = rng.choice([1, 1, 2, 3, 4, 6])
        e['exc'] = rng.choice(sorted(EXC))
    return e


def gen_op(rng, n):
    r = rng.random()
    if r < .18:
        return gen_make(rng)
    if r < .2:
        return {'op': 'many', 'n': rng.choice([5, 20, 33, 70]),
                'm': rng.randrange(3), 'keep': rng.choice([0, 0, 1, 2]),
                'k': rng.choice(['product', 'product', 'solver']),
                'vs': rng.randrange(2 ** 31)}
    if r < .22:
        return {'op': 'plain', 'vs': rng.randrange(2 ** 31),
                'a': [rng.choice(PLAIN), rng.choice(PLAIN)],
                'arg': rng.choice(PLAIN), 'd': rng.choice(
                    ['value', 'value', 'grad', 'jvp'])}
    if r < .28:
        return {'op': 'remake', 'o': rng.randrange(n),
                'ms': rng.randrange(2 ** 31)}
    if r < .36:
        return {'op': 'bad', 'o': rng.randrange(n), 't': rng.random() < .5,
                'b': rng.choice(['3d', 'long', 'short', 'str', 'none'])}
    if r < .42:
        return {'op': 'badmake', 'b': rng.choice(['1d', '3d', 'dense_hess',
                                                  'indef', 'rect'])}
    if r < .5:
        return {'op': 'matrix_arg', 'o': rng.randrange(n),
                't': rng.random() < .5, 'vs': rng.randrange(1000),
                'k': rng.choice([1, 2, 3]),
                'd': rng.choice(['value', 'jvp', 'grad', 'list'])}
    return gen_eval(rng, n)


def generate(rng):
    n = rng.choice([2, 3, 4, 6])
    sc = {'params': {'dim': rng.choice([1, 2, 3, 3, 4, 5])},
          'make': [gen_make(rng) for _ in range(n)],
          'ops': [gen_op(rng, n) for _ in range(rng.choice([3, 8, 15, 25]))]}
    if rng.random() < .25:
        sc['threads'] = [[gen_eval(rng, n, True)
                          for _ in range(rng.choice([1, 2, 4]))]
                         for _ in range(rng.choice([2, 2, 3]))]
        for t in sc['threads']:
            for e in t:
                e.pop('at', None)
                if rng.random() < .15:
                    e['mk'] = gen_make(rng)
        sc['sched'] = random_sched(rng)
    return sc


def like(kind, z, d, r):
    """A matrix that is easily taken for one with more structure."""
    eps = 10. ** -r.randint(4, 11)
    q = z[:d]
    if kind == 'near-sym':
        return q + q.T + eps * r.normal(size=(d, d))
    if kind == 'near-skew':
        return q - q.T + eps * r.normal(size=(d, d))
    if kind == 'near-eye':
        return np.eye(d) + eps * r.normal(size=(d, d))
    if kind == 'sym':
        return q + q.T
    if kind == 'diag':
        return np.diag(r.normal(size=d))
    if kind == 'perm':
        return np.eye(d)[r.permutation(d)]
    return z * 1e-9


class Operator:
    """A pair of functions and their dense matrices."""

    def __init__(self, d, op):
        from paragami.autograd_supplement_lib import (
            get_sparse_product, get_differentiable_solver)
        self.op, self.k, self.d = op, op['k'], d
        r = M.rs(op['ms'])
        if self.k == 'product':
            m = d + op['m']
            z = r.normal(size=(m, d)) * (r.uniform(size=(m, d)) < op['density'])
            if op.get('like'):
                z = like(op['like'], z, d, r)
            self.arg = P.cast(z, op['cast'])
            self.set(get_sparse_product(self.arg), z, z.T)
        elif self.k == 'solver':
            z = P.matrix('general', d, op['ms'])
            if op['how'] == 'tri':
                z = P.matrix('triangular', d, op['ms'])
            zi = np.linalg.inv(z)
            f, ft = self.callbacks(z, op['how'])
            self.arg = None
            if op['swap']:
                f, ft, zi = ft, f, zi.T
            if op['shared']:
                # the pair of a pair: built on differentiable solvers
                f, ft = get_differentiable_solver(f, ft)
            self.set(get_differentiable_solver(f, ft), zi, zi.T)
        else:
            from paragami.sparse_preconditioners_lib import \
                get_sym_matrix_inv_sqrt_funcs
            h = P.matrix('sparse-spd', d, op['ms'])
            self.arg = P.cast(h, op['cast'])
            fns = get_sym_matrix_inv_sqrt_funcs(self.arg)
            self.root(fns, h)

    def root(self, fns, h):
        d = self.d
        a, b = (np.column_stack([np.array(f(c)) for c in np.eye(d)])
                for f in fns)
        e = M.same(a.T @ a, h, rtol=1e-7, atol=1e-9) or \
            M.same(a @ b, np.eye(d), rtol=1e-7, atol=1e-9)
        if e:
            raise Violation('root', 'not a square root of its Hessian and the '
                            'inverse: {}'.format(e))
        self.set(fns, a, b)

    def set(self, fns, a, b):
        self.fns, self.mats = tuple(fns), (a, b)

    @staticmethod
    def callbacks(z, how):
        if how == 'splu':
            lu = scipy.sparse.linalg.splu(sp.csc_matrix(z))
            f, ft = lu.solve, (lambda b: lu.solve(b, trans='T'))
        elif how == 'factorized':
            f = scipy.sparse.linalg.factorized(sp.csc_matrix(z))
            ft = scipy.sparse.linalg.factorized(sp.csc_matrix(z.T))
        elif how == 'spsolve':
            a, at = sp.csc_matrix(z), sp.csc_matrix(z.T)
            f = lambda b: scipy.sparse.linalg.spsolve(a, b)
            ft = lambda b: scipy.sparse.linalg.spsolve(at, b)
        else:
            f = lambda b: np.linalg.solve(z, b)
            ft = lambda b: np.linalg.solve(z.T, b)

        def wrap(g, name):
            def callback(b):
                M.FUSE(name)
                r = g(b)
                yield_here((name, 'end'))
                return r
            return callback
        return wrap(f, 'solve'), wrap(ft, 'solve transposed')

    def remake(self, ms):
        """The caller changes its matrix in place and makes a new pair."""
        from paragami.autograd_supplement_lib import get_sparse_product
        if self.k == 'product':
            if sp.issparse(self.arg):
                self.arg.data[:] = M.rs(ms).normal(size=self.arg.data.shape)
                z = self.arg.toarray()
            else:
                self.arg[:] = M.rs(ms).normal(size=self.arg.shape)
                z = np.array(self.arg)
            self.set(get_sparse_product(self.arg), z, z.T)
        elif self.k == 'root':
            from paragami.sparse_preconditioners_lib import \
                get_sym_matrix_inv_sqrt_funcs
            self.arg.data *= 1 + ms % 7 / 3
            self.root(get_sym_matrix_inv_sqrt_funcs(self.arg),
                      self.arg.toarray())
        else:
            self.__init__(self.d, dict(self.op, ms=ms))


NONLIN = {
    '': lambda y: y,
    'sin': lambda y: anp.sin(y),
    'tanh': lambda y: anp.tanh(y),
    'sq': lambda y: 0.3 * y ** 2 + y,
    'exp': lambda y: anp.exp(-0.1 * y ** 2),
    'mix': lambda y: y * anp.sum(anp.cos(y)) / 3,
}


def function(ops, expr, dense):
    """x -> vector, through the operators or through dense products."""
    def f(x):
        y = x
        for s in expr:
            o = ops[s['o'] % len(ops)]
            first = 1 if s['t'] else 0
            if o.k == 'product':
                # rectangular: there and back
                idx = [0, 1]
            else:
                idx = [first]
            for i in idx:
                y = anp.dot(o.mats[i], y) if dense else o.fns[i](y)
                y = NONLIN[s['f']](y)
                y = y / (1.0 + 0.1 * anp.sum(y ** 2))
        return y + 0.1 * x
    return f


def derivative(kind, f, d, vs):
    r = M.rs(vs)
    x, v, u, w = (r.normal(size=d) for _ in range(4))

    def g(y):
        return anp.sum(w * f(y) ** 2)
    if kind == 'value':
        return f(x)
    if kind == 'grad':
        return autograd.grad(g)(x)
    if kind == 'jacobian':
        return autograd.jacobian(f)(x)
    if kind == 'jvp':
        return autograd.make_jvp(f)(x)(v)[1]
    if kind == 'hessian':
        return autograd.hessian(g)(x)
    if kind == 'hvp':
        return autograd.hessian_vector_product(g)(x, v)
    if kind == 'hess_vec':
        return autograd.jacobian(autograd.jacobian(f))(x)
    if kind == 'jvp_grad':
        return autograd.make_jvp(autograd.grad(g))(x)(v)[1]
    if kind == 'grad_jvp':
        return autograd.grad(
            lambda y: anp.dot(u, autograd.make_jvp(f)(y)(v)[1]))(x)
    if kind == 'jvp_jvp':
        return autograd.make_jvp(
            lambda y: autograd.make_jvp(f)(y)(v)[1])(x)(u)[1]
    if kind == 'third':
        return autograd.make_jvp(autograd.hessian(g))(x)(v)[1]
    if kind == 'vjp_fun':
        vjp, val = autograd.make_vjp(f)(x)
        return [np.array(val), vjp(u), vjp(v), vjp(u)]
    raise ScenarioInvalid(kind)


class World:
    def __init__(self, sc, ctx):
        self.ctx, self.d = ctx, sc['params']['dim']
        self.ops = []
        self.deep = 0
        for i, m in enumerate(sc['make']):
            self.ops.append(Operator(self.d, m))
        if not self.ops:
            raise ScenarioInvalid('no operators')

    def evaluate(self, e, what):
        f = function(self.ops, e['e'], False)
        g = function(self.ops, e['e'], True)
        M.FUSE.reset(e.get('at'), EXC[e['exc']] if 'exc' in e else None)
        exc = None
        try:
            got = derivative(e['d'], f, self.d, e['vs'])
        except (Violation, ScenarioInvalid):
            raise
        except (Exception, KeyboardInterrupt) as x:
            if e.get('at') is None:
                raise Violation('raised', '{}: {!r}'.format(what, x))
            exc = x
        raised = M.FUSE.raised if e.get('at') is not None else None
        if e.get('at') is not None:
            M.FUSE.reset()
        kinds = '+'.join(sorted({self.ops[s['o'] % len(self.ops)].k
                                 for s in e['e']}))
        if raised is not None:
            self.ctx.count('fault:failing-solver')
            if exc is None:
                raise Violation('swallowed', '{}: the solver raised {!r} and '
                                'the call succeeded'.format(what, raised))
            if type(exc) is not type(raised):
                raise Violation('swallowed', '{}: the solver raised {!r} and '
                                'the caller got {!r}'.format(what, raised, exc))
            self.ctx.cover.append('{}/{}/failed'.format(e['d'], kinds))
            self.ctx.note(e['d'], 'failed')
            return
        if exc is not None:
            raise Violation('raised', '{}: {!r}'.format(what, exc))
        self.compare(e, got, g, what)
        self.ctx.cover.append('{}/{}/ok'.format(e['d'], kinds))

    def compare(self, e, got, g, what):
        want = derivative(e['d'], g, self.d, e['vs'])
        d = M.same(tidy(got), tidy(want), rtol=1e-6, atol=1e-8)
        if d:
            raise Violation('derivative', '{}: {}'.format(what, d))
        if e['d'] != 'value' and len(e['e']) > 1:
            self.deep += 1
        self.ctx.note(e['d'], M.digest(tidy(want)))

    def rejected(self, op, what):
        o = self.ops[op['o'] % len(self.ops)]
        i = 1 if op['t'] else 0
        n = o.mats[i].shape[1]
        if o.k == 'solver' and op['b'] != 'long':
            return
        b = {'3d': np.ones((n, 2, 2)), 'long': np.ones(n + 1),
             'short': np.ones(n - 1), 'str': 'vector',
             'none': None}[op['b']]
        if o.k == 'root' and op['b'] not in ('long', '3d'):
            return
        if o.k == 'root' and i == 1 and op['b'] == '3d':
            return
        out = M.outcome(lambda: o.fns[i](b))
        self.ctx.count('fault:rejected-argument')
        if out[0] == 'ok' and op['b'] in ('3d', 'long', 'short') and \
                o.k == 'product':
            raise Violation('accepted', '{}: {} returned {}'.format(
                what, op['b'], M.brief(out)))
        self.ctx.note('bad', op['b'], out[0])

    def bad_make(self, op, what):
        from paragami.autograd_supplement_lib import get_sparse_product
        from paragami.sparse_preconditioners_lib import \
            get_sym_matrix_inv_sqrt_funcs
        d, b = self.d, op['b']
        fn = {'1d': lambda: get_sparse_product(np.ones(d)),
              '3d': lambda: get_sparse_product(np.ones((d, d, d))),
              'dense_hess': lambda: get_sym_matrix_inv_sqrt_funcs(np.eye(d)),
              'indef': lambda: get_sym_matrix_inv_sqrt_funcs(
                  sp.csc_matrix(-np.eye(d))),
              'rect': lambda: get_sym_matrix_inv_sqrt_funcs(
                  sp.csc_matrix(np.ones((d, d + 1))))}[b]
        out = M.outcome(fn)
        self.ctx.count('fault:rejected-argument')
        if out[0] == 'ok' and b in ('1d', '3d', 'dense_hess'):
            raise Violation('accepted', '{}: {}'.format(what, M.brief(out)))
        self.ctx.note('badmake', b, out[0])

    def matrix_arg(self, op, what):
        """Products with and solutions for several columns at once."""
        o = self.ops[op['o'] % len(self.ops)]
        if o.k == 'root' or (o.k == 'solver' and op['d'] == 'list'):
            return
        i = 1 if op['t'] else 0
        z = o.mats[i]
        r = M.rs(op['vs'])
        k = op['k']
        if o.k == 'solver' and o.op['how'] == 'spsolve':
            k = max(k, 2)       # it returns a single column as a vector
        b, g = (r.normal(size=(z.shape[1], k)) for _ in range(2))
        f = o.fns[i]
        if op['d'] == 'value':
            got, want = f(b), z @ b
        elif op['d'] == 'list':
            got, want = f([float(x) for x in b[:, 0]]), z @ b[:, 0]
        elif op['d'] == 'jvp':
            got, want = autograd.make_jvp(f)(b)(g)[1], z @ g
        else:
            w = r.normal(size=(z.shape[0], k))
            got = autograd.grad(lambda y: anp.sum(w * f(y)))(b)
            want = z.T @ w
        e = M.same(tidy(got), tidy(want), rtol=1e-6, atol=1e-8)
        if e:
            raise Violation('product', '{}: {}'.format(what, e))
        self.ctx.note('2d', op['d'])

    def many(self, op, what):
        """Many pairs of the same shape at once; most are dropped later."""
        r = M.rs(op['vs'])
        made = []
        for j in range(op['n']):
            mk = {'k': op['k'], 'ms': int(r.randint(2 ** 31)), 'm': op['m'],
                  'cast': sorted(P.FORMATS)[r.randint(len(P.FORMATS))],
                  'density': 1.0, 'how': 'dense', 'swap': False,
                  'shared': False}
            made.append(Operator(self.d, mk))
        self.check_all(what, made)
        j = int(r.randint(op['n']))
        del made[j::2]
        self.check_all(what + ', after dropping half', made)
        self.ops.extend(made[:op['keep']])
        self.ctx.note('many', op['k'], op['n'])

    def plain(self, op, what):
        """Callbacks with unusual values: the pair is what they return."""
        from paragami.autograd_supplement_lib import get_differentiable_solver
        r = M.rs(op['vs'])

        def special(kind):
            v = r.normal(size=self.d)
            i = r.randint(self.d)
            if kind in ('inf', 'nan'):
                v[i] = float(kind)
            elif kind == 'zeros':
                v[:] = 0
            elif kind in ('tiny', 'huge'):
                v *= 1e-300 if kind == 'tiny' else 1e300
            elif kind == 'int':
                v = np.arange(self.d)
            elif kind == 'readonly':
                v.flags.writeable = False
            elif kind == 'strided':
                v = np.repeat(v, 2)[::2]
            return v
        outs = [special(a) for a in op['a']]
        calls = []

        def callback(i):
            def solve(b):
                calls.append((i, M.snap(b)))
                return np.array(outs[i])
            return solve
        pair = get_differentiable_solver(callback(0), callback(1))
        for i in (0, 1):
            del calls[:]
            b, g = special(op['arg']), r.normal(size=self.d)
            snap = M.snap(b)
            if op['d'] == 'value':
                got, want, log = pair[i](b), outs[i], [(i, snap)]
            elif op['d'] == 'jvp':
                b = np.array(b, dtype=float)
                got = autograd.make_jvp(pair[i])(b)(g)[1]
                want, log, snap = outs[i], None, M.snap(b)
            else:
                b = np.array(b, dtype=float)
                vjp, val = autograd.make_vjp(pair[i])(b)
                got, want, snap = vjp(g), outs[1 - i], M.snap(b)
                log = [(i, snap), (1 - i, M.snap(g))]
            got = np.asarray(got)
            if M.snap(np.array(got, dtype=float)) != \
                    M.snap(np.array(want, dtype=float)):
                raise Violation('callback', '{}: function {} is {}, its '
                                'callback returned {}'.format(
                                    what, i, got, want))
            if M.snap(b) != snap:
                raise Violation('argument', '{}: the argument was changed'
                                .format(what))
            if log is not None and calls != log:
                raise Violation('callback', '{}: function {} called the '
                                'callbacks {} instead of {}'.format(
                                    what, i, [c[0] for c in calls],
                                    [c[0] for c in log]))
        self.ctx.note('plain', op['a'], op['arg'], op['d'])

    def check_all(self, what, ops=None):
        v = np.arange(1.0, self.d + 9)
        for j, o in enumerate(self.ops if ops is None else ops):
            for i in (0, 1):
                x = v[:o.mats[i].shape[1]]
                got = tidy(o.fns[i](x))
                e = M.same(got, o.mats[i] @ x, rtol=1e-7, atol=1e-9)
                if not e and o.k == 'product':
                    # rounding only
                    e = M.same(got, o.mats[i] @ x, rtol=0, atol=1e-13 * float(
                        np.max(abs(o.mats[i]) @ x)))
                if e:
                    raise Violation('bound', '{}: operator {} ({}, function '
                                    '{}): {}'.format(what, j, o.k, i, e))


def tidy(v):
    return [tidy(x) for x in v] if isinstance(v, list) else np.asarray(v)


def execute(sc, ctx):
    M.FUSE.reset()
    w = World(sc, ctx)
    w.check_all('after making them')
    for i, op in enumerate(sc['ops']):
        k = op['op']
        what = 'op {} {}'.format(i, op)
        if k == 'make':
            w.ops.append(Operator(w.d, op))
        elif k == 'remake':
            w.ops[op['o'] % len(w.ops)].remake(op['ms'])
        elif k == 'eval':
            w.evaluate(op, what)
        elif k == 'bad':
            w.rejected(op, what)
        elif k == 'badmake':
            w.bad_make(op, what)
        elif k in ('many', 'plain'):
            getattr(w, k)(op, what)
        elif k == 'matrix_arg':
            w.matrix_arg(op, what)
        else:
            raise ScenarioInvalid(k)
        if k != 'eval':
            w.check_all(what)
    if sc.get('threads'):
        M.FUSE.reset()
        done = []
        ops = list(w.ops)

        def body(k):
            def run():
                mine = list(ops)
                for j, e in enumerate(sc['threads'][k]):
                    if 'mk' in e:
                        # an operator of this thread's own, in place of one
                        mine[e['vs'] % len(mine)] = Operator(w.d, e['mk'])
                    f = function(mine, e['e'], False)
                    got = derivative(e['d'], f, w.d, e['vs'])
                    done.append((e, list(mine), got, 't%d.%d %s' % (k, j, e)))
            return run
        ctx.run_threads([body(k) for k in range(len(sc['threads']))],
                        sc['sched'])
        for e, mine, got, what in done:
            w.compare(e, got, function(mine, e['e'], True), what)
    w.check_all('end')
    ctx.nontrivial = w.deep > 0
