"""Preconditioned functions next to a dense model of what should be in force."""

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.linalg
import scipy.sparse as sp

from . import model as M
from .core import Violation, ScenarioInvalid

RTOL, ATOL = 1e-6, 1e-7


# -- the objective --------------------------------------------------------------
class Objective:
    """0.5 x'Qx + b'x + sum c x^4 / 4, with its exact derivatives."""

    def __init__(self, dim, seed, spd=True, hook=None):
        r = M.rs(seed)
        self.dim = dim
        q = r.normal(size=(dim, dim))
        self.q = 0.5 * (q + q.T)
        if spd:
            self.q = q @ q.T / dim + np.eye(dim)
        self.b = r.normal(size=dim)
        self.c = np.abs(r.normal(size=dim)) * 0.3
        self.hook = hook

    def fun(self):
        def objective(x):
            if self.hook:
                self.hook('objective')
            r = 0.5 * anp.dot(x, anp.dot(self.q, x)) + anp.dot(self.b, x) + \
                anp.sum(self.c * x ** 4) / 4
            if self.hook:
                self.hook('objective end')
            return r
        return objective

    def value(self, x):
        return 0.5 * x @ self.q @ x + self.b @ x + np.sum(self.c * x ** 4) / 4

    def grad(self, x):
        return self.q @ x + self.b + self.c * x ** 3

    def hess(self, x):
        return self.q + np.diag(3 * self.c * x ** 2)


# -- matrices ---------------------------------------------------------------------
def rot(r, d):
    return np.linalg.qr(r.normal(size=(d, d)))[0]


def matrix(kind, d, seed):
    """A well conditioned matrix."""
    r = M.rs(seed)
    if kind.endswith('~'):
        # almost the matrix of that kind: within numpy's usual tolerance
        m = matrix(kind[:-1], d, seed)
        u = 1 + 4.5e-6 * np.where(np.arange(d) % 2, .8, 1)
        return np.outer(u, u) ** .5 * m
    if kind == 'orthogonal':
        # (never the identity)
        return rot(r, d) if d > 1 else np.array([[-1.0]])
    if kind == 'general':
        s = np.exp(r.uniform(-1, 1, size=d)) * np.where(
            r.uniform(size=d) < .3, -1, 1)
        m = rot(r, d) @ np.diag(s) @ rot(r, d)
    elif kind == 'triangular':
        m = np.tril(r.normal(size=(d, d)) * .4, -1) + np.diag(
            np.exp(r.uniform(-1, 1, size=d)))
    elif kind == 'diagonal':
        m = np.diag(np.exp(r.uniform(-1, 1, size=d)))
    elif kind == 'same-sum':
        # easily taken for another of its kind: same places, same sum
        m = np.diag(np.exp(np.linspace(-1, 1, d))[r.permutation(d)])
        if r.uniform() < .3:
            i = r.randint(d)
            m[i, i] = -m[i, i]
    elif kind == 'permuted':
        m = np.eye(d)[r.permutation(d)] * np.exp(r.uniform(-1, 1))
    elif kind == 'spd':
        u = rot(r, d)
        m = u @ np.diag(np.exp(r.uniform(-1.5, 1.5, size=d))) @ u.T
        m = 0.5 * (m + m.T)
    elif kind == 'indefinite':
        u = rot(r, d)
        m = u @ np.diag(r.uniform(-3, 3, size=d)) @ u.T
        m = 0.5 * (m + m.T)
    elif kind == 'nonsym':
        m = matrix('spd', d, seed) + np.triu(r.normal(size=(d, d)) * .1, 1)
        ev = np.linalg.eigvalsh(0.5 * (m + m.T))
        if ev[0] < .05:
            m = m + np.eye(d) * (.1 - ev[0])
    elif kind == 'sparse-spd':
        m = np.diag(np.exp(r.uniform(0, 1, size=d)))
        for i in range(d):
            for j in range(i):
                if r.uniform() < .4:
                    m[i, j] = m[j, i] = r.uniform(-.3, .3)
        ev = np.linalg.eigvalsh(m)
        if ev[0] < .2:
            m = m + np.eye(d) * (.3 - ev[0])
    else:
        raise ScenarioInvalid(kind)
    return m


FORMATS = {'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix,
           'csc_array': sp.csc_array, 'csr_array': sp.csr_array}


def cast(m, how):
    if how in FORMATS:
        return FORMATS[how](m)
    if how == 'F':
        return np.asfortranarray(m)
    if how == 'view':
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]))
        big[::2, ::2] = m
        return big[::2, ::2]
    return np.array(m)


def inv_sqrt(h, lo, hi):
    """Model: the inverse square root of the clipped symmetric part."""
    w, v = scipy.linalg.eigh(0.5 * (h + h.T))
    if lo is not None:
        w = np.maximum(w, lo)
    if hi is not None:
        w = np.minimum(w, hi)
    if np.any(w < 1e-3):
        raise ScenarioInvalid('not positive definite')
    return (v / np.sqrt(w)) @ v.T, (v * np.sqrt(w)) @ v.T


# -- settings -----------------------------------------------------------------------
def gen_setting(rng, threads=False, own=True):
    k = rng.choice(['identity', 'dense', 'dense', 'sparse', 'sparse', 'funs',
                    'hess', 'hess', 'chol', 'chol'] +
                   ([] if threads else ['at', 'at']))
    s = {'k': k, 'ms': rng.randrange(6)}
    if k == 'dense':
        s.update(kind=rng.choice(['general', 'triangular', 'diagonal',
                                  'permuted', 'same-sum', 'orthogonal']) +
                 rng.choice(['', '', '', '~']),
                 own=own and rng.random() < .3, inv=rng.random() < .5, cast=rng.choice(['C', 'F', 'view']),
                 old=rng.random() < .25)
    elif k == 'sparse':
        s.update(kind=rng.choice(['triangular', 'diagonal', 'permuted',
                                  'general', 'same-sum', 'same-sum']) +
                 rng.choice(['', '', '', '~']),
                 own=own and rng.random() < .2,
                 inv=rng.choice(['', '', 'sparse', 'dense']),
                 cast=rng.choice(sorted(FORMATS)), old=rng.random() < .25)
    elif k == 'funs':
        s.update(kind=rng.choice(['general', 'triangular']),
                 wrong=rng.random() < .3, ms=rng.randrange(2),
                 inv_of=rng.choice([0, 0, 1, 2]), shared=rng.random() < .7,
                 style=rng.choice(['lambda', 'object', 'method', 'dot']))
    elif k in ('hess', 'at'):
        kind = rng.choice(['spd', 'spd', 'indefinite', 'nonsym', 'spd~'])
        lo = rng.choice([.5, 1, 2.0, .01]) if kind == 'indefinite' else \
            rng.choice([None, None, .5, 1, .01])
        hi = rng.choice([None, None, 3, 2.5, 10.0])
        s.update(kind=kind, lo=lo, hi=hi, spoil=rng.random() < .4,
                 own=rng.random() < .5,
                 scalar=rng.random() < .5, np=rng.random() < .2,
                 cast=rng.choice(['C', 'F', 'view']))
        if k == 'at' and lo is None:
            s['lo'] = rng.choice([.3, 1])
        if s['own']:
            s['spoil'] = False
    elif k == 'chol':
        s.update(cast=rng.choice(sorted(FORMATS)), swap=rng.random() < .15)
    return s


class _Mult:
    def __init__(self, m):
        self.m = m

    def __call__(self, v):
        return anp.dot(self.m, v)

    def times(self, v):
        return anp.matmul(self.m, v)


def function(m, style):
    if style == 'object':
        return _Mult(m)
    if style == 'method':
        return _Mult(m).times
    if style == 'dot':
        return lambda v: anp.dot(m, v)
    return lambda v: m @ v


class Pre:
    """One preconditioned function and what must be in force on it."""

    def __init__(self, objective, fun, pool):
        from paragami.optimization_lib import PreconditionedFunction
        self.o = objective
        self.d = objective.dim
        self.fun = fun
        self.f = PreconditionedFunction(fun)
        self.last = None              # the setting in force
        self.pool = pool              # matrices shared by all the objects
        self.a = np.eye(self.d)
        self.b = np.eye(self.d)
        self.wrong = False
        self.kind = 'initial'
        self.own = {}

    def mine(self, name, value):
        """The one array of this object that its owner uses for this purpose,
        with new contents."""
        if name not in self.own:
            self.own[name] = value
        elif sp.issparse(value):
            old = self.own[name]
            if old.format == 'coo' or old.format != value.format or \
                    old.nnz != value.nnz:
                self.own[name] = value
            else:
                old.data[:] = value.data
                old.indices[:] = value.indices
                old.indptr[:] = value.indptr
                old.has_sorted_indices = False
        else:
            self.own[name][...] = value
        return self.own[name]

    def shared(self, kind, ms, how):
        key = (kind, ms, how)
        if key not in self.pool:
            self.pool[key] = cast(matrix(kind, self.d, ms + 1), how)
        return self.pool[key], matrix(kind, self.d, ms + 1)

    def plan(self, s):
        """(what makes the call, model matrices or None) for a setting."""
        k, d = s['k'], self.d
        f = self.f
        if k == 'identity':
            return f.set_identitity_preconditioner, (np.eye(d), np.eye(d))
        if k in ('dense', 'sparse'):
            arg, a = self.shared(s['kind'], s['ms'], s['cast'])
            b = np.linalg.inv(a)
            if s.get('own'):
                shown = arg

                def arg():
                    return self.mine((k, s['cast']), shown.copy())
            else:
                shown = arg

                def arg():
                    return shown
            fn = f.set_preconditioner if s['old'] else f.set_preconditioner_matrix
            if s['inv']:
                key = ('inv', s['kind'], s['ms'], s['inv'])
                if key not in self.pool:
                    self.pool[key] = sp.csc_matrix(b) if s['inv'] == 'sparse' \
                        else np.array(b)
                binv = self.pool[key]
                return (lambda: fn(arg(), binv)), (a, b)
            return (lambda: fn(arg())), (a, b)
        if k == 'funs':
            a = matrix(s['kind'], d, s['ms'] + 1)
            b = np.linalg.inv(a)
            if s['wrong']:
                b = matrix('general', d, s['ms'] + 77 + s['inv_of'])

            def pooled(m, name):
                key = ('fun', s['style'], s['kind'], s['ms'], name)
                if not s['shared']:
                    return function(m, s['style'])
                if key not in self.pool:
                    self.pool[key] = function(m, s['style'])
                return self.pool[key]
            fa = pooled(a, 'a')
            fb = pooled(b, ('b', s['wrong'], s['wrong'] and s['inv_of']))
            return (lambda: f.set_preconditioner_functions(fa, fb)), (a, b)
        if k in ('hess', 'at'):
            lo, hi = s['lo'], s['hi']
            kw = {}
            for n, v in (('ev_min', lo), ('ev_max', hi)):
                if v is not None:
                    kw[n] = np.float64(v) if s['np'] else v
            if k == 'hess':
                arg = cast(matrix(s['kind'], d, s['ms'] + 1), s['cast'])
                want = inv_sqrt(matrix(s['kind'], d, s['ms'] + 1), lo, hi)
                if d == 1 and s['scalar']:
                    arg = float(arg[0, 0])

                def call():
                    h = self.mine('hessian', arg.copy()) \
                        if s['own'] and d > 1 else arg
                    f.set_preconditioner_with_hessian(hessian=h, **kw)
                    if s['spoil'] and d > 1:
                        arg[:] = 99.0
            else:
                x = np.array(s['x']) if 'x' in s else \
                    M.rs(s['ms'] + 5).normal(size=d)
                want = inv_sqrt(self.o.hess(x), lo, hi)
                arg = x.copy()

                def call():
                    y = self.mine('x', arg.copy()) if s['own'] else arg
                    f.set_preconditioner_with_hessian(x=y, **kw)
                    if s['spoil']:
                        arg[:] = 99.0
            return call, want
        if k == 'chol':
            from paragami.sparse_preconditioners_lib import \
                get_sym_matrix_inv_sqrt_funcs
            arg, h = self.shared('sparse-spd', s['ms'], s['cast'])

            def call():
                root, inv_root = get_sym_matrix_inv_sqrt_funcs(arg)
                if s['swap']:
                    root, inv_root = inv_root, root
                f.set_preconditioner_functions(inv_root, root)
            return call, ('root', h, s['swap'])
        raise ScenarioInvalid(k)

    def now_in_force(self, s, want, what):
        """The setting ``s`` succeeded."""
        self.kind = s['k']
        self.last = s
        self.wrong = bool(s.get('wrong'))
        if isinstance(want[0], str):
            a = np.array(self.f.get_preconditioner(self.d))
            b = np.array(self.f.get_preconditioner_inv(self.d))
            h = want[1]
            root = a if want[2] else b        # multiplies by a root of h
            d = M.same(root.T @ root, h, rtol=RTOL, atol=ATOL)
            if d:
                raise Violation('cholesky', '{}: not a square root of the '
                                'Hessian: {}'.format(what, d))
            d = M.same(a @ b, np.eye(self.d), rtol=RTOL, atol=ATOL)
            if d:
                raise Violation('cholesky', '{}: the operators do not invert '
                                'each other: {}'.format(what, d))
            want = (a, b)
        self.a, self.b = want

    def set(self, s, what):
        call, want = self.plan(s)
        call()
        self.now_in_force(s, want, what)

    # -- uses ------------------------------------------------------------------------
    def use(self, u, vs, what):
        """Compare one use with the model."""
        d, a, b, o = self.d, self.a, self.b, self.o
        r = M.rs(vs)
        x, v = r.normal(size=d), r.normal(size=d)
        if vs % 6 == 0:
            x[:] = 0
        elif vs % 6 == 1:
            x = np.eye(d)[vs // 6 % d]
        f = self.f
        ax = a @ x
        if u == 'precondition':
            got, want = f.precondition(x), b @ x
        elif u == 'unprecondition':
            got, want = f.unprecondition(x), a @ x
        elif u == 'roundtrip':
            if self.wrong:
                return
            got, want = f.precondition(f.unprecondition(x)), x
        elif u == 'matrix':
            got, want = f.get_preconditioner(d), a
        elif u == 'matrix_inv':
            got, want = f.get_preconditioner_inv(d), b
        elif u == 'other_dim':
            # (the identity is one for every dimension)
            n = d + 1 + vs % 2 if self.kind in ('initial', 'identity') else d
            got = [f.get_preconditioner(n), f.get_preconditioner_inv(n),
                   f.get_preconditioner(d), f.get_preconditioner_inv(d)]
            want = [a if n == d else np.eye(n), b if n == d else np.eye(n),
                    a, b]
            got = np.concatenate([np.ravel(m) for m in got])
            want = np.concatenate([np.ravel(m) for m in want])
        elif u == 'check':
            good = np.linalg.norm(x - a @ (b @ x)) < 1e-6
            out = M.outcome(lambda: f.check_preconditioner(x, tol=1e-6))
            if good != (out[0] == 'ok'):
                raise Violation('check', '{}: check_preconditioner {}'.format(
                    what, M.brief(out)))
            return
        elif u == 'call':
            got, want = f(x), o.value(ax)
        elif u == 'grad':
            got, want = autograd.grad(f)(x), a.T @ o.grad(ax)
        elif u == 'hessian':
            got, want = autograd.hessian(f)(x), a.T @ o.hess(ax) @ a
        elif u == 'hvp':
            got = autograd.hessian_vector_product(f)(x, v)
            want = a.T @ (o.hess(ax) @ (a @ v))
        elif u == 'jvp':
            got = autograd.make_jvp(f)(x)(v)[1]
            want = (a.T @ o.grad(ax)) @ v
        elif u == 'jac_un':
            got, want = autograd.jacobian(f.unprecondition)(x), a
        elif u == 'jac_pre':
            got, want = autograd.jacobian(f.precondition)(x), b
        else:
            raise ScenarioInvalid(u)
        e = M.same(np.asarray(got), np.asarray(want), rtol=RTOL, atol=ATOL)
        if e:
            raise Violation('in-force', '{}: {} with preconditioner "{}" in '
                            'force: {}'.format(what, u, self.kind, e))

    def state(self, vs=3):
        """Exact observations, to compare before and after a failure."""
        x = M.rs(vs).normal(size=self.d)
        return [np.array(self.f.precondition(x)),
                np.array(self.f.unprecondition(x)),
                np.array(self.f.get_preconditioner(self.d)),
                np.array(self.f.get_preconditioner_inv(self.d))]


PLAIN_USES = ['precondition', 'unprecondition', 'roundtrip', 'matrix',
              'matrix_inv', 'check', 'call', 'other_dim']
USES = PLAIN_USES + ['grad', 'hessian', 'hvp', 'jvp', 'jac_un', 'jac_pre']
