"""C14: a failed preconditioner change leaves the previous one in force."""

import contextlib

import numpy as np
import scipy.sparse as sp

from .. import core
from .. import model as M
from .. import precond as P
from ..core import Violation, ScenarioInvalid

ID = 'C14'
RUNS = {'quick': 2600, 'thorough': 80000}
MIN_RUNS = 700
RULE = ('a run is a history of 5-30 good settings, settings that fail (bad '
        'arguments, singular matrices, failing numerical routines, objective '
        'failing while its Hessian is evaluated, interrupt or failed '
        'allocation before the change took effect), failing evaluations and '
        'uses on 1-3 objects; non-trivial if a setting failed and the state '
        'after it was compared; distinct by event log')
COVER = 'failing setting x preconditioner in force x how it failed'
REAL = 'paragami, autograd, scipy.sparse, scikit-sparse, numpy'
STUB = 'the objective and user-supplied multiplication functions (fail on request), numerical routines only when told to fail'

BAD = ['both', 'neither', 'sparse_hess', 'singular', 'singular_sparse', 'none',
       'complex_min', 'complex_max', 'rect_hess', 'rect', 'str_hess', 'nan_hess',
       'nan', 'objective', 'objective', 'objective', 'bad_x', 'ragged',
       'chol_indef', 'no_args', 'str_min', 'array_min', 'sparse_3',
       'cube', 'routine', 'routine', 'routine', 'sparse_vec',
       'wrong_inv', 'wrong_inv_sparse', 'nan_inv', 'nan_inv_sparse', 'tiny',
       'tiny_sparse', 'singular_inv', 'rect_sparse', 'wide_sparse',
       'vector', 'inv_shape', 'inv_none_matrix']
EXC = {'InjectedFailure': M.InjectedFailure, 'ValueError': ValueError,
       'FloatingPointError': FloatingPointError, 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt,
       'LinAlgError': np.linalg.LinAlgError, 'TypeError': TypeError,
       'NotImplementedError': NotImplementedError, 'AttributeError':
       AttributeError}


def gen_op(rng, n):
    w = rng.randrange(n)
    r = rng.random()
    if r < .25:
        return {'op': 'set', 'w': w, 's': P.gen_setting(rng, own=False)}
    if r < .55:
        return {'op': 'bad', 'w': w, 'b': rng.choice(BAD),
                's': P.gen_setting(rng, own=False), 'vs': rng.randrange(1000),
                'old': rng.random() < .3,
                'at': rng.choice([1, 2, 1, 2, 3]),
                'exc': rng.choice(sorted(EXC))}
    if r < .7:
        return {'op': 'interrupt', 'w': w, 's': P.gen_setting(rng, own=False),
                'frac': rng.random(), 'opc': rng.random() < .5,
                'kind': rng.choice(['interrupt', 'memory'])}
    if r < .85:
        return {'op': 'badeval', 'w': w, 'vs': rng.randrange(1000),
                'at': rng.choice([1, 2]),
                'u': rng.choice(['call', 'grad', 'hessian', 'hvp']),
                'exc': rng.choice(sorted(EXC))}
    return {'op': 'use', 'w': w, 'u': rng.choice(P.USES),
            'vs': rng.randrange(2 ** 31)}


def generate(rng):
    n = rng.choice([1, 1, 2, 3])
    return {'params': {'dim': rng.choice([1, 2, 2, 3, 3, 4]),
                       'spd': rng.random() < .6, 'n': n,
                       'seed': rng.randrange(2 ** 31)},
            'ops': [gen_op(rng, n) for _ in range(rng.choice([5, 10, 20, 30]))]}


class Boom:
    """Replaces a numerical routine by one that fails at its first call."""

    def __init__(self, exc, ctx):
        self.exc, self.ctx = exc, ctx
        self.raised = None

    def __call__(self, *a, **k):
        self.raised = self.exc('injected')
        self.ctx.count('fault:failing-routine')
        raise self.raised


@contextlib.contextmanager
def failing(boom):
    import autograd.numpy.linalg as al
    import scipy.linalg as sl
    import scipy.sparse.linalg as ssl
    places = [(al, 'eigh'), (al, 'inv'), (np.linalg, 'eigh'),
              (np.linalg, 'inv'), (sl, 'eigh'), (sl, 'inv'), (ssl, 'inv'),
              (ssl, 'spsolve'), (ssl, 'factorized'), (ssl, 'splu'),
              (np, 'sqrt'), (al, 'solve'), (np.linalg, 'solve')]
    import autograd.numpy as anp
    places.append((anp, 'sqrt'))
    saved = [(m, n, getattr(m, n)) for m, n in places]
    for m, n, _ in saved:
        setattr(m, n, boom)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def bad_call(w, op, pool):
    """A call that is likely to raise."""
    f, d, b = w.f, w.d, op['b']
    good = P.matrix('spd', d, op['vs'] + 1)
    x = M.rs(op['vs']).normal(size=d)
    fn = f.set_preconditioner if op['old'] else f.set_preconditioner_matrix
    h = f.set_preconditioner_with_hessian
    z = np.array(good)
    if b == 'both':
        return lambda: h(x=x, hessian=good)
    if b == 'neither':
        return lambda: h()
    if b == 'sparse_hess':
        return lambda: h(hessian=sp.csc_matrix(good))
    if b == 'singular':
        z[:, -1] = 0 if d == 1 or op['vs'] % 2 else z[:, 0]
        return lambda: fn(z)
    if b == 'singular_sparse':
        z[:, -1] = 0
        return lambda: fn(sp.csc_matrix(z))
    if b == 'none':
        return lambda: fn(None)
    if b == 'complex_min':
        return lambda: h(hessian=good, ev_min=1j)
    if b == 'complex_max':
        return lambda: h(hessian=good, ev_max=1 + 1j)
    if b == 'str_min':
        return lambda: h(hessian=good, ev_min='low')
    if b == 'array_min':
        return lambda: h(hessian=good, ev_max=np.array([1.0, 2.0, 3.0]))
    if b == 'rect_hess':
        return lambda: h(hessian=np.ones((d + 1, d + 2)))
    if b == 'rect':
        return lambda: fn(np.ones((d + 1, d)))
    if b in ('rect_sparse', 'wide_sparse'):
        r = sp.csc_matrix(np.ones((d + 1, d) if b[0] == 'r' else (d, d + 1)))
        return lambda: fn(P.cast(r.toarray(),
                                 sorted(P.FORMATS)[op['vs'] % len(P.FORMATS)]))
    if b == 'vector':
        return lambda: fn(np.ones(d))
    if b == 'inv_shape':
        return lambda: fn(good, [np.ones((d + 1, d + 2)), 'inverse'][op['vs'] % 2])
    if b == 'inv_none_matrix':
        return lambda: fn(None, good)
    if b == 'str_hess':
        return lambda: h(hessian='nothing')
    if b == 'nan_hess':
        z[0, 0] = [np.nan, np.inf][op['vs'] % 2]
        return lambda: h(hessian=z)
    if b == 'nan':
        z[0, 0] = np.nan
        return lambda: fn(z)
    if b == 'bad_x':
        return lambda: h(x=['a', None])
    if b == 'ragged':
        return lambda: fn([[1.0, 2.0], [3.0]])
    if b == 'cube':
        return lambda: h(hessian=np.ones((2, 3, d + 1)))
    if b == 'no_args':
        return lambda: f.set_preconditioner_functions(lambda v: 5 * v)
    if b == 'sparse_3':
        return lambda: fn(sp.csc_matrix(good), np.ones((d, d, d)))
    if b == 'sparse_vec':
        return lambda: fn(sp.csc_matrix(good), np.ones(d))
    if b in ('wrong_inv', 'wrong_inv_sparse'):
        # usually accepted as it is
        how = 'C' if b == 'wrong_inv' else \
            sorted(P.FORMATS)[op['vs'] % len(P.FORMATS)]
        return lambda: fn(P.cast(good, how), P.cast(good @ good, how))
    if b in ('nan_inv', 'nan_inv_sparse'):
        z = np.linalg.inv(good)
        z[0, 0] = [np.nan, np.inf][op['vs'] % 2]
        how = 'C' if b == 'nan_inv' else 'csc'
        return lambda: fn(P.cast(good, how), P.cast(z, how))
    if b in ('tiny', 'tiny_sparse'):
        # its inverse overflows
        z = np.diag([1e-310] + [1.0] * (d - 1))
        return lambda: fn(z if b == 'tiny' else sp.csc_matrix(z))
    if b == 'singular_inv':
        z[:] = 0.0
        return lambda: fn(z, np.eye(d))
    if b == 'chol_indef':
        from paragami.sparse_preconditioners_lib import \
            get_sym_matrix_inv_sqrt_funcs
        z = -z

        def call():
            a, c = get_sym_matrix_inv_sqrt_funcs(sp.csc_matrix(z))
            f.set_preconditioner_functions(c, a)
        return call
    raise ScenarioInvalid(b)


def execute(sc, ctx):
    p = sc['params']
    M.FUSE.reset()
    obj = P.Objective(p['dim'], p['seed'], p['spd'], M.FUSE)
    fun = obj.fun()
    pool = {}
    objs = [P.Pre(obj, fun, pool) for _ in range(p['n'])]
    failed = [0]

    def unchanged(w, before, what):
        after = w.state()
        for n, x, y in zip(('precondition', 'unprecondition', 'matrix',
                            'inverse matrix'), before, after):
            if M.same(x, y, rtol=1e-9, atol=1e-9):
                raise Violation('changed', '{}: {} is {} and was {}'.format(
                    what, n, y, x))
        for u in ('precondition', 'unprecondition', 'matrix', 'matrix_inv',
                  'call'):
            w.use(u, 5, what + ': afterwards')

    def everybody(w, what):
        for j, o in enumerate(objs):
            if o is not w:
                for u in ('precondition', 'unprecondition'):
                    o.use(u, 9, what + ': object {}'.format(j))

    for i, op in enumerate(sc['ops']):
        w = objs[op['w'] % len(objs)]
        k = op['op']
        what = 'op {} {}'.format(i, op)
        M.FUSE.reset()
        if k == 'set':
            w.set(op['s'], what)
            for u in ('precondition', 'unprecondition', 'matrix', 'matrix_inv'):
                w.use(u, 5, what)
            ctx.note('set', w.kind)
            continue
        if k == 'use':
            w.use(op['u'], op['vs'], what)
            continue
        if k == 'badeval':
            bad_eval(w, op, what, ctx, unchanged)
            everybody(w, what)
            continue
        if k == 'interrupt':
            if interrupted(w, op, what, ctx, unchanged):
                failed[0] += 1
            everybody(w, what)
            continue
        before = w.state()
        if op['b'] == 'routine':
            s = dict(op['s'])
            call, want = w.plan(s)
            boom = Boom(EXC[op['exc']], ctx)
            with failing(boom):
                exc = run(call)
        elif op['b'] == 'objective':
            s = {'k': 'at', 'ms': op['vs'] % 6, 'kind': 'spd', 'lo': .5,
                 'hi': None, 'np': False, 'spoil': False}
            call, want = w.plan(s)
            M.FUSE.reset(op['at'], EXC[op['exc']])
            exc = run(call)
            if M.FUSE.raised is not None:
                ctx.count('fault:failing-objective')
            M.FUSE.reset()
        else:
            exc = run(bad_call(w, op, pool))
            want, s = None, None
        if exc is None:
            if want is not None:
                # nothing failed, or the failure was made up for
                w.now_in_force(s, want, what)
                for u in ('precondition', 'unprecondition', 'matrix',
                          'matrix_inv'):
                    w.use(u, 5, what)
                continue
            if op['b'] in ('both', 'neither'):
                raise Violation('accepted', what + ': did not raise')
            # accepted: what is in force now is nobody's business
            ctx.note('accepted', op['b'])
            w.set({'k': 'identity', 'ms': 0}, what)
            continue
        failed[0] += 1
        ctx.count('failed settings')
        ctx.note(op['b'], type(exc).__name__)
        ctx.cover.append('{}/{}/{}'.format(op['b'], w.kind,
                                           type(exc).__name__))
        unchanged(w, before, what + ' raised {!r}'.format(exc))
        everybody(w, what)
    for j, o in enumerate(objs):
        for u in P.USES:
            o.use(u, 11 + j, 'end: object {}'.format(j))
        ctx.note(M.digest([o.a, o.b]), o.kind)
    ctx.nontrivial = failed[0] > 0


def run(call):
    try:
        call()
    except (Violation, ScenarioInvalid):
        raise
    except Exception as e:
        return e
    except KeyboardInterrupt as e:
        return e
    return None


def bad_eval(w, op, what, ctx, unchanged):
    import autograd
    x = M.rs(op['vs']).normal(size=w.d)
    before = w.state()
    M.FUSE.reset(op['at'], EXC[op['exc']])
    f = w.f
    u = op['u']
    exc = run(lambda: f(x) if u == 'call' else autograd.grad(f)(x)
              if u == 'grad' else autograd.hessian(f)(x) if u == 'hessian'
              else autograd.hessian_vector_product(f)(x, x))
    raised = M.FUSE.raised
    M.FUSE.reset()
    if raised is None:
        if exc is not None:
            raise Violation('evaluation', '{}: {!r}'.format(what, exc))
        return
    ctx.count('fault:failing-objective')
    if exc is None:
        raise Violation('evaluation', '{}: the objective raised {!r} and the '
                        'caller got a result'.format(what, raised))
    ctx.cover.append('eval {}/{}/{}'.format(u, w.kind, op['exc']))
    unchanged(w, before, what)


def interrupted(w, op, what, ctx, unchanged):
    """Interrupt a setting at a point where it has not taken effect."""
    x = M.rs(7).normal(size=w.d)

    def look(o):
        return M.digest([o.f.precondition(x), o.f.unprecondition(x)])

    # a dry run on a twin: at how many points is the old one still in force?
    twin = P.Pre(w.o, w.fun, w.pool)
    if w.last is not None:
        twin.set(w.last, what + ' (twin)')
    old_t = look(twin)
    seen = [0]

    def count(k):
        if safe(look, twin) == old_t:
            seen[0] += 1
    call, want = twin.plan(op['s'])
    res, _, n = ctx.faulted(call, None, op['kind'], op['opc'], count)
    if res[0] == 'err':
        raise Violation('setting', '{}: {}'.format(what, M.brief(res)))
    if not seen[0]:
        return False
    before, old = w.state(), look(w)
    target = [1 + int(op['frac'] * seen[0])]

    def strike(k):
        if safe(look, w) == old:
            target[0] -= 1
            if target[0] == 0:
                return op['kind']
        return None
    call, want = w.plan(op['s'])
    res, fired, n2 = ctx.faulted(call, None, op['kind'], op['opc'], strike)
    if res[0] == 'ok':
        w.now_in_force(op['s'], want, what)
        for u in ('precondition', 'unprecondition', 'matrix', 'matrix_inv'):
            w.use(u, 5, what)
        return False
    ctx.cover.append('{}/{}/{}'.format(op['s']['k'], w.kind, op['kind']))
    ctx.note('interrupted', op['s']['k'], n2)
    unchanged(w, before, '{} (interrupted after {} yield points)'.format(
        what, n2))
    return True


def safe(look, o):
    try:
        return look(o)
    except Exception:
        return None
