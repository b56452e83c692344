"""C19: the pieces of an optimisation compose, and it can be taken up again
from a checkpoint, a log entry or a copy after any failure."""

import contextlib
import copy
import gc
import io
import os

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.optimize

from .. import model as M
from .. import oracle
from .. import precond as P
from .. import store as S
from ..core import (InjectedInterrupt, ScenarioInvalid, SimCrash, Violation,
                    random_sched, yield_here)
from ..disk import Disk
from ..world import Node
from .c01 import patched_time

ID = 'C19'
ISOLATED = True
RUNS = {'quick': 1800, 'thorough': 40000}
MIN_RUNS = 400
RULE = ('a run is an optimisation of a random function of a random pattern '
        'through FlattenFunctionInput, PreconditionedFunction and '
        'OptimizationObjective: 2-12 descents (9 methods), preconditioner and '
        'default changes, copies, checkpoints on the simulated disk, objective '
        'failures, interrupts, crashes and restarts, and several descents at '
        'the same time in threads; non-trivial if at least two descents were '
        'compared with the same descent alone; distinct by event log')
COVER = 'method x preconditioner x pattern type x what happened before'
REAL = 'paragami, autograd, numpy, scipy.optimize, zipfile, the files of the scratch directory'
STUB = ('the objective (fails on request), disk (fault layer over real files), '
        'process kill, power, thread scheduler, clock')

METHODS = ['gd', 'gd', 'newton', 'hvp', 'differences', 'BFGS', 'L-BFGS-B', 'trust-ncg',
           'trust-exact', 'Newton-CG']
FAIL = {'failure': M.InjectedFailure, 'interrupt': KeyboardInterrupt,
        'value': ValueError, 'memory': MemoryError,
        'stop': StopIteration, 'float': FloatingPointError}
DISK = [('write', 'ENOSPC'), ('write', 'EIO'), ('write', 'KILL'),
        ('write', 'KILL'), ('write', 'POWER'), ('open', 'EACCES'),
        ('close', 'EIO'), ('close', 'KILL'), ('write', 'SHORT'),
        ('write', 'EINTR'), ('rename', 'EIO'), ('rename', 'KILL')]


# -- what is optimised ---------------------------------------------------------
def walk(v):
    if isinstance(v, dict):
        for m in v.values():
            yield from walk(m)
    else:
        yield v


def target(shape, seed, i):
    r = M.rs(seed + 31 * i)
    return r.normal(size=shape), np.exp(r.uniform(-1, 1, size=shape))


class Fun:
    """A function of a folded value (and another argument)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.calls = 0
        self.fail_at = None
        self.fail = None
        self.quiet = False

    def value(self, folded, lam):
        s = 0.0
        for i, a in enumerate(walk(folded)):
            t, w = target(anp.shape(a), self.cfg['seed'], i)
            s = s + 0.5 * lam * anp.sum(w * (a - t) ** 2) + \
                0.3 * anp.sum(anp.sin(a + t))
        return s

    def __call__(self, *args, **kw):
        if not self.quiet:
            self.calls += 1
            if self.fail_at is not None and self.calls == self.fail_at:
                raise FAIL[self.fail]('injected')
        k = self.cfg['argnum']
        lam = kw.get('lam', 1.0) * (args[1 - k] if self.cfg['two'] else 1.0)
        return self.value(args[k], lam)

    def lam(self):
        return self.cfg['kw'] * (self.cfg['other'] if self.cfg['two'] else 1.0)


class Session:
    """What one process has in memory."""

    def __init__(self, pattern, spec, cfg, setting, fun=None, flat=None):
        import paragami as pg
        self.spec, self.cfg = spec, cfg
        self.d = M.flat_len(spec, True)
        self.fun = fun or Fun(cfg)
        self.flat = flat or pg.FlattenFunctionInput(
            self.fun, patterns=pattern, free=cfg['free'],
            argnums=cfg['argnum'])
        self.pattern = pattern
        obj = Ref(spec, cfg)
        self.pre = P.Pre(obj, self.at, {})
        self.obj = pg.OptimizationObjective(
            self.pre.f if cfg['pre'] else self.at,
            print_every=cfg['print'], log_every=cfg['log'])
        if setting is not None:
            self.set(setting, 'at the start')

    def at(self, x):
        args = [x]
        if self.cfg['two']:
            args.insert(1 - self.cfg['argnum'], self.cfg['other'])
        return self.flat(*args, lam=self.cfg['kw'])

    def set(self, s, what):
        quiet, self.fun.quiet = self.fun.quiet, True
        try:
            self.pre.set(s, what)
        finally:
            self.fun.quiet = quiet

    def to_c(self, x):
        return np.array(self.pre.f.precondition(x)) if self.cfg['pre'] \
            else np.array(x)

    def from_c(self, x):
        return np.array(self.pre.f.unprecondition(x)) if self.cfg['pre'] \
            else np.array(x)

    def matrix(self):
        return self.pre.a if self.cfg['pre'] else np.eye(self.d)


class Ref:
    """The same function of the free vector, put together by hand."""

    def __init__(self, spec, cfg):
        self.spec, self.cfg = spec, cfg
        self.dim = M.flat_len(spec, True)

    def value(self, x):
        f = Fun(self.cfg)
        return f.value(M.ref_free_fold(self.spec, x), f.lam())

    def hess(self, x):
        h = oracle.call(__name__, 'derivatives', self.spec, self.cfg,
                        np.eye(self.dim), x, x)[2]
        if not np.all(np.isfinite(h)) or np.abs(h).max() > 1e4:
            raise ScenarioInvalid('Hessian too large')
        return h


def derivatives(spec, cfg, a, x, v):
    """By hand, on a fresh pattern."""
    p = M.build(spec)
    fun = Fun(cfg)

    def f(y):
        return fun.value(p.fold(anp.dot(a, y), free=True), fun.lam())
    return [np.array(f(x)), np.array(autograd.grad(f)(x)),
            np.array(autograd.hessian(f)(x)),
            np.array(autograd.hessian_vector_product(f)(x, v))]


# -- the descents ----------------------------------------------------------------
def descend(obj, x, method, n):
    """From x in the space of obj; works in place like optimisers do."""
    x = np.array(x, dtype=float)
    if method in ('gd', 'newton', 'hvp'):
        for _ in range(n):
            obj.f(x)
            g = np.array(obj.grad(x))
            if method == 'gd':
                step = -.1 * g
            elif method == 'newton':
                h = np.array(obj.hessian(x))
                if not np.all(np.isfinite(h)):
                    break
                w, u = np.linalg.eigh(.5 * (h + h.T))
                step = -u @ ((u.T @ g) / np.maximum(np.abs(w), .1))
            else:
                hg = obj.hessian_vector_product(x, g)
                c = float(np.dot(g, hg))
                step = -g * (np.dot(g, g) / c if c > 1e-3 else .1)
            size = np.sqrt(np.sum(step ** 2))
            if not np.isfinite(size):
                break
            x += step * min(1.0, .5 / max(size, 1e-100))
        obj.f(x)
        return x
    if method == 'differences':
        for k in range(n):
            f = float(obj.f(x))
            g = np.zeros(len(x))
            for i in range(min(len(x), 3)):
                i = (i + k) % len(x)
                x[i] += 1e-4
                g[i] = (float(obj.f(x)) - f) / 1e-4
                x[i] -= 1e-4
            size = np.sqrt(np.sum(g ** 2))
            if not np.isfinite(size):
                break
            x -= np.round(g * min(.1, .5 / max(size, 1e-100)), 4)
        obj.f(x)
        return x
    kw = {}
    if method in ('trust-ncg', 'Newton-CG'):
        kw['hessp'] = obj.hessian_vector_product
    elif method == 'trust-exact':
        kw['hess'] = obj.hessian
    r = scipy.optimize.minimize(obj.f, x, jac=obj.grad, method=method,
                                options={'maxiter': n}, **kw)
    return np.array(r.x)


def run_descent(s, x, st, say):
    """One descent of the session; the prints go to ``say``."""
    with contextlib.redirect_stdout(say):
        return descend(s.obj, s.to_c(x), st['m'], st['n'])


def alone(spec, cfg, setting, x, st):
    """The same descent as the only thing a process ever does."""
    cfg = dict(cfg, log=1, print=0)
    s = Session(M.build(spec), spec, cfg, setting)
    end, err = None, None
    s.fun.calls = 0
    s.fun.fail_at, s.fun.fail = st.get('at'), st.get('fail')
    try:
        end = run_descent(s, np.array(x), st, io.StringIO())
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
    s.fun.fail_at = None
    return {'log': [(np.array(a), np.array(b))
                    for _, a, b in s.obj.optimization_log],
            'end': None if end is None else (end, s.from_c(end)),
            'calls': s.fun.calls, 'err': err,
            'count': s.obj.num_iterations()}


# -- scenarios ---------------------------------------------------------------------
def gen_descent(rng, fail=.2):
    st = {'do': 'descend', 'm': rng.choice(METHODS), 'n': rng.choice([1, 2, 3, 5])}
    r = rng.random()
    if r < fail * .6:
        st['fail'] = rng.choice(sorted(FAIL))
        st['at'] = rng.choice([1, 1, 2, 3, 4, 6, 9, 14])
    elif r < fail:
        st['interrupt'] = [round(10 ** rng.uniform(.5, 3.8)),
                           rng.choice(['interrupt', 'memory'])]
    st['from'] = rng.choice(['kept', 'log'])
    return st


def gen_pattern(rng):
    while True:
        s = M.gen_spec(rng, rng.choice([0, 1, 1, 2]), max_items=3)
        if 1 <= M.flat_len(s, True) <= 12 and M.flat_len(s, False) <= 40:
            return s


def generate(rng):
    spec = gen_pattern(rng)
    cfg = {'seed': rng.randrange(2 ** 31), 'free': rng.choice([True, True, None]),
           'argnum': rng.choice([0, 0, 1]), 'pre': rng.random() < .8,
           'other': rng.choice([.5, 1.0, 1.7]), 'kw': rng.choice([.3, 1.0, 1.3]),
           'print': rng.choice([0, 1, 3]), 'log': rng.choice([1, 1, 1, 2, 3])}
    cfg['two'] = cfg['argnum'] == 1 or rng.random() < .5
    if cfg['free'] is None:
        spec['fd'] = True
    sc = {'spec': spec, 'cfg': cfg, 'vs': rng.randrange(2 ** 31),
          'zero': rng.random() < .25,
          'slots': [{'kind': rng.choice(['path', 'path', 'pathlib', 'relative']),
                     'name': n} for n in rng.choice(
                         [['even.npz', 'odd.npz'], ['a', 'b'],
                          ['sub/x.npz', 'y.npz']])]}
    if rng.random() < .3:
        n = rng.choice([2, 2, 3])
        sc['threads'] = [dict(gen_descent(rng, 0),
                              setting=gen_setting(rng) if cfg['pre'] else None,
                              vs=rng.randrange(2 ** 31)) for _ in range(n)]
        for t in sc['threads']:
            t['n'] = min(t['n'], 2)
        sc['share'] = rng.random() < .5
        sc['saver'] = rng.random() < .5
        sc['sched'] = random_sched(rng)
        return sc
    steps = []
    for _ in range(rng.choice([3, 6, 10, 16])):
        r = rng.random()
        if r < .06 and cfg['pre']:
            # precondition at the current point every few steps
            at = gen_at(rng)
            for _ in range(2):
                steps += [{'do': 'setting', 's': at, 'here': True},
                          {'do': 'descend', 'from': 'kept', 'n': 1,
                           'm': rng.choice(['gd', 'hvp', 'differences'])}]
            st = {'do': 'eval', 'vs': rng.randrange(2 ** 31), 'here': True,
                  'how': rng.choice(['grad', 'all'])}
        elif r < .42:
            st = gen_descent(rng)
        elif r < .56:
            st = {'do': 'eval', 'vs': rng.randrange(2 ** 31),
                  'how': rng.choice(['f', 'grad', 'hessian', 'hvp', 'all']),
                  'here': rng.random() < .5}
        elif r < .66:
            st = {'do': 'setting', 's': gen_setting(rng), 'here': True}
            if rng.random() < .2:
                st['fail'] = rng.choice(sorted(FAIL))
                st['at'] = rng.choice([1, 2])
        elif r < .8:
            st = {'do': 'checkpoint', 'vs': rng.randrange(2 ** 31)}
            if rng.random() < .45:
                op, kind = rng.choice(DISK)
                st['fault'] = {'op': op, 'kind': kind, 'frac': rng.random(),
                               'n': rng.choice([1, 1, 2, 3, 5, 8, 12, 20])}
        elif r < .9:
            st = {'do': 'crash', 'vs': rng.randrange(2 ** 31),
                  'again': rng.random() < .2}
        elif r < .94:
            st = {'do': 'default', 'n': rng.randrange(8),
                  'v': rng.choice([True, False, None])}
        elif r < .97:
            st = {'do': 'copy', 'how': rng.choice(['deep', 'json'])}
        else:
            st = {'do': rng.choice(['reset', 'reset_log',
                                    'reset_iteration_count'])}
        steps.append(st)
    sc['steps'] = steps
    return sc


def gen_at(rng):
    return dict(k='at', ms=rng.randrange(6), lo=rng.choice([.05, .3, 1]),
                hi=rng.choice([None, None, 10.0]), np=False, own=False,
                spoil=rng.random() < .5, cast='C', scalar=False, kind='spd',
                wrong=False)


def gen_setting(rng):
    s = P.gen_setting(rng, own=False)
    if rng.random() < .25:
        s = gen_at(rng)
    s['wrong'] = False
    if s['k'] == 'chol':
        s['swap'] = False
    return s


class Slot:
    """One of the two files that checkpoints alternate between."""

    def __init__(self, disk, spec):
        self.t = S.Target(disk, spec)
        self.may = []              # what a load may return
        self.must = False          # and whether it must be the last of them


class Saved:
    def __init__(self, val, pattern, spec, extras, n):
        self.val, self.pattern, self.extras = val, pattern, extras
        self.want = M.copy_value(val)
        self.spec = spec
        self.json = pattern.to_json()
        self.n = n
        self.want_extras = {k: np.array(v, copy=True) for k, v in extras.items()}

    def diff(self, val, pat, data, must):
        d = M.same(val, self.want, exact=True)
        if d:
            return 'value: ' + d
        if pat.to_json() != self.json or not pat == M.build(self.spec):
            return 'pattern {} and {}'.format(pat.to_json(), self.json)
        for k, v in self.want_extras.items():
            # (a save that failed may have come as far as the pattern)
            if (must and k not in data) or \
                    (k in data and M.same(data[k], v, exact=True)):
                return 'extra ' + k
        return ''


class World:
    def __init__(self, sc, ctx, disk):
        self.sc, self.ctx, self.disk = sc, ctx, disk
        self.cfg = sc['cfg']
        self.node = Node.make(sc['spec'])
        self.x0 = .7 * M.free_vec(sc['spec'], sc['vs'])
        if sc.get('zero'):
            self.x0[:] = 0          # where most people start
        self.x = self.x0.copy()
        self.setting = None
        self.slots = [Slot(disk, t) for t in sc['slots']] if disk else []
        self.saves = 0
        self.compared = 0
        self.kept = []              # logs handed out, with their contents
        self.s = Session(self.node.p, self.node.spec(), self.cfg, None)
        self.it = 0
        self.before = 'start'

    # -- descending ----------------------------------------------------------
    def expected(self, st, x=None):
        return oracle.call(__name__, 'alone', clean(self.node.spec(), self.cfg),
                           self.cfg, self.setting, list(map(float, self.x)),
                           {k: st[k] for k in ('m', 'n', 'at', 'fail')
                            if k in st})

    def descend(self, st, what):
        s, cfg, ctx = self.s, self.cfg, self.ctx
        want = self.expected(st)
        had = len(s.obj.optimization_log)
        say = io.StringIO()
        s.fun.calls = 0
        s.fun.fail_at, s.fun.fail = st.get('at'), st.get('fail')
        start = self.x.copy()
        injected = False
        if 'interrupt' in st:
            at, kind = st['interrupt']
            r, injected, _ = ctx.faulted(
                lambda: run_descent(s, self.x, st, say), at, kind)
            ctx.count('fault:' + kind, int(injected))
            end = r[1] if r[0] == 'ok' else None
            err = None if r[0] == 'ok' else r[1]
            if injected and r[0] != 'injected':
                injected = r[0]        # swallowed by numpy or the optimiser
        else:
            end = err = None
            try:
                end = run_descent(s, self.x, st, say)
            except (Exception, KeyboardInterrupt) as e:
                err = type(e).__name__
                if isinstance(e, Violation):
                    raise
        s.fun.fail_at = None
        if 'fail' in st and want['err']:
            ctx.count('fault:objective-' + st['fail'])
        if M.same(self.x, start, exact=True):
            raise Violation('modified', what + ': the starting point was '
                            'changed')
        new = s.obj.optimization_log[had:]
        lines = say.getvalue().splitlines()
        entries = [(self.it + j, x, f) for j, (x, f) in enumerate(want['log'])
                   if (self.it + j) % cfg['log'] == 0]
        told = ['Iter {}: f = {:0.8f}'.format(self.it + j, float(f))
                for j, (x, f) in enumerate(want['log'])
                if cfg['print'] and (self.it + j) % cfg['print'] == 0]
        done = s.obj.num_iterations() - self.it
        tag = '{}: {} from a point after "{}"'.format(what, st['m'], self.before)
        for j, e in enumerate(new):
            if j >= len(entries):
                raise Violation('alone', '{}: logged {} entries, alone {}'
                                .format(tag, len(new), len(entries)))
            d = '' if e[0] == entries[j][0] else 'numbers {} and {}'.format(
                e[0], entries[j][0])
            d = d or M.same(np.array(e[1]), entries[j][1], rtol=1e-6, atol=1e-8)
            d = d or M.same(np.array(e[2]), entries[j][2], rtol=1e-6, atol=1e-8)
            if d:
                raise Violation('alone', '{}: entry {} and the same descent '
                                'alone: {}'.format(tag, j, d))
        if not injected:
            if err != want['err']:
                raise Violation('alone', '{}: ended with {}, alone with {}'
                                .format(tag, err, want['err']))
            if done != want['count']:
                raise Violation('alone', '{}: {} evaluations, alone {}'.format(
                    tag, done, want['count']))
            if len(new) != len(entries):
                raise Violation('alone', '{}: logged {} entries, alone {}'
                                .format(tag, len(new), len(entries)))
            if lines != told:
                raise Violation('alone', '{}: printed {}, alone {}'.format(
                    tag, lines[:5], told[:5]))
            if 'fail' not in st and s.fun.calls != want['calls']:
                raise Violation('alone', '{}: the function was called {} '
                                'times, alone {}'.format(
                                    tag, s.fun.calls, want['calls']))
            if want['end'] is not None:
                d = M.same(end, want['end'][0], rtol=1e-6, atol=1e-8)
                if d:
                    raise Violation('alone', '{}: end point: {}'.format(tag, d))
            self.compared += 1
        else:
            full = (done + self.it - 1) // cfg['log'] - \
                (self.it - 1) // cfg['log']
            if done < 0 or done > want['count'] or \
                    not full <= len(new) <= full + 1:
                raise Violation('count', '{}: interrupted: {} evaluations '
                                'counted (alone {}), {} logged'.format(
                                    tag, done, want['count'], len(new)))
        self.by_hand(new, tag)
        ctx.cover.append('{}/{}/{}/{}'.format(
            st['m'], (self.setting or {}).get('k'), self.node.t, self.before))
        ctx.note('descend', st['m'], done, len(new), err, bool(injected),
                 M.digest(end) if end is not None else '')
        self.it += done
        if end is not None and np.all(np.isfinite(end)) and not injected:
            self.x = s.from_c(end)
            self.before = 'descent'
        else:
            # take it up again, from the last point that was logged or kept
            if st['from'] == 'log' and new and np.all(np.isfinite(new[-1][1])):
                self.x = s.from_c(new[-1][1])
            self.before = 'interrupt' if injected else 'failure'
        if np.abs(self.x).max() > 30:
            self.x = np.clip(self.x, -3, 3)

    def by_hand(self, entries, tag):
        """f(x_c) of the log is the function of the folded A x_c."""
        ref = Ref(self.node.spec(), self.cfg)
        a = self.s.matrix()
        for n, x, f in entries[:6]:
            y = a @ np.asarray(x)
            if not np.all(np.isfinite(y)) or np.abs(y).max() > 12:
                continue
            d = M.same(np.array(f), np.array(ref.value(y)), rtol=1e-5,
                       atol=1e-6)
            if d:
                raise Violation('composition', '{}: entry {}: value and the '
                                'function of the folded parameter by hand: {}'
                                .format(tag, n, d))

    def eval(self, st, what):
        s = self.s
        r = M.rs(st['vs'])
        x = .5 * r.normal(size=s.d)
        if st['here']:
            x = self.x
        elif st['vs'] % 4 == 0:
            x = np.zeros(s.d)
        x = s.to_c(x)
        v = r.normal(size=s.d)
        a = s.matrix()
        if np.abs(a @ x).max() > 8:
            return
        want = oracle.call(__name__, 'derivatives',
                           clean(self.node.spec(), self.cfg), self.cfg, a, x, v)
        names = ['f', 'grad', 'hessian', 'hvp']
        for j, n in enumerate(names):
            if st['how'] not in (n, 'all'):
                continue
            keep = x.copy(), v.copy()
            with contextlib.redirect_stdout(io.StringIO()):
                got = {'f': lambda: s.obj.f(x), 'grad': lambda: s.obj.grad(x),
                       'hessian': lambda: s.obj.hessian(x),
                       'hvp': lambda: s.obj.hessian_vector_product(x, v)}[n]()
            got = np.array(got)
            if n == 'f':
                self.it += 1
            w = want[j]
            scale = max(1.0, float(np.max(np.abs(w)))) if w.size else 1.0
            if not np.all(np.isfinite(w)) or scale > 1e8:
                continue
            d = M.same(got / scale, w / scale, rtol=1e-5, atol=1e-6)
            if d:
                raise Violation('composition', '{}: {} through the wrappers '
                                'and by hand: {}'.format(what, n, d))
            if M.same(x, keep[0], exact=True) or M.same(v, keep[1], exact=True):
                raise Violation('modified', what + ': an argument was changed')
            self.ctx.note('eval', n, M.digest(got))
        if s.obj.num_iterations() != self.it:
            raise Violation('count', '{}: {} evaluations counted, {} made'
                            .format(what, s.obj.num_iterations(), self.it))

    def change(self, st, what):
        if not self.cfg['pre']:
            return
        s = self.s
        if 'fail' in st and st['s']['k'] == 'at':
            state = s.pre.state()
            call, _ = s.pre.plan(st['s'])
            s.fun.calls = 0
            s.fun.fail_at, s.fun.fail = st['at'], st['fail']
            try:
                call()
                failed = False
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, Violation):
                    raise
                failed = True
            s.fun.fail_at = None
            if failed:
                self.ctx.count('fault:objective-' + st['fail'])
                d = M.same(s.pre.state(), state, exact=True)
                if d:
                    raise Violation('setting', what + ': failed, and the '
                                    'preconditioner is not the previous: ' + d)
                self.before = 'failed-setting'
                return
        new = st['s']
        if new['k'] == 'at' and st.get('here'):
            new = dict(new, x=list(map(float, self.x)))
        s.set(new, what)
        self.setting = new
        self.before = 'setting-' + st['s']['k']
        self.ctx.note('setting', st['s']['k'])

    # -- checkpoints ---------------------------------------------------------------
    def checkpoint(self, st, what):
        ctx, disk = self.ctx, self.disk
        slot = self.slots[self.saves % 2]
        self.saves += 1
        p, spec = self.node.p, self.node.spec()
        val = p.fold(self.x, free=self.cfg['free'])
        d = M.same(val, M.ref_free_fold(spec, self.x), rtol=1e-6, atol=1e-8)
        if d:
            raise Violation('composition', '{}: the folded point: {}'.format(
                what, d))
        log = self.s.obj.optimization_log
        extras = {'iteration': np.array(self.it),
                  'values': np.array([float(e[2]) for e in log]),
                  'points': np.array([np.array(e[1]) for e in log])}
        ver = Saved(val, p, copy.deepcopy(spec), extras, self.saves)
        f = st.get('fault')
        disk.install([f] if f else ())
        try:
            slot.t.save(ver)
            how = 'ok'
        except SimCrash as e:
            how = 'crash'
        except OSError as e:
            how = 'error'
        fired = bool(disk.fired)
        gc.collect()
        if how == 'error' and not fired:
            raise Violation('checkpoint', what + ': failed without a fault')
        ctx.note('checkpoint', how)
        ctx.cover.append('checkpoint/{}/{}'.format(
            f and f['op'] + f['kind'], how))
        if how == 'ok':
            slot.may, slot.must = [ver], True
            disk.clear()
            return
        slot.may.append(ver)
        slot.must = False
        if how == 'crash':
            power = getattr(disk, 'crash_kind', None) == 'POWER'
            if power:
                for o in self.slots:
                    o.must = False
            disk.after_crash(st['vs'])
            disk.clear()
            self.restart(st, what + ': crashed during the save')
        else:
            disk.clear()
            self.before = 'disk-error'

    def restart(self, st, what):
        """Only the files survive."""
        import paragami as pg
        self.keep_log()
        self.s = None
        self.ctx.count('fault:process-crash')
        found = None
        order = sorted(range(2), key=lambda i: -max(
            [v.n for v in self.slots[i].may], default=0))
        for i in order:
            slot = self.slots[i]
            if not slot.may:
                continue
            f = None
            try:
                (val, pat, data), f = slot.t.load()
                got = M.copy_value(val)
                diffs = [v.diff(got, pat, data, slot.must)
                         for v in slot.may]
                S.close(data, f)
            except Violation:
                raise
            except Exception as e:
                if slot.must:
                    raise Violation('lost', '{}: a finished checkpoint does '
                                    'not load: {}: {}'.format(
                                        what, type(e).__name__, e))
                self.ctx.count('unloadable checkpoints')
                continue
            if slot.must:
                diffs = diffs[-1:]
            if all(diffs):
                raise Violation('lost', '{}: a checkpoint is not what was '
                                'saved: {}'.format(what, diffs[-1]))
            found = [v for v, d in zip(slot.may[-len(diffs):], diffs)
                     if not d][-1], got, pat
            break
        if found is None:
            self.node = Node.make(self.sc['spec'])
            self.x = self.x0.copy()
            self.before = 'restart'
        else:
            ver, got, pat = found
            self.node = Node.around(pat, copy.deepcopy(ver.spec))
            self.x = np.array(pat.flatten(got, free=self.cfg['free']))
            if np.all(np.isfinite(self.x)) and np.abs(self.x).max() < 8:
                back = M.ref_free_fold(ver.spec, self.x)
                d = M.same(back, ver.want, rtol=1e-6, atol=1e-8)
                if d:
                    raise Violation('composition', '{}: the loaded point '
                                    'flattened: {}'.format(what, d))
            self.before = 'resume'
        self.begin(what)
        self.ctx.note('restart', self.before)

    def begin(self, what):
        if not np.all(np.isfinite(self.x)) or np.abs(self.x).max() > 30:
            # (a value at the edge of what can be freed)
            self.x = self.x0.copy()
        self.s = Session(self.node.p, self.node.spec(), self.cfg, None)
        self.it = 0
        if self.setting is not None and self.cfg['pre']:
            self.s.set(self.setting, what)

    def keep_log(self):
        if self.s is not None:
            log = self.s.obj.optimization_log
            self.kept.append((log, M.snap([list(e) for e in log])))

    def check_logs(self, what):
        for log, before in self.kept:
            if M.snap([list(e) for e in log]) != before:
                raise Violation('log', what + ': a log from before was changed')


def clean(spec, cfg):
    """The other defaults do not matter."""
    s = dict(spec, fd=None)
    if s['t'] == 'dict':
        s['items'] = [[k, clean(m, {'free': True})] for k, m in s['items']]
    elif s['t'] == 'array':
        s['base'] = clean(s['base'], {'free': True})
    if cfg['free'] is None:
        s['fd'] = True
    return s


def execute(sc, ctx):
    root = ctx.scratch()
    ctx.chdir(root)
    disk = Disk(root, ctx.clock, ctx.stats, ctx.log)
    with disk, patched_time(ctx.clock):
        w = World(sc, ctx, disk)
        if 'threads' in sc:
            return threaded(sc, ctx, w)
        for i, st in enumerate(sc['steps']):
            do = st['do']
            what = 'step {} ({})'.format(i, do)
            if do == 'descend':
                w.descend(st, what)
            elif do == 'eval':
                w.eval(st, what)
            elif do == 'setting':
                w.change(st, what)
            elif do == 'checkpoint':
                w.checkpoint(st, what)
            elif do == 'crash':
                for _ in range(1 + st['again']):
                    disk.crash_kind = 'KILL'
                    disk.after_crash(st['vs'])
                    w.restart(st, what)
            elif do == 'default':
                nodes = list(w.node.walk())
                n = nodes[st['n'] % len(nodes)]
                if n is w.node and w.cfg['free'] is None:
                    continue
                n.p.free_default = st['v']
                n.own['fd'] = st['v']
                ctx.note('default')
            elif do == 'copy':
                import paragami as pg
                q = copy.deepcopy(w.node.p) if st['how'] == 'deep' else \
                    pg.get_pattern_from_json(w.node.p.to_json())
                w.node = Node.around(q, w.node.spec())
                w.keep_log()
                w.begin(what)
                w.before = 'copy'
                ctx.note('copy')
            else:
                w.keep_log()
                getattr(w.s.obj, do)()
                if do == 'reset_iteration_count':
                    w.kept.pop()
                if do != 'reset_log':
                    w.it = 0
                ctx.note(do)
            w.check_logs(what)
        # everything is quiet now: the optimisation goes on
        for m in ('newton', 'gd'):
            w.descend({'do': 'descend', 'm': m, 'n': 2, 'from': 'kept'},
                      'at the end')
        w.eval({'how': 'all', 'vs': sc['vs'], 'here': True}, 'at the end')
        w.check_logs('at the end')
    ctx.nontrivial = w.compared >= 2


def threaded(sc, ctx, w):
    import paragami as pg
    cfg = dict(sc['cfg'], print=0)
    spec = w.node.spec()
    plain = clean(spec, cfg)
    sessions, starts, wants = [], [], []
    fun = Fun(cfg)
    fun.quiet = True
    flat = pg.FlattenFunctionInput(fun, patterns=w.node.p, free=cfg['free'],
                                   argnums=cfg['argnum'])
    for t in sc['threads']:
        x = .7 * M.free_vec(spec, t['vs'])
        starts.append(x)
        if sc['share']:
            s = Session(w.node.p, spec, cfg, t['setting'], fun, flat)
        else:
            s = Session(w.node.p, spec, cfg, t['setting'])
        s.fun.quiet = True
        sessions.append(s)
        wants.append(oracle.call(
            __name__, 'alone', plain, cfg, t['setting'], list(map(float, x)),
            {'m': t['m'], 'n': t['n']}))
    ends = [None] * len(sessions)
    say = io.StringIO()

    def body(i):
        def run():
            t = sc['threads'][i]
            ends[i] = descend(sessions[i].obj, sessions[i].to_c(starts[i]),
                              t['m'], t['n'])
        return run
    bodies = [body(i) for i in range(len(sessions))]
    x = w.x0.copy()
    val = M.ref_free_fold(spec, x)
    got = []
    if sc['saver']:
        def save():
            for n in range(2):
                f = io.BytesIO()
                pg.save_folded(f, val, w.node.p, n=n)
                f.seek(0)
                got.append(pg.load_folded(f))
        bodies.append(save)
    sim = ctx.run_threads(bodies, sc['sched'])
    for n, (v, p, data) in enumerate(got):
        d = M.same(v, M.ref_free_fold(spec, x), exact=True)
        if d or not p == M.build(spec) or int(data['n']) != n:
            raise Violation('threads', 'a checkpoint saved while others '
                            'optimise: {}'.format(d or 'pattern'))
    for i, s in enumerate(sessions):
        t = sc['threads'][i]
        tag = 'thread {} ({}, {})'.format(i, t['m'], t['setting'] and
                                          t['setting']['k'])
        want = wants[i]
        log = s.obj.optimization_log
        entries = [(j, x, f) for j, (x, f) in enumerate(want['log'])
                   if j % cfg['log'] == 0]
        if s.obj.num_iterations() != want['count'] or len(log) != len(entries):
            raise Violation('threads', '{}: {} evaluations and {} entries, '
                            'alone {} and {}'.format(
                                tag, s.obj.num_iterations(), len(log),
                                want['count'], len(entries)))
        for e, g in zip(entries, log):
            d = M.same([np.array(v) for v in g], [np.array(v) for v in e],
                       rtol=1e-6, atol=1e-8)
            if d:
                raise Violation('threads', '{}: entry {} and alone: {}'.format(
                    tag, e[0], d))
        d = M.same(ends[i], want['end'][0], rtol=1e-6, atol=1e-8)
        if d:
            raise Violation('threads', '{}: end point: {}'.format(tag, d))
        ctx.cover.append('threads/{}/{}'.format(t['m'], w.node.t))
        ctx.note(i, t['m'], len(log), M.digest(ends[i]))
    ctx.nontrivial = sim.stats.get('preemptions', 0) > 0
