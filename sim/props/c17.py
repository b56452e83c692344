"""C17: random parameters are valid and driven only by numpy's generator."""

import copy
import io
import json
import random as pyrandom
import time

import numpy as np

from .. import far
from .. import model as M
from .. import ops as O
from .. import precond as P
from ..core import InjectedInterrupt, Violation, ScenarioInvalid, random_sched

ID = 'C17'
FAR = True
RUNS = {'quick': 4000, 'thorough': 150000}
MIN_RUNS = 1000
RULE = ('a run is a history of 4-40 draws, reseeds, saved and restored '
        'generator states, other consumers of random numbers, interrupted '
        'draws and other operations on 1-3 patterns, their copies and their '
        'members, optionally followed by draws in one thread while others use '
        'the patterns; every draw is repeated from its state in a '
        'separate process with another clock, other hashes and another history; non-trivial if a '
        'draw was repeated; distinct by event log')
COVER = 'operation x pattern type x variant'
REAL = 'paragami, numpy (including its global generator), autograd'
STUB = 'clock, thread scheduler'

VARIANTS = ['same', 'same', 'copy', 'deepcopy', 'json', 'fresh', 'member']
MISC = ['store', 'wrapper', 'objective', 'precond', 'minimize', 'json', 'build',
        'dict', 'chol', 'copy']


def gen_op(rng, n):
    w = rng.randrange(n)
    r = rng.random()
    if r < .45:
        op = {'op': 'draw', 'w': w, 'v': rng.choice(VARIANTS)}
        if rng.random() < .6:
            op['again'] = {
                'v': rng.choice(VARIANTS), 'clock': rng.choice([0, 1, -1e6, 1e9]),
                'between': [gen_between(rng, n)
                            for _ in range(rng.choice([0, 1, 2]))]}
        if rng.random() < .12:
            op['interrupt'] = [rng.random(), rng.choice(['interrupt', 'memory'])]
        return op
    if r < .52:
        return {'op': 'seed', 's': rng.choice([0, 1, 1, 7, 2 ** 32 - 1])}
    if r < .58:
        return {'op': 'keep', 'slot': rng.randrange(2)}
    if r < .64:
        return {'op': 'restore', 'slot': rng.randrange(2)}
    return gen_between(rng, n)


def gen_between(rng, n):
    r = rng.random()
    if r < .25:
        return {'op': 'consume', 'k': rng.randrange(5)}
    if r < .35:
        return {'op': 'draw', 'w': rng.randrange(n), 'v': 'same'}
    if r < .75:
        return {'op': 'other', 'w': rng.randrange(n), 'o': O.gen_op(rng)}
    return {'op': 'misc', 'w': rng.randrange(n), 'm': rng.choice(MISC),
            'vs': rng.randrange(1000)}


def generate(rng):
    n = rng.choice([1, 2, 2, 3])
    specs = [M.gen_spec(rng, rng.choice([0, 0, 1, 2, 2]), empty_ok=True)
             for _ in range(n)]
    if n > 1 and rng.random() < .3:
        specs[1] = copy.deepcopy(specs[0])
    sc = {'specs': specs,
          'ops': [gen_op(rng, n) for _ in range(rng.choice([4, 10, 20, 40]))]}
    if rng.random() < .2:
        sc['draws'] = [rng.randrange(n) for _ in range(rng.choice([2, 4, 8]))]
        sc['threads'] = [[{'w': rng.randrange(n), 'o': O.gen_op(rng)}
                          for _ in range(rng.choice([1, 4, 8]))]
                         for _ in range(rng.choice([1, 2]))]
        sc['sched'] = random_sched(rng)
    return sc


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), int(s[2]), int(s[3]), float(s[4]))


def check_valid(spec, v, what):
    """The value is a member of the pattern (by the model's own rules)."""
    if spec['t'] == 'dict':
        if not isinstance(v, dict) or list(v.keys()) != [k for k, _ in
                                                         spec['items']]:
            raise Violation('invalid', '{}: not a value of the dictionary: {}'
                            .format(what, v))
        for k, m in spec['items']:
            check_valid(m, v[k], '{}[{!r}]'.format(what, k))
        return
    if not isinstance(v, np.ndarray) or v.shape != M.shape_of(spec) or \
            v.dtype.kind != 'f':
        raise Violation('invalid', '{}: {} is not an array of shape {}'.format(
            what, v, M.shape_of(spec)))
    base, cells = spec, [v]
    while base['t'] == 'array':
        n = len(M.shape_of(base['base']))
        base = base['base']
    shape = M.shape_of(base)
    if M.prod(v.shape) == 0:
        return
    cells = v.reshape((-1,) + shape)
    if not np.all(np.isfinite(cells)):
        raise Violation('invalid', '{}: not finite: {}'.format(what, v))
    t = base['t']
    ok = True
    if t in ('num', 'vec', 'scalar'):
        lb, ub = M.inf_lb(base), M.inf_ub(base)
        ok = np.all(cells >= lb) and np.all(cells <= ub)
    elif t == 'psd':
        for c in cells:
            w = np.linalg.eigvalsh(0.5 * (c + c.T))
            ok = ok and np.allclose(c, c.T) and \
                w[0] >= -1e-8 * max(1, abs(w[-1])) and \
                np.all(np.diag(c) >= base['diag_lb'] - 1e-9)
    elif t == 'simplex':
        ok = np.all(cells >= 0) and np.allclose(cells.sum(axis=-1), 1)
    if not ok:
        raise Violation('invalid', '{}: {} is not valid for {}'.format(
            what, v, json.dumps(spec)))


def variant(p, spec, v):
    import paragami as pg
    if v == 'copy':
        return copy.copy(p)
    if v == 'deepcopy':
        return copy.deepcopy(p)
    if v == 'json':
        return pg.get_pattern_from_json(p.to_json())
    if v == 'fresh':
        return M.build(spec)
    if v == 'member':
        d = pg.PatternDict()
        d['x'] = M.build({'t': 'vec', 'n': 2, 'lb': None, 'ub': None,
                          'dv': True, 'fd': None})
        d['p'] = variant(p, spec, 'fresh')
        return d['p']
    return p


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.specs = sc['specs']
        self.ps = [M.build(s) for s in self.specs]
        self.known = {}          # (state, spec) -> (digest, state after)
        self.slots = {}
        self.repeated = 0
        self.offset = 0.0

    def draw(self, w, v, what, p=None):
        spec = self.specs[w]
        if p is None:
            p = variant(self.ps[w], spec, v)
        before = state()
        val = p.random()
        after = state()
        self.drew(w, before, val, after, what)
        return val

    def drew(self, w, before, val, after, what):
        spec = self.specs[w]
        check_valid(spec, val, what)
        ok, msg = self.ps[w].validate_folded(val)
        if not ok:
            raise Violation('invalid', '{}: {}'.format(what, msg))
        dig = M.copy_value(val)
        key = (before, json.dumps(spec, sort_keys=True))
        if key in self.known:
            self.repeated += 1
            d = M.same(self.known[key][0], dig) or \
                ('' if self.known[key][1] == after else
                 'the generator is in another state')
            if d:
                raise Violation('not-reproduced', '{}: the same pattern and '
                                'generator state gave another value: {}'
                                .format(what, d))
        self.known[key] = (dig, after)
        if M.flat_len(spec, True) > 0 and before == after:
            raise Violation('not-drawn', what + ': the generator did not move')
        self.ctx.note('draw', w, M.digest(val))

    def quiet(self, fn, what):
        """Run something that must not touch the global generator."""
        before = state()
        try:
            fn()
        except (Violation, ScenarioInvalid):
            raise
        except Exception:
            pass
        if state() != before:
            raise Violation('disturbed', what + ': the global generator was '
                            'used or reseeded')

    def other(self, op, what):
        w = op['w'] % len(self.ps)
        args = O.make_args(self.specs[w], op['o'])
        self.quiet(lambda: O.call(self.ps[w], self.specs[w], op['o'], args),
                   what)

    def misc(self, op, what):
        import paragami as pg
        w = op['w'] % len(self.ps)
        p, spec, m, vs = self.ps[w], self.specs[w], op['m'], op['vs']
        val = M.value(spec, vs)
        obj = P.Objective(2, vs, True)
        x = M.rs(vs).normal(size=2)

        def go():
            if m == 'store':
                b = io.BytesIO()
                pg.save_folded(b, val, p)
                b.seek(0)
                pg.load_folded(b)
            elif m == 'wrapper':
                f = pg.FlattenFunctionInput(lambda v: v, patterns=p, free=True)
                f(p.flatten(val, free=True))
                g = pg.FoldFunctionOutput(lambda v: v, p, True)
                g(p.flatten(val, free=True))
            elif m in ('objective', 'minimize'):
                o = pg.OptimizationObjective(obj.fun(), log_every=1)
                o.f(x), o.grad(x), o.hessian(x)
                o.hessian_vector_product(x, x)
                if m == 'minimize':
                    import scipy.optimize
                    scipy.optimize.minimize(o.f, x, jac=o.grad, method='BFGS')
            elif m == 'precond':
                f = pg.PreconditionedFunction(obj.fun())
                f.set_preconditioner_with_hessian(x=x, ev_min=.1)
                f(x), f.precondition(x), f.get_preconditioner(2)
                f.check_preconditioner(x)
                f.set_preconditioner_matrix(np.eye(2) * 2)
                f(x)
            elif m == 'chol':
                import scipy.sparse as sp
                from paragami.sparse_preconditioners_lib import \
                    get_sym_matrix_inv_sqrt_funcs
                a, b = get_sym_matrix_inv_sqrt_funcs(sp.csc_matrix(obj.q))
                b(a(x))
            elif m == 'json':
                q = pg.get_pattern_from_json(p.to_json())
                q == p
            elif m == 'build':
                q = M.build(spec)
                q.flat_names(True)
            elif m == 'dict':
                d = pg.PatternDict()
                d['a'] = M.build(spec)
                d['b'] = M.build(self.specs[0])
                d.empty(valid=True)
                del d['a']
                d.lock()
            elif m == 'copy':
                copy.deepcopy(p).empty(valid=True)
                copy.copy(p).free_default = True
        self.quiet(go, what)

    def do(self, op, what):
        k = op['op']
        if k == 'draw':
            w = op['w'] % len(self.ps)
            if op.get('interrupt'):
                self.interrupted(op, w, what)
            s = np.random.get_state()
            before = state()
            a = self.draw(w, op['v'], what)
            if M.flat_len(self.specs[w], True) > 0:
                b = self.draw(w, op['v'], what + ' (second)')
                if not M.same(a, b):
                    raise Violation('repeated', what + ': two draws in a row '
                                    'are equal')
            if op.get('again'):
                g = op['again']
                for j, o in enumerate(g['between']):
                    self.do(o, '{} / {}'.format(what, o))
                self.offset += g['clock']
                np.random.set_state(s)
                if state() != before:
                    raise ScenarioInvalid('generator state')
                self.draw(w, g['v'], what + ' (again)')
            self.ctx.cover.append('draw/{}/{}'.format(
                self.specs[w]['t'], op['v']))
        elif k == 'seed':
            np.random.seed(op['s'])
        elif k == 'keep':
            self.slots[op['slot']] = np.random.get_state()
        elif k == 'restore':
            if op['slot'] in self.slots:
                np.random.set_state(self.slots[op['slot']])
        elif k == 'consume':
            [lambda: np.random.normal(), lambda: np.random.random(3),
             lambda: np.random.permutation(5), lambda: np.random.normal(size=2),
             lambda: np.random.randint(7)][op['k']]()
            self.ctx.count('fault:other-consumer')
        elif k == 'other':
            self.other(op, what)
            self.ctx.cover.append('other/' + op['o']['op'])
        elif k == 'misc':
            self.misc(op, what)
            self.ctx.cover.append('misc/' + op['m'])
        else:
            raise ScenarioInvalid(k)

    def interrupted(self, op, w, what):
        frac, kind = op['interrupt']
        s = np.random.get_state()
        p = self.ps[w]
        _, _, n = self.ctx.faulted(p.random, None, kind)
        np.random.set_state(s)
        self.ctx.faulted(p.random, 1 + int(frac * n), kind)
        np.random.set_state(s)


def execute(sc, ctx):
    w = World(sc, ctx)
    real = time.time, time.monotonic, time.time_ns
    time.time = lambda: ctx.clock.now + w.offset
    time.monotonic = lambda: ctx.clock.elapsed + 1.0
    time.time_ns = lambda: int((ctx.clock.now + w.offset) * 1e9)
    try:
        for i, op in enumerate(sc['ops']):
            w.do(op, 'op {} {}'.format(i, op))
        if sc.get('threads'):
            concurrent(sc, ctx, w)
    finally:
        time.time, time.monotonic, time.time_ns = real
    # in another process: other clock, history, order and hash values
    known = sorted(w.known.items(), key=lambda e: (e[0][1], e[0][0]))
    if known:
        got = far.call('sim.props.c17', 'elsewhere', [k for k, _ in known])
        for ((s, js), (dig, _)), g in zip(known, got):
            w.repeated += 1
            d = M.same(g, dig)
            if d:
                raise Violation('not-reproduced', 'another process draws '
                                'another value from the same generator state '
                                'for {}: {}'.format(js, d))
    ctx.nontrivial = w.repeated > 0


def elsewhere(keys):
    """Runs in another process."""
    pyrandom.seed(99)
    t = time.time
    time.time = lambda: t() + 1e7
    built, out = {}, []
    for s, js in keys:
        if js not in built:
            built[js] = M.build(json.loads(js))
        np.random.set_state((s[0], np.frombuffer(s[1], np.uint32), s[2], s[3],
                             s[4]))
        out.append(built[js].random())
    return out


def concurrent(sc, ctx, w):
    draws = sc['draws']
    s = np.random.get_state()
    serial = []
    for d in draws:
        serial.append(w.draw(d % len(w.ps), 'same', 'serial draw'))
    end = state()
    np.random.set_state(s)
    got = []

    def drawer():
        for d in draws:
            got.append(w.ps[d % len(w.ps)].random())

    def body(k):
        def run():
            for op in sc['threads'][k]:
                i = op['w'] % len(w.ps)
                args = O.make_args(w.specs[i], op['o'])
                M.outcome(lambda: O.call(w.ps[i], w.specs[i], op['o'], args))
        return run
    ctx.run_threads([drawer] + [body(k) for k in range(len(sc['threads']))],
                    sc['sched'])
    if M.same(got, serial) or state() != end:
        raise Violation('not-reproduced', 'draws in one thread differ while '
                        'other threads use the patterns')
