"""C15: evaluations are counted, printed and logged exactly as configured."""

import _thread
import re
import sys

import numpy as np

from .. import model as M
from ..core import Violation, ScenarioInvalid, random_sched, yield_here

ID = 'C15'
RUNS = {'quick': 5000, 'thorough': 250000}
MIN_RUNS = 1500
RULE = ('a run is a history of 5-60 evaluations, derivatives, setting changes '
        'and resets of 1-3 objectives, with objectives, output streams and '
        'overridden print and log methods that fail at chosen calls, serial '
        'or with one thread per object; non-trivial if an evaluation '
        'completed after a failure or a change of settings; distinct by '
        'event log')
COVER = 'class x print_every x log_every x kind of failure x residue'
REAL = 'paragami, autograd, numpy'
STUB = 'the objective, sys.stdout (fails on request), thread scheduler'

EXC = {'InjectedFailure': M.InjectedFailure, 'ValueError': ValueError,
       'OSError': OSError, 'KeyboardInterrupt': KeyboardInterrupt,
       'MemoryError': MemoryError, 'ZeroDivisionError': ZeroDivisionError,
       'AttributeError': AttributeError, 'TypeError': TypeError,
       'IndexError': IndexError}
EVERY = [0, 1, 1, 2, 3, 5]


def gen_op(rng, n):
    w = rng.randrange(n)
    r = rng.random()
    if r < .55:
        op = {'op': 'f', 'w': w, 'vs': rng.randrange(2 ** 31),
              'x': rng.choice(['vec', 'vec', 'vec', 'scalar', '0d', 'list',
                               'kw', 'own', 'own', 'again'])}
        q = rng.random()
        if q < .12:
            op['fail'] = 'objective'
        elif q < .24:
            op['fail'] = 'print'
            op['write'] = rng.choice([1, 1, 2])
        elif q < .36:
            op['fail'] = 'log'
        elif q < .42:
            op['odd'] = rng.choice(['nan', 'inf', 'int', 'big', 'tiny'])
        if 'fail' in op:
            op['exc'] = rng.choice(sorted(EXC))
        return op
    if r < .67:
        return {'op': rng.choice(['grad', 'hessian', 'hvp']), 'w': w,
                'vs': rng.randrange(1000),
                'fail': rng.random() < .2, 'exc': rng.choice(sorted(EXC))}
    if r < .70:
        return {'op': 'grad_of_f', 'w': w, 'vs': rng.randrange(1000)}
    if r < .79:
        return {'op': 'print_every', 'w': w, 'n': rng.choice(EVERY),
                'np': rng.random() < .2}
    if r < .88:
        return {'op': 'log_every', 'w': w, 'n': rng.choice(EVERY),
                'np': rng.random() < .2}
    return {'op': rng.choice(['reset', 'reset_iteration_count', 'reset_log',
                              'reset_iteration_count', 'reset_log']), 'w': w}


def generate(rng):
    n = rng.choice([1, 2, 2, 3])
    sc = {'objects': [{'cls': rng.choice(['plain', 'plain', 'print', 'log',
                                          'both']),
                       'print': rng.choice(EVERY + [None]),
                       'log': rng.choice(EVERY + [1, None])}
                      for _ in range(n)],
          'params': {'shared': rng.random() < .5},
          'ops': [gen_op(rng, n)
                  for _ in range(rng.choice([5, 10, 20, 40, 60]))]}
    if rng.random() < .03:
        # as many evaluations as an optimisation makes
        at = rng.randrange(len(sc['ops']) + 1)
        sc['ops'].insert(at, {'op': 'run', 'w': rng.randrange(n),
                              'n': rng.choice([120, 300, 700, 1200]),
                              'vs': rng.randrange(1000)})
    if rng.random() < .2:
        k = rng.randint(2, 3)
        while len(sc['objects']) < k:
            sc['objects'].append({'cls': 'plain', 'print': 1, 'log': 1})
        sc['threads'] = [[dict(gen_op(rng, 1), w=i)
                          for _ in range(rng.choice([2, 5, 10]))]
                         for i in range(k)]
        for t in sc['threads']:
            for op in t:
                if op['op'] in ('hessian', 'hvp'):
                    op['op'] = 'grad'
                if op['op'] == 'grad_of_f':
                    op['op'] = 'grad'
                    op['fail'] = False
        sc['sched'] = random_sched(rng)
    return sc


class Out:
    """sys.stdout: remembers what each thread wrote, and fails on request."""

    encoding = 'utf-8'

    def __init__(self, ctx):
        self.text = {}
        self.left = {}
        self.ctx = ctx
        self.exc = {}

    def write(self, s):
        yield_here(('stdout', 'write'))
        me = _thread.get_ident()
        if self.left.get(me):
            self.left[me] -= 1
            if self.left[me] == 0:
                self.ctx.count('fault:failing-output')
                self.exc[me] = self.exc[me]('injected')
                raise self.exc[me]
        self.text[me] = self.text.get(me, '') + s
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def take(self):
        me = _thread.get_ident()
        self.left.pop(me, None)
        return self.text.pop(me, '')


class Obj:
    """One optimisation objective and the state it must have."""

    def __init__(self, w, s):
        import paragami as pg
        self.w, self.s = w, s
        self.calls = []          # values returned for the operation under way
        self.plan = None
        self.events = []         # calls of overridden methods
        self.out = None
        ob = self
        if w.fun is None or not w.sc['params']['shared']:
            def fun(x):
                return w.objective(x)
            w.fun = w.fun or fun
        else:
            fun = w.fun
        ns = {}
        if s['cls'] in ('print', 'both'):
            def print_value(self, num_f_evals, x, f_val):
                ob.hook('print', self, num_f_evals, x, f_val)
            ns['print_value'] = print_value
        if s['cls'] in ('log', 'both'):
            def log_value(self, num_f_evals, x, f_val):
                ob.hook('log', self, num_f_evals, x, f_val)
            ns['log_value'] = log_value
        cls = type('Custom', (pg.OptimizationObjective,), ns) if ns \
            else pg.OptimizationObjective
        kw = {}
        if s['print'] is not None:
            kw['print_every'] = s['print']
        if s['log'] is not None:
            kw['log_every'] = s['log']
        self.o = cls(fun, **kw)
        self.print_every = 1 if s['print'] is None else s['print']
        self.log_every = 0 if s['log'] is None else s['log']
        self.n = 0
        self.log = []
        self.mine = np.zeros(2)
        self.last = None

    def hook(self, kind, o, n, x, f):
        yield_here(('hook', kind))
        self.events.append((kind, n, M.copy_value(x), f, o.num_iterations()))
        p = self.plan
        if p and p.get('fail') == kind:
            self.w.ctx.count('fault:failing-' + kind)
            raise EXC[p['exc']]('injected')


class BadCopy(np.ndarray):
    """An argument that cannot be copied (allocation fails)."""

    def __copy__(self):
        raise MemoryError('injected: copy')


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.fun = None
        self.here = {}           # thread -> object whose operation is under way
        self.objs = [Obj(self, s) for s in sc['objects']]
        self.serial = 0

    def objective(self, x):
        import autograd.numpy as anp
        yield_here(('objective', 0))
        ob = self.here[_thread.get_ident()]
        p = ob.plan or {}
        self.serial += 1
        if p.get('fail') in ('objective', True):
            self.ctx.count('fault:failing-objective')
            p['raised'] = EXC[p['exc']]('injected')
            raise p['raised']
        odd = p.get('odd')
        if odd:
            r = {'nan': float('nan'), 'inf': -np.inf, 'int': -17,
                 'big': -1.25e15, 'tiny': 3e-7}[odd]
        else:
            # no two evaluations give the same value
            r = anp.sum(anp.array(x) ** 2 if isinstance(x, list) else x ** 2) \
                + 0.001 * self.serial
        ob.calls.append(r)
        yield_here(('objective', 1))
        return r


def argument(op):
    r = M.rs(op['vs'])
    k = op.get('x', 'vec')
    if k == 'scalar':
        return float(r.normal())
    if k == '0d':
        return np.array(r.normal())
    if k == 'list':
        return [float(v) for v in r.normal(size=2)]
    return r.normal(size=1 + op['vs'] % 3)


def residue(n, every):
    return 0 if every <= 0 else n % every


def entry(e):
    """(n, x, f) of a log entry, whatever kind of sequence it is."""
    return tuple(e)


def same_log(got, want):
    if len(got) != len(want):
        return '{} entries and not {}'.format(len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        g = entry(g)
        if len(g) != 3 or g[0] != w[0]:
            return 'entry {} is {} and not {}'.format(i, g, w)
        if w[1] is not ANY:
            d = M.same(g[1], w[1], exact=True) or \
                M.same(np.asarray(g[2]), np.asarray(w[2]), exact=True)
            if d:
                return 'entry {}: {}'.format(i, d)
    return ''


ANY = object()


def do(w, op, i, out):
    ob = w.objs[op['w'] % len(w.objs)]
    o, k, ctx = ob.o, op['op'], w.ctx
    what = 'op {} {}'.format(i, {a: b for a, b in op.items()})
    me = _thread.get_ident()
    w.here[me] = ob
    ob.plan, ob.calls, ob.events = dict(op), [], []
    out.take()
    if k == 'f':
        evaluate(w, ob, op, what, out, me)
    elif k in ('grad', 'hessian', 'hvp'):
        x = M.rs(op['vs']).normal(size=1 + op['vs'] % 3)
        exc = run(lambda: o.grad(x) if k == 'grad' else o.hessian(x)
                  if k == 'hessian' else o.hessian_vector_product(x, x))
        if ob.plan.get('raised') is None and exc is not None:
            raise Violation('derivative', '{}: {!r}'.format(what, exc))
        if out.take() or ob.events:
            raise Violation('printed', what + ': a derivative was printed or '
                            'logged')
    elif k == 'grad_of_f':
        import autograd
        x = M.rs(op['vs']).normal(size=1 + op['vs'] % 3)
        before = len(o.optimization_log)
        exc = run(lambda: autograd.grad(o.f)(x))
        if exc is None:
            plain = ob.s['cls'] not in ('log', 'both')
            if ob.log_every > 0 and ob.n % ob.log_every == 0 and plain:
                ob.log.append((ob.n, ANY, ANY))
            ob.n += 1
        elif ob.print_every == 0 or ob.s['cls'] in ('print', 'both'):
            raise Violation('derivative', '{}: {!r}'.format(what, exc))
        else:
            lenient(ob, o, None, before)
        out.take()
    elif k == 'print_every':
        o.set_print_every(np.int64(op['n']) if op['np'] else op['n'])
        ob.print_every = op['n']
    elif k == 'log_every':
        o.set_log_every(np.int64(op['n']) if op['np'] else op['n'])
        ob.log_every = op['n']
    elif k == 'reset':
        o.reset()
        ob.n, ob.log = 0, []
    elif k == 'reset_iteration_count':
        o.reset_iteration_count()
        ob.n = 0
    elif k == 'reset_log':
        o.reset_log()
        ob.log = []
    else:
        raise ScenarioInvalid(k)
    ob.plan = None
    mine = [ob] if w.sc.get('threads') else w.objs
    for b in mine:
        if b.o.num_iterations() != b.n:
            raise Violation('count', '{}: num_iterations() is {} and {} '
                            'evaluations completed'.format(
                                what, b.o.num_iterations(), b.n))
        d = same_log(b.o.optimization_log, b.log)
        if d:
            raise Violation('log', '{}: {}'.format(what, d))
    ctx.note(k, ob.n, len(ob.log))


def lenient(ob, o, e, before):
    """An evaluation failed after the objective returned.  Whether it was
    logged before that is not settled by the property."""
    if len(o.optimization_log) == before + 1:
        g = entry(o.optimization_log[-1])
        if e is None:
            ob.log.append((ob.n, ANY, ANY))
        elif g[0] == ob.n:
            ob.log.append(e)


def evaluate(w, ob, op, what, out, me):
    o, ctx = ob.o, w.ctx
    x = argument(op)
    if op.get('x') == 'own':
        # the one array its owner uses, with new contents
        ob.mine[:] = M.rs(op['vs']).normal(size=2)
        x = ob.mine
    elif op.get('x') == 'again' and ob.last is not None:
        # another array with the contents of the last
        x = ob.last.copy()
    ob.last = np.array(x, float)
    if op.get('fail') == 'log' and ob.s['cls'] not in ('log', 'both') and \
            isinstance(x, np.ndarray) and x.ndim:
        x = x.view(BadCopy)
    keep = M.copy_value(np.asarray(x) if isinstance(x, np.ndarray) else x)
    fails_out = op.get('fail') == 'print' and \
        ob.s['cls'] not in ('print', 'both')
    before = len(o.optimization_log)
    if fails_out:
        out.exc[me] = EXC[op['exc']]
        out.left[me] = op['write']
    exc = None
    try:
        got = o.f(x=x) if op.get('x') == 'kw' else o.f(x)
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    text = out.take()
    due_p = ob.print_every > 0 and ob.n % ob.print_every == 0
    due_l = ob.log_every > 0 and ob.n % ob.log_every == 0
    ctx.cover.append('{}/{}/{}/{}/{}/{}'.format(
        ob.s['cls'], ob.print_every, ob.log_every, op.get('fail'),
        residue(ob.n, ob.print_every), residue(ob.n, ob.log_every)))
    prints = [e for e in ob.events if e[0] == 'print']
    logs = [e for e in ob.events if e[0] == 'log']
    over_p = ob.s['cls'] in ('print', 'both')
    over_l = ob.s['cls'] in ('log', 'both')
    for e in ob.events:
        if e[4] != ob.n:
            raise Violation('count', '{}: num_iterations() is {} while '
                            'evaluation {} is under way'.format(
                                what, e[4], ob.n))
    if exc is not None:
        if op.get('fail') is None or \
                (op['fail'] == 'print' and not due_p) or \
                (op['fail'] == 'log' and not due_l):
            raise Violation('raised', '{}: {!r}'.format(what, exc))
        w.failed = True
        if ob.plan.get('raised') is not None:
            if text or ob.events:
                raise Violation('printed', what + ': an evaluation whose '
                                'objective failed was printed or logged')
            return
        if not over_l and due_l:
            lenient(ob, o, (ob.n, keep, ob.calls[-1]), before)
        return
    if ob.plan.get('raised') is not None:
        raise Violation('swallowed', what + ': the objective raised and f '
                        'returned {!r}'.format(got))
    # -- completed --------------------------------------------------------------
    if not any(got is c for c in ob.calls):
        ok = any(type(got) is type(c) and M.same(got, c, exact=True) == ''
                 for c in ob.calls)
        if not ok:
            raise Violation('value', '{}: f returned {!r} and the objective '
                            '{}'.format(what, got, ob.calls))
    if over_p:
        check_hook(prints, due_p, ob, keep, got, what, 'print')
        if text:
            raise Violation('printed', '{}: wrote {!r}'.format(what, text))
    else:
        complete = not fails_out or due_p is False
        if bool(text) != due_p and complete:
            raise Violation('printed', '{}: evaluation {} with print_every={} '
                            'wrote {!r}'.format(what, ob.n, ob.print_every,
                                                text))
        if due_p and complete:
            check_text(text, ob.n, got, what)
    if over_l:
        check_hook(logs, due_l, ob, keep, got, what, 'log')
    elif due_l:
        ob.log.append((ob.n, keep, got))
    ob.n += 1
    if w.failed:
        w.good = True


def check_hook(events, due, ob, x, f, what, kind):
    if len(events) != (1 if due else 0):
        raise Violation(kind, '{}: {}_value was called {} times for evaluation '
                        '{} with every={}'.format(
                            what, kind, len(events), ob.n,
                            ob.print_every if kind == 'print'
                            else ob.log_every))
    for e in events:
        d = '' if e[1] == ob.n else 'number {} and not {}'.format(e[1], ob.n)
        d = d or M.same(np.asarray(e[2]), np.asarray(x), exact=True) or \
            M.same(np.asarray(e[3]), np.asarray(f), exact=True)
        if d:
            raise Violation(kind, '{}: {}_value: {}'.format(what, kind, d))


NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\binf\b|\bnan\b)')


def check_text(text, n, f, what):
    if len([s for s in text.split('\n') if s]) != 1:
        raise Violation('printed', '{}: wrote {!r}'.format(what, text))
    nums = NUM.findall(text)
    ok = bool(nums) and nums[0].strip('+') == str(n)
    if ok:
        ok = False
        for s in nums[1:]:
            v = float(s)
            if (np.isnan(v) and np.isnan(f)) or v == f or \
                    abs(v - f) <= 1e-6 + 1e-5 * abs(f):
                ok = True
    if not ok:
        raise Violation('printed', '{}: evaluation {} with value {} was '
                        'printed as {!r}'.format(what, n, f, text))


def run(fn):
    try:
        fn()
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        return e
    return None


def many(w, op, i, out):
    for j in range(op['n']):
        do(w, {'op': 'f', 'w': op['w'], 'vs': op['vs'] + j, 'x': 'vec'},
           '{}.{}'.format(i, j), out)


def execute(sc, ctx):
    out = Out(ctx)
    w = World(sc, ctx)
    w.failed = w.good = False
    saved, sys.stdout = sys.stdout, out
    try:
        threads = sc.pop('threads', None)
        for i, op in enumerate(sc['ops']):
            (many if op['op'] == 'run' else do)(w, op, i, out)
            if op['op'] in ('print_every', 'log_every', 'reset', 'reset_log',
                            'reset_iteration_count'):
                w.failed = True
        if threads:
            sc['threads'] = threads

            def body(k):
                def go():
                    for j, op in enumerate(threads[k]):
                        do(w, op, 't%d.%d' % (k, j), out)
                return go
            ctx.run_threads([body(k) for k in range(len(threads))],
                            sc['sched'])
            sc.pop('threads')
        n = len(w.objs)
        for j in range(2 * n):
            do(w, {'op': 'f', 'w': j % n, 'vs': j, 'x': 'vec'}, 'end', out)
    finally:
        sys.stdout = saved
    ctx.nontrivial = w.good
