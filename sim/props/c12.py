"""C12: function wrappers are the plain composition on every call."""

import json

import numpy as np

from .. import model as M
from .. import oracle
from ..core import Violation, random_sched, yield_here

ID = 'C12'
ISOLATED = True
RUNS = {'quick': 3000, 'thorough': 120000}
MIN_RUNS = 800
RULE = ('a run is a history of 2-14 calls of 1-3 wrapped functions with '
        'unsorted argument and result positions, keyword arguments, rejected '
        'arguments, failing and re-entrant functions, serial or by 2-3 '
        'threads; non-trivial if at least two calls were compared; distinct '
        'by event log')
COVER = 'wrapper class x number of converted x sorted x outcome x mode'
REAL = 'paragami, numpy'
STUB = 'the wrapped functions (record their calls, fail and re-enter on request), thread scheduler'

KINDS = ['fold_in', 'flatten_in', 'fold_out', 'flatten_out', 'fold_io',
         'flatten_io', 'transform_in', 'transform_out']


def conversion(spec, val, free, flatten):
    p = M.build(spec)
    return M.outcome(lambda: p.flatten(val, free=free) if flatten
                     else p.fold(val, free=free))


FAIL = {'Exception': M.InjectedFailure, 'KeyError': KeyError,
        'KeyboardInterrupt': KeyboardInterrupt, 'StopIteration': StopIteration,
        'ValueError': ValueError, 'TypeError': TypeError,
        'IndexError': IndexError, 'AttributeError': AttributeError,
        'NotImplementedError': NotImplementedError, 'OSError': OSError,
        'FloatingPointError': FloatingPointError,
        'AssertionError': AssertionError, 'RuntimeError': RuntimeError}


def gen_wrapper(rng, like=None):
    kind = rng.choice(KINDS)
    nargs = rng.choice([1, 2, 3, 4, 5])
    nret = rng.choice([0, 1, 2, 3, 4])      # 0: a bare value, not a tuple

    def side(n, allow_none=True):
        if n == 0:
            n = 1
        m = rng.randint(1, n)
        nums = rng.sample(range(n), m)
        specs = [M.variant(rng, rng.choice(like)) if like else
                 M.gen_spec(rng, rng.choice([0, 0, 1])) for _ in range(m)]
        how = rng.choice(['list', 'list', 'array', 'tuple'])
        if m == 1 and rng.random() < .5:
            how = 'scalar'
        if allow_none and rng.random() < .25:
            nums = list(range(m))
            how = 'none'
        free = [rng.choice([True, False]) for _ in range(m)]
        if rng.random() < .3:
            free = rng.choice([True, False])
        elif rng.random() < .15:
            free = None
            for s in specs:
                s['fd'] = rng.choice([True, False])
        share = rng.random() < .2
        if share:
            specs = [specs[0]] * m
        return {'nums': nums, 'specs': specs, 'how': how, 'free': free,
                'share': share}
    w = {'kind': kind, 'nargs': nargs, 'nret': nret,
         'flat': rng.random() < .5}
    if kind in ('fold_in', 'flatten_in', 'transform_in', 'fold_io',
                'flatten_io'):
        w['in'] = side(nargs, kind.endswith('_in'))
    if kind in ('fold_out', 'flatten_out', 'transform_out', 'fold_io',
                'flatten_io'):
        w['out'] = side(nret)
        if nret == 0:
            w['out']['nums'] = [0]
            w['out']['specs'] = w['out']['specs'][:1]
            if isinstance(w['out']['free'], list):
                w['out']['free'] = w['out']['free'][:1]
    if kind in ('transform_in', 'transform_out'):
        w['kw'] = True
    return w


def gen_call(rng, nw):
    c = {'w': rng.randrange(nw), 'vs': rng.randrange(2 ** 31)}
    r = rng.random()
    if r < .12:
        c['fail'] = rng.choice(sorted(FAIL))
    elif r < .24:
        c['bad'] = rng.randrange(5)
        c['badkind'] = rng.choice(['none', 'short', 'str', 'few', 'shape'])
    elif r < .32:
        c['badret'] = rng.choice(['few', 'single', 'wrong', 'none'])
    elif r < .45:
        c['inner'] = gen_call(rng, nw)
        c['inner'].pop('inner', None)
        c['inner'].pop('own', None)
    elif r < .52:
        c['interrupt'] = [rng.random(), rng.choice(['interrupt', 'memory'])]
    if rng.random() < .4:
        c['kw'] = rng.sample(['free', 'args', 'x', 'argnums', 'patterns',
                              'self_', 'validate_value'],
                             rng.choice([1, 2]))
    if rng.random() < .15:
        c['extra'] = rng.choice([1, 2])
    if rng.random() < .4:
        c['own'] = True
    return c


def generate(rng):
    nw = rng.choice([1, 1, 2, 3])
    wrappers = [gen_wrapper(rng)]
    while len(wrappers) < nw:
        # perhaps over patterns that are easily taken for the others
        s = wrappers[0].get('in') or wrappers[0].get('out')
        wrappers.append(gen_wrapper(
            rng, s['specs'] if rng.random() < .5 else None))
    sc = {'wrappers': wrappers,
          'calls': [gen_call(rng, nw) for _ in range(rng.choice([2, 4, 8, 14]))],
          'mutate': rng.choice([None, None, 0, 1, 2])}
    if rng.random() < .4:
        sc['threads'] = []
        for _ in range(rng.choice([2, 2, 3])):
            t = [gen_call(rng, nw) for _ in range(rng.choice([1, 2, 4]))]
            for c in t:
                c.pop('interrupt', None)
                c.pop('own', None)
            sc['threads'].append(t)
        sc['sched'] = random_sched(rng)
    return sc


class World:
    def __init__(self, sc, ctx):
        import paragami as pg
        self.pg = pg
        self.ctx = ctx
        self.sc = sc
        self.calls = {}         # token -> list of (args, kwargs) received
        self.plan = {}          # token -> what the function should do
        self.lists = []
        self.owned = {}         # objects the caller refills and passes again
        self.pending = []       # finished calls, to be judged
        self.wrappers = [self.build(w) for w in sc['wrappers']]

    def side(self, s):
        """patterns, free, nums for the constructor (as lists we keep)."""
        ps = [M.build(x) for x in s['specs']]
        if s['share']:
            ps = [ps[0]] * len(ps)
        if not ps:
            from ..core import ScenarioInvalid
            raise ScenarioInvalid('no patterns')
        nums = list(s['nums'])
        free = s['free']
        free = list(free) if isinstance(free, list) else free
        how = s['how']
        if how == 'scalar' and len(ps) == 1:
            return ps[0], (free[0] if isinstance(free, list) else free), nums[0]
        if how == 'none':
            nums = None
        elif how == 'tuple':
            nums = tuple(nums)
        elif how == 'array':
            nums = np.array(nums)
        for x in (ps, free, nums):
            if isinstance(x, list):
                self.lists.append(x)
        return ps, free, nums

    def build(self, w):
        pg = self.pg

        def fun(*args, **kwargs):
            return self.original(w, args, kwargs)
        k = w['kind']
        if k == 'fold_in':
            p, f, n = self.side(w['in'])
            return pg.FoldFunctionInput(fun, p, f, n)
        if k == 'flatten_in':
            p, f, n = self.side(w['in'])
            return pg.FlattenFunctionInput(fun, p, f, n)
        if k == 'transform_in':
            p, f, n = self.side(w['in'])
            return pg.TransformFunctionInput(
                original_fun=fun, patterns=p, free=f, argnums=n,
                original_is_flat=w['flat'])
        if k == 'fold_out':
            p, f, n = self.side(w['out'])
            return pg.FoldFunctionOutput(fun, p, f, n)
        if k == 'flatten_out':
            p, f, n = self.side(w['out'])
            return pg.FlattenFunctionOutput(fun, p, f, n)
        if k == 'transform_out':
            p, f, n = self.side(w['out'])
            return pg.TransformFunctionOutput(
                original_fun=fun, patterns=p, free=f, retnums=n,
                original_is_flat=w['flat'])
        p, f, n = self.side(w['in'])
        if n is None:
            n = list(range(len(w['in']['nums'])))
        q, g, m = self.side(w['out'])
        cls = pg.FoldFunctionInputAndOutput if k == 'fold_io' \
            else pg.FlattenFunctionInputAndOutput
        return cls(fun, p, f, n, q, g, m)

    # -- the wrapped function --------------------------------------------------
    def original(self, w, args, kwargs):
        yield_here(('original', 0))
        tok = kwargs.get('token')
        c = self.plan[tok]
        # what was received: identities are kept alive by the log
        self.calls.setdefault(tok, []).append((args, kwargs))
        if c.get('inner'):
            inner = dict(c['inner'])
            self.ctx.count('reentrant calls')
            self.invoke(inner, '{}i'.format(tok))
        yield_here(('original', 1))
        if c.get('fail'):
            e = FAIL[c['fail']]('injected')
            c['raised'] = e
            self.ctx.count('fault:failing-function')
            raise e
        rets = self.returns(w, c)
        c['returned'] = rets
        return rets

    def to_flat_in(self, w):
        """Does the wrapper flatten what the caller passes?"""
        return w['kind'] in ('fold_in', 'fold_io') or \
            (w['kind'] == 'transform_in' and w['flat'])

    def to_folded_out(self, w):
        return w['kind'] in ('fold_out', 'fold_io') or \
            (w['kind'] == 'transform_out' and w['flat'])

    def returns(self, w, c):
        n = max(1, w['nret'])
        rets = [('ret', c['vs'], j) for j in range(n)]
        if 'out' in w:
            s = w['out']
            for j, (num, spec) in enumerate(zip(s['nums'], s['specs'])):
                free = s['free'][j] if isinstance(s['free'], list) else s['free']
                v = M.value(spec, c['vs'] + 17 + j)
                if self.to_folded_out(w):
                    f = spec['fd'] if free is None else free
                    v = M.ref_free_flatten(spec, v) if f else \
                        M.ref_flatten(spec, v)
                rets[num] = self.own(w, c, 'out', j, v)
        b = c.get('badret')
        if b == 'wrong':
            rets = [None for _ in rets]
        elif b == 'none':
            return None
        elif b == 'few' and w['nret'] > 0:
            rets = rets[:-1]
        elif b == 'single':
            return rets[0]
        return tuple(rets) if w['nret'] else rets[0]

    def own(self, w, c, where, j, v):
        """The caller's (or the function's) own buffer, refilled with v."""
        if not c.get('own'):
            return v
        key = (self.sc['wrappers'].index(w), where, j)
        old = self.owned.get(key)
        if old is not None and M.refill(old, v):
            self.ctx.count('refilled buffers')
            return old
        self.owned[key] = v
        return v

    # -- one call ---------------------------------------------------------------
    def args_of(self, w, c):
        """Arguments of the wrapper; which of them get converted."""
        args = [('arg', c['vs'], j) for j in range(w['nargs'])]
        for j in range(c.get('extra', 0)):
            args.append(['extra', j])
        if 'in' in w:
            s = w['in']
            for j, (num, spec) in enumerate(zip(s['nums'], s['specs'])):
                free = s['free'][j] if isinstance(s['free'], list) else s['free']
                v = M.value(spec, c['vs'] + j)
                if not self.to_flat_in(w):
                    f = spec['fd'] if free is None else free
                    v = M.ref_free_flatten(spec, v) if f else \
                        M.ref_flatten(spec, v)
                args[num] = self.own(w, c, 'in', j, v)
            if 'bad' in c:
                k = c['bad'] % len(s['nums'])
                num = s['nums'][k]
                b = c['badkind']
                if b == 'few':
                    args = args[:num]
                elif b == 'none':
                    args[num] = None
                elif b == 'str':
                    args[num] = 'bad'
                elif b == 'short':
                    args[num] = np.array([])
                else:
                    args[num] = np.zeros((2, 3, 1, 1, 1, 2))
        return args

    def convert(self, specs, frees, nums, vals, flatten, missing):
        """Plain conversion, on patterns nobody else uses, in any order."""
        vals = list(vals)
        for j, (num, spec) in enumerate(zip(nums, specs)):
            if num >= len(vals):
                raise missing('too few')
            free = frees[j] if isinstance(frees, list) else frees
            r = oracle.call(__name__, 'conversion', spec, vals[num], free,
                            flatten)
            if r[0] == 'err':
                raise missing(*r[1:])
            vals[num] = r[1]
        return vals

    def call(self, c, tok):
        self.invoke(c, tok)
        self.judge_all()

    def judge_all(self):
        while self.pending:
            self.judge(*self.pending.pop(0))

    def invoke(self, c, tok):
        w = self.sc['wrappers'][c['w'] % len(self.wrappers)]
        f = self.wrappers[c['w'] % len(self.wrappers)]
        args = self.args_of(w, c)
        kw = {k: ['kw', k, c['vs']] for k in c.get('kw', ())}
        kw['token'] = tok
        self.plan[tok] = c
        before = M.snap(args)
        what = 'call {} {} of {}'.format(tok, json.dumps(
            {k: v for k, v in c.items() if k not in ('raised', 'returned')},
            default=str), json.dumps(w))
        exc = None
        try:
            got = ('ok', f(*args, **kw))
        except Violation:
            raise
        except BaseException as e:
            from ..core import InjectedInterrupt, InjectedMemoryError, SimCrash
            if isinstance(e, (InjectedInterrupt, InjectedMemoryError, SimCrash,
                              SystemExit, GeneratorExit)):
                raise
            got = ('err', type(e).__name__, str(e)[:200])
            exc = e
        self.pending.append((c, tok, w, args, kw, before, what, got, exc))

    def judge(self, c, tok, w, args, kw, before, what, got, exc):
        if M.snap(args) != before:
            raise Violation('argument', what + ': changed its arguments')
        # -- expectation ---------------------------------------------------------
        recv = self.calls.get(tok, [])
        conv = ('ok', list(args))
        if 'in' in w:
            s = w['in']
            conv = M.outcome(lambda: self.convert(
                s['specs'], s['free'], s['nums'], args, self.to_flat_in(w),
                IndexError))
        if conv[0] == 'err':
            self.ctx.count('fault:rejected-argument')
            if recv:
                raise Violation('called', what + ': the original function was '
                                'called although an argument is not acceptable')
            if got[0] != 'err':
                raise Violation('accepted', what + ': returned although an '
                                'argument is not acceptable')
            self.ctx.note(tok, 'rejected')
            self.cov(w, 'rejected')
            return
        if len(recv) != 1:
            raise Violation('call-count', '{}: the original function was '
                            'called {} times'.format(what, len(recv)))
        rargs, rkw = recv[0]
        if len(rargs) != len(args):
            raise Violation('arguments', '{}: {} positional arguments arrived '
                            'and not {}'.format(what, len(rargs), len(args)))
        nums = w['in']['nums'] if 'in' in w else []
        for j, (a, b) in enumerate(zip(rargs, conv[1])):
            if j in nums:
                d = M.same(a, b)
                if d:
                    raise Violation('converted', '{}: argument {}: {}'.format(
                        what, j, d))
            elif a is not args[j]:
                raise Violation('passed', '{}: argument {} is not the object '
                                'that was passed'.format(what, j))
        if sorted(rkw) != sorted(kw) or any(rkw[k] is not kw[k] for k in kw):
            raise Violation('keywords', '{}: keywords {} and not {}'.format(
                what, sorted(rkw), sorted(kw)))
        if c.get('raised') is not None:
            if got[0] != 'err' or exc is not c['raised']:
                raise Violation('exception', '{}: the function raised {!r} and '
                                'the caller got {}'.format(
                                    what, c['raised'], M.brief(got)))
            self.ctx.note(tok, 'raised')
            self.cov(w, 'raised')
            return
        rets = c['returned']
        if 'out' not in w:
            if got[0] != 'ok' or got[1] is not rets:
                raise Violation('result', '{}: the function\'s result did not '
                                'arrive: {}'.format(what, M.brief(got)))
            self.ctx.note(tok, 'ok')
            self.cov(w, 'ok')
            return
        s = w['out']
        bare = not isinstance(rets, tuple)
        if bare and list(s['nums']) != [0]:
            want = ('err', None)
        else:
            want = M.outcome(lambda: self.convert(
                s['specs'], s['free'], s['nums'], [rets] if bare else rets,
                not self.to_folded_out(w), ValueError))
        if want[0] == 'err':
            if got[0] != 'err':
                raise Violation('accepted', '{}: an unusable result was '
                                'accepted: {}'.format(what, M.brief(got)))
            self.ctx.count('fault:rejected-result')
            self.ctx.note(tok, 'bad result')
            self.cov(w, 'badret')
            return
        if got[0] != 'ok':
            raise Violation('result', '{}: {}'.format(what, M.brief(got)))
        if bare:
            d = M.same(got[1], want[1][0])
            if d:
                raise Violation('result', '{}: {}'.format(what, d))
        else:
            if not isinstance(got[1], tuple) or len(got[1]) != len(rets):
                raise Violation('result', '{}: {}'.format(what, M.brief(got)))
            for j, a in enumerate(got[1]):
                if j in s['nums']:
                    d = M.same(a, want[1][j])
                    if d:
                        raise Violation('result', '{}: result {}: {}'.format(
                            what, j, d))
                elif a is not rets[j]:
                    raise Violation('result', '{}: result {} is not the object '
                                    'the function returned'.format(what, j))
        self.ctx.note(tok, 'ok', M.digest(want[1]))
        self.cov(w, 'ok')

    def cov(self, w, out):
        nums = w.get('in', w.get('out'))['nums']
        self.ctx.cover.append('{}/{}/{}/{}/{}'.format(
            w['kind'], len(nums), nums == sorted(nums), out,
            'threads' in self.sc))


def execute(sc, ctx):
    w = World(sc, ctx)
    if sc['mutate'] == 0:
        spoil(w, ctx)
    for i, c in enumerate(sc['calls']):
        if c.get('interrupt'):
            frac, kind = c['interrupt']
            twin = World(sc, ctx)
            plain = {k: v for k, v in c.items() if k not in
                     ('interrupt', 'bad', 'fail', 'badret')}
            _, _, n = ctx.faulted(lambda: twin.invoke(dict(plain), 'd%d' % i),
                                  None, kind)
            ctx.faulted(lambda: w.invoke(dict(plain), 'f%d' % i),
                        1 + int(frac * n), kind)
            w.judge_all()
        else:
            w.call(dict(c), 's%d' % i)
        if sc['mutate'] == i:
            spoil(w, ctx)
    n = len(sc['calls'])
    if sc.get('threads'):
        def body(k):
            def run():
                for j, c in enumerate(sc['threads'][k]):
                    w.invoke(dict(c), 't%d.%d' % (k, j))
            return run
        ctx.run_threads([body(k) for k in range(len(sc['threads']))],
                        sc['sched'])
        w.judge_all()
        for i, c in enumerate(sc['calls'][:2]):
            c = {k: v for k, v in c.items() if k != 'interrupt'}
            w.call(dict(c), 'e%d' % i)
        n += 2
    ctx.nontrivial = n >= 2


def spoil(w, ctx):
    """The caller reuses the lists it passed at construction."""
    for x in w.lists:
        if x and isinstance(x[0], bool):
            x[:] = [not b for b in x]
        elif x and isinstance(x[0], int):
            x.reverse()
            x[0] = 40
        elif x:
            x[:] = [None] * (len(x) + 1)
        ctx.count('fault:mutated-list')
