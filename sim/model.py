"""Patterns as JSON specifications, and what is known about them without
asking paragami: valid and invalid values, the non-free layout, lengths.

spec: {"t": "num",  "shape": [..], "lb": x|None, "ub": x|None, "dv": bool, "fd": None|bool}
      {"t": "vec",  "n": .., ...}      {"t": "scalar", ...}
      {"t": "psd",  "size": n, "diag_lb": x, "dv":, "fd":}
      {"t": "simplex", "k": n, "shape": [..], "dv":, "fd":}
      {"t": "dict", "items": [[key, spec], ..], "fd":}
      {"t": "array", "shape": [..], "base": spec, "fd":}
"""

import hashlib
import itertools
import json
from collections import OrderedDict

import numpy as np

from .core import ScenarioInvalid, Violation, yield_here

KEYS = ['a', 'b', 'mat', 'vec', 'x_1', 'mu', 'K', 'long_name_of_a_parameter',
        '0', 'with space', 'a_b', 'a_', 'µ', 'dict', 'keys', 'pattern',
        'free', 'z.z', 'Sigma', '', 'A', '10', '9', 'e\u0301', '\u00e9',
        '"q"', 'back\\slash', 'new\nline', 'a/b', '\U0001f600', 'None', '[0]',
        'contents', '__class__', ' ', 'n' * 90]


# -- specifications -----------------------------------------------------------
def gen_bounds(rng):
    r = rng.random()
    if r < .08:
        # many digits
        lb, ub = rng.choice([(1 / 3, 2 / 3), (-3.141592653589793, .1 + .2),
                             (123.45678901234567, 200), (.1, .1 + 1 / 1024),
                             (-1e-7, 1e-7 / 3 + 1)])
        return rng.choice([(lb, ub), (lb, ub), (lb, None), (None, ub)])
    if r < .4:
        return None, None
    if r < .6:
        return rng.choice([0, 0.0, -1.5, 2, 1e-3, -100.]), None
    if r < .75:
        return None, rng.choice([0, 0.0, 3.5, -2, 10.])
    return rng.choice([(0., 1.), (0, 1), (-1., 1.), (-2.5, 4.), (1., 1.5),
                       (-10, 10), (.1, .3)])


def gen_leaf(rng, big=False, kinds=('num', 'num', 'vec', 'scalar', 'psd',
                                    'simplex')):
    t = rng.choice(list(kinds))
    odd = rng.random() < .07
    fd = rng.choice([None, None, True, False])
    dv = rng.random() < .75
    if t in ('num', 'vec', 'scalar'):
        lb, ub = gen_bounds(rng)
        s = {'t': t, 'lb': lb, 'ub': ub, 'dv': dv, 'fd': fd}
        if t == 'num':
            nd = rng.choice([1, 1, 2, 2, 3])
            s['shape'] = [rng.choice([1, 2, 2, 3, 4] + ([0] if rng.random() < .1 else []))
                          for _ in range(nd)]
            if big:
                s['shape'] = rng.choice([[300], [2000], [40, 50], [7, 8, 9]])
            elif odd:
                s['shape'] = rng.choice([[12], [11, 2], [2, 1, 2, 1], [33],
                                         [1, 1, 1, 1, 2], [3, 0, 2], [260]])
        elif t == 'vec':
            s['n'] = rng.choice([1, 2, 3, 5, 0 if rng.random() < .2 else 4])
            if big:
                s['n'] = rng.choice([100, 700, 1500])
            elif odd:
                s['n'] = rng.choice([11, 13, 40, 260])
        return s
    if t == 'psd':
        return {'t': t, 'size': rng.choice(
                    [4, 5, 6, 11] if odd else
                    [1, 2, 2, 3] + ([5, 8] if big else [])),
                'diag_lb': rng.choice([0.0, 0.0, 0.5, 2, .1 + .2]
                                      if odd else [0.0, 0.0, 0.5, 2]),
                'dv': dv, 'fd': fd}
    return {'t': t, 'k': rng.choice([2, 5, 11] if odd else [2, 2, 3, 4]),
            'shape': rng.choice([[], [], [2, 1, 2], [11], [4, 3]] if odd else
                                [[1], [2], [3], [2, 2], [1, 3]]),
            'dv': dv, 'fd': fd}


def gen_spec(rng, depth=2, big=False, empty_ok=False, min_items=1,
             p_leaf=.35, max_items=4):
    if depth <= 0 or rng.random() < p_leaf:
        return gen_leaf(rng, big and rng.random() < .3)
    fd = rng.choice([None, None, True, False])
    if rng.random() < .25:
        base = gen_leaf(rng) if rng.random() < .8 else \
            {'t': 'array', 'shape': [2], 'base': gen_leaf(rng), 'fd': None}
        return {'t': 'array', 'shape': rng.choice(
                    [[2, 1, 2], [11], [3, 4]] if rng.random() < .07 else
                    [[1], [2], [3], [2, 2]]),
                'base': base, 'fd': fd}
    lo = 0 if empty_ok and rng.random() < .2 else min_items
    n = rng.randint(lo, max_items) if lo < max_items else lo
    if rng.random() < .03:
        # more than ten members
        keys = rng.sample(KEYS, rng.choice([11, 13, 20]))
        return {'t': 'dict', 'fd': fd, 'items': [[k, gen_leaf(rng)]
                                                 for k in keys]}
    keys = rng.sample(KEYS, n) if rng.random() < .5 else rng.sample(KEYS[:9], n)
    return {'t': 'dict', 'fd': fd,
            'items': [[k, gen_spec(rng, depth - 1, big, empty_ok)]
                      for k in keys]}


def variant_leaf(rng, s):
    """The leaf with one setting changed; its lengths are kept if possible."""
    s = dict(s)
    t = s['t']
    how = ['fd', 'dv']
    if t in ('num', 'vec', 'scalar'):
        how += ['bounds', 'bounds', 'bounds', 'kind']
        if t == 'num':
            how += ['shape', 'shape', 'shape']
    elif t == 'psd':
        how += ['diag_lb', 'diag_lb', 'kind']
    else:
        how += ['ks', 'ks', 'shape', 'kind']
    h = rng.choice(how)
    if h == 'fd':
        s['fd'] = rng.choice([x for x in (None, True, False)
                              if x is not s['fd']])
    elif h == 'dv':
        s['dv'] = not s['dv']
    elif h == 'bounds':
        lb, ub = s['lb'], s['ub']
        r = rng.random()
        if r < .3 and (lb is None) != (ub is None):
            # the same number at the other side
            s['lb'], s['ub'] = ub, lb
        elif r < .6 and lb is not None:
            s['lb'] = lb - .5
        elif r < .6 and ub is not None:
            s['ub'] = ub + .5
        else:
            s['lb'], s['ub'] = gen_bounds(rng)
    elif h == 'kind':
        n = flat_len(s, False)
        own = {'lb': None, 'ub': None, 'dv': s['dv'], 'fd': s['fd']}
        if t in ('num', 'vec', 'scalar'):
            own.update(lb=s['lb'], ub=s['ub'])
        opts = [dict(own, t='vec', n=n), dict(own, t='num', shape=[n])]
        if n == 1:
            opts.append(dict(own, t='scalar'))
        if t == 'simplex':
            opts.append(dict(own, t='num', shape=s['shape'] + [s['k']], lb=0.,
                             ub=None))
        if t == 'psd':
            opts.append(dict(own, t='num', shape=[s['size'], s['size']]))
        s = rng.choice(opts)
    elif h == 'diag_lb':
        s['diag_lb'] = rng.choice([x for x in (0.0, .25, .5, 1., 2)
                                   if x != s['diag_lb']])
    elif h == 'shape':
        sh = list(s['shape'])
        r = rng.random()
        if r < .4 and len(set(sh)) > 1:
            sh = sh[::-1] if sh != sh[::-1] else sh[1:] + sh[:1]
        elif r < .6 and len(sh) > 1 and t == 'num':
            sh = [int(np.prod(sh))]
        elif not sh or r < .8 and len(sh) < 3:
            sh = rng.choice([[1] + sh, sh + [1]])
        elif t == 'num' and len(sh) == 1 and sh[0] in (2, 4, 6):
            sh = [sh[0] // 2, 2]
        else:
            sh = sh[:-1] + [sh[-1] + 1]
        s['shape'] = sh
    elif h == 'ks':
        if len(s['shape']) == 1 and s['shape'][0] >= 2 \
                and s['shape'][0] != s['k']:
            s['k'], s['shape'] = s['shape'][0], [s['k']]
        else:
            s['k'] += 1
    return s


def variant(rng, s):
    """A pattern that is easily taken for this one: one setting of one node is
    different, and the lengths are kept when that is possible."""
    if s['t'] == 'dict':
        s = dict(s, items=[list(it) for it in s['items']])
        n = len(s['items'])
        r = rng.random()
        if not n or r < .12:
            s['fd'] = rng.choice([x for x in (None, True, False)
                                  if x is not s['fd']])
        elif r < .28 and n > 1:
            i, j = rng.sample(range(n), 2)
            if rng.random() < .5:
                # the order of the members
                s['items'][i], s['items'][j] = s['items'][j], s['items'][i]
            else:
                # the same members under each other's names
                s['items'][i][0], s['items'][j][0] = \
                    s['items'][j][0], s['items'][i][0]
        elif r < .38:
            i = rng.randrange(n)
            free = [k for k in KEYS if k not in [it[0] for it in s['items']]]
            s['items'][i][0] = rng.choice(free)
        else:
            i = rng.randrange(n)
            s['items'][i][1] = variant(rng, s['items'][i][1])
        return s
    if s['t'] == 'array':
        r = rng.random()
        s = dict(s)
        if r < .15:
            s['fd'] = rng.choice([x for x in (None, True, False)
                                  if x is not s['fd']])
        elif r < .35:
            sh = list(s['shape'])
            s['shape'] = rng.choice([[1] + sh, sh + [1], [int(np.prod(sh))]])
        else:
            b = variant(rng, s['base'])
            s['base'] = b
        return s
    return variant_leaf(rng, s)


def inf_lb(s):
    return -float('inf') if s['lb'] is None else s['lb']


def inf_ub(s):
    return float('inf') if s['ub'] is None else s['ub']


def build(s, subclass=None):
    import paragami as pg
    t = s['t']
    try:
        if t == 'num':
            return pg.NumericArrayPattern(
                shape=tuple(s['shape']), lb=inf_lb(s), ub=inf_ub(s),
                default_validate=s['dv'], free_default=s['fd'])
        if t == 'vec':
            cls = flaky_class() if s.get('flaky') else pg.NumericVectorPattern
            return cls(
                length=s['n'], lb=inf_lb(s), ub=inf_ub(s),
                default_validate=s['dv'], free_default=s['fd'])
        if t == 'scalar':
            return pg.NumericScalarPattern(
                lb=inf_lb(s), ub=inf_ub(s),
                default_validate=s['dv'], free_default=s['fd'])
        if t == 'psd':
            return pg.PSDSymmetricMatrixPattern(
                size=s['size'], diag_lb=s['diag_lb'],
                default_validate=s['dv'], free_default=s['fd'])
        if t == 'simplex':
            return pg.SimplexArrayPattern(
                simplex_size=s['k'], array_shape=tuple(s['shape']),
                default_validate=s['dv'], free_default=s['fd'])
        if t == 'array':
            return pg.PatternArray(
                array_shape=tuple(s['shape']), base_pattern=build(s['base']),
                free_default=s['fd'])
    except KeyError as e:
        raise ScenarioInvalid('incomplete spec {}'.format(e))
    d = dict_class(s)(free_default=s['fd'])
    for k, m in s['items']:
        d[k] = build(m)
    return d


class InjectedFailure(Exception):
    """Raised by a callback or a member on request of the scenario."""


class Fuse:
    """Counts calls and fails at a chosen one."""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.raised = None

    def reset(self, at=None, exc=None):
        self.n, self.at, self.exc, self.raised = 0, at, exc, None

    def __call__(self, site='callback'):
        yield_here(('fuse', site))
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.raised = (self.exc or InjectedFailure)('injected failure')
            raise self.raised


FUSE = Fuse()
_FLAKY = []


def flaky_class():
    """A pattern of the user's own, whose methods may fail."""
    import paragami as pg
    if not _FLAKY:
        class FlakyVector(pg.NumericVectorPattern):
            pass

        def wrap(name):
            orig = getattr(pg.NumericVectorPattern, name)

            def method(self, *a, **k):
                FUSE(name)
                r = orig(self, *a, **k)
                FUSE(name + ' end')
                return r
            setattr(FlakyVector, name, method)
        for name in ('fold', 'flatten', 'validate_folded', 'flat_indices',
                     'flat_length', 'flat_names', 'freeing_jacobian',
                     'unfreeing_jacobian', 'log_abs_det_freeing_jacobian',
                     'log_abs_det_unfreeing_jacobian', 'as_dict', 'empty',
                     'to_json', '__str__'):
            wrap(name)
        pg.register_pattern_json(FlakyVector, allow_overwrite=True)
        _FLAKY.append(FlakyVector)
    return _FLAKY[0]


_SUB = []


def dict_class(s):
    """PatternDict, or (specification with "sub") a subclass of it."""
    import paragami as pg
    if not s.get('sub'):
        return pg.PatternDict
    if not _SUB:
        class SubDict(pg.PatternDict):
            pass
        pg.register_pattern_json(SubDict, allow_overwrite=True)
        _SUB.append(SubDict)
    return _SUB[0]


def as_plain(s):
    """The expected description of a built pattern, for readable messages."""
    return json.dumps(s, sort_keys=True)


# -- sizes and shapes -----------------------------------------------------------
def prod(v):
    r = 1
    for x in v:
        r *= int(x)
    return r


def shape_of(s):
    t = s['t']
    if t == 'num':
        return tuple(s['shape'])
    if t == 'vec':
        return (s['n'],)
    if t == 'scalar':
        return (1,)
    if t == 'psd':
        return (s['size'], s['size'])
    if t == 'simplex':
        return tuple(s['shape']) + (s['k'],)
    if t == 'array':
        return tuple(s['shape']) + shape_of(s['base'])
    raise ScenarioInvalid('no shape')


def flat_len(s, free):
    t = s['t']
    if t in ('num', 'vec', 'scalar'):
        return prod(shape_of(s))
    if t == 'psd':
        n = s['size']
        return n * (n + 1) // 2 if free else n * n
    if t == 'simplex':
        return prod(s['shape']) * (s['k'] - (1 if free else 0))
    if t == 'array':
        return prod(s['shape']) * flat_len(s['base'], free)
    return sum(flat_len(m, free) for _, m in s['items'])


def has_zero(s):
    if s['t'] == 'dict':
        return any(has_zero(m) for _, m in s['items']) or not s['items']
    if s['t'] == 'array':
        return has_zero(s['base']) or prod(s['shape']) == 0
    return flat_len(s, False) == 0


def leaves(s, path=()):
    if s['t'] == 'dict':
        for k, m in s['items']:
            yield from leaves(m, path + (k,))
    else:
        yield path, s


def only(s, types):
    if s['t'] == 'dict':
        return all(only(m, types) for _, m in s['items'])
    if s['t'] == 'array':
        return only(s['base'], types)
    return s['t'] in types


# -- values ---------------------------------------------------------------------
def rs(seed):
    return np.random.RandomState(seed % (2 ** 32))


_R = np.random.RandomState(0)


def _rs(seed):
    """Shared generator: only for immediate use inside this module."""
    _R.seed(seed % (2 ** 32))
    return _R


def _num_value(s, r, shape):
    lb, ub = inf_lb(s), inf_ub(s)
    if np.isfinite(lb) and np.isfinite(ub):
        return lb + (ub - lb) * (.05 + .9 * r.rand(*shape))
    if np.isfinite(lb):
        return lb + .1 + 3 * r.rand(*shape)
    if np.isfinite(ub):
        return ub - .1 - 3 * r.rand(*shape)
    return 2 * r.randn(*shape)


def value(s, seed):
    """A valid interior folded value."""
    return _value(s, _rs(seed))


def _value(s, r):
    t = s['t']
    if t in ('num', 'vec', 'scalar'):
        return np.asarray(_num_value(s, r, shape_of(s)), dtype=float)
    if t == 'psd':
        n = s['size']
        a = r.randn(n, n)
        m = a @ a.T + np.eye(n) * (s['diag_lb'] + .5)
        return 0.5 * (m + m.T)
    if t == 'simplex':
        v = r.rand(*shape_of(s)) + .1
        return v / v.sum(axis=-1, keepdims=True)
    if t == 'array':
        vals = [_value(s['base'], r) for _ in range(prod(s['shape']))]
        return np.array(vals).reshape(shape_of(s))
    out = OrderedDict()
    for k, m in s['items']:
        out[k] = _value(m, r)
    return out


_SPECIAL = [0.0, -0.0, 5e-324, -5e-324, 1.7976931348623157e308, 1e-310,
            1 / 3, 1e16, -1.1, 2.0 ** 53 + 2]


def odd_value(s, seed):
    """A value that is legal (or unchecked) but made of awkward numbers."""
    return _odd(s, _rs(seed))


def _odd(s, r):
    t = s['t']
    if t == 'dict':
        return OrderedDict((k, _odd(m, r)) for k, m in s['items'])
    if t == 'array':
        vals = [_odd(s['base'], r) for _ in range(prod(s['shape']))]
        return np.array(vals).reshape(shape_of(s))
    v = _value(s, r)
    if t in ('num', 'vec', 'scalar'):
        lb, ub = inf_lb(s), inf_ub(s)
        flat = v.reshape(-1)
        for i in range(flat.size):
            x = _SPECIAL[r.randint(len(_SPECIAL))]
            if not s['dv'] and r.rand() < .3:
                x = [float('nan'), float('inf'), -float('inf')][r.randint(3)]
                flat[i] = x
            elif lb <= x <= ub and r.rand() < .5:
                flat[i] = x
            elif r.rand() < .2 and np.isfinite(lb):
                flat[i] = lb
            elif r.rand() < .2 and np.isfinite(ub):
                flat[i] = ub
            elif not s['dv'] and r.rand() < .3:
                flat[i] = x
        v = flat.reshape(v.shape)
    elif not s['dv']:
        v = v.copy()
        flat = v.reshape(-1)
        for i in range(flat.size):
            if r.rand() < .3:
                flat[i] = (_SPECIAL + [float('nan'), float('inf')])[
                    r.randint(len(_SPECIAL) + 2)]
        v = flat.reshape(v.shape)
    return v


def cast_value(v, s, how, r=None):
    """The same kind of value in another dtype / memory layout."""
    if s['t'] == 'dict':
        items = s['items'][::-1] if how == 'reordered' else s['items']
        return OrderedDict((k, cast_value(v[k], m, how)) for k, m in items)
    if how == 'F':
        return np.asfortranarray(v)
    if how == 'strided':
        w = np.empty(v.shape + (2,), v.dtype)
        w[...] = np.nan
        w[..., 0] = v
        return w[..., 0]
    if how == 'neg':
        return v[::-1].copy()[::-1] if v.ndim else v
    if how == 'readonly':
        v = v.copy()
        v.flags.writeable = False
        return v
    if how == 'bigint' and castable(s):
        # neighbours of numbers that a double can hold
        return 2 ** 60 + np.round(1e3 * np.nan_to_num(
            v, posinf=7, neginf=-7).clip(-1e3, 1e3)).astype('i8')
    if how == 'f4all' and castable(s):
        return v.astype('f4')
    if how == 'f4' and s['t'] in ('num', 'vec', 'scalar') \
            and s['lb'] is None and s['ub'] is None:
        return v.astype('f4')
    if how == 'int' and s['t'] in ('num', 'vec', 'scalar') \
            and s['lb'] is None and s['ub'] is None:
        return np.round(np.nan_to_num(v, posinf=7, neginf=-7).clip(-1e6, 1e6)).astype('i8')
    return v


def castable(s):
    if s['t'] == 'dict':
        return bool(s['items']) and all(castable(m) for _, m in s['items'])
    if s['t'] == 'array':
        return castable(s['base'])
    return s['t'] in ('num', 'vec', 'scalar') and s['lb'] is None \
        and s['ub'] is None


def one_dtype(v):
    """Nothing in the value forces another dtype on the flat vector."""
    if isinstance(v, dict):
        return bool(v) and all(one_dtype(x) for x in v.values()) and \
            len({a.dtype for a in arrays_in(v)}) == 1
    return v.size > 0


def plain_dict(v):
    if isinstance(v, dict):
        return {k: plain_dict(v[k]) for k in v}
    return v


# -- the non-free layout ----------------------------------------------------------
def ref_flatten(s, v):
    """Non-free flat vector: the members' entries in order."""
    if s['t'] == 'dict':
        parts = [ref_flatten(m, v[k]) for k, m in s['items']]
        return np.concatenate(parts) if parts else np.array([])
    return np.array(v).reshape(-1)


def ref_fold(s, flat):
    if s['t'] == 'dict':
        out, o = OrderedDict(), 0
        for k, m in s['items']:
            n = flat_len(m, False)
            out[k] = ref_fold(m, flat[o:o + n])
            o += n
        return out
    return np.array(flat).reshape(shape_of(s))


def free_vec(s, seed, scale=1.0):
    return _rs(seed).randn(flat_len(s, True)) * scale


def bool_value(s, seed):
    r = _rs(seed)
    return _bool(s, r, [0., .2, .5, 1.][r.randint(4)])


def _bool(s, r, p):
    if s['t'] == 'dict':
        return OrderedDict((k, _bool(m, r, p)) for k, m in s['items'])
    return r.rand(*shape_of(s)) < p


# -- the free flat vector, computed independently --------------------------------
def ref_free_flatten(s, v):
    t = s['t']
    if t == 'dict':
        parts = [ref_free_flatten(m, v[k]) for k, m in s['items']]
        return np.concatenate(parts) if parts else np.array([])
    if t == 'array':
        parts = [ref_free_flatten(s['base'], v[i]) for i in
                 itertools.product(*[range(n) for n in s['shape']])]
        return np.concatenate(parts) if parts else np.array([])
    v = np.asarray(v, dtype=float)
    if t in ('num', 'vec', 'scalar'):
        lb, ub = inf_lb(s), inf_ub(s)
        f = v.reshape(-1)
        if lb == -np.inf and ub == np.inf:
            return f.copy()
        if ub == np.inf:
            return np.log(f - lb)
        if lb == -np.inf:
            return -np.log(ub - f)
        return np.log(f - lb) - np.log(ub - f)
    if t == 'psd':
        n = s['size']
        L = np.linalg.cholesky(v - np.eye(n) * s['diag_lb'])
        out = []
        for i in range(n):
            for j in range(i + 1):
                out.append(np.log(L[i, j]) if i == j else L[i, j])
        return np.array(out)
    # simplex: logs relative to the first entry
    return (np.log(v[..., 1:]) - np.log(v[..., :1])).reshape(-1)


def ref_free_fold(s, f):
    t = s['t']
    if t == 'dict':
        out, o = OrderedDict(), 0
        for k, m in s['items']:
            n = flat_len(m, True)
            out[k] = ref_free_fold(m, f[o:o + n])
            o += n
        return out
    if t == 'array':
        n = flat_len(s['base'], True)
        vals = [ref_free_fold(s['base'], f[i * n:(i + 1) * n])
                for i in range(prod(s['shape']))]
        return np.array(vals).reshape(shape_of(s))
    f = np.asarray(f, dtype=float)
    if t in ('num', 'vec', 'scalar'):
        lb, ub = inf_lb(s), inf_ub(s)
        if lb == -np.inf and ub == np.inf:
            r = f.copy()
        elif ub == np.inf:
            r = lb + np.exp(f)
        elif lb == -np.inf:
            r = ub - np.exp(-f)
        else:
            r = lb + (ub - lb) / (1 + np.exp(-f))
        return r.reshape(shape_of(s))
    if t == 'psd':
        n = s['size']
        L = np.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = np.exp(f[k]) if i == j else f[k]
                k += 1
        return L @ L.T + np.eye(n) * s['diag_lb']
    m = f.reshape(tuple(s['shape']) + (s['k'] - 1,))
    m = np.concatenate([np.zeros(m.shape[:-1] + (1,)), m], axis=-1)
    e = np.exp(m - m.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


# -- comparison --------------------------------------------------------------------
def _arr(x):
    if hasattr(x, 'toarray'):
        return np.asarray(x.toarray())
    return np.asarray(x)


def same(a, b, exact=False, rtol=1e-9, atol=1e-11, order=True):
    """'' if equal, else a short description of the first difference."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return 'types {} and {}'.format(type(a).__name__, type(b).__name__)
        ka, kb = list(a), list(b)
        if (ka if order else sorted(ka)) != (kb if order else sorted(kb)):
            return 'keys {} and {}'.format(ka, kb)
        for k in ka:
            r = same(a[k], b[k], exact, rtol, atol, order)
            if r:
                return '[{}] {}'.format(k, r)
        return ''
    if isinstance(a, (str, bool, type(None))) or \
            isinstance(b, (str, bool, type(None))):
        return '' if type(a) is type(b) and a == b else \
            '{!r} and {!r}'.format(a, b)[:300]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 'lengths {} and {}'.format(len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, exact, rtol, atol, order)
            if r:
                return '({}) {}'.format(i, r)
        return ''
    x, y = _arr(a), _arr(b)
    if x.shape != y.shape:
        return 'shapes {} and {}'.format(x.shape, y.shape)
    if x.dtype.kind == 'O' or y.dtype.kind == 'O':
        ok = x.dtype == y.dtype and \
            [repr(e) for e in x.reshape(-1)] == [repr(e) for e in y.reshape(-1)]
        return '' if ok else 'values {} and {}'.format(x, y)[:300]
    if x.dtype.kind in 'US' or y.dtype.kind in 'US':
        ok = x.size == 0 or (x.dtype.kind == y.dtype.kind and (x == y).all())
        return '' if ok else 'values {} and {}'.format(x, y)[:300]
    if exact:
        if x.dtype != y.dtype:
            return 'dtypes {} and {}'.format(x.dtype, y.dtype)
        if np.ascontiguousarray(x).tobytes() != np.ascontiguousarray(y).tobytes():
            return 'values {} and {}'.format(x, y)[:400]
        return ''
    if x.dtype.kind == 'b' or y.dtype.kind == 'b':
        if x.dtype != y.dtype or not (x == y).all():
            return 'values {} and {}'.format(x, y)[:300]
        return ''
    with np.errstate(all='ignore'):
        ok = np.allclose(x.astype(complex) if x.dtype.kind == 'c' else x.astype(float),
                         y.astype(complex) if y.dtype.kind == 'c' else y.astype(float),
                         rtol=rtol, atol=atol, equal_nan=True)
    return '' if ok else 'values {} and {}'.format(x, y)[:400]


def copy_value(v):
    if isinstance(v, dict):
        return type(v)((k, copy_value(v[k])) for k in v)
    if isinstance(v, (list, tuple)):
        return type(v)(copy_value(x) for x in v)
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if hasattr(v, 'tocoo'):
        return v.copy()
    return v


def snap(v):
    """Everything observable about an argument, for 'was not modified'."""
    if isinstance(v, dict):
        return ('dict', type(v).__name__, [(k, snap(v[k])) for k in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x) for x in v])
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ('O', v.shape, [repr(x) for x in v.reshape(-1)])
        return ('a', v.shape, v.strides, str(v.dtype), v.flags.writeable,
                np.ascontiguousarray(v).tobytes())
    if hasattr(v, 'tocoo'):
        d = v.tocoo()
        return ('s', v.shape, str(v.dtype), d.row.tobytes(), d.col.tobytes(),
                d.data.tobytes())
    return repr(v)


def arrays_in(v):
    if isinstance(v, dict):
        for k in v:
            yield from arrays_in(v[k])
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays_in(x)
    elif isinstance(v, np.ndarray):
        yield v
    elif hasattr(v, 'tocoo'):
        for n in ('data', 'indices', 'indptr', 'row', 'col', 'offsets'):
            x = getattr(v, n, None)
            if isinstance(x, np.ndarray):
                yield x


def digest(v):
    h = hashlib.sha1()

    def f(v):
        if isinstance(v, dict):
            for k in v:
                h.update(repr(k).encode())
                f(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b'(%d' % len(v))
            for x in v:
                f(x)
        elif isinstance(v, np.ndarray) and v.dtype.kind != 'O':
            h.update(repr((v.shape, str(v.dtype))).encode())
            h.update(_rounded(np.ascontiguousarray(v)).tobytes())
        elif hasattr(v, 'toarray'):
            f(np.asarray(v.toarray()))
        elif isinstance(v, (float, np.floating)):
            h.update(_rounded(np.array([float(v)])).tobytes())
        else:
            h.update(repr(v).encode())
    f(v)
    return h.hexdigest()[:12]


def _rounded(v):
    """The last bits of a floating point result depend on how numpy happened
    to align its arrays, which is not news."""
    if v.dtype != np.float64:
        return v
    with np.errstate(all='ignore'):
        m, e = np.frexp(v)
        r = np.ldexp(np.rint(m * 2.0 ** 30), e)
        r[np.abs(v) < 1e-13] = 0
    return r + 0.0


# -- outcomes -----------------------------------------------------------------------
def outcome(fn):
    """('ok', value) or ('err', type name): how a call ended."""
    try:
        return ('ok', fn())
    except ScenarioInvalid:
        raise
    except Violation:
        raise
    except Exception as e:
        return ('err', type(e).__name__, str(e)[:200])


def same_outcome(a, b, **kw):
    if a[0] != b[0]:
        return '{} and {}'.format(brief(a), brief(b))
    if a[0] == 'err':
        return '' if a[1] == b[1] else 'errors {} and {}'.format(
            a[1:], b[1:])
    return same(a[1], b[1], **kw)


def brief(o):
    if o[0] == 'err':
        return 'raises {}({})'.format(o[1], o[2][:120])
    return 'returns {}'.format(str(o[1]).replace('\n', ' ')[:160])


def refill(old, new):
    """Give old the contents of new, in place; False if they differ in form."""
    def alike(a, b):
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.shape == b.shape and \
                a.dtype == b.dtype and a.flags.writeable
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and \
                all(alike(a[k], b[k]) for k in a)
        return False

    def copy(a, b):
        for k in a:
            if isinstance(a[k], np.ndarray):
                a[k][...] = b[k]
            else:
                copy(a[k], b[k])
    if not alike(old, new):
        return False
    copy({0: old}, {0: new})
    return True
