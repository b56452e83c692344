"""Non-modifying operations of patterns, as data.

op: {"op": name, "free": True|False|None, "vv": None|True|False, "vs": seed,
     "how": cast, "bad": kind|None, "sparse": bool}
"""

import numpy as np

from . import model as M
from .core import ScenarioInvalid

NAMES = ['fold', 'fold', 'fold', 'flatten', 'flatten', 'flatten', 'empty',
         'empty_bool', 'validate', 'flat_indices', 'flat_length', 'flat_names',
         'freeing_jacobian', 'unfreeing_jacobian', 'log_det_f', 'log_det_u',
         'traced', 'to_json', 'as_dict', 'str', 'eq', 'json_copy', 'keys', 'getitem',
         'accessors']
HOWS = [None, None, None, None, 'F', 'strided', 'neg', 'readonly', 'f4', 'int',
        'plain', 'reordered']
BAD_FOLD = ['short', 'long', '2d', 'empty', 'invalid', 'none', 'str', 'scalar',
            'object']
BAD_FLATTEN = ['shape', 'missing', 'invalid', 'none', 'extra', 'list',
               'wrong_kind', 'invalid', 'not_pd']


def gen_op(rng, p_bad=.1, names=None, free=None):
    op = {'op': rng.choice(names or NAMES),
          'free': rng.choice([True, True, False, False, None])
          if free is None else free,
          'vv': rng.choice([None, None, None, True, False]),
          'vs': rng.randrange(2 ** 31)}
    if op['op'] in ('freeing_jacobian', 'unfreeing_jacobian'):
        op['sparse'] = rng.random() < .5
    how = rng.choice(HOWS)
    if how:
        op['how'] = how
    if rng.random() < p_bad:
        if op['op'] in ('fold',):
            op['bad'] = rng.choice(BAD_FOLD)
        elif op['op'] in ('flatten', 'validate', 'freeing_jacobian',
                          'unfreeing_jacobian', 'log_det_f', 'log_det_u',
                          'flat_indices'):
            op['bad'] = rng.choice(BAD_FLATTEN)
        if op.get('bad') == 'invalid' and rng.random() < .6:
            # such that it is indeed rejected
            op['vv'] = True
            if op['op'] == 'fold':
                op['free'] = False
    if op['op'] == 'fold' and op['free'] is not False and rng.random() < .15:
        op['scale'] = rng.choice([0.0, 5.0, 30.0, 1500.0])
    elif op['op'] == 'fold' and op['free'] is not False and \
            'bad' not in op and rng.random() < .07:
        op['special'] = rng.choice([1, 2, 3])
    return op


def _some_leaf(spec, v, vs=0):
    ls = list(M.leaves(spec))
    if not ls:
        return None, None, None
    path, leaf = ls[vs % len(ls)]
    box, key = None, None
    cur = v
    for k in path:
        box, key = cur, k
        cur = cur[k]
    return box, key, leaf


def invalid(spec, v, vs=0):
    """Make one member's value illegal (if the pattern has illegal values)."""
    v = M.copy_value(v)
    ls = list(M.leaves(spec))
    at = vs % len(ls) if ls else 0
    for path, leaf in ls[at:] + ls[:at]:
        cur = v
        for k in path:
            cur = cur[k]
        base = leaf
        while base['t'] == 'array':
            base = base['base']
        if cur.size == 0:
            continue
        flat = cur.reshape(-1)
        if base['t'] in ('num', 'vec', 'scalar'):
            i = -1 - vs // 7 % flat.size
            if base['lb'] is not None:
                flat[i] = base['lb'] - 1
                return v
            if base['ub'] is not None:
                flat[i] = base['ub'] + 1
                return v
        elif base['t'] == 'psd':
            if base['size'] > 1 and vs // 7 % 3:
                flat[1] += 1.0
            else:
                flat[0] = base['diag_lb'] - 1
            return v
        else:
            if vs // 7 % 3:
                flat[vs // 7 % flat.size] += .5
            else:
                flat[vs // 7 % flat.size] = -.5
            return v
    return v


def not_pd(spec, v, vs=0):
    """Give a matrix member a value that passes validation but cannot be
    flattened freely."""
    v = M.copy_value(v)
    ls = [(p, l) for p, l in M.leaves(spec)
          if l['t'] == 'psd' and l['size'] > 1]
    if ls:
        path, leaf = ls[vs % len(ls)]
        cur = v
        for k in path:
            cur = cur[k]
        i = leaf['size'] - 1
        cur[i, 0] = cur[0, i] = 50 + abs(cur[0, 0] * cur[i, i])
    return v


def make_args(spec, op):
    """Argument list of an operation (fresh objects)."""
    name, bad, how = op['op'], op.get('bad'), op.get('how')
    vs = op['vs']
    if name in ('fold', 'traced'):
        if op['free'] or (op['free'] is None and spec['fd']):
            n = M.flat_len(spec, True)
            v = M._rs(vs).randn(n) * op.get('scale', 1.0)
            # numbers that an optimiser may try when a step fails
            for i in range(op.get('special', 0) if n else 0):
                v[(vs // 3 + 5 * i) % n] = [
                    np.inf, -np.inf, np.nan, -0.0, 5e-324, 1e308][
                        (vs // 11 + i) % 6]
        else:
            val = M.value(spec, vs)
            if bad == 'invalid':
                val = invalid(spec, val, vs)
            v = M.ref_flatten(spec, val)
        if bad == 'short':
            v = v[:-1]
        elif bad == 'long':
            v = np.concatenate([v, [.5]])
        elif bad == '2d':
            v = v.reshape(1, -1)
        elif bad == 'empty':
            v = v[:0]
        elif bad == 'none':
            v = None
        elif bad == 'str':
            v = 'not a vector'
        elif bad == 'scalar':
            v = 1.5
        elif bad == 'object':
            v = np.array([None] * len(v), dtype=object)
        elif how == 'strided':
            w = np.full(2 * len(v), np.nan)
            w[::2] = v
            v = w[::2]
        elif how == 'neg':
            v = v[::-1].copy()[::-1]
        elif how == 'readonly':
            v = v.copy()
            v.flags.writeable = False
        elif how == 'f4' and op['free']:
            v = v.astype('f4')
        elif how == 'int' and op['free']:
            v = np.round(v).astype(int)
        return [v]
    if name in ('flatten', 'validate', 'freeing_jacobian',
                'unfreeing_jacobian', 'log_det_f', 'log_det_u'):
        v = M.value(spec, vs)
        if how and how != 'plain':
            v = M.cast_value(v, spec, how)
        if how == 'plain':
            v = M.plain_dict(v)
        return [_spoil(spec, v, bad, vs)]
    if name == 'flat_indices':
        v = M.bool_value(spec, vs)
        return [_spoil(spec, v, bad, vs)]
    return []


def _spoil(spec, v, bad, vs=0):
    if bad is None:
        return v
    if bad == 'invalid':
        return invalid(spec, v, vs) if not _is_bool(v) else v
    if bad == 'not_pd':
        return not_pd(spec, v, vs) if not _is_bool(v) else v
    if bad == 'none':
        return None
    if bad == 'extra':
        if isinstance(v, dict):
            v = type(v)(v)
            v['not a member'] = np.zeros(2)
        return v
    if bad == 'wrong_kind':
        return {'a': np.zeros(2)} if not isinstance(v, dict) else np.zeros(3)
    if bad == 'list':
        return v.tolist() if isinstance(v, np.ndarray) else v
    box, key, leaf = _some_leaf(spec, v, vs)
    if bad == 'missing':
        if isinstance(v, dict) and len(v):
            v = type(v)(v)
            v.pop(list(v)[-1])
        return v
    if bad == 'shape':
        if leaf is None:
            return v
        if box is None:
            return np.concatenate([v, v]) if v.size else np.zeros((1, 2, 3, 4, 5))
        v = M.copy_value(v)
        box, key, leaf = _some_leaf(spec, v, vs)
        box[key] = np.zeros((5, 7, 1, 2))
        return v
    raise ScenarioInvalid(bad)


def _is_bool(v):
    for a in M.arrays_in(v):
        return a.dtype.kind == 'b'
    return False


def call(pattern, spec, op, args):
    name = op['op']
    free = op['free']
    kw = {} if op['vv'] is None else {'validate_value': op['vv']}
    if name == 'fold':
        return pattern.fold(args[0], free=free, **kw)
    if name == 'flatten':
        return pattern.flatten(args[0], free=free, **kw)
    if name == 'traced':
        return traced(pattern, args[0], free, op['vs'], kw)
    if name == 'empty':
        v = pattern.empty(valid=bool(op['vs'] % 2))
        if not op['vs'] % 2:
            # contents are unspecified: fill them
            for a in M.arrays_in(v):
                a[...] = 0
        return v
    if name == 'empty_bool':
        return pattern.empty_bool(bool(op['vs'] % 2))
    if name == 'validate':
        ok, msg = pattern.validate_folded(args[0], **kw)
        return [bool(ok), str(msg)]
    if name == 'flat_indices':
        return pattern.flat_indices(args[0], free=free)
    if name == 'flat_length':
        return int(pattern.flat_length(free=free))
    if name == 'flat_names':
        return [str(x) for x in pattern.flat_names(free)]
    if name == 'freeing_jacobian':
        return np.asarray(_dense(pattern.freeing_jacobian(
            args[0], sparse=op.get('sparse', True))))
    if name == 'unfreeing_jacobian':
        return np.asarray(_dense(pattern.unfreeing_jacobian(
            args[0], sparse=op.get('sparse', True))))
    if name == 'log_det_f':
        return float(pattern.log_abs_det_freeing_jacobian(args[0]))
    if name == 'log_det_u':
        return float(pattern.log_abs_det_unfreeing_jacobian(args[0]))
    if name == 'to_json':
        return pattern.to_json()
    if name == 'as_dict':
        return _plain(pattern.as_dict())
    if name == 'str':
        return str(pattern)
    if name == 'eq':
        other = M.build(spec)
        return [bool(pattern == other), bool(other == pattern),
                bool(pattern == 3)]
    if name == 'json_copy':
        import paragami as pg
        q = pg.get_pattern_from_json(pattern.to_json())
        return [q.to_json(), str(q), type(q).__name__]
    if name == 'keys':
        return list(pattern.keys()) if spec['t'] == 'dict' else []
    if name == 'getitem':
        if spec['t'] == 'dict' and spec['items']:
            return str(pattern[spec['items'][op['vs'] % len(spec['items'])][0]])
        return ''
    if name == 'accessors':
        return accessors(pattern, spec)
    raise ScenarioInvalid(name)


def traced(pattern, x, free, vs, kw):
    """The gradient of a function of what folding and flattening give, as an
    optimiser takes it: paragami sees autograd's boxes."""
    import autograd
    import autograd.numpy as anp

    def total(v):
        if isinstance(v, dict):
            return sum([total(v[k]) for k in v], 0.0)
        return anp.sum(anp.sin(v + 0.5) * (1 + vs % 3))

    def objective(x):
        v = pattern.fold(x, free=free, **kw)
        r = total(v)
        if vs % 2:
            r = r + total(pattern.flatten(v, free=bool(vs // 2 % 2), **kw))
        return r
    return np.asarray(autograd.grad(objective)(x))


def accessors(p, spec):
    t = spec['t']
    out = [str(p.free_default)]
    if t in ('num', 'vec', 'scalar'):
        out += [str(p.shape()), str(p.bounds()), str(p.default_validate)]
        if t == 'vec':
            out.append(str(p.length()))
    elif t == 'psd':
        out += [str(p.size()), str(p.shape()), str(p.diag_lb()),
                str(p.default_validate)]
    elif t == 'simplex':
        out += [str(p.array_shape()), str(p.simplex_size()), str(p.shape()),
                str(p.default_validate)]
    elif t == 'array':
        out += [str(p.array_shape()), str(p.shape())]
        out += accessors(p.base_pattern(), spec['base'])
    else:
        for k, m in spec['items']:
            out += accessors(p[k], m)
    return out


def _dense(j):
    return j.toarray() if hasattr(j, 'toarray') else j


def _plain(d):
    if isinstance(d, dict):
        return {k: _plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [_plain(x) for x in d]
    return d if isinstance(d, (str, bool, type(None))) else repr(d)


def alone(spec, op):
    """What the operation does on a pattern nobody else uses."""
    from . import oracle
    return oracle.op(spec, op)


def alone_here(spec, op):
    p = M.build(spec)
    args = make_args(spec, op)
    return M.outcome(lambda: call(p, spec, op, args))


# -- what a pattern is, observably -----------------------------------------------
def probe_ops(seed=1, deep=True):
    ops = [{'op': 'to_json'}, {'op': 'as_dict'}, {'op': 'str'},
           {'op': 'accessors'}, {'op': 'keys'}]
    for free in (True, False, None):
        for n in ('flat_length', 'fold', 'flatten', 'flat_indices', 'flat_names'):
            if n == 'flat_names' and free is None:
                continue
            ops.append({'op': n, 'free': free})
    ops += [{'op': 'validate'}, {'op': 'validate', 'bad': 'invalid'},
            {'op': 'empty'}, {'op': 'empty_bool'}]
    if deep:
        ops += [{'op': 'freeing_jacobian'}, {'op': 'unfreeing_jacobian',
                                             'sparse': False},
                {'op': 'log_det_f'}, {'op': 'log_det_u'},
                {'op': 'fold', 'free': False, 'bad': 'invalid'},
                {'op': 'flatten', 'free': False, 'bad': 'shape'},
                {'op': 'fold', 'free': True, 'scale': 1500.0},
                {'op': 'json_copy'}]
    for o in ops:
        o.setdefault('free', False)
        o.setdefault('vv', None)
        o.setdefault('vs', seed)
    return ops


def probe(p, spec, seed=1, deep=True):
    """Outcomes of a fixed set of operations: the pattern's behaviour."""
    out = []
    for op in probe_ops(seed, deep):
        try:
            args = make_args(spec, op)
        except ScenarioInvalid:
            continue
        out.append((op, M.outcome(lambda: call(p, spec, op, args))))
    return out


def same_probe(a, b):
    for (op, x), (_, y) in zip(a, b):
        d = M.same_outcome(x, y)
        if d:
            return '{}(free={}{}): {}'.format(
                op['op'], op['free'],
                ', bad={}'.format(op['bad']) if op.get('bad') else '', d)
    return ''


def expected(spec, op):
    """Independent expectation for valid calls: ('ok', value) or None if the
    reference has no opinion."""
    if op.get('scale', 0) > 100 or op.get('special'):
        return None         # overflows
    if op.get('bad') or op.get('how') not in (
            None, 'plain', 'F', 'strided', 'neg', 'readonly', 'reordered'):
        return None
    name = op['op']
    free = op['free'] if op['free'] is not None else spec['fd']
    if name in ('fold', 'flatten', 'flat_length', 'flat_indices') \
            and free is None:
        return None
    if name == 'flat_length':
        return ('ok', M.flat_len(spec, free))
    if name == 'fold':
        v = make_args(spec, op)[0]
        return ('ok', M.ref_free_fold(spec, v) if free else M.ref_fold(spec, v))
    if name == 'flatten':
        v = M.value(spec, op['vs'])
        return ('ok', M.ref_free_flatten(spec, v) if free
                else M.ref_flatten(spec, v))
    return None
