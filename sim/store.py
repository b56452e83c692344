"""Saved versions: what was saved, and how a load is compared with it."""

import os
import pathlib

import numpy as np

from . import model as M
from . import ops as O
from . import oracle
from .core import Violation, traced

EXTRA_NAMES = ['x', 'arr_1', 'flat', 'val', 'data', 'µ_extra', 'flat_val2',
               'json', 'free', 'hyper', 'iter', 'a_b', 'pattern2', 'meta']
EXTRA_KINDS = ['f8', 'i4', 'bool', 'str', 'c16', 'zero_d', 'empty', 'bytes',
               'scalar', 'list', 'big', 'f2', 'nan', 'fortran', 'struct', 'text',
               'one', 'bigendian', 'dates', 'deep', 'strided', 'u1', 'flag',
               'long_text', 'int_scalar']
NAMES = ['a.npz', 'b', 'c.v1', 'with space.npz', 'ünï.npz', 'x.npy', 'd.NPZ',
         '.hidden', 'sub/e.npz', 'sub/f', 'npz', 'g.npz.npz', 'long' * 20]
PREFIXES = [b'', b'header\n', b'\x93NUMPY\x01\x00 is not here', b'PK' * 40]
KINDS = ['path', 'path', 'path', 'pathlib', 'relative', 'bytesio', 'file']


def gen_extras(rng):
    n = rng.choice([0, 0, 1, 1, 2, 4])
    return [[k, rng.choice(EXTRA_KINDS), rng.randrange(2 ** 31)]
            for k in rng.sample(EXTRA_NAMES, n)]


def extra(kind, seed):
    r = M.rs(seed)
    if kind == 'f8':
        return r.randn(r.randint(1, 5), 2)
    if kind == 'i4':
        return r.randint(-9, 9, size=4).astype('i4')
    if kind == 'bool':
        return r.rand(5) < .5
    if kind == 'str':
        return np.array(['a', 'longer', 'µ' * r.randint(1, 4)])
    if kind == 'c16':
        return r.randn(3) + 1j * r.randn(3)
    if kind == 'zero_d':
        return np.array(r.randn())
    if kind == 'empty':
        return np.zeros((0, 3))
    if kind == 'bytes':
        return np.array([b'ab', b'c'])
    if kind == 'scalar':
        return float(r.randn())
    if kind == 'list':
        return [1, 2, int(r.randint(99))]
    if kind == 'big':
        return r.randn(3000)
    if kind == 'f2':
        return r.randn(7).astype('f2')
    if kind == 'nan':
        return np.array([np.nan, -0.0, np.inf, 5e-324])
    if kind == 'fortran':
        return np.asfortranarray(r.randn(3, 4))
    if kind == 'struct':
        return np.array([(1, 2.5), (3, 4.5)], dtype=[('a', 'i8'), ('b', 'f8')])
    if kind == 'one':
        return r.randn(*[1] * r.randint(1, 4))
    if kind == 'bigendian':
        return r.randn(3).astype('>f8')
    if kind == 'dates':
        return np.array(['2020-02-29', 'NaT'], dtype='M8[D]')
    if kind == 'deep':
        return r.randn(1, 2, 1, 2, 1, 2)
    if kind == 'strided':
        return r.randn(12)[::-3]
    if kind == 'u1':
        return r.randint(256, size=300).astype('u1')
    if kind == 'flag':
        return bool(r.randint(2))
    if kind == 'long_text':
        return 'line\n' * 500
    if kind == 'int_scalar':
        return int(r.randint(2 ** 31)) - 2 ** 30
    return 'text %d' % r.randint(99)


def gen_version(rng, spec=None, big=False):
    spec = spec or M.gen_spec(rng, rng.choice([0, 1, 1, 2, 3]), big=big,
                              empty_ok=True)
    return {'spec': spec, 'vs': rng.randrange(2 ** 31),
            'odd': rng.random() < .4,
            'how': rng.choice([None, None, None, 'F', 'strided', 'neg',
                               'readonly', 'int', 'f4', 'plain',
                               'reordered', 'bigint', 'f4all']),
            'lock': rng.random() < .3,
            'extras': gen_extras(rng)}


def vary(rng, v):
    """Another version with the same layout: a mixture would go unnoticed
    unless value and pattern are checked together."""
    import copy
    w = copy.deepcopy(v)
    w['vs'] = rng.randrange(2 ** 31)
    if rng.random() < .35:
        w['spec'] = M.variant(rng, w['spec'])
        return w

    def walk(s):
        if rng.random() < .5:
            s['fd'] = rng.choice([None, True, False])
        if s['t'] in ('num', 'vec', 'scalar') and rng.random() < .7:
            s['lb'], s['ub'] = M.gen_bounds(rng)
        elif s['t'] == 'psd':
            s['diag_lb'] = rng.choice([0.0, 0.25, 1.5])
        elif s['t'] == 'dict':
            for _, m in s['items']:
                walk(m)
        elif s['t'] == 'array':
            walk(s['base'])
    walk(w['spec'])
    return w


class Version:
    """A save as it was asked for; keeps its own copies."""

    def __init__(self, v):
        self.v = v
        self.spec = v['spec']
        self.pattern = M.build(self.spec)
        if v.get('lock') and self.spec['t'] == 'dict':
            self.pattern.lock()
        val = M.odd_value(self.spec, v['vs']) if v['odd'] \
            else M.value(self.spec, v['vs'])
        if v['how'] == 'plain':
            val = M.plain_dict(val)
        elif v['how']:
            val = M.cast_value(val, self.spec, v['how'])
        self.val = val
        self.extras = {k: extra(kind, s) for k, kind, s in v['extras']}
        # what must come back, decided now
        self.want = M.copy_value(val)
        self.want_extras = {k: np.array(np.asanyarray(x), copy=True)
                            for k, x in self.extras.items()}
        self.json = self.pattern.to_json()
        self.exact = all(a.dtype == np.float64 for a in M.arrays_in(val)) \
            or M.one_dtype(val)
        self.before = (M.snap(self.val), M.snap(self.extras))

    def unchanged(self):
        if (M.snap(self.val), M.snap(self.extras)) != self.before:
            return 'the saved value or extras were modified'
        d = O.same_probe(O.probe(self.pattern, self.spec, deep=False),
                         oracle.probe(self.spec, deep=False))
        if d:
            return 'the saved pattern was modified: ' + d
        return ''

    def value_diff(self, got):
        if self.exact:
            return M.same(got, M.copy_value(_ordered(self.want, self.spec)),
                          exact=True)
        return M.same(got, _ordered(self.want, self.spec), rtol=0, atol=0)

    def pattern_diff(self, p, deep=True):
        fresh = M.build(self.spec)
        try:
            eq = (p == fresh) is True and (fresh == p) is True \
                and (p == self.pattern) is True
        except Exception as e:
            return 'comparing raises {}'.format(e)
        d = M.same_outcome(
            M.outcome(lambda: O.accessors(p, self.spec)),
            M.outcome(lambda: O.accessors(fresh, self.spec)))
        if d:
            return d
        if not eq:
            return 'not equal to the saved pattern: {} and {}'.format(
                p.to_json(), self.json)
        if p.to_json() != self.json:
            return 'JSON {} and {}'.format(p.to_json(), self.json)
        return O.same_probe(O.probe(p, self.spec, deep=deep),
                            oracle.probe(self.spec, deep=deep))

    def extras_diff(self, data):
        for k, x in self.want_extras.items():
            if k not in data:
                return 'extra {} is missing'.format(k)
            got = data[k]
            if got.dtype != x.dtype or got.shape != x.shape or \
                    np.ascontiguousarray(got).tobytes() != \
                    np.ascontiguousarray(x).tobytes():
                return 'extra {}: {!r} and {!r}'.format(k, got, x)[:300]
        return ''


def _ordered(val, spec):
    """A loaded dictionary comes back in the pattern's order."""
    if spec['t'] == 'dict':
        from collections import OrderedDict
        return OrderedDict((k, _ordered(val[k], m)) for k, m in spec['items'])
    return val


class Target:
    """Somewhere to save to, in the scratch directory or in memory."""

    def __init__(self, disk, spec):
        self.disk = disk
        self.kind = spec['kind']
        self.name = spec['name']
        self.full = os.path.join(disk.root, self.name)
        os.makedirs(os.path.dirname(self.full), exist_ok=True)
        self.buf = None
        # what stands in the open file before the save
        self.prefix = PREFIXES[spec.get('prefix', 0)]
        if self.kind == 'bytesio':
            import io
            self.buf = io.BytesIO()

    @property
    def offset(self):
        return len(self.prefix) if self.kind in ('bytesio', 'file') else 0

    @property
    def real(self):
        """The file that is really written."""
        if self.kind == 'file':
            return self.full
        return self.full if self.full.endswith('.npz') else self.full + '.npz'

    def bytes(self):
        if self.buf is not None:
            return self.buf.getvalue()
        return self.disk.get(self.real)

    def spelled(self, how):
        """The same file under another name."""
        if how == 'nosuffix':
            n = self.full[:-4]
            return n if self.full.endswith('.npz') and \
                not n.endswith('.npz') and os.path.basename(n) else self.full
        rel = os.path.relpath(self.full)
        return {'abs': self.full, 'rel': rel, 'dot': os.path.join('.', rel),
                'pathlib': pathlib.Path(self.full),
                'relpathlib': pathlib.Path(rel),
                'updir': os.path.join(
                    self.disk.root, '..',
                    os.path.basename(self.disk.root), self.name)}[how]

    def save(self, ver, how=None):
        import paragami as pg
        if how and self.kind not in ('bytesio', 'file'):
            pg.save_folded(self.spelled(how), ver.val, ver.pattern,
                           **ver.extras)
            return
        if self.kind == 'path':
            pg.save_folded(self.full, ver.val, ver.pattern, **ver.extras)
        elif self.kind == 'pathlib':
            pg.save_folded(pathlib.Path(self.full), ver.val, ver.pattern,
                           **ver.extras)
        elif self.kind == 'relative':
            pg.save_folded(os.path.relpath(self.full), ver.val, ver.pattern,
                           **ver.extras)
        elif self.kind == 'bytesio':
            self.buf.seek(0)
            self.buf.truncate(0)
            self.buf.write(self.prefix)
            pg.save_folded(self.buf, ver.val, ver.pattern, **ver.extras)
        else:
            with open(self.full, 'w+b') as f:
                if self.prefix:
                    f.write(self.prefix)
                pg.save_folded(f, ver.val, ver.pattern, **ver.extras)

    def load(self, how=None):
        import paragami as pg
        if how and how != 'nosuffix' and self.kind not in ('bytesio', 'file'):
            f = self.spelled(how)
            if not self.full.endswith('.npz'):
                f = f.parent / (f.name + '.npz') \
                    if isinstance(f, pathlib.Path) else f + '.npz'
            return pg.load_folded(f), None
        if self.kind == 'pathlib':
            return pg.load_folded(pathlib.Path(self.real)), None
        if self.kind == 'relative':
            return pg.load_folded(os.path.relpath(self.real)), None
        if self.kind == 'bytesio':
            self.buf.seek(len(self.prefix))
            return pg.load_folded(self.buf), None
        if self.kind == 'file':
            f = open(self.real, 'rb')
            if self.prefix:
                f.seek(len(self.prefix))
            return pg.load_folded(f), f
        return pg.load_folded(self.real), None


def close(data, f):
    try:
        data.close()
    except Exception:
        pass
    if f is not None:
        try:
            f.close()
        except Exception:
            pass


SPELLINGS = [None, None, 'abs', 'rel', 'dot', 'pathlib', 'relpathlib', 'updir',
             'nosuffix']


def check_exact(t, ver, why, deep=True, old_extras=(), how=None):
    """Load and require exactly ``ver``."""
    try:
        (val, pat, data), f = traced(lambda: t.load(how))
    except Violation:
        raise
    except Exception as e:
        raise Violation('load-failed', '{}: loading {} raises {}: {}'.format(
            why, t.name, type(e).__name__, e))
    try:
        d = ver.value_diff(val)
        if d:
            raise Violation('wrong-value', '{}: {}: loaded and saved value: {}'
                            .format(why, t.name, d))
        d = ver.pattern_diff(pat, deep)
        if d:
            raise Violation('wrong-pattern', '{}: {}: loaded and saved pattern:'
                            ' {}'.format(why, t.name, d))
        try:
            d = ver.extras_diff(data)
        except Violation:
            raise
        except Exception as e:
            d = 'reading the extras raises {}: {}'.format(type(e).__name__, e)
        if d:
            raise Violation('wrong-extra', '{}: {}: {}'.format(why, t.name, d))
        for k in old_extras:
            if k not in ver.extras and k in data:
                raise Violation('stale-extra', (
                    '{}: {}: extra {} of an overwritten save is still there')
                    .format(why, t.name, k))
    finally:
        close(data, f)
    return M.digest(val)


def load_elsewhere(how, where, v, name, at=0):
    """Runs in another process."""
    import io
    import paragami as pg
    ver = Version(v)
    f = None
    if how == 'bytes':
        src = io.BytesIO(where)
    elif how == 'file':
        src = f = open(where, 'rb')
    else:
        src = pathlib.Path(where) if how == 'pathlib' else where
    if at:
        src.seek(at)
    try:
        val, pat, data = pg.load_folded(src)
    except Exception as e:
        raise Violation('load-failed', 'loading {} in another process raises '
                        '{}: {}'.format(name, type(e).__name__, e))
    try:
        d = ver.value_diff(val)
        if not d:
            d = ver.pattern_diff(pat, False)
        if not d:
            d = ver.extras_diff(data)
        if d:
            raise Violation('wrong-value', '{} loaded in another process: {}'
                            .format(name, d))
    finally:
        close(data, f)
    return M.digest(val)


BENIGN = [('write', 'SHORT'), ('write', 'EINTR'), ('read', 'SHORT'),
          ('read', 'EINTR')]


def gen_benign(rng, n):
    out = []
    for _ in range(n):
        op, kind = rng.choice(BENIGN)
        out.append({'op': op, 'n': rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 12]),
                    'kind': kind, 'frac': rng.random()})
    return out
