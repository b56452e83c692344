"""Patterns together with a model of each: members, order, locks, defaults.

A Node pairs a real pattern object with what it should be.  spec() describes
it as a specification, so that a fresh pattern with the same history-free
description can be built for comparison."""

from . import model as M
from . import ops as O
from . import oracle
from .core import ScenarioInvalid, Violation


class Node:
    def __init__(self, p, spec, kids=None):
        self.p = p
        self.own = {k: v for k, v in spec.items() if k not in ('items', 'base')}
        self.t = spec['t']
        self.locked = False
        self.items = kids if self.t == 'dict' else None      # [[key, Node]]
        self.base = kids if self.t == 'array' else None

    @classmethod
    def make(cls, spec, build=True):
        """Build the pattern and its model, members first."""
        import paragami as pg
        t = spec['t']
        if t == 'dict':
            n = cls(M.build(dict(spec, items=[])), spec, [])
            for k, m in spec['items']:
                n.set(k, cls.make(m))
            return n
        if t == 'array':
            base = cls.make(spec['base'])
            p = pg.PatternArray(array_shape=tuple(spec['shape']),
                                base_pattern=base.p, free_default=spec['fd'])
            return cls(p, spec, base)
        return cls(M.build(spec), spec)

    @classmethod
    def around(cls, p, spec, locked=False):
        """A model for a pattern that exists (a copy, one read from JSON)."""
        if spec['t'] == 'dict':
            n = cls(p, spec, [[k, cls.around(p[k], m, True)]
                              for k, m in spec['items']])
            n.locked = locked
            return n
        if spec['t'] == 'array':
            return cls(p, spec, cls.around(p.base_pattern(), spec['base']))
        return cls(p, spec)

    def spec(self):
        s = dict(self.own)
        if self.t == 'dict':
            s['items'] = [[k, n.spec()] for k, n in self.items]
        elif self.t == 'array':
            s['base'] = self.base.spec()
        return s

    # -- the model of changes ------------------------------------------------
    def keys(self):
        return [k for k, _ in self.items]

    def set(self, key, node):
        """Change both; any exception is the caller's business."""
        self.p[key] = node.p
        self.model_set(key, node)

    def model_set(self, key, node):
        for it in self.items:
            if it[0] == key:
                it[1] = node
                break
        else:
            self.items.append([key, node])
        if node.t == 'dict':
            node.locked = True

    def delete(self, key):
        del self.p[key]
        self.model_del(key)

    def model_del(self, key):
        self.items[:] = [it for it in self.items if it[0] != key]

    def lock(self):
        self.p.lock()
        self.locked = True

    def walk(self):
        yield self
        if self.t == 'dict':
            for _, n in self.items:
                yield from n.walk()
        elif self.t == 'array':
            yield from self.base.walk()

    def contains(self, node):
        return any(n is node for n in self.walk())

    # -- comparison ------------------------------------------------------------
    def check(self, what, seed=1, deep=True):
        """The pattern behaves like one freshly built from its description."""
        spec = self.spec()
        try:
            fresh = M.build(spec)
        except ScenarioInvalid:
            raise
        a = O.probe(self.p, spec, seed, deep)
        b = oracle.probe(spec, seed, deep)
        d = O.same_probe(a, b)
        if d:
            raise Violation('differs-from-fresh', '{}: {} behaves unlike a '
                            'pattern built freshly: {}'.format(
                                what, M.as_plain(spec), d))
        if not (self.p == fresh and fresh == self.p):
            raise Violation('not-equal', '{}: {} is not equal to a pattern '
                            'built freshly'.format(what, M.as_plain(spec)))
        if self.p != fresh:
            raise Violation('not-equal', what + ': p != fresh')
        for free in (True, False):
            got = self.p.flat_length(free=free)
            if got != M.flat_len(spec, free):
                raise Violation('length', '{}: {} has flat_length(free={}) {} '
                                'and not {}'.format(
                                    what, M.as_plain(spec), free, got,
                                    M.flat_len(spec, free)))
        v = M.value(spec, seed)
        for free, ref in ((False, M.ref_flatten), (True, M.ref_free_flatten)):
            d = M.same(self.p.flatten(v, free=free), ref(spec, v),
                       rtol=1e-6, atol=1e-8)
            if d:
                raise Violation('layout', '{}: {} flatten(free={}): {}'.format(
                    what, M.as_plain(spec), free, d))
        f = M.ref_flatten(spec, v)
        d = M.same(self.p.fold(f, free=False), v)
        if d:
            raise Violation('layout', '{}: {} fold: {}'.format(
                what, M.as_plain(spec), d))
        if self.t == 'dict':
            if list(self.p.keys()) != self.keys():
                raise Violation('keys', '{}: keys {} and not {}'.format(
                    what, list(self.p.keys()), self.keys()))
            for k, n in self.items:
                if self.p[k] is not n.p:
                    raise Violation('member', '{}: [{}] is not the member '
                                    'that was added'.format(what, k))
        return M.digest([x for _, x in a])

    def check_lock(self, what):
        """Locked exactly when it should be (probed by a harmless request)."""
        try:
            del self.p['no such member \0']
        except ValueError:
            got = True
        except KeyError:
            got = False
        except Exception as e:
            raise Violation('lock-probe', '{}: deleting a missing member '
                            'raised {!r}'.format(what, e))
        else:
            raise Violation('lock-probe',
                            what + ': deleting a missing member succeeded')
        if got != self.locked:
            raise Violation('lock', '{}: the dictionary is {} and should {} '
                            'be'.format(what, 'locked' if got else 'not locked',
                                        'not' if got else ''))


def must_raise(fn, kinds, what):
    """fn() must raise one of kinds (None: any exception)."""
    try:
        fn()
    except Exception as e:
        if isinstance(e, (Violation, ScenarioInvalid)):
            raise
        if kinds is not None and not isinstance(e, kinds):
            raise Violation('wrong-exception', '{}: raised {}({}) and not '
                            '{}'.format(what, type(e).__name__, str(e)[:200],
                                        '/'.join(k.__name__ for k in kinds)))
        return e
    raise Violation('not-rejected', what + ': was accepted')


class _Raising:
    """Looks like a pattern until it is asked something."""

    def __init__(self, when):
        self.when = when
        self.free_default = None

    def flat_length(self, free=None):
        if self.when == 'both' or bool(free) == (self.when == 'free'):
            raise RuntimeError('not a pattern')
        return 2


def non_pattern(kind):
    import numpy as np
    import paragami as pg
    return {
        'none': None, 'int': 3, 'str': 'vec', 'float': 1.5,
        'array': np.zeros(3), 'dict': {'a': np.zeros(2)}, 'list': [1, 2],
        'class': pg.PatternDict, 'vclass': pg.NumericVectorPattern,
        'spec': {'pattern': 'x'}, 'lambda': (lambda free=None: 2),
        'raise_free': _Raising('free'), 'raise_flat': _Raising('flat'),
        'raise_both': _Raising('both'),
    }[kind]


NON_PATTERNS = ['none', 'int', 'str', 'float', 'array', 'dict', 'list', 'class',
                'vclass', 'spec', 'lambda', 'raise_free', 'raise_flat',
                'raise_both']
