"""C11: the JSON registry resolves every name to what was registered last."""

import copy
import io
import json

from .. import model as M
from ..core import Violation, random_sched
from ..world import must_raise

ID = 'C11'
RUNS = {'quick': 5000, 'thorough': 200000}
MIN_RUNS = 1000
RULE = ('a run is a history of 4-25 registrations (also rejected ones), '
        'look-ups, saved files and malformed requests over 2-6 names, serial '
        'or with look-ups of other names by 1-3 threads; non-trivial if a '
        'name was looked up after a registration changed or was rejected; '
        'distinct by event log')
COVER = 'request x place of the name x registered or not x outcome'
REAL = 'paragami, json, numpy'
STUB = 'thread scheduler (threaded runs)'

NAMES = ['reg.A', 'reg.B', 'reg.C', 'reg.a', 'A', '', 'paragami.X',
         'reg.A.inner', 'µ', '3', 'true',
         'paragami.numeric_array_patterns.NumericVectorPattern',
         'paragami.numeric_array_patterns.NumericArrayPattern',
         'paragami.psdmatrix_patterns.PSDSymmetricMatrixPattern']
WHERE = ['alone', 'alone', 'dict', 'array', 'nested', 'mixed', 'file',
         'filedict']
BAD = ['nokey', 'unknown', 'null', 'number', 'list', 'notjson', 'empty',
       'nested_unknown', 'nested_array', 'array', 'other_class', 'none']
BADREG = ['none', 'raises', 'notype', 'string', 'instance_dup']


def generate(rng):
    names = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
    if rng.random() < .06:
        # many registrations at once
        names += ['many.%d' % i for i in range(rng.choice([12, 40, 130]))]
    elif rng.random() < .15:
        # names that are easily taken for one another
        names = rng.sample(['n.Pat', 'N.Pat', 'n.pat', 'Pat', 'm.n.Pat', 'n.Pat ',
                            ' n.Pat', 'n_Pat', 'n.Pat2', 'n..Pat', 'n.Pa',
                            'n.P\u0430t', 'n.Pat\n',
                            'other.NumericVectorPattern',
                            'NumericVectorPattern', 'paragami.PatternDict',
                            'paragami.NumericVectorPattern', '__main__.Pat'],
                           rng.choice([3, 5, 8]))

    def look(ns=None):
        return {'do': 'look', 'name': rng.choice(ns or names),
                'v': rng.randrange(4), 'where': rng.choice(WHERE),
                'other': rng.choice(ns or names), 'n': rng.randint(1, 3)}

    def reg(ns=None):
        return {'do': 'reg', 'name': rng.choice(ns or names),
                'v': rng.randrange(4), 'over': rng.choice([None, True, False, False])}

    def steps(n, ns=None, p=(.35, .7)):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < p[0]:
                out.append(reg(ns))
            elif r < p[1]:
                out.append(look(ns))
            elif r < p[1] + .08:
                out.append({'do': 'badreg', 'what': rng.choice(BADREG),
                            'name': rng.choice(ns or names)})
            elif r < p[1] + .18:
                out.append({'do': 'bad', 'what': rng.choice(BAD)})
            elif r < p[1] + .24:
                out.append(dict(look(ns), do='save'))
            else:
                out.append({'do': 'reload', 'j': rng.randrange(20)})
        return out
    sc = {'names': names, 'steps': steps(rng.choice([4, 8, 15, 25]))}
    if len(names) > 8:
        sc['steps'] = [dict(reg(), name=n, over=None) for n in names[::-1]
                       if rng.random() < .9] + sc['steps']
    if rng.random() < .45:
        # look-ups of stable names while others register other names
        mid = max(1, len(names) // 2)
        stable, moving = names[:mid], names[mid:]
        if moving:
            sc['threads'] = [
                [look(stable) for _ in range(rng.choice([1, 2, 4]))]
                for _ in range(rng.choice([1, 2, 3]))]
            sc['changer'] = [
                reg(moving) if rng.random() < .8 else
                {'do': 'badreg', 'what': rng.choice(BADREG), 'name': moving[0]}
                for _ in range(rng.choice([1, 2, 4, 8]))]
            sc['sched'] = random_sched(rng)
    return sc


def base_class(name):
    """What a class of that name extends: a type of paragami's own name has
    to read what that type writes."""
    import paragami as pg
    for c in (pg.NumericArrayPattern, pg.PSDSymmetricMatrixPattern):
        if c.json_typename() == name:
            return c
    return pg.NumericVectorPattern


def instance(cls, n, **kw):
    import paragami as pg
    if issubclass(cls, pg.PSDSymmetricMatrixPattern):
        return cls(size=n)
    if issubclass(cls, pg.NumericVectorPattern):
        return cls(length=n, **kw)
    return cls((n, 2), **kw)


def make_class(name, v):
    """A new pattern class with that JSON name."""
    import paragami as pg

    class Variant(base_class(name)):
        variant = v

        @classmethod
        def json_typename(cls):
            return name
    return Variant


class World:
    def __init__(self):
        import paragami as pg
        self.pg = pg
        self.classes = {}
        self.reg = {}
        for c in (pg.NumericVectorPattern, pg.NumericArrayPattern,
                  pg.NumericScalarPattern, pg.PSDSymmetricMatrixPattern,
                  pg.SimplexArrayPattern, pg.PatternDict, pg.PatternArray):
            self.reg[c.json_typename()] = c

    def cls(self, name, v):
        k = (name, v)
        if k not in self.classes:
            self.classes[k] = make_class(name, v)
        return self.classes[k]

    def pattern(self, st):
        """The pattern to be looked up and what it should come back as."""
        pg = self.pg
        a = instance(self.cls(st['name'], st['v']), st['n'], lb=-2.)
        w = st['where']
        names = [st['name']]
        if w in ('alone', 'file'):
            return a, names
        if w == 'array':
            return pg.PatternArray((2,), a), names
        if w in ('dict', 'filedict'):
            d = pg.PatternDict(free_default=True)
            d['x'] = a
            d['y'] = pg.NumericScalarPattern()
            return d, names
        b = instance(self.cls(st['other'], (st['v'] + 1) % 4), 2)
        names.append(st['other'])
        d = pg.PatternDict()
        if w == 'nested':
            s = pg.PatternDict()
            s['in'] = pg.PatternArray((2, 1), a)
            d['s'] = s
            d['b'] = b
        else:
            d['b'] = b
            d['a'] = a
            d['arr'] = pg.PatternArray((1,), b)
        return d, names

    def expect(self, p):
        """What reading p's JSON gives now: a tree of classes, or KeyError
        for the first missing name."""
        pg = self.pg
        name = type(p).json_typename()
        if name not in self.reg:
            return None
        c = self.reg[name]
        if isinstance(p, pg.PatternDict):
            kids = []
            for k in p.keys():
                e = self.expect(p[k])
                if e is None:
                    return None
                kids.append((k, e))
            return (c, kids)
        if isinstance(p, pg.PatternArray):
            e = self.expect(p.base_pattern())
            return None if e is None else (c, [('base', e)])
        return (c, [])

    def tree(self, p):
        pg = self.pg
        if isinstance(p, pg.PatternDict):
            return (type(p), [(k, self.tree(p[k])) for k in p.keys()])
        if isinstance(p, pg.PatternArray):
            return (type(p), [('base', self.tree(p.base_pattern()))])
        return (type(p), [])

    def judge(self, p, get, what):
        want = self.expect(p)
        try:
            q = get()
        except KeyError:
            if want is not None:
                raise Violation('not-found', what + ': KeyError although every '
                                'name in it is registered')
            return 'KeyError'
        if want is None:
            raise Violation('found', what + ': was read although a name in it '
                            'is not registered')
        got = self.tree(q)
        if got != want:
            raise Violation('wrong-class', '{}: rebuilt as {} and not {}'.format(
                what, show(got), show(want)))
        if json.loads(q.to_json()) != json.loads(p.to_json()):
            raise Violation('wrong-pattern', '{}: {} and not {}'.format(
                what, q.to_json(), p.to_json()))
        return 'ok'

    def look(self, st, what):
        p, names = self.pattern(st)
        if st['where'].startswith('file'):
            f = io.BytesIO()
            v = p.empty(valid=True)
            self.pg.save_folded(f, v, p)
            f.seek(0)
            return self.judge(p, lambda: self.pg.load_folded(f)[1], what)
        j = p.to_json()
        return self.judge(p, lambda: self.pg.get_pattern_from_json(j), what)

    def scan(self, names, what):
        for n in names:
            for v in (0, 3):
                self.look({'name': n, 'v': v, 'where': 'alone', 'n': 1},
                          '{}: name {!r}'.format(what, n))
        for c in (self.pg.NumericScalarPattern(), self.pg.PatternDict(),
                  self.pg.PSDSymmetricMatrixPattern(size=2),
                  self.pg.SimplexArrayPattern(2, (1,)),
                  self.pg.NumericArrayPattern((2, 2))):
            j = c.to_json()
            self.judge(c, lambda: self.pg.get_pattern_from_json(j),
                       '{}: {}'.format(what, type(c).__name__))

    def register(self, st, what):
        c = self.cls(st['name'], st['v'])
        kw = {} if st['over'] is None else {'allow_overwrite': st['over']}
        if st['name'] in self.reg and not st['over']:
            must_raise(lambda: self.pg.register_pattern_json(c, **kw),
                       (ValueError,), what)
            return False
        self.pg.register_pattern_json(c, **kw)
        self.reg[st['name']] = c
        return True

    def bad_register(self, st, what):
        pg = self.pg
        k = st['what']
        name = st['name']
        if k == 'none':
            obj = None
        elif k == 'string':
            obj = name
        elif k == 'notype':
            obj = dict
        elif k == 'instance_dup':
            # an instance names the same type: a duplicate if registered
            if name not in self.reg:
                return
            obj = instance(self.cls(name, 1), 1)
            must_raise(lambda: pg.register_pattern_json(obj), (ValueError,),
                       what)
            return
        else:
            class Raises(pg.NumericVectorPattern):
                @classmethod
                def json_typename(cls):
                    raise RuntimeError('no name')
            obj = Raises
        must_raise(lambda: pg.register_pattern_json(obj, allow_overwrite=True),
                   None, what)


def show(t):
    return '{}#{}{}'.format(t[0].json_typename(), getattr(t[0], 'variant', ''),
                            [(k, show(x)) for k, x in t[1]] if t[1] else '')


def bad_json(what, w):
    pg = w.pg
    good = pg.NumericVectorPattern(length=2)
    d = json.loads(good.to_json())
    if what == 'nokey':
        del d['pattern']
        return json.dumps(d), (KeyError,)
    if what == 'unknown':
        d['pattern'] = 'never.registered'
        return json.dumps(d), (KeyError,)
    if what == 'null':
        d['pattern'] = None
        return json.dumps(d), (KeyError,)
    if what == 'number':
        d['pattern'] = 3
        return json.dumps(d), (KeyError,)
    if what == 'list':
        d['pattern'] = ['x']
        return json.dumps(d), None
    if what == 'notjson':
        return '{"pattern": ', None
    if what == 'empty':
        return '{}', (KeyError,)
    if what == 'array':
        return '[1, 2]', None
    if what == 'none':
        return None, None
    if what == 'other_class':
        return json.dumps(d), 'class'
    p = pg.PatternDict()
    p['a'] = good
    p['b'] = pg.PatternArray((2,), pg.NumericScalarPattern())
    d = json.loads(p.to_json())
    k = 'a' if what == 'nested_unknown' else 'b'
    x = json.loads(d['contents'][k])
    if k == 'b':
        y = json.loads(x['base_pattern'])
        y['pattern'] = 'never.registered'
        x['base_pattern'] = json.dumps(y)
    else:
        x['pattern'] = 'never.registered'
    d['contents'][k] = json.dumps(x)
    return json.dumps(d), (KeyError,)


def execute(sc, ctx):
    w = World()
    files = []
    changed = looked = 0
    for i, st in enumerate(sc['steps']):
        do = st['do']
        what = 'step {} {}'.format(i, json.dumps(st))
        scan = True
        out = ''
        if do == 'reg':
            out = w.register(st, what)
            changed += 1
            if not out:
                ctx.count('fault:rejected-registration')
        elif do == 'badreg':
            ctx.count('fault:rejected-registration')
            w.bad_register(st, what)
            changed += 1
        elif do == 'look':
            out = w.look(st, what)
            looked += changed > 0
            scan = out != 'ok'
        elif do == 'bad':
            ctx.count('fault:malformed')
            j, kinds = bad_json(st['what'], w)
            if kinds == 'class':
                must_raise(lambda: w.pg.NumericScalarPattern.from_json(j),
                           (ValueError,), what)
            else:
                must_raise(lambda: w.pg.get_pattern_from_json(j), kinds, what)
        elif do == 'save':
            p, names = w.pattern(st)
            f = io.BytesIO()
            v = p.empty(valid=True)
            w.pg.save_folded(f, v, p)
            files.append((f.getvalue(), p, v))
            scan = False
        elif do == 'reload':
            if not files:
                continue
            data, p, v = files[st['j'] % len(files)]
            got = []

            def get():
                got.append(w.pg.load_folded(io.BytesIO(data)))
                return got[0][1]
            out = w.judge(p, get, what + ' of ' + p.to_json())
            if got:
                d = M.same(got[0][0], v, exact=True)
                if d:
                    raise Violation('value', what + ': ' + d)
            looked += changed > 0
            scan = out != 'ok'
        ctx.note(i, do, str(out))
        ctx.cover.append('{}/{}/{}/{}'.format(
            do, st.get('where') or st.get('what') or st.get('over'),
            st.get('name') in w.reg, out))
        if scan:
            w.scan(sc['names'], 'after ' + what)
    if sc.get('threads'):
        if _threads(sc, ctx, w):
            looked += 1
            changed += 1
        w.scan(sc['names'], 'after the threads')
    ctx.nontrivial = looked > 0 and changed > 0


def _threads(sc, ctx, w):
    for t in sc['threads']:
        for st in t:
            w.pattern(st)       # classes exist before the threads start
    for st in sc['changer']:
        if st['do'] == 'reg':
            w.cls(st['name'], st['v'])
    snapshot = copy.copy(w.reg)
    ro = World.__new__(World)
    ro.pg, ro.classes, ro.reg = w.pg, w.classes, snapshot

    def body(t):
        def run():
            for k, st in enumerate(t):
                ro.look(st, 'thread look-up ' + json.dumps(st))
        return run

    def changer():
        for st in sc['changer']:
            if st['do'] == 'reg':
                w.register(st, 'in a thread: ' + json.dumps(st))
            else:
                w.bad_register(st, 'in a thread: ' + json.dumps(st))
            ctx.count('fault:concurrent-registration')
    sim = ctx.run_threads([body(t) for t in sc['threads']] + [changer],
                          sc['sched'])
    return sim.stats.get('preemptions', 0)
