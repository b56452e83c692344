"""C05: rejected changes to PatternDicts leave no trace."""

import copy

from .. import model as M
from .. import ops as O
from ..core import Violation
from ..world import NON_PATTERNS, Node, must_raise, non_pattern

ID = 'C05'
ISOLATED = True
RUNS = {'quick': 1500, 'thorough': 60000}
MIN_RUNS = 400
RULE = ('a run is a history of 4-30 changes, inclusions, locks and rejected '
        'changes over 2-5 dictionaries that contain each other; non-trivial '
        'if at least one change was rejected; distinct by event log')
COVER = 'kind of request x locked x depth x outcome'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'none: one caller; rejected requests are the injected faults'


def generate(rng):
    nd = rng.choice([2, 2, 3, 4, 5])
    dicts = []
    for _ in range(nd):
        s = {'t': 'dict', 'fd': rng.choice([None, None, True, False]),
             'items': [[k, M.gen_leaf(rng)] for k in
                       rng.sample(M.KEYS[:6], rng.choice([0, 1, 2, 3]))]}
        if rng.random() < .25:
            s['sub'] = True
        dicts.append(s)
    keys = M.KEYS[:6] + ['sub', 'x']
    steps = []
    for _ in range(rng.choice([4, 8, 15, 30])):
        r = rng.random()
        st = {'d': rng.randrange(nd), 'k': rng.choice(keys)}
        if rng.random() < .35:
            # through the path of members, some levels down
            st['path'] = [rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 3]))]
        if r < .22:
            st.update(do='include', o=rng.randrange(nd))
        elif r < .42:
            st.update(do='set', m=M.gen_leaf(rng))
        elif r < .55:
            st.update(do='del', any=rng.random() < .7)
        elif r < .60:
            st.update(do='lock')
        elif r < .78:
            st.update(do='bad', what=rng.choice(NON_PATTERNS))
        elif r < .85:
            st.update(do='delmissing')
        elif r < .88:
            st.update(do='same')
        elif r < .91:
            st.update(do='array_of')
        elif r < .95:
            st.update(do='copy', how=rng.choice(['deep', 'json']))
        else:
            st.update(do='use', op=O.gen_op(rng, p_bad=.3))
        steps.append(st)
    return {'dicts': dicts, 'steps': steps, 'all': rng.random() < .5}


def execute(sc, ctx):
    roots = [Node.make(s) for s in sc['dicts']]
    rejected = 0

    def node_of(st):
        n = roots[st['d'] % len(roots)]
        depth = 0
        for j in st.get('path', ()):
            subs = [m for _, m in n.items if m.t == 'dict']
            if not subs:
                break
            m = subs[j % len(subs)]
            # reach it the way a user does: by indexing
            key = [k for k, x in n.items if x is m][0]
            if n.p[key] is not m.p:
                raise Violation('member', '[{}] is another object'.format(key))
            n = m
            depth += 1
        return n, depth

    def check_all(what, focus=()):
        for j, n in enumerate(roots):
            n.check('{}: dictionary {}'.format(what, j), seed=3, deep=False)
            for x in n.walk():
                if x.t == 'dict':
                    x.check_lock('{}: a dictionary of root {}'.format(what, j))
        for x in focus:
            if x.t == 'dict':
                x.check_lock(what + ': the rejected object')
            x.check(what + ': the rejected object', seed=4, deep=False)

    for i, st in enumerate(sc['steps']):
        n, depth = node_of(st)
        do = st['do']
        what = 'step {} ({}{})'.format(i, do, ' of a locked dictionary'
                                       if n.locked else '')
        k = st['k']
        ctx.cover.append('{}/{}/{}/{}'.format(do, n.locked, depth,
                                              k in n.keys()))
        fail, focus = None, ()
        if do == 'include':
            o = roots[st['o'] % len(roots)]
            if o.contains(n):
                continue
            focus = (o,)
            req = (lambda: n.p.__setitem__(k, o.p))
            if n.locked:
                fail = (ValueError,)
            else:
                req()
                n.model_set(k, o)
        elif do == 'set':
            m = Node.make(st['m'])
            focus = (m,)
            req = (lambda: n.p.__setitem__(k, m.p))
            if n.locked:
                fail = (ValueError,)
            else:
                req()
                n.model_set(k, m)
        elif do == 'same':
            if not n.items:
                continue
            k, m = n.items[len(k) % len(n.items)]
            req = (lambda: n.p.__setitem__(k, m.p))
            if n.locked:
                fail = (ValueError,)
            else:
                req()
                n.model_set(k, m)
        elif do == 'del':
            if k not in n.keys():
                if not (st.get('any') and n.items):
                    continue
                k = n.keys()[len(k) % len(n.items)]
            req = (lambda: n.p.__delitem__(k))
            if n.locked:
                fail = (ValueError,)
            else:
                req()
                n.model_del(k)
        elif do == 'lock':
            n.lock()
        elif do == 'bad':
            obj = non_pattern(st['what'])
            req = (lambda: n.p.__setitem__(k, obj))
            fail = (ValueError,) if n.locked else (Exception,)
        elif do == 'delmissing':
            req = (lambda: n.p.__delitem__('no such member'))
            fail = (ValueError,) if n.locked else (KeyError,)
        elif do == 'array_of':
            import paragami as pg
            req = (lambda: pg.PatternArray((2,), n.p))
            fail = (NotImplementedError,)
            focus = (n,)
        elif do == 'copy':
            if st['how'] == 'deep':
                q = copy.deepcopy(n.p)
                roots.append(Node.around(q, n.spec(), n.locked))
            else:
                import paragami as pg
                q = pg.get_pattern_from_json(n.p.to_json())
                # whether a dictionary read back is locked is its own matter;
                # what it contains is locked
                m = Node.around(q, n.spec(), False)
                m.locked = _is_locked(m)
                roots.append(m)
        else:
            op = st['op']
            spec = n.spec()
            args = O.make_args(spec, op)
            got = M.outcome(lambda: O.call(n.p, spec, op, args))
            d = M.same_outcome(got, O.alone(spec, op))
            if d:
                raise Violation('reading', '{} {} on {}: {}'.format(
                    what, op, M.as_plain(spec), d))
        if fail:
            rejected += 1
            ctx.count('fault:rejected-' + do)
            must_raise(req, fail, what)
            check_all('after the rejected ' + what, focus)
        elif sc['all']:
            check_all('after ' + what)
        ctx.note(i, do, bool(fail), [r.keys() for r in roots])
    check_all('at the end')
    for n in roots:
        n.check('at the end', seed=7, deep=True)
    ctx.nontrivial = rejected > 0


def _is_locked(m):
    try:
        del m.p['no such member \0']
    except ValueError:
        return True
    except KeyError:
        return False
    return False
