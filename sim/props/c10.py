"""C10: pattern instances and their copies are independent."""

import copy

from .. import model as M
from .. import ops as O
from ..core import Violation
from ..world import Node, must_raise

ID = 'C10'
ISOLATED = True
RUNS = {'quick': 1200, 'thorough': 50000}
MIN_RUNS = 300
RULE = ('a run is a history of 4-20 steps that build, copy and read back '
        'patterns and change or use one of them; after every change all '
        'others are examined; non-trivial if a pattern was changed while a '
        'copy or an equal twin existed; distinct by event log')
COVER = 'kind of change x pattern type x origin of the pattern'
REAL = 'paragami, numpy, autograd, scipy, copy, json'
STUB = 'none: one caller'


TEMP = ['fold', 'flatten', 'flat_indices', 'flat_names', 'freeing_jacobian',
        'empty', 'accessors', 'validate']


def dicts(s):
    if s['t'] == 'array':
        return dicts(s['base'])
    if s['t'] != 'dict':
        return []
    return [s] + [d for _, m in s['items'] for d in dicts(m)]


def twins(rng, spec):
    """The specification with one or two more members that equal another."""
    ds = [d for d in dicts(spec) if d['items']]
    for _ in range(rng.choice([1, 1, 2])):
        if ds:
            d = rng.choice(ds)
            k, m = rng.choice(d['items'])
            free = [x for x in M.KEYS[:8] if x not in [y for y, _ in d['items']]]
            if free:
                d['items'].append([rng.choice(free), copy.deepcopy(m)])
    return spec


def generate(rng):
    spec = M.gen_spec(rng, rng.choice([0, 1, 2, 2]), p_leaf=.2)
    if rng.random() < .4:
        spec = twins(rng, spec)
    steps = [{'do': 'build', 'spec': spec}]
    n = rng.choice([4, 7, 12, 20])
    specs = [spec]
    for j in range(n):
        r = rng.random()
        st = {'i': rng.randrange(10), 'n': rng.randrange(12)}
        if rng.random() < .5:
            st['n'] = 0
        if j == 0 or r < .20:
            how = rng.choice(['deep', 'json', 'deep', 'twin'])
            st.update(do='copy', how=how,
                      use=O.gen_op(rng, p_bad=0) if rng.random() < .6 else None)
        elif r < .32:
            # often one that is easily taken for an earlier one
            s = M.gen_spec(rng, 1) if rng.random() < .25 else \
                M.variant(rng, rng.choice(specs))
            specs.append(s)
            st.update(do='build', spec=s)
        elif r < .42:
            st.update(do='fd', v=rng.choice([None, True, False]))
        elif r < .46:
            st.update(do='dv', v=rng.choice([True, False]))
        elif r < .58:
            st.update(do='set', k=rng.choice(M.KEYS[:6]),
                      m=M.gen_spec(rng, rng.choice([0, 0, 1])))
        elif r < .67:
            st.update(do='del', j=rng.randrange(6))
        elif r < .72:
            st.update(do='lock')
        elif r < .74:
            st.update(do='badset')
        elif r < .80:
            # patterns that come and go: their memory is used again
            like = rng.choice(specs)
            st.update(do='temp', specs=[
                M.variant(rng, like) for _ in range(rng.choice([3, 6, 10]))],
                op=O.gen_op(rng, p_bad=0, names=TEMP))
        elif r < .84:
            st.update(do='drop')
        else:
            names = None
            if rng.random() < .4:
                names = ['freeing_jacobian', 'unfreeing_jacobian', 'log_det_f',
                         'log_det_u']
            st.update(do='use', op=O.gen_op(rng, p_bad=.15, names=names),
                      all=rng.random() < .5)
        steps.append(st)
    return {'steps': steps, 'deep': rng.random() < .5,
            'opfirst': rng.random() < .3}


def execute(sc, ctx):
    import paragami as pg
    objs = []
    origin = []
    changes = 0

    def look(what, skip=None, deep=False):
        for j, o in enumerate(objs):
            if j != skip:
                o.check('{}: pattern {} ({})'.format(what, j, origin[j]),
                        seed=11, deep=deep)

    def locks(what):
        for j, o in enumerate(objs):
            for x in o.walk():
                if x.t == 'dict':
                    x.check_lock('{}: a dictionary of pattern {} ({})'.format(
                        what, j, origin[j]))

    for i, st in enumerate(sc['steps']):
        do = st['do']
        what = 'step {} ({})'.format(i, do)
        if do == 'build':
            objs.append(Node.make(st['spec']))
            origin.append('built')
            ctx.note(i, 'build')
            continue
        if do == 'temp':
            for s in st['specs']:
                args = O.make_args(s, st['op'])
                p = M.build(s)
                got = M.outcome(lambda: O.call(p, s, st['op'], args))
                del p
                d = M.same_outcome(got, O.alone(s, st['op']))
                if d:
                    raise Violation('use', '{} {} of {}: {}'.format(
                        what, st['op'], M.as_plain(s), d))
                ctx.count('patterns dropped')
            ctx.note(i, do)
            continue
        if do == 'drop':
            if len(objs) > 1:
                oi = st['i'] % len(objs)
                del objs[oi], origin[oi]
                ctx.count('patterns dropped')
                o = x = nodes = d = ds = m = q = on = ns = y = a = b = None
            ctx.note(i, do)
            continue
        if not objs:
            continue
        oi = st['i'] % len(objs)
        o = objs[oi]
        nodes = list(o.walk())
        x = nodes[st['n'] % len(nodes)]
        ctx.cover.append('{}/{}/{}'.format(do, x.t, origin[oi]))
        changed = False
        if do == 'copy':
            spec = o.spec()
            if st['use']:
                # caches, if any, are filled before the copy is made
                args = O.make_args(spec, st['use'])
                M.outcome(lambda: O.call(o.p, spec, st['use'], args))
            if st['how'] == 'deep':
                q = Node.around(copy.deepcopy(o.p), spec, o.locked)
            elif st['how'] == 'json':
                q = Node.around(pg.get_pattern_from_json(o.p.to_json()), spec)
                q.locked = _is_locked(q) if q.t == 'dict' else False
            else:
                q = Node.make(spec)
            if not (q.p == o.p and o.p == q.p):
                raise Violation('copy-not-equal', '{}: {} copy of {} is not '
                                'equal to it'.format(what, st['how'],
                                                     M.as_plain(spec)))
            if type(q.p) is not type(o.p):
                raise Violation('copy-type', what)
            objs.append(q)
            origin.append(st['how'] + ' copy')
            for a in q.walk():
                for b in o.walk():
                    if a.p is b.p:
                        raise Violation('shared', '{}: the copy contains the '
                                        'original\'s {}'.format(what, a.t))
        elif do == 'fd':
            x.p.free_default = st['v']
            x.own['fd'] = st['v']
            changed = True
        elif do == 'dv':
            if 'dv' not in x.own:
                continue
            x.p.default_validate = st['v']
            x.own['dv'] = st['v']
            changed = True
        elif do in ('set', 'del', 'lock', 'badset'):
            ds = [y for y in nodes if y.t == 'dict']
            if not ds:
                continue
            d = ds[st['n'] % len(ds)]
            if do == 'lock':
                d.lock()
                changed = True
            elif do == 'badset':
                must_raise(lambda: d.p.__setitem__('a', 3),
                           (ValueError,) if d.locked else None, what)
                ctx.count('fault:rejected-member')
            elif do == 'set':
                m = Node.make(st['m'])
                if d.locked:
                    must_raise(lambda: d.p.__setitem__(st['k'], m.p),
                               (ValueError,), what)
                    ctx.count('fault:rejected-change')
                else:
                    d.set(st['k'], m)
                    changed = True
            else:
                if not d.items:
                    continue
                k = d.keys()[st['j'] % len(d.items)]
                if d.locked:
                    must_raise(lambda: d.p.__delitem__(k), (ValueError,), what)
                    ctx.count('fault:rejected-change')
                else:
                    d.delete(k)
                    changed = True
        else:
            op = st['op']
            on = [(x, oi)]
            if st['all']:
                # the same request to all of them, one after the other
                for j, y in enumerate(objs):
                    ns = list(y.walk())
                    on.append((ns[st['n'] % len(ns)], j))
            for y, j in on:
                spec = y.spec()
                if op.get('bad'):
                    ctx.count('fault:rejected-argument')
                args = O.make_args(spec, op)
                got = M.outcome(lambda: O.call(y.p, spec, op, args))
                d = M.same_outcome(got, O.alone(spec, op))
                if d:
                    raise Violation('use', '{} {} of {} ({}): {}'.format(
                        what, op, M.as_plain(spec), origin[j], d))
        if changed:
            changes += len(objs) > 1
            look(what)
            locks(what)
        ctx.note(i, do, changed, len(objs))
    locks('at the end')
    look('at the end', deep=True)
    ctx.nontrivial = changes > 0


def _is_locked(m):
    try:
        del m.p['no such member \0']
    except ValueError:
        return True
    except KeyError:
        return False
    return False
