"""C04: a PatternDict depends only on its current members."""

import copy

from .. import far
from .. import model as M
from .. import ops as O
from ..core import ScenarioInvalid
from ..world import NON_PATTERNS, Node, must_raise, non_pattern

ID = 'C04'
ISOLATED = True
FAR = True
RUNS = {'quick': 1500, 'thorough': 60000}
MIN_RUNS = 400
RULE = ('a run is a history of 3-25 additions, replacements, deletions, '
        're-additions, uses, failing requests and copies of one dictionary; '
        'non-trivial if at least two changes were made; distinct by event log')
COVER = 'kind of change x member type x number of members x nesting'
REAL = 'paragami, numpy, autograd, scipy'
STUB = 'none: one caller; failing requests are injected between the changes'


def generate(rng):
    keys = rng.sample(M.KEYS, rng.choice([2, 3, 4, 5]))
    deep = rng.choice([0, 0, 1, 2])
    start = M.gen_spec(rng, 1, p_leaf=0, empty_ok=True)
    while start['t'] != 'dict':
        start = M.gen_spec(rng, 1, p_leaf=0, empty_ok=True)
    if rng.random() < .5:
        start['items'] = []
    steps = []
    cur = {}
    again = O.gen_op(rng, p_bad=.2)
    for _ in range(rng.choice([3, 5, 8, 12, 25])):
        r = rng.random()
        k = rng.choice(keys)
        if r < .38:
            if cur and rng.random() < .45:
                # a member that is easily taken for the one it replaces
                k = rng.choice(sorted(cur))
                m = M.variant(rng, cur[k])
            else:
                m = M.gen_spec(rng, deep, empty_ok=rng.random() < .3)
            cur[k] = m
            st = {'do': 'set', 'k': k, 'm': m}
        elif r < .48:
            st = {'do': 'reuse', 'k': k, 'j': rng.randrange(50)}
        elif r < .68:
            st = {'do': 'del', 'k': k, 'any': rng.random() < .6}
        elif r < .86:
            st = {'do': 'use', 'op': again if rng.random() < .5
                  else O.gen_op(rng, p_bad=.3)}
        elif r < .90:
            st = {'do': 'bad', 'k': k, 'what': rng.choice(NON_PATTERNS)}
        elif r < .92:
            st = {'do': 'delmissing'}
        elif r < .94:
            st = {'do': 'fd', 'v': rng.choice([None, True, False])}
        elif r < .96:
            st = {'do': 'copy', 'how': rng.choice(['deep', 'json'])}
        elif r < .98:
            st = {'do': 'clear'}
        else:
            st = {'do': 'into', 'k': k}
        steps.append(st)
    return {'start': start, 'steps': steps, 'check': rng.choice([1, 1, 2, 5]),
            'deep': rng.random() < .5, 'forget': rng.random() < .3, 'far': rng.random() < .3,
            'lock': rng.random() < .2}


def elsewhere(text, spec):
    """Runs in another process."""
    import paragami as pg
    p = pg.get_pattern_from_json(text)
    Node.around(p, spec).check('read from its JSON in another process',
                               seed=5, deep=False)


def execute(sc, ctx):
    root = Node.make(sc['start'])
    pool = [] if sc.get('forget') else [n for _, n in root.items]
    changes = 0
    watched = []       # dictionaries that hold an older state of others

    def cov(kind, m=None):
        ctx.cover.append('{}/{}/{}/{}'.format(
            kind, m.t if m else '', len(root.items),
            any(n.t == 'dict' for _, n in root.items)))

    for i, st in enumerate(sc['steps']):
        what = 'step {} ({})'.format(i, st['do'])
        do = st['do']
        changed = True
        if do == 'set' or do == 'reuse':
            if do == 'set':
                n = Node.make(st['m'])
                if not sc.get('forget'):
                    pool.append(n)
            else:
                if not pool:
                    continue
                n = pool[st['j'] % len(pool)]
                if n.contains(root):
                    continue
            cov('replace' if st['k'] in root.keys() else 'add', n)
            root.set(st['k'], n)
            changes += 1
        elif do == 'del':
            k = st['k']
            if k not in root.keys():
                if not (st['any'] and root.items):
                    continue
                k = root.keys()[len(k) % len(root.items)]
            cov('delete')
            root.delete(k)
            changes += 1
        elif do == 'clear':
            for k in list(root.p.keys()):
                root.delete(k)
                changes += 1
            cov('clear')
        elif do == 'into':
            # the dictionary as member of another: locked from now on;
            # go on with the outer one
            outer = Node.make({'t': 'dict', 'fd': None, 'items': []})
            outer.set(st['k'], root)
            root = outer
            pool = []
            cov('into')
        elif do == 'use':
            op = st['op']
            spec = root.spec()
            if op.get('bad'):
                ctx.count('fault:rejected-argument')
            args = O.make_args(spec, op)
            got = M.outcome(lambda: O.call(root.p, spec, op, args))
            want = O.alone(spec, op)
            d = M.same_outcome(got, want)
            if d:
                from ..core import Violation
                raise Violation('use-differs', '{} {} on {}: {}'.format(
                    what, op, M.as_plain(spec), d))
            changed = False
        elif do == 'bad':
            ctx.count('fault:rejected-member')
            must_raise(lambda: root.p.__setitem__(st['k'],
                                                  non_pattern(st['what'])),
                       None, what)
        elif do == 'delmissing':
            ctx.count('fault:missing-member')
            must_raise(lambda: root.p.__delitem__('no such \0'), (KeyError,),
                       what)
        elif do == 'fd':
            root.p.free_default = st['v']
            root.own['fd'] = st['v']
        elif do == 'copy':
            watched.append((root, M.as_plain(root.spec())))
            if st['how'] == 'deep':
                q = copy.deepcopy(root.p)
            else:
                import paragami as pg
                q = pg.get_pattern_from_json(root.p.to_json())
            root = Node.around(q, root.spec(), root.locked)
            pool = [n for _, n in root.items]
            cov('copy-' + st['how'])
        ctx.note(i, do, root.keys())
        if changed and i % sc['check'] == 0:
            ctx.note(root.check('after ' + what, seed=i + 1, deep=False))
    if sc['lock']:
        root.lock()
    if sc.get('far'):
        # its JSON, read in another process
        far.call('sim.props.c04', 'elsewhere', root.p.to_json(), root.spec())
        ctx.count('read in another process')
    ctx.note(root.check('at the end', seed=99, deep=sc['deep'] or True))
    for n in list(root.walk())[1:6]:
        n.check('member at the end', seed=98, deep=False)
    for n, s in watched:
        if M.as_plain(n.spec()) != s:
            raise ScenarioInvalid('model of a copied dictionary changed')
        n.check('the copied dictionary', seed=97, deep=False)
    ctx.count('changes', changes)
    ctx.nontrivial = changes >= 2
