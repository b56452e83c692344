"""C20: importing the package can fail anywhere, be repeated, and leaves the
rest of the process alone."""

import builtins
import contextlib
import decimal
import errno
import gc
import hashlib
import importlib
import importlib._bootstrap_external as external
import io
import json
import locale
import logging
import os
import random
import signal
import socket
import subprocess
import sys
import threading
import warnings
import _thread

import autograd
import autograd.numpy
import numpy as np
import scipy
import scipy.sparse

from .. import core
from .. import model as M
from .. import ops as O
from .. import oracle
from ..core import SimLock, SimRLock, Violation, random_sched
from . import c19

ID = 'C20'
ISOLATED = True
RUNS = {'quick': 2500, 'thorough': 80000}
MIN_RUNS = 400
RULE = ('a run is 1-5 imports of the package or of one of its modules in a '
        'process with settings of its own, each undisturbed, interrupted at a '
        'line, without some dependency, with unreadable source files, with a '
        'git that fails, or by 2-3 threads at once, and the use of what was '
        'imported; non-trivial if a fault fired or a thread was preempted; '
        'distinct by event log')
COVER = 'module x fault x where it stopped x outcome'
REAL = 'paragami (executed from source at every import), importlib, numpy, scipy, autograd'
STUB = 'git (answers and failures), source files read errors, thread scheduler'

PUBLIC = {
    'paragami': ['PatternDict', 'PatternArray', 'register_pattern_json',
                 'get_pattern_from_json', 'save_folded', 'load_folded',
                 'NumericArrayPattern', 'NumericVectorPattern',
                 'NumericScalarPattern', 'PSDSymmetricMatrixPattern',
                 'SimplexArrayPattern', 'FlattenFunctionInput',
                 'FoldFunctionInput', 'FlattenFunctionOutput',
                 'FoldFunctionOutput', 'FoldFunctionInputAndOutput',
                 'FlattenFunctionInputAndOutput', 'TransformFunctionInput',
                 'TransformFunctionOutput', 'PreconditionedFunction',
                 'OptimizationObjective', '__version__'],
    'paragami.base_patterns': ['Pattern'],
    'paragami.optimization_lib': ['PreconditionedFunction',
                                  'OptimizationObjective'],
    'paragami.function_patterns': ['FlattenFunctionInput'],
    'paragami.autograd_supplement_lib': ['get_sparse_product',
                                         'get_differentiable_solver'],
    'paragami.sparse_preconditioners_lib': ['get_sym_matrix_inv_sqrt_funcs'],
    'paragami.pattern_containers': ['save_folded', 'PatternDict'],
    'paragami.psdmatrix_patterns': ['PSDSymmetricMatrixPattern'],
    'paragami.simplex_patterns': ['SimplexArrayPattern'],
    'paragami.numeric_array_patterns': ['NumericArrayPattern']}
MODULES = sorted(PUBLIC) + ['paragami'] * 8
MISSING = ['scipy.sparse', 'scipy', 'autograd', 'autograd.numpy', 'json',
           'itertools', 'collections', 'autograd.core', 'subprocess', 'copy',
           'warnings', 'math', 'abc', 'numpy', 'autograd.scipy', 'functools']
GIT = ['ok', 'ok', 'ok', 'none', 'denied', 'again', 'fail', 'memory']
DESCRIBE = [('v0.40-0-gabcdef1', '0.40'), ('v0.39-3-gabcdef1-dirty', None),
            ('abcdef1', None), ('v0.4-12-g1234567', None), ('other-1', None)]


def gen_attempt(rng):
    a = {'m': rng.choice(MODULES), 'git': rng.choice(GIT),
         'at': rng.choice([1, 2, 3, 4, 5]),
         'describe': rng.randrange(len(DESCRIBE))}
    r = rng.random()
    if r < .55:
        # (the import executes about 800 lines)
        a['interrupt'] = [rng.choice([rng.randrange(1, 40),
                                      rng.randrange(1, 900),
                                      rng.randrange(1, 900)]),
                          rng.choice(['interrupt', 'memory'])]
        a['opcodes'] = rng.random() < .15
        if a['opcodes']:
            a['interrupt'][0] *= 5
    elif r < .65:
        a['missing'] = rng.choice(MISSING)
    elif r < .75:
        a['sksparse'] = rng.choice(['sksparse', 'sksparse.cholmod'])
        a['m'] = rng.choice(['paragami', 'paragami.sparse_preconditioners_lib'])
    elif r < .87:
        a['read'] = rng.randrange(1, 13)
        a['errno'] = rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'EINTR'])
    return a


def generate(rng):
    spec = M.gen_spec(rng, rng.choice([0, 1, 1, 2]), max_items=3)
    sc = {'spec': spec, 'vs': rng.randrange(2 ** 31),
          'state': rng.randrange(2 ** 31),
          'attempts': [gen_attempt(rng) for _ in range(rng.choice([1, 1, 2, 4]))],
          'use': rng.choice(['probe', 'probe', 'save', 'optimise', 'sparse'])}
    if rng.random() < .3:
        sc['threads'] = [rng.choice(MODULES) for _ in range(rng.choice([2, 2, 3]))]
        sc['sched'] = random_sched(rng)
        sc['attempts'] = sc['attempts'][:rng.choice([0, 0, 1])]
    return sc


# -- the surroundings ------------------------------------------------------------
class Git:
    """subprocess.Popen: a git that answers or fails."""

    def __init__(self, ctx, how='ok', at=1, describe=0):
        self.ctx, self.how, self.at = ctx, how, at
        self.describe = DESCRIBE[describe][0]
        self.n = 0

    def __call__(self, args, **kw):
        self.n += 1
        rc, out = 0, ''
        if self.how != 'ok' and self.n >= self.at:
            self.ctx.count('fault:git-' + self.how)
            if self.how == 'none':
                raise FileNotFoundError(errno.ENOENT, 'no git')
            if self.how == 'denied':
                raise PermissionError(errno.EACCES, 'not allowed')
            if self.how in ('again', 'memory'):
                e = errno.EAGAIN if self.how == 'again' else errno.ENOMEM
                raise OSError(e, os.strerror(e))
            rc = 128
        else:
            a = ' '.join(map(str, args))
            if 'describe' in a:
                out = self.describe
            elif '--git-dir' in a:
                out = '.git'
            elif '--count' in a:
                out = '17'
            elif 'rev-list' in a:
                out = '\n'.join('%040x' % i for i in range(17))
            elif 'rev-parse' in a:
                out = 'abcdef1' * 5 + 'abcde'
            elif 'show' in a or 'log' in a:
                out = '2020-02-03 04:05:06 +0000'
            else:
                rc = 1
        return Process(rc, out)


class Process:
    def __init__(self, rc, out):
        self.returncode = rc
        self.out = (out + '\n').encode()
        self.stdout = io.BytesIO(self.out)
        self.stderr = io.BytesIO(b'')
        self.args, self.pid = ['git'], 4711

    def communicate(self, *a, **k):
        return self.out, b''

    def wait(self, *a, **k):
        return self.returncode

    poll = wait

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _handler(*a):
    pass


def settings(seed, errors=('ignore', 'warn', 'print', 'call')):
    """Give the process settings of its own."""
    r = random.Random(seed)
    np.random.seed(r.randrange(2 ** 32))
    random.seed(r.randrange(2 ** 32))
    np.seterr(**{k: r.choice(errors)
                 for k in ('divide', 'over', 'under', 'invalid')})
    np.seterrcall(_handler)
    np.set_printoptions(precision=r.randint(2, 11), linewidth=r.randint(40, 99),
                        suppress=r.random() < .5, threshold=r.randint(50, 2000))
    warnings.resetwarnings()
    for _ in range(r.randint(0, 3)):
        warnings.filterwarnings(r.choice(['ignore', 'default', 'always']),
                                r.choice(['', 'x', 'deprec']),
                                r.choice([Warning, UserWarning,
                                          RuntimeWarning]))
    warnings.showwarning = lambda *a, **k: None
    sys.setrecursionlimit(r.randint(1500, 3000))
    sys.setswitchinterval(r.choice([.005, .01]))
    np.setbufsize(16 * r.randint(100, 1000))
    signal.signal(signal.SIGTERM, r.choice([signal.SIG_DFL, _handler]))
    signal.signal(signal.SIGUSR1, r.choice([signal.SIG_IGN, _handler]))
    os.environ['SIM_%d' % r.randint(0, 99)] = '1'
    for k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.pop(k, None)
    decimal.getcontext().prec = r.randint(5, 40)
    logging.getLogger().setLevel(r.choice([10, 20, 30, 40]))
    socket.setdefaulttimeout(r.choice([None, 5.0]))
    gc.set_threshold(r.randint(500, 900), 11, 12)
    sys.displayhook = r.choice([sys.__displayhook__, _handler])


def names(mod):
    return {k: id(v) for k, v in vars(mod).items()
            if not k.startswith('__') and not isinstance(v, type(sys))}


WATCHED = [np, np.linalg, np.random, json, autograd, autograd.numpy,
           autograd.numpy.linalg, scipy, scipy.sparse, builtins, warnings,
           np.ndarray]


def state():
    s = np.random.get_state()
    mask = os.umask(0)
    os.umask(mask)
    return {
        'numpy random state': hashlib.sha1(
            repr((s[0], s[2:])).encode() + s[1].tobytes()).hexdigest(),
        'random state': hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        'numpy errors': (np.geterr(), id(np.geterrcall())),
        'print options': {k: v for k, v in np.get_printoptions().items()},
        'buffer size': np.getbufsize(),
        'warning filters': [tuple(map(str, f)) for f in warnings.filters],
        'environment': dict(os.environ), 'directory': os.getcwd(),
        'umask': mask,
        'signals': [id(signal.getsignal(x)) for x in (
            signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGPIPE)],
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'path': list(sys.path), 'meta path': [id(f) for f in sys.meta_path],
        'hooks': [id(sys.excepthook), id(sys.displayhook), id(sys.stdout),
                  id(sys.stderr), id(threading.excepthook),
                  sys.dont_write_bytecode],
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal': repr(decimal.getcontext()),
        'threads': threading.active_count(),
        'gc': (gc.isenabled(), gc.get_threshold()),
        'logging': (logging.getLogger().level, len(logging.getLogger().handlers)),
        'socket': socket.getdefaulttimeout(),
        'attributes': [names(m) for m in WATCHED]}


def compare(before, what):
    after = state()
    for k, v in before.items():
        if after[k] == v:
            continue
        if k == 'attributes':
            for m, a, b in zip(WATCHED, v, after[k]):
                for n in a:
                    if b.get(n) != a[n]:
                        raise Violation('process', '{}: {} of {} was replaced'
                                        .format(what, n, m.__name__))
            continue
        raise Violation('process', '{}: {} of the process changed: {} and {}'
                        .format(what, k, str(v)[:300], str(after[k])[:300]))


# -- one import ---------------------------------------------------------------------
def purge():
    for m in [m for m in sys.modules if m.split('.')[0] == 'paragami']:
        del sys.modules[m]
    del M._FLAKY[:], M._SUB[:]
    # (a primitive of another module that the first import gave rules)
    added = [{k for k in d if k not in r and not str(getattr(
        getattr(k, 'fun', None), '__module__', '')).startswith('paragami')}
        for d, r in zip(tables(), core.RULES)]
    for d, r in zip(tables(), core.RULES):
        d.clear()
        d.update(r)
    return added


def tables():
    import autograd.core as ac
    return ac.primitive_jvps, ac.primitive_vjps


def rules(added, what):
    """Autograd's own rules are what they were, and the package's complete."""
    for d, r, a in zip(tables(), core.RULES, added):
        for k in r:
            if d.get(k) is not r[k]:
                raise Violation('process', '{}: autograd\'s rule for {} was '
                                'replaced'.format(what, k.__name__))
        for k in a:
            if k not in d:
                raise Violation('incomplete', '{}: no forward rule for {}'
                                .format(what, k.__name__))


def bring(name):
    """import name, as a statement does."""
    mod = importlib.import_module(name)
    for n in PUBLIC[name]:
        if not hasattr(mod, n):
            raise Violation('incomplete', '{} was imported without {}'.format(
                name, n))
    return mod


@contextlib.contextmanager
def surroundings(ctx, a):
    """A fault of an attempt, except an interrupt."""
    saved = {}
    gone = [a['missing']] if 'missing' in a else []
    if 'sksparse' in a:
        gone = [m for m in sys.modules
                if m == a['sksparse'] or m.startswith(a['sksparse'] + '.')] + \
            [a['sksparse']]
    popen, reader = subprocess.Popen, external.FileLoader.get_data
    reads = [0]

    def get_data(self, path):
        if str(path).startswith(core.PKG_DIR) and str(path).endswith('.py'):
            reads[0] += 1
            if reads[0] == a['read']:
                ctx.count('fault:source-' + a['errno'])
                e = getattr(errno, a['errno'])
                raise OSError(e, os.strerror(e), path)
        return reader(self, path)
    for m in set(gone):
        saved[m] = sys.modules.get(m, saved)
        sys.modules[m] = None
    subprocess.Popen = Git(ctx, a['git'], a['at'], a['describe'])
    if 'read' in a:
        external.FileLoader.get_data = get_data
    try:
        yield
    finally:
        subprocess.Popen = popen
        external.FileLoader.get_data = reader
        for m, mod in saved.items():
            if mod is saved:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = mod


def attempt(ctx, a, what):
    """Returns whether it succeeded."""
    injected = False
    with surroundings(ctx, a):
        if 'interrupt' in a:
            at, kind = a['interrupt']
            r, injected, _ = ctx.faulted(lambda: bring(a['m']) and None, at,
                                         kind, opcodes=a['opcodes'])
            ctx.count('fault:' + kind, int(injected))
        else:
            try:
                bring(a['m'])
                r = ('ok', None)
            except Violation:
                raise
            except Exception as e:
                r = ('err', type(e).__name__, str(e)[:200])
                e.__traceback__ = None
    if 'missing' in a or 'sksparse' in a:
        ctx.count('fault:missing-dependency')
    if 'sksparse' in a:
        sparse = a['m'].endswith('sparse_preconditioners_lib')
        if sparse and r[0] == 'ok' and a.get('fresh'):
            raise Violation('optional', '{}: sparse_preconditioners_lib was '
                            'imported without sksparse'.format(what))
        if sparse and r[0] == 'err' and r[1] not in ('ImportError',
                                                     'ModuleNotFoundError'):
            raise Violation('optional', '{}: without sksparse: {}'.format(
                what, M.brief(r)))
        if not sparse and r[0] != 'ok':
            raise Violation('optional', '{}: importing {} without sksparse: {}'
                            .format(what, a['m'], M.brief(r)))
    elif not injected and 'missing' not in a and 'read' not in a and \
            r[0] != 'ok':
        raise Violation('failed', '{}: importing {} (git: {} from call {}): {}'
                        .format(what, a['m'], a['git'], a['at'], M.brief(r)))
    fault = [k for k in ('interrupt', 'missing', 'sksparse', 'read') if k in a]
    ctx.note('import', a['m'], fault, r[0], injected)
    ctx.cover.append('{}/{}/{}/{}'.format(
        a['m'].split('.')[-1], (fault or [a['git']])[0],
        sum(m.startswith('paragami') for m in sys.modules), r[0]))
    return r[0] == 'ok' and not injected


# -- what was imported works ---------------------------------------------------------
def version(describe):
    return {'v0.40-0-gabcdef1': '0.40',
            'v0.39-3-gabcdef1-dirty': '0.39.post3.dev0+gabcdef1',
            'abcdef1': '0.post17+gabcdef1',
            'v0.4-12-g1234567': '0.4.post12+g1234567'}.get(describe)


def use(sc, ctx, what):
    import paragami as pg
    for m in ('paragami', 'paragami.base_patterns', 'paragami.optimization_lib',
              'paragami.autograd_supplement_lib'):
        bring(m)
    if not isinstance(pg.__version__, str) or not pg.__version__:
        raise Violation('version', '{}: {!r}'.format(what, pg.__version__))
    spec = sc['spec']
    p = M.build(spec)
    q = pg.get_pattern_from_json(p.to_json())
    if not (q == p) or type(q) is not type(p):
        raise Violation('use', what + ': the JSON of a pattern gives another')
    d = O.same_probe(O.probe(p, spec, seed=2, deep=False),
                     oracle.probe(spec, 2, False))
    if d:
        raise Violation('use', '{}: the imported package and one imported '
                        'undisturbed: {}'.format(what, d))
    if sc['use'] == 'save':
        val = M.value(spec, sc['vs'])
        f = io.BytesIO()
        pg.save_folded(f, val, p, n=3)
        f.seek(0)
        v, q, data = pg.load_folded(f)
        d = M.same(v, val, exact=True)
        if d or not q == p or int(data['n']) != 3:
            raise Violation('use', '{}: saved and loaded: {}'.format(what, d))
    elif sc['use'] == 'optimise' and 1 <= M.flat_len(spec, True) <= 8:
        cfg = {'seed': sc['vs'], 'free': True, 'argnum': 0, 'pre': True,
               'other': 1.0, 'kw': 1.0, 'print': 0, 'log': 1, 'two': False}
        x = list(map(float, .5 * M.free_vec(spec, sc['vs'])))
        st = {'m': 'newton', 'n': 2}
        args = (spec, cfg, {'k': 'dense', 'kind': 'triangular', 'ms': 1,
                            'cast': 'C', 'old': False, 'inv': False}, x, st)
        got = c19.alone(*args)
        want = oracle.call('sim.props.c19', 'alone', *args)
        d = M.same([e for xy in got['log'] for e in xy],
                   [e for xy in want['log'] for e in xy], rtol=1e-6, atol=1e-8)
        if d:
            raise Violation('use', '{}: an optimisation: {}'.format(what, d))
    elif sc['use'] == 'sparse':
        lib = bring('paragami.sparse_preconditioners_lib')
        h = scipy.sparse.csc_matrix(np.array([[4., 1, 0], [1, 3, 0], [0, 0, 2]]))
        a, b = lib.get_sym_matrix_inv_sqrt_funcs(h)
        x = np.array([1., -2, 3])
        d = M.same(np.array(a(b(x))), x, rtol=1e-8, atol=1e-10)
        if d:
            raise Violation('use', '{}: sparse square root: {}'.format(what, d))


class import_locks:
    """The module locks of importlib are simulator locks."""

    def __enter__(self):
        self.saved = _thread.allocate_lock, _thread.RLock
        _thread.allocate_lock, _thread.RLock = SimLock, SimRLock

    def __exit__(self, *a):
        _thread.allocate_lock, _thread.RLock = self.saved


def execute(sc, ctx):
    added = purge()
    settings(sc['state'])
    before = state()
    gone = 0
    out = io.StringIO()
    for i, a in enumerate(sc['attempts']):
        what = 'attempt {}'.format(i)
        a = dict(a, fresh='paragami.sparse_preconditioners_lib' not in
                 sys.modules)
        sys.stdout, old = out, sys.stdout
        try:
            ok = attempt(ctx, a, what)
        finally:
            sys.stdout = old
        if out.getvalue() and 'missing' not in a and not (
                'sksparse' in a and a['m'].endswith('sparse_preconditioners_lib')):
            raise Violation('prints', '{}: importing prints {!r}'.format(
                what, out.getvalue()[:200]))
        out = io.StringIO()
        gone += not ok
        compare(before, what)
        rules([(), ()], what)
    pre = 0
    if 'threads' in sc:
        pre = threads(sc, ctx)
        compare(before, 'threads')
    fresh = 'paragami' not in sys.modules
    git = Git(ctx, 'ok', 1, sc['vs'] % len(DESCRIBE))
    with surroundings(ctx, {'git': 'ok', 'at': 1,
                            'describe': sc['vs'] % len(DESCRIBE)}):
        try:
            import paragami as pg
        except Exception as e:
            raise Violation('repeat', 'importing again after {} failed '
                            'attempts: {}: {}'.format(
                                gone, type(e).__name__, e))
        if fresh and version(git.describe) not in (None, pg.__version__) and \
                '_version' in dir(pg):
            raise Violation('version', '{} for {}'.format(
                pg.__version__, git.describe))
    compare(before, 'the last import')
    rules(added, 'after {} failed attempts'.format(gone))
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    try:
        use(sc, ctx, 'after {} failed attempts'.format(gone))
    except (Violation, core.ScenarioInvalid):
        raise
    except Exception as e:
        raise Violation('use', 'after {} failed attempts: {}: {}'.format(
            gone, type(e).__name__, e))
    ctx.note('used', sc['use'])
    ctx.nontrivial = gone > 0 or pre > 0 or any(
        a['git'] != 'ok' for a in sc['attempts'])


def threads(sc, ctx):
    got = [None] * len(sc['threads'])

    def body(i):
        def run():
            try:
                # (CPython itself may report a deadlock if one thread imports
                # a module of a package that another one is importing)
                pg = bring('paragami')
                mod = bring(sc['threads'][i])
                p = pg.PatternDict()
                p['a'] = pg.NumericVectorPattern(2, lb=0.)
                p['b'] = pg.PSDSymmetricMatrixPattern(2)
                q = pg.get_pattern_from_json(p.to_json())
                x = np.arange(5.) / 3
                got[i] = ('ok', (q == p, q.flatten(p.fold(x, free=True),
                                                   free=True)))
                del mod
            except (Violation, core.ScenarioInvalid):
                raise
            except Exception as e:
                got[i] = ('err', type(e).__name__, str(e))
        return run
    with surroundings(ctx, {'git': 'ok', 'at': 1, 'describe': 0}), \
            import_locks():
        sim = ctx.run_threads([body(i) for i in range(len(got))], sc['sched'])
    for i, g in enumerate(got):
        if g is None or g[0] != 'ok' or g[1][0] is not True:
            raise Violation('threads', 'thread {} ({}) importing at the same '
                            'time: {}'.format(i, sc['threads'][i], M.brief(g)))
        d = M.same(g[1][1], np.arange(5.) / 3, rtol=1e-9, atol=1e-10)
        if d:
            raise Violation('threads', 'thread {}: {}'.format(i, d))
    ctx.cover.append('threads/' + '/'.join(m.split('.')[-1]
                                           for m in sc['threads']))
    return sim.stats.get('preemptions', 0)
