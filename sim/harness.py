"""Runs scenarios: one forked child per run, many workers, minimisation,
replay files, evidence."""

import copy
import gc
import hashlib
import importlib
import io
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from . import core
from .core import (Clock, ScenarioInvalid, Sim, SimCrash, Violation,
                   patched_locks, prime_opcode_tracing)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PARAGAMI_SIM_REPO', '/repo')
RUN_TIMEOUT = 100.0


# -- loading the code under test ------------------------------------------------
def load_package(sparse=True):
    """Import paragami from /repo's working tree, never from old bytecode."""
    import numpy            # noqa: F401  (with their own bytecode caches)
    import numpy.random     # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import scipy.linalg     # noqa: F401
    import autograd.numpy   # noqa: F401
    import autograd.scipy.special  # noqa: F401
    import autograd.test_util  # noqa: F401
    import zipfile          # noqa: F401
    try:
        import sksparse.cholmod  # noqa: F401
    except ImportError:
        pass
    import autograd.core as ac
    core.RULES.extend([dict(ac.primitive_jvps), dict(ac.primitive_vjps)])
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    tmp = tempfile.mkdtemp(prefix='pgv-pyc-')
    sys.pycache_prefix = tmp
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        with patched_locks():
            import paragami
            if sparse:
                import paragami.sparse_preconditioners_lib  # noqa: F401
            import paragami.optimization_lib  # noqa: F401
            import paragami.autograd_supplement_lib  # noqa: F401
            # whatever the package imports lazily, import it now
            import numpy.lib.format  # noqa: F401
            import scipy.sparse.linalg  # noqa: F401
    finally:
        sys.pycache_prefix = old
        shutil.rmtree(tmp, ignore_errors=True)
    gc.collect()
    gc.disable()
    gc.freeze()
    where = os.path.realpath(paragami.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('paragami imported from ' + where)
    return paragami


def prop_module(pid):
    return importlib.import_module('sim.props.' + pid.lower())


# -- one run ------------------------------------------------------------------------
class carry:
    """Settings that belong to a thread (numpy's error handling, contexts),
    taken along to the one that runs the call, and back."""

    def __init__(self):
        import contextvars
        self.context = contextvars.copy_context()
        self.err = self.errors()

    @staticmethod
    def errors():
        import numpy as np
        return np.geterr(), np.geterrcall(), np.getbufsize()

    @staticmethod
    def set_errors(e):
        import numpy as np
        if carry.errors() != e:
            np.seterr(**e[0])
            np.seterrcall(e[1])
            np.setbufsize(e[2])

    def __call__(self, fn):
        def run():
            self.set_errors(self.err)
            try:
                return fn()
            finally:
                self.err = self.errors()
        return self.context.run(run)

    def back(self):
        for var, value in self.context.items():
            if var.get(self) is not value:
                var.set(value)
        self.set_errors(self.err)


class Ctx:
    """What a scenario may use while it runs."""

    def __init__(self, scratch_base):
        self.stats = {}
        self.log = []
        self.clock = Clock()
        self.cover = []
        self.recorded = None
        self.trails = []
        self._base = scratch_base
        self._dir = None
        self.nontrivial = True
        self.directory = None

    def chdir(self, path):
        os.chdir(path)
        self.directory = os.getcwd()

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def scratch(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(dir=self._base)
        return self._dir

    def sim(self, sched=None, max_steps=4000000):
        return Sim(sched, self.clock, self.stats, self.log, max_steps)

    def run_threads(self, bodies, sched, interrupts=None, max_steps=4000000,
                    trace=True):
        """Run the bodies as simulated caller threads; returns the Sim.

        The schedule that was followed is kept for the replay file."""
        sim = self.sim(sched, max_steps)
        if interrupts:
            sim.interrupts = dict(interrupts)
        for i, b in enumerate(bodies):
            here = carry()
            b = (lambda b=b: sim.traced(b)) if trace else b
            sim.spawn(lambda b=b, here=here: here(b))
        with patched_locks():
            try:
                sim.run()
            finally:
                if sim.mode == 'random':
                    self.recorded = {
                        'mode': 'replay', 'opcodes': sim.opcodes,
                        'start': sim.sched.get('start', 0),
                        'switches': sim.switches}
                self.log.append(('sim', sim.step, len(sim.switches), sim.trail))
                self.count('yield points', sim.step)
        for t in sim.tasks:
            if t.exc is not None:
                raise t.exc
        if len(bodies) > 1:
            self.trails.append(sim.trail)
        return sim

    def faulted(self, fn, at, kind, opcodes=False, observe=None):
        """Run fn as one simulated thread with an exception injected at its
        ``at``-th yield point.  Returns (outcome, fired, yield points)."""
        sim = self.sim({'mode': 'serial', 'opcodes': opcodes})
        sim.observer = observe
        if at is not None:
            sim.interrupts = {(0, at): kind}
        box = {}
        here = carry()

        def body():
            # keep the injected exception local to fn
            try:
                box['r'] = ('ok', here(lambda: sim.traced(fn)))
            except core.InjectedInterrupt:
                box['r'] = ('injected', 'interrupt', '')
            except core.InjectedMemoryError:
                box['r'] = ('injected', 'memory', '')
            except Exception as e:
                box['r'] = ('err', type(e).__name__, str(e)[:200])
                box['e'] = e
        sim.spawn(body)
        with patched_locks():
            sim.run()
        here.back()
        t = sim.tasks[0]
        if t.exc is not None:
            raise t.exc
        self.count('yield points', sim.step)
        self.log.append(('faulted', sim.step, bool(sim.fired), box['r'][0]))
        if 'e' in box and isinstance(box['e'], (Violation, ScenarioInvalid)):
            raise box['e']
        return box['r'], bool(sim.fired), sim.step

    def note(self, *what):
        self.log.append(what)


def _in_package(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(core.PKG_DIR):
            return True
        tb = tb.tb_next
    return False


def _quiet(*a):
    """Objects that die with a simulated disk fault complain: not news."""


def execute(prop, scenario, scratch_base):
    """In a child: run the scenario, return a JSON-able result."""
    ctx = Ctx(scratch_base)
    res = {}
    out = sys.stdout
    try:
        import numpy as np
        np.seterr(all='ignore')
        warnings.simplefilter('ignore')
        sys.unraisablehook = _quiet
        np.random.seed(scenario.get('np_seed', 12345) % 2 ** 32)
        random.seed(4242)
        sys.stdout = io.StringIO()
        gc.disable()
        prime_opcode_tracing()
        core.own_threads()
        core.own_ids()
        if getattr(prop, 'ISOLATED', False):
            from . import oracle
            oracle.start()
        prop.execute(copy.deepcopy(scenario), ctx)
        core.run_later()
        res['status'] = 'ok'
    except Violation as e:
        res['status'] = 'violation'
        res['kind'] = e.kind
        res['msg'] = str(e.msg)[:2000]
    except ScenarioInvalid as e:
        res['status'] = 'invalid'
        res['msg'] = str(e)
    except BaseException as e:
        tb = traceback.format_exc()
        if _in_package(e.__traceback__) and not isinstance(e, SimCrash):
            res['status'] = 'violation'
            res['kind'] = 'unexpected-exception:' + type(e).__name__
            res['msg'] = '{}: {}\n{}'.format(type(e).__name__, e, tb[-1500:])
        else:
            res['status'] = 'error'
            res['msg'] = tb[-3000:]
    finally:
        sys.stdout = out
    res['stats'] = ctx.stats
    res['sim_s'] = ctx.clock.elapsed
    res['hash'] = hashlib.sha1(repr(ctx.log).encode()).hexdigest()[:16]
    res['cover'] = ctx.cover
    res['trails'] = ctx.trails
    res['nontrivial'] = ctx.nontrivial
    res['recorded'] = ctx.recorded
    return res


def run_forked(prop, scenario, timeout=RUN_TIMEOUT):
    """Run in a forked child, so that every run starts from pristine state."""
    if getattr(prop, 'FAR', False):
        from . import far
        far.start()
    base = tempfile.mkdtemp(prefix='pgv-')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = execute(prop, scenario, base)
            data = json.dumps(res).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except OSError:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                timed_out = True
                break
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    finally:
        os.close(r)
        if timed_out:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
        shutil.rmtree(base, ignore_errors=True)
    if timed_out:
        if getattr(prop, 'FAR', False):
            far.stop()
        return {'status': 'error', 'msg': 'run did not end within %gs' % timeout,
                'stats': {}, 'hang': True}
    try:
        return json.loads(buf)
    except ValueError:
        return {'status': 'error', 'msg': 'run died without a result', 'stats': {}}


def stuck(res):
    """A run (of well under a second) that never ends, twice."""
    return {'status': 'violation', 'kind': 'no-progress', 'stats': {},
            'msg': res['msg'], 'hash': 'stuck', 'hang': True}


def run_seed(seed, pid, index):
    h = hashlib.sha256('{}/{}/{}'.format(seed, pid, index).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def make_scenario(prop, seed, index, tier='quick'):
    rng = random.Random(run_seed(seed, prop.ID, index))
    sc = prop.generate(rng)
    sc.setdefault('np_seed', rng.randrange(2 ** 31))
    return sc


# -- the search -----------------------------------------------------------------------
def _merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def _worker(prop, seed, first, step, count, deadline, tier, wfd, stop_after):
    """Runs indices first, first+step, ... < count; one JSON line at the end."""
    tot = {'runs': 0, 'ok': 0, 'invalid': 0, 'stats': {}, 'sim_s': 0.0,
           'rechecked': 0}
    cover, trails, hashes, nontriv = set(), set(), set(), set()
    violations, errors, samples = [], [], []
    i = first
    while i < count and time.monotonic() < deadline:
        if os.path.exists(stop_after):
            try:
                if i > int(open(stop_after).read() or '0'):
                    break
            except ValueError:
                pass
        sc = make_scenario(prop, seed, i, tier)
        res = run_forked(prop, sc)
        if res.get('hang') and run_forked(prop, sc).get('hang'):
            res = stuck(res)
        tot['runs'] += 1
        _merge(tot['stats'], res.get('stats', {}))
        tot['sim_s'] += res.get('sim_s', 0.0)
        cover.update(res.get('cover', ()))
        trails.update(res.get('trails', ()))
        if res['status'] in ('ok', 'violation'):
            h = res['hash']
            if res.get('nontrivial'):
                nontriv.add(h)
            hashes.add(h)
        if res['status'] == 'ok':
            tot['ok'] += 1
            if i < 3:
                samples.append({'index': i, 'scenario': sc})
            if i % 61 == 7:
                again = run_forked(prop, sc)
                tot['rechecked'] += 1
                if again.get('hash') != res['hash']:
                    errors.append({'index': i, 'msg': 'not repeatable'})
        elif res['status'] == 'invalid':
            tot['invalid'] += 1
        elif res['status'] == 'violation':
            violations.append({'index': i, 'scenario': sc, 'res': res})
            with open(stop_after + '.%d' % first, 'w') as f:
                f.write(str(i))
            try:
                old = int(open(stop_after).read() or '0')
            except (OSError, ValueError):
                old = None
            if old is None or i < old:
                os.replace(stop_after + '.%d' % first, stop_after)
            break
        else:
            errors.append({'index': i, 'msg': res.get('msg', ''),
                           'hang': res.get('hang', False)})
            if len(errors) > 5:
                break
        i += step
    out = {'tot': tot, 'cover': sorted(cover), 'trails': sorted(trails),
           'violations': violations, 'errors': errors, 'samples': samples,
           'hashes': sorted(hashes), 'nontriv': sorted(nontriv)}
    with os.fdopen(wfd, 'wb') as f:
        f.write(json.dumps(out).encode())


def search(prop, seed, count, tier, wall, workers):
    deadline = time.monotonic() + wall
    tmp = tempfile.mkdtemp(prefix='pgv-s-')
    stop_after = os.path.join(tmp, 'stop')
    kids = []
    for wi in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                for _, rr in kids:
                    os.close(rr)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                _worker(prop, seed, wi, workers, count, deadline, tier, w,
                        stop_after)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    outs = []
    bufs = {r: b'' for _, r in kids}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for r in ready:
            c = os.read(r, 1 << 16)
            if c:
                bufs[r] += c
            else:
                os.close(r)
                open_fds.discard(r)
    for pid, r in kids:
        os.waitpid(pid, 0)
        try:
            outs.append(json.loads(bufs[r]))
        except ValueError:
            outs.append({'tot': {'runs': 0, 'ok': 0, 'invalid': 0, 'stats': {},
                                 'sim_s': 0, 'rechecked': 0},
                         'cover': [], 'trails': [], 'violations': [],
                         'errors': [{'index': -1, 'msg': 'worker died'}],
                         'samples': [], 'hashes': [], 'nontriv': []})
    shutil.rmtree(tmp, ignore_errors=True)
    tot = {}
    cover, trails = set(), set()
    violations, errors, samples = [], [], []
    hashes, nontriv = set(), set()
    for o in outs:
        st = o['tot'].pop('stats')
        _merge(tot, o['tot'])
        tot.setdefault('stats', {})
        _merge(tot['stats'], st)
        cover.update(o['cover'])
        trails.update(o['trails'])
        violations += o['violations']
        errors += o['errors']
        samples += o['samples']
        hashes.update(o['hashes'])
        nontriv.update(o['nontriv'])
    violations.sort(key=lambda v: v['index'])
    samples.sort(key=lambda v: v['index'])
    return {'tot': tot, 'cover': cover, 'trails': trails,
            'violations': violations, 'errors': errors, 'samples': samples,
            'distinct': len(hashes), 'nontrivial': len(nontriv)}


# -- minimisation --------------------------------------------------------------------
KEEP = {'shape', 'switches', 'params', 'keep'}


def _paths(x, path=()):
    """Paths of the lists in a scenario that may lose elements."""
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            if k not in KEEP:
                yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        if x and all(isinstance(e, (dict, list)) for e in x):
            yield path
        for i, e in enumerate(x):
            yield from _paths(e, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, v):
    y = copy.deepcopy(x)
    if not path:
        return v
    z = y
    for p in path[:-1]:
        z = z[p]
    z[path[-1]] = v
    return y


def _specs(x, path=()):
    if isinstance(x, dict):
        if 't' in x:
            yield path
        for k in sorted(x, key=str):
            yield from _specs(x[k], path + (k,))
    elif isinstance(x, list):
        for i, e in enumerate(x):
            yield from _specs(e, path + (i,))


SIMPLE_SPECS = [
    {'t': 'scalar', 'lb': None, 'ub': None, 'dv': True, 'fd': None},
    {'t': 'vec', 'n': 2, 'lb': None, 'ub': None, 'dv': True, 'fd': None},
]


class Minimiser:
    def __init__(self, prop, scenario, kind, budget):
        self.prop = prop
        self.sc = scenario
        self.kind = kind
        self.end = time.monotonic() + budget
        self.tries = 0
        self.recorded = None

    def time_left(self):
        return time.monotonic() < self.end

    def bad(self, sc):
        self.tries += 1
        res = run_forked(self.prop, sc, timeout=20)
        if res['status'] == 'violation' and res['kind'] == self.kind:
            self.recorded = res.get('recorded')
            self.res = res
            return True
        return False

    def try_(self, sc):
        if self.bad(sc):
            self.sc = sc
            return True
        s = sc.get('sched')
        if s and s.get('mode') == 'random':
            for d in (1, 2):
                c = copy.deepcopy(sc)
                c['sched']['seed'] = s['seed'] + d
                if self.time_left() and self.bad(c):
                    self.sc = c
                    return True
        return False

    def ddmin(self, path):
        n = 2
        lst = _get(self.sc, path)
        while lst and self.time_left():
            size = max(1, (len(lst) + n - 1) // n)
            changed = False
            i = 0
            while i < len(lst) and self.time_left():
                cand = lst[:i] + lst[i + size:]
                if self.try_(_with(self.sc, path, cand)):
                    lst = _get(self.sc, path)
                    changed = True
                else:
                    i += size
            if size == 1 and not changed:
                break
            if not changed:
                n = min(len(lst), n * 2) or 1
            else:
                n = max(2, n - 1)
        return

    def run(self):
        if not self.bad(self.sc):
            return False
        first = self.sc
        for _ in range(3):
            before = json.dumps(self.sc, sort_keys=True)
            # lists, outermost and longest first
            for p in sorted(_paths(self.sc), key=len):
                if not self.time_left():
                    break
                try:
                    _get(self.sc, p)
                except (KeyError, IndexError, TypeError):
                    continue
                self.ddmin(p)
            for p in list(_specs(self.sc)):
                if not self.time_left():
                    break
                try:
                    cur = _get(self.sc, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(cur, dict) or 't' not in cur:
                    continue
                for s in SIMPLE_SPECS:
                    if cur == s or (cur['t'] == s['t'] == 'scalar'):
                        break
                    if self.try_(_with(self.sc, p, dict(s))):
                        break
            if json.dumps(self.sc, sort_keys=True) == before:
                break
        # the schedule itself
        s = self.sc.get('sched')
        if s and s.get('mode') == 'random':
            self.bad(self.sc)
            if self.recorded:
                c = copy.deepcopy(self.sc)
                c['sched'] = self.recorded
                if self.bad(c):
                    self.sc = c
                    self.min_switches()
        if not self.bad(self.sc):
            self.sc = first
            self.bad(first)
        return True

    def min_switches(self):
        path = ('sched', 'switches')
        self.end = max(self.end, time.monotonic() + 15)
        for size in (64, 16, 4, 1):
            i = 0
            while i < len(_get(self.sc, path)) and self.time_left():
                lst = _get(self.sc, path)
                cand = _with(self.sc, path, lst[:i] + lst[i + size:])
                if self.bad(cand):
                    self.sc = cand
                else:
                    i += size


def in_child(fn):
    """fn() in a forked child of pristine state; its (picklable) result."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:
                res = ('exc', type(e).__name__, traceback.format_exc()[-1500:],
                       _in_package(e.__traceback__))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if res[0] == 'exc':
        if res[3]:
            raise Violation('unexpected-exception:' + res[1], res[2])
        raise RuntimeError(res[2])
    return res[1]
