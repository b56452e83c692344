"""The simulator: one process, one integer, every interleaving and fault decided here.

Caller threads are real Python threads, but only one of them ever runs: each
is parked on its own lock and released by the scheduler.  A running thread
gives the scheduler a chance to switch at every *yield point*:

* every line (or every bytecode) executed in a file of the paragami package
  (through sys.settrace, so no change to the code under test is needed),
* every raw operation of the simulated disk (sim/disk.py),
* every call of a harness callback (user functions, solvers, stdout, ...),
* every acquire of a threading lock created by the package.

At the same points the fault plan may raise an exception in the thread
(interrupt, failed allocation).  All choices come from one random.Random and
are recorded, so a run can be replayed from its recorded switches alone.
"""

import _thread
import os
import random
import sys
import threading
import weakref
import zlib

PKG_DIR = os.path.realpath(os.path.join(
    os.environ.get('PARAGAMI_SIM_REPO', '/repo'), 'paragami')) + os.sep
#: autograd's derivative rules before paragami was imported
RULES = []
TEST_DIR = PKG_DIR + 'tests' + os.sep


class Violation(Exception):
    """The property under check does not hold."""

    def __init__(self, kind, msg=''):
        super().__init__('{}: {}'.format(kind, msg))
        self.kind = kind
        self.msg = msg


class ScenarioInvalid(Exception):
    """A (shrunk) scenario that does not make sense: never a violation."""


class InjectedInterrupt(KeyboardInterrupt):
    """Ctrl-C, delivered by the simulator at a chosen yield point."""


class InjectedMemoryError(MemoryError):
    """A failed allocation at a chosen yield point."""


class SimCrash(BaseException):
    """The simulated process dies here."""


INTERRUPTS = {'interrupt': InjectedInterrupt, 'memory': InjectedMemoryError}


class Clock:
    """Simulated time, in seconds.  Advances only with simulated work."""

    def __init__(self, start=1.6e9):
        self.now = float(start)
        self.elapsed = 0.0

    def advance(self, dt):
        self.now += dt
        self.elapsed += dt

    def jump(self, dt):
        # a clock step is not elapsed time
        self.now += dt


class Task:
    def __init__(self, idx, name, fn):
        self.idx = idx
        self.name = name
        self.fn = fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.local = 0          # yield points passed so far
        self.done = False
        self.blocked_on = None
        self.pending = None     # an interrupt that waits for its moment
        self.exc = None
        self.value = None


class Sim:
    """Runs a set of tasks under one schedule."""

    #: The simulation the current thread's yield points go to.
    active = None

    def __init__(self, sched=None, clock=None, stats=None, log=None,
                 max_steps=4000000):
        self.sched = dict(sched or {'mode': 'serial'})
        self.clock = clock or Clock()
        self.stats = stats if stats is not None else {}
        self.log = log if log is not None else []
        self.tasks = []
        self.current = None
        self.step = 0
        self.max_steps = max_steps
        self.switches = []        # the recorded schedule: [task, local, next]
        self.trail = 0            # hash of (site of switch) sequence
        self.interrupts = {}      # (task, local) -> kind, still to fire
        self.fired = []
        self.muted = False
        self.observer = None      # called with the local step; may ask for a fault
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.fatal = None
        self.at = None            # the frame whose trace event this is
        self.by_ident = {}
        mode = self.sched.get('mode', 'serial')
        self.mode = mode
        self.opcodes = bool(self.sched.get('opcodes', False))
        self.rng = random.Random(self.sched.get('seed', 0))
        self.p = self.sched.get('p', 0.05)
        self.salt = self.sched.get('salt', 0)
        self.modulus = max(1, self.sched.get('modulus', 1))
        # priorities: the first ready task runs; at the steps in ``low`` the
        # running one gets the lowest priority
        self.low = set(self.sched.get('low', ()))
        self.pct = 'low' in self.sched and mode == 'random'
        self.order = []
        self.plan = {}
        if mode == 'replay':
            for t, l, n in self.sched.get('switches', ()):
                self.plan[(t, l)] = n

    # -- tasks -------------------------------------------------------------
    def spawn(self, fn, name=None):
        t = Task(len(self.tasks), name or 't%d' % len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _body(self, task):
        task.gate.acquire()
        self.by_ident[_thread.get_ident()] = task
        try:
            task.value = task.fn()
        except BaseException as e:            # judged by the property
            task.exc = e
        finally:
            sys.settrace(None)
            task.done = True
            self._next_after_end(task)

    def run(self):
        if not self.tasks:
            return
        outer, Sim.active = Sim.active, self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose_start()
            self.current = first
            first.gate.release()
            self.main_gate.acquire()
        finally:
            Sim.active = outer
        if self.fatal is not None:
            raise self.fatal

    def _choose_start(self):
        if self.mode == 'replay':
            i = self.sched.get('start', 0)
            return self.tasks[i if i < len(self.tasks) else 0]
        if self.mode == 'serial':
            return self.tasks[0]
        i = self.rng.randrange(len(self.tasks))
        if self.pct:
            self.order = list(range(len(self.tasks)))
            self.rng.shuffle(self.order)
            i = self.order[0]
        self.sched['start'] = i
        return self.tasks[i]

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def _next_after_end(self, task):
        ready = self._runnable()
        if not ready:
            if any(not t.done for t in self.tasks):
                self._die(Violation(
                    'deadlock', 'every remaining caller thread waits for a lock'))
                return
            self.main_gate.release()
            return
        nxt = self._pick(task, 'end', ready)
        self.current = nxt
        nxt.gate.release()

    def _pick(self, task, local, ready):
        """Which of ``ready`` continues when ``task`` cannot."""
        if self.mode == 'replay':
            n = self.plan.get((task.idx, local))
            for t in ready:
                if t.idx == n:
                    return t
            return ready[0]
        if self.mode == 'serial' or len(ready) == 1:
            nxt = ready[0]
        elif self.pct:
            nxt = min(ready, key=lambda t: self.order.index(t.idx))
        else:
            nxt = ready[self.rng.randrange(len(ready))]
        self.switches.append([task.idx, local, nxt.idx])
        return nxt

    def _die(self, exc):
        """End the simulation at once (the parked threads are abandoned)."""
        if self.fatal is None:
            self.fatal = exc
        self.main_gate.release()

    # -- yield points ------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def yield_point(self, site, dt=1e-6):
        task = self.me()
        if task is None or task is not self.current or self.muted:
            return
        self.step += 1
        task.local += 1
        self.clock.advance(dt)
        if self.observer is not None:
            self.muted = True
            try:
                kind = self.observer(task.local)
            finally:
                self.muted = False
            if kind is not None and not self.interrupts:
                self.observer = None
                self.interrupts[(task.idx, task.local)] = kind
        if self.step > self.max_steps:
            self._die(Violation(
                'no-progress', 'no end of the run within {} steps'.format(
                    self.max_steps)))
            _park()
        if self.interrupts:
            kind = self.interrupts.pop((task.idx, task.local), None)
            if kind is not None and task.pending is None:
                task.pending = kind
        if task.pending is not None and interruptible():
            kind, task.pending = task.pending, None
            self.at = None
            self.fired.append([task.idx, task.local, kind])
            self.stats['fault:' + kind] = self.stats.get('fault:' + kind, 0) + 1
            raise INTERRUPTS[kind]('injected at yield point {}'.format(task.local))
        if self.mode == 'serial':
            return
        nxt = None
        if self.mode == 'replay':
            n = self.plan.get((task.idx, task.local))
            if n is not None and n < len(self.tasks):
                t = self.tasks[n]
                if not t.done and t.blocked_on is None and t is not task:
                    nxt = t
        elif self.pct:
            if self.step in self.low:
                self.order.remove(task.idx)
                self.order.append(task.idx)
                nxt = min(self._runnable(),
                          key=lambda t: self.order.index(t.idx))
                if nxt is task:
                    nxt = None
                else:
                    self.switches.append([task.idx, task.local, nxt.idx])
        else:
            hot = self.modulus == 1 or \
                (zlib.crc32(repr(site).encode()) ^ self.salt) % self.modulus == 0
            if hot and self.rng.random() < self.p:
                others = [t for t in self.tasks
                          if t is not task and not t.done
                          and t.blocked_on is None]
                if others:
                    nxt = others[self.rng.randrange(len(others))]
                    self.switches.append([task.idx, task.local, nxt.idx])
        if nxt is not None:
            self.trail = zlib.crc32(
                repr((task.idx, site, nxt.idx)).encode(), self.trail)
            self.stats['preemptions'] = self.stats.get('preemptions', 0) + 1
            self._switch(task, nxt)

    def _switch(self, task, nxt):
        self.current = nxt
        nxt.gate.release()
        task.gate.acquire()

    def block(self, task, lock):
        """``task`` waits for ``lock``: run somebody else."""
        task.blocked_on = lock
        ready = self._runnable()
        if not ready:
            self._die(Violation('deadlock', 'all caller threads wait for locks'))
            _park()
        nxt = self._pick(task, task.local, ready)
        self._switch(task, nxt)

    def wake(self, lock):
        for t in self.tasks:
            if t.blocked_on is lock:
                t.blocked_on = None

    # -- tracing -----------------------------------------------------------
    def traced(self, fn):
        """Run fn with yield points at every line / bytecode of the package."""
        opcodes = self.opcodes
        yp = self.yield_point

        def local(frame, event, arg):
            if event == 'line':
                if not opcodes:
                    self.at = frame
                    yp((frame.f_code.co_name, frame.f_lineno))
                    self.at = None
            elif event == 'opcode':
                if opcodes:
                    self.at = frame
                    yp((frame.f_code.co_name, frame.f_lasti))
                    self.at = None
            return local

        def call(frame, event, arg):
            fname = frame.f_code.co_filename
            if fname.startswith(PKG_DIR) and not fname.startswith(TEST_DIR):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(call)
        try:
            return fn()
        finally:
            sys.settrace(None)


def _park():
    lk = _real_lock()
    lk.acquire()
    lk.acquire()


def prime_opcode_tracing():
    """CPython 3.12 delivers opcode events only from the second settrace on."""
    def f():
        return 1

    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr
    for _ in range(2):
        sys.settrace(tr)
        f()
        sys.settrace(None)


def traced(fn):
    """Yield points inside fn, if a simulation with threads is running."""
    s = Sim.active
    if s is None or s.me() is None:
        return fn()
    return s.traced(fn)


OBSERVER = []                 # called at every callback and disk operation


def yield_here(site, dt=1e-6):
    for o in OBSERVER:
        o(site)
    s = Sim.active
    if s is not None:
        s.yield_point(site, dt)


# -- where an exception can strike ----------------------------------------------
# CPython raises pending interrupts, and allocations fail, while something is
# called, computed or repeated: not between an assignment and the ``try`` that
# follows it, nor between a ``with`` block and the __exit__ of its manager.
# Code that restores something in ``finally``, or in a handler that raises
# again, is taken to be atomic (an interrupt there waits).

_PLAIN = {}                 # code object -> offsets of events that cannot raise
_RESTORING = {}             # file -> lines in which something is restored


def _plain(code):
    import dis
    found = _PLAIN.get(code)
    if found is None:
        ins = list(dis.get_instructions(code))
        can = [i.opname.startswith((
            'CALL', 'JUMP_BACKWARD', 'BINARY_', 'BUILD_', 'COMPARE_',
            'CONTAINS_', 'FORMAT_', 'LIST_', 'DICT_', 'SET_', 'MAP_', 'GET_',
            'FOR_ITER', 'UNARY_', 'IMPORT_', 'MAKE_FUNCTION', 'RESUME',
            'LOAD_BUILD_CLASS', 'STORE_SUBSCR', 'STORE_SLICE', 'DELETE_SUBSCR',
            'BEFORE_WITH', 'RAISE_', 'SEND', 'YIELD_')) for i in ins]
        exits = [False] * len(ins)
        for n in range(len(ins) - 3):
            if all(i.opname == 'LOAD_CONST' and i.argval is None
                   for i in ins[n:n + 3]) and ins[n + 3].opname == 'CALL':
                exits[n:n + 4] = [True] * 4
        lines, offsets = set(), set()
        for n, i in enumerate(ins):
            if exits[n] or not can[n]:
                offsets.add(i.offset)
            if i.starts_line is None and n:
                continue
            m = n + 1
            while m < len(ins) and ins[m].starts_line is None:
                m += 1
            if exits[n] or not any(can[n:m]):
                lines.add(i.offset)
        found = _PLAIN[code] = (lines, offsets, {
            i.offset for n, i in enumerate(ins) if exits[n]})
    return found


def _restoring(fname):
    found = _RESTORING.get(fname)
    if found is None:
        import ast
        found = set()
        try:
            with open(fname, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                blocks = [node.finalbody] + [
                    h.body for h in node.handlers
                    if any(isinstance(x, ast.Raise) and x.exc is None
                           for b in h.body for x in ast.walk(b))]
                for b in blocks:
                    for x in b:
                        found.update(range(x.lineno, x.end_lineno + 1))
        _RESTORING[fname] = found
    return found


def interruptible():
    f, own = sys._getframe(2), True
    s = Sim.active
    while f is not None:
        code = f.f_code
        fname = code.co_filename
        if fname.startswith(PKG_DIR) and not fname.startswith(TEST_DIR):
            lines, offsets, exits = _plain(code)
            if own and s is not None and s.at is f:
                if f.f_lasti in (offsets if s.opcodes else lines):
                    return False
            elif f.f_lasti in exits:
                return False
            if f.f_lineno in _restoring(fname):
                return False
            own = False
        f = f.f_back
    return True


# -- threads the package starts -------------------------------------------------
# (It starts none now.)  The simulator decides when they run: when somebody
# waits for them, or whenever the scenario lets them, or never, if the process
# is killed before.

LATER = []
_thread_start, _thread_join = threading.Thread.start, threading.Thread.join


def _from_package():
    return sys._getframe(2).f_code.co_filename.startswith(PKG_DIR)


def _start(self):
    if _from_package():
        LATER.append(self)
    else:
        _thread_start(self)


def _join(self, timeout=None):
    if self in LATER:
        run_later(self)
    return _thread_join(self, timeout)


def run_later(*which):
    for t in which or list(LATER):
        LATER.remove(t)
        _thread_start(t)
        _thread_join(t)


# -- identities ------------------------------------------------------------------
# id() depends on the memory allocator.  The package gets numbers that depend on
# the run alone; the number of an object that has died goes to the next object
# that is asked for, as an allocator may do.

_REAL_ID = id
_IDS = {}           # real id -> [number, weak reference or the object itself]
_FREE = []
_IDS_MADE = [1 << 20]


def _gone(key, entry):
    if _IDS.get(key) is entry:
        del _IDS[key]
        _FREE.append(entry[0])


def sim_id(obj):
    for k, e in list(_IDS.items()):
        # held by the table, by e's list and by the argument of getrefcount
        if type(e[1]) is not weakref.ref and sys.getrefcount(e[1]) <= 2 \
                and e[1] is not obj:
            _gone(k, e)
    key = _REAL_ID(obj)
    e = _IDS.get(key)
    if e is None:
        if not _FREE:
            _IDS_MADE[0] += 16
            _FREE.append(_IDS_MADE[0])
        e = [_FREE.pop(), None]
        try:
            e[1] = weakref.ref(obj, lambda r, e=e: _gone(key, e))
        except TypeError:
            e[1] = obj
        _IDS[key] = e
    return e[0]


def own_ids():
    for name, mod in list(sys.modules.items()):
        if name.startswith('paragami.') and '.tests' not in name:
            mod.__dict__.setdefault('id', sim_id)


def own_threads():
    threading.Thread.start, threading.Thread.join = _start, _join
    threading.excepthook = lambda args: None


# -- locks ---------------------------------------------------------------------
# If the package (now or after a refactoring) uses threading locks, a parked
# thread may hold one; the simulator must then schedule its owner, not block.

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class SimLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = Sim.active
        t = s.me() if s is not None else None
        if t is None:
            # Nobody else runs: a lock that is held will never be released.
            if self._l.acquire(False):
                return True
            if blocking and (timeout is None or timeout < 0):
                raise Violation('deadlock', 'waits for a lock nobody will release')
            return False
        s.yield_point(('lock', 'acquire'))
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                s.clock.advance(timeout)
                return self._l.acquire(False)
            s.block(t, self)
        return True

    def release(self):
        self._l.release()
        if Sim.active is not None:
            Sim.active.wake(self)

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._n = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            self._l.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self._l.acquire()
        self._owner = _thread.get_ident()
        self._n = n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class patched_locks:
    """Locks created inside are simulator locks."""

    def __enter__(self):
        self.saved = (threading.Lock, threading.RLock, threading._allocate_lock)
        threading.Lock = SimLock
        threading.RLock = SimRLock
        threading._allocate_lock = SimLock

    def __exit__(self, *a):
        (threading.Lock, threading.RLock, threading._allocate_lock) = self.saved


# -- schedules -------------------------------------------------------------------
def random_sched(rng, p_serial=0.0, opcodes=True):
    """Swarm: every run gets its own kind of schedule."""
    if rng.random() < p_serial:
        return {'mode': 'serial', 'opcodes': rng.random() < 0.3}
    if rng.random() < .4:
        # few preemptions, each at one place, and the others run to their end
        k = rng.choice([15, 40, 100, 250, 600, 1500, 5000])
        opc = rng.random() < .4 and opcodes
        return {'mode': 'random', 'seed': rng.randrange(2 ** 31),
                'low': [rng.randint(1, k * (3 if opc else 1))
                        for _ in range(rng.choice([1, 1, 2, 3, 6]))],
                'opcodes': opc}
    return {
        'mode': 'random',
        'seed': rng.randrange(2 ** 31),
        'p': rng.choice([0.003, 0.01, 0.02, 0.05, 0.1, 0.2, 0.4, 0.8]),
        'modulus': rng.choice([1, 1, 1, 2, 4, 8]),
        'salt': rng.randrange(2 ** 31),
        'opcodes': rng.random() < 0.4 and opcodes,
    }
