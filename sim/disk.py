"""The simulated disk.

Files really exist, in a scratch directory made for one run, but every open,
read, write, seek, truncate, close, sync, rename and remove that concerns that
directory goes through this module: it is a yield point of the scheduler, it
takes simulated time, and the fault plan decides what happens to it.

Faults (each is {"op":, "n":, "kind":, ...}: it hits the n-th operation of that
class since the plan was installed):

  open   EACCES EROFS EMFILE ENOSPC EINTR?   the error instead of the open
  write  EIO ENOSPC EDQUOT       the error instead of the write
         SHORT                   only part of the buffer is taken
         SHORT_ENOSPC            part is taken, everything later fails (disk full)
         EINTR                   interrupted, nothing taken (retried by CPython)
         KILL / POWER            the process / the machine dies there, after
                                 a part ("frac") of the buffer was taken
  read   EIO EINTR SHORT
  close  EIO ENOSPC              reported at close (NFS, quota)
  sync, rename, remove, truncate: EIO / EACCES, KILL / POWER

A killed process keeps what the raw writes delivered.  After a power failure
each file written since its last sync is either still as it was before it was
opened (nothing reached the disk), or has its new contents with an arbitrary
set of 512-byte sectors lost (they read as zeros) and possibly a shorter
length: what a journalling file system does.  Sectors never revert to
the data of an earlier version inside a truncated and rewritten file.
"""

import builtins
import errno
import io
import os
import random

from .core import SimCrash, yield_here

SECTOR = 512

_real_io_open = io.open
_real_open = builtins.open
_real = {n: getattr(os, n) for n in
         ('replace', 'rename', 'remove', 'unlink', 'fsync', 'truncate',
          'ftruncate', 'fdopen')}

_ERR = {k: getattr(errno, k) for k in
        ('EIO', 'ENOSPC', 'EDQUOT', 'EROFS', 'EACCES', 'EMFILE', 'EINTR')}


def _oserror(kind, name):
    e = _ERR[kind]
    return OSError(e, os.strerror(e) + ' (injected)', name)


class FaultRaw(io.RawIOBase):
    def __init__(self, disk, raw, path):
        self._d = disk
        self._r = raw
        self._path = path
        self._pid = os.getpid()
        self.name = raw.name
        self.mode = raw.mode

    def readable(self):
        return self._r.readable()

    def writable(self):
        return self._r.writable()

    def seekable(self):
        return self._r.seekable()

    def fileno(self):
        return self._r.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        f = self._d._op('read', self._path)
        if f is not None:
            k = f['kind']
            if k == 'SHORT' and len(b) > 1:
                m = max(1, int(len(b) * f.get('frac', 0.5)))
                return self._r.readinto(memoryview(b)[:m])
            if k in _ERR:
                raise _oserror(k, self._path)
        return self._r.readinto(b)

    def write(self, b):
        d = self._d
        if d.dead:
            return len(b)        # a dead process writes nothing
        b = bytes(b)
        f = d._op('write', self._path, len(b))
        if d.full:
            raise _oserror('ENOSPC', self._path)
        if f is not None:
            k = f['kind']
            m = min(len(b), int(len(b) * f.get('frac', 0.5)))
            if k == 'SHORT' and len(b) > 1:
                return self._r.write(b[:max(1, m)])
            if k == 'SHORT_ENOSPC':
                d.full = True
                if m > 0:
                    return self._r.write(b[:m])
                raise _oserror('ENOSPC', self._path)
            if k in ('KILL', 'POWER'):
                if m > 0:
                    self._r.write(b[:m])
                d._crash(k)
            if k in _ERR:
                raise _oserror(k, self._path)
        return self._r.write(b)

    def seek(self, pos, whence=0):
        return self._r.seek(pos, whence)

    def tell(self):
        return self._r.tell()

    def truncate(self, size=None):
        if self._d.dead:
            return 0
        f = self._d._op('truncate', self._path)
        if f is not None and f['kind'] in _ERR:
            raise _oserror(f['kind'], self._path)
        return self._r.truncate(size)

    def close(self):
        if self.closed:
            return
        f = None
        try:
            super().close()
            if not self._d.dead:
                f = self._d._op('close', self._path)
        finally:
            self._r.close()
        if f is not None and f['kind'] in _ERR and self._r_was_writable():
            raise _oserror(f['kind'], self._path)

    def _r_was_writable(self):
        return any(c in self.mode for c in 'wax+')


class Disk:
    def __init__(self, root, clock=None, stats=None, log=None):
        self.root = os.path.realpath(root)
        self.clock = clock
        self.stats = stats if stats is not None else {}
        self.log = log if log is not None else []
        self.plan = {}
        self.count = {}
        self.dead = False
        self.full = False
        self.fired = []
        self.unsynced = {}     # path -> contents before the first unsynced write
        self.handles = []

    # -- the fault plan ------------------------------------------------------
    def install(self, faults):
        """Faults count operations from now on."""
        self.plan = {}
        for f in faults or ():
            self.plan[(f['op'], f['n'])] = f
        self.count = {}
        self.fired = []
        self.full = False
        self.dead = False

    def clear(self):
        self.install(())

    def _op(self, op, path, size=0):
        yield_here(('disk', op), dt=1e-4)
        if self.dead:
            return None
        n = self.count.get(op, 0) + 1
        self.count[op] = n
        f = self.plan.get((op, n))
        rel = os.path.basename(str(path))
        self.log.append(('disk', op, rel, size, f['kind'] if f else ''))
        if f is not None:
            key = 'fault:disk-{}-{}'.format(op, f['kind'])
            self.stats[key] = self.stats.get(key, 0) + 1
            self.fired.append(f)
            if f['kind'] in ('KILL', 'POWER') and op != 'write':
                self._crash(f['kind'])
        return f

    def _crash(self, kind):
        self.dead = True
        self.crash_kind = kind
        raise SimCrash(kind)

    # -- opening -------------------------------------------------------------
    def _mine(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        d = os.path.realpath(os.path.dirname(p))
        full = os.path.join(d, os.path.basename(p))
        if full == self.root or full.startswith(self.root + os.sep):
            return full
        return None

    def _mine_fd(self, fd):
        try:
            p = os.readlink('/proc/self/fd/{}'.format(int(fd)))
        except OSError:
            return None
        return p if p.startswith(self.root + os.sep) else None

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            path = self._mine_fd(file)
        else:
            path = self._mine(file)
        if path is None:
            return _real_io_open(file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        f = self._op('open', path)
        if f is not None and f['kind'] in _ERR and \
                (writing or f['kind'] in ('EIO', 'EACCES', 'EMFILE')):
            raise _oserror(f['kind'], path)
        if writing and not self.dead:
            self._note_before(path)
        rawmode = mode.replace('b', '').replace('t', '')
        raw = io.FileIO(file, rawmode, closefd, opener)
        fr = FaultRaw(self, raw, path)
        try:
            if buffering == 0:
                if 'b' not in mode:
                    raise ValueError("can't have unbuffered text I/O")
                return fr
            size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
            if '+' in mode:
                buf = io.BufferedRandom(fr, size)
            elif writing:
                buf = io.BufferedWriter(fr, size)
            else:
                buf = io.BufferedReader(fr, size)
            if 'b' in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline,
                                 line_buffering=(buffering == 1))
            t.mode = mode
            return t
        except BaseException:
            fr.close()
            raise

    def _note_before(self, path):
        if path not in self.unsynced:
            self.unsynced[path] = self._contents(path)

    @staticmethod
    def _contents(path):
        try:
            fd = os.open(path, os.O_RDONLY)
        except OSError:
            return None
        try:
            out = b''
            while True:
                c = os.read(fd, 1 << 20)
                if not c:
                    return out
                out += c
        finally:
            os.close(fd)

    # -- os functions ----------------------------------------------------------
    def _wrap_path_fn(self, name, op, two):
        real = _real[name]

        def fn(a, *rest, **kw):
            pa = self._mine(a) if not isinstance(a, int) else self._mine_fd(a)
            if pa is None:
                return real(a, *rest, **kw)
            f = self._op(op, pa)
            if self.dead:
                return None
            if f is not None and f['kind'] in _ERR:
                raise _oserror(f['kind'], pa)
            if two:
                pb = self._mine(rest[0])
                if pb is not None:
                    self._note_before(pb)
            r = real(a, *rest, **kw)
            if name == 'fsync':
                self.unsynced.pop(pa, None)
            if two:
                if pa not in self.unsynced and pb is not None:
                    self.unsynced.pop(pb, None)
                self.unsynced.pop(pa, None)
            return r
        return fn

    def __enter__(self):
        self._saved = (io.open, builtins.open,
                       {n: getattr(os, n) for n in _real})
        io.open = self.open
        builtins.open = self.open
        for n, op, two in (('replace', 'rename', True),
                           ('rename', 'rename', True),
                           ('remove', 'remove', False),
                           ('unlink', 'remove', False),
                           ('fsync', 'sync', False),
                           ('truncate', 'truncate', False),
                           ('ftruncate', 'truncate', False)):
            setattr(os, n, self._wrap_path_fn(n, op, two))

        def fdopen(fd, mode='r', buffering=-1, *a, **k):
            return self.open(fd, mode, buffering, *a, **k)
        os.fdopen = fdopen
        return self

    def __exit__(self, *a):
        io.open, builtins.open = self._saved[0], self._saved[1]
        for n, f in self._saved[2].items():
            setattr(os, n, f)

    # -- what a crash leaves behind ---------------------------------------------
    def after_crash(self, seed):
        """The machine restarts: apply the losses, forget the dead process."""
        if getattr(self, 'crash_kind', None) == 'POWER':
            rng = random.Random(seed)
            for path, before in sorted(self.unsynced.items()):
                now = self._contents(path)
                how = rng.choice(['old', 'lost', 'lost', 'short', 'both',
                                  'kept', 'empty'])
                if how == 'old':
                    now = before
                elif now is not None and how == 'empty':
                    now = b''
                elif now is not None and how != 'kept':
                    a = bytearray(now)
                    if how in ('short', 'both'):
                        cut = rng.randrange(len(a) + 1)
                        if rng.random() < .7:
                            cut -= cut % SECTOR
                        del a[cut:]
                    if how in ('lost', 'both'):
                        p = rng.choice([.05, .3, .7])
                        for s in range(0, len(a), SECTOR):
                            if rng.random() < p:
                                e = min(len(a), s + SECTOR)
                                a[s:e] = bytes(e - s)
                    now = bytes(a)
                self.log.append(('disk', 'power', os.path.basename(path), how))
                self.stats['fault:power-' + how] = \
                    self.stats.get('fault:power-' + how, 0) + 1
                self.put(path, now)
        self.unsynced = {}
        self.dead = False
        self.full = False
        self.plan = {}

    @staticmethod
    def put(path, data):
        if data is None:
            if os.path.exists(path):
                _real['unlink'](path)
            return
        with _real_io_open(path, 'wb') as f:
            f.write(data)

    def get(self, path):
        return self._contents(path)


def damage(data, spec):
    """Damage at rest.  spec: {"kind", "a", "b", "c"} with fractions in [0,1)."""
    a = bytearray(data)
    n = len(a)
    if n == 0:
        return bytes(a)
    k = spec['kind']
    i = int(spec.get('a', 0) * n)
    j = int(spec.get('b', 0) * n)
    c = spec.get('c', 0)
    if k == 'bitflip':
        a[i] ^= 1 << (c % 8)
    elif k == 'zero_sector':
        s = i - i % SECTOR
        a[s:min(n, s + SECTOR)] = bytes(min(n, s + SECTOR) - s)
    elif k == 'truncate':
        del a[i:]
    elif k == 'cut_tail':
        del a[n - 1 - c % min(n, 64):]
    elif k == 'append':
        a += bytes((c * 7 + t) % 256 for t in range(1 + c % 97))
    elif k == 'prepend':
        a = bytearray((c * 5 + t) % 256 for t in range(1 + c % 97)) + a
    elif k == 'drop':
        del a[i:min(n, i + 1 + c % 40)]
    elif k == 'dup':
        a[i:i] = a[i:min(n, i + 1 + c % 40)]
    elif k == 'swap':
        s, t = i - i % SECTOR, j - j % SECTOR
        x, y = bytes(a[s:s + SECTOR]), bytes(a[t:t + SECTOR])
        if len(x) == len(y):
            a[s:s + SECTOR], a[t:t + SECTOR] = y, x
    elif k == 'empty':
        a = bytearray()
    elif k == 'garbage':
        r = random.Random(c)
        a = bytearray(r.randrange(256) for _ in range(min(n, 600)))
    else:
        raise ValueError(k)
    return bytes(a)


DAMAGE = ['bitflip', 'bitflip', 'bitflip', 'zero_sector', 'truncate',
          'cut_tail', 'append', 'prepend', 'drop', 'dup', 'swap', 'empty',
          'garbage']
