"""What an operation does when it is the only one in the program.

A server process is forked from the run before the run has used the package;
it answers every request in a child of its own, which is forked from that
pristine state too.  So nothing that any object, class or module of the package
remembers from other operations can reach an answer."""

import ctypes
import os
import pickle
import signal
import struct

from . import model as M
from . import ops as O
from .core import Violation

_SERVER = None


def _die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
    except Exception:
        pass


def _recv(fd):
    head = b''
    while len(head) < 8:
        c = os.read(fd, 8 - len(head))
        if not c:
            return None
        head += c
    n = struct.unpack('<q', head)[0]
    out = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        out.append(c)
        n -= len(c)
    return b''.join(out)


def _send(fd, data):
    data = struct.pack('<q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _answer(req):
    kind, spec = req[0], req[1]
    if kind == 'probe':
        return O.probe(M.build(spec), spec, req[2], req[3])
    if kind == 'op':
        return O.alone_here(spec, req[2])
    if kind == 'call':
        import importlib
        return getattr(importlib.import_module(req[1]), req[2])(*req[3])
    raise ValueError(kind)


class Server:
    def __init__(self):
        from .harness import in_child
        self.memo = {}
        self.asked = 0
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                _die_with_parent()
                os.close(self.w)
                os.close(self.r)
                while True:
                    data = _recv(a)
                    if data is None:
                        break
                    req = pickle.loads(data)

                    def one():
                        _die_with_parent()
                        return _answer(req)
                    try:
                        ans = ('ok', in_child(one))
                    except Violation as e:
                        ans = ('violation', e.kind, str(e.msg))
                    except BaseException as e:
                        ans = ('error', repr(e))
                    _send(b, pickle.dumps(ans))
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def ask(self, req):
        key = pickle.dumps(req)
        if key not in self.memo:
            self.asked += 1
            _send(self.w, pickle.dumps(req))
            data = _recv(self.r)
            if data is None:
                raise RuntimeError('the oracle server died')
            self.memo[key] = pickle.loads(data)
        ans = self.memo[key]
        if ans[0] == 'violation':
            raise Violation(ans[1], ans[2])
        if ans[0] == 'error':
            raise RuntimeError('oracle: ' + ans[1])
        return ans[1]


def start():
    """To be called before the run has used the package."""
    global _SERVER
    _SERVER = Server()


def probe(spec, seed=1, deep=True):
    """O.probe of a freshly built pattern."""
    if _SERVER is None:
        return O.probe(M.build(spec), spec, seed, deep)
    return _SERVER.ask(['probe', spec, seed, deep])


def op(spec, op):
    """The outcome of one operation on a freshly built pattern."""
    if _SERVER is None:
        return O.alone_here(spec, op)
    return _SERVER.ask(['op', spec, op])


def call(module, name, *args):
    """A function of a harness module with picklable arguments."""
    if _SERVER is None:
        return _answer(['call', module, name, list(args)])
    return _SERVER.ask(['call', module, name, list(args)])


def asked():
    return _SERVER.asked if _SERVER else 0
