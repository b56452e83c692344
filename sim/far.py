"""The same package in another process: started anew, with other hash values of
strings, other addresses, an empty history and another working directory.

Each worker has one such process; every request is answered in a child forked
from its pristine state."""

import os
import pickle
import subprocess
import sys

from .core import Violation

_FAR = None
HASHSEED = '4242'


class Far:
    def __init__(self):
        from .harness import VERIF
        self.pid = os.getpid()
        env = dict(os.environ, PYTHONHASHSEED=HASHSEED)
        self.proc = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c',
             'import sys; sys.path.insert(0, {!r}); '
             'from sim import far; far.serve()'.format(VERIF)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
        self.w = self.proc.stdin.fileno()
        self.r = self.proc.stdout.fileno()

    def ask(self, req):
        from .oracle import _recv, _send
        mine = os.urandom(8)
        _send(self.w, pickle.dumps((mine, req)))
        while True:
            data = _recv(self.r)
            if data is None:
                raise RuntimeError('the other process died')
            key, ans = pickle.loads(data)
            if key == mine:     # else: asked by a run that was ended
                break
        if ans[0] == 'violation':
            raise Violation(ans[1], ans[2])
        if ans[0] == 'error':
            raise RuntimeError('other process: ' + ans[1])
        return ans[1]


def start():
    """In the worker, before it forks a run."""
    global _FAR
    if _FAR is None or _FAR.pid != os.getpid():
        _FAR = Far()


def stop():
    """A run was ended, perhaps while it was asking."""
    global _FAR
    if _FAR is not None and _FAR.pid == os.getpid():
        _FAR.proc.kill()
        _FAR.proc.wait()
        _FAR = None


def call(module, name, *args):
    """A function of a harness module, called in the other process."""
    return _FAR.ask((module, name, args))


def serve():
    from . import oracle
    from .harness import in_child, load_package
    import importlib
    import warnings
    oracle._die_with_parent()
    r = os.dup(0)
    w = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(2, 1)
    load_package()
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    while True:
        data = oracle._recv(r)
        if data is None:
            os._exit(0)
        key, (module, name, args) = pickle.loads(data)

        def one():
            oracle._die_with_parent()
            return getattr(importlib.import_module(module), name)(*args)
        try:
            ans = ('ok', in_child(one))
        except Violation as e:
            ans = ('violation', e.kind, str(e.msg))
        except BaseException as e:
            ans = ('error', repr(e))
        oracle._send(w, pickle.dumps((key, ans)))
