"""C21: using the package neither changes nor depends on the settings of the
process."""

import gc
import importlib
import os
import random
import sys
import tempfile
import warnings

import numpy as np

from .. import core
from ..core import Violation
from . import c20

ID = 'C21'
ISOLATED = True
FAR = True
RUNS = {'quick': 2000, 'thorough': 60000}
MIN_RUNS = 400
RULE = ('a run is a history of another property (operations, saves and loads on '
        'the simulated disk, optimisations, registrations; with failures, '
        'interrupts, kills and threads) in a process with settings of its own; '
        'the settings are compared afterwards and at every callback, the '
        'results with those of processes with ordinary settings; non-trivial '
        'if the history was non-trivial for its own property; distinct by '
        'event log')
COVER = 'property of the history x what it covered'
REAL = 'paragami, autograd, numpy, scipy, zipfile, the files of the scratch directory'
STUB = ('caller threads, objectives and callbacks that fail, disk (fault layer '
        'over real files), process kill, power, clock')

INNER = ['c01', 'c03', 'c04', 'c05', 'c06', 'c07', 'c07', 'c08', 'c08', 'c08',
         'c09', 'c10', 'c11', 'c12', 'c12', 'c13', 'c13', 'c14', 'c14', 'c15',
         'c16', 'c17', 'c18', 'c18', 'c19', 'c19']
# Their own histories draw random values.
DRAWS = ('c06', 'c09', 'c17')


def inner(name):
    return importlib.import_module('sim.props.' + name)


def generate(rng):
    name = rng.choice(INNER)
    sc = inner(name).generate(rng)
    sc['of'] = name
    sc['settings'] = rng.randrange(2 ** 31)
    return sc


def settings(seed):
    c20.settings(seed, ('ignore', 'warn', 'call'))
    r = random.Random(seed + 1)
    if r.random() < .5:
        np.set_printoptions(formatter={'float': lambda x: 'x', 'int': lambda x: 'i',
                                       'bool': lambda x: 'b'})
    np.set_printoptions(edgeitems=r.randint(1, 3), sign=r.choice('-+ '),
                        floatmode=r.choice(['fixed', 'maxprec', 'unique']),
                        threshold=r.choice([0, 3, 100]))
    warnings.simplefilter(r.choice(['ignore', 'always', 'once']), append=True)


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out


def light():
    """What can be looked at often."""
    s = np.random.get_state(legacy=False)['state']
    return {'numpy errors': (np.geterr(), id(np.geterrcall())),
            'numpy random state': (s['pos'], s['key'][:3].tobytes(),
                                   s['key'][-3:].tobytes()),
            'random state': hash(random.getstate()),
            'print options': tuple(sorted(
                (k, str(v)) for k, v in np.get_printoptions().items())),
            'buffer size': np.getbufsize(),
            'warning filters': tuple(warnings.filters),
            'showwarning': id(warnings.showwarning),
            'recursion limit': sys.getrecursionlimit(),
            'directory': os.getcwd(),
            'environment': len(os.environ),
            'gc': (gc.isenabled(), gc.get_threshold()),
            'switch interval': sys.getswitchinterval()}


def execute(sc, ctx):
    name = sc['of']
    mod = inner(name)
    draws = name in DRAWS
    settings(sc['settings'])
    before, now = c20.state(), light()
    if draws:
        for k in [k for k in now if k == 'numpy random state']:
            del now[k]
        del before['numpy random state']
    pid, seen, changed = os.getpid(), [0], []

    def watch(site):
        if os.getpid() != pid or changed:
            return
        seen[0] += 1
        l = light()
        for k, v in now.items():
            if k == 'directory':
                v = ctx.directory or v
            if l[k] != v:
                changed.append('history of {}: at {} the {} of the process '
                               'changed: {} and {}'.format(
                                   name, site, k, str(v)[:300], str(l[k])[:300]))
    open_before = fds()
    core.OBSERVER.append(watch)
    try:
        mod.execute(sc, ctx)
    finally:
        core.OBSERVER.remove(watch)
        if changed:
            raise Violation('during', changed[0])
    before['directory'] = ctx.directory or before['directory']
    c20.compare(before, 'history of ' + name)
    c20.rules([(), ()], 'history of ' + name)
    if not any(k.startswith('fault:') and ('KILL' in k or 'POWER' in k or
                                           'kill' in k) for k in ctx.stats):
        gc.collect()
        left = {k: v for k, v in fds().items()
                if k not in open_before and ctx_path(ctx, v)}
        if left:
            raise Violation('files', 'history of {}: still open: {}'.format(
                name, left))
    ctx.cover[:] = ['{}/{}'.format(name, c) for c in ctx.cover]
    ctx.count('observed callbacks', seen[0])


def ctx_path(ctx, path):
    return path.startswith(tempfile.gettempdir()) and '/pgv-' in path
