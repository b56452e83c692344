#!/usr/bin/env python3
"""check.py run C01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
check.py replay FILE          re-execute a replay file (exit 1 if it reproduces)
check.py one C01 INDEX        show and run one scenario
check.py doctor               set-up check: imports, determinism of every check
"""

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
        'PYTHONDONTWRITEBYTECODE': '1'}


def reexec():
    env = dict(os.environ)
    if os.environ.get('PGV_CHILD') == '1':
        return
    for k, v in WANT.items():
        env[k] = v
    if 'PGV_HASHSEED' in os.environ:
        env['PYTHONHASHSEED'] = os.environ['PGV_HASHSEED']
    for k in ('PYTHONPYCACHEPREFIX', 'PYTHONPATH', 'PYTHONSTARTUP',
              'PYTHONOPTIMIZE', 'PYTHONWARNINGS', 'PYTHONMALLOC'):
        env.pop(k, None)
    env['PGV_CHILD'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore'] + sys.argv, env)


IDS = ['C%02d' % i for i in range(1, 19)]


def arg(name, default=None):
    if name in sys.argv:
        return sys.argv[sys.argv.index(name) + 1]
    return default


def have(pid):
    return os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py'))


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('KNOWN property=' + pid + ' '):
                out.append(line)
    except OSError:
        pass
    return out


def cmd_run(pid):
    from sim import harness as H
    t0 = time.monotonic()
    tier = arg('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(arg('--seed') or os.environ.get('VERIF_SEED') or 1)
    H.load_package()
    prop = H.prop_module(pid)
    count = int(arg('--runs') or prop.RUNS[tier])
    wall = float(arg('--wall') or (600 if tier == 'quick' else 5400))
    workers = int(arg('--workers') or min(8, os.cpu_count() or 1))
    out = H.search(prop, seed, count, tier, wall, workers)
    tot = out['tot']
    code = 0
    replay = None
    mini = None
    if out['violations']:
        code = 2
        for v in out['violations'][:3]:
            budget = float(arg('--minimise') or 60)
            tries = [(v['scenario'], v['res'], None)]
            if not v['res'].get('hang'):
                m = H.Minimiser(prop, v['scenario'], v['res']['kind'], budget)
                if m.run():
                    tries.insert(0, (m.sc, m.res, {'tries': m.tries}))
            for sc, res, mini in tries:
                replay = write_replay(pid, seed, v['index'], sc, res)
                if replays(replay):
                    code = 1
                    break
            if code == 1:
                break
        if code == 2:
            print('ERROR: the replay file does not reproduce the violation')
            print(res['kind'], res['msg'])
    elif out['errors']:
        code = 2
    elif tot['runs'] < min(count, prop.MIN_RUNS):
        print('ERROR: only {} of {} runs in the time allowed'.format(
            tot['runs'], count))
        code = 2
    wall_s = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(tot['stats'].items())
              if k.startswith('fault:')}
    other = {k: v for k, v in sorted(tot['stats'].items())
             if not k.startswith('fault:')}
    hours = max(wall_s, 1e-9) / 3600
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': out['nontrivial'],
            'rule': prop.RULE,
            'samples': [s for s in out['samples'][:3]] or
                       [{'index': v['index']} for v in out['violations'][:1]],
            'runs_completed': tot['ok'],
            'runs_per_hour_each_with_its_own_seed': round(tot['runs'] / hours),
            'simulated_seconds': round(tot['sim_s'], 3),
            'faults_injected': faults,
            'counts': other,
            'distinct_event_logs': out['distinct'],
            'distinct_interleavings': len(out['trails']),
            'interleaving_measure':
                'hash of the sequence of (thread, code site, next thread) of '
                'all preemptions of a run',
            'states_reached': len(out['cover']),
            'state_measure': prop.COVER,
            'rechecked_for_determinism': tot['rechecked'],
            'real_components': prop.REAL,
            'stub_components': prop.STUB,
            'errors': out['errors'][:5],
            'violations': [{'index': v['index'], 'kind': v['res']['kind'],
                            'msg': v['res']['msg'][:500]}
                           for v in out['violations']],
            'minimised': mini,
        },
        'wall_s': round(wall_s, 2),
    }
    path = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
    print('{} {}: {} runs ({} distinct, {} states, {} interleavings), '
          '{} faults, {:.1f}s'.format(
              pid, tier, tot['runs'], out['nontrivial'], len(out['cover']),
              len(out['trails']), sum(faults.values()), wall_s))
    for e in out['errors'][:5]:
        print('ERROR in run {}: {}'.format(e['index'], e['msg'][-3000:]))
    for line in known_findings(pid):
        print('KNOWN-FINDING: ' + line[6:])
    if code == 1:
        print('{}: {}'.format(res['kind'], res['msg'][:1500]))
        print('VIOLATION property={} replay={}'.format(pid, replay))
    return code


def write_replay(pid, seed, index, sc, res):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    replay = os.path.join(HERE, 'replays', '{}-seed{}-{}.json'.format(
        pid, seed, index))
    with open(replay, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'index': index,
                   'kind': res['kind'], 'msg': res['msg'],
                   'hash': res.get('hash'), 'scenario': sc}, f, indent=1)
    return replay


def replays(path):
    import subprocess
    env = dict(os.environ)
    env.pop('PGV_CHILD', None)
    return subprocess.run(
        [sys.executable, os.path.join(HERE, 'check.py'), 'replay', path],
        env=env, stdout=subprocess.DEVNULL).returncode == 1


def cmd_replay(path):
    from sim import harness as H
    with open(path) as f:
        rec = json.load(f)
    H.load_package()
    prop = H.prop_module(rec['property'])
    res = H.run_forked(prop, rec['scenario'])
    again = res if res.get('hang') else H.run_forked(prop, rec['scenario'])
    if res.get('hang'):
        res = again = H.stuck(res)
    if res['status'] == 'violation':
        print('{}: {}'.format(res['kind'], res['msg']))
        same = res['kind'] == rec['kind']
        exact = res.get('hash') == rec.get('hash') == again.get('hash')
        print('reproduced: {}; event log identical: {}'.format(same, exact))
        if same:
            print('VIOLATION property={} replay={}'.format(
                rec['property'], path))
            return 1
        return 2
    print(res['status'], res.get('msg', ''))
    return 0 if res['status'] == 'ok' else 2


def cmd_one(pid, index):
    from sim import harness as H
    H.load_package()
    prop = H.prop_module(pid)
    sc = H.make_scenario(prop, int(arg('--seed') or 1), index)
    print(json.dumps(sc))
    res = H.run_forked(prop, sc)
    res.pop('recorded', None)
    print(json.dumps(res, indent=1))
    return 0


def cmd_doctor():
    """Every check: a few runs, executed twice, must be identical."""
    from sim import harness as H
    H.load_package()
    n = int(arg('--runs') or 6)
    bad = 0
    for pid in IDS:
        if not have(pid):
            continue
        prop = H.prop_module(pid)
        for i in range(n):
            sc = H.make_scenario(prop, 1, i)
            a = H.run_forked(prop, sc)
            b = H.run_forked(prop, json.loads(json.dumps(sc)))
            if a.get('hash') != b.get('hash') or a['status'] == 'error':
                print(pid, i, 'not repeatable', a.get('status'), a.get('msg'))
                bad += 1
    print('doctor: ok' if not bad else 'doctor: %d problems' % bad)
    return 1 if bad else 0


def cmd_hashes(pid):
    """Event-log hash of the first runs: must not depend on the environment."""
    from sim import harness as H
    H.load_package()
    prop = H.prop_module(pid)
    for i in range(int(arg('--runs') or 20)):
        sc = H.make_scenario(prop, int(arg('--seed') or 1), i)
        r = H.run_forked(prop, sc)
        print(pid, i, r['status'], r.get('hash'))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    sys.path.insert(0, HERE)
    cmd = sys.argv[1]
    if cmd == 'run':
        return cmd_run(sys.argv[2])
    if cmd == 'replay':
        return cmd_replay(sys.argv[2])
    if cmd == 'one':
        return cmd_one(sys.argv[2], int(sys.argv[3]))
    if cmd == 'doctor':
        return cmd_doctor()
    if cmd == 'hashes':
        return cmd_hashes(sys.argv[2])
    print(__doc__)
    return 2


if __name__ == '__main__':
    reexec()
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
