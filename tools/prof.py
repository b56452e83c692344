"""prof.py C07 [n]: time and profile the first runs of a check, without forks."""
import os, sys, time, cProfile, pstats, tempfile, random
os.environ.update(OPENBLAS_NUM_THREADS='1')
sys.path.insert(0, '/verif')
from sim import harness as H
H.load_package()
prop = H.prop_module(sys.argv[1])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
t = time.time()
for i in range(n):
    sc = H.make_scenario(prop, 1, i)
    r = H.run_forked(prop, sc)
print('forked', (time.time() - t) / n)
pr = cProfile.Profile()
d = tempfile.mkdtemp()
t = time.time()
pr.enable()
for i in range(n):
    sc = H.make_scenario(prop, 1, i)
    r = H.execute(prop, sc, d)
pr.disable()
print('inline+profile', (time.time() - t) / n)
pstats.Stats(pr).sort_stats('cumtime').print_stats(28)
