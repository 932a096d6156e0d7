#!/opt/venv/bin/python
"""prof.py PROP SCENARIO [paths] [tier]: explore single-process; where time goes and where paths fork."""
import cProfile, collections, os, pstats, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symx import runner
runner.setup_imports(True, sys.argv[1])
sys.setrecursionlimit(20000)
from symx import engine as E
prop, name = sys.argv[1:3]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 200
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
mod = runner.load(prop)
scen = [x for x in mod.scenarios(tier) if x["name"] == name][0]
eng = E.Engine()
eng.step_limit = scen.get("step_limit", 400_000)
forks = collections.Counter()
ob = E.Engine.branch
def branch(self, t):
    n = len(self.alts)
    r = ob(self, t)
    if len(self.alts) > n:
        st = [f for f in traceback.extract_stack(limit=40)[:-1] if '/symx/' not in f.filename]
        f = st[-1]
        forks["%s:%d %s" % (f.filename.split('/verif/')[-1].split('/repo/')[-1], f.lineno, (f.line or '')[:70])] += 1
    return r
E.Engine.branch = branch
stack = [[]]
import random
random.seed(1)
pr = cProfile.Profile()
t = time.time(); n = 0
kinds = collections.Counter()
pr.enable()
while stack and n < N:
    pre = stack.pop(random.randrange(len(stack)) if len(sys.argv) > 5 else -1)
    k, p = runner.run_path(eng, scen, pre)
    kinds[k] += 1
    if k not in ("ok", "abort"): print(k, p, eng.failures[:2])
    stack.extend(eng.alts); n += 1
pr.disable()
print(n, "paths", time.time() - t, "s; left", len(stack), dict(kinds))
for k, v in forks.most_common(25): print(v, k)
pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
