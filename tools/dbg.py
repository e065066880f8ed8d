"""dbg.py QUAL TEXT: dump facts of one obligation"""
import sys, importlib, glob, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyver.program import Program
from pyver import driver, solve
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__), "*.py"))):
    n = os.path.basename(f)[:-3]
    if not n.startswith("_"):
        importlib.import_module("contracts." + n)
q = sys.argv[1]
ct = B.REG[q]
r = (ct.receivers or [None])[0]
vi = int(sys.argv[3]) if len(sys.argv) > 3 else 0
eng = driver.generate(Program(), B.REG, B.CLASSES, q, r, ct.variants[vi])
obs = [o for o in eng.obls if sys.argv[2] in o.name]
print(len(obs), "obligations")
o = obs[int(os.environ.get("OI", 0))]
z3.set_option(max_depth=40, max_lines=2000, max_width=200)
for i, f in enumerate(o.facts):
    print("[%d]" % i, f)
print("GOAL", o.goal)
import time
print("----- which facts can go")
def ok(fs):
    ob = type("O", (), {"facts": fs, "goal": o.goal})
    t = time.time()
    r = solve.z3_try(solve.build(ob), 3000, auto_config=False, mbqi=False)
    return r[0], round(time.time() - t, 2)
fs = solve.dedupe(o.facts)
print("all", ok(fs), len(fs))
for i in range(len(fs)):
    print(i, ok(fs[:i] + fs[i+1:]))
