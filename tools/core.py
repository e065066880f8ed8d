"""core.py QUAL TEXT [variant] [n]: which facts of an obligation contradict each other, if any (with cvc5/z3)"""
import sys, importlib, glob, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyver.program import Program
from pyver import driver, solve
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__), "*.py"))):
    n = os.path.basename(f)[:-3]
    if not n.startswith("_"):
        importlib.import_module("contracts." + n)
q = sys.argv[1]
ct = B.REG[q]
r = (ct.receivers or [None])[0]
vi = int(sys.argv[3]) if len(sys.argv) > 3 else 0
eng = driver.generate(Program(), B.REG, B.CLASSES, q, r, ct.variants[vi])
obs = [o for o in eng.obls if sys.argv[2] in o.name]
print(len(obs))
z3.set_option(max_depth=40, max_lines=2000, max_width=200)
def bad(fs):
    bg = [f for _, f in solve.background(fs)]
    r = solve.z3_try(bg + fs, 1500, auto_config=False, mbqi=False)[0]
    if r == "unsat": return True
    r = solve.z3_try(bg + fs, 1500)[0]
    if r == "unsat": return True
    return solve.cvc5_try(bg + fs, 4)[0] == "unsat"
for o in obs[:int(sys.argv[4]) if len(sys.argv) > 4 else 3]:
    fs = solve.dedupe(o.facts)
    b = bad(fs)
    print(o.name, "facts contradictory:", b)
    if b:
        # shrink by halves
        i, step = 0, max(1, len(fs) // 2)
        while step >= 1:
            i = 0
            while i < len(fs):
                t = fs[:i] + fs[i+step:]
                if bad(t): fs = t
                else: i += step
            step //= 2
        for f in fs: print("  *", f)
        break
