"""audit.py [TEXT]: tries to derive a contradiction from the facts of every kind of obligation (dead paths are expected, contradictory axioms are not)"""
import sys, importlib, glob, os, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyver.program import Program
from pyver import driver, solve
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__), "*.py"))):
    n = os.path.basename(f)[:-3]
    if not n.startswith("_"):
        importlib.import_module("contracts." + n)
txt = sys.argv[1] if len(sys.argv) > 1 else ""
def job(a):
    q, r, vi = a
    ct = B.REG[q]
    out = []
    try:
        driver.reset_fresh()
        eng = driver.generate(Program(), B.REG, B.CLASSES, q, r, ct.variants[vi])
    except Exception as e:
        return a, str(e), []
    seen = set()
    for o in eng.obls:
        k = (o.line, o.kind, len(o.facts) // 10)
        if k in seen: continue
        seen.add(k)
        fs = solve.dedupe(o.facts)
        fs = [f for _, f in solve.background(fs)] + fs
        z = solve.z3_try(fs, 700)[0]
        c = solve.cvc5_try(fs, 3)[0] if z != "unsat" else "-"
        if "unsat" in (z, c): out.append((o.name, o.line, z, c))
    return a, len(seen), out
jobs = [(q, r, vi) for q in B.REG if txt in q and not B.REG[q].trusted for r in (B.REG[q].receivers or (None,))[:1] for vi in range(len(B.REG[q].variants))]
with mp.get_context("fork").Pool(7) as p:
    for a, n, out in p.imap_unordered(job, jobs):
        print(a, n, "contradictory:", len(out), flush=True)
        for o in out: print("    ", o, flush=True)
