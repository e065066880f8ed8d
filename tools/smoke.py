#!/usr/bin/env python3-vt
"""development: look for inconsistent hypotheses in the obligations of one function"""
import sys, importlib, glob, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyver.program import Program
from pyver import driver, solve
from pyver.theory import reset_fresh
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__), "*.py"))):
    n = os.path.basename(f)[:-3]
    if not n.startswith("_"):
        importlib.import_module("contracts." + n)
prog = Program()
for q in B.REG:
    if len(sys.argv) > 1 and sys.argv[1] not in q: continue
    ct = B.REG[q]
    if ct.trusted: continue
    for r in ([sys.argv[2]] if len(sys.argv) > 2 else (ct.receivers or [None])):
        for v in ct.variants:
            reset_fresh()
            try: eng = driver.generate(prog, B.REG, B.CLASSES, q, r, v)
            except Exception as e: print(q, r, "ERR", e); continue
            seen, bad = set(), []
            for ob in eng.obls:
                if ob.kind in ("exception", "raise"): continue
                key = tuple(f.get_id() for f in ob.facts)
                if key in seen: continue
                seen.add(key)
                o = driver.S
                class O: pass
                x = O(); x.facts = ob.facts; x.goal = z3.BoolVal(False)
                res = solve.discharge(x, stages=[("z3", 1500, {"auto_config": False, "mbqi": False})])
                if res["status"] == "proved": bad.append(ob.name)
            print(q, r, "paths", len(seen), "INCONSISTENT" if bad else "ok", bad)
