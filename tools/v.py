#!/usr/bin/env python3-vt
"""development: verify one function   v.py QUAL [receiver] [--only TEXT]"""
import sys, importlib, glob, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyver.program import Program
from pyver import driver
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__), "*.py"))):
    n = os.path.basename(f)[:-3]
    if not n.startswith("_"):
        importlib.import_module("contracts." + n)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
only = next((a[7:] for a in sys.argv if a.startswith("--only=")), None)
prog = Program()
for q in [q for q in B.REG if args[0] in q] if args[0].startswith(".") or len(args[0].split(".")) < 3 else [args[0]]:
    ct = B.REG[q]
    if ct.trusted: continue
    for r in ([args[1]] if len(args) > 1 else (ct.receivers or [None])):
        for v in ct.variants:
            t = time.time()
            res = driver.verify(prog, B.REG, B.CLASSES, q, r, v, verbose="--q" not in sys.argv, only=only)
            bad = [o for o in res["obligations"] if o["status"] != "proved"]
            print("==", q, r, v and ct.variant_name(v), "obls", len(res["obligations"]), "failed", len(bad), "unsupported", res["unsupported"], "vac", res.get("vacuous"), "ret", res.get("nret"), "%.1fs gen %.1f" % (time.time() - t, res["gen_s"]))
            if res.get("traceback"): print(res["traceback"])
            for o in bad: print("   FAILED", o["name"], o.get("detail"))
