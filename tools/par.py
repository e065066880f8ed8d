#!/usr/bin/env python3-vt
"""development: verify the functions whose names contain the given texts, in parallel; prints failures only   par.py TEXT.. [--slow=S]"""
import sys, os, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
B = check.load()
texts = [a for a in sys.argv[1:] if not a.startswith("--")]
slow = float(next((a[7:] for a in sys.argv if a.startswith("--slow=")), 4))
n = int(next((a[4:] for a in sys.argv if a.startswith("--n=")), 1))
quals = [q for q in B.REG if any(q.endswith(t[1:]) if t.startswith("=") else t in q for t in texts) and not B.REG[q].trusted]
specs = []
for q in quals:
    p = max(n, getattr(B.REG[q], "parts", 1))
    for s in check.expand(B, [q]):
        if s[3][0] == 0:
            specs += [(s[0], s[1], s[2], (i, p), None, None) for i in range(p)]
t = time.time()
tot = bad = 0
with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
    for s, r in pool.imap_unordered(check.job, specs):
        if r["unsupported"]: print("UNSUPPORTED", s[3], s[0], s[1], r["unsupported"], r.get("traceback", "")[-600:])
        if r.get("vacuous"): print("VACUOUS", s)
        for o in r["obligations"]:
            tot += 1
            if o["status"] != "proved":
                bad += 1
                print("FAILED L%d %s | %s" % (o["line"], o["name"], (o.get("detail") or "")[-160:].replace("\n", " ")))
            elif o["seconds"] > slow: print("slow %.1f %s L%d %s" % (o["seconds"], o["solver"], o["line"], o["name"]))
print("obligations", tot, "failed", bad, "%.0f s" % (time.time() - t))
