#!/usr/bin/env python3-vt
"""writes loopforms.json: for every function under contract the loops its invariants were written for (nesting, kind, item type).
check.py compares: where the current source has other loops, a failed obligation says nothing about the code (the annotation does
not fit it), and the function counts as bounded."""
import sys, os, json, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
B = check.load()
from pyver import driver
from pyver.program import Program


def one(s):
    return driver.verify(Program(check.REPO), B.REG, B.CLASSES, s[0], s[1], B.REG[s[0]].variants[s[2]], part=(0, 1), only="no such obligation")


if __name__ == "__main__":
    specs = [s for q in B.REG if not B.REG[q].trusted for s in check.expand(B, [q]) if s[3][0] == 0]
    out = {}
    with mp.get_context("fork").Pool(8) as pool:
        for r in pool.imap_unordered(one, specs):
            if r["unsupported"]:
                continue
            out.setdefault(r["function"], {})["%s|%s" % (r["receiver"], r["variant"])] = r["loops"]
    json.dump(out, open(os.path.join(H, "loopforms.json"), "w"), indent=0, sort_keys=True)
    print(len(out), "functions")
