#!/usr/bin/env python3-vt
"""mut.py QUAL [--max=N]: mutate the function in a scratch copy and report mutants that every obligation still accepts"""
import ast, copy, os, sys, shutil, subprocess, tempfile, random, importlib, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(fn):
    """yields (description, mutated function node)"""
    nodes = list(ast.walk(fn))
    def clone(i):
        c = copy.deepcopy(fn)
        return c, list(ast.walk(c))[i]
    for i, n in enumerate(nodes):
        L = getattr(n, "lineno", "?")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alts = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.LtE], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for a in alts.get(type(n.ops[0]), []):
                c, m = clone(i); m.ops = [a()]; yield "L%s %s -> %s" % (L, ast.unparse(n), ast.unparse(m)), c
        if isinstance(n, ast.BoolOp):
            c, m = clone(i); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield "L%s boolop %s" % (L, ast.unparse(m)), c
            for k in range(len(n.values)):
                c, m = clone(i); del m.values[k]; 
                if m.values: 
                    if len(m.values) == 1: m.values.append(ast.Constant(isinstance(n.op, ast.And)))
                    yield "L%s drop operand -> %s" % (L, ast.unparse(m)), c
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c, m = clone(i); m.op = ast.Not(); m.operand = ast.UnaryOp(ast.Not(), m.operand); yield "L%s un-not %s" % (L, ast.unparse(n)), c
        if isinstance(n, (ast.If, ast.While)):
            c, m = clone(i); m.test = ast.UnaryOp(ast.Not(), m.test); yield "L%s negate %s" % (L, ast.unparse(n.test)), c
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            c, m = clone(i); m.value = not n.value; yield "L%s const %s" % (L, m.value), c
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            for d in (1, -1):
                c, m = clone(i); m.value = n.value + d; yield "L%s const %s -> %s" % (L, n.value, m.value), c
        if isinstance(n, ast.BinOp):
            alts = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
            a = alts.get(type(n.op))
            if a: c, m = clone(i); m.op = a(); yield "L%s %s -> %s" % (L, ast.unparse(n), ast.unparse(m)), c
        if isinstance(n, ast.AugAssign):
            alts = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd}
            a = alts.get(type(n.op))
            if a: c, m = clone(i); m.op = a(); yield "L%s %s" % (L, ast.unparse(m)), c
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "Mark":
            for v in ("Tail", "Arrow", "Circle"):
                if v != n.attr: c, m = clone(i); m.attr = v; yield "L%s %s -> %s" % (L, n.attr, v), c
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            for k in range(len(n.args) - 1):
                if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                    c, m = clone(i); m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]; yield "L%s swap args %s" % (L, ast.unparse(m)), c
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    c, m = clone(i); bb = getattr(m, field); old = bb[k]
                    bb[k] = ast.Pass(); yield "L%s drop %s" % (s.lineno, ast.unparse(s).split("\n")[0][:80]), c
                    if isinstance(s, ast.Continue):
                        c, m = clone(i); getattr(m, field)[k] = ast.Break(); yield "L%s continue -> break" % s.lineno, c
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and k + 1 < len(b):
                        c, m = clone(i); bb = getattr(m, field); bb[k], bb[k + 1] = bb[k + 1], bb[k]; yield "L%s swap with next: %s" % (s.lineno, ast.unparse(s)[:60]), c


def run(args):
    qual, text, path, rel = args
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/cdmir", os.path.join(d, "cdmir"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        open(os.path.join(d, rel), "w").write(text)
        code = r"""
import sys,glob,os,importlib
sys.path.insert(0,%r)
from pyver.program import Program
from pyver import driver, solve
import contracts.base as B
for f in sorted(glob.glob(os.path.join(os.path.dirname(B.__file__),"*.py"))):
    n=os.path.basename(f)[:-3]
    if not n.startswith("_"): importlib.import_module("contracts."+n)
q=%r
ct=B.REG[q]
for r in (ct.receivers or [None]):
    for v in ct.variants:
        try: eng=driver.generate(Program(),B.REG,B.CLASSES,q,r,v)
        except Exception as e: print("KILLED generate: %%s %%s"%%(type(e).__name__, str(e)[:80])); sys.exit()
        obls=eng.obls
        bad=[]
        for o in obls:
            x=solve.discharge(o, stages=solve.STAGES[:2])
            if x["status"]!="proved":
                bad.append(o)
        for o in bad[:12]:
            x=solve.discharge(o)
            if x["status"]!="proved": print("KILLED", o.name[-100:]); sys.exit()
        if len(bad) > 12: print("KILLED by many"); sys.exit()
print("SURVIVED")
""" % (HERE, qual)
        try:
            p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ, CDMIR_REPO=d), timeout=400)
            return (p.stdout.strip().splitlines() or ["ERR " + p.stderr[-200:]])[-1]
        except subprocess.TimeoutExpired:
            return "TIMEOUT"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    from pyver.program import Program
    qual = sys.argv[1]
    mx = int(next((a[6:] for a in sys.argv if a.startswith("--max=")), 1000))
    info = Program().find(qual)
    rel = qual_rel = None
    parts = qual.split(".")
    for k in range(len(parts), 0, -1):
        p = "/".join(parts[:k]) + ".py"
        if os.path.exists("/repo/" + p):
            rel = p
            break
    src = open("/repo/" + rel).read()
    lines = src.splitlines(keepends=True)
    fn = info.node
    lo, hi = fn.body[0].lineno, fn.end_lineno
    jobs, names = [], []
    seen = set()
    for what, m in mutants(fn):
        ast.fix_missing_locations(m)
        ind = " " * (fn.body[0].col_offset)
        body = "\n".join(ast.unparse(s) for s in m.body)
        if body in seen: continue
        seen.add(body)
        text = "".join(lines[:lo - 1]) + "".join(ind + l + "\n" for l in body.split("\n")) + "".join(lines[hi:])
        try: ast.parse(text)
        except SyntaxError: continue
        jobs.append((qual, text, "", rel)); names.append(what)
    if len(jobs) > mx:
        idx = sorted(random.Random(1).sample(range(len(jobs)), mx)); jobs = [jobs[i] for i in idx]; names = [names[i] for i in idx]
    from concurrent.futures import ThreadPoolExecutor
    n = 0
    with ThreadPoolExecutor(7) as ex:
        for w, r in zip(names, ex.map(run, jobs)):
            if not r.startswith("KILLED") or "generate" in r: print(r[:90], "|", w, flush=True)
            n += 1
    print(n, "mutants of", qual)
