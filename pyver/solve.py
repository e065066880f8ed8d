"""Discharging obligations: z3 (E-matching, then model-based), then cvc5; portfolio per obligation."""
import os
import shutil
import subprocess
import tempfile
import time
import z3
from .theory import background

CVC5 = shutil.which("cvc5")


def fact_key(f):
    """equal for facts that differ only in the names of their bound variables (outermost quantifier)"""
    if z3.is_quantifier(f):
        return (f.is_forall(), tuple(f.var_sort(i).get_id() for i in range(f.num_vars())), f.body().get_id(),
                tuple(f.pattern(i).get_id() for i in range(f.num_patterns())))
    return f.get_id()


def dedupe(fs):
    out, seen, todo = [], set(), list(reversed(fs))
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(reversed(f.children()))
            continue
        k = fact_key(f)
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def build(obl):
    fs = dedupe(list(obl.facts)) + [z3.Not(obl.goal)]
    return [f for _, f in background(fs)] + fs


def z3_try(fs, ms, **opts):
    s = z3.SimpleSolver() if opts.pop("simple", False) else z3.Solver()
    s.set("timeout", ms)
    for k, v in opts.items():
        s.set(k, v)
    s.add(*fs)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", time.time() - t, str(e), None
    model = None
    if r == z3.sat:
        try:
            model = str(s.model())[:4000]
        except z3.Z3Exception:
            model = None
    return str(r), time.time() - t, s.reason_unknown() if r == z3.unknown else "", model


def cvc5_try(fs, secs):
    if not CVC5:
        return "unknown", 0.0, "no cvc5"
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    fd, p = tempfile.mkstemp(suffix=".smt2")
    os.write(fd, txt.encode())
    os.close(fd)
    t = time.time()
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % int(secs * 1000), p], capture_output=True, text=True, timeout=secs + 5)
        out = (r.stdout.strip().splitlines() or ["unknown"])[0]
        return (out if out in ("sat", "unsat") else "unknown"), time.time() - t, r.stderr[:300] + r.stdout[:300]
    except subprocess.TimeoutExpired:
        return "unknown", time.time() - t, "timeout"
    finally:
        os.unlink(p)


STAGES = [("z3/noext", 1000, {"auto_config": False, "mbqi": False, "simple": True, "array.extensional": False}),
          ("z3/ematch", 2000, {"auto_config": False, "mbqi": False, "simple": True}),
          ("z3/ematch-pre", 1500, {"auto_config": False, "mbqi": False}),
          ("cvc5", 3, None)] + [
          # instantiation is sensitive to the order of things: short runs with other seeds do better than one long run
          ("z3/ematch", 800, {"auto_config": False, "mbqi": False, "simple": True, "random_seed": 20 + i, **({"array.extensional": False} if i % 4 == 3 else {})}) for i in range(14)] + [
          ("z3/ematch", 8000, {"auto_config": False, "mbqi": False, "simple": True, "random_seed": 3}),
          ("z3/default", 5000, {}),
          ("cvc5", 20, None),
          ("z3/ematch", 20000, {"auto_config": False, "mbqi": False, "simple": True, "random_seed": 7, "relevancy": 0}),
          ("z3/ematch-pre", 20000, {"auto_config": False, "mbqi": False, "random_seed": 11})]


def discharge(obl, stages=None, budget=None):
    """-> dict(status proved|failed, solver, seconds, detail)"""
    if z3.is_true(obl.goal):
        return {"status": "proved", "solver": "trivial", "seconds": 0.0}
    total, log = 0.0, []
    if getattr(obl, "tail", 0):      # the last facts alone (the lemmas stated for this obligation) often suffice
        part = type("Part", (), {"facts": obl.facts[-obl.tail:], "goal": obl.goal})
        r, t, _, _ = z3_try(build(part), 1000, auto_config=False, mbqi=False, simple=True)
        total += t
        if r == "unsat":
            return {"status": "proved", "solver": "z3/ematch", "seconds": total}
    fs = build(obl)
    if getattr(obl, "core", None):   # what was known before the step, and what the step lemmas say about it
        a, b = obl.core
        part = type("Part", (), {"facts": obl.facts[:a] + obl.facts[b:], "goal": obl.goal})
        name, lim, opts = STAGES[0]
        r, t, _, _ = z3_try(fs, lim, **dict(opts))
        total += t
        if r == "unsat":
            return {"status": "proved", "solver": name, "seconds": total}
        pfs = build(part)
        for ms, opts in ((1000, {"array.extensional": False}), (2000, {}), (2000, {"random_seed": 5})):
            r, t, _, _ = z3_try(pfs, ms, auto_config=False, mbqi=False, simple=True, **opts)
            total += t
            if r == "unsat":
                return {"status": "proved", "solver": "z3/ematch", "seconds": total}
    for name, lim, opts in (stages or STAGES):
        if budget is not None and total > budget:
            break
        if opts is None:
            r, t, why = cvc5_try(fs, lim)
            model = None
        else:
            r, t, why, model = z3_try(fs, lim, **dict(opts))
        total += t
        log.append("%s: %s %.1fs %s" % (name, r, t, why))
        if r == "unsat":
            return {"status": "proved", "solver": name, "seconds": total}
        if r == "sat":
            return {"status": "failed", "solver": name, "seconds": total, "detail": "; ".join(log), "model": model}
    return {"status": "failed", "solver": "portfolio", "seconds": total, "detail": "; ".join(log)}
