#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough]: verifies the contracts a property rests on against /repo's current source,
then runs the real code on concrete cases (counterexample search; the bounded stand-in for code the verifier cannot read)."""
import argparse, glob, hashlib, importlib, json, multiprocessing as mp, os, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("CDMIR_REPO", "/repo")


def load():
    import contracts.base as B
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        n = os.path.basename(f)[:-3]
        if not n.startswith("_"):
            importlib.import_module("contracts." + n)
    return B


_prog = None
_forms = None


def forms():
    """the loops the invariants were written for (tools/loopforms.py)"""
    global _forms
    if _forms is None:
        _forms = json.load(open(os.path.join(HERE, "loopforms.json")))
    return _forms


def job(spec):
    global _prog
    from pyver import driver
    from pyver.program import Program
    import contracts.base as B
    if _prog is None:
        _prog = Program(REPO)
    qual, recv, vi, part, stages, pid = spec
    ct = B.REG[qual]
    v = ct.variants[vi]

    name = "%s|%s" % (recv, ct.variant_name(v) if v else None)
    return spec, driver.verify(_prog, B.REG, B.CLASSES, qual, recv, v, part=part, stages=stages, loops=forms().get(qual, {}).get(name))


def expand(B, quals):
    out = []
    for q in quals:
        ct = B.REG[q]
        for r in (ct.receivers or (None,)):
            for vi in range(len(ct.variants)):
                n = getattr(ct, "parts", 1)
                for p in range(n):
                    out.append((q, r, vi, (p, n)))
    return out


def run_proofs(B, targets, stages, deadline, pid, stop):
    """-> results, not_run"""
    done, results, todo = set(), [], []
    queue = []
    static = getattr(B, "STATIC_CALLS", {})

    def push(quals):
        for q in quals:
            if q in done:
                continue
            done.add(q)
            ct = B.REG.get(q)
            if ct is None or ct.trusted:
                continue
            queue.extend(expand(B, [q]))
    push(targets)
    not_run = []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=12) as pool:
        pend = {}

        def submit():
            queue.sort(key=lambda s: -getattr(B.REG[s[0]], "cost", 1))
            while queue:
                s = queue.pop(0)
                pend[s] = pool.apply_async(job, ((*s, stages, pid),))
        submit()
        while pend:
            time.sleep(.05)
            for s, r in list(pend.items()):
                if r.ready():
                    del pend[s]
                    try:
                        _, res = r.get()
                    except Exception as e:
                        res = {"function": s[0], "receiver": s[1], "variant": None, "obligations": [], "unsupported": "verifier error: %s" % e, "gen_s": 0}
                    results.append(res)
                    push(res.get("used_contracts", []))
            submit()
            if time.time() > deadline or stop(results):
                not_run = sorted({"%s[%s]" % (s[0], s[1]) for s in pend})
                pool.terminate()
                break
    return results, not_run


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from props import PROPS
    spec = PROPS[pid]
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(ev_dir, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rp_dir, pid + "-*")):
        os.unlink(f)
    # ---- concrete cases on the real code, started first
    hp, hout = None, None
    if not a.no_harness and os.path.exists(os.path.join(HERE, "harness", pid.lower() + ".py")):
        fd, hout = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        env = dict(os.environ, CDMIR_REPO=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1")
        budget = spec.get("budget", 60) if tier == "quick" else spec.get("budget_thorough", 480)
        hp = subprocess.Popen([VENV, "-W", "ignore", os.path.join(HERE, "harness", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", hout],
                              env=env, cwd=tempfile.gettempdir(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    # ---- proofs
    B = load()
    from pyver import solve
    stages = None
    hdone = {"t": None}

    def stop(results):
        """a failing input is known and an obligation has failed, or the grace period is over: no need to go on"""
        if hp is None or hp.poll() in (None, 0):
            return False
        if hdone["t"] is None:
            hdone["t"] = time.time()
        failed = any(o["status"] != "proved" for r in results for o in r["obligations"])
        return failed or time.time() - hdone["t"] > 100
    limit = 520 if tier == "quick" else 800
    results, not_run = ([], []) if a.no_proof or not spec.get("targets") else run_proofs(B, spec["targets"], stages, t0 + limit, pid, stop)
    # ---- collect
    hrep, herr = None, None
    if hp is not None:
        try:
            _, herr = hp.communicate(timeout=max(10, 860 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            hp.kill()
            herr = "harness did not finish"
        try:
            hrep = json.load(open(hout))
        except (OSError, ValueError):
            hrep = None
        os.unlink(hout)
    for r in results:
        want = forms().get(r["function"], {}).get("%s|%s" % (r["receiver"], r["variant"]))
        if not r["unsupported"] and want is not None and r.get("loops") != want and any(o["status"] != "proved" for o in r["obligations"]):
            r["unsupported"] = "its loops %s are not those the invariants were written for, %s" % (r.get("loops"), want)
            r["obligations"] = [o for o in r["obligations"] if o["status"] == "proved"]
    obls = [(r, o) for r in results for o in r["obligations"]]
    failed = [(r, o) for r, o in obls if o["status"] != "proved"]
    unsupported = [r for r in results if r["unsupported"]]
    vac = [r for r in results if not r["unsupported"] and (r.get("vacuous") or (r.get("nret") == 0 and not getattr(B.REG[r["function"]], "never_returns", False)))]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {k["key"]: k for k in known["findings"] if k["property"] == pid}
    fails = (hrep or {}).get("failures", [])
    new = [f for f in fails if f["key"] not in listed]
    hit = {}
    for f in fails:
        if f["key"] in listed:
            hit.setdefault(f["key"], f)
    lines, viol = [], 0
    for k, f in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
    oblig_txt = [{"function": r["function"], "receiver": r["receiver"], "variant": r["variant"], "obligation": o["name"], "line": o["line"], "verifier": o.get("detail"),
                  "model": o.get("model")} for r, o in failed]
    kf_obl = {k["obligation"] for k in known["findings"] if k["property"] == pid and k.get("obligation")}
    failed_new = [x for x in oblig_txt if x["obligation"] not in kf_obl]
    if new:
        viol = len(new)
        for i, f in enumerate(new[:1]):
            p = os.path.join(rp_dir, "%s-case.json" % pid)
            json.dump({"property": pid, "case": f["case"], "message": f["message"], "failed_obligations": oblig_txt[:20],
                       "all_failing_cases": new[:5],
                       "rerun": "CDMIR_REPO=%s %s %s/harness/run.py %s --case %s" % (REPO, VENV, HERE, pid, p)}, open(p, "w"), indent=1, default=str)
            print("%s fails: %s" % (pid, f["message"][:600]))
            for x in oblig_txt[:5]:
                print("failed obligation: %s (line %s)" % (x["obligation"], x["line"]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, p))
    elif failed_new:
        viol = len(failed_new)
        p = os.path.join(rp_dir, "%s-obligation.json" % pid)
        json.dump({"property": pid, "failed_obligations": failed_new, "rerun": "python3-vt %s/tools/v.py %s" % (HERE, failed_new[0]["function"])}, open(p, "w"), indent=1, default=str)
        for x in failed_new[:8]:
            print("failed obligation: %s (line %s): %s" % (x["obligation"], x["line"], (x["verifier"] or "")[:200]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    # ---- evidence
    by = {}
    for r, o in obls:
        d = by.setdefault(o["solver"] if o["status"] == "proved" else "not discharged", [0, 0.0])
        d[0] += 1
        d[1] += o["seconds"]
    funcs = {}
    for r in results:
        k = "%s%s%s" % (r["function"], "[%s]" % r["receiver"] if r["receiver"] else "", "{%s}" % r["variant"] if r["variant"] else "")
        e = funcs.setdefault(k, {"obligations": 0, "discharged": 0})
        e["obligations"] += len(r["obligations"])
        e["discharged"] += sum(1 for o in r["obligations"] if o["status"] == "proved")
        if r["unsupported"]:
            e["not_read_by_the_verifier"] = r["unsupported"]
    trusted = sorted({"assumed contract: " + q for r in results for q in r.get("used_contracts", []) if q in B.REG and B.REG[q].trusted})
    ext = sorted({"modelled library operation: " + x for r in results for x in r.get("externals", [])})
    bounded = sorted({"%s: %s" % (r["function"], r["unsupported"]) for r in unsupported})
    level = spec.get("level", "proof")
    cov = {
        "obligations": len(obls), "discharged": len(obls) - len(failed),
        "checker_cmd": "python3-vt check.py %s --tier %s (z3 %s, cvc5 1.1.2)" % (pid, tier, __import__("z3").get_version_string()),
        "trusted_base": ["pyver (/verif/pyver): symbolic execution of the parsed source of /repo, its encoding of Python semantics and its collection axioms", "z3", "cvc5"] + spec.get("trusted", []) + trusted + ext,
        "by_solver": {k: {"obligations": v[0], "seconds": round(v[1], 2)} for k, v in sorted(by.items())},
        "functions_under_contract": funcs,
        "inlined_functions": sorted({x for r in results for x in r.get("inlined", [])}),
        "verified_source_sha": {k: v for r in results for k, v in r.get("modules", {}).items()},
        "bounded_stand_in_for": bounded + spec.get("bounded", []),
        "obligations_not_attempted": not_run,
        "concrete_cases": {k: hrep[k] for k in ("cases", "distinct_nontrivial", "kinds", "complete", "seconds", "rule", "bound", "samples")} if hrep else None,
    }
    if level != "proof":
        cov.update({"evaluations": hrep["cases"] if hrep else 0, "distinct_nontrivial": hrep["distinct_nontrivial"] if hrep else 0, "rule": hrep["rule"] if hrep else "", "samples": hrep["samples"] if hrep else [],
                    "explanation": spec.get("explanation", "")})
    # when the whole statement could not be read there is no proof, and the evidence says so
    if results and unsupported:
        cov["note"] = "functions listed under bounded_stand_in_for could not be brought within the verifier on this source; for them only the concrete cases speak"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assume", []) + GLOBAL_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations in %d functions, %d discharged, %d functions by bounded cases only; %s concrete cases; %.1f s" % (
        pid, len(obls), len(funcs), len(obls) - len(failed), len(bounded), hrep["cases"] if hrep else "no", time.time() - t0))
    for b in bounded:
        print("  bounded: " + b)
    for l in lines:
        print(l)
    if lines:
        return 1
    bad = []
    if vac:
        bad.append("vacuous contract: %s" % sorted({r["function"] for r in vac}))
    if not_run:
        bad.append("time limit reached before: %s" % not_run)
    if hp is not None and hrep is None:
        bad.append("harness gave no report: %s" % (herr or "")[-800:])
    if hp is None and not obls:
        bad.append("nothing was checked")
    if bad and not (not_run and len(bad) == 1 and hrep is not None):
        print("ERROR: " + "; ".join(bad))
        return 2
    if bad:
        print("note: " + "; ".join(bad))
    return 0


GLOBAL_ASSUMPTIONS = [
    "Python integers are mathematical integers; collections are finite and fit in memory; no asynchronous exceptions, no concurrent mutation, no monkey-patching",
    "set iteration order is arbitrary (each order is covered); dict iteration order is arbitrary unless a contract says otherwise",
    "logging, warnings and print have no effect on the verified state",
]

if __name__ == "__main__":
    sys.exit(main())
