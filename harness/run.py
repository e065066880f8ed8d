#!/usr/bin/env python
"""Runs one concrete harness:  run.py CNN [--tier quick] [--seed N] [--budget S] [--out FILE] | run.py CNN --case FILE"""
import argparse, importlib, json, os, signal, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
from harness.common import Fail, rng_of  # noqa


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def run_case(mod, case, limit):
    """-> None or (message, key)"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        mod.check(case)
        return None
    except Fail as e:
        return str(e), e.key
    except Timeout:
        return "no answer within %d s" % limit, "timeout"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return "unexpected %s: %s (at %s)" % (type(e).__name__, e, where), None
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=40)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--max-fail", type=int, default=5)
    a = ap.parse_args()
    devnull = open(os.devnull, "w")
    real_out = sys.stdout
    mod = importlib.import_module("harness." + a.pid.lower())
    limit = getattr(mod, "CASE_LIMIT", 20)
    if a.case:
        case = json.load(open(a.case))
        case = case.get("case", case)
        r = run_case(mod, case, limit * 3)
        print("property %s: %s" % (a.pid, "FAILS: %s" % r[0] if r else "holds on this case"))
        return 1 if r else 0
    sys.stdout = devnull
    t0 = time.time()
    n, fails, samples, seen, nontriv = 0, [], [], set(), 0
    kinds = {}
    cut = False
    for case in mod.cases(rng_of(a.pid, a.seed), a.tier):
        if time.time() - t0 > a.budget:
            cut = True
            break
        js = json.dumps(case, sort_keys=True, default=str)
        r = run_case(mod, case, limit)
        n += 1
        h = hash(js)
        if h not in seen:
            seen.add(h)
            if getattr(mod, "nontrivial", lambda c: True)(case):
                nontriv += 1
        k = case.get("kind", "case") if isinstance(case, dict) else "case"
        kinds[k] = kinds.get(k, 0) + 1
        if len(samples) < 3 and n % 7 == 3:
            samples.append(case)
        if r:
            fails.append({"case": case, "message": r[0], "key": r[1]})
            if sum(1 for f in fails if not f["key"]) >= a.max_fail or len(fails) >= 200:
                break
    sys.stdout = real_out
    rep = {"property": a.pid, "cases": n, "distinct_nontrivial": nontriv, "kinds": kinds, "complete": not cut, "seconds": time.time() - t0,
           "failures": fails, "samples": samples or [case] if n else [], "rule": (mod.__doc__ or "").strip(), "bound": getattr(mod, "BOUND", "")}
    if a.out:
        json.dump(rep, open(a.out, "w"), default=str)
    else:
        print(json.dumps({k: v for k, v in rep.items() if k not in ("samples",)}, indent=1, default=str)[:6000])
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
