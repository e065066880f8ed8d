#!/usr/bin/env python3
"""development: seed.py SPECFILE [ID..]  builds and validates planted bugs in scratch copies of /repo; keeps the valid ones in /verif/seeded"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))
stable = BASE if isinstance(BASE, list) else BASE.get("stable") or BASE.get("passing") or BASE.get("tests") or BASE.get("passed")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def run(s):
    d = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "-c", "advice.detachedHead=false", "clone", "-q", "/repo", r], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "edit matches %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        demo = os.path.join(d, "demo"); os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write("import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport warnings\nwarnings.simplefilter('ignore')\n" + s["demo"])
        open(os.path.join(demo, "demo.sh"), "w").write('#!/bin/bash\n# %s\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % s["what"].replace("\n", " "))
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        bad = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=r, capture_output=True, text=True, env=ENV)
        good = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo", capture_output=True, text=True, env=ENV)
        if good.returncode != 0:
            return s["id"], "demo fails on the unchanged tree: " + good.stderr[-600:] + good.stdout[-300:]
        if bad.returncode == 0:
            return s["id"], "demo passes with the change"
        x = os.path.join(d, "junit.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=300", "--randomly-seed=0", "--randomly-dont-reorganize",
                        "--continue-on-collection-errors", "--ignore=cdmir/tests/test_anm.py", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=r, capture_output=True, env=ENV)
        o = os.path.join(d, "out.json")
        subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], capture_output=True)
        res = json.load(open(o))
        passed = set(res["passed"] if isinstance(res.get("passed"), list) else [k for k, v in res.get("tests", res).items() if v in ("passed", "pass", True)])
        miss = [t for t in stable if t not in passed]
        if miss:
            return s["id"], "tests fail: %d, e.g. %s" % (len(miss), miss[:3])
        dst = os.path.join(H, "seeded", s["id"])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(demo, dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return s["id"], "kept"
    finally:
        shutil.rmtree(d)


todo = [s for s in m.SEEDS if not ids or s["id"] in ids]
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(run, todo):
        print(i, "->", r, flush=True)
