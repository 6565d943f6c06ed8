"""Development tool: confirm planted bugs from a spec file and measure which checks see them.

usage: plant.py SPEC.py [ids...]      validate (tests still pass, demo 0/nonzero) and write seeded/<id>/
       plant.py --detect [ids...]     run each seeded bug's own check on a patched scratch copy
A spec file defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks)].
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def copy(tag):
    w = tempfile.mkdtemp(prefix=f"plant_{tag}_")
    shutil.copytree("/repo", w + "/repo", symlinks=True)
    return w


def env(w):
    e = dict(os.environ, PYTHONPATH=w + "/repo/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=w + "/mpl",
             PYTHONPYCACHEPREFIX=w + "/pyc", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def validate(b):
    w = copy(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = f"{w}/repo/src/skspatial/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit matches {s.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "diff"], cwd=w + "/repo", capture_output=True, text=True).stdout
        dm = w + "/demo"
        os.mkdir(dm)
        open(dm + "/demo.py", "w").write(b["demo"].strip() + "\n")
        open(dm + "/demo.sh", "w").write(DEMO_SH)
        r0 = subprocess.run(["bash", dm + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=280)
        if r0.returncode:
            return b["id"], "demo fails on the unchanged tree: " + r0.stderr[-400:]
        r1 = subprocess.run(["bash", dm + "/demo.sh"], cwd=w + "/repo", capture_output=True, text=True, timeout=280)
        if not r1.returncode:
            return b["id"], "demo passes with the patch"
        if "SyntaxError" in r1.stderr:
            return b["id"], "syntax error"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules",
                            "--doctest-glob=README.md", "--maxfail=45", "tests", "src", "README.md"], cwd=w + "/repo", env=env(w),
                           capture_output=True, text=True, timeout=300)
        bad = [x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))]
        base = set(open("/tmp/basefail.txt").read().splitlines())  # what fails on the unchanged tree
        bad = [x for x in bad if x.split(" - ")[0] not in base]
        if bad or " passed" not in t.stdout:
            return b["id"], f"{len(bad)} tests fail: " + "".join(bad[:1])[:150]
        out = f"{VERIF}/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(d)
        shutil.copy(dm + "/demo.py", out)
        shutil.copy(dm + "/demo.sh", out)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"),
                  indent=1)
        return b["id"], "ok"
    except subprocess.TimeoutExpired:
        return b["id"], "timeout"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def detect(i):
    m = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
    w = copy(i)
    try:
        a = subprocess.run(["git", "apply", f"{VERIF}/seeded/{i}/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
        if a.returncode:
            return i, m["property"], "does not apply"
        e = dict(os.environ, SKS_SRC=w + "/repo/src", SKS_PROCS="4", SKS_NOEVIDENCE="1")
        r = subprocess.run([VERIF + "/check", m["property"]], env=e, capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        last = r.stdout.strip().splitlines()[-1:] or [""]
        return i, m["property"], f"{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode} {v[0][-60:] if v else last[0][-90:]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    if sys.argv[1] == "--detect":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        with cf.ThreadPoolExecutor(3) as ex:
            res = []
            for r in ex.map(detect, ids):
                res.append(r)
                if "CAUGHT" not in r[2] or len(ids) < 12:
                    print(*r, flush=True)
        print(f"caught {sum('CAUGHT' in r[2] for r in res)} of {len(res)}")
        return
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(8) as ex:
        res = []
        for r in ex.map(validate, bugs):
            res.append(r)
            if r[1] != "ok":
                print(*r, flush=True)
    print(f"kept {sum(r[1] == 'ok' for r in res)} of {len(res)}")


main()
