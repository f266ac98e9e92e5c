"""
Runs planted bugs again: recheck.py [-c] [-j N] [ID...]   (run by hand)
Every patch of /verif/seeded (or the given ones) is applied to a scratch copy of
/repo; with -c the tests and the demonstration are confirmed too. Then the quick
check of its property is run against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def one(b, confirm, procs):
    src = os.path.join(VERIF, "seeded", b)
    prop = json.load(open(os.path.join(src, "meta.json")))["property"]
    d = "/tmp/recheck-" + b
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo " + d, "/")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d)
    try:
        if sh("git apply %s/patch.diff" % src, d).returncode:
            return b, prop, "NOT APPLICABLE"
        if confirm:
            t = sh("PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell %s -B -m pytest -q -p no:cacheprovider "
                   "-W ignore -o python_files=*.py tests 2>&1 | tail -8" % PY, d, env=env)
            if " passed" not in t.stdout or "failed" in t.stdout.splitlines()[-1]:
                return b, prop, "TESTS " + t.stdout[-300:]
            env.pop("PYTHONPATH")
            demo = "bash %s/demo.sh" % src
            good, bad = sh(demo, "/repo", env=env), sh(demo, d, env=env)
            if good.returncode or not bad.returncode:
                return b, prop, "DEMO clean=%d patched=%d %s" % (good.returncode, bad.returncode, good.stderr[-300:])
        env = dict(os.environ, RV_REPO=d, RV_PROCS=str(procs))
        env.setdefault("VERIF_SEED", "1")
        r = sh("./check " + prop, VERIF, env=env)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  case")]
        return b, prop, {1: "caught", 0: "MISSED"}.get(r.returncode, "ERROR %s" % (r.stdout + r.stderr)[-400:]), (lines or [""])[0][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    confirm = "-c" in args
    j = int(args[args.index("-j") + 1]) if "-j" in args else 2
    ids = [a for i, a in enumerate(args) if not a.startswith("-") and not (i and args[i - 1] == "-j")]
    ids = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    path = os.path.join(VERIF, "tools", "bugs", "results.json")
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda b: one(b, confirm, max(1, 8 // j)), ids):
            print(*r, flush=True)
            if r[2] in ("caught", "MISSED"):
                res = json.load(open(path))
                res[r[0]] = r[2]
                json.dump(res, open(path, "w"), indent=1, sort_keys=True)


main()
