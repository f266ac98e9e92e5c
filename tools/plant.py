"""
Plants bugs: plant.py SPEC.py [ID...]   (run by hand)
SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)].
Every bug is confirmed in a scratch copy of /repo (stable tests pass, the
demonstration passes without and fails with it) and written to /verif/seeded,
then the check of its property is run against the changed copy.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
import padasip as pa

"""
SH = '#!/bin/bash\n# the program beside this file fails when the bug is present\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def one(b, procs):
    d = "/tmp/plant-%s" % b["id"]
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s" % d, "/")
    out = os.path.join(VERIF, "seeded", b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, "padasip", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != b.get("count", 1):
                return "%s: text found %d times in %s: %r" % (b["id"], s.count(old), f, old)
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=d, capture_output=True).stdout
        if not patch:
            return b["id"] + ": no change"
        t = sh("PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -W ignore -o python_files=*.py tests 2>&1 | tail -8", d,
               env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"))
        if " passed" not in t.stdout or "failed" in t.stdout.splitlines()[-1] and not b.get("ok"):
            return "%s: TESTS %s" % (b["id"], t.stdout[-600:])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(patch)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo = "bash %s/demo.sh" % out
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        good, bad = sh(demo, "/repo", env=env), sh(demo, d, env=env)
        if good.returncode != 0 or bad.returncode == 0:
            shutil.rmtree(out)
            return "%s: DEMO clean=%d patched=%d %s %s" % (b["id"], good.returncode, bad.returncode, good.stderr[-400:], bad.stderr[-200:])
        env = dict(os.environ, RV_REPO=d, RV_PROCS=str(procs), VERIF_SEED="1")
        env.pop("VERIF_TIER", None)
        r = sh("./check " + b["prop"], VERIF, env=env)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  case")]
        return "%s: %s %s | %s" % (b["id"], b["prop"], {1: "caught", 0: "MISSED"}.get(r.returncode, "ERROR %d %s" % (
            r.returncode, r.stdout[-500:] + r.stderr[-500:])), (lines or [""])[0][:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: one(b, 4), bugs):
            print(r, flush=True)
            w = r.split()
            if len(w) > 2 and w[2] in ("caught", "MISSED"):
                path = os.path.join(VERIF, "tools", "bugs", "results.json")
                res = json.load(open(path)) if os.path.exists(path) else {}
                res[w[0][:-1]] = w[2]
                json.dump(res, open(path, "w"), indent=1, sort_keys=True)


main()
