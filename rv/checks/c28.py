"""C28: package without SciPy, public names"""
import json
import os
import subprocess
import sys

from .. import core
from ..core import Inconclusive, Violation, need

RULE = ("Child processes import padasip in various orders, with SciPy, with the import of SciPy (or of scipy.stats only) "
        "failing, resolve all documented names and run the whole public API on seeded workloads; results with and "
        "without SciPy are compared bit by bit.")
NEED = dict(decisive=300, without_scipy=8, with_scipy=8, ese_refused=20, compared=100)
FILES = ["__init__.py", "detection/__init__.py", "filters/__init__.py", "preprocess/__init__.py", "misc/__init__.py", "ann/__init__.py"]
CASE_S = 240
MODS = ["padasip", "padasip.filters", "padasip.detection", "padasip.preprocess", "padasip.misc", "padasip.ann"]


def child(job):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(core.VERIF, "rv", "api_child.py"), json.dumps(job)],
                       capture_output=True, text=True, timeout=200, cwd=job.get("cwd") or "/")
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    err = p.stderr.strip().splitlines()
    what = "%s, imports %s" % ("%s missing" % job["block"] if job["block"] else "SciPy installed", job["imports"])
    if any("padasip" in l for l in err):
        raise Violation("package fails (%s): %s" % (what, " | ".join(err[-4:])))
    raise Inconclusive("child failed (%s): %s" % (what, " | ".join(err[-4:])))


def case(ctx):
    core.load()
    seeds = [ctx.irange(1, 2**31) for _ in range(6 if ctx.thorough else 3)]
    res, jobs = {}, {}
    for block in ("", ctx.choice(["scipy", "scipy", "scipy.stats"])):
        imports = [ctx.choice(MODS) for _ in range(ctx.irange(0, 4))]
        job = dict(repo=core.REPO, seeds=seeds, imports=imports, block=block, error=ctx.choice(["ImportError", "ModuleNotFoundError"]),
                   cwd=core.VERIF)
        what = "%s, first imported %s" % ("without " + block if block else "with SciPy", imports)
        ctx.kinds["without " + block if block else "with scipy"] += 1
        r = child(job)
        jobs[bool(block)] = job
        ctx.calls += 40 * len(seeds)
        res[bool(block)] = r
        need(os.path.realpath(r["file"]).startswith(os.path.realpath(core.REPO) + os.sep), "imported from %s", r["file"])
        for name, ok in sorted(r["names"].items()):
            need(ok, "documented name %s is missing or means several objects (%s)", name, what)
            ctx.decisive()
        if block:
            ctx.count("without_scipy")
            if block == "scipy":
                if r["scipy_loaded"]:
                    raise Inconclusive("SciPy was loaded in spite of the block: %s" % r["scipy_loaded"])
            for c in r["ese"]:
                need(c == "ImportError", "ESE %s: call %s instead of raising ImportError", what, c)
                ctx.count("ese_refused")
        else:
            ctx.count("with_scipy")
            need("returned 'ndarray'" in r["ese"], "ESE with SciPy: calls ended with %s", r["ese"])
    ctx.note(seeds=seeds)
    def differ(a, b):
        return [n for s in map(str, seeds) for n in a["work"][s]
                if n != "ESE" and None not in (a["work"][s][n], b["work"][s][n]) and a["work"][s][n] != b["work"][s][n]]
    for k in range(2):
        # whatever differs between processes anyway (memory alignment) proves nothing
        if differ(res[False], res[True]):
            for block in (False, True):
                again = child(jobs[block])
                for n in set(differ(res[block], again)):
                    for s in map(str, seeds):
                        if again["work"][s][n] != res[block]["work"][s][n]:
                            res[False]["work"][s][n] = None
    for s in map(str, seeds):
        a, b = res[False]["work"][s], res[True]["work"][s]
        for name in sorted(a):
            if name == "ESE":
                continue
            if a[name] is None:
                need(b[name] is None or ":" not in b[name], "%s fails without SciPy: %s", name, b[name])
                ctx.count("not_reproducible")
                continue
            need(a[name] == b[name], "%s gives other results without SciPy: %s, with SciPy %s", name, b[name], a[name])
            ctx.count("workloads_failed", ":" in a[name])
            ctx.count("compared")
            ctx.decisive()
