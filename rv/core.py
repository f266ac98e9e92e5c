"""
Runtime-monitoring core: drives the real padasip code from /repo, records what
is observed at the client boundary, merges verdicts of parallel workers and
writes the evidence file.

Verdicts are three-valued:
  held         -> exit 0
  violated     -> exit 1 and a VIOLATION line
  inconclusive -> exit 2 (deciding monitor starved, or could not observe)
"""
import ast
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
EPS = float(np.finfo(np.float64).eps)
LD = np.longdouble


class Violation(Exception):
    """The property was observed to be broken."""


class Overflow(Exception):
    """the data of the case are out of range of floating point numbers, nothing is specified there"""


class Inconclusive(Exception):
    """The monitor could not observe what it needs."""


class HarnessBug(Exception):
    """Something wrong with the machinery itself."""


# --------------------------------------------------------------------------
# loading the code under test
# --------------------------------------------------------------------------
_pa = None


def load():
    """Import padasip from the working tree of /repo (and only from there)."""
    global _pa
    if _pa is None:
        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        import padasip
        where = os.path.realpath(padasip.__file__)
        want = os.path.realpath(os.path.join(REPO, "padasip", "__init__.py"))
        if where != want:
            raise HarnessBug("padasip imported from %s" % where)
        _pa = padasip
    return _pa


def source_files():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "padasip")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        out += [os.path.join(base, f) for f in files if f.endswith(".py")]
    return sorted(out)


def _constants():
    ints, floats = set(), set()

    def take(v):
        if isinstance(v, (tuple, frozenset)):
            for t in v:
                take(t)
        elif isinstance(v, bool):
            pass
        elif isinstance(v, int) and 2 <= abs(v) <= 10**9:
            ints.add(abs(v))
            floats.add(float(abs(v)))
        elif isinstance(v, float) and v == v and 0 < abs(v) < 1e150:
            floats.add(abs(v))

    def walk(code):
        for c in code.co_consts:
            walk(c) if hasattr(c, "co_consts") else take(c)
    for path in source_files():
        try:
            src = open(path, encoding="utf-8").read()
            for node in ast.walk(ast.parse(src)):
                if isinstance(node, ast.Constant):
                    take(node.value)
            walk(compile(src, path, "exec", dont_inherit=True))  # folded expressions
        except Exception:
            continue
    return ints, floats


def mine_constants():
    """
    Numeric constants of the code under test; used ONLY as generator dictionary
    (sizes, magnitudes) so that thresholds in the code get straddled. Constants
    which were not in the code when the machinery was made are used more often.
    Returns (ints, floats, new ints, new floats).
    """
    ints, floats = _constants()
    try:
        old = json.load(open(os.path.join(VERIF, "rv", "baseline_constants.json")))
    except Exception:
        old = dict(ints=sorted(ints), floats=sorted(floats))
    return (sorted(ints), sorted(floats), sorted(ints - set(old["ints"])),
            sorted(floats - set(old["floats"])))


# --------------------------------------------------------------------------
# line coverage of the code under test (PEP 669, each line reported once)
# --------------------------------------------------------------------------
class Coverage:
    def __init__(self):
        self.seen = set()
        self.root = os.path.realpath(os.path.join(REPO, "padasip")) + os.sep
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, "rv")
        except ValueError:
            return
        self.on = True

        def line(code, no):
            fn = code.co_filename
            if fn.startswith(self.root) or os.path.realpath(fn).startswith(self.root):
                self.seen.add((os.path.relpath(os.path.realpath(fn), self.root), no))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


class Preempt:
    """
    Schedule injection: threads which execute lines of padasip give up the
    interpreter at random lines; counts switches seen inside the library.
    """

    def __init__(self, seed, rate=.15):
        import threading
        self.ident = threading.get_ident
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.rate = rate
        self.switches, self.last, self.lines = 0, None, 0
        self.root = os.path.realpath(os.path.join(REPO, "padasip")) + os.sep

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, "rv-preempt")
        gaps = iter(())

        def line(code, no):
            nonlocal gaps
            if not code.co_filename.startswith(self.root):
                return mon.DISABLE
            me = self.ident()
            self.lines += 1
            if me != self.last:
                self.switches += self.last is not None
                self.last = me
            g = next(gaps, None)
            if g is None:
                gaps = iter((self.rng.random(512) < self.rate).tolist())
                g = True
            if g:
                time.sleep(0)
        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.LINE, None)
        mon.free_tool_id(self.tool)


def executable_lines():
    """(file, line) of all code lines in function bodies of padasip."""
    out = set()
    root = os.path.realpath(os.path.join(REPO, "padasip"))

    def walk(code, rel, inside):
        if inside:
            for _, _, no in code.co_lines():
                if no is not None and no != code.co_firstlineno:
                    out.add((rel, no))
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c, rel, bool(c.co_flags & 0x2))  # CO_NEWLOCALS: functions
    for path in source_files():
        try:
            src = open(path, encoding="utf-8").read()
            code = compile(src, path, "exec", dont_inherit=True)
        except Exception:
            continue
        walk(code, os.path.relpath(os.path.realpath(path), root), False)
    return out


# --------------------------------------------------------------------------
# one case
# --------------------------------------------------------------------------
class Ctx:
    """Context of one monitored case (workload + observations)."""

    def __init__(self, pid, seed, idx, tier, consts, findings):
        self.pid, self.seed, self.idx, self.tier = pid, seed, idx, tier
        self.rng = np.random.Generator(np.random.PCG64(
            [seed & 0xffffffff, zlib.crc32(pid.encode()), idx & 0xffffffff]))
        self.stats = collections.Counter()
        self.kinds = collections.Counter()
        self.sig = hashlib.blake2b(digest_size=8)
        self.desc = {}
        self.nontrivial = False
        self.found = {}
        self.listed = findings
        self.ints, self.floats, self.new_ints, self.new_floats = consts
        self.calls = 0
        self.thorough = tier == "thorough"

    # -- observations ------------------------------------------------------
    def count(self, name, n=1):
        self.stats[name] += int(n)

    def note(self, **kw):
        """describe the case, part of its signature"""
        for k, v in kw.items():
            self.desc[k] = v
        self.sig.update(repr(sorted(kw.items(), key=lambda t: t[0])).encode())

    def digest(self, *arrays):
        for a in arrays:
            self.sig.update(np.ascontiguousarray(a).tobytes())

    def decisive(self, n=1):
        """the oracle decided something in this case"""
        self.nontrivial = True
        self.stats["decisive"] += int(n)

    def call(self, fn, *a, **k):
        """Call the code under test; valid use must not raise."""
        self.calls += 1
        try:
            return fn(*a, **k)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as ex:
            if isinstance(ex, OverflowError) and ex.args[:1] == (34,):
                # power of Python floats raises where NumPy gives infinity
                self.count("overflows")
                raise Overflow(str(ex))
            tb = traceback.extract_tb(ex.__traceback__)
            at = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[1:]]
            raise Violation("valid use raised %s: %s (at %s)" % (
                type(ex).__name__, str(ex)[:200], " < ".join(reversed(at[-3:]))))

    def rejects(self, what, exc, fn, *a, **k):
        """Call which has to be refused with exception of given type(s)."""
        self.calls += 1
        try:
            r = fn(*a, **k)
        except exc:
            self.count("rejections")
            return
        except Exception as ex:
            raise Violation("%s: refused with %s (%s) instead of %s" % (
                what, type(ex).__name__, str(ex)[:120], exc))
        raise Violation("%s: accepted, returned %s" % (what, short(r)))

    def finding(self, key, what):
        """A violation whose mechanism is identified by `key`."""
        if key in self.listed:
            self.found.setdefault(key, what)
        else:
            raise Violation("%s (mechanism %s is not a listed finding)" % (what, key))

    # -- random helpers ----------------------------------------------------
    def flip(self, p=0.5):
        return bool(self.rng.random() < p)

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def irange(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def logu(self, lo, hi):
        return float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))

    def dict_int(self, lo, hi):
        """integer near a constant of the code under test, or None"""
        for pool in (self.new_ints if self.rng.random() < .6 else [], self.ints):
            c = [i for i in pool if lo <= i + 2 and i - 2 <= hi]
            if c:
                v = self.choice(c) + self.choice([-1, 0, 0, 1, 1, 2])
                return int(min(max(v, lo), hi))
        return None

    def dict_float(self, lo, hi):
        for pool in (self.new_floats if self.rng.random() < .6 else [], self.floats):
            c = [f for f in pool if lo <= f <= hi]
            if c:
                v = self.choice(c) * self.choice([0.5, 0.99, 1., 1., 1.01, 2.])
                return float(min(max(v, lo), hi))
        return None

    def over(self, hi, top):
        """a size over the usual ones, near a new constant of the code under test, or None"""
        c = [i for i in self.new_ints if hi < i <= top]
        if not c:
            return None
        return self.choice(c) + self.choice([-1, 0, 1, 1, 2, self.irange(2, 30)])


def short(v, n=160):
    s = repr(v).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


# --------------------------------------------------------------------------
# comparisons
# --------------------------------------------------------------------------
def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def as_float(what, v, shape):
    """Observed result as float array of the given shape, else violation."""
    try:
        arr = np.asarray(v)
    except Exception:
        raise Violation("%s: result is not array-like: %s" % (what, short(v)))
    need(arr.shape == tuple(shape), "%s: shape %s, expected %s", what, arr.shape, tuple(shape))
    need(arr.dtype.kind in "fiub", "%s: dtype %s is not a real number", what, arr.dtype)
    return arr.astype(np.float64) if arr.dtype.kind != "f" else arr


def compare(what, obs, ref, tol):
    """|obs - ref| <= tol elementwise; nan must not appear where ref is finite."""
    obs = np.asarray(obs)
    ref = np.asarray(ref)
    if obs.shape != ref.shape:
        raise Violation("%s: shape %s, expected %s" % (what, obs.shape, ref.shape))
    with np.errstate(all="ignore"):
        diff = np.abs(obs.astype(LD) - ref.astype(LD))
        same = (obs == ref) | (np.isnan(obs.astype(LD)) & np.isnan(ref.astype(LD)))
        # overflow of float64 is out of scope of every property
        bad = ~same & ~(diff <= tol) & ~(np.abs(ref.astype(LD)) > 1e300)
    if np.any(bad):
        at = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
        t = np.broadcast_to(np.asarray(tol), bad.shape)
        raise Violation("%s: at %s observed %.17g, expected %.17g (tolerance %.3g, %d of %d wrong)" % (
            what, tuple(int(i) for i in at), float(obs[at]), float(ref[at]), float(t[at]),
            int(bad.sum()), bad.size))


def identical(what, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s versus %s" % (what, a.shape, b.shape))
    if not np.array_equal(a, b, equal_nan=True):
        d = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        raise Violation("%s: differs at %s: %r versus %r" % (
            what, tuple(d[0]), a[tuple(d[0])], b[tuple(d[0])]))


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(pid):
    """lines 'finding: property=C06 key=<mechanism> <what fails>'"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % pid):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


# --------------------------------------------------------------------------
# runner
# --------------------------------------------------------------------------
class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, ctx):
    """returns None (held) or ('violation'|'inconclusive'|'bug', message)"""
    limit = int(getattr(mod, "CASE_S", 60))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            mod.case(ctx)
        return None
    except Overflow:
        return None
    except Violation as v:
        return "violation", str(v)
    except Inconclusive as v:
        return "inconclusive", str(v)
    except CaseTimeout:
        return "inconclusive", "case took more than %d s" % limit
    except AttributeError as ex:
        return "inconclusive", "cannot observe: %s\n%s" % (ex, traceback.format_exc()[-1500:])
    except (KeyboardInterrupt, SystemExit, MemoryError, HarnessBug):
        raise
    except Exception as ex:
        if isinstance(ex, OverflowError) and ex.args[:1] == (34,):
            return None
        # The monitors check shapes and types before they compute, so an error
        # here means that what was observed could not be interpreted.
        return "bug", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def worker(modname, pid, seed, tier, start, step, limit, deadline, path):
    import warnings
    warnings.simplefilter("ignore")
    cov = Coverage()
    cov.start()
    mod = importlib.import_module(modname)
    load()
    consts = mine_constants()
    listed = known_findings(pid)
    res = dict(cases=0, stats=collections.Counter(), kinds=collections.Counter(), sigs=set(),
               samples=[], violations=[], inconclusive=[], bugs=[], found={}, calls=0)
    idx = start
    while idx < limit and (time.time() < deadline or res["cases"] < 2):
        np.random.seed((seed * 1000003 + idx * 7919) % (2**32))
        ctx = Ctx(pid, seed, idx, tier, consts, listed)
        r = run_case(mod, ctx)
        res["cases"] += 1
        res["stats"].update(ctx.stats)
        res["kinds"].update(ctx.kinds)
        res["calls"] += ctx.calls
        for k, v in ctx.found.items():
            res["found"].setdefault(k, dict(what=v, case=idx))
        if ctx.nontrivial:
            res["sigs"].add(ctx.sig.digest())
        if r is None and ctx.nontrivial and len(res["samples"]) < 2:
            res["samples"].append(dict(case=idx, **ctx.desc))
        if r is not None:
            kind, msg = r
            entry = dict(case=idx, message=msg, desc=ctx.desc)
            res[{"violation": "violations", "bug": "bugs",
                 "inconclusive": "inconclusive"}[kind]].append(entry)
            if kind == "violation" and len(res["violations"]) >= 3:
                break
            if kind == "bug" and len(res["bugs"]) >= 3:
                break
        idx += step
    res["cov"] = cov.seen if cov.on else None
    with open(path, "wb") as f:
        pickle.dump(res, f)


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating, float)):
        v = float(v)
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return short(v)


ROUND = 8 * 10**6


def play(mod, modname, pid, seed, tier, nproc, limit, deadline, scratch, first, merged, cov, died):
    """cases from `first` on until the deadline, by worker processes"""
    procs = []
    for i in range(nproc):
        path = os.path.join(scratch, "%d-%d.pkl" % (first, i))
        p = os.fork()
        if p == 0:
            code = 1
            try:
                worker(modname, pid, seed, tier, first + i, nproc, first + limit, deadline, path)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs.append((p, path))
    hard = deadline + 240
    for p, path in procs:
        while True:
            done, status = os.waitpid(p, os.WNOHANG)
            if done:
                break
            if time.time() > hard:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                break
            time.sleep(0.02)
        if not os.path.exists(path):
            died.append("worker ended without a result")
            continue
        with open(path, "rb") as f:
            r = pickle.load(f)
        for k in ("cases", "calls"):
            merged[k] += r[k]
        merged["stats"].update(r["stats"])
        merged["kinds"].update(r["kinds"])
        merged["sigs"] |= r["sigs"]
        for k in ("samples", "violations", "inconclusive", "bugs"):
            merged[k] += r[k]
        for k, v in r["found"].items():
            merged["found"].setdefault(k, v)
        if r["cov"]:
            cov |= r["cov"]


def main(pid, argv):
    t0 = time.time()
    modname = "rv.checks.%s" % pid.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--thorough" in argv:
        tier = "thorough"
    if "--replay" in argv:
        return replay(mod, pid, argv[argv.index("--replay") + 1])
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)

    budget = dict(quick=getattr(mod, "QUICK_S", 10), thorough=getattr(mod, "THOROUGH_S", 300))[tier]
    budget = float(os.environ.get("RV_BUDGET_S", budget))
    limit = dict(quick=getattr(mod, "QUICK_N", 10**9), thorough=getattr(mod, "THOROUGH_N", 10**9))[tier]
    nproc = int(os.environ.get("RV_PROCS", min(8, os.cpu_count() or 1)))
    scratch = os.path.join(VERIF, "scratch", "%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    merged = dict(cases=0, stats=collections.Counter(), kinds=collections.Counter(), sigs=set(),
                  samples=[], violations=[], inconclusive=[], bugs=[], found={}, calls=0)
    cov, died = set(), []
    try:
        # optional whole-process part, runs before the workers
        if hasattr(mod, "prelude"):
            np.random.seed(seed)
            ctx = Ctx(pid, seed, -1, tier, mine_constants(), known_findings(pid))
            load()
            try:
                mod.prelude(ctx)
            except Violation as v:
                merged["violations"].append(dict(case=-1, message=str(v), desc=ctx.desc))
            except Inconclusive as v:
                merged["inconclusive"].append(dict(case=-1, message=str(v), desc=ctx.desc))
            merged["stats"].update(ctx.stats)
            merged["calls"] += ctx.calls
            for k, v in ctx.found.items():
                merged["found"].setdefault(k, dict(what=v, case=-1))
        wanted = getattr(mod, "NEED", {"decisive": 10})
        t1 = time.time()
        for rnd in range(int(os.environ.get("RV_ROUNDS", "8"))):
            if rnd and (merged["violations"] or merged["bugs"] or died or time.time() - t1 > 300 or
                        all(merged["stats"][k] >= v for k, v in wanted.items())):
                # another round only where a slow machine left the deciding monitors without work
                break
            play(mod, modname, pid, seed, tier, nproc, limit, time.time() + budget, scratch, rnd * ROUND, merged, cov, died)
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)

    # verdict
    starved = ["%s=%d<%d" % (k, merged["stats"][k], v)
               for k, v in getattr(mod, "NEED", {"decisive": 10}).items()
               if merged["stats"][k] < v]
    viols = sorted(merged["violations"], key=lambda v: v["case"])
    bugs = sorted(merged["bugs"], key=lambda v: v["case"])
    # what was observed could not be interpreted by the oracle: the code
    # returned something outside of its documented result types
    viols += [dict(b, message="uninterpretable result: " + b["message"]) for b in bugs]
    exe = executable_lines()
    files = getattr(mod, "FILES", None)
    if files:
        exe = {t for t in exe if any(t[0].startswith(f) for f in files)}
    hit = exe & cov
    missed = collections.defaultdict(list)
    for f, no in sorted(exe - cov):
        missed[f].append(no)
    data = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=merged["cases"],
            distinct_nontrivial=len(merged["sigs"]),
            rule=getattr(mod, "RULE", "") + " A case is non-trivial when the oracle decided at "
            "least one observation of it; distinct by hash of configuration and data.",
            samples=jsonable(merged["samples"][:6]),
            calls_into_padasip=merged["calls"],
            observed=dict(sorted(merged["stats"].items())),
            case_kinds=dict(sorted(merged["kinds"].items())),
            code_lines_reached=len(hit), code_lines_in_scope=len(exe),
            code_lines_missed=dict(missed),
            findings_seen={k: v["what"] for k, v in sorted(merged["found"].items())},
            inconclusive_cases=[jsonable(v) for v in merged["inconclusive"][:5]],
        ),
        assumptions=list(getattr(mod, "ASSUME", [])),
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(evidence, "w") as f:
        json.dump(data, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d calls, %d decisive observations, "
          "%d/%d lines, %.1f s" % (
              pid, tier, seed, merged["cases"], len(merged["sigs"]), merged["calls"],
              merged["stats"]["decisive"], len(hit), len(exe), time.time() - t0))
    for key, what in sorted(known_findings(pid).items()):
        if key in merged["found"]:
            print("KNOWN-FINDING: property=%s key=%s %s" % (pid, key, what))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        v = viols[0]
        rp = os.path.join("replays", "%s-%s-%d-%d.json" % (pid, tier, seed, v["case"]))
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, case=v["case"],
                           message=v["message"], desc=jsonable(v["desc"])), f, indent=1)
        for x in viols[:5]:
            print("  case %d: %s" % (x["case"], x["message"][:1500]))
            print("    %s" % short(jsonable(x["desc"]), 400))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if died:
        print("ERROR: " + "; ".join(died))
        return 3
    if len(merged["inconclusive"]) > 0.02 * merged["cases"]:
        for x in merged["inconclusive"][:3]:
            print("INCONCLUSIVE case %d: %s" % (x["case"], x["message"][:1500]))
        return 2
    if starved:
        print("INCONCLUSIVE: deciding monitors starved: " + ", ".join(starved))
        return 2
    return 0


def replay(mod, pid, path):
    import warnings
    warnings.simplefilter("ignore")
    r = json.load(open(path if os.path.exists(path) else os.path.join(VERIF, path)))
    load()
    ctx = Ctx(pid, r["seed"], r["case"], r["tier"], mine_constants(), known_findings(pid))
    if r["case"] < 0:
        np.random.seed(r["seed"])
        try:
            mod.prelude(ctx)
            out = None
        except Violation as v:
            out = "violation", str(v)
    else:
        np.random.seed((r["seed"] * 1000003 + r["case"] * 7919) % (2**32))
        out = run_case(mod, ctx)
    print(json.dumps(jsonable(ctx.desc), indent=1))
    if out is None:
        print("replayed case holds")
        return 0
    print("%s: %s" % out)
    if out[0] in ("violation", "bug"):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 2
