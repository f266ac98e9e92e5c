"""C10: independence of instances, determinism, global state"""
import gc
import locale
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import core, filt, fresh
from ..core import Inconclusive, Violation, need

FILES = ["filters/", "ann/", "detection/", "misc/", "preprocess/"]
RULE = ("Groups of filters (often of the same kind) and networks used in random interleavings, in one thread and in "
        "threads with forced switching, compared with solitary use; process-wide state is digested around every phase.")
NEED = dict(decisive=1000, interleaved=50, threaded=20, switches_inside_library=2000, repeats=20, global_states=200, networks=5, functions=200, fresh_processes=50)


def global_state():
    st = np.random.get_state()
    return dict(
        random=(st[0], st[1].tobytes(), st[2], st[3], st[4]), pyrandom=random.getstate(),
        geterr=tuple(sorted(np.geterr().items())), errcall=repr(np.geterrcall()),
        warnings=repr(warnings.filters), printoptions=repr(sorted(np.get_printoptions().items())),
        cwd=os.getcwd(), env=tuple(sorted(os.environ.items())), recursion=sys.getrecursionlimit(),
        switch=sys.getswitchinterval(), filters=tuple(sorted(core.load().filters.FILTERS)),
        path=tuple(sys.path), gc=(gc.isenabled(), gc.get_threshold()), locale=locale.setlocale(locale.LC_ALL),
        hooks=(id(sys.excepthook), id(sys.displayhook), id(warnings.showwarning)),
        stdout=id(sys.stdout), threads=threading.active_count())


def untouched(ctx, before, what, but=()):
    after = global_state()
    for k in before:
        if k not in but and before[k] != after[k]:
            raise Violation("%s changed process-wide state: %s" % (what, k))
    ctx.count("global_states")
    ctx.decisive()


class Job:
    """a filter with its own stream and script of calls"""

    def __init__(self, ctx, like=None):
        self.c = c = filt.scenario(ctx, [like.c.kind] if like is not None and ctx.flip(.7) else filt.KINDS, hi=60, wild=.15)
        if like is not None and like.c.kind == c.kind and ctx.flip(.4):
            # twin in the same configuration but other data: shared state would mix them
            c.p, c.n = dict(like.c.p), like.c.n
            c.x = np.resize(c.x, (c.N, c.n)) if c.x.shape[1] != c.n else c.x
            c.w = np.resize(c.w, c.n)
            c.warg = c.w.copy()
            if c.kind == "AP":
                # the data may be of other magnitude: regularisation under the rounding of the energies would be none
                c.p["ifc"] = like.c.p["ifc"] = max(like.c.p["ifc"], 1e-11 * float(np.max(np.sum(c.x * c.x, axis=1))))
        if ctx.flip(.12):
            # values at the end of what numbers hold
            big = ctx.choice([1e100, 1e160, 1e200, 1e300, -1e120, 1e-200])
            c.d, c.x = c.d.copy(), c.x.copy()
            k = ctx.irange(0, c.N - 1)
            if ctx.flip(.7):
                c.d[k] = big
            else:
                c.x[k, ctx.irange(0, c.n - 1)] = big
            ctx.count("extremes")
        self.script = []
        i = 0
        while i < c.N:
            u = ctx.irange(0, 5)
            m = 1 if u < 3 else ctx.irange(1, min(10, c.N - i))
            if ctx.flip(.3):
                self.script.append(("predict", i, i + 1))
            self.script.append(("adapt" if u < 3 else "run", i, i + m))
            if m > 3 and ctx.flip(.4):
                self.script[-1] = ("pretrained", i, i + m, ctx.choice([.3, .5, .75]), ctx.choice([1, 2, 3, 5, 12]))
            i += m

    def make(self, ctx):
        return filt.new(ctx, self.c.kind, self.c.n, self.c.p, self.c.w.copy(), self.c.via)

    def step(self, f, call, j):
        return step(f, call, self.c.d, self.c.x, *self.script[j])

    def fresh(self, ctx):
        c = self.c
        return fresh.run(ctx, alone, c.kind, c.n, c.p, c.w, c.via, c.d, c.x, self.script)


def step(f, call, d, x, what, a, b, ntrain=.5, epochs=1):
    if what == "pretrained":
        return [np.array(v) for v in call(f.pretrained_run, d[a:b], x[a:b], ntrain=ntrain, epochs=epochs)] + [np.array(f.w)]
    if what == "predict":
        return [np.array(call(f.predict, x[a]))]
    if what == "adapt":
        call(f.adapt, d[a], x[a])
        return [np.array(f.w)]
    r = call(f.run, d[a:b], x[a:b])
    return [np.array(v) for v in r] + [np.array(f.w)]


class Caller:
    def __init__(self):
        self.calls = 0
    call = core.Ctx.call


def alone(kind, n, p, w, via, d, x, script):
    ctx = Caller()
    f = filt.new(ctx, kind, n, p, w.copy(), via)
    return [step(f, ctx.call, d, x, *s) for s in script]


def same(what, solo, mixed):
    need(len(solo) == len(mixed), "%s: number of results", what)
    for j, (a, b) in enumerate(zip(solo, mixed)):
        need(len(a) == len(b), "%s: step %d", what, j)
        for k, (p, q) in enumerate(zip(a, b)):
            core.identical("%s: step %d, result %d" % (what, j, k), q, p)


def interleave(ctx, threaded):
    jobs = [Job(ctx)]
    for _ in range(ctx.irange(1, 3)):
        jobs.append(Job(ctx, jobs[0]))
    before = global_state()
    solo = []
    for job in jobs:
        f = job.make(ctx)
        solo.append([job.step(f, ctx.call, j) for j in range(len(job.script))])
    fs = [job.make(ctx) for job in jobs]
    mixed = [[] for _ in jobs]
    if not threaded:
        todo = [0] * len(jobs)
        while True:
            left = [i for i, job in enumerate(jobs) if todo[i] < len(job.script)]
            if not left:
                break
            i = ctx.choice(left)
            for _ in range(ctx.choice([1, 1, 1, 2, 5])):
                if todo[i] < len(jobs[i].script):
                    mixed[i].append(jobs[i].step(fs[i], ctx.call, todo[i]))
                    todo[i] += 1
            ctx.sig.update(bytes([i]))
        ctx.count("interleaved")
    else:
        log, errors = [], []
        gate = threading.Barrier(len(jobs))

        def body(i):
            try:
                with np.errstate(all="ignore"):
                    gate.wait(30)
                    for j in range(len(jobs[i].script)):
                        log.append(i)
                        mixed[i].append(jobs[i].step(fs[i], ctx.call, j))
            except BaseException as ex:
                errors.append(ex)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            with core.Preempt([ctx.seed & 0xffffffff, ctx.idx & 0xffffffff], ctx.choice([.02, .15, .5])) as pre:
                ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(60)
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        if any(t.is_alive() for t in ts):
            raise Inconclusive("thread did not finish")
        ctx.count("threaded")
        ctx.count("switches_inside_library", pre.switches)
        ctx.count("lines_in_threads", pre.lines)
        ctx.count("thread_switches", sum(a != b for a, b in zip(log, log[1:])))
        ctx.sig.update(bytes(log[:2000]))
    for i, job in enumerate(jobs):
        same("%s used %s with %s" % (job.c.kind, "in threads" if threaded else "alternately",
                                     [q.c.kind for q in jobs if q is not job]), solo[i], mixed[i])
        ctx.decisive(len(solo[i]))
    untouched(ctx, before, "use of filters %s" % [q.c.kind for q in jobs])
    if ctx.flip(.3):
        # third run, after everything else
        f = jobs[0].make(ctx)
        same("repeated use of %s" % jobs[0].c.kind, solo[0],
             [jobs[0].step(f, ctx.call, j) for j in range(len(jobs[0].script))])
        ctx.count("repeats")
    for i, job in enumerate(jobs):
        if ctx.flip(.4):
            same("%s in a process which used %s before, and in a fresh one" % (
                job.c.kind, "other filters"), job.fresh(ctx), solo[i])


def seeded(ctx):
    """random weights: reproducible by the seed; only the creation draws"""
    c = filt.scenario(ctx, hi=40, wild=.1)
    sd = ctx.irange(0, 2**31)
    np.random.seed(sd)
    f = filt.new(ctx, c.kind, c.n, c.p, "random", c.via)
    before = global_state()
    r = [np.array(v) for v in ctx.call(f.run, c.d, c.x)]
    untouched(ctx, before, "run of %s" % c.kind)
    noise = np.random.normal(0, 1, ctx.irange(0, 5))
    np.random.seed(sd)
    g = filt.new(ctx, c.kind, c.n, c.p, "random", c.via)
    core.identical("%s: random weights for the same seed" % c.kind, filt.weights(g), r[2][0])
    q = [np.array(v) for v in ctx.call(g.run, c.d, c.x)]
    same("%s seeded twice" % c.kind, [r], [q])
    np.random.seed((sd + 1) % 2**31)
    h = filt.new(ctx, c.kind, c.n, c.p, "random", c.via)
    after = np.random.get_state()
    np.random.seed(sd)
    filt.new(ctx, c.kind, c.n, c.p, "random", c.via)
    now = np.random.get_state()
    need(after[1].tobytes() != now[1].tobytes(), "%s: creation resets the global random generator", c.kind)
    need(not np.array_equal(h.w, r[2][0]), "%s: two filters got the same random weights", c.kind)
    ctx.decisive(len(r[0]))
    ctx.count("repeats")


def function(name, x, args):
    """one call of a function of the library, by name (also run in fresh processes)"""
    pa = core.load()
    lab = np.arange(len(x)) % 3
    call = Caller().call
    if name == "standardize":
        return np.array(call(pa.standardize, x, *args))
    if name == "standardize_back":
        return np.array(call(pa.standardize_back, x[:, 0], *args))
    if name == "history":
        return np.array(call(pa.input_from_history, x[:, 0], *args))
    if name in ("MSE", "RMSE", "MAE", "logSE"):
        f = getattr(pa.misc, name)
        return np.array(call(f, x[:, 0], x[:, 1]) if args[0] else call(f, x[:, 0]))
    if name == "mean_error":
        return np.array(call(pa.misc.get_mean_error, x[:, 0], x[:, 1], *args))
    if name == "ELBND":
        return np.array(call(pa.detection.ELBND, x, x[:, 0], *args))
    if name == "LE":
        return np.array(call(pa.detection.learning_entropy, x, m=args[0], order=args[1], alpha=args[2]))
    if name == "ESE":
        return np.array(call(pa.detection.ESE, x[:, :1], window=args[0]))
    if name == "PCA":
        return np.array(call(pa.preprocess.PCA, x, *args))
    if name == "PCA_components":
        return np.array(call(pa.preprocess.PCA_components, x))
    if name == "LDA":
        return np.array(call(pa.preprocess.LDA, x, lab, *args))
    return np.array(call(pa.preprocess.LDA_discriminants, x, lab))


def some_call(ctx, data):
    name = ctx.choice(["standardize", "standardize_back", "history", "MSE", "RMSE", "MAE", "logSE", "mean_error", "ELBND", "LE",
                       "LE", "PCA", "PCA_components", "LDA", "LDA_discriminants"] + ["ESE"] * ctx.flip(.3))
    r = ctx.rng
    n = data[0].shape[1]
    args = dict(
        standardize=(float(r.normal()), float(r.uniform(.5, 2))) if ctx.flip() else (),
        standardize_back=(float(r.normal()), float(r.uniform(.5, 2))), history=(ctx.irange(1, 12),),
        mean_error=(ctx.choice(["MSE", "RMSE", "MAE"]),), ELBND=(ctx.choice(["max", "sum"]),),
        LE=(ctx.irange(2, 9), ctx.irange(1, 3), [ctx.choice([.5, 1., 2., 4., 8.]) for _ in range(ctx.irange(1, 3))]
            if ctx.flip() else None),
        ESE=(ctx.irange(5, 15),), PCA=(ctx.irange(1, n - 1),), LDA=(ctx.irange(1, n - 1),)).get(name, (ctx.flip(),))
    if name == "LE" and args[2] is None:
        args = args[:2] + ([8., 9., 10., 11., 12., 13.],)
    return name, args


def functions(ctx):
    r = ctx.rng
    N, n = ctx.irange(14, 50), ctx.irange(2, 5)
    data = [r.normal(0, 1, (N, n)), r.normal(0, 1, (N + 3, n)), r.normal(0, 1, (N, n)) + np.arange(n)]
    for x in data:
        if ctx.flip():
            x[ctx.irange(0, N - 1), :2] = 0
    calls, results = [], []
    for _ in range(ctx.irange(4, 12)):
        c = some_call(ctx, data)
        if calls and ctx.flip(.4):
            # the same function again, with another data or arguments
            c = calls[-1][:1] + c[1:] if c[0] == calls[-1][0] else calls[-1][:1] + calls[-1][2:]
        calls.append((c[0], ctx.irange(0, 2), c[1]))
        before = global_state()
        results.append(function(c[0], data[calls[-1][1]], c[1]))
        untouched(ctx, before, c[0])
    for i, c in enumerate(calls):
        if ctx.flip(.3):
            core.identical("%s%r repeated" % (c[0], c[2]), function(c[0], data[c[1]], c[2]), results[i])
        if ctx.flip(.25):
            core.identical("%s%r in a process used before and in a fresh one" % (c[0], c[2]),
                           results[i], fresh.run(ctx, function, c[0], data[c[1]], c[2]))
        ctx.decisive()
        ctx.count("functions")
    ctx.note(fn="functions", N=N, n=n, calls=[c[0] for c in calls])
    ctx.digest(*data)


def network(call, seed, layers, n, kw):
    np.random.seed(seed)
    return call(core.load().ann.NetworkMLP, layers, n, **kw)


def use(call, net, x, d, j, only=None):
    """only: the first or the second half of a step of two calls"""
    if only == 0 and j % 3 == 2:
        return [np.array(call(net.predict, x[j % len(x)]))]
    if only == 1 and j % 3 == 2:
        return [np.array(call(net.update, d[j % len(x)]))]
    if j % 3 == 0:
        return [np.array(v) for v in call(net.train, x, d, epochs=(1, 1, 2, 3, 8)[(j + len(x)) % 5])]
    if j % 3 == 1:
        return [np.array(call(net.run, x))]
    return [np.array(call(net.predict, x[j % len(x)])), np.array(call(net.update, d[j % len(x)]))]


def alone_network(seed, layers, n, kw, x, d, K):
    ctx = Caller()
    net = network(ctx.call, seed, layers, n, kw)
    return [use(ctx.call, net, x, d, j) for j in range(K)]


def networks(ctx):
    r = ctx.rng
    n, N = ctx.irange(1, ctx.choice([4, 4, 20])), ctx.irange(3, 10)
    x, d = r.normal(0, 1, (N, n)), r.normal(0, 1, N)
    sds = [ctx.irange(0, 10**6) for _ in range(2)]
    kw = [dict(activation=ctx.choice(["sigmoid", "tanh"]), mu=ctx.choice(["auto", .2])) for _ in range(2)]
    lay = [[ctx.irange(1, 5) for _ in range(ctx.irange(1, 3))] for _ in range(2)]
    if ctx.flip(.4):
        lay[1] = list(lay[0])
    K = ctx.irange(2, 14)
    solo = []
    for i in range(2):
        net = network(ctx.call, sds[i], lay[i], n, kw[i])
        before = global_state()
        solo.append([use(ctx.call, net, x, d, j) for j in range(K)])
        untouched(ctx, before, "network without shuffling")
    # creation draws from the global generator and does nothing else with it
    left = []
    for sd in (sds[0], sds[0] + 1):
        net = network(ctx.call, sd, lay[0], n, kw[0])
        left.append((np.random.get_state()[1].tobytes(), np.random.get_state()[2], net.w.tobytes(), net.layers[0].w.tobytes()))
    need(left[0][:2] != left[1][:2], "network: state of the global random generator after creation does not depend on the seed")
    need(left[0][2] != left[1][2] and left[0][3] != left[1][3], "network: initial weights do not depend on the seed")
    nets = [network(ctx.call, sds[i], lay[i], n, kw[i]) for i in range(2)]
    mixed = [[], []]
    half = [None, None]
    while min(len(m) for m in mixed) < K:
        i = ctx.irange(0, 1)
        if half[i]:
            mixed[i].append(half[i] + use(ctx.call, nets[i], x, d, len(mixed[i]), 1))
            half[i] = None
        elif len(mixed[i]) < K and len(mixed[i]) % 3 == 2 and ctx.flip(.7):
            # the other network may work between predict and update of this one
            half[i] = use(ctx.call, nets[i], x, d, len(mixed[i]), 0)
            ctx.count("interrupted_steps")
        elif len(mixed[i]) < K:
            mixed[i].append(use(ctx.call, nets[i], x, d, len(mixed[i])))
    # shuffling draws from the global generator as well, and only there
    out = []
    for sd in (sds[0], sds[0], sds[0] + 1):
        net = network(ctx.call, 7, lay[0], n, kw[0])
        np.random.seed(sd)
        before = global_state()
        ep = ctx.irange(1, 4) if not out else len(out[0][1])
        r = ctx.call(net.train, x, d, epochs=ep, shuffle=True)
        untouched(ctx, before, "training with shuffling", but=("random",))
        out.append((np.array(r[0]), np.array(r[1]), np.random.get_state()))
    core.identical("training with shuffling, the same seed", out[0][0], out[1][0])
    need(out[0][2][1].tobytes() == out[1][2][1].tobytes() and out[0][2][2:] == out[1][2][2:], "state of the global random generator after shuffling is not reproducible")
    need(out[0][2][1].tobytes() != out[2][2][1].tobytes(), "state of the global random generator after shuffling does not depend on the seed")
    for i in range(2):
        same("network used alternately", solo[i], mixed[i])
        if ctx.flip(.5):
            same("network in a process used before and in a fresh one",
                 fresh.run(ctx, alone_network, sds[i], lay[i], n, kw[i], x, d, K), solo[i])
    ctx.note(fn="mlp", lay=lay, n=n, N=N)
    ctx.digest(x)
    ctx.decisive(2 * K)
    ctx.count("networks")


def case(ctx):
    fresh.start()
    with np.errstate(**{k: ctx.choice(["ignore", "ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}):
        parts(ctx)


def parts(ctx):
    u = ctx.idx // 8 % 8
    if u < 3:
        interleave(ctx, False)
    elif u < 5:
        interleave(ctx, True)
    elif u == 5:
        seeded(ctx)
    elif u == 6:
        functions(ctx)
    else:
        networks(ctx)
