"""C29: constant memory and work of real-time use"""
import gc
import os
import sys
import tracemalloc

import numpy as np

from .. import core, filt
from . import _net
from ..core import Violation, need

FILES = ["filters"]
RULE = ("All filters (and the network) used sample after sample for thousands of samples by adapt, predict, both, or by many "
        "batch runs whose results are dropped; allocations (tracemalloc snapshots), temporary memory and executed lines "
        "of the library are compared between early and late use.")
NEED = dict(decisive=100, samples=100000, batch=8, memory_checks=50, work_checks=50)
CASE_S = 120
QUICK_S = 14
MODES = ["adapt", "predict+adapt", "predict", "adapt+run", "batch", "batch", "pretrained", "functions", "single runs", "run, then adapt"]


def held():
    """bytes held which were allocated outside of this machinery"""
    gc.collect()
    s = tracemalloc.take_snapshot().filter_traces([
        tracemalloc.Filter(False, os.path.join(core.VERIF, "rv", "*")),
        tracemalloc.Filter(False, tracemalloc.__file__),
        tracemalloc.Filter(False, os.path.join(os.path.dirname(os.__file__), "linecache.py"))])
    return sum(t.size for t in s.traces)


class Lines:
    """number of executed lines of the library"""

    def __init__(self):
        self.n = 0
        self.root = os.path.realpath(os.path.join(core.REPO, "padasip")) + os.sep

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(5, "rv-work")

        def line(code, no):
            if not code.co_filename.startswith(self.root):
                return mon.DISABLE
            self.n += 1
        mon.register_callback(5, mon.events.LINE, line)
        mon.set_events(5, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(5, 0)
        mon.register_callback(5, mon.events.LINE, None)
        mon.free_tool_id(5)


def block(use, a, b):
    """temporary memory and lines of use of samples a..b"""
    tracemalloc.reset_peak()
    now = tracemalloc.get_traced_memory()[0]
    with Lines() as lines:
        for k in range(a, b):
            use(k)
    return tracemalloc.get_traced_memory()[1] - now, lines.n


def functions(ctx, x, d):
    pa = core.load()
    r = ctx.rng
    name = ctx.choice(["errors", "detection", "preprocess", "network", "network"])
    P = len(x)
    if name == "errors":
        def use(k):
            j = k % (P - 20)
            s = d[j:j + 20] * (1 + 1e-9 * k)
            pa.misc.MSE(s, d[:20])
            pa.misc.get_mean_error(s, d[:20], function="RMSE")
            pa.misc.MAE(s)
            pa.misc.logSE(s)
    elif name == "detection":
        W = np.cumsum(r.normal(0, 1, (P, 3)), axis=0)

        def use(k):
            j = k % (P - 20)
            w = W[j:j + 20] * (1 + 1e-9 * k)
            pa.detection.learning_entropy(w, m=8)
            pa.detection.learning_entropy(w, m=8, alpha=[1., 2.])
            pa.detection.ELBND(w, d[j:j + 20])
    elif name == "preprocess":
        X = r.normal(0, 1, (P, 3))
        lab = r.integers(0, 2, P)

        def use(k):
            j = k % (P - 30)
            c = 1 + 1e-9 * k
            pa.standardize_back(pa.standardize(d[j:j + 30] * c), 1., 2.)
            pa.input_from_history(d[j:j + 30] * c, 3, bias=True)
            pa.preprocess.PCA(X[j:j + 30] * c, 2)
            pa.preprocess.PCA_components(X[j:j + 30] * c)
            pa.preprocess.LDA(X[j:j + 30] * c, lab[j:j + 30], 2)
    else:
        outs = ctx.choice([1, 2])
        nn = _net.build(ctx, [3, 2], x.shape[1], outs, "tanh", .01)
        t = d if outs == 1 else np.stack([d, -d], 1)
        learn = ctx.flip(.7)

        def use(k):
            nn.predict(x[k % P] * (1 + 1e-9 * k))
            if learn:
                nn.update(t[k % P])
            elif k % 50 == 0:
                nn.run(x[:20])
                nn.test(x[:20], t[:20])
    return name, use


def case(ctx):
    r = ctx.rng
    core.load()
    mode = MODES[ctx.idx % len(MODES)] if ctx.flip(.5) else ctx.choice(MODES)
    kind = filt.KINDS[(ctx.idx * 7) % len(filt.KINDS)]
    n = ctx.choice([1, 2, 3, 4, ctx.irange(1, 12)])
    P = 257
    x = r.normal(0, 1, (P, n))
    d = x @ r.normal(0, 1, n) + r.normal(0, .1, P)
    if ctx.flip(.5 if kind == "Llncosh" else .2):
        # learning rules in saturation, or almost without errors
        d = d * ctx.choice([1e3, 1e5, 1e-6])
        if kind == "Llncosh" and ctx.flip(.7):
            d = d + ctx.choice([-1, 1]) * 1e6
        if kind == "Llncosh" or ctx.flip(.3):
            x = x * 1e-3
        ctx.count("saturated")
    p = filt.params(ctx, kind, x, d)
    f = filt.new(ctx, kind, n, p, "zeros")
    warm, M, B = 400, (20000 if ctx.thorough else 1000), 150
    if mode in ("batch", "pretrained"):
        warm, M, B = 6, (400 if ctx.thorough else 40), 6
    xs, ds = list(x), [float(v) for v in d]
    if ctx.flip(.6):
        # samples never come back
        class Fresh(list):
            def __init__(self, data):
                super().__init__(data)
                self.no = 0

            def __getitem__(self, k):
                self.no += 1
                return super().__getitem__(k) * (1 + 1e-9 * self.no)
        xs = Fresh(xs)
        ctx.count("never_repeated")

    form = ctx.choice([None, None, tuple, list, lambda v: v.astype("float32"), lambda v: np.array(v)[::-1].copy()[::-1]])
    if mode.startswith('predict') and ctx.flip(.4):
        form = ctx.choice([tuple, list])
    if form:
        inner_xs, shown = xs, form

        class Formed:
            def __getitem__(self, k):
                return shown(inner_xs[k])

            def __setitem__(self, k, v):
                inner_xs[k] = v
        xs = Formed()
        ctx.count("other_containers")
    if mode == "adapt":
        def use(k):
            f.adapt(ds[k % P], xs[k % P])
    elif mode == "predict+adapt":
        def use(k):
            f.predict(xs[k % P])
            f.adapt(ds[k % P], xs[k % P])
    elif mode == "predict":
        def use(k):
            f.predict(xs[k % P])
    elif mode == "adapt+run":
        def use(k):
            if k % 100 == 37:
                f.run(d[:30], x[:30])
            f.adapt(ds[k % P], xs[k % P])
    elif mode == "run, then adapt":
        m = ctx.irange(1, 100)

        def use(k):
            if k == 3:
                f.run(d[:m], x[:m])
            else:
                f.adapt(ds[k % P], xs[k % P])
    elif mode == "single runs":
        def use(k):
            j = k % (P - 3)
            m = 1 + (k % 7 == 3)
            f.run(d[j:j + m], x[j:j + m])
    elif mode == "batch":
        def use(k):
            j = 11 * k % (P - 150)
            f.run(d[j:j + 60], x[j:j + 60])
    elif mode == "pretrained":
        def use(k):
            j = 11 * k % (P - 150)
            f.pretrained_run(d[j:j + 60], x[j:j + 60], ntrain=.5, epochs=1 + k % 2)
    else:
        kind, use = functions(ctx, x, d)
        if kind != "network":
            warm, M, B = 60, (4000 if ctx.thorough else 200), 40
    per = 60 if mode in ("batch", "pretrained") else 1
    ctx.note(kind=kind, mode=mode, n=n, params=p)
    ctx.kinds[mode] += 1
    ctx.kinds[kind] += 1
    what = "%s, %s" % (kind, mode)
    if mode not in ("functions", "predict") and ctx.flip(.25):
        # samples which are not finite, in the beginning only or again and again
        lost = ctx.choice(["target", "target", "input"])
        bad = ctx.choice([np.nan, np.inf, -np.inf])
        if lost == "target":
            ds[5] = bad
            d[20] = bad
        else:
            xs[5] = np.where(np.arange(n) == 0, bad, xs[5])
            x[20, 0] = bad
        what += ", %s which is not finite" % lost
        ctx.count("lost_samples")
    else:
        lost = None
    refused = ctx.flip(.15) and mode in ("adapt", "predict+adapt", "adapt+run")
    if refused:
        inner, wide = use, np.ones(n + 1)

        def use(k):
            try:
                f.adapt(1., wide)
            except ValueError:
                pass
            inner(k)
        what += ", refused calls between"
        ctx.count("refused_between")
    # lines which are rare belong to warm-up
    tracemalloc.start(1)
    try:
        for k in range(warm):
            use(k)
        t0, l0 = block(use, warm, warm + B)
        k0 = warm + B
        m0 = held()
        for k in range(k0, k0 + M):
            use(k)
        m1 = held()
        for k in range(k0 + M, k0 + 2 * M):
            use(k)
        m2 = held()
        k1 = k0 + 2 * M
        # single late allocations of the interpreter or NumPy are no growth
        late = [block(use, k1 + i * B, k1 + i * B + B) for i in range(3)]
        t1, l1 = min(t for t, _ in late), min(l for _, l in late)
    finally:
        tracemalloc.stop()
    if not lost and not np.all(np.isfinite(f.w)):
        return
    S = 2 * M * per
    ctx.count("samples", (k1 + 3 * B) * per)
    # free lists of the interpreter and NumPy fill slowly
    slack = 6000 + (S if per == 1 else 30 * 2 * M) / 2
    need(min(m2 - m1, m1 - m0) <= slack, "%s: memory grows with use, %d bytes held after %d samples, %d after %d, %d after %d "
         "(%.3g per sample)", what, m0, k0 * per, m1, (k0 + M) * per, m2, k1 * per, (m2 - m0) / S)
    ctx.count("memory_checks")
    need(t1 <= 1.5 * t0 + 4000, "%s: temporary memory grows with use, %d bytes for %d samples after %d, %d after %d", what,
         t0, B * per, warm * per, t1, k1 * per)
    need(l1 <= 1.3 * l0 + 60, "%s: work grows with use, %d lines executed for %d samples after %d, %d after %d", what,
         l0, B * per, warm * per, l1, k1 * per)
    ctx.count("work_checks")
    ctx.count("lines_counted", l0 + l1)
    if per > 1:
        ctx.count("batch")
    ctx.decisive(3)
