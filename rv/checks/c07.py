"""C07: segmentation of the stream, purity of predict"""
import numpy as np

from .. import core, filt
from ..core import EPS, Violation, need
from . import c06

FILES = ["filters/"]
RULE = ("Random filter, data and partition of the stream into run segments, adapt calls, predict-then-adapt and predict "
        "with unrelated probe vectors; the whole trajectory is compared with one run of a twin over the whole stream.")
NEED = dict(decisive=1000, predict_calls=200, segments=200, adapt_calls=200)


def probe(ctx, n, x):
    u = ctx.rng.random()
    if u < .5:
        return x.copy()
    v = ctx.rng.normal(0, 1, n) * 10. ** ctx.rng.uniform(-3, 4)
    if u > .95:
        v[ctx.irange(0, n - 1)] = ctx.choice([np.nan, np.inf, -np.inf])
    if u < .6:
        v[:] = 0
    return v


def case(ctx):
    c = filt.scenario(ctx, hi=150, long=.04, wild=.25)
    N, n = c.N, c.n
    if ctx.flip(.05):
        # a lost target: weights are lost too, in every segmentation
        c.d[ctx.irange(0, c.N - 1)] = np.nan
        ctx.count("lost_targets")
    f, g = filt.build(ctx, c), filt.build(ctx, c)
    dressed = ctx.flip(.4)
    if ctx.flip(.2):
        c.x, c.d = c.x.astype(np.float32).astype(float), c.d.astype(np.float32).astype(float)
    y, e, W, W1 = filt.trace_run(ctx, f, c.d, c.x)
    probing = ctx.flip(.6)
    Y, E = np.full(N, np.nan), np.full(N, np.nan)
    V0, V1 = np.zeros((N, n)), np.zeros((N, n))
    ev, i, style = [], 0, ctx.irange(0, 3)
    predicted = 0
    buf = np.empty(n)
    while i < N:
        if style == 0 or (style == 1 and ctx.flip()):
            m = 1 if style == 0 else ctx.irange(1, N - i)
            what = "adapt"
        else:
            m = ctx.irange(1, N - i) if style != 3 else min(N - i, ctx.irange(1, 3))
            what = "run"
        if probing and ctx.flip(.5):
            for _ in range(ctx.irange(1, 3)):
                v = probe(ctx, n, c.x[i])
                w0 = filt.weights(g)
                if ctx.flip(.4):
                    # one array of the caller, used for all questions
                    buf[:] = v
                    out = core.as_float("predict", ctx.call(g.predict, buf), ())
                elif ctx.flip(.1):
                    out = core.as_float("predict", ctx.call(g.predict, v.tolist()), ())
                else:
                    out = core.as_float("predict", ctx.call(g.predict, v), ())
                core.identical("weights after predict", filt.weights(g), w0)
                if c.kind != "OCNLMS" and np.all(np.isfinite(v)) and np.all(np.isfinite(w0)):
                    ref, bound = filt.output_bounds(w0[None], v[None])
                    core.compare("%s: predict" % c.kind, out, ref[0], bound[0])
                    ctx.decisive()
                ev.append(("predict", None, v, float(out), None, w0, w0))
                predicted += 1
                ctx.count("predict_calls")
        if what == "run":
            dd, xx = c.d[i:i + m], c.x[i:i + m]
            if dressed:
                dd, xx = filt.dress(ctx, dd), filt.dress(ctx, xx)
            a, b, V0[i:i + m], V1[i:i + m] = filt.trace_run(ctx, g, dd, xx)
            Y[i:i + m], E[i:i + m] = a, b
            for k in range(i, i + m):
                ev.append(("run", c.d[k], c.x[k], Y[k], E[k], V0[k], V1[k]))
            ctx.count("segments")
        else:
            for k in range(i, i + m):
                V0[k] = filt.weights(g)
                if probing and ctx.flip(.5):
                    Y[k] = core.as_float("predict", ctx.call(g.predict, c.x[k]), ())
                    ev.append(("predict", None, c.x[k], Y[k], None, V0[k], V0[k]))
                    predicted += 1
                    ctx.count("predict_calls")
                r = ctx.call(g.adapt, c.d[k], filt.dress(ctx, c.x[k]) if dressed else c.x[k])
                V1[k] = filt.weights(g)
                ev.append(("adapt", c.d[k], c.x[k], None, None, V0[k], V1[k]))
                ctx.count("adapt_calls")
        i += m
    Y = np.where(np.isnan(Y), y, Y)
    E = np.where(np.isnan(E), e, E)

    def twin():
        h = filt.new(ctx, c.kind, n, c.p, c.w, c.via)
        return filt.trace_run(ctx, h, filt.jitter(ctx, c.d), filt.jitter(ctx, c.x))
    try:
        stop = filt.same_traj(ctx, "%s %s: segmented stream (style %d, predict %s)" % (c.kind, c.p, style, probing),
                              (y, e, W, W1), (Y, E, V0, V1), [twin] * 3,
                              about=lambda: filt.undecided(c.kind, c.p, W, c.x, c.d))
    except Violation:
        if c.kind != "OCNLMS" or not predicted:
            raise
        p = dict(filt.DEFAULTS["OCNLMS"], **c.p)
        finite = [v for v in ev]
        bad = [k for k, v in enumerate(ev) if v[0] == "predict" and not np.all(np.isfinite(v[2]))]
        for k in bad:
            # probes with NaN give no output to judge
            finite[k] = finite[k][:3] + (None,) + finite[k][4:]
        msg, done = c06.judge(c06.Shipped(n, int(p["mem"])), finite, n, p["mu"], p["eps"])
        if msg is not None:
            raise Violation("OCNLMS with predict calls: " + msg)
        ctx.finding("ocnlms-predict-advances-memory", "predict between samples changes later learning")
        stop = done
    if stop:
        ctx.decisive(stop)
