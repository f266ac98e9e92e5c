"""C38: weights set by the caller are the weights"""
import numpy as np

from .. import core, filt
from . import _law
from ..core import EPS, need

FILES = ["filters/"]
RULE = ("Random filters are used by run, adapt and predict while their attribute w is assigned, modified in place, reset by "
        "init_weights or constrained between the calls; outputs, history and every increment are judged against the "
        "reference recursion, memories of which are not touched by the assignments.")
NEED = dict(decisive=2000, assigned=200, in_place=100, resets=50, constrained=30, transfers=30)
KINDS = [k for k in filt.KINDS if k != "OCNLMS"]


def exchange(ctx, f, n, w, v):
    """weights of two filters, or the present and remembered ones, are exchanged; arrays keep their values"""
    old, u = f.w, ctx.irange(0, 4)
    ctx.count("transfers")
    if u == 0:
        g = filt.new(ctx, "LMS", n, {}, v)
        f.w, g.w = g.w, f.w
        core.identical("weights of the other filter after an exchange", filt.weights(g), w)
        return v.copy()
    if u == 1:
        f.w = f.w[::-1]
        core.identical("array of the previous weights after their reversal was assigned", old, w)
        f.w = f.w.copy()
        return w[::-1].copy()
    if u == 2:
        # the best weights so far are remembered, others are tried, and the best ones come back
        f.w = v
        core.identical("remembered weights after others were assigned", old, w)
        f.w = old
        core.identical("weights which were tried", v, f.w if f.w is v else v.copy())
        return w
    if u == 3:
        f.w = np.roll(f.w, 1)
        core.identical("array of the previous weights after they were rolled", old, w)
        return np.roll(w, 1)
    f.w = v
    core.identical("array of the previous weights after assignment", old, w)
    return v.copy()


def change(ctx, f, n, scale):
    """the caller changes the weights -> expected weights"""
    r = ctx.rng
    u = ctx.irange(0, 9)
    v = r.normal(0, 1, n) * scale
    w = filt.weights(f)
    if ctx.flip(.25):
        return exchange(ctx, f, n, w, v)
    if u == 0:
        v = v * ctx.choice([1., 1., 1., 1e-5, 1e5])
        keep = v.copy()
        form = ctx.irange(0, 4)
        if form == 1:
            v = np.repeat(v, 2)[::2]
        elif form == 2:
            v = v[::-1].copy()[::-1]
        elif form == 3:
            v = np.array([v, v, v]).T[:, 1]
        f.w = v
        ctx.count("assigned")
        return keep
    if u == 1:
        # another filter keeps its weights when they are copied
        g = filt.new(ctx, "LMS", n, {}, v)
        f.w = g.w.copy()
        ctx.count("transfers")
        return v.copy()
    if u == 2:
        f.w = np.zeros(n)
        ctx.count("assigned")
        return np.zeros(n)
    if u == 3:
        what = ctx.choice(["zeros", v, v.tolist(), tuple(v)])
        f.w = ctx.call(f.init_weights, what)
        ctx.count("resets")
        return np.zeros(n) if isinstance(what, str) else v.copy()
    if u == 4:
        f.w = ctx.call(f.init_weights, "random")
        ctx.count("resets")
        return filt.weights(f)
    if u == 5:
        f.w[:] = v
        ctx.count("in_place")
        return v.copy()
    if u == 6:
        i = ctx.irange(0, n - 1)
        f.w[i] = v[i]
        w[i] = v[i]
        ctx.count("in_place")
        return w
    if u == 7:
        f.w *= .5
        ctx.count("in_place")
        return w * .5
    if u == 8:
        # projection on a constraint
        f.w = np.clip(f.w, -.5 * scale, .5 * scale)
        ctx.count("constrained")
        return np.clip(w, -.5 * scale, .5 * scale)
    f.w = f.w + 0.
    ctx.count("assigned")
    return w


def filters(ctx):
    c = filt.scenario(ctx, KINDS, hi=80, wild=.2, nhi=10)
    f = filt.build(ctx, c)
    scale = float(np.max(np.abs(c.w))) or 1.
    X, D, E, W0, W1 = [], [], [], [], []
    i, every = 0, ctx.choice([1, 2, 5])
    kept = []
    while i < c.N:
        if ctx.flip(1. / every):
            last = filt.weights(f)
            if not np.all(np.isfinite(last)):
                break
            x = ctx.rng.normal(0, 1, c.n)
            if ctx.flip():
                # the same input before and after
                ref, bound = filt.output_bounds(last[None], x[None])
                core.compare("%s: prediction before weights are set" % c.kind, core.as_float("predict", ctx.call(f.predict, x), ()), ref[0], bound[0])
                ctx.count("predicted_before")
            want = change(ctx, f, c.n, scale)
            core.identical("%s: weights set by the caller" % c.kind, filt.weights(f), want)
            ref, bound = filt.output_bounds(want[None], x[None])
            core.compare("%s: prediction by weights set by the caller" % c.kind, core.as_float("predict", ctx.call(f.predict, x), ()), ref[0], bound[0])
            core.identical("%s: weights set by the caller, after predict" % c.kind, filt.weights(f), want)
            ctx.decisive()
        now = filt.weights(f)
        m = min(c.N - i, ctx.irange(1, 3 * every))
        d, x = c.d[i:i + m], c.x[i:i + m]
        if ctx.flip():
            y, e, A, B = filt.trace_run(ctx, f, d, x)
            core.identical("%s: first row of the history after weights were set" % c.kind, A[0], now)
            # rows of the returned history do not change when the caller sets weights later
            kept.append((A, A.copy()))
            A = A.copy()
        else:
            d, y, e, A, B = filt.trace_adapt(ctx, f, d, x)
            core.identical("%s: weights before the sample" % c.kind, A[0], now)
        X.append(x), D.append(d), E.append(e), W0.append(A), W1.append(B)
        i += m
    for A, keep in kept:
        core.identical("%s: history returned before weights were set" % c.kind, A, keep)
    if not X:
        return
    X, E, D = np.vstack(X), np.concatenate(E), np.concatenate(D)
    W0, W1 = np.vstack(W0), np.vstack(W1)
    ok = filt.check_law(ctx, c.kind, c.n, c.p, X, E, W0, W1, d=D, slack=_law.error_slack(c, X, D, E, W0),
                        what="weights set by the caller: ")
    if ok:
        ctx.decisive(ok)


def twins(ctx):
    """how the caller writes the weights makes no difference; to write the present ones changes nothing"""
    c = filt.scenario(ctx, hi=60, wild=.2, nhi=10)
    scale = float(np.max(np.abs(c.w))) or 1.
    plan, i = [], 0
    while i < c.N:
        m = ctx.irange(1, min(12, c.N - i))
        plan.append((ctx.choice([None, None, "same", "other"]), ctx.choice(["run", "adapt"]), i, m, ctx.rng.normal(0, scale, c.n)))
        i += m

    def go(way, d, x):
        f = filt.new(ctx, c.kind, c.n, c.p, c.w.copy(), c.via)
        out = []
        for what, use, i, m, v in plan:
            if what and not (what == "same" and way == "in place"):
                v = filt.weights(f) if what == "same" else v
                if way == "assigned":
                    f.w = v.copy()
                elif way == "init_weights":
                    f.w = ctx.call(f.init_weights, v.tolist())
                else:
                    f.w[:] = v
            if use == "run":
                out.append(filt.trace_run(ctx, f, d[i:i + m], x[i:i + m])[3])
            else:
                for k in range(i, i + m):
                    ctx.call(f.adapt, d[k], x[k])
                    out.append(filt.weights(f)[None])
        return (np.concatenate(out),)
    ways = ctx.choice([("assigned", "in place"), ("init_weights", "in place"), ("in place", "assigned")])
    a, b = go(ways[0], c.d, c.x), go(ways[1], c.d, c.x)
    filt.same_traj(ctx, "%s: weights %s and %s by the caller" % ((c.kind,) + ways), a, b,
                   [lambda: go(ways[0], filt.jitter(ctx, c.d), filt.jitter(ctx, c.x))] * 3,
                   about=lambda: filt.undecided(c.kind, c.p, np.vstack((c.w, a[0][:-1])), c.x, c.d))
    ctx.count("twins")
    ctx.decisive(c.N)


def case(ctx):
    (twins if ctx.flip(.2) else filters)(ctx)
