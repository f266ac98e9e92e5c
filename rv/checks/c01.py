"""C01: bookkeeping of batch filtering"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, need

FILES = ["filters/"]
RULE = ("Random filter, parameters, data (22 input styles, 11 target styles), optional earlier use of the instance; "
        "every entry of y, e, w of a run is judged.")
NEED = dict(decisive=200, snapshots=20, with_history=20)


def lost(ctx):
    """values which are not finite: the output is what the weights of the row give, the error follows"""
    c = filt.scenario(ctx, [k for k in filt.KINDS if k not in ("OCNLMS", "AP")], hi=60)
    N, n = c.N, c.n
    x, d = c.x.copy(), c.d.copy()
    for _ in range(ctx.irange(1, 3)):
        k, v = ctx.irange(0, N - 1), ctx.choice([np.nan, np.nan, np.inf, -np.inf])
        if ctx.flip():
            d[k] = v
        else:
            x[k, ctx.irange(0, n - 1)] = v
    f = filt.build(ctx, c)
    y, e, W = filt.unpack(ctx.call(f.run, d, x), N, n)
    with np.errstate(all="ignore"):
        prod = W * x
        bad = np.isnan(prod).any(axis=1) | ((prod == np.inf).any(axis=1) & (prod == -np.inf).any(axis=1))
        sure = ~bad & np.isfinite(prod).all(axis=1) & (np.abs(prod).max(axis=1) < 1e290)
        need(np.isnan(y[bad]).all(), "%s: output is %s in rows %s, where it is not a number", c.kind, y[bad & ~np.isnan(y)][:3], np.flatnonzero(bad & ~np.isnan(y))[:3])
        ref, bound = filt.output_bounds(np.where(sure[:, None], W, 0), np.where(sure[:, None], x, 0))
        core.compare("%s: output of rows which are finite" % c.kind, y[sure], ref[sure], bound[sure])
        one = ~bad & ~sure & (np.abs(np.where(np.isfinite(prod), prod, 0)).max(axis=1) < 1e290)
        core.identical("%s: output of rows which are infinite" % c.kind, y[one], prod[one].sum(axis=1))
        fin = np.isfinite(d) & np.isfinite(y)
        core.compare("%s: e = d - y" % c.kind, e[fin], (d - y)[fin], 2 * EPS * (np.abs(d) + np.abs(y))[fin])
        core.identical("%s: error of rows which are not finite" % c.kind, e[~fin], (d - y)[~fin])
    ctx.count("not_finite")
    ctx.decisive(N)


def case(ctx):
    if ctx.flip(.06):
        return lost(ctx)
    c = filt.scenario(ctx, hi=150, long=.03)
    f = filt.build(ctx, c)
    g = filt.build(ctx, c)
    N, n = c.N, c.n
    pre = 0
    if ctx.flip(.5):
        pre = ctx.irange(1, 30)
        px, _ = filt.make_x(ctx, pre, n)
        px *= (np.abs(c.x).max() or 1.) / (np.abs(px).max() or 1.)
        pd = filt.make_d(ctx, px)[0]
        state = ctx.rng.bit_generator.state
        for h in (f, g):
            ctx.rng.bit_generator.state = state
            filt.feed(ctx, h, pd, px)
        ctx.count("with_history")
    w0 = filt.weights(f)
    y, e, W = filt.unpack(ctx.call(f.run, c.d, c.x), N, n)
    wend = filt.weights(f)
    core.identical("w[0] against weights before the call", W[0], w0)
    good = np.all(np.isfinite(W), axis=1) & np.isfinite(y) & np.isfinite(e)
    stop = N if good.all() else int(np.argmin(good))
    # error
    tol = 2 * EPS * (np.abs(c.d) + np.abs(y))
    core.compare("e = d - y", e[:stop], (c.d - y)[:stop], tol[:stop])
    # output
    if c.kind != "OCNLMS":
        ref, bound = filt.output_bounds(W[:stop], c.x[:stop])
        core.compare("y = w*x (%s)" % c.kind, y[:stop], ref, bound)
    elif pre == 0 and stop:
        ref, bound = filt.output_bounds(W[:1], c.x[:1])
        core.compare("y[0] = w*x (OCNLMS, empty memory)", y[:1], ref, bound)
    # the same data with one more sample: next row are the weights after the call
    more = ctx.irange(1, 3)
    ex = np.vstack((c.x, c.x[ctx.rng.integers(0, N, more)] * ctx.rng.uniform(.5, 2)))
    ed = np.append(c.d, ctx.rng.normal(0, 1, more))
    y2, e2, W2 = filt.unpack(ctx.call(g.run, ed, ex), N + more, n)

    def twin():
        h = filt.new(ctx, c.kind, n, c.p, c.w, c.via)
        if pre:
            now = ctx.rng.bit_generator.state
            ctx.rng.bit_generator.state = state
            filt.feed(ctx, h, pd, px)
            ctx.rng.bit_generator.state = now
        yy, ee, WW = filt.unpack(ctx.call(h.run, filt.jitter(ctx, c.d), filt.jitter(ctx, c.x)), N, n)
        return yy, ee, WW, np.vstack((WW[1:], filt.weights(h)[None]))
    filt.same_traj(ctx, "%s: run against run with %d more samples" % (c.kind, more),
                   (y, e, W, np.vstack((W[1:], wend[None]))), (y2[:N], e2[:N], W2[:N], W2[1:N + 1]), [twin, twin])
    if N > 1 and stop == N and c.kind not in ("OCNLMS",):
        # a snapshot really is a history: rows may only be all equal if no increment is due
        ctx.count("rows", N)
    # snapshots: results do not change by later use
    keep = (y.copy(), e.copy(), W.copy())
    if ctx.flip(.5):
        m = ctx.irange(1, min(N, 20))
        for k in range(m):
            ctx.call(f.adapt, c.d[k], c.x[k])
        ctx.call(f.run, c.d[:m], c.x[:m])
        for nm, a, b in zip("yew", keep, (y, e, W)):
            core.identical("%s changed by later use" % nm, b, a)
        ctx.count("snapshots")
    ctx.decisive(stop)
