"""histories of weights for the detection checks"""
import numpy as np

from .. import core, filt


def recorded(ctx, N, n):
    """weights and errors recorded from a real filter on data with a change"""
    kind = ctx.choice([k for k in filt.KINDS if k != "OCNLMS"])
    x, _ = filt.make_x(ctx, N, n, ctx.choice(["gauss", "history", "ar", "uniform"]))
    d, _, _ = filt.make_d(ctx, x, ctx.choice(["linear", "step", "spikes", "drift"]))
    f = filt.new(ctx, kind, n, filt.params(ctx, kind, x, d), ctx.choice(["zeros", "random"]))
    y, e, W = filt.unpack(ctx.call(f.run, d, x), N, n)
    ctx.kinds["recorded"] += 1
    return W, e


def made(ctx, N, n):
    r = ctx.rng
    style = ctx.choice(["walk", "walk", "heavy", "noise", "const", "ints", "steps", "drift", "scales", "offset", "dict"])
    ctx.kinds[style] += 1
    if style == "walk":
        w = np.cumsum(r.normal(0, 1, (N, n)), axis=0) * ctx.logu(1e-6, 1e3)
    elif style == "heavy":
        w = np.cumsum(r.standard_t(1.5, (N, n)), axis=0)
    elif style == "noise":
        w = r.normal(0, 1, (N, n))
    elif style == "const":
        w = np.tile(r.normal(0, 1, n), (N, 1))
        if ctx.flip(.6):
            w[ctx.irange(0, N - 1):, ctx.irange(0, n - 1)] += r.normal()
    elif style == "ints":
        w = r.integers(-3, 4, (N, n)).astype(float)
    elif style == "steps":
        w = np.cumsum(r.normal(0, 1, (N, n)) * (r.random((N, n)) < .1), axis=0)
    elif style == "drift":
        w = np.arange(N)[:, None] * r.normal(0, 1, n) + r.normal(0, .01, (N, n))
    elif style == "scales":
        w = np.cumsum(r.normal(0, 1, (N, n)), axis=0) * 10. ** r.uniform(-4, 4, n)
    elif style == "offset":
        w = np.cumsum(r.normal(0, 1, (N, n)), axis=0) + r.normal(0, 1e4, n)
    else:
        c = ctx.dict_float(1e-6, 1e6) or 1.
        w = np.cumsum(r.choice([-1., 0., 1., 2.], (N, n)), axis=0) * c
    return w, r.normal(0, 1, N) * ctx.choice([1., 1., 1e-5, 1e4])


def history(ctx, N, n):
    W, e = recorded(ctx, N, n) if ctx.flip(.35) else made(ctx, N, n)
    if not np.all(np.isfinite(W)) or np.max(np.abs(W), initial=0) > 1e12 or not np.all(np.isfinite(e)):
        W, e = made(ctx, N, n)
    return W, e
