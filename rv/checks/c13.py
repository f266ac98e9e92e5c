"""C13: pretrained_run"""
import numpy as np

from .. import core, filt
from ..core import need

FILES = ["filters/"]
RULE = ("Random filter, data, ratio, number of epochs and earlier history; pretrained_run against explicit runs of a twin "
        "and continued use of both.")
NEED = dict(decisive=1000, multi_epoch=50, odd_ratio=50)


def case(ctx):
    c = filt.scenario(ctx, lo=2, hi=80, long=.02, wild=.2)
    N, n = c.N, c.n
    f, g = filt.build(ctx, c), filt.build(ctx, c)
    m0 = 0
    if ctx.flip(.3):
        m = m0 = ctx.irange(1, min(N, 20))
        for h in (f, g):
            ctx.call(h.run, c.d[:m], c.x[:m])
    u = ctx.rng.random()
    if u < .15:
        kw, nt = {}, .5
    elif u < .6:
        nt = ctx.choice([.1, .2, .25, .3, .5, .6, .7, .75, .9, .99, 1 / 3., .29, .57, .58, .05])
        kw = dict(ntrain=nt)
    else:
        nt = float(ctx.rng.uniform(0, 1))
        kw = dict(ntrain=nt)
    T = int(N * nt)
    if not 0 < T < N:
        nt, T = .5, int(N * .5)
        kw = dict(ntrain=.5)
    epochs = 1
    if ctx.flip(.7):
        epochs = ctx.choice([0, 1, 2, 3, 5, ctx.irange(1, 12)])
        kw["epochs"] = epochs
    if T <= 15 and ctx.flip(.06):
        epochs = kw["epochs"] = ctx.irange(13, 150)
    ctx.note(nt=nt, epochs=epochs, T=T)
    as_list = ctx.flip(.1)
    d, x = (c.d.tolist(), c.x.tolist()) if as_list else (c.d, c.x)
    y, e, W = filt.unpack(ctx.call(f.pretrained_run, d, x, **kw), N - T, n, "pretrained_run")
    for _ in range(epochs):
        g.run(c.d[:T], c.x[:T])
    q = g.run(c.d[T:], c.x[T:])
    m = min(N, 8)
    wf = filt.weights(f)
    after = [filt.trace_run(ctx, h, c.d[:m], c.x[:m]) for h in (f, g)]

    def twin():
        h = filt.new(ctx, c.kind, n, c.p, c.w, c.via)
        dd, xx = filt.jitter(ctx, c.d), filt.jitter(ctx, c.x)
        if "h" in pre:
            h.run(dd[:pre["h"]], xx[:pre["h"]])
        for _ in range(epochs):
            h.run(dd[:T], xx[:T])
        a, b, V = h.run(dd[T:], xx[T:])
        return a, b, V
    pre = {"h": m0} if m0 else {}
    stop = filt.same_traj(ctx, "%s: pretrained_run(%s)" % (c.kind, kw), tuple(q), (y, e, W), [twin] * 2)
    if all(np.array_equal(a, b, equal_nan=True) for a, b in zip(q, (y, e, W))):
        for nm, a, b in zip(("y", "e", "w", "w after"), after[0], after[1]):
            core.identical("%s: continued use after pretrained_run(%s): %s" % (c.kind, kw, nm), a, b)
    if epochs > 1:
        ctx.count("multi_epoch")
    if abs(N * nt - round(N * nt)) > 1e-9:
        ctx.count("odd_ratio")
    ctx.decisive(stop)
