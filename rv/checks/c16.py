"""C16: equivariance to permutation, sign and scale"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need

FILES = ["filters/"]
RULE = ("Random filter, data and parameters run twice: original and with permuted features, negated features, negated "
        "target, scaled input or scaled target (parameters rescaled by the update law), and the observed trajectories "
        "are mapped back and compared.")
NEED = dict(decisive=1000, permutation=60, negation=60, scale_x=60, scale_d=60)


scale_x, scale_d = filt.scale_x, filt.scale_d


def case(ctx):
    c = filt.scenario(ctx, hi=120, long=.02, wild=.2)
    kind, n, N = c.kind, c.n, c.N
    p = {k: (float(v) if k not in ("order", "mem") else v) for k, v in dict(filt.DEFAULTS[kind], **c.p).items()}
    rel = ctx.choice(["permutation", "negation", "target", "both", "scale_x", "scale_x", "scale_d", "scale_d"])
    if ctx.flip(.25) and kind in ("LMS", "SSLMS", "NSSLMS", "LMF", "Llncosh", "GMCC", "NLMS", "VSLMS_Mathews"):
        # features of very different units
        c.x = c.x * 10. ** ctx.rng.integers(-ctx.irange(1, 12), ctx.irange(1, 12), n)
        if ctx.flip(.7):
            c.w = np.zeros(n)
        if ctx.flip():
            rel = "permutation"
        ctx.count("units")
    x, d, w = c.x, c.d, c.w
    q, fw, fy = p, np.ones(n), 1.
    order = np.arange(n)
    X, D, Wn = x, d, w
    if rel == "permutation":
        order = ctx.rng.permutation(n)
        X, Wn = x[:, order], w[order]
    elif rel == "negation":
        s = ctx.rng.choice([-1., 1.], n)
        if ctx.flip(.3):
            s[:] = -1
        X, Wn, fw = x * s, w * s, s
    elif rel == "target":
        D, Wn, fw, fy = -d, -w, -np.ones(n), -1.
    elif rel == "both":
        X, D, fy = -x, -d, -1.
    else:
        a = 2. ** ctx.choice([-20, -10, -7, -5, -3, -2, -1, 1, 2, 3, 4, 6, 10, 20])
        if ctx.flip(.25):
            a = ctx.logu(.01, 100)
        if rel == "scale_x":
            X, Wn, fw, q = x * a, w / a, np.full(n, 1 / a), scale_x(kind, p, a)
        else:
            D, Wn, fw, fy, q = d * a, w * a, np.full(n, a), a, scale_d(kind, p, a)
        ctx.note(scale=a)
    if rel == "both":
        # negated input and negated target leave the weights
        pass
    ctx.note(relation=rel)
    ctx.count({"target": "negation", "both": "negation"}.get(rel, rel))
    ctx.kinds[rel] += 1
    f = filt.new(ctx, kind, n, p, w.copy(), c.via)
    g = filt.new(ctx, kind, n, q, np.array(Wn), c.via)
    adapt = ctx.flip(.3)

    def go(h, dd, xx):
        if not adapt:
            return filt.trace_run(ctx, h, dd, xx)
        V0, V1 = np.zeros((N, n)), np.zeros((N, n))
        for k in range(N):
            V0[k] = filt.weights(h)
            ctx.call(h.adapt, dd[k], xx[k])
            V1[k] = filt.weights(h)
        return V0, V1
    A, B = go(f, d, x), list(go(g, D, X))
    for i in range(len(B) - 2, len(B)):
        Z = np.empty_like(B[i])
        Z[:, order] = B[i]
        B[i] = Z / fw
    if not adapt:
        B[0], B[1] = B[0] / fy, B[1] / fy
    A, B = tuple(A), tuple(B)
    stop = N
    # nothing to say once subnormal numbers or overflow take part
    for V in A:
        m = np.abs(V) if V.ndim == 1 else np.abs(V).max(axis=1, initial=0)
        over = ~(m < 1e100)
        if over.any():
            stop = min(stop, int(np.argmax(over)))

    def twin():
        h = filt.new(ctx, kind, n, p, w.copy(), c.via)
        return tuple(v[:stop] for v in go(h, filt.jitter(ctx, d), filt.jitter(ctx, x)))
    if stop == 0:
        return
    stop = filt.same_traj(ctx, "%s %s under %s" % (kind, p, rel), tuple(a[:stop] for a in A), tuple(b[:stop] for b in B),
                          [twin] * 4, about=lambda: filt.undecided(kind, p, A[-2][:stop], x[:stop], d[:stop]))
    if stop:
        ctx.decisive(stop)
