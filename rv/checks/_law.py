"""common workload of the stepwise law oracles (C02 - C05)"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need


def exact_data(ctx, n, N):
    """small integers: outputs and errors are exact for the sign filters"""
    x = ctx.rng.integers(-3, 4, (N, n)).astype(float)
    d = ctx.rng.integers(-4, 5, N).astype(float)
    return x, d


def law_case(ctx, kinds, hi=150, long=.04, nhi=16):
    c = filt.scenario(ctx, kinds, hi=hi, long=long, wild=.35, nhi=nhi)
    exact = c.kind in filt.SIGNED and ctx.flip(.4)
    if c.kind in filt.SIGNED and not exact and ctx.flip(.2):
        exact = True
    if exact:
        c.x, c.d = exact_data(ctx, c.n, c.N)
        c.p["mu"] = ctx.choice([1., .5, .25, .125, 2., 1, 2])
        if c.kind == "NSSLMS":
            # powers of two cannot be kept exact; errors are judged by margin
            c.p["eps"] = ctx.choice([1., .5, 1e-3])
        c.w = np.round(c.w)
        c.warg = c.w.copy()
        ctx.note(exact=True, p2={k: float(v) for k, v in c.p.items()})
    elif c.kind in ("LMS", "NLMS", "SSLMS", "NSSLMS", "Llncosh") and ctx.flip(.05):
        # numbers so small that products of two of them underflow
        c.x = ctx.rng.choice([-1., 0., 1.], (c.N, c.n)) * 10. ** ctx.rng.uniform(-230, -120)
        c.d = ctx.rng.choice([-1., 0., 1.], c.N) * 10. ** ctx.rng.uniform(-230, -120)
        c.w, c.p["mu"] = np.zeros(c.n), ctx.choice([1., .5, .1])
        if "eps" in c.p:
            c.p["eps"] = 1.
        c.warg = c.w.copy()
        ctx.note(tiny=True)
        ctx.count("tiny_data")
    elif c.kind in ("LMS", "LMF", "Llncosh") and c.p.get("mu", 0) > 0 and ctx.flip(.08):
        # learning rate one, data in units which make it usual
        s = c.p["mu"] ** (.25 if c.kind == "LMF" else .5)
        c.x, c.d, c.p["mu"] = c.x * s, c.d * s, ctx.choice([1, 1.])
        ctx.note(unit_rate=True)
    elif c.kind == "GMCC" and ctx.flip(.06):
        c.p["alpha"] = ctx.choice([.9, .7, .5])
        ctx.note(alpha=c.p["alpha"])
    if ctx.flip(.12) and c.kind not in ("AP",):
        # documented defaults, data scaled so that nothing explodes
        keys = [k for k in list(c.p) if ctx.flip(.6)]
        for k in keys:
            c.p.pop(k)
        ctx.note(defaulted=sorted(keys))
        ctx.count("defaults_used", len(keys))
    if c.n > 1 and c.kind not in ("AP", "RLS") and ctx.flip(.07):
        # features which are many orders smaller than the others
        j = ctx.rng.random(c.n) < .5
        j[ctx.irange(0, c.n - 1)] = False
        c.x[:, j] *= 10. ** ctx.rng.uniform(-14, -2)
        c.w = np.where(j & ctx.flip(.7), 0., c.w)
        c.warg = c.w.copy()
        ctx.count("tiny_features")
    f = filt.build(ctx, c)
    core.compare("initial weights", filt.weights(f), c.w, 0)
    X, D, E, W0, W1, OK = [], [], [], [], [], []

    def add_run(d, x):
        y, e, A, B = filt.trace_run(ctx, f, d, x)
        X.append(x), D.append(d), E.append(e), W0.append(A), W1.append(B)
        ctx.count("run_traces")

    def add_adapt(d, x):
        closed = ctx.rng.random(len(x)) < (.3 if ctx.flip(.5) else 0.)
        dd, y, e, A, B = filt.trace_adapt(ctx, f, d, x, closed)
        X.append(x), D.append(dd), E.append(e), W0.append(A), W1.append(B)
        ctx.count("zero_error_samples", int(np.sum(closed)))
        ctx.count("adapt_traces")

    mode = ctx.irange(0, 2)
    ctx.note(mode=mode)
    if mode == 0:
        add_run(c.d, c.x)
    elif mode == 1:
        add_adapt(c.d, c.x)
    else:
        i = 0
        while i < c.N:
            m = ctx.irange(1, c.N - i)
            (add_run if ctx.flip() else add_adapt)(c.d[i:i + m], c.x[i:i + m])
            i += m
    X, E, D = np.vstack(X), np.concatenate(E), np.concatenate(D)
    W0, W1 = np.vstack(W0), np.vstack(W1)
    # weights are a chain: nothing else than samples changes them
    core.identical("%s: weights changed between samples" % c.kind, W0[1:], W1[:-1])
    ctx.count("zero_input_samples", int(np.sum(~X.any(axis=1))))
    n_ok = filt.check_law(ctx, c.kind, c.n, c.p, X, E, W0, W1, d=D, slack=error_slack(c, X, D, E, W0))
    if n_ok:
        ctx.decisive(n_ok)
    ctx.count("samples", len(X))


def error_slack(c, X, D, E, W0):
    """
    Uncertainty of the error of each sample: summation order of w*x. Zero where
    all terms are exact in any order.
    """
    prod = np.abs(np.asarray(W0, filt.LD) * X).sum(axis=1)
    dyadic = np.all(W0 * 2**30 == np.round(W0 * 2**30), axis=1) & np.all(
        X * 2**10 == np.round(X * 2**10), axis=1) & (prod < 2**10)
    single = np.sum((W0 != 0) & (X != 0), axis=1) <= 1
    return np.where(dyadic | single, 0., 4 * (c.n + 2) * EPS * (prod + np.abs(D))).astype(float)
