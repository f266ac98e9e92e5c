"""C14: stability, convergence, bounded increments"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need

FILES = ["filters/"]
RULE = ("Noise-free identification with random systems, inputs and parameters of the stability region (norm of the weight "
        "deviation never grows, exact contraction for cycled orthogonal inputs, convergence for exciting inputs); "
        "increments of saturating filters under targets of extreme magnitude.")
NEED = dict(decisive=1000, monotone_cases=60, orthogonal_cases=60, exciting_cases=40, saturation_cases=60)


def steps(ctx, f, d, x):
    """weights before/after each sample, in batch or in sample-after-sample use"""
    N, n = x.shape
    if ctx.flip(.5):
        _, _, W, W1 = filt.trace_run(ctx, f, d, x)
        return W, W1
    W, W1 = np.zeros((N, n)), np.zeros((N, n))
    for k in range(N):
        W[k] = filt.weights(f)
        ctx.call(f.adapt, d[k], x[k])
        W1[k] = filt.weights(f)
    return W, W1


def norm(v):
    return np.sqrt(np.sum(np.asarray(v, LD) ** 2, axis=-1))


def system(ctx, n):
    return ctx.rng.normal(0, 1, n) * 10. ** ctx.rng.uniform(-2, 2)


def monotone(ctx):
    kind = ctx.choice(["NLMS", "NLMS", "AP", "AP", "LMS", "RLS"])
    n, N = filt.size(ctx, 12), filt.length(ctx, 1, 150)
    style = ctx.choice([s for s in filt.X_STYLES if s not in ("dict",)])
    x, style = filt.make_x(ctx, N, n, style)
    wt = system(ctx, n)
    d = (x.astype(LD) @ wt.astype(LD)).astype(float)
    p2 = np.sum(x * x, axis=1)
    top = float(p2.max()) or 1.
    warg, w0 = filt.make_w(ctx, n)
    edge = ctx.choice([0., 1e-6, .05, .3, 1., 1.5, 1.9, 1.99, 2., float(ctx.rng.uniform(0, 2))])
    order = ctx.choice([1, 2, 3, 5, 8, ctx.irange(1, 12)])
    p = {"NLMS": dict(mu=edge, eps=0. if p2.min() > 1e-12 * top and ctx.flip(.3) else ctx.logu(1e-6, 1e3) * ctx.choice([1., top])),
         "AP": dict(mu=edge, order=order, ifc=ctx.logu(1e-5, 10) * top),
         "LMS": dict(mu=edge / top),
         "RLS": dict(mu=ctx.choice([1., .999, .99, .95, .9]), eps=ctx.logu(1e-3, 1) * top)}[kind]
    ctx.note(what="monotone", kind=kind, n=n, N=N, x=style, p=p)
    ctx.digest(x, wt)
    ctx.kinds["monotone " + kind] += 1
    f = filt.new(ctx, kind, n, p, warg)
    W, W1 = steps(ctx, f, d, x)
    V0, V1 = norm(W - wt), norm(W1 - wt)
    big = norm(np.abs(W)) + norm(np.abs(wt))
    first = V0[0]
    # RLS without excitation and with forgetting winds up, there only the well conditioned part is judged
    need(kind == "RLS" or np.all(np.isfinite(W1)), "%s %s: weights are not finite on noise-free data", kind, p)
    if kind == "RLS":
        A = LD(p["eps"]) * np.identity(n, dtype=LD)
        for k in range(N):
            q0 = (W[k] - wt) @ A @ (W[k] - wt)
            A = LD(p["mu"]) * A + np.outer(x[k], x[k]).astype(LD)
            q1 = (W1[k] - wt) @ A @ (W1[k] - wt)
            lam = np.linalg.eigvalsh(A.astype(float))
            if not lam[0] > 1e-6 * lam[-1]:
                break
            floor = lam[-1] * (1e-9 * (big[k] + first)) ** 2
            need(q1 <= p["mu"] * q0 * (1 + 1e-3) + floor,
                 "RLS %s sample %d: weighted deviation grew from %.10g to %.10g", p, k, q0, q1)
            need(V1[k] <= first * (1 + 1e-6) + 1e-9 * big[k],
                 "RLS %s sample %d: deviation %.10g over the initial %.10g", p, k, V1[k], first)
            ctx.decisive()
    else:
        cond = 1. if kind == "LMS" else (top / p["ifc"] + 1 if kind == "AP" else 1.)
        m = order if kind == "AP" else 1
        slack = 60 * EPS * (n + 2) * m * m * cond * (big + norm(np.abs(W1)))
        for k in range(N):
            need(V1[k] <= V0[k] + slack[k],
                 "%s %s sample %d: deviation from the true weights grew from %.17g to %.17g", kind, p, k, V0[k], V1[k])
        ctx.decisive(N)
    ctx.count("monotone_cases")


def orthogonal(ctx):
    kind = ctx.choice(["NLMS", "AP", "LMS", "RLS"])
    n = ctx.irange(1, 12)
    K = ctx.irange(1, 6 * n)
    c = 10. ** ctx.rng.uniform(-2, 2)
    Q = np.linalg.qr(ctx.rng.normal(0, 1, (n, n)))[0]
    # orthogonal to working precision is enough, deviations are of order EPS
    x = c * Q[np.arange(K) % n]
    wt = system(ctx, n)
    d = (x.astype(LD) @ wt.astype(LD)).astype(float)
    warg, w0 = filt.make_w(ctx, n)
    mu = float(ctx.rng.uniform(.05, 1.9))
    order = ctx.irange(1, n)
    p = {"NLMS": dict(mu=mu, eps=ctx.logu(1e-3, 10) * c * c),
         "AP": dict(mu=mu, order=order, ifc=ctx.logu(1e-3, 10) * c * c),
         "LMS": dict(mu=mu / c ** 2),
         "RLS": dict(mu=ctx.choice([1., .99, .9, .7]), eps=ctx.logu(1e-3, 10) * c * c)}[kind]
    ctx.note(what="orthogonal", kind=kind, n=n, K=K, p=p, c=c)
    ctx.digest(x, wt)
    ctx.kinds["orthogonal " + kind] += 1
    f = filt.new(ctx, kind, n, p, warg)
    W, W1 = steps(ctx, f, d, x)
    a0, a1 = Q.astype(LD) @ (W[0] - wt), Q.astype(LD) @ (W1[-1] - wt)
    t = np.arange(K)
    for i in range(n):
        mine = t[t % n == i]
        if kind == "RLS":
            m = LD(p["mu"])
            g = p["eps"] * m ** K / (p["eps"] * m ** K + c * c * sum((m ** int(K - 1 - j) for j in mine), LD(0)))
        else:
            if kind == "LMS":
                q, used = LD(1) - LD(p["mu"]) * c * c, len(mine)
            elif kind == "NLMS":
                q, used = LD(1) - LD(mu) * c * c / (p["eps"] + c * c), len(mine)
            else:
                q, used = LD(1) - LD(mu) * c * c / (p["ifc"] + c * c), sum(min(order, K - int(j)) for j in mine)
            g = q ** used
        size = float(norm(a0) + norm(W[0]) + norm(wt))
        core.compare("%s %s: deviation in direction %d after %d cycled orthogonal samples" % (kind, p, i, K),
                     a1[i], g * a0[i], 1e-9 * size)
    ctx.decisive(n)
    ctx.count("orthogonal_cases")


def exciting(ctx):
    kind = ctx.choice(["NLMS", "AP", "LMS", "RLS"])
    n = ctx.irange(1, 6)
    mu = float(ctx.rng.uniform(.3, 1.7))
    N = int(60 * n / (mu * (2 - mu))) + 1
    c = 10. ** ctx.rng.uniform(-2, 2)
    x = c * (ctx.rng.choice([-1., 1.], (N, n)) if kind == "LMS" or ctx.flip(.3) else ctx.rng.normal(0, 1, (N, n)))
    wt = system(ctx, n)
    d = x @ wt
    warg, w0 = filt.make_w(ctx, n)
    p = {"NLMS": dict(mu=mu, eps=1e-6 * c * c),
         "AP": dict(mu=mu, order=ctx.irange(1, n), ifc=1e-6 * c * c),
         "LMS": dict(mu=mu / (n * c * c)),
         "RLS": dict(mu=ctx.choice([1., .99, .98]), eps=1e-4 * c * c)}[kind]
    ctx.note(what="exciting", kind=kind, n=n, N=N, p=p, c=c)
    ctx.digest(x, wt)
    ctx.kinds["exciting " + kind] += 1
    f = filt.new(ctx, kind, n, p, warg)
    W, W1 = steps(ctx, f, d, x)
    v0, v1 = norm(W[0] - wt), norm(W1[-1] - wt)
    need(v1 <= 1e-3 * v0 + 1e-9 * norm(wt), "%s %s: %d exciting noise-free samples leave deviation %.6g of initial %.6g",
         kind, p, N, v1, v0)
    ctx.decisive()
    ctx.count("exciting_cases")


def saturation(ctx):
    kind = ctx.choice(["SSLMS", "NSSLMS", "Llncosh", "GMCC"])
    c = filt.scenario(ctx, [kind], hi=80, wild=.4, nhi=10)
    x, n, N = c.x, c.n, c.N
    mags = 10. ** ctx.rng.uniform(-60, 60, N)
    d = np.where(ctx.rng.random(N) < .5, ctx.rng.choice([-1., 1.], N) * mags, c.d)
    p = dict(filt.DEFAULTS[kind], **c.p)
    f = filt.build(ctx, c)
    W, W1 = steps(ctx, f, d, x)
    need(np.all(np.isfinite(W1)), "%s %s: weights are not finite for big errors", kind, p)
    mu, ax = abs(LD(p["mu"])), np.abs(x.astype(LD))
    if kind == "SSLMS":
        bound = mu * (x != 0)
    elif kind == "NSSLMS":
        bound = mu * (x != 0) / (LD(p["eps"]) + np.sum(ax ** 2, axis=1))[:, None]
    elif kind == "Llncosh":
        bound = mu * ax
    else:
        lam, al = LD(p["lambd"]), LD(p["alpha"])
        best = ((al - 1) / (al * lam)) ** (1 / al) if al > 1 else LD(0)
        top = lam * al * np.exp(-lam * best ** al) * (best ** (al - 1) if al > 1 else 1)
        bound = mu * top * ax
    slack = 1e-9 * bound + 4 * EPS * np.maximum(np.abs(W), np.abs(W1))
    inc = np.abs(W1.astype(LD) - W)
    bad = ~(inc <= bound + slack)
    if bad.any():
        k, i = np.argwhere(bad)[0]
        raise Violation("%s %s sample %d: increment %.6g of weight %d is over the bound %.6g (target %.6g)" % (
            kind, p, k, inc[k, i], i, bound[k, i], d[k]))
    if kind == "GMCC":
        # influence of an error vanishes when it is far out of the kernel
        y = np.sum(W.astype(LD) * x, axis=1)
        far = lam * np.abs(d - y) ** al > 800
        still = np.all(inc <= 4 * EPS * np.abs(W) + 1e-250, axis=1)
        need(np.all(still[far]), "GMCC %s: far outlier changes the weights", p)
        ctx.count("rejected_outliers", far.sum())
    ctx.decisive(N)
    ctx.count("saturation_cases")


def case(ctx):
    ctx.choice([monotone, orthogonal, exciting, saturation])(ctx)
