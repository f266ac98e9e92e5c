"""C36: every filter and the network learn the system which made the data"""
import numpy as np

from .. import core, filt
from . import _net
from ..core import need

QUICK_S = 20
FILES = ["filters/", "ann/"]
RULE = ("Every filter identifies a random linear system from noisy data and follows its abrupt change, used in batches, sample after "
        "sample, by pretrained_run or by filter_data; the excess error over noise (from observed weights) is averaged over "
        "late samples and compared with the power of the target. Networks learn smooth functions.")
NEED = dict(decisive=300, identified=100, tracked=60, networks=10)
CASE_S = 120
# excess error which is left, relative to the power of the target; the biggest of 8000 observed
# values are .04 (least mean fourth), .011 (networks), .005 (others)
LEFT = dict(LMF=.2, NLMF=.2, network=.1)


def recipe(ctx, kind, n, s):
    """usual parameters for input of variance s*s and target of variance about one"""
    u = ctx.rng.uniform
    s2 = s * s
    return {
        "LMS": lambda: dict(mu=u(.05, .2) / (n * s2)),
        "NLMS": lambda: dict(mu=u(.1, 1.), eps=u(.1, 1.) * s2),
        "LMF": lambda: dict(mu=.02 / (n * s2)),
        "NLMF": lambda: dict(mu=u(.03, .05), eps=ctx.logu(1e-4, 1.) * s2),
        "SSLMS": lambda: dict(mu=u(.003, .01) / s / n ** .5),
        "NSSLMS": lambda: dict(mu=u(.005, .015) * s * n ** .5, eps=u(.3, 1.) * n * s2),
        "GMCC": lambda: dict(mu=u(1., 3.) / (n * s2), lambd=.03, alpha=ctx.choice([2, 2., 1.7, 2.3])),
        "Llncosh": lambda: dict(mu=u(.03, .1) / (n * s2), lambd=u(.5, 3.)),
        "GNGD": lambda: dict(mu=u(.2, 1.), eps=u(.1, 1.) * s2, ro=ctx.logu(1e-4, 1e-2) * s2 * s2),
        "OCNLMS": lambda: dict(mu=u(.1, .4), eps=u(.1, 1.) * s2, mem=ctx.choice([50, 100, 200])),
        "RLS": lambda: dict(mu=ctx.choice([.97, .98, .99, .995]), eps=ctx.choice([s2, 1., 1.]) * ctx.logu(1e-3, 1.)),
        "AP": lambda: dict(mu=u(.1, .6), order=ctx.irange(1, max(1, n // 2)), ifc=ctx.logu(1e-2, 1.) * s2),
        "VSLMS_Ang": lambda: dict(mu=u(.05, .15) / (n * s2), ro=ctx.logu(1e-7, 1e-5) / (n * s2) ** 2, a=ctx.choice([.8, .9, .95])),
        "VSLMS_Benveniste": lambda: dict(mu=u(.05, .15) / (n * s2), ro=ctx.logu(1e-7, 1e-5) / (n * s2) ** 2),
        "VSLMS_Mathews": lambda: dict(mu=u(.05, .15) / (n * s2), ro=ctx.logu(1e-6, 1e-4) / (n * s2) ** 2),
    }[kind]()


def excitation(ctx, N, n, s):
    r = ctx.rng
    u = ctx.irange(0, 4)
    if u == 0:
        x = r.uniform(-3 ** .5, 3 ** .5, (N, n))
    elif u == 1:
        # windows of a white series
        v = r.normal(0, 1, N + n - 1)
        x = np.lib.stride_tricks.sliding_window_view(v, n).copy()
    elif u == 2:
        x = r.normal(0, 1, (N, n))
        for k in range(1, N):
            x[k] = .5 * x[k - 1] + .75 ** .5 * x[k]
    else:
        x = r.normal(0, 1, (N, n))
    return x * s, ["uniform", "history", "ar", "gauss", "gauss"][u]


def unit(ctx, n):
    w = ctx.rng.normal(0, 1, n)
    return w / np.sqrt(np.sum(w * w))


def use(ctx, f, d, x, how):
    """weights before each sample (NaN where not observed)"""
    N, n = x.shape
    W = np.full((N, n), np.nan)
    if how == "run":
        return filt.trace_run(ctx, f, d, x)[2]
    if how == "adapt":
        for k in range(N):
            W[k] = f.w
            ctx.call(f.adapt, d[k], x[k])
        return W
    if how == "pretrained":
        h = N // 2
        W[h:] = filt.unpack(ctx.call(f.pretrained_run, d, x, ntrain=.5, epochs=ctx.irange(1, 2)), N - h, n)[2]
        return W
    i = 0
    while i < N:
        m = min(N - i, ctx.irange(1, 700))
        if ctx.flip():
            W[i:i + m] = filt.trace_run(ctx, f, d[i:i + m], x[i:i + m])[2]
        else:
            for k in range(i, i + m):
                W[k] = f.w
                ctx.call(f.adapt, d[k], x[k])
        i += m
    return W


def filters(ctx):
    pa = core.load()
    r = ctx.rng
    kind = filt.KINDS[ctx.idx % len(filt.KINDS)] if ctx.flip(.7) else ctx.choice(filt.KINDS)
    n = ctx.choice([1, 2, 3, 4, 5, 8])
    s = 10. ** (r.uniform(-2, 2) if ctx.flip() else r.uniform(-1, 1))
    p = recipe(ctx, kind, n, s)
    # samples per phase: all of these filters are ready after about a third
    N = 2500
    if ctx.flip(.1 if kind != "RLS" else .2):
        # a long time between changes
        N = 7500
        if kind == "RLS":
            p["mu"] = .999
        ctx.count("long")
    noise = ctx.choice([0., .01, .05])
    w0 = ctx.choice(["zeros", "zeros", r.normal(0, .5, n) / s / n ** .5])
    how = ctx.choice(["run", "run", "adapt", "mixed", "mixed", "pretrained", "filter_data"])
    ctx.note(kind=kind, n=n, s=s, p={k: float(v) for k, v in p.items()}, how=how, noise=noise)
    ctx.kinds[kind] += 1
    ctx.kinds["use " + how] += 1
    a, xs = excitation(ctx, N, n, s)
    b, _ = excitation(ctx, N, n, s)
    w1 = unit(ctx, n) / s
    w2 = w1 + unit(ctx, n) / s
    if kind in ("LMS", "NLMS", "RLS", "AP", "OCNLMS") and ctx.flip(.5):
        # these do not know the unit of the target
        t = 10. ** r.uniform(-6, 6)
        w1, w2, noise = w1 * t, w2 * t, noise * t
        w0 = w0 if isinstance(w0, str) else w0 * t
        ctx.note(target=t)
        ctx.count("target_units")
    d1, d2 = a @ w1 + noise * r.normal(0, 1, N), b @ w2 + noise * r.normal(0, 1, N)
    ctx.digest(a, b, w1, w2)

    def judge(what, W, w, x, d, power):
        late = slice(N - N // 5, N)
        left = float(np.mean(np.sum((W[late] - w) * x[late], axis=1) ** 2)) / power
        need(left < LEFT.get(kind, .04), "%s %s, n=%d, input %s, by %s: %s, the last %d of %d samples have excess error %.3g of the power of "
             "the target", kind, p, n, xs, how, what, N // 5, N, left)
        ctx.decisive(N // 5)

    one, two = float(np.mean((a @ w1) ** 2)), float(np.mean((b @ w2) ** 2))
    if how == "filter_data":
        np.random.seed(ctx.irange(0, 2**31))
        y, e, W = filt.unpack(ctx.call(pa.filters.filter_data, np.append(d1, d2), np.append(a, b, axis=0), model=kind, w=w0, **p), 2 * N, n)
        A, B = W[:N], W[N:]
    else:
        f = filt.new(ctx, kind, n, p, w0, ctx.irange(0, 3))
        A = use(ctx, f, d1, a, how)
        B = use(ctx, f, d2, b, how if how != "pretrained" else "run")
    judge("not identified", A, w1, a, d1, one)
    ctx.count("identified")
    # after the change: the error is that of the change at first, then it is learned
    first = float(np.mean(np.sum((B[0] - w2) * b, axis=1) ** 2))
    judge("change not followed", B, w2, b, d2, max(two, float(np.mean((b @ (w2 - w1)) ** 2))))
    need(first > .2 * float(np.mean((b @ (w2 - w1)) ** 2)), "harness: system changed, but not for the filter")
    ctx.count("tracked")


def network(ctx):
    r = ctx.rng
    pa = core.load()
    n, N = ctx.irange(1, 3), 60
    hidden = ctx.choice([[6], [8], [5, 5], [10]])
    outs = ctx.choice([1, 1, 2])
    f = ctx.choice(["tanh", "sigmoid"])
    mu = {"tanh": .05, "sigmoid": .15}[f]
    x = r.uniform(-1.5, 1.5, (N, n))
    d = np.tanh(x @ r.normal(0, 1, (n, outs))) + .3
    ctx.note(what="network", n=n, hidden=hidden, outs=outs, f=f, mu=mu)
    ctx.digest(x, d)
    np.random.seed(ctx.irange(0, 2**31))
    nn = ctx.call(pa.ann.NetworkMLP, hidden, n, outputs=outs, activation=f, mu=mu)
    t = d[:, 0] if outs == 1 else d
    shuffle = ctx.flip()
    e, mse = ctx.call(nn.train, x, t, epochs=120, shuffle=shuffle)
    mse = core.as_float("MSE", mse, (120,))
    power = float(np.mean(np.sum(d * d, axis=1)))
    need(mse[-1] < LEFT["network"] * power and mse[-1] < mse[0] + 1e-3 * power, "%s network %d-%s-%d, mu=%g, shuffle=%s: mean squared error %.3g after 120 epochs, %.3g in the "
         "first, power of target %.3g", f, n, hidden, outs, mu, shuffle, mse[-1], mse[0], power)
    y = np.reshape(core.as_float("run", ctx.call(nn.run, x), (N,) if outs == 1 else (N, outs)), (N, outs))
    left = float(np.mean(np.sum((y - d) ** 2, axis=1))) / power
    need(left < LEFT["network"], "%s network %d-%s-%d: error %.3g of run after training", f, n, hidden, outs, left)
    ctx.count("networks")
    ctx.decisive(N)
    if ctx.flip(.3):
        return
    # targets are changed, and the same network learns the new ones
    for k in range(ctx.irange(1, 2)):
        d = np.tanh(x @ r.normal(0, 1, (n, outs))) + ctx.choice([-.3, .3])
        power = float(np.mean(np.sum(d * d, axis=1)))
        mse = core.as_float("MSE", ctx.call(nn.train, x, d[:, 0] if outs == 1 else d, epochs=120, shuffle=shuffle)[1], (120,))
        y = np.reshape(core.as_float("run", ctx.call(nn.run, x), (N,) if outs == 1 else (N, outs)), (N, outs))
        left = float(np.mean(np.sum((y - d) ** 2, axis=1))) / power
        need(max(left, mse[-1] / power) < LEFT["network"], "%s network %d-%s-%d: error %.3g of run after training of changed targets, which "
             "began with %.3g and ended with %.3g", f, n, hidden, outs, left, mse[0] / power, mse[-1] / power)
        ctx.count("networks retrained")
        ctx.decisive(N)


def case(ctx):
    if ctx.idx % 8 == 7:
        network(ctx)
    else:
        filters(ctx)
