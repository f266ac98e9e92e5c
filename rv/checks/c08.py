"""C08: causality"""
import numpy as np

from .. import core, filt
from ..core import EPS, need

FILES = ["filters/", "detection/"]
RULE = ("Two runs on data which agree up to a random sample and then differ arbitrarily (other values, NaN, infinity, "
        "huge, other length); everything before has to agree. Filters, LE, ELBND and ESE.")
NEED = dict(decisive=1000, filter_pairs=50, le_pairs=20, elbnd_pairs=20, ese_pairs=5, nonfinite_future=20)


def future(ctx, a, k):
    """copy of the data with other content from index k on, maybe other length"""
    a = a[:k]
    m = ctx.irange(0 if k else 1, 40)
    tail = ctx.rng.normal(0, 1, (m,) + a.shape[1:]) * 10. ** ctx.rng.uniform(-3, 6)
    u = ctx.rng.random()
    if u < .4 and m:
        bad = ctx.rng.random(tail.shape) < ctx.choice([.1, 1.])
        tail[bad] = ctx.choice([np.nan, np.inf, -np.inf, 1e308])
        ctx.count("nonfinite_future")
    elif u < .5:
        tail[...] = 0
    return np.concatenate((a, tail))


def filters(ctx):
    c = filt.scenario(ctx, hi=120, long=.03)
    N, n = c.N, c.n
    if ctx.flip(.12):
        # values which are not finite in the past, too
        for _ in range(ctx.irange(1, 3)):
            if ctx.flip(.7):
                c.d[ctx.irange(0, N - 1)] = ctx.choice([np.nan, np.nan, np.inf, -np.inf])
            else:
                c.x[ctx.irange(0, N - 1), ctx.irange(0, n - 1)] = ctx.choice([np.nan, np.inf])
        if c.kind == "AP":
            c.d = np.nan_to_num(c.d)
            c.x = np.nan_to_num(c.x)
        ctx.count("nonfinite_past")
    f, g = filt.build(ctx, c), filt.build(ctx, c)
    y, e, W, W1 = filt.trace_run(ctx, f, c.d, c.x)
    k = ctx.irange(0, N)
    only_d = ctx.flip(.4) and k < N
    if only_d:
        x2 = c.x
        d2 = np.concatenate((c.d[:k], future(ctx, c.d[k:], 0)))
        d2 = np.resize(d2, N) if len(d2) >= N else np.concatenate((d2, ctx.rng.normal(0, 1, N - len(d2))))
        d2[:k] = c.d[:k]
    else:
        x2 = future(ctx, c.x, k)
        d2 = np.concatenate((c.d[:k], ctx.rng.normal(0, 1, max(0, len(x2) - k))))
        if len(x2) > k and ctx.flip(.3):
            d2[ctx.irange(k, len(x2) - 1)] = np.nan
    if len(x2) == 0:
        return
    ctx.note(cut=k, only_d=only_d, N2=len(x2))
    try:
        # an AP filter may refuse a singular matrix of NaN, that is not the subject
        r = g.run(d2, x2)
        ctx.calls += 1
    except (np.linalg.LinAlgError, OverflowError):
        ctx.count("refused_future")
        return
    y2, e2, V = filt.unpack(r, len(x2), n)
    last = np.vstack((V[1:], filt.weights(g)[None]))
    ny = k + 1 if only_d else k
    if ny == 0:
        return

    def twin():
        h = filt.new(ctx, c.kind, n, c.p, c.w, c.via)
        a, b, A, B = filt.trace_run(ctx, h, filt.jitter(ctx, c.d), filt.jitter(ctx, c.x))
        b[k:ny] = e[k:ny]
        B[k:ny] = W1[k:ny]
        return a[:ny], b[:ny], A[:ny], B[:ny]
    e2, last = e2.copy(), last.copy()
    if only_d:
        e2[k], last[k] = e[k], W1[k]
    stop = filt.same_traj(ctx, "%s: samples before %d depend on the future" % (c.kind, k),
                          (y[:ny], e[:ny], W[:ny], W1[:ny]), (y2[:ny], e2[:ny], V[:ny], last[:ny]), [twin] * 3,
                          about=lambda: filt.undecided(c.kind, c.p, W[:ny], c.x[:ny], c.d[:ny]))
    ctx.decisive(stop)
    ctx.count("filter_pairs")


def history(ctx, N, n):
    """weights history: random walk or recorded from a filter"""
    if ctx.flip(.5):
        w = np.cumsum(ctx.rng.normal(0, 1, (N, n)) * ctx.logu(1e-3, 10) * np.exp(ctx.rng.normal(0, 1, (N, 1))), axis=0)
        if ctx.flip(.5):
            # parts with exactly equal increments
            for _ in range(ctx.irange(1, 3)):
                a = ctx.irange(0, N - 1)
                b = min(N, a + ctx.irange(2, 40))
                w[a:b] = np.round(w[a]) + np.outer(np.arange(b - a), ctx.rng.integers(-2, 3, n))
        return w
    kind = ctx.choice(["NLMS", "RLS", "GNGD", "LMS"])
    x, _ = filt.make_x(ctx, N, n, "gauss")
    d, _, _ = filt.make_d(ctx, x, ctx.choice(["linear", "step", "spikes"]))
    f = filt.new(ctx, kind, n, filt.params(ctx, kind, x, d), "zeros")
    return filt.unpack(ctx.call(f.run, d, x), N, n)[2]


def detectors(ctx, what):
    pa = core.load()
    n, N = ctx.irange(1, 5), ctx.irange(12, 120)
    w = history(ctx, N, n)
    k = ctx.irange(1, N)
    ctx.note(what=what, n=n, N=N, cut=k)
    ctx.digest(w)
    if what == "le":
        m, order = ctx.irange(1, 20), ctx.choice([1, 1, 2, 3])
        alpha = ctx.choice([False, [1., 2.], list(ctx.rng.uniform(.3, 6, ctx.irange(1, 5)))])
        ctx.note(m=m, order=order, alpha=str(alpha))
        w2 = future(ctx, w, k)
        if len(w2) <= order:
            return
        a = ctx.call(pa.detection.learning_entropy, w, m=m, order=order, alpha=alpha)
        b = ctx.call(pa.detection.learning_entropy, w2, m=m, order=order, alpha=alpha)
        shape = (N,) if alpha else (N, n)
        a = core.as_float("LE", a, shape)
        b = core.as_float("LE", b, (len(w2),) + shape[1:])
        core.compare("LE(m=%d, order=%d, alpha=%s) before row %d" % (m, order, alpha, k), b[:k], a[:k],
                     1e-9 * (np.abs(a[:k]) + 1))
        ctx.count("le_pairs")
    elif what == "elbnd":
        fn = ctx.choice(["max", "sum"])
        e = ctx.rng.normal(0, 1, N)
        w2 = future(ctx, w, k)
        e2 = np.append(e[:k], ctx.rng.normal(0, 1, len(w2) - k) * 1e5)
        a = core.as_float("ELBND", ctx.call(pa.detection.ELBND, w, e, function=fn), (N,))
        b = core.as_float("ELBND", ctx.call(pa.detection.ELBND, w2, e2, function=fn), (len(w2),))
        # value k-1 needs row k
        core.compare("ELBND before row %d" % (k - 1), b[:k - 1], a[:k - 1], 1e-12 * np.abs(a[:k - 1]))
        ctx.count("elbnd_pairs")
        if k < 2:
            return
    else:
        w = w[:50, :2]
        k = min(k, len(w))
        win = ctx.irange(5, 30)
        win = min(win, len(w) - 1)
        if k <= win:
            k = min(len(w), win + ctx.irange(1, 10))
        m = ctx.choice(["10%", "sqrt", "log10log10", "log10", "30%", "35%"])
        w2 = np.concatenate((w[:k], w[k - 1] + ctx.rng.normal(0, 1, (ctx.irange(0, 6), w.shape[1])) * ctx.logu(.1, 1e3)))
        a = core.as_float("ESE", ctx.call(pa.detection.ESE, w, window=win, pot_method=m), (len(w),))
        b = core.as_float("ESE", ctx.call(pa.detection.ESE, w2, window=win, pot_method=m), (len(w2),))
        core.compare("ESE(window=%d, %s) before row %d" % (win, m, k), b[:k], a[:k], 1e-6 * (1 + np.abs(a[:k])))
        ctx.count("ese_pairs")
    ctx.decisive(k)


def case(ctx):
    if ctx.idx // 8 % 4 == 3:
        if ctx.flip(.12):
            detectors(ctx, "ese")
        else:
            for _ in range(6):
                detectors(ctx, "le")
                detectors(ctx, "elbnd")
    else:
        filters(ctx)
