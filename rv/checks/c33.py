"""C33: invariances of error measures, standardization, history matrices, PCA and LDA"""
import numpy as np

from .. import core, filt
from ..core import need

FILES = ["misc/", "preprocess/"]
RULE = ("Well conditioned data are joined, reordered, shifted, scaled, rotated and mapped by invertible matrices; results which "
        "the real code gives for both data sets are related as the definitions require.")
NEED = dict(decisive=2000, measures=100, standardization=100, history=100, pca=100, lda=100)


def measures(ctx, m):
    """mean errors compose over parts, do not depend on order and shift, scale with the series"""
    N = filt.length(ctx, 2, 300, .02)
    r = ctx.rng
    a, b = r.normal(0, 1, N) * 10. ** ctx.irange(-3, 4), r.normal(0, 1, N)
    name = ctx.choice(["MSE", "MAE", "RMSE"])
    via = ctx.flip(.3)

    def go(u, v):
        f = m.misc.get_mean_error if via else getattr(m.misc, name)
        return float(core.as_float(name, ctx.call(f, u, v, **(dict(function=name) if via else {})), ()))
    big = 0
    if ctx.flip(.3):
        # gross errors far over the others, which mean errors contain like any other
        big = ctx.irange(3, 60 if name == "MAE" else 40)
        a = a * 10. ** -ctx.irange(0, 20 if ctx.flip() else 3)
        b = b * (np.std(a) if ctx.flip() else 0)
        for _ in range(ctx.irange(1, 3)):
            a[ctx.irange(N // 2 if ctx.flip() else 0, N - 1)] = r.normal() * 10. ** big
    ctx.note(what=name, N=N, via=via, big=big)
    ctx.digest(a, b)
    base = go(a, b)
    if name == "MAE" and not b.any():
        core.compare("MAE of one series", base, float(np.mean(np.abs(a.astype(np.longdouble)))), 1e-12 * base)
    sq = (lambda v: v * v) if name == "RMSE" else (lambda v: v)
    i = ctx.irange(1, N - 1)
    want = (i * sq(go(a[:i], b[:i])) + (N - i) * sq(go(a[i:], b[i:]))) / N
    core.compare("%s of joined series against its parts" % name, sq(base), want, 1e-12 * abs(want))
    p = r.permutation(N)
    core.compare("%s of reordered series" % name, go(a[p], b[p]), base, 1e-12 * base)
    s = ctx.choice([-3., .125, 1e3, -1., ctx.logu(1e-8, 1e8)])
    core.compare("%s of series scaled by %g" % (name, s), go(a * s, b * s), base * (s * s if name == "MSE" else abs(s)), 1e-12 * base * (s * s if name == "MSE" else abs(s)))
    c = 2. ** ctx.irange(-4, 4)
    top = float(np.max(np.abs(np.append(a, b)))) + c
    core.compare("%s of shifted series" % name, go(a + c, b + c), base, (1e-12 + 100 * core.EPS * top / max(base if name != "MSE" else base ** .5, 1e-300)) * base)
    core.compare("%s of repeated series" % name, go(np.tile(a, 3), np.tile(b, 3)), base, 1e-12 * base)
    u, v = a[0], b[0]
    if u != v:
        core.compare("%s of one sample" % name, go([u], [v]), (u - v) ** 2 if name == "MSE" else abs(u - v), 1e-12 * max((u - v) ** 2, abs(u - v)))
    lg = core.as_float("logSE", ctx.call(m.misc.logSE, a[p], b[p]), (N,))
    core.compare("logSE of reordered series", lg, core.as_float("logSE", ctx.call(m.misc.logSE, a, b), (N,))[p], 1e-9)
    k = ctx.irange(0, N - 1)
    core.compare("logSE of a part of the series", core.as_float("logSE", ctx.call(m.misc.logSE, a[k:], b[k:]), (N - k,)), lg[np.argsort(p)][k:], 1e-9)
    ctx.decisive(8)


def standardization(ctx, m):
    r = ctx.rng
    shape = (filt.length(ctx, 3, 200),) if ctx.flip(.7) else (ctx.irange(3, 40), ctx.irange(1, 5))
    x = r.normal(0, 1, shape)
    if len(shape) > 1 and ctx.flip(.7):
        x = x * r.uniform(.1, 5, shape[1]) + r.normal(0, 2, shape[1])
    s, o = ctx.choice([-1., 1.]) * ctx.logu(1e-4, 1e4), float(r.normal(0, 2))
    o *= abs(s)
    ctx.note(what="standardize", shape=shape, s=s)
    ctx.digest(x)
    a = core.as_float("standardize", ctx.call(m.standardize, x), shape)
    b = core.as_float("standardize", ctx.call(m.standardize, x * s + o), shape)
    tol = 1e-11 * (1 + np.abs(a)) / min(1., float(np.std(x)))
    core.compare("mean of standardized data", a.mean(), 0., 1e-11 / min(1., float(np.std(x))))
    core.compare("deviation of standardized data", a.std(), 1., 1e-11)
    core.compare("standardize of a linear transformation", b, a * np.sign(s), tol)
    core.compare("standardize of standardized data", core.as_float("standardize", ctx.call(m.standardize, a), shape), a, tol)
    p = r.permutation(shape[0])
    core.compare("standardize of reordered data", core.as_float("standardize", ctx.call(m.standardize, x[p]), shape), a[p], tol)
    # given offset and scale work for every part of the data alone
    off, sc = float(r.normal()), ctx.logu(.01, 100)
    k = ctx.irange(1, shape[0] - 1)
    whole = core.as_float("standardize", ctx.call(m.standardize, x, offset=off, scale=sc), shape)
    for part in (slice(0, k), slice(k, None)):
        core.compare("standardize of a part with given offset and scale", core.as_float(
            "standardize", ctx.call(m.standardize, x[part], offset=off, scale=sc), x[part].shape), whole[part], 1e-13 * (1 + np.abs(whole[part])))
        core.compare("standardize_back of a part", core.as_float(
            "standardize_back", ctx.call(m.standardize_back, whole[part], off, sc), x[part].shape), x[part], 1e-12 * (1 + abs(off)) + 1e-13 * sc)
    # two standardizations make one
    off2, sc2 = float(r.normal()), ctx.logu(.1, 10)
    both = core.as_float("standardize", ctx.call(m.standardize, whole, off2, sc2), shape)
    core.compare("two standardizations in a row", both, core.as_float(
        "standardize", ctx.call(m.standardize, x, off + sc * off2, sc * sc2), shape),
        1e-11 * (1 + np.abs(both) + (abs(off) / sc + abs(off2)) / sc2))
    ctx.decisive(7)


def history(ctx, m):
    r = ctx.rng
    N = filt.length(ctx, 2, 120, .01)
    s = r.normal(0, 1, N)
    n = ctx.irange(1, N)
    bias = ctx.flip(.3)
    ctx.note(what="history", N=N, n=n, bias=bias)
    ctx.digest(s)

    def go(a, n, bias=False):
        return core.as_float("input_from_history", ctx.call(m.input_from_history, a, n, bias=bias), (len(a) - n + 1, n + bias))
    X = go(s, n, bias)
    core.identical("history of reversed series", go(s[::-1].copy(), n), X[::-1, :n][:, ::-1])
    if n > 1:
        k = ctx.irange(1, n)
        core.identical("shorter windows are parts of longer ones", go(s, k)[:len(X)], X[:, :k])
        core.identical("shorter windows, last columns", go(s, k)[n - k:], X[:, n - k:n])
    i = ctx.irange(0, N - n)
    core.identical("history of a part of the series", go(s[i:], n, bias), X[i:])
    core.identical("history of the beginning", go(s[:i + n], n, bias), X[:i + 1])
    if bias:
        core.identical("matrix without bias", go(s, n), X[:, :-1])
    core.identical("series recovered from the matrix", np.append(X[:, 0], X[-1, 1:n]), s)
    ctx.decisive(6)


def pca(ctx, m):
    r = ctx.rng
    f = ctx.irange(2, 8)
    N = f + ctx.irange(3, 80)
    # singular values well apart
    Q = np.linalg.qr(r.normal(0, 1, (f, f)))[0]
    U = np.linalg.qr(np.hstack((np.ones((N, 1)), r.normal(0, 1, (N, f)))))[0][:, 1:]
    sv = np.cumprod(r.uniform(1.3, 3., f))[::-1] * ctx.logu(1e-3, 1e3)
    x = U * sv @ Q + r.normal(0, 1, f) * sv[0] * ctx.choice([0, 0, 1.])
    n = ctx.irange(1, f - 1)
    ctx.note(what="pca", N=N, f=f, n=n)
    ctx.digest(x)
    comp = core.as_float("PCA_components", ctx.call(m.preprocess.PCA_components, x), (f,))
    out = core.as_float("PCA", ctx.call(m.preprocess.PCA, x, n), (N, n))
    tol = 1e-10 * comp[0]
    # rows which are in the data more times
    z = np.vstack((x, x[:ctx.irange(1, 3)]))
    z = z if ctx.flip() else np.sort(x, axis=0)[r.integers(0, N, N)]
    want = core.as_float("PCA_components", ctx.call(m.preprocess.PCA_components, z), (f,))
    for q in (np.roll(z, ctx.irange(1, N), axis=0), z[::-1]):
        core.compare("PCA_components of data with repeated rows, in another order", core.as_float(
            "PCA_components", ctx.call(m.preprocess.PCA_components, q), (f,)), want, 1e-10 * (want[0] + np.abs(z).max() ** 2))
    # a move, a rotation and a change of unit
    R = np.linalg.qr(r.normal(0, 1, (f, f)))[0]
    c, s = r.normal(0, 1, f) * sv[0], ctx.choice([1., -1., 2., ctx.logu(1e-3, 1e3)])
    y = (x @ R) * s + c
    core.compare("PCA_components of moved, rotated and scaled data", core.as_float(
        "PCA_components", ctx.call(m.preprocess.PCA_components, y), (f,)), comp * s * s, tol * s * s * 10 * (1 + (np.abs(c).max() / sv[0]) ** 2) / min(1, abs(s)) ** 2)
    p = r.permutation(N)
    core.compare("PCA_components of reordered rows", core.as_float("PCA_components", ctx.call(m.preprocess.PCA_components, x[p]), (f,)), comp, tol)
    core.compare("sum of PCA_components and variances of features", comp.sum(), np.var(x, axis=0, ddof=1).sum(), tol * f)

    def signs(what, a, b, tol):
        for j in range(b.shape[1]):
            sg = np.sign(np.dot(a[:, j], b[:, j])) or 1.
            core.compare("%s: output %d" % (what, j), a[:, j] * sg, b[:, j], tol)
    far = 1e-8 * np.abs(out).max() * f + 1e-8 * np.abs(x).max()
    signs("PCA of reordered rows", core.as_float("PCA", ctx.call(m.preprocess.PCA, x[p], n), (N, n)), out[p], far)
    signs("PCA of rotated data", core.as_float("PCA", ctx.call(m.preprocess.PCA, x @ R, n), (N, n)), out, far)
    signs("PCA of scaled data", core.as_float("PCA", ctx.call(m.preprocess.PCA, x * s, n), (N, n)), out * s, far * abs(s))
    k = ctx.irange(1, f - 1)
    more = core.as_float("PCA", ctx.call(m.preprocess.PCA, x, k), (N, k))
    signs("PCA to %d and %d features" % (n, k), more[:, :n], out[:, :k], far)
    z = core.as_float("PCA", ctx.call(m.preprocess.PCA, x + c, n), (N, n))
    signs("PCA of moved data", z - z.mean(axis=0), out - out.mean(axis=0), far + 1e-8 * np.abs(c).max())
    if n > 1:
        core.compare("PCA_components of projected data", core.as_float(
            "PCA_components", ctx.call(m.preprocess.PCA_components, out), (n,)), comp[:n], tol * 10)
    ctx.decisive(8)


def lda(ctx, m):
    r = ctx.rng
    f, C = ctx.irange(2, 6), ctx.irange(2, 5)
    y = np.concatenate((np.repeat(np.arange(C), f + 3), r.integers(0, C, ctx.irange(0, 60))))
    N = len(y)
    x = r.normal(0, 1, (N, f)) + (r.normal(0, 2, (C, f)))[y]
    ctx.note(what="lda", N=N, f=f, C=C)
    ctx.digest(x, y)
    go = lambda x, y: core.as_float("LDA_discriminants", ctx.call(m.preprocess.LDA_discriminants, x, y), (f,))
    ev = go(x, y)
    tol = 1e-9 * ev[0]
    A = np.linalg.qr(r.normal(0, 1, (f, f)))[0] * r.uniform(.3, 3., f) @ np.linalg.qr(r.normal(0, 1, (f, f)))[0]
    core.compare("LDA_discriminants of data mapped by an invertible matrix", go(x @ A + r.normal(0, 3, f), y), ev, tol * 10)
    core.compare("LDA_discriminants of features in other units", go(x * 10. ** r.integers(-2, 3, f), y), ev, tol * 1e4)
    core.compare("LDA_discriminants of features in small or big units", go(x * 10. ** ctx.irange(-9, 9), y), ev, tol * 10)
    core.compare("LDA_discriminants of data repeated twice", go(np.vstack((x, x)), np.append(y, y)), ev, tol)
    p = r.permutation(N)
    core.compare("LDA_discriminants of reordered rows", go(x[p], y[p]), ev, tol)
    k = np.append(np.arange(N), np.zeros(ctx.irange(0, 3), dtype=int))
    k = np.append(k, k[:ctx.irange(1, 3)])
    i = ctx.irange(1, len(k) - 1)
    core.compare("LDA_discriminants of data with repeated rows, in another order", go(x[np.roll(k, i)], y[np.roll(k, i)]), go(x[k], y[k]), tol)
    n = ctx.irange(1, f - 1)
    out = core.as_float("LDA", ctx.call(m.preprocess.LDA, x, y, n), (N, n))
    rank = min(f, C - 1)
    gaps = [min([abs(ev[j] - ev[i]) for i in range(f) if i != j]) for j in range(f)]
    other = core.as_float("LDA", ctx.call(m.preprocess.LDA, x[p], y[p], n), (N, n))
    two = core.as_float("LDA", ctx.call(m.preprocess.LDA, x * 2., y, n), (N, n))
    k = ctx.irange(1, f - 1)
    more = core.as_float("LDA", ctx.call(m.preprocess.LDA, x, y, k), (N, k))
    for j in range(min(n, rank)):
        if gaps[j] < 1e-3 * ev[0]:
            continue
        top = 1e-7 * np.abs(x).max() * f
        for what, a, b in (("reordered rows", other[:, j], out[p][:, j]), ("scaled data", two[:, j], 2 * out[:, j])) + (
                (("%d and %d outputs" % (n, k), more[:, j], out[:, j]),) if j < k else ()):
            sg = np.sign(np.dot(a, b)) or 1.
            core.compare("LDA, output %d: %s" % (j, what), a * sg, b, top)
        ctx.decisive(2)
    ctx.decisive(4)


def case(ctx):
    pa = core.load()
    part = ctx.choice([measures, standardization, history, pca, lda])
    ctx.kinds[part.__name__] += 1
    ctx.count(part.__name__)
    part(ctx, pa)
