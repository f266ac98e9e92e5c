"""C24: PCA"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need

FILES = ["preprocess/pca.py"]
RULE = ("Data sets of 2 and more features (correlated, degenerate, rank deficient, equal variances, offsets, fewer samples "
        "than features); directions are recovered from the projection and judged by orthonormality, variances and "
        "correlations against singular values of the centered data.")
NEED = dict(decisive=1000, rejections=100, directions=200, degenerate=30, default_n=30)


def data(ctx):
    r = ctx.rng
    f, N = ctx.choice([2, 3, 4, ctx.irange(2, 12)]), filt.length(ctx, 2, 200)
    if ctx.flip(.1):
        N = ctx.irange(2, f + 1)
    style = ctx.choice(["gauss", "mixed", "mixed", "lowrank", "equal", "constcol", "dup", "ints", "diag", "corr", "line", "onehot", "near"])
    x = r.normal(0, 1, (N, f))
    if style == "mixed":
        x = x @ r.normal(0, 1, (f, f))
    elif style == "lowrank":
        k = ctx.irange(1, f)
        x = r.normal(0, 1, (N, k)) @ r.normal(0, 1, (k, f))
    elif style == "equal":
        x = np.vstack((np.identity(f), -np.identity(f))) * r.normal()
    elif style == "constcol":
        x[:, r.random(f) < .5] = r.normal()
    elif style == "dup":
        x[:, -1] = x[:, 0] * ctx.choice([1., -1., 2.])
    elif style == "ints":
        x = r.integers(-3, 4, (N, f)).astype(float)
    elif style == "diag":
        x = x * 10. ** r.uniform(-3, 3, f)
    elif style == "corr":
        x = x + 3 * r.normal(0, 1, (N, 1))
    elif style == "line":
        x = np.outer(np.arange(N), np.ones(f)) + 1e-3 * x
    elif style == "near":
        # variances which differ only a little
        N = max(N, f + 2)
        x = np.linalg.qr(np.hstack((np.ones((N, 1)), r.normal(0, 1, (N, f)))))[0][:, 1:]
        x = x * np.sqrt(1 + 10. ** -r.uniform(3, 11) * r.permutation(f)) @ np.linalg.qr(r.normal(0, 1, (f, f)))[0]
    elif style == "onehot":
        x = np.eye(f)[r.integers(0, f, N)]
    if ctx.flip(.4):
        x = x + r.normal(0, 1, f) * 10. ** r.uniform(-1, 3)
    if ctx.flip(.3):
        x = x * 10. ** r.uniform(-6, 6)
    return x, style


def case(ctx):
    pp = core.load().preprocess
    x, style = data(ctx)
    N, f = x.shape
    X, x, lx = forms.recast(ctx, x)
    ctx.note(N=N, f=f, style=style, x=lx)
    ctx.digest(x)
    ctx.kinds[style] += 1
    z = (x.astype(LD) - x.astype(LD).mean(axis=0)).astype(float)
    s = np.linalg.svd(z, compute_uv=False)
    ref = np.zeros(f)
    ref[:len(s)] = s ** 2 / (N - 1)
    top, l1 = float(np.abs(x).max()), float(ref[0])
    tol = (100 * f + 8 * N) * EPS * l1 + 200 * EPS * top * np.sqrt(l1) + f * ((N + 30) * EPS * top) ** 2 + 1e-300
    arg = X.tolist() if ctx.flip(.15) else X
    comp = core.as_float("PCA_components", ctx.call(pp.PCA_components, arg), (f,))
    core.compare("PCA_components of %s data as %s" % (style, lx), comp, ref, tol)
    need(np.all(np.diff(comp) <= 0), "PCA_components: not in descending order: %s", comp)
    ctx.decisive()
    n = ctx.irange(1, f - 1)
    if ctx.flip(.25):
        n = f - 1
        ctx.count("default_n")
        out = ctx.call(pp.PCA, X)
    else:
        out = ctx.call(pp.PCA, X, n) if ctx.flip() else ctx.call(pp.PCA, x=X, n=n)
    out = core.as_float("PCA", out, (N, n))
    need(np.all(np.isfinite(out)), "PCA: result is not finite")
    # the projection is linear in the data
    U, sx, Vt = np.linalg.svd(x, full_matrices=False)
    rank = int(np.sum(sx > 1e-9 * sx[0])) if sx[0] > 0 else 0
    V = Vt[:rank].T @ ((U[:, :rank].T @ out) / sx[:rank, None]) if rank else np.zeros((f, n))
    core.compare("PCA(n=%d) of %s data: linear projection of rows" % (n, style), x @ V, out, 1e-7 * top * f + 1e-300)
    cond = sx[0] / sx[rank - 1] if rank else 1.
    # uncorrelated outputs with the biggest variances
    o = out.astype(LD) - out.astype(LD).mean(axis=0)
    C = (o.T @ o / (N - 1)).astype(float)
    core.compare("PCA(n=%d) of %s data: covariance of outputs" % (n, style), C, np.diag(ref[:n]), tol * 10)
    if rank == f and cond < 1e7:
        core.compare("PCA(n=%d) of %s data: directions are orthonormal" % (n, style), V.T @ V, np.identity(n), 1e-12 * f * cond + 1e-9)
        core.compare("PCA(n=%d) of %s data: variance along directions" % (n, style), np.cov(z.T) @ V, V * ref[:n], 100 * tol + 1e-12 * f * cond * l1)
        ctx.count("directions")
    else:
        # parts of directions in the row space only
        need(np.all(np.linalg.norm(V, axis=0) < 1 + 1e-6), "PCA: direction longer than 1")
        ctx.count("degenerate")
    ctx.decisive(n)
    if ctx.flip(.3):
        bad = ctx.choice([f, f + 1, f + ctx.irange(2, 9)])
        ctx.rejects("PCA(n=%d) of %d features" % (bad, f), (AssertionError, ValueError), pp.PCA, X, bad)
