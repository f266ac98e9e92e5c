"""C25: LDA"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need

FILES = ["preprocess/lda.py"]
RULE = ("Labelled data sets (2 and more features, 1 to 6 classes of different sizes and names, offsets, scales); eigenvalues "
        "and directions recovered from the projection are judged by a symmetric form of the eigenproblem, and by "
        "relabelling and permutation of rows.")
NEED = dict(decisive=1000, rejections=100, directions=200, relabelled=100, permuted=100)


def data(ctx):
    r = ctx.rng
    f, C = ctx.choice([2, 2, 3, 4, ctx.irange(2, 12)]), ctx.choice([2, 3, 3, 1, 4, ctx.irange(2, 6)])
    sizes = [ctx.irange(1, 40) if ctx.flip(.8) else 1 for _ in range(C)]
    sizes[0] += f + 2
    if ctx.flip(.03):
        sizes[-1] += ctx.irange(100, 400)
    y = np.repeat(np.arange(C), sizes)
    A = r.normal(0, 1, (f, f)) if ctx.flip(.6) else np.diag(10. ** r.uniform(-2, 2, f))
    style = ctx.choice(["gauss", "ints", "separated", "close", "unequal"])
    x = r.normal(0, 1, (len(y), f))
    mu = r.normal(0, 1, (C, f)) * {"separated": 20., "close": .05}.get(style, 2.)
    if style == "unequal":
        x = x * r.uniform(.1, 3, C)[y][:, None]
    x = (x + mu[y]) @ A
    if style == "ints":
        x = np.round(x)
    if ctx.flip(.15):
        # features which do not separate the classes at all, up to rounding
        for j in np.flatnonzero(r.random(f) < .4):
            for c in range(C):
                x[y == c, j] -= x[y == c, j].mean()
    if ctx.flip(.3):
        x = x + r.normal(0, 1, f) * 10. ** r.uniform(0, 2)
    if ctx.flip(.3):
        x = x * 10. ** (r.uniform(-3, 3) if ctx.flip(.7) else r.uniform(-9, 9))
    p = r.permutation(len(y)) if ctx.flip(.8) else np.arange(len(y))
    return x[p], y[p], C, style


def names(ctx, y, C):
    """labels in some type and container"""
    u = ctx.irange(0, 12)
    r = ctx.rng
    if u == 0:
        lab = np.array(["c%d" % v for v in r.permutation(100)[:C]])[y]
    elif u == 1:
        lab = r.permutation(np.arange(-3, 20))[:C][y]
    elif u == 2:
        lab = (r.permutation(20)[:C] * .25 - 2)[y]
    elif u == 3 and C <= 2:
        lab = y.astype(bool)
    elif u == 4:
        lab = y.astype("uint8")
    elif u == 5:
        lab = np.array([c * k for k, c in zip((1, 2, 3, 4, 5, 6), r.permutation(list("abcxyz")))][:C])[y]
    elif u == 8:
        pre = "x" * ctx.irange(5, 60)
        lab = np.array([pre + ctx.choice(["", "-"]) + "%d" % v for v in r.permutation(100)[:C]])[y]
    elif u == 9:
        # differ by the case of letters, or by spaces
        a = ["abc", "ABC", "Abc", "aBc", "abC", "ABc"] if ctx.flip() else ["a b", "ab", " ab", "a  b", "Ab", "A b"]
        lab = np.array(a)[r.permutation(6)[:C]][y]
    elif u == 10:
        # neighbouring numbers, far from zero
        lab = (ctx.choice([2 * 10 ** 7, 10 ** 9, 2 ** 53 + 10, 2 ** 61]) + r.permutation(C))[y]
    elif u == 11:
        lab = (ctx.choice([1., 1000., 2. ** 40]) * (1 + ctx.choice([1e-9, 1e-12, 1e-15]) * r.permutation(C)))[y]
    elif u == 12:
        # differ in sign only, or by little
        lab = (np.array([-1, 1, -2, 2, -3, 3])[:C] * ctx.choice([1, .1, 1e-9, 1e-300]))[y]
    elif u == 6:
        lab = (10 ** 6 * (r.permutation(9)[:C] + 1))[y]
    else:
        lab = y
    box = ctx.choice(["array", "array", "list", "tuple", "pylist"])
    return {"array": lab, "list": list(lab), "tuple": tuple(lab), "pylist": lab.tolist()}[box], "%s of %s" % (box, lab.dtype)


def scatter(x, y, C):
    xl = x.astype(LD)
    m = xl.mean(axis=0)
    W = B = np.zeros((x.shape[1],) * 2, LD)
    for c in range(C):
        z = xl[y == c]
        mc = z.mean(axis=0)
        W = W + (z - mc).T @ (z - mc)
        B = B + len(z) * np.outer(mc - m, mc - m)
    return W, B


def case(ctx):
    pp = core.load().preprocess
    x, y, C, style = data(ctx)
    N, f = x.shape
    arg, x, lx = forms.recast(ctx, x)
    X = arg
    W, B = scatter(x, y, C)
    Wd = W.astype(float)
    cond = np.linalg.cond(Wd)
    top = float(np.abs(x).max())
    if not cond < 1e8 or not np.all(np.isfinite(Wd)):
        return
    labels, how = names(ctx, y, C)
    ctx.note(N=N, f=f, C=C, style=style, labels=how, x=lx)
    ctx.digest(x, y)
    ctx.kinds[style] += 1
    L = np.linalg.cholesky(Wd)
    Li = np.linalg.inv(L)
    S = Li @ B.astype(float) @ Li.T
    ref = np.linalg.eigvalsh((S + S.T) / 2)[::-1]
    # eigenvalues of a product which is not symmetric
    # bound of Bauer and Fike: eigenvectors L^-T Q have the condition sqrt(cond(S_W))
    lb = np.linalg.norm(np.linalg.inv(Wd), 2) * np.linalg.norm(B.astype(float), 2)
    mean_err = (N + 30) * EPS * top
    rel = EPS * (N + 30) * f * cond * np.sqrt(cond) * lb + np.linalg.norm(np.linalg.inv(Wd), 2) * np.sqrt(cond) * (
        N * mean_err ** 2 + mean_err * np.sqrt(N * np.trace(B.astype(float)))) * 10
    tol = 10 * rel + 1e-13 * ref[0] + 1e-300
    if not tol < 1e-4 * max(ref[0], 1e-3):
        ctx.count("illconditioned_skipped")
        return
    if ctx.flip(.1):
        arg = x.tolist()
    ev = core.as_float("LDA_discriminants", ctx.call(pp.LDA_discriminants, arg, labels), (f,))
    core.compare("LDA_discriminants of %s data, %d classes, labels %s" % (style, C, how), ev, ref, tol)
    need(np.all(np.diff(ev) <= 0), "LDA_discriminants: not in descending order: %s", ev)
    ctx.decisive()
    n = ctx.irange(1, f - 1)
    if ctx.flip(.25):
        n = f - 1
        out = ctx.call(pp.LDA, X, labels)
    else:
        out = ctx.call(pp.LDA, X, labels, n) if ctx.flip() else ctx.call(pp.LDA, X, labels, n=n)
    out = core.as_float("LDA", out, (N, n))
    need(np.all(np.isfinite(out)), "LDA: result is not finite")
    sx = np.linalg.svd(x, compute_uv=False)
    cx = sx[0] / sx[-1]
    strict = 0
    if cx < 1e7:
        V = np.linalg.lstsq(x, out, rcond=None)[0]
        core.compare("LDA(n=%d): linear projection of rows" % n, x @ V, out, 1e-9 * cx * f * top * EPS ** 0 * 1e-3 + 1e-10 * f * top)
        for j in range(n):
            acc = 10 * tol / max(lb, 1e-300) + 1e-12 * cx * f * np.sqrt(cond)
            if acc > 1e-3:
                break
            v = V[:, j]
            need(abs(np.linalg.norm(v) - 1) < 1e-6 + acc, "LDA: direction %d has length %.9g", j, np.linalg.norm(v))
            core.compare("LDA of %s data, %d classes: direction %d of eigenvalue %.6g" % (style, C, j, ref[j]),
                         np.linalg.solve(Wd, B.astype(float) @ v), ref[j] * v, (1e-7 + acc) * lb * f)
            strict += 1
            gap = min([abs(ref[j] - ref[i]) for i in range(f) if i != j])
            ctx.count("close_eigenvalues", not gap > 1e-3 * ref[0])
    ctx.decisive(strict)
    ctx.count("directions", strict)
    if ctx.flip(.3):
        l2, how2 = names(ctx, ctx.rng.permutation(C)[y], C)
        ev2 = core.as_float("LDA_discriminants", ctx.call(pp.LDA_discriminants, x, l2), (f,))
        core.compare("LDA_discriminants with labels %s in place of %s" % (how2, how), ev2, ev, 2 * tol)
        ctx.count("relabelled")
    if ctx.flip(.3):
        p = ctx.rng.permutation(N)
        ev2 = core.as_float("LDA_discriminants", ctx.call(pp.LDA_discriminants, x[p], np.asarray(labels)[p]), (f,))
        core.compare("LDA_discriminants of permuted rows", ev2, ev, 2 * tol)
        ctx.count("permuted")
    if ctx.flip(.3):
        bad = ctx.choice([f, f + 1, f + ctx.irange(2, 9)])
        ctx.rejects("LDA(n=%d) of %d features" % (bad, f), (AssertionError, ValueError), pp.LDA, X, labels, bad)
