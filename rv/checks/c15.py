"""C15: independence of data representation"""
import warnings

import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need
from ..forms import FLOATS, dress, pick, values

FILES = ["filters/", "misc/", "preprocess/standardize.py", "preprocess/standardize_back.py",
         "preprocess/input_from_history.py", "preprocess/pca.py", "preprocess/lda.py", "detection/", "ann/"]
RULE = ("Values exactly representable in a random type are passed as float64 arrays and as lists, tuples, arrays of any "
        "integer, boolean or floating type, byte order, strides and writability to filters (run, adapt, predict, initial "
        "weights), error measures, standardization, history matrices, PCA, LDA, the novelty detectors and the network.")
QUICK_S = 16
NEED = dict(decisive=1000, filter_run=50, filter_adapt=50, measures=50, preprocess=50, detectors=50, decomposition=50, network=50)


def filters(ctx):
    kind = ctx.choice(filt.KINDS)
    n, N = filt.size(ctx, 8), filt.length(ctx, 1, 60)
    tx, td, tw = pick(ctx), pick(ctx), pick(ctx)
    x, d = values(ctx, (N, n), tx), values(ctx, N, td)
    w = values(ctx, n, tw)
    if np.max(np.abs(w)) > 1e4:
        w, tw = np.round(ctx.rng.normal(0, 2, n)), "float64"
    p = filt.params(ctx, kind, x, d, wild=ctx.flip(.15))
    if kind == "AP":
        # the regularisation must not vanish in rounding, the matrix would be singular for any type
        p["ifc"] = abs(p["ifc"]) * max(1., float(np.max(np.sum(x * x, axis=1)))) + 1e-9
    X, lx = dress(ctx, x, tx)
    D, ld = dress(ctx, d, td)
    Wi, lw = dress(ctx, w, tw)
    ctx.note(kind=kind, n=n, N=N, x=lx, d=ld, w=lw, p={k: float(v) for k, v in p.items()})
    ctx.digest(x, d)
    ctx.kinds[kind] += 1
    ctx.kinds["x " + tx] += 1
    via = ctx.irange(0, 3)
    f, g = filt.new(ctx, kind, n, p, w.copy(), via), filt.new(ctx, kind, n, p, Wi, via)
    core.identical("%s: initial weights given as %s" % (kind, lw), filt.weights(g), w)
    what = "%s %s with x as %s, d as %s" % (kind, p, lx, ld)

    def twin(adapt):
        def t():
            h = filt.new(ctx, kind, n, p, w.copy(), via)
            xx, dd = filt.jitter(ctx, x), filt.jitter(ctx, d)
            if not adapt:
                return filt.trace_run(ctx, h, dd, xx)
            V = np.zeros((N, n))
            for k in range(N):
                h.adapt(dd[k], xx[k])
                V[k] = filt.weights(h)
            return (V,)
        return t
    if ctx.flip(.55):
        A = filt.trace_run(ctx, f, d, x)
        B = filt.trace_run(ctx, g, D, X)
        stop = filt.same_traj(ctx, "run of " + what, A, B, [twin(False)] * 3,
                              about=lambda: filt.undecided(kind, p, A[2], x, d))
        ctx.count("filter_run")
    else:
        V, U = np.zeros((N, n)), np.zeros((N, n))
        for k in range(N):
            if kind != "OCNLMS" and ctx.flip(.3):
                a = core.as_float("predict", ctx.call(f.predict, x[k]), ())
                b = core.as_float("predict", ctx.call(g.predict, X[k]), ())
                ref, bound = filt.output_bounds(np.vstack((filt.weights(f), filt.weights(g))), np.vstack((x[k], x[k])))
                if np.all(np.isfinite(ref)):
                    core.compare("predict of " + what, a, ref[0], bound[0])
                    core.compare("predict of " + what, b, ref[1], bound[1])
            dk = D[k]
            u = ctx.irange(0, 3)
            if u == 0 and isinstance(dk, np.generic):
                dk = dk.item() if not isinstance(dk, np.longdouble) else dk
            elif u == 1 and isinstance(dk, np.generic):
                dk = np.array(dk)
            ctx.call(f.adapt, float(d[k]), x[k])
            ctx.call(g.adapt, dk, X[k])
            V[k], U[k] = filt.weights(f), filt.weights(g)
        stop = filt.same_traj(ctx, "adapt of " + what, (V,), (U,), [twin(True)] * 3,
                              about=lambda: filt.undecided(kind, p, np.vstack((w, V[:-1])), x, d))
        ctx.count("filter_adapt")
    ctx.decisive(stop)


def measures(ctx):
    pa = core.load()
    N = filt.length(ctx, 1, 200)
    t1, t2 = pick(ctx), pick(ctx)
    a, b = values(ctx, N, t1), values(ctx, N, t2)
    A, la = dress(ctx, a, t1)
    B, lb = dress(ctx, b, t2)
    ctx.note(what="measures", a=la, b=lb, N=N)
    ctx.digest(a, b)
    ctx.kinds["measures"] += 1
    two = ctx.flip(.7)
    e = a.astype(LD) - b.astype(LD) if two else a.astype(LD)
    big = np.max(np.abs(a)) + (np.max(np.abs(b)) if two else 0)
    slack = 4 * EPS * big
    for nm in ("MSE", "MAE", "RMSE", "logSE"):
        fn = getattr(pa.misc, nm)
        v = ctx.call(fn, A, B) if two else ctx.call(fn, A)
        u = ctx.call(fn, a, b) if two else ctx.call(fn, a)
        sh = (N,) if nm == "logSE" else ()
        v, u = core.as_float(nm, v, sh), core.as_float(nm, u, sh)
        ref = {"MSE": lambda: np.mean(e * e), "MAE": lambda: np.mean(np.abs(e)),
               "RMSE": lambda: np.sqrt(np.mean(e * e)), "logSE": lambda: 20 * np.log10(np.abs(e))}[nm]()
        tol = {"MSE": lambda: 1e-12 * ref + 2 * slack * np.mean(np.abs(e)) + slack ** 2,
               "MAE": lambda: 1e-12 * ref + slack, "RMSE": lambda: 1e-12 * ref + slack,
               "logSE": lambda: 1e-10 + 1e-12 * np.abs(ref) + np.where(np.abs(e) > 4 * slack, 20 * slack / np.abs(e), np.inf)}[nm]()
        tol = np.where(np.isnan(tol), 0, tol)
        for got, how in ((v, "%s and %s" % (la, lb) if two else la), (u, "float64")):
            core.compare("%s of series as %s" % (nm, how), got, ref, tol)
        if two:
            m = nm if nm != "logSE" else "MSE"
            core.identical("get_mean_error as %s and %s" % (la, lb),
                           ctx.call(pa.misc.get_mean_error, A, B, function=m), ctx.call(getattr(pa.misc, m), A, B))
    ctx.decisive(8)
    ctx.count("measures")


def scalar(ctx, v):
    """number in other representation"""
    if v == int(v) and abs(v) < 100 and ctx.flip(.6):
        return ctx.choice([int, np.int8, np.int64, np.float32, np.float16, lambda q: np.array(q)])(int(v))
    return ctx.choice([float, np.float64, np.longdouble, lambda q: np.array(q)])(v)


def preprocess(ctx):
    pp = core.load().preprocess
    t = pick(ctx)
    N = filt.length(ctx, 2, 200)
    sh = (N,) if ctx.flip(.7) else (N, ctx.irange(1, 4))
    a = values(ctx, sh, t)
    A, la = dress(ctx, a, t)
    ctx.note(what="preprocess", a=la, shape=sh)
    ctx.digest(a)
    ctx.kinds["preprocess"] += 1
    off = ctx.choice([0., 1., -3., float(ctx.rng.normal(0, 10))])
    sc = ctx.choice([1., 2., -4., 10., ctx.logu(1e-2, 1e2)])
    al = a.astype(LD)
    top = float(np.max(np.abs(a)))
    kw, mo, ms = {}, al.mean(), al.std()
    if ctx.flip(.6):
        kw["offset"], mo = scalar(ctx, off), LD(off)
    if ctx.flip(.6):
        kw["scale"], ms = scalar(ctx, sc), LD(sc)
    else:
        ms = np.sqrt(np.mean((al - al.mean()) ** 2))
    if ms != 0 and (("scale" in kw) or ms > 1e-6 * (top + 1e-300)):
        got = core.as_float("standardize", ctx.call(pp.standardize, A, **kw), sh)
        core.compare("standardize of %s with %s" % (la, kw), got, (al - mo) / ms, 1e-9 * (top + abs(mo)) / abs(ms))
        ctx.decisive(a.size)
    got = core.as_float("standardize_back", ctx.call(pp.standardize_back, A, scalar(ctx, off), scalar(ctx, sc)), sh)
    core.compare("standardize_back of %s" % la, got, al * LD(sc) + LD(off), 1e-12 * (top * abs(sc) + abs(off)))
    if len(sh) == 1:
        n = ctx.irange(1, min(N, 9))
        bias = ctx.flip()
        got = core.as_float("input_from_history", ctx.call(pp.input_from_history, A, n, bias=bias), (N - n + 1, n + bias))
        want = np.array([list(a[i:i + n]) + [1.] * bias for i in range(N - n + 1)])
        core.identical("input_from_history of %s" % la, got, want)
    ctx.decisive(a.size)
    ctx.count("preprocess")


def array_of(ctx, v, t, lists=False):
    """another representation of v, arrays only unless lists are allowed"""
    while True:
        obj, how = dress(ctx, v, t)
        if lists or isinstance(obj, np.ndarray):
            return obj, how


def detectors(ctx):
    det = core.load().detection
    fn = ctx.choice(["LE", "LE", "ELBND", "ELBND", "ESE"])
    n = ctx.irange(1, 5) if fn != "ESE" else 1
    N = filt.length(ctx, 3, 120) if fn != "ESE" else ctx.irange(14, 20)
    t, te = pick(ctx), pick(ctx)
    w, e = values(ctx, (N, n), t), values(ctx, N, te)
    W, lw = array_of(ctx, w, t, lists=fn == "LE")
    E, le = dress(ctx, e, te)
    ctx.note(what=fn, w=lw, e=le, shape=w.shape)
    ctx.digest(w, e)
    ctx.kinds["detectors"] += 1
    if fn == "ELBND":
        kw = ctx.choice([{}, dict(function="max"), dict(function="sum")])
        a = core.as_float(fn, ctx.call(det.ELBND, w, e, **kw), (N,))
        b = core.as_float(fn, ctx.call(det.ELBND, W, E, **kw), (N,))
        core.compare("ELBND(%s) of weights as %s, errors as %s" % (kw, lw, le), b, a,
                     1e-13 * a + 8 * n * EPS * np.max(np.abs(w)) * np.abs(e) + 1e-300)
    elif fn == "ESE":
        kw = dict(window=ctx.irange(11, N - 1), pot_method=ctx.choice(["10%", "sqrt", "30%"]))
        a = core.as_float(fn, ctx.call(det.ESE, w, **kw), (N,))
        b = core.as_float(fn, ctx.call(det.ESE, W, **kw), (N,))
        need(np.array_equal(a > 0, b > 0), "ESE(%s) of weights as %s: other rows are signalled", kw, lw)
        core.compare("ESE(%s) of weights as %s" % (kw, lw), b, a, 1e-2 + .02 * a)
    else:
        kw = dict(m=ctx.irange(1, N), order=min(ctx.choice([1, 1, 2, 3]), N - 1))
        if ctx.flip(.6):
            kw["alpha"] = ctx.choice([[1., 2., 4.], [.5], [3, 4, 5], (8., 10.)])
        a = core.as_float(fn, ctx.call(det.learning_entropy, w, **kw), (N,) if "alpha" in kw else (N, n))
        b = core.as_float(fn, ctx.call(det.learning_entropy, W, **kw), a.shape)
        # the same operations on the same numbers, summed in another order at most
        k = kw["order"]
        dw = np.abs(np.diff(w, n=k, axis=0))
        top = max(float(np.max(dw, initial=0)), float(np.max(np.abs(w)))) * 2 ** k
        if "alpha" in kw:
            full = w.astype(LD)
            full[k:] = np.abs(np.diff(w.astype(LD), n=k, axis=0))
            safe = np.ones(N, bool)
            for j in range(kw["m"], N):
                mean = full[j - kw["m"]:j].mean(axis=0)
                for al in kw["alpha"]:
                    gap = np.abs(full[j] - mean * LD(al))
                    safe[j] &= bool(np.all(gap > 1e-12 * N * top * al))
            core.compare("LE(%s) of weights as %s" % (kw, lw), b[safe], a[safe], 1e-12)
            ctx.count("ties_left_out", int(np.sum(~safe)))
        else:
            win = 1e-300 + np.array([np.std(np.vstack((w[:k], dw))[max(0, j - kw["m"]):j], axis=0) if j >= kw["m"] else np.ones(n) for j in range(N)])
            well = win > 1e-6 * top
            core.compare("LE(%s) of weights as %s" % (kw, lw), np.where(well, b, 0), np.where(well, a, 0),
                         1e-13 * N * np.where(well, top / win, 1) * (1 + np.abs(a)))
    ctx.decisive(N)
    ctx.count("detectors")


def decomposition(ctx):
    pp = core.load().preprocess
    t = pick(ctx)
    if t == "longdouble":
        # no linear algebra of NumPy takes it
        t = ctx.choice(FLOATS[:3])
    f = ctx.irange(2, 6)
    N = ctx.irange(f + 4, 60)
    x = values(ctx, (N, f), t)
    X, lx = array_of(ctx, x, t)
    ctx.note(what="decomposition", x=lx, shape=x.shape)
    ctx.digest(x)
    ctx.kinds["decomposition"] += 1
    top = float(np.max(np.abs(x)))
    z = x - x.mean(axis=0)
    if not top > 0:
        return
    n = ctx.irange(1, f - 1)
    s = np.linalg.svd(z, compute_uv=False)
    noise = 1e-12 * top ** 2 * N
    a, b = [core.as_float("PCA_components", ctx.call(pp.PCA_components, v), (f,)) for v in (x, X)]
    core.compare("PCA_components of data as %s" % lx, b, a, noise)
    a, b = [core.as_float("PCA", ctx.call(pp.PCA, v, n), (N, n)) for v in (x, X)]
    l = np.sort(np.append(s ** 2 / (N - 1), np.zeros(f - len(s))))[::-1]
    for j in range(n):
        gap = min([abs(l[j] - l[i]) for i in range(f) if i != j])
        if gap > 1e-3 * l[0]:
            # up to the sign, which may depend on rounding
            core.compare("PCA of data as %s, direction %d" % (lx, j), b[:, j] * np.sign(np.dot(a[:, j], b[:, j])), a[:, j],
                         1e-8 * top * f)
            ctx.decisive()
    C = ctx.irange(2, 4)
    y = np.append(np.arange(C), ctx.rng.integers(0, C, N - C))
    W = sum((np.cov(x[y == c].T, bias=True) if np.sum(y == c) > 1 else np.zeros((f, f))) * np.sum(y == c) for c in range(C))
    cond = np.linalg.cond(W) if np.all(np.isfinite(W)) else np.inf
    if cond < 1e6:
        a, b = [core.as_float("LDA_discriminants", ctx.call(pp.LDA_discriminants, v, y), (f,)) for v in (x, X)]
        offset = top / max(float(np.sqrt(np.trace(W) / N)), 1e-300)
        core.compare("LDA_discriminants of data as %s" % lx, b, a, 1e-12 * cond * (a[0] + 1) * offset ** 2 * N)
        a, b = [core.as_float("LDA", ctx.call(pp.LDA, v, y), (N, f - 1)) for v in (x, X)]
        need(np.all(np.isfinite(b)), "LDA of data as %s is not finite", lx)
        ctx.count("lda")
        ctx.decisive()
    ctx.decisive()
    ctx.count("decomposition")


def network(ctx):
    from padasip.ann.mlp import NetworkMLP
    n, outs, N = ctx.irange(1, 5), ctx.choice([1, 1, 2, 3]), filt.length(ctx, 1, 40)
    tx, td = pick(ctx), pick(ctx)
    x, d = values(ctx, (N, n), tx), values(ctx, (N,) if outs == 1 else (N, outs), td)
    if max(np.max(np.abs(x)), np.max(np.abs(d))) > 1e3:
        tx = td = ctx.choice(["int8", "uint8", "bool", "float16", ">f2"])
        x, d = values(ctx, x.shape, tx), values(ctx, d.shape, td)
    X, lx = array_of(ctx, x, tx, lists=True)
    D, ld = array_of(ctx, d, td)
    layers = [ctx.irange(1, 6) for _ in range(ctx.irange(1, 3))]
    how = dict(activation=ctx.choice(["sigmoid", "tanh"]), mu=ctx.choice(["auto", .1, .01]))
    ctx.note(what="network", x=lx, d=ld, shape=x.shape, layers=layers, outs=outs, **how)
    ctx.digest(x, d)
    ctx.kinds["network"] += 1
    seed = ctx.irange(0, 2**31)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(seed)
        f = NetworkMLP(layers, n, outs, **how)
        np.random.seed(seed)
        g = NetworkMLP(layers, n, outs, **how)
    what = "network of data as %s, targets as %s: " % (lx, ld)
    ys = (N,) if outs == 1 else (N, outs)
    big = 1 + np.max(np.abs(x)) + np.max(np.abs(d))
    for name, args in ctx.choice([[("test", 2), ("run", 1), ("train", 2)], [("train", 2), ("test", 2)], [("run", 1), ("train", 2), ("run", 1)]]):
        a = ctx.call(getattr(f, name), *(x, d)[:args], **(dict(epochs=1) if name == "train" else {}))
        b = ctx.call(getattr(g, name), *(X, D)[:args], **(dict(epochs=1) if name == "train" else {}))
        if name == "train":
            a, b = a[0], b[0]
        a, b = core.as_float(name, a, ys), core.as_float(name, b, ys)
        if not np.all(np.abs(a) < 1e3 * big):
            # diverging learning doubles any rounding
            return
        core.compare(what + name, b, a, 1e-7 * big)
        ctx.decisive(N)
    ctx.count("network")


def case(ctx):
    u = ctx.rng.random()
    (filters if u < .5 else measures if u < .62 else preprocess if u < .75 else detectors if u < .84
     else decomposition if u < .92 else network)(ctx)
