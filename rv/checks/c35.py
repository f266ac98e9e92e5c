"""C35: the documented ways of composing the tools agree"""
import collections

import numpy as np

from .. import core, filt
from ..core import EPS, need

FILES = ["filters/", "preprocess/", "detection/", "misc/"]
RULE = ("Pipelines: prediction of a series in a real-time loop over a sliding buffer against batch filtering of its history matrix, "
        "filter of original against filter of standardized data, bias by input_from_history against an explicit column, "
        "error measures, ELBND and LE of results of whole and of segmented filtering; trajectories are compared.")
NEED = dict(decisive=2000, realtime=50, standardized=50, biased=30, detection=50, measured=50)

KINDS = [k for k in filt.KINDS if k not in ("OCNLMS",)]


def signal(ctx, L):
    r = ctx.rng
    u = ctx.irange(0, 4)
    t = np.arange(L)
    if u == 0:
        s = np.sin(t * r.uniform(.05, 1.5)) + .1 * r.normal(0, 1, L)
    elif u == 1:
        s = np.cumsum(r.normal(0, .2, L))
    elif u == 2:
        s = r.integers(-3, 4, L).astype(float)
    elif u == 3:
        s = r.normal(0, 1, L)
        for k in range(1, L):
            s[k] += .8 * s[k - 1]
    else:
        s = np.sign(np.sin(t * .3)) + r.normal(0, .05, L)
    return s


def case(ctx):
    pa = core.load()
    r = ctx.rng
    kind = ctx.choice(KINDS)
    n = ctx.choice([1, 2, 3, 5, ctx.irange(1, 10), ctx.irange(8, 16), ctx.irange(1, 16) if ctx.flip(.8) else ctx.irange(17, 50)])
    N = filt.length(ctx, 3, 120, .02)
    bias = ctx.flip(.35)
    m = n + bias
    h = ctx.irange(1, 3)                        # prediction horizon
    s = signal(ctx, N + n - 1 + h)
    if ctx.flip(.15):
        # other units
        s = s * ctx.logu(1e-8, 1e8) + ctx.choice([0, 0, 1e3, -1e4])
    X = core.as_float("history", ctx.call(pa.input_from_history, s[:-h], n, bias=bias), (N, m))
    if bias:
        core.identical("bias of input_from_history", X[:, n], np.ones(N))
    d = s[n - 1 + h:]
    p = filt.params(ctx, kind, X, d)
    w0 = r.normal(0, .5, m)
    ctx.note(kind=kind, n=n, N=N, bias=bias, h=h, p={k: float(v) for k, v in p.items()})
    ctx.digest(s, w0)
    ctx.kinds[kind] += 1
    make = lambda w=w0, p=p: filt.new(ctx, kind, m, p, w.copy())
    f = make()
    A = filt.trace_run(ctx, f, d, X)

    def twin():
        return filt.trace_run(ctx, make(), filt.jitter(ctx, d), filt.jitter(ctx, X))

    def same(what, B):
        k = filt.same_traj(ctx, "%s %s: %s" % (kind, p, what), A, B, [twin] * 2, about=lambda: filt.undecided(kind, p, A[2], X, d))
        ctx.decisive(k)
        return k
    # real-time loop: the newest value completes the window, its target comes later
    g = make()
    win = collections.deque(maxlen=n)
    y, e, W0, W1 = np.zeros(N), np.zeros(N), np.zeros((N, m)), np.zeros((N, m))
    reuse, buf = ctx.flip(), np.ones(m)
    wait = []
    k = 0
    for t, v in enumerate(s):
        # the target of the row predicted h samples ago has arrived
        if wait and wait[0][0] == t:
            _, row, yy = wait.pop(0)
            W0[k] = filt.weights(g)
            yy = float(core.as_float("predict", ctx.call(g.predict, row), ())) if h > 1 else yy
            y[k], e[k] = yy, v - yy
            ctx.call(g.adapt, v, row)
            W1[k] = filt.weights(g)
            k += 1
        win.append(v)
        if len(win) == n and t + h < len(s):
            if reuse and h == 1:
                buf[:n] = win
                row = buf
            else:
                row = np.array(list(win) + [1.] * bias)
            wait.append((t + h, row, float(core.as_float("predict", ctx.call(g.predict, row), ()))))
    need(k == N, "harness: %d of %d samples", k, N)
    # the adapted filter used for inference only, over one buffer which is refilled
    wl = filt.weights(g)
    if np.all(np.isfinite(wl)):
        buf = np.ones(m)
        rows = X[r.integers(0, N, min(N, 12))] if ctx.flip() else X[:12]
        ref = np.array([float(g.predict(row.copy())) for row in rows])
        got = np.zeros(len(rows))
        for i, row in enumerate(rows):
            buf[:] = row
            got[i] = float(core.as_float("predict", ctx.call(g.predict, buf), ()))
        core.identical("%s: prediction of rows in one refilled buffer against prediction of copies" % kind, got, ref)
        core.identical("%s: weights after inference" % kind, filt.weights(g), wl)
        ctx.count("inference", len(rows))
        ctx.decisive(len(rows))
    same("real-time loop with a sliding window against batch use of the history matrix", (y, e, W0, W1))
    ctx.count("realtime")
    # filter_data with the same model
    if ctx.flip(.3):
        B = filt.unpack(ctx.call(pa.filters.filter_data, d, X, model=ctx.choice([kind, kind.lower()]), w=w0.copy(), **p), N, m)
        core.identical("filter_data: initial weights", B[2][0], w0)
        stop = filt.same_traj(ctx, "%s: filter_data of history matrix" % kind, A[:3], B, [lambda: twin()[:3]] * 2,
                              about=lambda: filt.undecided(kind, p, A[2], X, d))
        ctx.decisive(stop)
    if bias and ctx.flip():
        Z = np.column_stack((core.as_float("history", ctx.call(pa.input_from_history, s[:-h], n), (N, n)), np.ones(N)))
        same("bias of input_from_history against explicit column of ones", filt.trace_run(ctx, make(), d, Z))
        ctx.count("biased")
    # data in other units by standardize with exact (power of two) scale, weights are the same
    if ctx.flip(.6) and kind in ("NLMS", "LMS", "AP", "RLS"):
        sc = 2. ** ctx.irange(-6, 6)
        q = dict(filt.DEFAULTS[kind], **p)
        c2 = sc * sc
        # data over sc: what is added to squares of inputs is rescaled
        if kind == "LMS":
            q["mu"] *= c2
        elif kind == "AP":
            q["ifc"] /= c2
        else:
            q["eps"] /= c2
        Xs = core.as_float("standardize", ctx.call(pa.standardize, X, offset=0, scale=sc), X.shape)
        ds = core.as_float("standardize", ctx.call(pa.standardize, d, offset=0, scale=sc), d.shape)
        ys, es, V0, V1 = filt.trace_run(ctx, make(p=q), ds, Xs)
        back = core.as_float("standardize_back", ctx.call(pa.standardize_back, ys, 0, sc), (N,))
        eb = core.as_float("standardize_back", ctx.call(pa.standardize_back, es, 0, sc), (N,))
        same("filtering of standardized data, output transformed back", (back, eb, V0, V1))
        ctx.count("standardized")
    y, e, W = A[0], A[1], A[2]
    if np.all(np.isfinite(e)) and np.max(np.abs(e)) < 1e30:
        for name in ("MSE", "MAE", "RMSE"):
            a = float(ctx.call(getattr(pa.misc, name), e))
            b = float(ctx.call(pa.misc.get_mean_error, d, y, function=name))
            core.compare("%s of filter errors, and of target with output" % name, a, b, 1e-12 * abs(b) + 1e-300)
        ctx.count("measured")
        ctx.decisive(3)
    if np.all(np.isfinite(W)) and np.max(np.abs(W)) < 1e30 and N > 4:
        # detection of segments of the history joined is that of the whole history
        i = ctx.irange(1, N - 2)
        fun = ctx.choice(["max", "sum"])
        whole = core.as_float("ELBND", ctx.call(pa.detection.ELBND, W, e, function=fun), (N,))
        # last weights of a segment are the first of the next one
        part = core.as_float("ELBND", ctx.call(pa.detection.ELBND, W[:i + 1], e[:i + 1], function=fun), (i + 1,))
        rest = core.as_float("ELBND", ctx.call(pa.detection.ELBND, W[i:], e[i:], function=fun), (N - i,))
        core.compare("ELBND of filter: segments with shared border", np.append(part[:i], rest), whole, 1e-12 * np.abs(whole))
        mm = ctx.irange(1, max(1, N // 3))
        le = core.as_float("LE", ctx.call(pa.detection.learning_entropy, W, m=mm, order=1, alpha=[4., 8.]), (N,))
        if N - i > mm + 1:
            le2 = core.as_float("LE", ctx.call(pa.detection.learning_entropy, W[i:], m=mm, order=1, alpha=[4., 8.]), (N - i,))
            core.compare("Learning Entropy of filter: later segment", le2[mm + 1:], le[i + mm + 1:], 1e-12 + near_ties(W, mm, i + mm + 1))
        ctx.count("detection")
        ctx.decisive(2)


def near_ties(W, m, start):
    """1 where rounding may decide a comparison of Learning Entropy"""
    dw = np.abs(np.diff(W, axis=0, prepend=W[:1]))
    out = []
    for k in range(start, len(W)):
        mean, top = dw[k - m:k].mean(axis=0), dw[k - m:k + 1].max(axis=0)
        out.append(float(any(np.any(np.abs(dw[k] - a * mean) <= 100 * (m + 2) * EPS * top * a) for a in (4., 8.))))
    return np.array(out)
