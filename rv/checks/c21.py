"""C21: error measures"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need

FILES = ["misc/"]
RULE = ("Series of all lengths, magnitudes and types, one- and two-series calls, selection by name; values are compared with "
        "the definitions in long double, relations between measures are checked on the observed values.")
NEED = dict(decisive=1000, rejections=300, two_series=100, one_series=100)


def series(ctx, N, scale):
    r = ctx.rng
    u = ctx.irange(0, 8)
    if u == 0:
        v = r.integers(-9, 10, N).astype(float)
    elif u == 1:
        v = r.normal(0, 1, N) + 10. ** r.uniform(2, 8)
    elif u == 2:
        v = r.standard_t(1.2, N)
    elif u == 3:
        v = np.full(N, r.normal())
    elif u == 4:
        v = r.normal(0, 1, N) * (r.random(N) < .2)
    elif u == 5:
        v = np.round(r.normal(0, 1, N), 1)
    else:
        v = r.normal(0, 1, N)
    if ctx.flip(.1):
        v[ctx.irange(0, N - 1)] *= 10. ** r.uniform(3, 9)
    return v * scale


def reference(name, e):
    if name == "MSE":
        return np.mean(e * e)
    if name == "MAE":
        return np.mean(np.abs(e))
    if name == "RMSE":
        return np.sqrt(np.mean(e * e))
    return 10 * np.log10(e * e)


def case(ctx):
    pa = core.load()
    mod = pa.misc
    N = filt.length(ctx, 1, 400, .03)
    if ctx.flip(.01):
        N = ctx.irange(10**4, 10**5)
    elif ctx.flip(.1):
        N = 1
    scale = 10. ** ctx.rng.uniform(-3, 3) if ctx.flip(.8) else 10. ** ctx.rng.uniform(-140, 140)
    # squares of errors and their sums are finite
    a, b = [np.clip(series(ctx, N, scale), -1e148, 1e148) for _ in range(2)]
    u = ctx.irange(0, 9)
    if u == 0:
        b = a.copy()
    elif u == 1:
        b = a + ctx.rng.normal(0, 1e-9, N) * np.abs(a)
    elif u == 2:
        b = -a
    elif u == 3:
        b = np.zeros(N)
    if ctx.flip(.05):
        # as many values as there are, all of them -1
        b = np.full(N, -1.)
    nan = ctx.flip(.03)
    if nan:
        a[ctx.irange(0, N - 1)] = np.nan
    two = ctx.flip(.65)
    # other values in other types
    if nan:
        A, la, B, lb = a, "float64", b, "float64"
    else:
        (A, a, la), (B, b, lb) = [forms.recast(ctx, v, arrays=False, share=.6) for v in (a, b)]
    e64 = a - b if two else a
    e = a.astype(LD) - b.astype(LD) if two else a.astype(LD)
    # the difference of two doubles is rounded once
    de = EPS * np.abs(e)
    ctx.note(N=N, two=two, scale=float(scale), nan=nan, a=la, b=lb)
    ctx.digest(a, b)
    got = {}
    for nm in ("MSE", "MAE", "RMSE", "logSE"):
        fn = getattr(mod, nm)
        shape = (N,) if nm == "logSE" else ()
        if ctx.flip(.8):
            v = ctx.call(fn, A, B) if two else ctx.call(fn, A)
        else:
            v = ctx.call(fn, x2=B, x1=A) if two else ctx.call(fn, x1=A)
        v = core.as_float(nm, v, shape)
        if nm == "logSE":
            need(np.all(np.isneginf(v[e == 0])), "logSE of error 0 is %s", v[e == 0][:3])
        d = core.as_float(nm, ctx.call(fn, e64), shape)
        ref = reference(nm, e)
        tol = 1e-10 + 1e-12 * np.abs(ref) if nm == "logSE" else 1e-12 * np.abs(ref) + 1e-300
        tol = np.where(np.isfinite(np.asarray(tol, float)), tol, 0)
        core.compare("%s of %s" % (nm, "two series" if two else "one series"), v, ref, tol)
        core.compare("%s of the difference" % nm, d, ref, tol)
        got[nm] = v
        if two:
            s = core.as_float(nm, ctx.call(fn, B, A), shape)
            core.compare("%s with swapped series" % nm, s, v, tol)
            if nm != "logSE" and not nan:
                z = core.as_float(nm, ctx.call(fn, A, A), ())
                need(z == 0, "%s of equal series is %s", nm, z)
        if nm != "logSE":
            g = ctx.call(mod.get_mean_error, A, B, function=nm) if two else ctx.call(mod.get_mean_error, A, function=nm)
            core.identical("get_mean_error(function=%s)" % nm, core.as_float(nm, g, ()), v)
            if not nan:
                need(v >= 0, "%s is negative: %s", nm, v)
        ctx.decisive(np.size(v))
    g = ctx.call(mod.get_mean_error, A, B) if two else ctx.call(mod.get_mean_error, A)
    core.identical("get_mean_error with default function", core.as_float("MSE", g, ()), got["MSE"])
    if not nan:
        need(got["MAE"] <= got["RMSE"] * (1 + 1e-12) + 1e-300, "MAE %s over RMSE %s", got["MAE"], got["RMSE"])
        core.compare("RMSE against square root of MSE", got["RMSE"], np.sqrt(LD(got["MSE"])), 1e-12 * got["RMSE"] + 1e-300)
    ctx.count("two_series" if two else "one_series")
    if ctx.flip(.3):
        M = ctx.choice([N + 1, max(1, N - 1), 1, 2 * N, N + 7])
        if M != N:
            other = forms.recast(ctx, series(ctx, M, 1.), arrays=False)[0]
            fn = ctx.choice(["MSE", "MAE", "RMSE", "logSE"])
            ctx.rejects("%s of %d and %d samples" % (fn, N, M), ValueError, getattr(mod, fn), A, other)
            ctx.rejects("%s of %d and %d samples" % (fn, M, N), ValueError, getattr(mod, fn), other, A)
            ctx.rejects("get_mean_error of %d and %d samples" % (N, M), ValueError, mod.get_mean_error, A, other)
        bad = ctx.choice(["", "mse", "logSE", "MSEE", "RMS", "MEA", "Mae", " MSE", "unknown", "SE"])
        ctx.rejects("get_mean_error(function=%r)" % bad, ValueError, mod.get_mean_error, A, B, function=bad)
