"""C18: ELBND"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need
from . import _hist

FILES = ["detection/elbnd.py"]
RULE = ("Histories of weights made at random and recorded from real filters, both functions, signs, zeros and magnitudes of "
        "errors; every value is compared with the definition in long double.")
NEED = dict(decisive=1000, rejections=100, sum=50, max=50)


def not_finite(ctx, pa, w, e, kw):
    """weights or errors which are not finite make values of their samples not finite and no others"""
    w, e = w.copy(), e.copy()
    for _ in range(ctx.irange(1, 3)):
        if ctx.flip(.7):
            w[ctx.irange(0, len(w) - 1), ctx.irange(0, w.shape[1] - 1)] = ctx.choice([np.nan, np.nan, np.inf, -np.inf])
        else:
            e[ctx.irange(0, len(e) - 1)] = ctx.choice([np.nan, np.inf, -np.inf])
    ctx.note(n=w.shape[1], N=len(w), fn=kw, w="not finite")
    got = core.as_float("ELBND", ctx.call(pa.detection.ELBND, w, e, **kw), (len(w),))
    with np.errstate(all="ignore"):
        prod = np.abs((w[1:] - w[:-1]) * e[:-1, None])
    bad = ~np.isfinite(prod).all(axis=1)
    need(not np.isfinite(got[:-1][bad]).any(), "ELBND(%s) is finite at samples %s, where an increment or error is not", kw, np.flatnonzero(bad & np.isfinite(got[:-1])))
    ref = np.where(bad, 0, prod.sum(axis=1) if kw.get("function") == "sum" else prod.max(axis=1, initial=0))
    core.compare("ELBND(%s) of samples without values which are not finite" % kw, np.where(bad, 0, got[:-1]), ref, 1e-9 * ref + 1e-300)
    ctx.decisive(len(w))
    ctx.count("not_finite")


def case(ctx):
    pa = core.load()
    n, N = ctx.choice([1, 1, 2, 3, filt.size(ctx, 30)]), filt.length(ctx, 1, 300, .02)
    w, e = _hist.history(ctx, N, n)
    if ctx.flip(.2):
        e = e * (ctx.rng.random(N) < .5)
    if ctx.flip(.06):
        w = np.round(w * ctx.choice([1., 3.]))
    if ctx.flip(.1):
        e = np.round(e * 3)
    fn = ctx.choice(["max", "sum", None])
    kw = {} if fn is None else dict(function=fn)
    if ctx.flip(.1):
        e = e * 10. ** ctx.rng.uniform(0, 12)
    if ctx.flip(.05):
        return not_finite(ctx, pa, w, e, kw)
    W, w, lw = forms.recast(ctx, w)
    E, e, le = forms.recast(ctx, e, arrays=False)
    ctx.note(n=n, N=N, fn=fn, w=lw, e=le)
    ctx.digest(w, e)
    f = ctx.choice([pa.detection.ELBND, pa.detection.elbnd.ELBND if hasattr(pa.detection, "elbnd") else pa.detection.ELBND])
    got = core.as_float("ELBND", ctx.call(f, W, E, **kw) if ctx.flip(.7) else ctx.call(f, W, E, *kw.values()), (N,))
    wl = w.astype(LD)
    prod = np.zeros((N, n), LD)
    prod[:-1] = np.abs(np.diff(wl, axis=0) * e.astype(LD)[:-1, None])
    noise = np.zeros((N, n), LD)
    noise[:-1] = EPS * (np.abs(wl[1:]) + np.abs(wl[:-1])) * np.abs(e[:-1, None]) * 4 + 8 * EPS * prod[:-1]
    ref = prod.sum(axis=1) if fn == "sum" else prod.max(axis=1)
    core.compare("ELBND(function=%s) of weights as %s, errors as %s" % (fn, lw, le), got, ref, noise.sum(axis=1) + 4 * n * EPS * ref + 1e-290)
    still = (prod == 0).all(axis=1)
    need(not np.any(got[still] != 0), "ELBND(function=%s) is %s at samples without any increment or error", fn, got[still])
    ctx.decisive(N)
    ctx.count("sum" if fn == "sum" else "max")
    if ctx.flip(.2):
        bad = ctx.choice(["", "mean", "Max", "SUM", "maximum", " sum", "min", "maxx", "su", "m"])
        ctx.rejects("ELBND(function=%r)" % bad, ValueError, f, w, e, function=bad)
