"""C20: ESE"""
import math

import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need
from . import _hist

FILES = ["detection/ese.py"]
RULE = ("Histories of weights (random and recorded), windows and all peak methods; number of peaks, threshold decision and "
        "tail probability of every increment are recomputed independently with the generalised Pareto of SciPy.")
QUICK_S = 14
NEED = dict(decisive=500, fits=150, silent_rows=200, pot_calls=100)
CASE_S = 120
METHODS = ["10%", "sqrt", "log10log10", "log10", "30%", "35%"]


def peaks(n, method):
    """allowed numbers of peaks; two values where rounding of the formula decides"""
    if method == "log10log10":
        # the formula is not defined up to 10 samples
        v = n ** (2 / 3.) / math.log10(math.log10(n)) if n > 10 else 1.
    else:
        v = {"10%": .1 * n, "30%": .3 * n, "35%": .35 * n, "sqrt": math.sqrt(n), "log10": math.log10(n)}[method]
    exact = {"10%": n // 10, "30%": 3 * n // 10, "sqrt": math.isqrt(n), "log10": len(str(n)) - 1}
    if method in exact:
        return {max(exact[method], 1)}
    return {min(n, max(int(math.floor(v + s)), 1)) for s in (-1e-9, 1e-9)} if abs(v - round(v)) < 1e-9 else \
        {min(n, max(int(math.floor(v)), 1))}


def tail(data, loc, v):
    """(low, high) of -log10 of the tail probability by the fit to data"""
    from scipy.stats import genpareto
    c, l, s = genpareto.fit(data, floc=loc)
    p = float(genpareto.sf(v, c, l, s))
    if not np.isfinite(p):
        return 0., 20.
    return -math.log10(p + 4e-16 + 1e-20), -math.log10(max(p - 4e-16, 0) + 1e-20)


def column(ctx, dw, window, ks, obs=None):
    """list over rows from `window` on of sets of (low, high, alternatives) for one weight"""
    out = []
    for i in range(window, len(dw)):
        win = -np.sort(-dw[i - window:i])
        opts = []
        for k in sorted(ks):
            top = win[:k]
            if dw[i] > top[-1]:
                opts.append((top, top[-1], dw[i]) + tail(top, top[-1], dw[i]))
                ctx.count("fits")
            else:
                opts.append((None, 0, 0, 0., 0.))
                ctx.count("silent_entries")
        out.append(opts)
    return out


def judge(ctx, w, window, method, obs):
    N, n = w.shape
    what = "ESE(window=%d, pot_method=%s)" % (window, method)
    need(np.all(np.isfinite(obs)), "%s: not finite", what)
    need(np.all(obs >= 0), "%s: negative value", what)
    core.compare("%s: first window" % what, obs[:window], np.zeros(window), 0)
    ks = peaks(window, method)
    dw = np.zeros((N, n))
    dw[1:] = np.abs(w[1:] - w[:-1])
    cols = [column(ctx, dw[:, j], window, ks) for j in range(n)]
    for i in range(window, N):
        good = False
        for o in range(len(ks)):
            cell = [c[i - window][o] for c in cols]
            lo, hi = sum(c[3] for c in cell), sum(c[4] for c in cell)
            t = 2e-3 * sum(c[0] is not None for c in cell) + 1e-3 * hi
            if lo - t <= obs[i] <= hi + t:
                good = True
                if hi == 0:
                    ctx.count("silent_rows")
                break
        if not good and any(c[i - window][0][0] is not None for c in cols):
            # the search of the fit is not exact, see how far it depends on rounding
            lo = hi = 0.
            for c in cols:
                data, loc, v, l, h = c[i - window][0]
                if data is not None:
                    for alt in (data[::-1], ctx.rng.permutation(data), data * (1 + 1e-12), ctx.rng.permutation(data) * (1 - 1e-12)):
                        a, b = tail(alt, alt.min(), v)
                        l, h = min(l, a), max(h, b)
                lo, hi = lo + l, hi + h
            t = 3 * (hi - lo) + 1e-2
            good = lo - t <= obs[i] <= hi + t
            ctx.count("refitted_rows")
        if not good:
            raise Violation("%s: row %d is %.10g, expected %.10g..%.10g (%s peaks)" % (
                what, i, obs[i], sum(c[i - window][0][3] for c in cols), sum(c[i - window][0][4] for c in cols), ks))
    ctx.decisive(N - window)


def case(ctx):
    pa = core.load()
    method = ctx.choice(METHODS)
    if ctx.flip(.4):
        try:
            from padasip.detection.ese import pot
        except ImportError:
            pot = None
        if pot is not None:
            for _ in range(10):
                size = ctx.choice([1, 2, 9, 10, 11, 12, 100, 1000, 10000, 10 ** ctx.irange(1, 4) - 1, 10 ** ctx.irange(1, 4) + 1, ctx.irange(2, 60) ** 2 - 1, ctx.irange(1, 50) ** 2, ctx.irange(1, 200) * 10, ctx.irange(1, 60), ctx.irange(1, 3000)])
                data = ctx.rng.normal(0, 1, size)
                if ctx.flip(.2):
                    data = np.round(data)
                keep = data.copy()
                got = np.asarray(ctx.call(pot, data, method))
                core.identical("pot: data", data, keep)
                need(len(got) in peaks(size, method), "pot(%d values, %s): %d peaks, expected %s", size, method, len(got), peaks(size, method))
                core.identical("pot: peaks in descending order", got, np.sort(data)[::-1][:len(got)])
                ctx.count("pot_calls")
                ctx.decisive()
    n = ctx.choice([1, 1, 2, 3]) if ctx.flip(.95) else ctx.irange(4, 16)
    u = ctx.rng.random()
    if u < .05:
        window, extra = ctx.irange(200, 400), ctx.irange(1, 15)
    elif u < .15:
        window, extra = ctx.choice([100, 1000, 1000, ctx.irange(3, 30) ** 2, 10 * ctx.irange(1, 60)]), ctx.irange(1, 4)
        n = 1
    else:
        window, extra = ctx.choice([ctx.irange(5, 60), ctx.irange(1, 60), 10, 11, 20, 100, 9, 99, 99, 101, ctx.irange(2, 11) ** 2 - 1]), ctx.irange(0, 25)
    kw = dict(pot_method=method, window=window)
    if method == "10%" and ctx.flip():
        kw.pop("pot_method")
    if u > .965:
        window, extra = 1000, ctx.irange(1, 4)
        kw.pop("window")
    N = window + extra
    w, _ = _hist.history(ctx, N, n)
    if ctx.flip(.3):
        w = w + ctx.rng.normal(0, 10, n)
    if ctx.flip(.4):
        # novelty: big increments after the window
        w[min(N - 1, window + ctx.irange(0, max(0, extra - 1))):] += ctx.rng.normal(0, 1, n) * ctx.logu(1, 1e4) * (
            np.abs(np.diff(w, axis=0)).max(initial=0) or 1.)
    if ctx.flip(.1):
        w = w * 10. ** ctx.rng.uniform(-9, 6)
    W, w, lw = forms.recast(ctx, w)
    ctx.note(method=method, n=n, window=window, N=N, w=lw)
    ctx.digest(w)
    obs = core.as_float("ESE", ctx.call(pa.detection.ESE, W, **kw) if len(kw) < 2 or ctx.flip(.7) else
                        ctx.call(pa.detection.ESE, W, window, method), (N,))
    judge(ctx, w, window, method, obs)


def prelude(ctx):
    """filter with many weights"""
    pa = core.load()
    for n, window, method in ((60, 15, "10%"), (40, 60, "30%"), (17, 40, "35%")):
        w = np.cumsum(ctx.rng.normal(0, 1, (window + 3, n)), axis=0)
        # every weight counts
        w[-2:] += 3. * np.arange(1, n + 1) * ctx.rng.choice([-1, 1], n)
        obs = core.as_float("ESE", ctx.call(pa.detection.ESE, w, window, method), (window + 3,))
        judge(ctx, w, window, method, obs)
