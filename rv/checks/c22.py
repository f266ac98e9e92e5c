"""C22: standardization"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need

FILES = ["preprocess/standardize.py", "preprocess/standardize_back.py"]
RULE = ("Series and matrices of all magnitudes, offsets and scales given or not (zero, negative and integer ones included); "
        "reference in long double, moments of the result and round trip through both functions.")
NEED = dict(decisive=1000, rejections=200, zero_offset=20, estimated=50, round_trips=100)


def case(ctx):
    pp = ctx.choice([core.load(), core.load().preprocess])
    r = ctx.rng
    N = filt.length(ctx, 1, 400, .02)
    shape = ctx.choice([(N,), (N,), (N, ctx.irange(1, 5)), (ctx.irange(1, 4), N)])
    sc0 = 10. ** r.uniform(-3, 3) if ctx.flip(.8) else 10. ** r.uniform(-100, 100)
    x = r.normal(0, 1, shape)
    u = ctx.irange(0, 6)
    if u == 0:
        x = np.round(x * 3)
    elif u == 1:
        x = x + 10. ** r.uniform(0, 4)
    elif u == 2:
        x = r.standard_t(1.5, shape)
    elif u == 3:
        x = r.uniform(0, 1, shape)
    elif u == 4:
        x = x * 10. ** r.uniform(-2, 2, shape[-1:])
    x = x * sc0
    arg, x, lx = forms.recast(ctx, x, arrays=False, share=.5)
    xl = x.astype(LD)
    mean, std = xl.mean(), np.sqrt(((xl - xl.mean()) ** 2).mean())
    kw, off, sc = {}, mean, std
    if ctx.flip(.55):
        v = ctx.choice([0, 0., 1, -1., 5, float(r.normal(0, 1) * sc0), ctx.dict_float(1e-6, 1e6) or 2.])
        kw["offset"], off = v, LD(v)
        if v == 0:
            ctx.count("zero_offset")
    elif ctx.flip(.2):
        kw["offset"] = None
    if ctx.flip(.55):
        v = ctx.choice([1, 1., 2, -3., 10, float(sc0 * ctx.logu(1e-2, 1e2)), -float(sc0 * ctx.logu(1e-2, 1e2)),
                        ctx.dict_float(1e-6, 1e6) or .5])
        kw["scale"], sc = v, LD(v)
    elif ctx.flip(.2):
        kw["scale"] = None
    top = float(np.max(np.abs(x)))
    ctx.note(shape=shape, kw=kw, x=lx)
    ctx.digest(x)
    if abs(sc) == 0 or ("scale" not in kw or kw["scale"] is None) and not std > 1e-5 * top:
        return
    if ctx.flip(.2) and ("offset" in kw) == ("scale" in kw) and kw:
        got = ctx.call(pp.standardize, arg, kw["offset"], kw["scale"])
    else:
        got = ctx.call(pp.standardize, arg, **kw)
    got = core.as_float("standardize", got, shape)
    ref = (xl - off) / sc
    est = kw.get("offset") is None or kw.get("scale") is None
    # estimated moments carry the rounding of their sums
    tol = (4 * EPS * (np.abs(xl) + abs(off)) + (1e-13 * top if est else 0)) / abs(sc) + \
        (1e-9 if est else 8 * EPS) * np.abs(ref) + 1e-300
    core.compare("standardize(%s) of %s" % (kw, lx), got, ref, tol)
    if kw.get("offset") is None and kw.get("scale") is None:
        z = got.astype(LD)
        cond = top / float(std)
        need(abs(z.mean()) < 1e-11 * (1 + cond), "standardize: mean of result is %.3g", z.mean())
        need(abs(np.sqrt((z * z).mean()) - 1) < 1e-11 * (1 + cond * cond), "standardize: deviation of result is %.17g", z.std())
        ctx.count("estimated")
    o, s = (kw["offset"] if kw.get("offset") is not None else float(mean)), (kw["scale"] if kw.get("scale") is not None else float(std))
    z = got.tolist() if ctx.flip(.15) else got
    back = core.as_float("standardize_back", ctx.call(pp.standardize_back, z, o, s) if ctx.flip() else
                         ctx.call(pp.standardize_back, z, offset=o, scale=s), shape)
    direct = got.astype(LD) * LD(s) + LD(o)
    core.compare("standardize_back(%s, %s)" % (o, s), back, direct, 4 * EPS * (np.abs(direct) + abs(o)) + 1e-300)
    core.compare("round trip of standardize(%s)" % kw, back, xl,
                 (1e-11 if est else 40 * EPS) * (np.abs(xl) + abs(o) + (top if est else 0)) + 1e-300)
    ctx.count("round_trips")
    ctx.decisive(2 * x.size)
    if ctx.flip(.2):
        # the inverse for any offset and scale
        o2, s2 = [float(ctx.choice([-1., 1.]) * 10. ** r.uniform(-290, 290)) for _ in range(2)]
        if ctx.flip(.3):
            o2 = 0.
        z2 = r.normal(0, 1, 7)
        z2[r.random(7) < .3] = 0
        Z2, z2, lz = forms.recast(ctx, z2, arrays=False, share=.6)
        ref2 = z2.astype(LD) * LD(s2) + LD(o2)
        if np.all(np.abs(ref2) < 1e300):
            core.compare("standardize_back(%s, %s) of %s" % (o2, s2, lz), core.as_float("standardize_back", ctx.call(pp.standardize_back, Z2, o2, s2), (7,)),
                         ref2, 4 * EPS * (np.abs(z2 * s2) + abs(o2)) + 1e-300)
    # other direction
    again = core.as_float("standardize", ctx.call(pp.standardize, back, offset=o, scale=s), shape)
    core.compare("standardize after standardize_back", again, got, (40 * EPS * (np.abs(xl) + abs(o) + top) / abs(float(sc))) + 1e-9 * np.abs(ref) * est + 40 * EPS * np.abs(ref))
    if ctx.flip(.2):
        bad = ctx.choice(["a", "", [1., 2.], (3, 4), {}, [], "1,5"])
        ctx.rejects("standardize(offset=%r)" % (bad,), ValueError, pp.standardize, x, offset=bad)
        ctx.rejects("standardize(scale=%r)" % (bad,), ValueError, pp.standardize, x, scale=bad)
        ctx.rejects("standardize(scale=%r) with offset" % (bad,), ValueError, pp.standardize, x, 1., bad)
        ctx.rejects("standardize_back(offset=%r)" % (bad,), ValueError, pp.standardize_back, x, bad, 2.)
        ctx.rejects("standardize_back(scale=%r)" % (bad,), ValueError, pp.standardize_back, x, 1., bad)
        text = ctx.choice([["a", "b"], "abc", [[1., 2.], [3.]], [1., "x"]])
        ctx.rejects("standardize(%r)" % (text,), ValueError, pp.standardize, text)
        ctx.rejects("standardize(%r) with offset and scale" % (text,), ValueError, pp.standardize, text, 1., 2.)
        ctx.rejects("standardize_back(%r)" % (text,), ValueError, pp.standardize_back, text, 1., 2.)
