"""C11: construction routes"""
import inspect

import numpy as np

from .. import core, filt
from ..core import Violation, need

FILES = ["filters/__init__.py", "filters/"]
RULE = ("Filters created by class, AdaptiveFilter, get_filter and filter_data with random letter case, positional and "
        "keyword parameters and random subsets of given parameters; all routes have to give the same class and the same "
        "results on probing data as a filter with every documented parameter written out.")
NEED = dict(decisive=1000, routes=500, rejections=100, defaults_left=200)


def spell(ctx, kind):
    u = ctx.irange(0, 3)
    if u == 0:
        return kind
    if u == 1:
        return kind.upper()
    if u == 2:
        return kind.lower()
    return "".join(ch.upper() if ctx.flip() else ch.lower() for ch in kind)


def prelude(ctx):
    pa = core.load()
    for kind in filt.KINDS:
        cl = filt.cls(kind)
        for name in (kind, kind.upper(), kind.lower(), kind.title()):
            need(ctx.call(pa.filters.get_filter, name) is cl, "get_filter(%s) is not %s", name, cl)
            f = ctx.call(pa.filters.AdaptiveFilter, model=name, n=3)
            need(type(f) is cl, "AdaptiveFilter(%s) made %s", name, type(f))
            f = ctx.call(pa.filters.AdaptiveFilter, name, n=2)
            need(type(f) is cl, "AdaptiveFilter(%s) made %s", name, type(f))
            ctx.decisive(3)
    np.random.seed(1)
    f = ctx.call(pa.filters.AdaptiveFilter, n=2)
    need(type(f) is pa.filters.FilterLMS, "the default model is not LMS")
    ctx.decisive()


def case(ctx):
    pa = core.load()
    c = filt.scenario(ctx, lo=1, hi=60, wild=.2, nhi=8, units=False)
    kind, n, N = c.kind, c.n, c.N
    if kind == "AP":
        # the data are scaled below
        c.p["ifc"] = max(c.p.get("ifc", .001), 1e-9)
    full = dict(filt.DEFAULTS[kind], **c.p)
    keys = list(filt.DEFAULTS[kind])
    given = {k: full[k] for k in keys if ctx.flip(.5)}
    if ctx.flip(.15):
        given = {}
    want = dict(filt.DEFAULTS[kind], **given)
    ctx.note(given=sorted(given))
    ctx.count("defaults_left", len(keys) - len(given))
    name = spell(ctx, kind)
    # scale down so that defaults do not explode immediately
    x = c.x / (np.abs(c.x).max() or 1.)
    d = c.d / (np.abs(c.d).max() or 1.)
    base = ctx.call(filt.cls(kind), n=n, w=c.w.copy(), **want)
    y, e, W, W1 = filt.trace_run(ctx, base, d, x)

    def twin():
        h = ctx.call(filt.cls(kind), n=n, w=c.w.copy(), **want)
        return filt.trace_run(ctx, h, filt.jitter(ctx, d), filt.jitter(ctx, x))
    warg = c.warg
    for route in ("class", "class_pos", "factory", "factory_model", "get_filter", "filter_data"):
        kw = dict(given, w=warg)
        keep = dict(kw)
        if route == "class":
            f = ctx.call(filt.cls(kind), n, **kw)
        elif route == "class_pos":
            if "mu" in given:
                kw.pop("mu")
                f = ctx.call(filt.cls(kind), n, given["mu"], **kw)
            else:
                f = ctx.call(filt.cls(kind), n=n, **kw)
        elif route == "factory":
            f = ctx.call(pa.filters.AdaptiveFilter, name, n=n, **kw)
        elif route == "factory_model":
            kw2 = dict(kw, n=n, model=name)
            keep2 = dict(kw2)
            f = ctx.call(pa.filters.AdaptiveFilter, **kw2)
            need(sorted(kw2) == sorted(keep2), "AdaptiveFilter changed the dictionary")
        elif route == "get_filter":
            f = ctx.call(ctx.call(pa.filters.get_filter, name), n, **kw)
        else:
            if ctx.flip(.4):
                kw["n"] = ctx.irange(1, 20)
                keep = dict(kw)
            r = ctx.call(pa.filters.filter_data, d, x, model=name, **kw)
            f = None
        need(sorted(kw) == sorted(keep) or route == "class_pos", "%s changed the keyword dictionary", route)
        if f is not None:
            need(type(f) is filt.cls(kind), "%s(%s) made %s", route, name, type(f).__name__)
            core.compare("%s(%s): initial weights" % (route, name), filt.weights(f), c.w, 0)
            r = ctx.call(f.run, d, x)
            last = filt.weights(f)
        r = filt.unpack(r, N, n, route)
        last = last if f is not None else W1[-1]
        obs = r + (np.vstack((r[2][1:], last[None])),)
        filt.same_traj(ctx, "%s by %s with %s" % (kind, route, given), (y, e, W, W1), obs, [twin] * 2,
                       about=lambda: filt.undecided(kind, want, W, x, d))
        ctx.count("routes")
        ctx.decisive()
    # refusals
    if ctx.flip(.5):
        bad = ctx.choice(["", "lmss", "nosuch", kind + "x", "x" + kind, kind[:-1] + "~", " " + kind, kind + " ",
                          "filter" + kind, "Filter" + kind, kind.replace("_", "-") + "-"])
        ctx.rejects("AdaptiveFilter(model=%r)" % bad, ValueError, pa.filters.AdaptiveFilter, model=bad, n=n)
        ctx.rejects("get_filter(%r)" % bad, ValueError, pa.filters.get_filter, bad)
        ctx.rejects("filter_data(model=%r)" % bad, ValueError, pa.filters.filter_data, d, x, model=bad)
        w = ctx.choice([None, "", "zero", np.zeros(n + 1), [0.] * (n + 2), 1.])
        for what, call in (("class", lambda **k: filt.cls(kind)(n, **k)), ("AdaptiveFilter", lambda **k: pa.filters.AdaptiveFilter(model=name, n=n, **k)),
                           ("get_filter", lambda **k: pa.filters.get_filter(name)(n=n, **k)), ("filter_data", lambda **k: pa.filters.filter_data(d, x, model=name, **k))):
            ctx.rejects("%s(w=%s)" % (what, core.short(w)), ValueError, call, w=w)
        ctx.rejects("AdaptiveFilter without n", ValueError, pa.filters.AdaptiveFilter, model=name, **given)
        ctx.decisive()
    if ctx.flip(.1):
        # defaults of filter_data
        np.random.seed(ctx.idx)
        a = filt.unpack(ctx.call(pa.filters.filter_data, d, x), N, n)
        np.random.seed(ctx.idx)
        b = filt.unpack(ctx.call(ctx.call(filt.cls("LMS"), n, mu=.01, w="random").run, d, x), N, n)
        for p, q in zip(a, b):
            core.compare("filter_data with defaults", p, q, 1e-12 * (1 + np.abs(q)))
        ctx.decisive()
