"""C17: related filters reduce to each other"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need

FILES = ["filters/"]
RULE = ("Two different filters of the real code on the same data, one of them in the parameter limit where the update laws "
        "coincide; trajectories are compared. Limits use neglected terms below 1e-10.")
NEED = dict(decisive=1000, exact_limit=100, dominant_eps=60, error_limit=60, sign_inputs=60, first_step=40)


def go(ctx, f, d, x, adapt):
    N, n = x.shape
    if not adapt:
        _, _, V0, V1 = filt.trace_run(ctx, f, d, x)
        return V0, V1
    V0, V1 = np.zeros((N, n)), np.zeros((N, n))
    for k in range(N):
        V0[k] = filt.weights(f)
        ctx.call(f.adapt, d[k], x[k])
        V1[k] = filt.weights(f)
    return V0, V1


def pair(ctx, c, what, ka, pa, kb, pb, x, d, size=1e-14):
    """filter ka(pa) has to do the same as kb(pb)"""
    ctx.note(relation=what, a=ka, b=kb, pa={k: float(v) for k, v in pa.items()}, pb={k: float(v) for k, v in pb.items()})
    ctx.kinds[what] += 1
    f, g = filt.new(ctx, ka, c.n, pa, c.w.copy()), filt.new(ctx, kb, c.n, pb, c.w.copy())
    A, B = go(ctx, f, d, x, ctx.flip(.4)), go(ctx, g, d, x, ctx.flip(.4))
    stop = len(x)
    m = np.abs(A[1]).max(axis=1, initial=0)
    if not np.all(m < 1e100):
        stop = int(np.argmax(~(m < 1e100)))
    if not stop:
        return

    def twin():
        h = filt.new(ctx, ka, c.n, pa, c.w.copy())
        return tuple(v[:stop] for v in go(ctx, h, filt.jitter(ctx, d, size), filt.jitter(ctx, x, size), False))

    def about():
        return min(filt.undecided(k, p, A[0][:stop], x[:stop], d[:stop]) for k, p in ((ka, pa), (kb, pb)))
    stop = filt.same_traj(ctx, "%s: %s %s against %s %s" % (what, ka, pa, kb, pb), tuple(v[:stop] for v in A),
                          tuple(v[:stop] for v in B), [twin] * 3, about=about)
    if stop:
        ctx.decisive(stop)


def exact(ctx):
    rel = ctx.choice(["GNGD", "GNGD", "VSLMS", "VSLMS", "VSLMS", "AP", "AP", "Ang"])
    c = filt.scenario(ctx, [{"GNGD": "NLMS", "VSLMS": "LMS", "AP": "NLMS", "Ang": "VSLMS_Mathews"}[rel]], hi=120, wild=.15, units=False)
    mu = c.p["mu"]
    if rel == "GNGD":
        pair(ctx, c, "GNGD ro=0 is NLMS", "GNGD", dict(mu=mu, eps=c.p["eps"], ro=0.), "NLMS", c.p, c.x, c.d)
    elif rel == "VSLMS":
        k = ctx.choice(["VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"])
        p = dict(mu=mu, ro=0.)
        if k == "VSLMS_Ang":
            p["a"] = float(ctx.rng.uniform(0, 1))
        pair(ctx, c, "%s ro=0 is LMS" % k, k, p, "LMS", c.p, c.x, c.d)
    elif rel == "AP":
        p2 = float(np.max(np.sum(c.x ** 2, axis=1)))
        e = max(c.p["eps"], 1e-9 * p2)
        pair(ctx, c, "AP order 1 is NLMS", "AP", dict(mu=mu, order=1, ifc=e), "NLMS", dict(mu=mu, eps=e), c.x, c.d)
    else:
        # without memory of the gradient and for a constant input both use |x|^2
        x = np.tile(c.x[:1], (c.N, 1))
        d = np.clip(c.d, -10, 10)
        p2 = float(np.sum(x[0] ** 2)) or 1.
        p = dict(mu=ctx.rng.uniform(.05, .5) / p2, ro=ctx.logu(1e-6, 1e-3) / p2 ** 2)
        pair(ctx, c, "VSLMS_Ang a=0 is VSLMS_Mathews", "VSLMS_Ang", dict(p, a=0.), "VSLMS_Mathews", p, x, d)
    ctx.count("exact_limit")


def dominant(ctx):
    ka, kb = ctx.choice([("NLMS", "LMS"), ("NLMF", "LMF"), ("NSSLMS", "SSLMS")])
    c = filt.scenario(ctx, [kb], hi=100, wild=.1, units=False)
    E = (float(np.max(np.sum(c.x ** 2, axis=1))) or 1.) * 10. ** ctx.rng.uniform(12, 15)
    mu = c.p["mu"]
    pair(ctx, c, "%s with dominant eps is %s" % (ka, kb), ka, dict(mu=mu * E, eps=E), kb, dict(mu=mu), c.x, c.d, 1e-11)
    ctx.count("dominant_eps")


def error_limit(ctx):
    rel = ctx.choice(["Llncosh", "GMCC2", "GMCC4"])
    kb = "LMF" if rel == "GMCC4" else "LMS"
    c = filt.scenario(ctx, [kb], hi=100, wild=.1, units=False)
    mu = c.p["mu"]
    f = filt.new(ctx, kb, c.n, dict(mu=mu), c.w.copy())
    y, e, W = filt.unpack(ctx.call(f.run, c.d, c.x), c.N, c.n)
    top = float(np.max(np.abs(e)))
    if not 1e-30 < top < 1e20:
        return
    if rel == "Llncosh":
        la = 10. ** ctx.rng.uniform(-8, -6) / top
        pair(ctx, c, "Llncosh with small lambd is LMS", "Llncosh", dict(mu=mu / la, lambd=la), "LMS", dict(mu=mu), c.x, c.d, 1e-11)
    else:
        al = ctx.choice([2, 2.]) if rel == "GMCC2" else ctx.choice([4, 4.])
        la = 10. ** ctx.rng.uniform(-14, -12) / top ** al
        pair(ctx, c, "GMCC alpha=%d with small lambd is %s" % (al, kb), "GMCC",
             dict(mu=mu / (la * al), lambd=la, alpha=al), kb, dict(mu=mu), c.x, c.d, 1e-11)
    ctx.count("error_limit")


def signs(ctx):
    """inputs of +1 and -1 have constant power and equal their signs"""
    rel = ctx.choice(["Llncosh", "GMCC1", "NSSLMS", "NLMS", "NLMF"])
    kb = {"NLMS": "LMS", "NLMF": "LMF"}.get(rel, "SSLMS")
    c = filt.scenario(ctx, [kb], hi=100, wild=.1, xstyle="signs", units=False)
    mu, n = c.p["mu"], c.n
    d = c.d
    if rel in ("NLMS", "NLMF", "NSSLMS"):
        eps = ctx.logu(1e-3, 10)
        pair(ctx, c, "%s of binary input is %s" % (rel, kb), rel, dict(mu=mu * (eps + n), eps=eps), kb, dict(mu=mu), c.x, d)
    elif rel == "Llncosh":
        # sensitive: errors are never in the linear part for targets off the grid
        pair(ctx, c, "Llncosh with big lambd of binary input is SSLMS", "Llncosh", dict(mu=mu, lambd=1e12), "SSLMS",
             dict(mu=mu), c.x, d + .1234567890123 + ctx.rng.normal(0, .1, c.N))
    else:
        la = 1e-15
        pair(ctx, c, "GMCC alpha=1 with small lambd of binary input is SSLMS", "GMCC", dict(mu=mu / la, lambd=la / (1 + np.max(np.abs(d))), alpha=1),
             "SSLMS", dict(mu=mu / (1 + np.max(np.abs(d)))), c.x, d, 1e-12)
    ctx.count("sign_inputs")


def first_step(ctx):
    ka = ctx.choice(["RLS", "AP"])
    c = filt.scenario(ctx, ["NLMS"], hi=3, wild=.1, units=False)
    x, d = c.x[:1], c.d[:1]
    p2 = float(np.sum(x ** 2)) or 1.
    if ka == "RLS":
        mu, eps = float(ctx.rng.uniform(.5, 1)), p2 * ctx.logu(1e-3, 10)
        pa, pb = dict(mu=mu, eps=eps), dict(mu=1., eps=mu * eps)
    else:
        mu, ifc = float(ctx.rng.uniform(0, 2)), p2 * ctx.logu(1e-3, 10)
        pa, pb = dict(mu=mu, order=ctx.irange(1, 12), ifc=ifc), dict(mu=mu, eps=ifc)
    pair(ctx, c, "first step of %s is a step of NLMS" % ka, ka, pa, "NLMS", pb, x, d)
    ctx.count("first_step")


def case(ctx):
    ctx.choice([exact, exact, dominant, error_limit, signs, first_step])(ctx)
