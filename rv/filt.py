"""
Filters: catalogue, generators of data and parameters, independent reference
models (written from the documented equations, generic in precision).
"""
import numpy as np

from . import core
from .core import EPS, LD, Violation, need

KINDS = ["AP", "GMCC", "GNGD", "Llncosh", "LMF", "LMS", "NLMF", "NLMS", "NSSLMS",
         "OCNLMS", "RLS", "SSLMS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]
CLASS = {k: "Filter" + k for k in KINDS}
SIGNED = ("SSLMS", "NSSLMS")
STATEFUL = ("AP", "GNGD", "RLS", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews", "OCNLMS")
# documented defaults
DEFAULTS = {
    "AP": dict(mu=0.01, order=5, ifc=0.001),
    "GMCC": dict(mu=0.01, lambd=0.03, alpha=2),
    "GNGD": dict(mu=1., eps=1., ro=0.1),
    "Llncosh": dict(mu=0.01, lambd=3),
    "LMF": dict(mu=0.01),
    "LMS": dict(mu=0.01),
    "NLMF": dict(mu=0.1, eps=0.001),
    "NLMS": dict(mu=0.1, eps=0.001),
    "NSSLMS": dict(mu=0.1, eps=0.001),
    "OCNLMS": dict(mu=0.1, eps=1., mem=100),
    "RLS": dict(mu=0.1, eps=0.001),
    "SSLMS": dict(mu=0.01),
    "VSLMS_Ang": dict(mu=1., ro=0.0002, a=0.95),
    "VSLMS_Benveniste": dict(mu=1., ro=0.1),
    "VSLMS_Mathews": dict(mu=1., ro=0.1),
}


def cls(kind):
    return getattr(core.load().filters, CLASS[kind])


# --------------------------------------------------------------------------
# data
# --------------------------------------------------------------------------
X_STYLES = ["gauss", "gauss", "uniform", "history", "ar", "sparse", "repeat", "onehot", "ints",
            "big", "small", "outlier", "offset", "collinear", "zerorows", "signs", "decay",
            "silence", "mixedscale", "dict", "const", "holdrows", "held", "padded", "binary", "huge", "ordered"]
D_STYLES = ["linear", "linear", "noisefree", "drift", "step", "noise", "zero", "const", "ints",
            "spikes", "dict", "negative", "silent"]


def length(ctx, lo=1, hi=400, long=0.0):
    """number of samples"""
    if long and ctx.rng.random() < .04:
        v = ctx.over(hi, 20000)
        if v is not None:
            return v
    if long and ctx.rng.random() < (.004 if ctx.thorough else .0008):
        return ctx.irange(1500, 12000 if ctx.thorough else 5000)
    u = ctx.rng.random()
    if u < long:
        return ctx.irange(hi, max(hi, 1600))
    if u < long + 0.2:
        v = ctx.dict_int(lo, max(hi, 1300) if ctx.flip(0.3) else hi)
        if v is not None:
            return v
    u = ctx.rng.random()
    if u < 0.15:
        return ctx.irange(lo, min(hi, lo + 4))
    if u < 0.6:
        return ctx.irange(lo, min(hi, 60))
    return ctx.irange(lo, hi)


def size(ctx, hi=24):
    """filter length"""
    if ctx.rng.random() < .1:
        v = ctx.over(hi, 300)
        if v is not None:
            return v
    if ctx.rng.random() < (.01 if ctx.thorough else .004):
        return ctx.irange(hi, 140)
    u = ctx.rng.random()
    if u < 0.1:
        return 1
    if u < 0.2:
        v = ctx.dict_int(1, max(hi, 70) if ctx.flip(0.25) else hi)
        if v is not None:
            return v
    if u < 0.7:
        return ctx.irange(1, min(hi, 6))
    return ctx.irange(1, hi)


def make_x(ctx, N, n, style=None):
    r = ctx.rng
    if style is None and ctx.new_floats and ctx.flip(.12):
        style = "dict"
    style = style or ctx.choice(X_STYLES)
    x = r.normal(0, 1, (N, n))
    if style == "uniform":
        x = r.uniform(-1, 1, (N, n))
    elif style == "history":
        s = np.cumsum(r.normal(0, .3, N + n)) if ctx.flip() else np.sin(
            np.arange(N + n) * r.uniform(.01, 2)) + r.normal(0, .05, N + n)
        s -= s.mean()
        x = np.array([s[i:i + n] for i in range(N)])
    elif style == "ar":
        a = r.uniform(-.95, .95)
        for k in range(1, N):
            x[k] = a * x[k - 1] + np.sqrt(1 - a * a) * x[k]
    elif style == "sparse":
        x *= r.random((N, n)) < .3
    elif style == "repeat":
        m = ctx.irange(1, max(1, min(4, N)))
        x = np.tile(x[:m], (N // m + 1, 1))[:N]
    elif style == "onehot":
        y = np.zeros((N, n))
        y[np.arange(N), r.integers(0, n, N)] = r.choice([-1., 1., 2.], N)
        x = y
    elif style == "ints":
        x = r.integers(-4, 5, (N, n)).astype(float)
    elif style == "big":
        x *= 10. ** r.uniform(1, 5)
    elif style == "small":
        x *= 10. ** r.uniform(-8, -1)
    elif style == "outlier":
        if N:
            x[r.integers(0, N, max(1, N // 20))] *= 10. ** r.uniform(1, 3)
    elif style == "offset":
        x += r.normal(0, 1, n) * 10. ** r.uniform(0, 2)
    elif style == "collinear":
        x = np.outer(r.normal(0, 1, N), r.normal(0, 1, n))
    elif style == "zerorows":
        x[r.random(N) < .4] = 0
    elif style == "signs":
        x = r.choice([-1., 1.], (N, n))
    elif style == "decay":
        x *= np.exp(-np.arange(N) / max(1., N / 8.))[:, None]
    elif style == "silence":
        a = ctx.irange(0, max(0, N - 1))
        x[a:a + ctx.irange(1, max(1, N // 2))] = 0
    elif style == "mixedscale":
        x *= 10. ** r.uniform(-3, 2, n)
    elif style == "dict":
        c = ctx.dict_float(1e-6, 1e6) or 1.
        x *= c / max(1e-9, float(np.median(np.abs(x)))) if x.size else 1.
        if ctx.flip(.3) and x.size:
            x[r.random((N, n)) < .1] = c
    elif style == "const":
        x = np.tile(r.normal(0, 1, n), (N, 1))
    elif style == "held":
        # unit vectors kept for a few samples, simple filters learn them exactly
        y = np.zeros((N, n))
        y[np.arange(N), r.integers(0, n, N)] = r.choice([-1., 1.], N)
        for k in range(1, N):
            if r.random() < .7:
                y[k] = y[k - 1]
        x = y
    elif style == "padded":
        # features which are not connected
        off = r.random(n) < ctx.choice([.2, .5])
        off[ctx.choice([0, -1])] = True
        x[:, off] = 0
    elif style == "binary":
        x = (r.random((N, n)) < ctx.choice([.2, .5, .8])).astype(float)
    elif style == "huge":
        x *= 10. ** r.uniform(5, 12)
    elif style == "ordered":
        x = np.sort(x, axis=1)
        if ctx.flip():
            x = np.abs(x)
    elif style == "holdrows":
        for k in range(1, N):
            if r.random() < .5:
                x[k] = x[k - 1]
    return np.ascontiguousarray(x), style


def make_d(ctx, x, style=None):
    r = ctx.rng
    N, n = x.shape
    if style is None and ctx.new_floats and ctx.flip(.12):
        style = "dict"
    style = style or ctx.choice(D_STYLES)
    wt = r.normal(0, 1, n)
    d = x @ wt
    sc = float(np.std(d)) if N else 1.
    if style == "linear":
        d = d + r.normal(0, 10. ** r.uniform(-3, 0), N) * (sc or 1.)
    elif style == "drift":
        w2 = r.normal(0, 1, n)
        t = np.linspace(0, 1, N)[:, None] if N else np.zeros((0, 1))
        d = np.sum(x * ((1 - t) * wt + t * w2), axis=1)
    elif style == "step":
        a = ctx.irange(0, N)
        d[a:] = (x @ r.normal(0, 1, n))[a:]
    elif style == "noise":
        d = r.normal(0, sc or 1., N)
    elif style == "zero":
        d = np.zeros(N)
    elif style == "const":
        d = np.full(N, r.normal(0, 2.))
    elif style == "ints":
        d = r.integers(-5, 6, N).astype(float)
    elif style == "spikes":
        d = d.copy()
        if N:
            d[r.integers(0, N, max(1, N // 15))] += r.normal(0, 1) * 30 * (sc or 1.)
    elif style == "negative":
        d = -np.abs(d) - ctx.choice([0., 1., 1e3])
    elif style == "silent":
        d = np.where(r.random(N) < ctx.choice([.1, .5, .9]), 0., d)
        if N and ctx.flip():
            d[ctx.choice([0, -1])] = 0.
    elif style == "dict":
        c = ctx.dict_float(1e-6, 1e6) or 1.
        d = d * (c / sc) if sc > 0 else np.full(N, c)
    return np.ascontiguousarray(d, dtype=float), style, wt


def make_w(ctx, n):
    """initial weights: (argument for the constructor, expected array or None)"""
    u = ctx.rng.random()
    if u < .3:
        return "zeros", np.zeros(n)
    if u < .4:
        return "random", None
    w = ctx.rng.normal(0, ctx.choice([.1, .5, 1., 3.]), n)
    if u < .55:
        w = np.round(w)
    elif u < .6:
        w = np.full(n, ctx.choice([1., -1., .5, float(w[0]), 1e3]))
    elif u < .63:
        w = w * 10. ** ctx.irange(2, 6)
    elif u < .66:
        w = -np.abs(w)
    if u > .85:
        return list(w), w
    return w.copy(), w


# --------------------------------------------------------------------------
# parameters
# --------------------------------------------------------------------------
def params(ctx, kind, x, d, wild=False):
    """
    Parameters of the filter. Unless `wild`, chosen so that the adaptation does
    not blow up for the given data.
    """
    r = ctx.rng
    p2 = float(np.max(np.sum(x * x, axis=1))) if x.size else 1.
    p2 = p2 if p2 > 0 else 1.
    e2 = float(np.max(d * d)) + p2 * 2. if d.size else 1.
    e2 = max(e2, 1e-12)
    u = r.uniform(.01, 1.2)
    p = {}
    if kind == "LMS":
        p["mu"] = u / p2
    elif kind == "LMF":
        p["mu"] = .1 * u / (p2 * e2)
    elif kind == "NLMF":
        p = dict(mu=.15 * u / e2, eps=ctx.logu(1e-4, 1.))
    elif kind == "NLMS":
        p = dict(mu=u, eps=ctx.choice([0.001, ctx.logu(1e-6, 10.)]))
    elif kind == "SSLMS":
        p["mu"] = ctx.logu(1e-3, .3)
    elif kind == "NSSLMS":
        p = dict(mu=ctx.logu(1e-3, .5), eps=ctx.logu(1e-3, 1.))
    elif kind == "GMCC":
        lam = ctx.logu(1e-3, .5)
        al = ctx.choice([2, 2., 1., 1, 1.5, 3., 4, 2.5])
        p = dict(lambd=lam, alpha=al, mu=.5 * u / (p2 * max(1., lam * al)))
    elif kind == "Llncosh":
        lam = ctx.logu(1e-2, 5.)
        p = dict(lambd=lam, mu=u / (p2 * max(1., lam)))
    elif kind == "GNGD":
        p = dict(mu=.7 * u, eps=ctx.logu(.1, 5.) * ctx.choice([1., p2]), ro=ctx.logu(1e-6, 1e-2) / max(e2, 1.))
    elif kind == "OCNLMS":
        p = dict(mu=.6 * u, eps=ctx.logu(.1, 5.),
                 mem=ctx.choice([2, 3, 4, 5, 7, 10, 16, 25, 100, 101, ctx.irange(2, 60)]))
    elif kind == "RLS":
        p = dict(mu=ctx.choice([1., .999, .99, .98, .95]), eps=ctx.logu(1e-3, 1.))
    elif kind == "AP":
        p = dict(mu=.6 * u, order=ctx.choice([1, 2, 3, 4, 5, 5, 7, 10]), ifc=ctx.logu(1e-3, 1.))
    elif kind == "VSLMS_Ang":
        p = dict(mu=.4 * u / p2, ro=ctx.logu(1e-8, 1e-4) / (p2 * p2 * e2), a=ctx.choice([.95, .9, .99, .5, .95, .9, .99, .5, 0., .999, 0]))
    elif kind == "VSLMS_Benveniste":
        p = dict(mu=.4 * u / p2, ro=ctx.logu(1e-8, 1e-4) / (p2 * p2 * e2))
    elif kind == "VSLMS_Mathews":
        p = dict(mu=.4 * u / p2, ro=ctx.logu(1e-6, 1e-3) / (p2 * p2 * e2))
    if wild:
        for k in list(p):
            if k in ("order", "mem"):
                v = ctx.dict_int(1 if k == "order" else 2, 120 if k == "mem" else 14)
                p[k] = v if v is not None and ctx.flip(.5) else ctx.irange(2, 14)
            elif k == "alpha":
                p[k] = ctx.choice([1, 1.2, 2, 2.7, 3, 5, 6.])
            elif k == "a":
                p[k] = float(r.uniform(.3, .999))
            elif kind == "RLS" and k == "mu":
                p[k] = float(r.uniform(.3, 1.))
            elif k == "ro":
                p[k] = p[k] * 10. ** r.uniform(-1, 4) * ctx.choice([1, 1, 1, -1])
            else:
                p[k] = p[k] * 10. ** r.uniform(-3, 1.5)
        if ctx.flip(.15):
            p["mu"] = ctx.dict_float(*((.01, .5) if kind == "RLS" else (1e-6, 3.))) or p["mu"]
        if ctx.flip(.1) and "eps" in p and kind != "RLS":
            p["eps"] = ctx.dict_float(1e-12, 200.) or p["eps"]
        if ctx.flip(.05) and kind not in ("RLS",):
            p["mu"] = -p["mu"]
        if ctx.flip(.08) and kind not in ("RLS",):
            p["mu"] = ctx.choice([0., 0, 1, 2, 1.])
        if ctx.flip(.08):
            # parameters given as integers
            for k in p:
                if k in ("eps", "ifc", "lambd") and ctx.flip():
                    p[k] = ctx.choice([1, 2, 1, 3, 10])
        if ctx.flip(.06) and "ro" in p:
            p["ro"] = 0.
    if kind == "AP":
        # regularisation under the rounding of the energies would be none
        p["ifc"] = max(p["ifc"], 1e-11 * p2)
    return p


# --------------------------------------------------------------------------
# reference models; T is the precision, `noise` perturbs every rounding
# --------------------------------------------------------------------------
class Model:
    """increments of the weights, computed from observed error and input"""

    def __init__(self, kind, n, p, T=LD, noise=None):
        self.kind, self.n, self.T, self.noise = kind, n, T, noise
        self.p = dict(DEFAULTS[kind], **p)
        self.mu = T(self.p["mu"])
        g = getattr(self, "init_" + kind, None)
        if g:
            g()

    def r(self, v):
        if self.noise is None:
            return v
        u = self.noise.choice([-2., -1., 1., 2.], np.shape(v))
        return v * (1 + self.T(1.2e-16) * u)

    def dot(self, a, b):
        return self.r(np.sum(a * b))

    # --- memoryless rules
    def dw_LMS(self, e, x):
        return self.mu * e * x

    def dw_NLMS(self, e, x):
        return self.mu / (self.T(self.p["eps"]) + self.dot(x, x)) * e * x

    def dw_LMF(self, e, x):
        return self.mu * e * e * e * x

    def dw_NLMF(self, e, x):
        return self.mu / (self.T(self.p["eps"]) + self.dot(x, x)) * e * e * e * x

    def dw_SSLMS(self, e, x):
        return self.mu * np.sign(e) * np.sign(x)

    def dw_NSSLMS(self, e, x):
        return self.mu / (self.T(self.p["eps"]) + self.dot(x, x)) * np.sign(e) * np.sign(x)

    def dw_GMCC(self, e, x):
        T = self.T
        lam, al = T(self.p["lambd"]), T(self.p["alpha"])
        a = np.abs(T(e))
        mag = T(1) if (al == 1) else a ** (al - 1)
        return self.mu * lam * al * np.exp(-lam * a ** al) * mag * np.sign(e) * x

    def dw_Llncosh(self, e, x):
        return self.mu * np.tanh(self.T(self.p["lambd"]) * self.T(e)) * x

    # --- with memory
    def init_GNGD(self):
        self.eps = self.T(self.p["eps"])
        self.le, self.lx = self.T(0), np.zeros(self.n, self.T)

    def dw_GNGD(self, e, x):
        ro = self.T(self.p["ro"])
        den = self.r(self.dot(self.lx, self.lx) + self.eps)
        self.eps = self.r(self.eps - self.r(ro * self.mu * e * self.le * self.dot(x, self.lx) / (den * den)))
        self.le, self.lx = self.T(e), x.copy()
        return self.mu / self.r(self.eps + self.dot(x, x)) * e * x

    def init_VSLMS_Ang(self):
        self.le, self.lx = self.T(0), np.zeros(self.n, self.T)
        self.fi, self.m = np.zeros(self.n, self.T), self.mu

    init_VSLMS_Benveniste = init_VSLMS_Ang
    init_VSLMS_Mathews = init_VSLMS_Ang

    def _vs(self, e, x):
        self.m = self.r(self.m + self.r(self.T(self.p["ro"]) * e * self.dot(self.lx, self.fi)))
        self.le, self.lx = self.T(e), x.copy()
        return self.m * e * x

    def dw_VSLMS_Ang(self, e, x):
        self.fi = self.r(self.T(self.p["a"]) * self.fi + self.le * self.lx)
        return self._vs(e, x)

    def dw_VSLMS_Benveniste(self, e, x):
        # (I - mu x x^T) fi, evaluated without forming the matrix
        if self.noise is not None:
            M = self.r(np.identity(self.n) - self.r(self.m * np.outer(self.lx, self.lx)))
            self.fi = self.r(self.r(M @ self.fi) + self.le * self.lx)
        else:
            back = self.m * self.lx * self.dot(self.lx, self.fi)
            self.fi = (self.fi - back) + self.le * self.lx
        return self._vs(e, x)

    def dw_VSLMS_Mathews(self, e, x):
        self.m = self.r(self.m + self.r(self.T(self.p["ro"]) * e * self.le * self.dot(self.lx, x)))
        self.le, self.lx = self.T(e), x.copy()
        return self.m * e * x

    def init_RLS(self):
        self.R = np.identity(self.n, dtype=self.T) / self.T(self.p["eps"])

    def dw_RLS(self, e, x):
        Rx = self.r(self.R @ x)
        xR = self.r(x @ self.R)
        den = self.r(self.mu + self.dot(xR, x))
        self.R = self.r(self.r(self.R - self.r(np.outer(Rx, xR) / den)) / self.mu)
        return self.r(self.R @ x) * e

    def init_AP(self):
        m = int(self.p["order"])
        self.X, self.D = np.zeros((self.n, m), self.T), np.zeros(m, self.T)

    def dw_AP(self, e, x, w, d):
        self.X = np.hstack((x[:, None], self.X[:, :-1]))
        self.D = np.append(self.T(d), self.D[:-1])
        X, ifc = self.X, self.T(self.p["ifc"])
        E = self.D - self.r(X.T @ np.asarray(w, self.T))
        if self.noise is not None:
            A = self.r(X.T @ X) + ifc * np.identity(len(E))
            return self.mu * self.r(X @ (np.linalg.solve(A, np.identity(len(E))) @ E))
        if len(E) <= self.n:
            return self.mu * (X @ chol_solve(X.T @ X + ifc * np.identity(len(E), self.T), E))
        return self.mu * chol_solve(X @ X.T + ifc * np.identity(self.n, self.T), X @ E)

    def dw(self, e, x, w=None, d=None):
        if self.kind == "AP":
            return self.dw_AP(e, np.asarray(x, self.T), w, d)
        return getattr(self, "dw_" + self.kind)(self.T(e), np.asarray(x, self.T))


def chol_solve(A, b):
    """solution of symmetric positive definite system in long double"""
    A = np.array(A, LD)
    n = len(b)
    z = np.array(b, LD)
    L = np.zeros_like(A)
    for j in range(n):
        v = A[j, j] - np.sum(L[j, :j] * L[j, :j])
        if not v > 0:
            return np.full(n, LD(np.nan))
        L[j, j] = np.sqrt(v)
        L[j + 1:, j] = (A[j + 1:, j] - L[j + 1:, :j] @ L[j, :j]) / L[j, j]
    for j in range(n):
        z[j] = (z[j] - np.sum(L[j, :j] * z[:j])) / L[j, j]
    for j in range(n - 1, -1, -1):
        z[j] = (z[j] - np.sum(L[j + 1:, j] * z[j + 1:])) / L[j, j]
    return z


class Ensemble:
    """
    Long double reference plus perturbed float64 copies: the spread tells how
    much any correctly rounded evaluation order may differ at this point.
    """

    def __init__(self, kind, n, p, seed=0, copies=2):
        self.ref = Model(kind, n, p)
        self.pert = [Model(kind, n, p, np.float64, np.random.Generator(np.random.PCG64([seed, i])))
                     for i in range(copies)]

    def step(self, e, x, w=None, d=None, de=0.):
        """(reference increment, elementwise spread); de: uncertainty of e"""
        ref = self.ref.dw(e, x, w, d)
        spread = np.zeros(len(ref), LD)
        for i, m in enumerate(self.pert):
            try:
                spread = np.maximum(spread, np.abs(m.dw(e + (-de if i % 2 else de), x, w, d) - ref))
            except np.linalg.LinAlgError:
                spread[:] = np.inf
        return ref, spread


class RLSBound:
    """
    Long double RLS recursion with envelope Z of the first order rounding error
    of R in float64: -Z <= dR <= Z is propagated through the recursion exactly.
    """

    def __init__(self, n, p):
        p = dict(DEFAULTS["RLS"], **p)
        self.n, self.mu = n, LD(p["mu"])
        self.R = np.identity(n, dtype=LD) / LD(p["eps"])
        self.Z = EPS * np.abs(self.R)

    def step(self, e, x, w=None, d=None, de=0.):
        x = np.asarray(x, LD)
        R, mu, n = self.R, self.mu, self.n
        g = R @ x
        den = mu + np.sum(x * g)
        a = np.abs(R) @ np.abs(x)
        M = np.identity(n, dtype=LD) - np.outer(g, x) / den
        xa = np.sum(np.abs(x) * a)
        eta = (n + 2) * EPS * (np.sqrt(np.sum(R * R)) + np.sum(a * a) / den * (1 + xa / den)) / mu
        valid = np.sum(x * (self.Z @ x)) < 1e-3 * den
        self.Z = (M @ self.Z @ M.T) / mu + eta * np.identity(n, dtype=LD)
        self.R = (R - np.outer(g, g) / den) / mu
        self.R = (self.R + self.R.T) / 2
        g2 = self.R @ x
        z = np.sqrt(np.sum(x * (self.Z @ x)) * np.trace(self.Z))
        b = (z + (n + 2) * EPS * (np.abs(self.R) @ np.abs(x))) * (abs(e) + de) + np.abs(g2) * de
        if not valid or not np.trace(self.R) < 1e140:
            b = np.full(n, np.inf, LD)
        return g2 * LD(e), b / 20


def check_law(ctx, kind, n, p, X, e, W0, W1, rel=1e-9, what="", d=None, slack=None):
    """
    Oracle over a recorded trace: for every sample k the increment
    W1[k]-W0[k] is the one the documented law gives for e[k] and X[k].
    Returns number of decided samples.
    """
    ens = RLSBound(n, p) if kind == "RLS" else Ensemble(kind, n, p, seed=ctx.idx + 1, copies=4 if kind == "AP" else 2)
    decided, past = 0, 0.
    stateful = kind in STATEFUL
    for k in range(len(X)):
        ref, spread = ens.step(e[k], X[k], W0[k], None if d is None else d[k], 0. if slack is None else slack[k])
        scale = float(np.max(np.abs(ref))) if n else 0.
        if not (np.all(np.isfinite(ref)) and np.all(np.isfinite(spread)) and scale < 1e80
                and np.all(np.abs(W0[k]) < 1e80)):
            ctx.count("diverged_stops")
            break
        past = max(past, scale)
        wmax = max(float(np.max(np.abs(W0[k]))), float(np.max(np.abs(W1[k]))))
        noise = float(np.max(spread))
        if np.any((np.abs(ref) > 0) & (np.abs(ref) < 1e-250)):
            ctx.count("subnormal_skipped")
            continue
        if noise > 1e-4 * scale and noise > 1e-7 * past and noise > 1e-10 * wmax:
            ctx.count("illconditioned_skipped")
            if stateful and not noise <= .1 * scale:
                break
            continue
        tol = 200 * spread + rel * np.abs(ref) + 1e-12 * scale + 1e-30 * past + \
            8 * EPS * np.maximum(np.abs(W0[k]), np.abs(W1[k]))
        core.compare("%s%s%s sample %d: weight increment" % (what, kind, p, k),
                     W1[k].astype(LD) - W0[k].astype(LD), ref, tol)
        decided += 1
    return decided


# --------------------------------------------------------------------------
# traces of the real code
# --------------------------------------------------------------------------
def weights(f):
    """current weights of a live filter"""
    if not hasattr(f, "w"):
        raise core.Inconclusive("filter has no attribute w")
    return np.array(f.w, dtype=float)


def trace_run(ctx, f, d, x, exact_pred=True):
    """batch call -> (y, e, W0, W1)"""
    N, n = np.shape(x)
    y, e, W = unpack(ctx.call(f.run, d, x), N, n)
    W1 = np.vstack((W[1:], weights(f)[None, :])) if N else W
    return y, e, W, W1


def unpack(r, N, n, what="run"):
    need(isinstance(r, tuple) and len(r) == 3, "%s: returned %s instead of (y, e, w)", what, core.short(r))
    y = core.as_float(what + ": y", r[0], (N,))
    e = core.as_float(what + ": e", r[1], (N,))
    W = core.as_float(what + ": w", r[2], (N, n))
    return y, e, W


def trace_adapt(ctx, f, d, x, closed=None):
    """
    Sample-after-sample -> (d used, y, e, W0, W1).
    closed[k]: target is set to the present output, so that error is zero.
    Output is computed from the public weights (long double).
    """
    N, n = x.shape
    d = np.array(d)
    aim = bool(ctx.new_floats) and closed is not None and ctx.flip(.4)
    y, e = np.zeros(N), np.zeros(N)
    W0, W1 = np.zeros((N, n)), np.zeros((N, n))
    for k in range(N):
        W0[k] = weights(f)
        y[k] = np.dot(W0[k], x[k])
        if closed is not None and closed[k]:
            d[k] = y[k]
        elif aim and ctx.flip(.3):
            d[k] = y[k] + ctx.choice([-1, 1]) * (ctx.dict_float(1e-12, 1e8) or 1.)
        e[k] = d[k] - y[k]
        ctx.call(f.adapt, d[k], x[k])
        W1[k] = weights(f)
    return d, y, e, W0, W1


def new(ctx, kind, n, p, w="zeros", via=None):
    """create a filter in one of the documented ways"""
    pa = core.load()
    via = via if via is not None else ctx.irange(0, 3)
    p = dict(p)
    if via == 0:
        return ctx.call(cls(kind), n, w=w, **p)
    if via == 1:
        return ctx.call(cls(kind), n=n, w=w, **p)
    if via == 2:
        return ctx.call(pa.filters.AdaptiveFilter, model=kind, n=n, w=w, **p)
    return ctx.call(ctx.call(pa.filters.get_filter, kind), n, w=w, **p)


def twin_tolerance(base, twin, scale, gain=1e3, rel=1e-9):
    """tolerance along a trajectory from the divergence of a perturbed twin"""
    gap = np.abs(np.asarray(base, LD) - np.asarray(twin, LD))
    both = np.isnan(np.asarray(base, float)) & np.isnan(np.asarray(twin, float))
    gap = np.where(both, 0, np.where(np.isfinite(gap), gap, np.inf))
    if gap.ndim > 1:
        gap = gap.max(axis=tuple(range(1, gap.ndim)))
    tol = gain * np.maximum.accumulate(gap) + rel * np.maximum.accumulate(
        np.where(np.isfinite(scale), scale, np.inf))
    return tol


# --------------------------------------------------------------------------
# comparison of two trajectories of the real code
# --------------------------------------------------------------------------
def first_bad(A, B, tol):
    """index of the first sample where the traces differ more than tol, or None"""
    with np.errstate(all="ignore"):
        diff = np.abs(np.asarray(A, LD) - np.asarray(B, LD))
        ok = (np.asarray(A) == np.asarray(B)) | (np.isnan(np.asarray(A, float)) & np.isnan(np.asarray(B, float)))
        bad = ~ok & ~(diff <= (tol[:, None] if np.ndim(A) == 2 else tol))
    if np.ndim(bad) == 2:
        bad = bad.any(axis=1)
    return int(np.argmax(bad)) if bad.any() else None


def undecided(kind, p, W, x, d):
    """
    First sample from which rounding alone may decide about the trajectory:
    sign of an error within rounding of zero, or RLS matrix lost in rounding.
    """
    N, n = x.shape
    p = dict(DEFAULTS[kind], **p)
    W = np.asarray(W, float)
    with np.errstate(all="ignore"):
        if kind in SIGNED or (kind == "GMCC" and p["alpha"] < 2):
            y, bound = output_bounds(W, x)
            top = np.maximum.accumulate(np.abs(W).max(axis=1, initial=0))
            drift = np.arange(1, N + 1) * EPS * top * np.abs(x).sum(axis=1)
            bad = ~(np.abs(d - y) > 1e3 * (bound + EPS * np.abs(d) + drift)) & ~np.isnan(d)
        elif kind == "RLS":
            env, bad, total = RLSBound(n, p), np.zeros(N, bool), 0.
            for k in range(N):
                w = W[k].astype(LD)
                e = d[k] - np.sum(w * x[k])
                total += 20 * env.step(e, x[k])[1].max()
                if not total <= 1e-8 * max(float(np.abs(w).max()), 1e-300):
                    bad[k:] = True
                    break
        else:
            return N
    return int(np.argmax(bad)) if bad.any() else N


def same_traj(ctx, what, A, B, twins=None, rel=1e-9, gain=1e4, about=None):
    """
    A, B: tuples of arrays over samples (1d or 2d), observed from two
    executions which the property says to agree. Identical is always fine.
    Otherwise rounding may differ: the tolerance at each sample is calibrated
    by `twins`, callables which repeat execution A on minimally perturbed data;
    `about`, callable, gives the sample where `undecided` limits the comparison.
    """
    N = len(A[0])
    for a, b in zip(A, B):
        need(np.shape(a) == np.shape(b), "%s: shapes %s and %s", what, np.shape(a), np.shape(b))
    if all(np.array_equal(a, b, equal_nan=True) for a, b in zip(A, B)):
        ctx.count("identical_traces")
        return N
    scales = []
    for a in A:
        m = np.abs(np.asarray(a, float))
        m = m.max(axis=1) if m.ndim == 2 else m
        scales.append(np.maximum.accumulate(np.where(np.isfinite(m), m, 0.)))
    # weights after a sample are as precise as those before it
    top = [s for s, a in zip(scales, A) if np.ndim(a) == 2]
    scales = [np.maximum.reduce(top) if np.ndim(a) == 2 else s for s, a in zip(scales, A)]
    tols = [rel * s + 1e-280 for s in scales]
    if all(first_bad(a, b, t) is None for a, b, t in zip(A, B, tols)):
        ctx.count("rounding_equal_traces")
        return N
    limit = N
    if about is not None:
        limit = min(N, about())
        ctx.count("rounding_limited", limit < N)
        tols = [t + (1e-5 * s if limit < N else 0) for t, s in zip(tols, scales)]
    for t in (twins or ()):
        T = t()
        for i, (a, b) in enumerate(zip(A, T)):
            tols[i] = tols[i] + twin_tolerance(a, b, np.zeros(N), gain=gain)
    with np.errstate(all="ignore"):
        dead = np.zeros(N, bool)
        for t, s in zip(tols, scales):
            dead |= ~(t <= .1 * s + 1e-300)
    # the first sample where rounding may decide ends the comparison
    stop = min(limit, int(np.argmax(dead)) if dead.any() else N)
    for i, (a, b, t) in enumerate(zip(A, B, tols)):
        k = first_bad(a[:stop], b[:stop], t[:stop])
        if k is not None:
            raise Violation("%s: result %d differs from sample %d: %s versus %s (tolerance %.3g)" % (
                what, i, k, core.short(np.asarray(a[k]).tolist()), core.short(np.asarray(b[k]).tolist()), float(t[k])))
    ctx.count("calibrated_traces")
    return stop


def jitter(ctx, a, size=1e-14):
    """
    Minimally perturbed copy. Zeros stay, so do other whole numbers when there
    is enough of the rest, and equal values stay equal: what a defect makes of
    special values must not pass for sensitivity to rounding.
    """
    a = np.asarray(a, float)
    values, where = np.unique(a, return_inverse=True)
    f = 1 + size * ctx.rng.choice([-1., 1.], values.shape)
    with np.errstate(all="ignore"):
        whole = values == np.round(values)
    if np.count_nonzero(whole[where]) <= .75 * a.size:
        f[whole] = 1.
    return (values * f)[where].reshape(a.shape)


def jitter_each(ctx, a, size=1e-14):
    a = np.asarray(a, float)
    return a * (1 + size * ctx.rng.choice([-1., 1.], a.shape))


def jitter_values(ctx, a, size=1e-14):
    """minimally perturbed copy, in which equal values stay equal"""
    a = np.asarray(a, float)
    values, where = np.unique(a, return_inverse=True)
    return jitter_each(ctx, values, size)[where].reshape(a.shape)


# --------------------------------------------------------------------------
# scenario: one filter configuration with data
# --------------------------------------------------------------------------
class Case:
    """kind, n, parameters, initial weights and data"""


def dress(ctx, a):
    """the same values in another form"""
    u = ctx.irange(0, 7)
    a = np.asarray(a)
    with np.errstate(all="ignore"):
        if u == 0:
            return a.tolist()
        if u == 1:
            return tuple(a)
        if u == 2 and np.all(np.abs(a) < 2**31) and np.array_equal(a, a.astype(int)):
            return a.astype(int)
        if u == 3 and np.array_equal(a, a.astype(np.float32), equal_nan=True):
            return a.astype(np.float32)
        if u == 4:
            return np.asfortranarray(a)
        if u == 5:
            return list(a)
    return a


def near(ctx, y):
    """a target near the output y"""
    return y * (1 + ctx.choice([-1, 1]) * 10. ** ctx.rng.uniform(-13, -1))


def close_targets(ctx, c):
    """targets near outputs of the filter, made by a filter which is thrown away"""
    h = new(ctx, c.kind, c.n, c.p, c.w)
    share = ctx.choice([.3, .7, 1.])
    for k in range(c.N):
        if ctx.flip(share):
            c.d[k] = near(ctx, float(np.dot(h.w, c.x[k])))
        if not np.isfinite(c.d[k]):
            c.d[k] = 0.
        h.adapt(c.d[k], c.x[k])


def scale_x(kind, p, c):
    """parameters for input multiplied by c"""
    q = dict(p)
    if kind in ("LMS", "LMF", "Llncosh", "GMCC"):
        q["mu"] /= c ** 2
    elif kind in ("NLMS", "NLMF", "OCNLMS", "RLS"):
        q["eps"] *= c ** 2
    elif kind == "SSLMS":
        q["mu"] /= c
    elif kind == "NSSLMS":
        q["mu"] *= c
        q["eps"] *= c ** 2
    elif kind == "AP":
        q["ifc"] *= c ** 2
    elif kind == "GNGD":
        q["eps"] *= c ** 2
        q["ro"] *= c ** 4
    else:
        q["mu"] /= c ** 2
        q["ro"] /= c ** 4
    return q


def scale_d(kind, p, c):
    """parameters for target (and weights) multiplied by c"""
    q = dict(p)
    if kind in ("LMF", "NLMF"):
        q["mu"] /= c ** 2
    elif kind in ("SSLMS", "NSSLMS"):
        q["mu"] *= c
    elif kind == "Llncosh":
        q["lambd"] /= c
        q["mu"] *= c
    elif kind == "GMCC":
        q["lambd"] = q["lambd"] / c ** q["alpha"]
        q["mu"] *= c ** 2
    elif kind == "GNGD" or kind.startswith("VSLMS"):
        q["ro"] /= c ** 2
    return q


def change_units(ctx, c):
    """the same case with inputs, targets and weights in other units"""
    a, b = [2. ** ctx.irange(-28, 28) if ctx.flip(.7) else 1. for _ in range(2)]
    full = {k: (v if k in ("order", "mem") else float(v)) for k, v in dict(DEFAULTS[c.kind], **c.p).items()}
    c.p = scale_d(c.kind, scale_x(c.kind, full, a), b)
    c.x, c.d = c.x * a, c.d * b
    c.w = c.w * (b / a)
    c.warg = c.w.copy()
    c.xs = c.xs + " in other units"


def scenario(ctx, kinds=KINDS, hi=200, long=0.0, wild=.25, nhi=16, xstyle=None, dstyle=None, lo=1, exact_w=True, units=True):
    c = Case()
    c.kind = ctx.choice(kinds)
    c.n = size(ctx, nhi)
    c.N = length(ctx, lo, hi, long)
    c.x, c.xs = make_x(ctx, c.N, c.n, xstyle)
    c.d, c.ds, c.wt = make_d(ctx, c.x, dstyle)
    c.wild = ctx.flip(wild)
    c.p = params(ctx, c.kind, c.x, c.d, c.wild)
    if c.xs == "held" and ctx.flip(.7):
        c.d, c.ds = np.round(c.d * 4), "held"
        for k in range(1, c.N):
            if np.array_equal(c.x[k], c.x[k - 1]) and ctx.flip(.9):
                c.d[k] = c.d[k - 1]
        if c.kind in ("LMS", "NLMS", "SSLMS"):
            c.p["mu"] = 1.
            if c.kind == "NLMS":
                c.p["eps"] = 0.
    c.warg, c.w = make_w(ctx, c.n)
    while exact_w and c.w is None:
        c.warg, c.w = make_w(ctx, c.n)
    c.via = ctx.irange(0, 3)
    if c.w is not None and ctx.flip(.06):
        close_targets(ctx, c)
        c.ds = "closed"
    elif c.w is not None and ctx.flip(.12 if c.kind in ("SSLMS", "NSSLMS") else .05):
        # errors which are small in comparison with the target from the first sample on
        c.d = c.x @ c.w * (1 + 10. ** -ctx.rng.uniform(2, 12) * ctx.rng.normal(0, 1, c.N))
        c.ds = "near"
    if units and c.w is not None and ctx.flip(.12):
        change_units(ctx, c)
    ctx.note(kind=c.kind, n=c.n, N=c.N, x=c.xs, d=c.ds, p={k: float(v) for k, v in c.p.items()},
             wild=c.wild, via=c.via)
    ctx.digest(c.x, c.d)
    ctx.kinds["%s" % c.kind] += 1
    ctx.kinds["x:" + c.xs] += 1
    return c


def build(ctx, c, w=None):
    """new filter of the scenario"""
    return new(ctx, c.kind, c.n, c.p, c.warg if w is None else w, c.via)


def run(ctx, f, d, x):
    """(y, e, W, W1): W1 are the weights after each sample"""
    y, e, W, W1 = trace_run(ctx, f, d, x)
    return y, e, W, W1


def feed(ctx, f, d, x, mode=None):
    """
    Push samples to the filter by a random mixture of documented calls;
    returns weights after each sample where observed (nan rows elsewhere).
    """
    N = len(x)
    i = 0
    while i < N:
        if mode == "adapt" or (mode is None and ctx.flip(.5)):
            m = 1 if mode == "adapt" else ctx.irange(1, min(N - i, 5))
            for k in range(i, i + m):
                ctx.call(f.adapt, d[k], x[k])
        else:
            m = ctx.irange(1, N - i)
            ctx.call(f.run, d[i:i + m], x[i:i + m])
        i += m
    return f


def output_bounds(W, x):
    """long double outputs and rounding bounds of W[k]*x[k]"""
    prod = np.asarray(W, LD) * np.asarray(x, LD)
    return prod.sum(axis=1), 4 * (x.shape[1] + 2) * EPS * np.abs(prod).sum(axis=1) + 1e-300
