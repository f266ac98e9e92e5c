"""C32: detection tools judge every weight on its own and only by its recent past"""
import numpy as np

from .. import core, filt
from ..core import need
from . import _hist

FILES = ["detection/"]
RULE = ("Histories of weights (exact numbers for Learning Entropy and ELBND, any for ESE and ELBND) are permuted, split and joined by "
        "columns, scaled, negated, shifted in time; results observed for both are combined as the property says and compared.")
NEED = dict(decisive=2000, elbnd=40, le_direct=40, le_multiscale=40, ese=10, permuted=40, joined=40, scaled=40, shifted=40, negated=40)


def exact(ctx, N, n):
    """history whose sums of increments are exact"""
    r = ctx.rng
    u = ctx.irange(0, 3)
    if u == 0:
        w = np.cumsum(r.integers(-3, 4, (N, n)), axis=0)
    elif u == 1:
        w = np.cumsum(r.integers(-3, 4, (N, n)) * (r.random((N, n)) < .3), axis=0)
    elif u == 2:
        w = np.round(np.cumsum(r.standard_t(1.5, (N, n)).clip(-1e4, 1e4) * 16, axis=0))
    else:
        w = r.integers(-50, 50, (N, n))
    return w * 2. ** ctx.irange(-12, 6)


class Elbnd:
    name = "elbnd"
    warm = 0

    def __init__(self, ctx, N, n):
        self.fun = ctx.choice(["max", "sum"])
        self.w, e = (exact(ctx, N, n), ctx.rng.normal(0, 1, N)) if ctx.flip() else _hist.history(ctx, N, n)
        self.e = e if ctx.flip(.8) else np.round(e * 4)
        self.rel = 0 if self.fun == "max" else 1e-13 * (n + 5)
        self.what = "ELBND(%s)" % self.fun

    def go(self, w, e=None):
        return core.load().detection.ELBND(w, self.e if e is None else e, function=self.fun)

    def tail(self, s):
        return self.e[s:]

    def join(self, parts, sizes):
        return np.max(parts, axis=0) if self.fun == "max" else np.sum(parts, axis=0)

    def tol(self, a):
        return 2 * self.rel * np.abs(a)


class Direct:
    name = "le_direct"

    def __init__(self, ctx, N, n):
        self.m, self.order = ctx.choice([1, 2, 3, 5, 10, ctx.irange(1, 30)]), ctx.choice([1, 1, 1, 2, 3])
        self.w = exact(ctx, N, n)
        self.warm = self.m + self.order
        self.what = "LE(m=%d, order=%d)" % (self.m, self.order)

    def go(self, w, e=None):
        return core.load().detection.learning_entropy(w, m=self.m, order=self.order)

    def tail(self, s):
        return None

    def join(self, parts, sizes):
        return np.hstack(parts)

    def tol(self, a):
        return 1e-9 * np.abs(a) + 1e-9


class Multi(Direct):
    name = "le_multiscale"

    def __init__(self, ctx, N, n):
        super().__init__(ctx, N, n)
        self.alpha = [float(v) for v in ctx.rng.choice([.5, 1., 2., 4., 8., 3., 5.], ctx.irange(1, 6))]
        if ctx.flip(.3):
            # weights of inputs of very different units
            self.w = self.w * 2. ** ctx.rng.integers(-40, 41, n)
        self.what += " with alpha=%s" % self.alpha

    def go(self, w, e=None):
        return core.load().detection.learning_entropy(w, m=self.m, order=self.order, alpha=self.alpha)

    def join(self, parts, sizes):
        return np.sum([p * s for p, s in zip(parts, sizes)], axis=0) / sum(sizes)

    def tol(self, a):
        return 1e-12


class Ese:
    name = "ese"

    def __init__(self, ctx, N, n):
        self.window = ctx.choice([11, 20, 30, 50])
        self.method = ctx.choice(["10%", "sqrt", "log10", "30%", "log10log10"])
        N = self.window + ctx.irange(3, 10)
        self.w = np.cumsum(ctx.rng.normal(0, 1, (N, n)) if ctx.flip() else ctx.rng.standard_t(3, (N, n)), axis=0)
        self.warm = self.window + 1
        self.what = "ESE(window=%d, %s)" % (self.window, self.method)

    def go(self, w, e=None):
        return core.load().detection.ESE(w, window=self.window, pot_method=self.method)

    def tail(self, s):
        return None

    def join(self, parts, sizes):
        return np.sum(parts, axis=0)

    def tol(self, a):
        # fits of single weights may move with rounding
        return 1e-2 * (1 + np.abs(a))


def case(ctx):
    core.load()
    tool = ctx.choice([Elbnd, Direct, Direct, Multi, Multi, Elbnd, Elbnd, Direct, Multi, Ese])
    n = ctx.choice([1, 2, 3, 4, filt.size(ctx, 20), ctx.irange(5, 40), ctx.over(8, 400) or ctx.irange(5, 70)]) if tool is not Ese else ctx.irange(1, 3)
    t = tool(ctx, filt.length(ctx, 3, 120, .01), n)
    w = t.w
    N = len(w)
    if n > 1 and tool is Ese and ctx.flip():
        # weights of the same movements, and a change at the end
        w[:] = w[:, :1] * ctx.rng.choice([-1., 1.], n)
        w[-ctx.irange(1, 3):] *= 3
        ctx.count("alike")
    elif n > 1 and ctx.flip(.2):
        # some weights move in the same way
        for _ in range(ctx.irange(1, 3)):
            i, j = ctx.irange(0, n - 1), ctx.irange(0, n - 1)
            w[:, i] = w[:, j] * ctx.choice([1., 1., -1., 2.]) + ctx.choice([0., 0., 1.])
        ctx.count("alike")
    ctx.note(what=t.what, n=n, N=N)
    ctx.digest(w)
    ctx.kinds[t.what.split("(")[0]] += 1
    shape = lambda k, r=N: (r, k) if tool is Direct else (r,)
    base = core.as_float(t.what, ctx.call(t.go, w), shape(n))
    ctx.count(t.name)
    a = t.warm
    rel = ["permuted", "joined", "scaled", "negated", "shifted"]
    for what in [r for r in rel if ctx.flip(.6 if tool is not Ese else .35)]:
        if what == "permuted":
            p = ctx.rng.permutation(n)
            got = core.as_float(t.what, ctx.call(t.go, w[:, p]), shape(n))
            want = base[:, p] if tool is Direct else base
        elif what == "joined":
            if n < 2:
                continue
            cuts = sorted({0, n, *(int(v) for v in ctx.rng.integers(0, n + 1, ctx.irange(1, 3)))})
            parts = [core.as_float(t.what, ctx.call(t.go, w[:, i:j]), shape(j - i)) for i, j in zip(cuts, cuts[1:])]
            got, want = base, t.join(parts, np.diff(cuts))
        elif what == "scaled":
            if tool is Ese:
                continue
            s = 2. ** ctx.irange(-6, 6)
            got = core.as_float(t.what, ctx.call(t.go, w * s), shape(n))
            want = base * s if tool is Elbnd else base
            if tool is Elbnd and ctx.flip():
                s = ctx.choice([-2., -1., .5, 4.])
                got, want = core.as_float(t.what, ctx.call(t.go, w, t.e * s), (N,)), base * abs(s)
            if tool is Direct:
                # the term which keeps Learning Entropy finite has no scale
                d = np.abs(np.diff(w, n=t.order, axis=0))
                for k in range(a, N):
                    flat = d[k - t.order - t.m:k - t.order].std(axis=0) < 1e-7 * max(1., 1 / s)
                    flat |= d[k - t.order - t.m:k - t.order].std(axis=0) * min(s, 1.) < .1
                    got[k][flat] = want[k][flat]
        elif what == "negated":
            sg = ctx.rng.choice([-1., 1.], n)
            got = core.as_float(t.what, ctx.call(t.go, w * sg), shape(n))
            want = base
        else:
            s = ctx.irange(0, max(0, N - a - 1))
            if N - s < 2 or (tool is Ese and N - s <= t.window):
                continue
            got = core.as_float(t.what, ctx.call(t.go, w[s:], t.tail(s)), shape(n, N - s))
            got, want = got[a:], base[s + a:]
            if ctx.flip() and len(want) > 1 and tool is not Elbnd:
                # and the future does not matter
                c = N - ctx.irange(0, N - s - a - 1)
                cut = core.as_float(t.what, ctx.call(t.go, w[s:c]), shape(n, c - s))
                got, want = cut[a:], want[:c - s - a]
        if what != "shifted":
            got, want = got[a:], want[a:]
        tol = t.tol(want) if tool is not Direct or what != "scaled" else 1e-6 * np.abs(want) + 1e-9
        core.compare("%s, weights %s" % (t.what, what), got, want, tol)
        ctx.count(what)
        ctx.decisive(max(1, len(want)))
