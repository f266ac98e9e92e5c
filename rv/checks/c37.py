"""C37: detectors point at an abrupt change of the observed system"""
import numpy as np

from .. import core, filt
from ..core import need
from . import c36

FILES = ["filters/", "detection/"]
RULE = ("Adaptive filters observe a random linear system with little noise which changes at a random sample; ELBND, Learning "
        "Entropy (multiscale, direct) and ESE are computed from the observed weights and errors, as documented. The values just "
        "after the change are compared with those of the preceding samples.")
NEED = dict(decisive=200, changes=100, elbnd=100, le_multiscale=100, le_direct=100, ese=15, sure=100)
CASE_S = 120
QUICK_S = 16
KINDS = ["LMS", "NLMS", "AP", "RLS", "GNGD", "GMCC", "VSLMS_Ang", "VSLMS_Mathews"]


def sure(ctx, pa):
    """the bigger the jump of weights in one sample, the higher the value of this sample"""
    r = ctx.rng
    n = ctx.irange(1, 4) if ctx.flip(.8) else ctx.irange(5, 40)
    L = ctx.choice([40, 70, 150]) if ctx.flip(.96) else ctx.irange(300, 3000)
    step = 10. ** r.uniform(-8, 2)
    W = np.cumsum(r.normal(0, step, (L, n)) * (r.standard_t(3, (L, n)) if ctx.flip(.3) else 1.), axis=0)
    k = L - ctx.irange(2, 6)
    e = r.normal(0, 1, L) * 10. ** r.uniform(-3, 3)
    jump = r.normal(0, 1, n)
    jump = np.where(r.random(n) < .5, jump, 0) if ctx.flip() else jump
    if not jump.any():
        jump[-1] = 1.
    jump = np.sign(jump) * np.maximum(np.abs(jump), .5)
    share = np.count_nonzero(jump) / n
    m = ctx.irange(10, L - 10)
    order = ctx.irange(1, 3)
    win = ctx.irange(30, L - 8)
    fun = ctx.choice(["max", "sum"])
    ese = ctx.flip(.2)
    ctx.note(what="sure", n=n, L=L, step=step, k=k, m=m, order=order, win=win, jump=jump.tolist())
    ctx.digest(W, e, jump)
    sizes = [100., 1e4, 1e6, 1e8]
    seen = {}
    for t in sizes:
        V = W.copy()
        V[k:] += t * step * jump
        # (detector, position) -> value
        v = core.as_float("ELBND", ctx.call(pa.detection.ELBND, V, e, function=fun), (L,))
        now = {"ELBND(%s)" % fun: v[k - 1]}
        need(np.argmax(v) == k - 1 or t < 1e4 or abs(e[k - 1]) < 1e-2 * np.max(np.abs(e)), "ELBND is highest at sample %d, weights jump by %g steps at %d", np.argmax(v), t, k - 1)
        v = core.as_float("LE", ctx.call(pa.detection.learning_entropy, V, m=m, order=order), (L, n))
        now["Learning Entropy(m=%d, order=%d)" % (m, order)] = v[k, jump != 0].min()
        v = core.as_float("LE", ctx.call(pa.detection.learning_entropy, V, m=m, order=order, alpha=[3., 5., 9.]), (L,))
        need(t < 1e4 or v[k] >= share - 1e-9, "Learning Entropy with alpha is %g where %g of weights jump by %g usual steps", v[k], share, t)
        now["Learning Entropy with alpha"] = v[k] + 1
        if ese:
            v = core.as_float("ESE", ctx.call(pa.detection.ESE, V[k - win:k + 1], window=win), (win + 1,))
            now["ESE(window=%d)" % win] = v[win] + 1
            need(t < 1e6 or v[win] > .5, "ESE(window=%d) is %g where weights jump by %g usual steps", win, v[win], t)
        for name, x in now.items():
            last = seen.get(name, 0.)
            grows = "alpha" not in name and "ESE" not in name
            need((t < 1e3 or x > 2 * last) if grows else x >= last - 1e-6, "%s: value %.6g of a jump of weights by %g usual steps, %.6g of a smaller one", name, x, t, last)
            seen[name] = max(x, 0.)
        ctx.decisive(len(now))
    ctx.count("sure")


def case(ctx):
    pa = core.load()
    r = ctx.rng
    if ctx.idx % 3 == 0:
        return sure(ctx, pa)
    kind = ctx.choice(KINDS)
    n = ctx.choice([2, 3, 4, 6])
    s = 10. ** r.uniform(-1, 1)
    p = c36.recipe(ctx, kind, n, s)
    if kind == "RLS":
        p = dict(mu=.99, eps=p["eps"])
    N, K = 1500, ctx.irange(1000, 1400)
    noise = ctx.choice([.003, .01])
    x, xs = c36.excitation(ctx, N, n, s)
    w1 = c36.unit(ctx, n) / s
    w2 = w1 + c36.unit(ctx, n) * ctx.choice([1., 3.]) / s
    d = x @ w1
    d[K:] = x[K:] @ w2
    d = d + noise * r.normal(0, 1, N)
    ctx.note(kind=kind, n=n, s=s, p={k: float(v) for k, v in p.items()}, K=K, noise=noise, x=xs)
    ctx.digest(x, d)
    ctx.kinds[kind] += 1
    f = filt.new(ctx, kind, n, p, "zeros", ctx.irange(0, 3))
    W = c36.use(ctx, f, d, x, ctx.choice(["run", "mixed"]))
    e = d - np.sum(W * x, axis=1)
    ctx.count("changes")

    def judge(name, v, a, what, before=300, share=1.):
        """value just after the change is over (a share of) those before it"""
        ctx.count(what)
        old, new = v[K - before:K + a], float(np.max(v[K + a:K + 30]))
        under = float(np.mean(old < new))
        need(under >= share, "%s over %s %s, n=%d, input %s: highest value after the change of the system at sample %d is %.4g, %.3g of earlier "
             "samples are not below, their highest value is %.4g", name, kind, p, n, xs, K, new, 1 - under, np.max(old))
        ctx.decisive()
    fun = ctx.choice(["max", "sum"])
    judge("ELBND(%s)" % fun, core.as_float("ELBND", ctx.call(pa.detection.ELBND, W, e, function=fun), (N,)), 0, "elbnd")
    m = ctx.choice([30, 60, 100, 200])
    judge("Learning Entropy(m=%d)" % m, core.as_float("LE", ctx.call(pa.detection.learning_entropy, W, m=m, order=1), (N, n)).sum(axis=1), 1, "le_multiscale", share=.98)
    le = core.as_float("LE", ctx.call(pa.detection.learning_entropy, W, m=m, order=1, alpha=[4., 6., 8., 12., 16.]), (N,))
    judge("Learning Entropy(m=%d, alpha)" % m, le, 1, "le_direct", share=.98)
    if ctx.flip(.2):
        win, before = ctx.choice([60, 100, 200]), 60
        part = slice(K - before - win, K + 30)
        v = np.zeros(N)
        v[part] = core.as_float("ESE", ctx.call(pa.detection.ESE, W[part], window=win), (before + win + 30,))
        judge("ESE(window=%d)" % win, v, 1, "ese", before, .85)
