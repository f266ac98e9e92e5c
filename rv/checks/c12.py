"""C12: initial weights, refused requests"""
import numpy as np

from .. import core, filt
from ..core import Violation, need

FILES = ["filters/base_filter.py", "filters/"]
RULE = ("Histories of valid calls with invalid calls (wrong width, disagreeing lengths, not numeric, ragged) injected at "
        "random positions of run, adapt, pretrained_run; the trajectory has to equal that of an undisturbed twin. "
        "Initial weights of all kinds.")
NEED = dict(decisive=1000, rejections=500, random_weights=2000, faulted_histories=100)


def bad_calls(ctx, c, f):
    """(description, function, arguments) of invalid calls"""
    n = c.n
    r = ctx.rng
    m = ctx.irange(1, 6)
    x = r.normal(0, 1, (m, n))
    d = r.normal(0, 1, m)
    wide = n + ctx.choice([1, 1, 2, 5])
    narrow = n - 1
    out = [
        ("run with wide x", f.run, (d, r.normal(0, 1, (m, wide)))),
        ("run with longer d", f.run, (np.append(d, 1.), x)),
        ("run with x longer than d", f.run, (d[:-1] if m > 1 else np.array([1., 2.]), x)),
        ("run with text in x", f.run, (d, [["a"] * n] * m)),
        ("run with text in d", f.run, (["q"] * m, x)),
        ("run with text in the last d", f.run, (list(d[:-1]) + ["bad"], x.tolist())),
        ("run with text in the last x", f.run, (d, x[:-1].tolist() + [["bad"] * n])),
        ("adapt with long x", f.adapt, (1., r.normal(0, 1, wide))),
        ("adapt with long list", f.adapt, (1., list(r.normal(0, 1, wide)))),
        ("adapt with row matrix", f.adapt, (1., r.normal(0, 1, (1, n)))),
        ("adapt with text", f.adapt, (1., ["a"] * n)),
        ("run with ragged x", f.run, (np.append(d, 1.), x.tolist() + [[1.] * wide])),
        ("pretrained_run with wide x", f.pretrained_run, (np.append(d, d), r.normal(0, 1, (2 * m, wide)))),
        ("run with d transposed into longer", f.run, (r.normal(0, 1, m + 3), x)),
        ("run with d in a column", f.run, (d[:, None], x)),
        ("run with more targets of a sample", f.run, (r.normal(0, 1, (m, 2)), x)),
        ("run with x of three dimensions", f.run, (d, x[:, :, None])),
        ("run with x of three dimensions, one row", f.run, (d[:1], r.normal(0, 1, (1, n, 2)))),
        ("run with d of row matrix", f.run, ([d[:1]], x[:1])),
        ("adapt with two targets", f.adapt, (r.normal(0, 1, 2), x[0])),
        ("adapt with text target", f.adapt, (ctx.choice(["a", "", "1,5"]), x[0])),
        ("adapt without target", f.adapt, (None, x[0])),
        ("adapt with no targets", f.adapt, ([], x[0])),
        ("pretrained_run with d in a column", f.pretrained_run, (np.append(d, d)[:, None], np.append(x, x, axis=0))),
    ]
    if narrow >= 1:
        out += [("run with narrow x", f.run, (d, r.normal(0, 1, (m, narrow)))),
                ("adapt with short x", f.adapt, (1., r.normal(0, 1, narrow)))]
    if f.kind != "OCNLMS" and n > 1:
        # OCNLMS: predict uses memory, see findings; with one weight, sums of products fit any x
        out += [("predict with long x", f.predict, (r.normal(0, 1, wide),))]
    if n > 1:
        out += [("adapt with target of every weight", f.adapt, (r.normal(0, 1, n), x[0]))]
    if n != 1:
        out += [("adapt with one value", f.adapt, (1., [2.])), ("adapt with scalar x", f.adapt, (1., 2.)),
                ("run with one column", f.run, (d, r.normal(0, 1, (m, 1))))]
    if m != n:
        out.append(("run with transposed x", f.run, (d, x.T)))
    return out


def histories(ctx):
    c = filt.scenario(ctx, hi=50, wild=.15, nhi=8)
    f, g = filt.build(ctx, c), filt.build(ctx, c)
    i, N = 0, c.N
    A, B = [], []
    marks = []
    while i < N:
        if ctx.flip(.5):
            for _ in range(ctx.irange(1, 2)):
                what, fn, args = ctx.choice(bad_calls(ctx, c, f))
                w0 = filt.weights(f)
                ctx.rejects("%s: %s" % (c.kind, what), ValueError, fn, *args)
                core.identical("%s: weights after refused %s" % (c.kind, what), filt.weights(f), w0)
                marks.append((i, what))
                ctx.kinds[what] += 1
        if ctx.flip(.5):
            ctx.call(f.adapt, c.d[i], c.x[i])
            g.adapt(c.d[i], c.x[i])
            A.append(filt.weights(g))
            B.append(filt.weights(f))
            i += 1
        else:
            m = ctx.irange(1, N - i)
            r = filt.trace_run(ctx, f, c.d[i:i + m], c.x[i:i + m])
            q = filt.trace_run(ctx, g, c.d[i:i + m], c.x[i:i + m])
            A += list(q[3])
            B += list(r[3])
            core.compare("%s: error after refused calls %s" % (c.kind, marks[-3:]), r[1][:1], q[1][:1],
                         1e-9 * (np.abs(q[1][:1]) + np.abs(c.d[i])))
            i += m

    def twin():
        h = filt.new(ctx, c.kind, c.n, c.p, c.w, c.via)
        return (filt.trace_run(ctx, h, filt.jitter(ctx, c.d), filt.jitter(ctx, c.x))[3],)
    filt.same_traj(ctx, "%s %s: continuation after refused calls %s" % (c.kind, c.p, marks[-6:]),
                   (np.array(A),), (np.array(B),), [twin] * 3)
    if marks:
        ctx.count("faulted_histories")
        ctx.decisive(len(A))


def initial(ctx):
    kind = ctx.choice(filt.KINDS)
    n = filt.size(ctx, 40)
    via = ctx.irange(0, 3)
    ctx.note(kind=kind, n=n, via=via, what="initial")
    p = dict(filt.DEFAULTS[kind])
    st = np.random.get_state()
    f = filt.new(ctx, kind, n, p, "zeros", via)
    w = filt.weights(f)
    core.compare("zero weights", w, np.zeros(n), 0)
    a = ctx.rng.normal(0, 3, n)
    u = ctx.irange(0, 6)
    arg = [a, list(a), tuple(a), np.round(a).astype(int), np.round(a).astype(np.int8), a.astype(np.float32),
           [int(v) for v in a]][u]
    f = filt.new(ctx, kind, n, p, arg, via)
    need(np.asarray(f.w).dtype == np.float64, "weights are %s", np.asarray(f.w).dtype)
    core.compare("weights given as %s" % type(arg).__name__, filt.weights(f), np.array(arg, dtype=float), 0)
    if ctx.flip(.4):
        # weights of any value are kept
        b = a * 10. ** ctx.rng.integers(-300, 300, n)
        b[ctx.rng.random(n) < .4] = ctx.choice([np.nan, np.inf, -np.inf, 5e-324, -0., 1.7e308])
        h = filt.new(ctx, kind, n, p, b.copy() if ctx.flip() else b.tolist(), via)
        core.identical("initial weights of unusual values", filt.weights(h), b)
    if isinstance(arg, np.ndarray):
        need(not np.shares_memory(f.w, arg), "filter keeps the array given for weights")
    s2 = np.random.get_state()
    need(st[1].tobytes() == s2[1].tobytes() and st[2:] == s2[2:], "creation with given weights drew random numbers")
    # reset by the public method
    ctx.call(f.adapt, 1., np.ones(n))
    f.w = ctx.call(f.init_weights, "zeros")
    core.compare("init_weights(zeros)", filt.weights(f), np.zeros(n), 0)
    # refusals
    for what, bad in (("unknown word", ctx.choice(["zero", "ones", "rand", "", "Zeros ", "randoms"])),
                      ("long array", np.zeros(n + ctx.irange(1, 3))), ("long list", [0.] * (n + 1)),
                      ("text in list", ["a"] * n), ("row matrix", np.ones((1, n))), ("row in list", [[0.] * n]),
                      ("column", np.zeros((n, 1))), ("columns in list", [[1.]] * n), ("nothing", None), ("one number", 1.),
                      ("square matrix", np.eye(n)), ("no weights", []), ("ragged list", [1.] * (n - 1) + [[1., 2.]])):
        ctx.rejects("%s(w=%s)" % (kind, what), ValueError, filt.cls(kind), n, w=bad)
    if n > 1:
        ctx.rejects("%s(w=short array)" % kind, ValueError, filt.cls(kind), n, w=np.zeros(n - 1))
        ctx.rejects("%s(w=short list)" % kind, ValueError, filt.cls(kind), n, w=[1.] * (n - 1))
    ctx.decisive(5)
    # random weights
    default = ctx.flip(.3)
    k = 40 if n < 10 else 10
    p.pop("mu", None)
    sd = ctx.irange(0, 2**31)
    np.random.seed(sd)
    smp = []
    for _ in range(k):
        f = ctx.call(filt.cls(kind), n, **p) if default else filt.new(ctx, kind, n, p, "random", via)
        smp.append(filt.weights(f))
        need(np.asarray(f.w).dtype == np.float64, "random weights are %s", np.asarray(f.w).dtype)
        need(smp[-1].shape == (n,), "random weights have shape %s", smp[-1].shape)
    z = np.concatenate(smp) / .5
    M = len(z)
    # false alarm below 1e-10: normal mean and chi square bounds at 6.7 sigma
    need(abs(z.mean()) < 6.7 / np.sqrt(M), "random weights: mean %.3f of %d", z.mean() * .5, M)
    need(abs((z * z).mean() - 1) < 6.7 * np.sqrt(2. / M) + 45. / M, "random weights: mean square %.3f of %d (0.25 expected)",
         (z * z).mean() * .25, M)
    need(np.max(np.abs(z)) < 7.5, "random weight %.3f", np.max(np.abs(z)) * .5)
    if n > 1:
        need(len(np.unique(smp[0])) == n, "random weights repeat within a filter")
        if k >= 40:
            joint(np.stack(smp) / .5)
    np.random.seed(sd)
    need(np.array_equal(filt.weights(filt.new(ctx, kind, n, p, "random", via)), smp[0]),
         "random weights do not come from the global generator")
    ctx.count("random_weights", M)
    ctx.sig.update(z.tobytes())


def joint(Z):
    """rows are normalised weights of filters created one after another: independent, no relation holds among them"""
    M, n = Z.shape
    t = np.arange(n)
    for what, v in (("sum", np.ones(n)), ("alternating sum", (-1.) ** t), ("slope", t - t.mean()),
                    ("sum of the first half", 1. * (t < (n + 1) // 2)), ("sum of the second half", 1. * (t >= n // 2))):
        if not np.any(v):
            continue
        s = Z @ v / np.sqrt(v @ v)
        q = float(s @ s)
        # chi square of M degrees, both tails at 1e-12 (Laurent and Massart); a relation makes it zero
        need(M - 2 * np.sqrt(M * 28) <= q <= M + 2 * np.sqrt(M * 28) + 56 and q > .02 * M,
             "random weights of %d filters of size %d: mean square of the %s is %.3g of its expectation", M, n, what, q / M)
    if M < 300:
        return
    tol = 7.5 / np.sqrt(M)
    c = Z.T @ Z / M
    need(np.max(np.abs(c - np.eye(n))) < 7.5 * np.sqrt(2. / M), "random weights are correlated (size %d): %.3f", n,
         np.max(np.abs(c - np.eye(n))))
    for lag in (1, 2, 3):
        c = Z[lag:].T @ Z[:-lag] / (M - lag)
        need(np.max(np.abs(c)) < tol, "random weights of filters created one after another are correlated: %.3f", np.max(np.abs(c)))
    q = np.sum(Z * Z, axis=1)
    need(.35 < q.var() / (2. * n) < 3., "random weights of size %d: variance of their energy is %.3g of its expectation", n,
         q.var() / (2. * n))
    need(abs(np.mean(Z ** 3)) < 7.5 * np.sqrt(15. / Z.size), "random weights are skew: %.3f", np.mean(Z ** 3))
    if n > 1:
        # no order within a filter
        first = np.mean(np.argmax(Z, axis=1) == 0)
        need(abs(first - 1. / n) < 7.5 * np.sqrt(1. / n / M), "the first of %d random weights is the biggest in %.3f of filters", n, first)


ALLZ = []


def case(ctx):
    if ctx.idx // 8 % 4 == 0:
        initial(ctx)
    else:
        histories(ctx)


def prelude(ctx):
    """pooled moments, much tighter than those of one case"""
    z = []
    for kind in filt.KINDS:
        for n in (1, 7, 300):
            f = ctx.call(filt.cls(kind), n, w="random")
            need(np.asarray(f.w).dtype == np.float64, "random weights are %s", np.asarray(f.w).dtype)
            z.append(filt.weights(f))
    for n in (20000,):
        for kind in ("LMS", "NLMS"):
            f = ctx.call(filt.cls(kind), n, w="random")
            need(np.asarray(f.w).dtype == np.float64, "random weights are %s", np.asarray(f.w).dtype)
            z.append(filt.weights(f))
    z = np.concatenate(z) / .5
    M = len(z)
    need(abs(z.mean()) < 6.7 / np.sqrt(M), "random weights: mean %.4f of %d", z.mean() * .5, M)
    need(abs(z.std() - 1) < 6.7 / np.sqrt(2 * M) + 20. / M, "random weights: deviation %.4f of %d", z.std() * .5, M)
    # tails and shape of the normal law (4th moment: variance 96/M)
    need(abs((z**4).mean() - 3) < 6.7 * np.sqrt(110. / M), "random weights: 4th moment %.3f", (z**4).mean())
    ctx.count("random_weights", M)
    ctx.decisive()
    for i, n in enumerate((1, 2, 5, 6, 17, 40)):
        kind = ctx.choice(filt.KINDS)
        Z = np.stack([filt.weights(filt.new(ctx, kind, n, dict(filt.DEFAULTS[kind]), "random") if i % 2 else
                                   ctx.call(filt.cls(kind), n, w="random")) for _ in range(400)]) / .5
        joint(Z)
        ctx.decisive()
        ctx.count("random_weights", Z.size)
