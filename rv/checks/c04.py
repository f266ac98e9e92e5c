"""C04: recursive least squares"""
import numpy as np

from .. import core, filt
from ..core import LD, Violation
from ._law import law_case

FILES = ["filters/"]
RULE = ("Random forgetting, initialisation, data and call history. Odd cases: every increment against the stateful long "
        "double recursion. Even cases: weights after chosen samples against the closed form weighted least squares "
        "solution (long double Cholesky), including noise-free identification.")
NEED = dict(decisive=1000, adapt_traces=20, run_traces=20, closed_forms=100)


def closed_form(ctx):
    c = filt.scenario(ctx, ["RLS"], hi=120, long=.01, wild=.3, nhi=10,
                      xstyle=ctx.choice(["gauss", "uniform", "ar", "sparse", "ints", "offset", "zerorows", "onehot",
                                         "signs", "outlier", "repeat", "history", "big", "small"]))
    if ctx.flip(.3):
        c.p["mu"] = float(ctx.choice([1., .9, .7, .5, .1]))
    sc = float(np.mean(np.sum(c.x * c.x, axis=1))) or 1.
    c.p["eps"] = sc * ctx.logu(1e-3, 10.) if ctx.flip(.7) else ctx.logu(1e-3, 1.)
    ctx.note(mu=c.p["mu"], eps=c.p["eps"])
    f = filt.build(ctx, c)
    mu, eps = LD(c.p["mu"]), LD(c.p["eps"])
    n, N = c.n, c.N
    P = eps * np.identity(n, dtype=LD)
    q = eps * c.w.astype(LD)
    cut = sorted(set(ctx.irange(1, N) for _ in range(4)) | {N})
    worst, amp, i = 1., 1., 0
    decided = 0
    for b in cut:
        filt.feed(ctx, f, c.d[i:b], c.x[i:b])
        w = filt.weights(f)
        for k in range(i, b):
            x = c.x[k].astype(LD)
            amp = max(amp, 1 + float(np.sum(x * filt.chol_solve(P, x)) / mu))
            P = mu * P + np.outer(x, x)
            q = mu * q + x * LD(c.d[k])
            if not 1e-200 < np.trace(P) < 1e200:
                worst = np.inf
                break
            ev = np.linalg.eigvalsh(P.astype(float))
            if not ev[0] > 0:
                worst = np.inf
            else:
                worst = max(worst, float(ev[-1] / ev[0]) * max(1., float(eps / ev[0]) * .01))
        i = b
        if not worst * amp < 1e8:
            ctx.count("illconditioned_skipped")
            break
        ref = filt.chol_solve(P, q)
        scale = max(float(np.max(np.abs(ref))), float(np.max(np.abs(c.w))),
                    float(np.max(np.abs(c.d[:b]))) / np.sqrt(sc))
        core.compare("RLS(mu=%g, eps=%g) weights after %d samples against weighted least squares" % (mu, eps, b),
                     w, ref, 1e-13 * (100 * worst + worst * amp) * scale * (1 + .1 * b))
        decided += 1
    if decided:
        ctx.decisive(decided)
        ctx.count("closed_forms", decided)


def case(ctx):
    if ctx.idx // 8 % 2:
        law_case(ctx, ["RLS"], hi=120, nhi=10)
    else:
        closed_form(ctx)
