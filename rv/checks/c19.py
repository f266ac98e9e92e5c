"""C19: Learning Entropy"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need
from . import _hist

FILES = ["detection/le.py"]
RULE = ("Histories of weights made at random and recorded from filters, random windows, orders and sensitivities (exact ties "
        "included); every row is compared with the definition in long double, intervals where rounding decides a tie.")
NEED = dict(decisive=1000, direct=60, multiscale=60, exact_ties=50, offset_pairs=30)


def increments(w, order):
    """(|differences|, rounding bound); the first `order` rows hold nan"""
    wl = w.astype(LD)
    dw = np.full(w.shape, LD(np.nan))
    dw[order:] = np.abs(np.diff(wl, n=order, axis=0))
    one = np.abs(np.diff(wl, axis=0))
    top = one.max(axis=0, initial=0)
    noise = EPS * (2. ** order) * top * (order > 1) + EPS * np.where(np.isnan(dw), 0, dw)
    return dw, noise


def evaluate(dw, noise, m, alphas, rows):
    """
    Interval [lo, hi] of the result for given rows. dw must be defined in the
    windows of these rows.
    """
    n = dw.shape[1]
    lo, hi, ties = [], [], 0
    i = 0
    while i < len(rows):
        # rows with windows of the same length, together
        L = rows[i][0] - rows[i][1]
        j, most = i, max(1, 10 ** 6 // (n * max(L, 1)))
        while j < len(rows) and j - i < most and rows[j][0] - rows[j][1] == L:
            j += 1
        k, a = np.array(rows[i:j]).T
        part = evaluate_rows(dw, noise, m, alphas, k, a, L)
        lo.append(part[0])
        hi.append(part[1])
        ties += part[2]
        i = j
    return np.concatenate(lo), np.concatenate(hi), ties


def evaluate_rows(dw, noise, m, alphas, k, a, L):
    n = dw.shape[1]
    win = np.lib.stride_tricks.sliding_window_view(dw, L, axis=0)[a]        # rows, weights, samples
    mean = win.mean(axis=2)
    std = np.sqrt(((win - mean[:, :, None]) ** 2).mean(axis=2))
    top = np.maximum(np.abs(win).max(axis=2), np.abs(dw[k]))
    dm = np.lib.stride_tricks.sliding_window_view(noise, L + 1, axis=0)[a].max(axis=2) + 2 * (m + 2) * EPS * top
    if alphas is None:
        dev = dw[k] - mean
        c = []
        for s in (-1, 1):
            for t in (-1, 1):
                for r in (1e-13, 1e-8):
                    num, den = dev + s * 2 * dm, std + t * 2 * dm + r
                    c.append(np.where(den > 0, num / den, np.inf * np.sign(num)))
        low, high = np.min(c, axis=0), np.max(c, axis=0)
        w_ = 1e-9 * np.maximum(np.abs(low), np.abs(high))
        w_ = np.where(np.isfinite(w_), w_, 0)
        return np.asarray(low - w_, LD), np.asarray(high + w_, LD), 0
    low, high, ties = np.zeros(len(k)), np.zeros(len(k)), 0
    for al in alphas:
        t, u = dw[k], mean * LD(al)
        d = dm * (1 + abs(al)) + 4 * EPS * np.abs(u)
        exact = (t == u) & (dm == 0)
        low += np.sum(t > u + d, axis=1)
        high += np.sum((t > u - d) & ~exact, axis=1)
        ties += int(np.sum(t == u))
    return np.asarray(low / (n * len(alphas)), LD), np.asarray(high / (n * len(alphas)), LD), ties


def inside(obs, lo, hi):
    obs = np.asarray(obs, LD)
    return (obs >= lo - 1e-12) & (obs <= hi + 1e-12) | (obs == lo) | (obs == hi)


def show(m, order, alphas):
    return "LE(m=%d, order=%d, alpha=%s)" % (m, order, alphas)


def judge(ctx, w, m, order, alphas, obs, dyadic):
    N, n = w.shape
    what = show(m, order, alphas)
    core.identical("%s: first m rows" % what, obs[:m], np.zeros_like(obs[:m]))
    if alphas is not None:
        need(np.all((obs >= 0) & (obs <= 1)), "%s: value outside of [0, 1]", what)
    else:
        need(np.all(np.isfinite(obs)), "%s: not finite", what)
    dw, noise = increments(w, order)
    if dyadic:
        noise = np.zeros_like(noise)
    m0 = m + order

    def ev(d, rows):
        """dyadic data are evaluated without rounding, ties count as not exceeding"""
        if not rows:
            return np.zeros((0,) + obs.shape[1:], LD), np.zeros((0,) + obs.shape[1:], LD), 0
        if dyadic and alphas is not None:
            lo, ties = [], 0
            for k, a in rows:
                mean = d[a:k].mean(axis=0)
                lo.append(sum(int(np.sum(d[k] > mean * LD(al))) for al in alphas) / (n * len(alphas)))
                ties += sum(int(np.sum(d[k] == mean * LD(al))) for al in alphas)
            return np.array(lo, LD), np.array(lo, LD), ties
        return evaluate(d, noise, m, alphas, rows)
    rows = [(k, k - m) for k in range(m0, N)]
    lo, hi, ties = ev(dw, rows)
    if rows:
        ok = inside(obs[m0:], lo, hi)
        if not ok.all():
            at = np.argwhere(~ok)[0]
            raise Violation("%s: row %d%s is %.12g, definition gives %.12g..%.12g" % (
                what, at[0] + m0, "" if obs.ndim == 1 else ", weight %d" % at[1], obs[m0:][tuple(at)],
                lo[tuple(at)], hi[tuple(at)]))
        ctx.decisive(len(rows))
        ctx.count("exact_ties" if dyadic else "near_ties", ties)
    # rows whose window reaches the raw weights
    part = list(range(m, min(m0, N)))
    if not part:
        return
    got = obs[part]
    raw, zero = dw.copy(), dw.copy()
    raw[:order] = w[:order]
    zero[:order] = 0
    good = [np.all(got == 0)]
    for d, rr in ((zero, [(k, k - m) for k in part]), (dw, [(k, max(k - m, order)) for k in part])):
        if all(a < k for k, a in rr):
            l, h, _ = ev(d, rr)
            good.append(bool(inside(got, l, h).all()))
    l, h, _ = ev(raw, [(k, k - m) for k in part])
    if any(good):
        ctx.count("first_rows_as_defined")
    elif inside(got, l, h).all():
        ctx.finding("le-first-increments", "rows %s use the raw initial weights as increments" % part)
    else:
        raise Violation("%s: rows %s are %s, neither the definition nor the listed finding (%s..%s)" % (
            what, part, core.short(got.tolist()), core.short(l.astype(float).tolist()), core.short(h.astype(float).tolist())))
    ctx.decisive(len(part))


def case(ctx):
    pa = core.load()
    le = pa.detection.learning_entropy
    n, N = ctx.choice([1, 2, 3, filt.size(ctx, 20)]), filt.length(ctx, 2, 160, .01)
    far = ctx.flip(.03)
    if far:
        n, N = ctx.choice([1, 2, 3]), ctx.irange(150, 1500)
    order = ctx.choice([1, 1, 1, 2, 2, 3, 4, 6])
    order = min(order, N - 1)
    dyadic = ctx.flip(.25)
    m = ctx.choice([1, 2, 4, 8, 16, 32]) if dyadic else ctx.choice([10, 1, 2, 3, 5, 20, 100, ctx.irange(1, max(1, N)), N + 3])
    if far:
        m = 2 ** ctx.irange(5, 9) if dyadic else ctx.irange(N // 8, N)
    if dyadic:
        w = np.cumsum(ctx.rng.integers(-3, 4, (N, n)), axis=0) * 2. ** ctx.irange(-10, 10)
        if ctx.flip(.3):
            w[ctx.irange(0, N - 1):] = 0
    else:
        w, _ = _hist.history(ctx, N, n)
    kw = {}
    if m != 10 or ctx.flip():
        kw["m"] = m
    if order != 1 or ctx.flip():
        kw["order"] = order
    if ctx.flip(.45):
        alphas = None
        u = ctx.irange(0, 2)
        if u:
            kw["alpha"] = [False, []][u - 1]
        ctx.count("direct")
    else:
        if dyadic:
            alphas = [float(v) for v in ctx.rng.choice([0., .25, .5, 1., 1.5, 2., 3., 4., 8.], ctx.irange(1, 6))]
        else:
            alphas = [float(v) for v in ctx.rng.uniform(.1, 12, ctx.irange(1, 12))]
            if ctx.flip(.2):
                alphas = list(range(1, ctx.irange(2, 10)))
            elif ctx.flip(.15):
                alphas = [a * ctx.logu(1e-2, 1e4) for a in alphas]
        kw["alpha"] = ctx.choice([list, tuple, np.array])(alphas)
        ctx.count("multiscale")
    arg, cast, lw = forms.recast(ctx, w, arrays=False)
    if not dyadic:
        w = cast
        if alphas is not None and N > m + order and ctx.flip(.3):
            # sensitivities which are very near to the ratio of some increments and their means
            dw = np.abs(np.diff(w, n=order, axis=0))
            close = []
            for _ in range(ctx.irange(1, 4)):
                k, j = ctx.irange(m, len(dw) - 1), ctx.irange(0, n - 1)
                with np.errstate(all="ignore"):
                    q = dw[k, j] / dw[k - m:k, j].mean()
                if 1e-3 < q < 1e6:
                    close.append(float(q * (1 + ctx.choice([-1, 1]) * 10. ** -ctx.irange(4, 11))))
            if close:
                alphas = close + alphas[:ctx.irange(0, 2)]
                kw["alpha"] = ctx.choice([list, tuple, np.array])(alphas)
                ctx.count("close_sensitivities")
    elif not np.array_equal(cast, w):
        arg, lw = w, "float64"
    ctx.note(n=n, N=N, m=m, order=order, alpha=alphas, dyadic=dyadic, w=lw)
    ctx.digest(w)
    shape = (N, n) if alphas is None else (N,)
    if ctx.flip(.15):
        obs = ctx.call(le, arg, m, order, *([kw["alpha"]] if "alpha" in kw else []))
    else:
        obs = ctx.call(le, arg, **kw)
    obs = core.as_float("learning_entropy", obs, shape)
    judge(ctx, w, m, order, alphas, obs, dyadic)
    if ctx.flip(.4):
        # constant added to weights: nothing changes but the rows of the listed finding
        off = ctx.rng.integers(-8, 9, n) * (2. ** ctx.irange(-3, 3) if not dyadic else 2. ** ctx.irange(-8, 8))
        w2 = w + off
        obs2 = core.as_float("learning_entropy", ctx.call(le, w2, **kw), shape)
        judge(ctx, w2, m, order, alphas, obs2, dyadic)
        if dyadic:
            core.identical("%s: rows after constant was added" % show(m, order, alphas), obs2[m + order:], obs[m + order:])
        ctx.count("offset_pairs")
    if ctx.flip(.15) and np.all(np.isfinite(obs)):
        # one more weight, which is not a number: it is over nothing, the others are as without it
        j = ctx.irange(0, n)
        w3 = np.insert(w, j, ctx.choice([np.nan, np.inf, -np.inf]), axis=1)
        with np.errstate(all="ignore"):
            obs3 = np.asarray(ctx.call(le, w3, **kw), float)
        what = "%s with a weight which is not a number" % show(m, order, alphas)
        need(obs3.shape == ((N, n + 1) if alphas is None else (N,)), "%s: shape %s", what, obs3.shape)
        if alphas is None:
            core.compare(what, np.delete(obs3, j, axis=1), obs, 1e-9 * np.abs(obs) + 1e-9)
        else:
            k0 = m + order if dyadic else N
            if dyadic:
                core.compare(what, obs3[k0:], obs[k0:] * n / (n + 1), 1e-12)
            need(np.all((obs3 >= 0) & (obs3 <= n / (n + 1) + 1e-12)), "%s: value over %d/%d", what, n, n + 1)
        ctx.count("not_a_number")
    if alphas is not None and ctx.flip(.3):
        # order and repetition of sensitivities does not matter
        perm = [alphas[i] for i in ctx.rng.permutation(len(alphas))] * ctx.irange(1, 2)
        obs3 = core.as_float("learning_entropy", ctx.call(le, w, **dict(kw, alpha=perm)), shape)
        core.compare("%s with permuted sensitivities" % show(m, order, alphas), obs3, obs, 1e-12)
