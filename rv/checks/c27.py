"""C27: network, learning"""
import numpy as np

from .. import core
from . import _net
from ..core import EPS, LD, Violation, need

FILES = ["ann/mlp.py"]
RULE = ("Networks of many layouts trained sample after sample (every update compared with gradient descent in long double "
        "from the observed weights) and by train (errors, order of samples and final weights compared with a reference "
        "trajectory; the order of shuffled samples is inferred from the errors, every sample used once per epoch).")
QUICK_S = 15
NEED = dict(big_shuffled=3, decisive=1000, updates=1000, epochs=300, shuffled_epochs=100, vector_out=50, long_orders=20, second_train=20)


def settings(ctx):
    hidden, n, outs = _net.layout(ctx, 8)
    f = ctx.choice(["sigmoid", "tanh"])
    mu = ctx.choice(["auto", "auto", .1, .01, 1., 1, ctx.logu(1e-4, 2.), 0., ctx.dict_float(1e-4, 2.) or .3])
    return hidden, n, outs, f, mu


def targets(ctx, N, outs, x):
    r = ctx.rng
    u = ctx.irange(0, 7)
    d = r.normal(0, 1, (N, outs))
    if u == 0:
        d = r.integers(0, 2, (N, outs))
    elif u == 1:
        d = np.tanh(x.astype(float) @ r.normal(0, 1, (x.shape[1], outs)))
    elif u == 2:
        d = d * 10.
    elif u == 3:
        d = d * 10. ** r.uniform(-6, 6)
    elif u == 4:
        d = d.astype(np.float32)
    elif u == 5:
        d = np.tile(d[:1], (N, 1))
    return d[:, 0].copy() if outs == 1 else d


def steps(ctx, nn, hidden, n, outs, f, mu, what):
    r = ctx.rng
    M = ctx.irange(1, 12) if ctx.flip(.96) else ctx.irange(50, 350)
    x = _net.data(ctx, M, n)
    d = targets(ctx, M, outs, x)
    ctx.digest(x, d)
    if ctx.flip(.3):
        s = 10. ** r.uniform(-2, 1)
        W = _net.weights(nn, hidden, n, outs)
        _net.put(nn, [r.normal(0, s, w.shape) for w in W])
    for k in range(M):
        W = _net.weights(nn, hidden, n, outs)
        if max(np.max(np.abs(w)) for w in W) > 1e60:
            return
        acts, errs, y, ey = _net.forward(W, x[k], f)
        new, e = _net.backward(W, acts, d[k], f, mu, n)
        tol = _net.step_bound(W, acts, errs, ey, e, f, mu)
        if ctx.flip(.2):
            ctx.call(nn.predict, r.normal(0, 1, n))
        ctx.call(nn.predict, x[k].tolist() if ctx.flip(.2) else x[k])
        if ctx.flip(.3):
            ctx.call(nn.predict, x[k])
        dk = d[k]
        if outs > 1 and ctx.flip(.2):
            dk = dk.tolist()
        got = core.as_float("update", ctx.call(nn.update, dk), () if outs == 1 else (outs,))
        core.compare("error returned by update, %s" % what, np.atleast_1d(got), e, 4 * np.atleast_1d(ey) + 4 * EPS * np.abs(e).astype(float) + 1e-290)
        for i, (a, b, t) in enumerate(zip(_net.weights(nn, hidden, n, outs), new, tol)):
            core.compare("%s weights after a step of learning (layer %d), step %d" % (what, i, k), a, b, t)
        ctx.count("updates")
        ctx.decisive()


class Traj:
    """trajectory of gradient descent in two precisions"""

    def __init__(self, W, f, mu, n):
        self.W = {LD: [w.astype(LD) for w in W], np.float64: [w.copy() for w in W]}
        self.f, self.mu, self.n = f, mu, n
        self.noise = np.random.Generator(np.random.PCG64(len(W))).choice([-1., 1.], 200)

    def error(self, x, d):
        """error at the current weights and its uncertainty"""
        out = []
        for t in (LD, np.float64):
            a = np.concatenate([[t(1)], np.asarray(x).astype(t)])
            for w in self.W[t][:-1]:
                a = np.concatenate([[t(1)], _net.act(w @ a, self.f)])
            out.append(np.atleast_1d(np.asarray(d)).astype(t) - np.atleast_2d(self.W[t][-1]) @ a)
        top = float(np.sum(np.abs(np.atleast_2d(self.W[LD][-1]))))
        tol = 1e3 * np.max(np.abs(out[0] - out[1])) + 1e-12 * (top + float(np.max(np.abs(np.asarray(d, float)))) + 1)
        return out[0], float(tol)

    def step(self, x, d):
        for t in (LD, np.float64):
            W = self.W[t]
            acts = [np.concatenate([[t(1)], np.asarray(x).astype(t)])]
            for w in W[:-1]:
                g = _net.act(w @ acts[-1], self.f)
                if t is np.float64:
                    # other formulas of the activation have other rounding
                    g = g + self.noise[:len(g)] * 4 * EPS
                acts.append(np.concatenate([[t(1)], g]))
            self.W[t], _ = _net.backward(W, acts, d, self.f, self.mu, self.n, t=t)

    def finite(self):
        return all(np.all(np.isfinite(w)) and np.max(np.abs(w)) < 1e4 for w in self.W[np.float64])


def sampled(ctx, nn, hidden, n, outs, N, what):
    """every sample is used exactly once per epoch, targets of samples tell them apart"""
    r = ctx.rng
    N = min(N, 1500)
    x = r.normal(0, 1, (N, n))
    d = 1e6 * (np.arange(N) + 1.)
    _net.put(nn, [np.zeros(w.shape) for w in _net.weights(nn, hidden, n, outs)])
    # learning so small that predictions stay far below the distance of targets
    nn.mu = 1e-20
    t = d if outs == 1 else np.stack([d] + [r.normal(0, 1, N)] * (outs - 1), 1)
    epochs = ctx.irange(1, 3)
    e, _ = ctx.call(nn.train, x, t, epochs=epochs, shuffle=True)
    e = np.reshape(e, (epochs * N, outs))[:, 0].reshape(epochs, N)
    prev = np.arange(N)
    for ep in range(epochs):
        order = np.rint(e[ep] / 1e6).astype(int) - 1
        need(np.max(np.abs(e[ep] / 1e6 - order - 1)) < .1, "%s errors of train are far from targets", what)
        need(np.array_equal(np.sort(order), np.arange(N)), "%s train with shuffle of %d samples: epoch %d uses %d different samples "
             "(repeated: %s)", what, N, ep, len(set(order.tolist())), sorted(order.tolist())[:20])
        for base in (prev, np.arange(N)):
            kept = int(np.sum(order == base))
            at = np.empty(N, int)
            at[base] = np.arange(N)
            step = np.abs(np.diff(at[order]))
            near = int(np.sum((step == 1) | (step == N - 1)))
            need(kept < 17 and near < 19, "%s train with shuffle: %d of %d samples keep their place and %d neighbours in epoch %d",
                 what, kept, N, near, ep)
        prev = order
    ctx.count("big_shuffled")
    ctx.decisive(epochs)


def train(ctx, nn, hidden, n, outs, f, mu, what):
    r = ctx.rng
    shuffle = ctx.flip(.6)
    u = ctx.irange(0, 3)
    N = ctx.irange(20, 40) if u == 0 else ctx.irange(1, 4) if u == 1 else ctx.irange(1, 16)
    epochs = ctx.choice([1, 2, 3, ctx.irange(1, 6)])
    if ctx.flip(.12):
        epochs, N = (ctx.irange(7, 40), ctx.irange(1, 4)) if ctx.flip(.7) else (ctx.irange(41, 150), ctx.irange(1, 2))
    big = ctx.over(40, 1500) if ctx.flip(.2) else ctx.irange(50, 600) if ctx.flip(.02) else None
    if big and not shuffle:
        epochs, N = 1, big
    if big and shuffle:
        # distinct samples, small outputs of the network keep the errors of samples apart
        return sampled(ctx, nn, hidden, n, outs, big, what)
    default = not ctx.thorough and ctx.flip(.08)
    if default:
        epochs, N = 10, min(N, 8)
    rounds = 1 + ctx.flip(.25)
    if not default and not big and ctx.flip(.04):
        # learning by many short trainings
        rounds, N, epochs = ctx.irange(50, 330), ctx.irange(1, 2), 1
    last = None
    for rnd in range(rounds):
        x = _net.data(ctx, N, n)
        if shuffle and ctx.flip(.7):
            x = r.normal(0, 1, (N, n))
        if last is not None and ctx.flip(.3):
            # the same inputs again
            x = last
        last = x
        d = targets(ctx, N, outs, x)
        ctx.digest(x, d)
        keep = x.copy(), d.copy()
        W = _net.weights(nn, hidden, n, outs)
        ref = Traj(W, f, mu, n)
        kw = {} if default else dict(epochs=epochs)
        if shuffle or ctx.flip():
            kw["shuffle"] = shuffle
        xin = x.tolist() if ctx.flip(.2) else x
        pos = ()
        if "epochs" in kw and ctx.flip(.3):
            pos = (kw.pop("epochs"),) + ((kw.pop("shuffle"),) if "shuffle" in kw and ctx.flip() else ())
        e, mse = ctx.call(nn.train, xin, d, *pos, **kw)
        core.identical("inputs after train", x, keep[0])
        core.identical("targets after train", d, keep[1])
        E = epochs * N
        e = core.as_float("errors of train", e, (E,) if outs == 1 else (E, outs))
        mse = core.as_float("MSE of train", mse, (epochs,))
        er = e.reshape(E, outs)
        if not np.all(np.isfinite(er)):
            return
        sq = np.array([np.sum(er[i * N:(i + 1) * N].astype(LD) ** 2) / N for i in range(epochs)])
        core.compare("mean squared errors of epochs, %s" % what, mse, sq, (N * outs + 8) * EPS * np.abs(sq))
        ctx.count("epochs", epochs)
        ctx.decisive(epochs)
        prev = np.arange(N)
        for ep in range(epochs):
            left, order = list(range(N)), []
            for k in range(N):
                o = er[ep * N + k]
                if not ref.finite():
                    return
                if not shuffle:
                    j = k
                    want, tol = ref.error(x[j], d[j])
                    if tol > 1e-3 * (1 + np.max(np.abs(want))):
                        ctx.count("chaotic")
                        return
                    core.compare("%s: error of sample %d in epoch %d of train" % (what, k, ep), o, want, tol)
                else:
                    cand = []
                    worst = 0.
                    for j in left:
                        want, tol = ref.error(x[j], d[j])
                        worst = max(worst, tol / (1e-3 * (1 + np.max(np.abs(want)))))
                        gap = float(np.max(np.abs(o - want)))
                        if gap <= tol:
                            cand.append((gap, j))
                    if worst > 1:
                        ctx.count("chaotic")
                        return
                    need(cand, "%s: error %s of step %d in epoch %d of train with shuffle is not that of any sample which is "
                         "still to be used in this epoch", what, o.tolist(), k, ep)
                    cand.sort()
                    j = cand[0][1]
                    if any(not (np.array_equal(x[i], x[j]) and np.array_equal(d[i], d[j])) for _, i in cand):
                        ctx.count("ambiguous_orders")
                        return
                    left.remove(j)
                order.append(j)
                ref.step(x[j], d[j])
                ctx.decisive()
            if shuffle:
                ctx.count("shuffled_epochs")
                same = np.any([np.array_equal(x[a], x[b]) and np.array_equal(np.atleast_1d(d[a]), np.atleast_1d(d[b]))
                               for a in range(N) for b in range(a)])
                if N >= 20 and not same:
                    ctx.count("long_orders")
                    o = np.array(order)
                    # number of neighbours and positions kept is about Poisson(1) or (2) for a random order
                    kept = int(np.sum(o == prev)), int(np.sum(o == np.arange(N)))
                    at = np.empty(N, int)
                    at[prev] = np.arange(N)
                    step = np.abs(np.diff(at[o]))
                    near = int(np.sum((step == 1) | (step == N - 1)))
                    need(max(kept) < 17, "train with shuffle: %d of %d samples keep their place in epoch %d", max(kept), N, ep)
                    need(near < N - 1 and near < 19, "train with shuffle: %d of %d neighbours stay neighbours in epoch %d", near, N, ep)
                    prev = o
        for i, (a, b, c) in enumerate(zip(_net.weights(nn, hidden, n, outs), ref.W[LD], ref.W[np.float64])):
            core.compare("%s weights after train, layer %d" % (what, i), a, b,
                         1e3 * np.max(np.abs(b - c)).astype(float) + 1e-11 * (1 + np.max(np.abs(b)).astype(float)))
        ctx.decisive()
        ctx.count("second_train", rnd)


def case(ctx):
    hidden, n, outs, f, mu = settings(ctx)
    nn = _net.build(ctx, hidden, n, outs, f, mu)
    ctx.note(hidden=hidden, n=n, outputs=outs, activation=f, mu=mu)
    ctx.kinds["%s mu %s" % (f, "auto" if isinstance(mu, str) else "given")] += 1
    if outs > 1:
        ctx.count("vector_out")
    what = "%s network %s-%s-%d with mu=%s:" % (f, n, hidden, outs, mu)
    if ctx.flip(.5):
        steps(ctx, nn, hidden, n, outs, f, mu, what)
    else:
        train(ctx, nn, hidden, n, outs, f, mu, what)
