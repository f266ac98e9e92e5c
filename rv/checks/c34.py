"""C34: network training can be split and does not depend on how nodes are numbered"""
import numpy as np

from .. import core, filt
from ..core import need
from . import _net

FILES = ["ann/"]
RULE = ("Networks of many layouts with given initial weights: one long training against the same training in parts, epoch by epoch, "
        "sample by sample and with inference between; networks with renumbered inputs, hidden nodes and outputs (data and weights "
        "renumbered), with joined or separate outputs, with negated nodes. Trajectories of errors and weights are mapped and compared.")
NEED = dict(decisive=1000, split=100, online=50, inference_between=50, renumbered=100, outputs=30, seeded_shuffle=30)


def settings(nn):
    """what was given at creation and training must not touch"""
    return [getattr(nn, k, None) for k in ("n_input", "outputs", "mu", "n_layers")] + [
        tuple(getattr(l, k, None) for k in ("mu", "n_input", "f")) for l in nn.layers]


def unstable(ctx):
    """settings stay what they were also in trainings which do not converge"""
    r = ctx.rng
    hidden, n, outs = _net.layout(ctx, 6)
    N = ctx.irange(2, 12)
    act, mu = ctx.choice(["sigmoid", "tanh"]), ctx.choice(["auto", .3, .8, 1.2, 2.])
    nn = _net.build(ctx, hidden, n, outs, act, mu)
    rate = hidden[-1] ** -.5 if mu == "auto" else mu
    x = r.normal(0, 1, (N, n))
    d = r.normal(0, ctx.choice([1., 3., 10.]), N if outs == 1 else (N, outs))
    ctx.note(hidden=hidden, n=n, outs=outs, N=N)
    ctx.digest(x, d)
    ctx.kinds["unstable"] += 1
    before = settings(nn)
    with np.errstate(all="ignore"):
        for _ in range(3):
            ctx.call(nn.train, x, d, epochs=ctx.irange(1, 8), shuffle=ctx.flip())
            need(settings(nn) == before, "settings of the network changed in training: %s, were %s", settings(nn), before)
            # one more step with the rates of the beginning
            if not all(np.all(np.isfinite(w)) for w in _net.weights(nn, hidden, n, outs)):
                break
            W = _net.weights(nn, hidden, n, outs)
            y = np.array(ctx.call(nn.predict, x[0]))
            inner = x[0]
            for w in W[:-1]:
                inner = w[:, 0] + w[:, 1:] @ inner
                inner = np.tanh(inner) if act == "tanh" else 1 / (1 + np.exp(-inner))
            inner = np.append(1., inner)
            e = d[0] - y
            ctx.call(nn.update, d[0])
            want = W[-1] + rate * (e * inner if outs == 1 else np.outer(e, inner))
            core.compare("output weights after one step of learning", _net.weights(nn, hidden, n, outs)[-1], want, 1e-9 * (1 + np.max(np.abs(want)) + np.max(np.abs(W[-1]))))
            ctx.decisive(2)
            ctx.count("unstable")


def case(ctx):
    core.load()
    if ctx.flip(.12):
        return unstable(ctx)
    r = ctx.rng
    hidden, n, outs = _net.layout(ctx, 8)
    act, mu = ctx.choice(["sigmoid", "tanh"]), ctx.choice(["auto", .05, .1, .02, .2])
    N, E = ctx.irange(2, 25), ctx.irange(1, 4)
    if ctx.flip(.1):
        N = ctx.over(2, 300) or ctx.irange(26, 150)
    elif ctx.flip(.06):
        N, E = ctx.irange(2, 6), ctx.irange(5, 60)
    x = r.normal(0, 1, (N, n)) if ctx.flip(.7) else r.integers(-2, 3, (N, n)).astype(float)
    d = r.normal(0, 1, N if outs == 1 else (N, outs))
    repeated = ctx.flip(.25)
    if repeated:
        # the same rows again and again
        rows = np.sort(r.integers(0, N, N)) if ctx.flip() else r.integers(0, min(N, 3), N)
        x, d = x[rows], d[rows]
    ctx.note(hidden=hidden, n=n, outs=outs, act=act, mu=mu, N=N, E=E)
    ctx.digest(x, d)

    def make(W=None, n=n, hidden=hidden, outs=outs):
        nn = _net.build(ctx, hidden, n, outs, act, mu)
        if W is not None:
            _net.put(nn, W)
        return nn
    a = make()
    W = _net.weights(a, hidden, n, outs)
    shape = (N * E,) if outs == 1 else (N * E, outs)
    e, mse = ctx.call(a.train, x, d, epochs=E)
    e, mse = core.as_float("errors", e, shape).copy(), core.as_float("mse", mse, (E,)).copy()
    Wa = _net.weights(a, hidden, n, outs)
    if not max([float(np.max(np.abs(w))) for w in Wa] + [float(np.max(np.abs(e)))]) < 1e3:
        ctx.count("diverged")
        return
    # how much this training amplifies rounding: the same with minimally perturbed data
    spread = 0.
    jit = filt.jitter_values if repeated else filt.jitter
    for _ in range(3):
        t = make(W)
        e1, m1 = t.train(jit(ctx, x), jit(ctx, d), epochs=E)
        spread = max([spread, float(np.max(np.abs(e1 - e))), float(np.max(np.abs(m1 - mse)))] + [
            float(np.max(np.abs(u - v))) for u, v in zip(_net.weights(t, hidden, n, outs), Wa)])
    if not spread < 1e-8:
        ctx.count("chaotic")
        return
    ctx.count("quiet")

    def close(what, a, b, gain=1.):
        a, b = np.asarray(a, float), np.asarray(b, float)
        top = float(np.max(np.abs(b), initial=0))
        core.compare(what, a, b, (1e-9 * gain + 1e4 * spread) * (top + 1e-2))

    close("mean squared error of epochs", mse, [np.sum(e[i * N:(i + 1) * N] ** 2) / N for i in range(E)])
    rel = ctx.choice(["split", "split", "online", "renumbered", "renumbered", "outputs", "seeded_shuffle", "split"])
    ctx.kinds[rel] += 1

    def same(what, nn, err, Wm=None, gain=1.):
        close("network %s, %d inputs, %d outputs: errors, %s" % (hidden, n, outs, what), err, e if rel != "outputs" else err, gain)
        for i, (u, v) in enumerate(zip(Wm if Wm is not None else _net.weights(nn, hidden, n, outs), Wa)):
            close("network %s, %d inputs, %d outputs: weights of layer %d after training, %s" % (hidden, n, outs, i, what), u, v, gain)
        ctx.decisive(len(Wa) + 1)

    if rel in ("split", "online"):
        b = make(W)
        between = ctx.flip(.5)
        err, k = [], 0
        total = N * E
        while k < total:
            i = k % N
            if rel == "split" and i == 0 and ctx.flip(.4):
                m = ctx.irange(1, E - k // N)
                r1, m1 = ctx.call(b.train, x, d, epochs=m)
                close("mean squared errors of a part", m1, mse[k // N:k // N + m])
                err.append(np.array(r1))
                k += m * N
            elif rel == "split" and ctx.flip(.8):
                m = ctx.irange(1, N - i)
                r1, m1 = ctx.call(b.train, x[i:i + m], d[i:i + m], epochs=1)
                err.append(np.array(r1))
                k += m
            else:
                y = ctx.call(b.predict, x[i])
                y = np.array(y)
                r1 = np.array(ctx.call(b.update, d[i]))
                close("error returned by update", r1, d[i] - y)
                err.append(r1[None])
                k += 1
            if between and ctx.flip(.5):
                p = ctx.irange(0, 2)
                j = ctx.irange(1, N)
                if p == 0:
                    ctx.call(b.run, x[:j])
                elif p == 1:
                    ctx.call(b.test, x[:j], d[:j])
                else:
                    ctx.call(b.predict, x[j - 1])
                ctx.count("inference_between")
        same("trained in parts" + (" with inference between" if between else ""), b, np.concatenate(err))
        ctx.count("split" if rel == "split" else "online")
    elif rel == "renumbered":
        sizes = [n] + list(hidden)
        perms = [r.permutation(s) if ctx.flip(.7) else np.arange(s) for s in sizes]
        signs = [np.ones(s) for s in sizes]
        signs[0] = r.choice([-1., 1.], n)
        if act == "tanh":
            # tanh is odd, a node can be negated with all what it receives and sends
            for i in range(1, len(sizes)):
                signs[i] = r.choice([-1., 1.], sizes[i])
        op = r.permutation(outs) if outs > 1 else None

        def renumber(V):
            out = []
            for i, w in enumerate(V):
                w = np.atleast_2d(w).copy()
                w[:, 1:] = (w[:, 1:] * signs[i])[:, perms[i]]
                if i < len(V) - 1:
                    w = (w * signs[i + 1][:, None])[perms[i + 1]]
                elif op is not None:
                    w = w[op]
                out.append(w.reshape(np.shape(V[i])))
            return out
        b = make(renumber(W))
        e1, m1 = ctx.call(b.train, (x * signs[0])[:, perms[0]], d if op is None else d[:, op], epochs=E)
        e2 = np.array(e1)
        Wb = _net.weights(b, hidden, n, outs)
        what = "inputs, nodes and outputs renumbered"
        close("network %s: errors, %s" % (hidden, what), e2, e if op is None else e[:, op], 10)
        close("network %s: mean squared error, %s" % (hidden, what), m1, mse, 10)
        for i, (u, v) in enumerate(zip(Wb, renumber(Wa))):
            close("network %s: weights of layer %d, %s" % (hidden, i, what), u, v, 10)
        close("network %s: outputs, %s" % (hidden, what), ctx.call(b.run, (x * signs[0])[:, perms[0]]),
              np.array(ctx.call(a.run, x)) if op is None else np.array(ctx.call(a.run, x))[:, op], 10)
        ctx.count("renumbered")
        ctx.decisive(len(Wa) + 2)
    elif rel == "outputs":
        # a network of more outputs computes what networks with each of the outputs alone do
        y = np.array(ctx.call(a.run, x)).reshape(N, -1)
        k = ctx.irange(2, 4)
        for j in range(outs):
            wj = np.atleast_2d(Wa[-1])[j]
            one = make(Wa[:-1] + [wj.copy()], outs=1)
            close("output %d of a network and network with this output alone" % j, ctx.call(one.run, x), y[:, j])
            more = make(Wa[:-1] + [np.tile(wj, (k, 1))], outs=k)
            z = core.as_float("outputs", ctx.call(more.run, x), (N, k))
            close("equal outputs of a network", z, np.tile(y[:, j:j + 1], (1, k)))
            ctx.decisive(2)
        ctx.count("outputs")
        # a dead output: weights zero and target zero changes nothing for the others
        b = make(W[:-1] + [np.vstack((np.atleast_2d(W[-1]), np.zeros(W[-1].shape[-1])))], outs=outs + 1)
        # its error has to stay zero, so the others are trained as before
        d2 = np.column_stack((d.reshape(N, -1), np.zeros(N)))
        e1, m1 = ctx.call(b.train, x, d2, epochs=E)
        e1 = core.as_float("errors", e1, (N * E, outs + 1))
        close("errors of a network with an idle output", e1[:, :outs], e.reshape(N * E, outs))
        close("error of the idle output", e1[:, outs], np.zeros(N * E))
        close("mean squared error with an idle output", m1, mse)
        ctx.decisive(3)
    else:
        s = ctx.irange(0, 2**31)
        res = []
        for _ in range(2):
            b = make(W)
            np.random.seed(s)
            e1, m1 = ctx.call(b.train, x, d, epochs=E, shuffle=True)
            res.append([np.array(e1), np.array(m1)] + _net.weights(b, hidden, n, outs))
        for u, v in zip(*res):
            core.identical("shuffled training repeated from the same seed", u, v)
        # earlier trainings are forgotten when weights are put back
        with np.errstate(all="ignore"):
            for _ in range(ctx.irange(1, 3)):
                ctx.call(b.train, x, d, epochs=ctx.irange(1, 3), shuffle=ctx.flip(.8))
        _net.put(b, W)
        np.random.seed(s)
        e1, m1 = ctx.call(b.train, x, d, epochs=E, shuffle=True)
        for u, v in zip(res[0], [np.array(e1), np.array(m1)] + _net.weights(b, hidden, n, outs)):
            core.identical("shuffled training from the same weights and seed after other training", v, u)
        if np.max(np.abs(res[0][0])) < 1e3:
            m1 = [np.sum(res[0][0][i * N:(i + 1) * N] ** 2) / N for i in range(E)]
            close("mean squared errors of shuffled training", res[0][1], m1)
        # rows which are all the same: shuffling changes nothing
        xx, dd = np.tile(x[:1], (N, 1)), np.repeat(d[:1], N, axis=0)
        b, c = make(W), make(W)
        e1, _ = ctx.call(b.train, xx, dd, epochs=E, shuffle=True)
        e2, _ = ctx.call(c.train, xx, dd, epochs=E)
        for u, v in zip(e1, e2):
            if not np.max(np.abs(v)) < 10:
                break
            core.compare("shuffled training with equal rows", u, v, 1e-6)
        ctx.count("seeded_shuffle")
        ctx.decisive(3)
