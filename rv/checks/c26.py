"""C26: network, forward pass"""
import copy

import numpy as np

from .. import core
from . import _net
from ..core import EPS, LD, Violation, need

FILES = ["ann/mlp.py"]
RULE = ("Networks of many layouts with initial, trained and injected weights; outputs of predict, run and test are compared "
        "with the documented forward pass (long double) with bounds of rounding; weights are compared before and after.")
NEED = dict(decisive=1000, rejections=200, trained=100, vector_out=100, same_rows=100, init_weights=1000)


def init_check(ctx, W, hidden, n):
    z = np.concatenate([(w * np.sqrt(m)).ravel() for w, m in zip(W, [n] + list(hidden))])
    N = len(z)
    ctx.count("init_weights", N)
    need(len(np.unique(z)) == N, "initial weights repeat")
    need(np.max(np.abs(z)) < 8.5, "initial weight %.3g standard deviations large", np.max(np.abs(z)))
    for w, m in zip(W, [n] + list(hidden)):
        s = (w * np.sqrt(m)).ravel()
        k = len(s)
        if k < 40:
            continue
        need(abs(s.mean()) * np.sqrt(k) < 7, "initial weights of node with %d inputs: mean %.3g of std", m, s.mean())
        # bound of chi-square by Laurent and Massart with failure 1e-12
        q = np.sum(s * s)
        lo, hi = k - 2 * np.sqrt(k * 28), k + 2 * np.sqrt(k * 28) + 56
        need(lo <= q <= hi, "initial weights of nodes with %d inputs: std %.4g, documented %.4g (%d weights)", m,
             np.sqrt(np.mean(w * w)), m ** -.5, k)


def same_size(ctx):
    """initial weights of many networks of one layout, node by node"""
    hidden, n, outs = _net.layout(ctx)
    hidden, n = [min(h, 6) for h in hidden], min(n, 8)
    if ctx.flip(.4):
        n = ctx.choice([1, 2])
    f = ctx.choice(["sigmoid", "tanh"])
    every = [_net.weights(_net.build(ctx, hidden, n, outs, f), hidden, n, outs) for _ in range(400)]
    for i, m in enumerate([n] + list(hidden)):
        s = np.stack([w[i].ravel() for w in every]) * np.sqrt(m)
        k = s.shape[0]
        need(np.max(np.abs(s.mean(axis=0))) * np.sqrt(k) < 7.5, "layer %d of networks %d-%s-%d: mean of an initial weight is %.3g of its std",
             i, n, hidden, outs, np.max(np.abs(s.mean(axis=0))))
        q = np.sum(s * s, axis=0)
        lo, hi = k - 2 * np.sqrt(k * 30), k + 2 * np.sqrt(k * 30) + 60
        need(lo <= q.min() and q.max() <= hi, "layer %d of networks %d-%s-%d: std of an initial weight %.4g..%.4g, documented %.4g", i, n,
             hidden, outs, np.sqrt(q.min() / k / m), np.sqrt(q.max() / k / m), m ** -.5)
        q, k = np.sum(s * s), s.size
        lo, hi = k - 2 * np.sqrt(k * 30), k + 2 * np.sqrt(k * 30) + 60
        need(lo <= q <= hi, "layer %d of networks %d-%s-%d: std of initial weights %.4g, documented %.4g", i, n, hidden, outs,
             np.sqrt(q / k / m), m ** -.5)
    ctx.digest(*every[0])
    ctx.count("init_weights", 400)
    ctx.decisive(len(hidden) + 1)


def case(ctx):
    r = ctx.rng
    if ctx.flip(.004):
        return same_size(ctx)
    hidden, n, outs = _net.layout(ctx)
    if ctx.flip(.03):
        hidden, n = [ctx.irange(10, 60), ctx.irange(10, 60)], ctx.irange(10, 80)
    f = ctx.choice(["sigmoid", "tanh"])
    nn = _net.build(ctx, hidden, n, outs, f)
    W = _net.weights(nn, hidden, n, outs)
    init_check(ctx, W, hidden, n)
    mode = ctx.choice(["initial", "trained", "injected"])
    N = ctx.choice([1, 2, ctx.irange(1, 12), ctx.irange(1, 40)])
    if ctx.flip(.015) and sum(hidden) < 20:
        N = ctx.over(40, 2000) or ctx.irange(40, 1100)
    x = _net.data(ctx, N, n)
    if mode == "trained":
        m = ctx.irange(1, 12)
        xt = _net.data(ctx, m, n)
        dt = r.normal(0, 1, m if outs == 1 else (m, outs))
        ctx.call(nn.train, xt, dt, epochs=ctx.irange(1, 3), shuffle=ctx.flip())
        ctx.count("trained")
    elif mode == "injected":
        s = 10. ** r.uniform(-3, 2)
        V = [r.normal(0, s, w.shape) * (r.random(w.shape) < .9) for w in W]
        if ctx.flip(.3):
            # inputs in other units
            c = 10. ** (r.uniform(-12, 12, n) if ctx.flip() else np.full(n, r.uniform(-12, 12)))
            V[0][:, 1:] /= c
            x = x * c
            ctx.count("units")
        _net.put(nn, V)
    W = _net.weights(nn, hidden, n, outs)
    if not all(np.all(np.isfinite(w)) for w in W) or max(np.max(np.abs(w)) for w in W) > 1e100:
        return
    ctx.note(hidden=hidden, n=n, outputs=outs, activation=f, mode=mode, N=N)
    ctx.digest(x, *W)
    ctx.kinds["%s %s" % (f, mode)] += 1
    if outs > 1:
        ctx.count("vector_out")
    ref, tol = np.empty((N, outs), LD), np.empty((N, outs))
    for k in range(N):
        _, _, ref[k], tol[k] = _net.forward(W, x[k], f)
    tol = 4 * tol + 1e-290
    if outs == 1:
        ref, tol = ref[:, 0], tol[:, 0]
    xin = x.tolist() if ctx.flip(.25) else x
    keep = x.copy()
    what = "%s network %s-%s-%d" % (f, n, hidden, outs)
    # sample after sample, in some order, rows repeated
    order = r.permutation(np.concatenate([np.arange(N), r.integers(0, N, ctx.irange(0, 5))]))
    got = {}
    for k in order:
        row = x[k].tolist() if ctx.flip(.2) else x[k]
        y = core.as_float("predict", ctx.call(nn.predict, row), ref[0].shape)
        core.compare("predict of %s" % what, y, ref[k], tol[k])
        y = y.copy()
        if k in got:
            core.compare("predict of the same row again, %s" % what, y, got[k], tol[k])
        got[k] = y
        ctx.decisive()
    if ctx.flip(.4):
        N2 = ctx.irange(0, 3)  # results which were returned stay as they were
        y1 = ctx.call(nn.predict, x[0])
        c1 = np.copy(y1)
        for k in range(N2):
            ctx.call(nn.predict, r.normal(0, 1, n))
        core.identical("value returned by predict, after next predict", y1, c1)
    run = core.as_float("run", ctx.call(nn.run, xin), ref.shape)
    core.compare("run of %s" % what, run, ref, tol)
    ctx.decisive(N)
    d = r.normal(0, 1, ref.shape) * ctx.choice([1., 1., 100.])
    if ctx.flip(.3):
        d = np.round(d).astype(int)
    err = core.as_float("test", ctx.call(nn.test, xin, d), ref.shape)
    core.compare("test of %s" % what, err, d.astype(LD) - ref, tol + 4 * EPS * (np.abs(d) + np.abs(ref).astype(float)))
    ctx.decisive(N)
    if N > 1:
        p = r.permutation(N)
        again = core.as_float("run", ctx.call(nn.run, x[p]), ref.shape)
        core.compare("run of permuted rows, %s" % what, again, run[p], 2 * tol[p])
        ctx.count("same_rows")
    for i, (a, b) in enumerate(zip(_net.weights(nn, hidden, n, outs), W)):
        core.identical("weights of layer %d after predict, run and test" % i, a, b)
    core.identical("x after predict, run and test", x, keep)
    if ctx.flip(.3):
        name = ctx.choice(["relu", "Sigmoid", "TANH", "", None, "sigmoid ", "linear", 1, "tan"])
        ctx.rejects("activation %r" % (name,), ValueError, core.load().ann.NetworkMLP, hidden, n, outputs=outs, activation=name)
        mu = ctx.choice(["abc", None, [.1, .2], "", {}])
        ctx.rejects("mu %r" % (mu,), ValueError, core.load().ann.NetworkMLP, hidden, n, outputs=outs, activation=f, mu=mu)
        u = ctx.irange(0, 5)
        if u == 0:
            bad = x, d[:-1] if ctx.flip() else np.concatenate([d, d])
        elif u == 1:
            bad = x, np.concatenate([d, d[:1]])
        elif u == 2:
            bad = np.hstack([x, x[:, :1]]), d
        elif u == 3 and n > 1:
            bad = x[:, :-1], d
        elif u == 4:
            bad = x, (d[:, None] if outs == 1 else np.hstack([d, d[:, :1]]))
        else:
            bad = x, (np.stack([d, d], 1) if outs == 1 else (d[:, 0] if ctx.flip() else d[:, :-1]))
        fn = ctx.choice([nn.test, nn.train])
        ctx.rejects("%s with x of %s and d of %s, %s" % (fn.__name__, bad[0].shape, bad[1].shape, what), ValueError, fn, *bad)
        for a, b in zip(_net.weights(nn, hidden, n, outs), W):
            core.identical("weights after a refused call", a, b)
