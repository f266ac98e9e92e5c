"""reference model of the multilayer perceptron and generators of networks"""
import warnings

import numpy as np

from .. import core
from ..core import EPS, LD, need


def layout(ctx, wide=12):
    depth = ctx.choice([1, 1, 2, 2, 3, ctx.irange(1, 5)])
    hidden = [ctx.choice([1, 2, ctx.irange(1, 6), ctx.irange(1, wide)]) for _ in range(depth)]
    n, outs = ctx.choice([1, 2, ctx.irange(1, 8), ctx.irange(1, wide)]), ctx.choice([1, 1, 1, 2, 2, 3, ctx.irange(2, 5), ctx.irange(2, wide)])
    if ctx.flip(.12):
        # one wide place
        v, u = ctx.irange(wide, 5 * wide), ctx.irange(0, 2)
        if u == 0:
            hidden[ctx.irange(0, depth - 1)] = v
        elif u == 1:
            n = v
        else:
            outs = v
    if ctx.new_ints and ctx.flip(.3):
        # sizes near constants which are new in the code
        v = ctx.over(8, 200) or n
        u = ctx.irange(0, 2)
        if u == 0:
            hidden[ctx.irange(0, depth - 1)] = v
        elif u == 1:
            n = v
        else:
            outs = max(2, min(v, 60))
    return hidden, n, outs


def build(ctx, hidden, n, outputs, act, mu="auto"):
    NN = core.load().ann.NetworkMLP
    kw = dict(outputs=outputs, activation=act, mu=mu)
    if outputs == 1 and ctx.flip():
        del kw["outputs"]
    if act == "sigmoid" and ctx.flip():
        del kw["activation"]
    if mu == "auto" and ctx.flip():
        del kw["mu"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nn = ctx.call(NN, tuple(hidden) if ctx.flip(.2) else list(hidden), n, **kw)
    return nn


def weights(nn, hidden, n, outputs):
    """copies of all weights, checked for shape"""
    out = []
    m = n
    need(len(nn.layers) == len(hidden), "network has %d hidden layers, not %d", len(nn.layers), len(hidden))
    for i, h in enumerate(hidden):
        out.append(core.as_float("weights of layer %d" % i, nn.layers[i].w, (h, m + 1)).copy())
        m = h
    out.append(core.as_float("output weights", nn.w, (m + 1,) if outputs == 1 else (outputs, m + 1)).copy())
    return out


def put(nn, W):
    for i, w in enumerate(W[:-1]):
        nn.layers[i].w = w.copy()
    nn.w = W[-1].copy()


def data(ctx, N, n):
    r = ctx.rng
    u = ctx.irange(0, 11)
    x = r.normal(0, 1, (N, n))
    if u >= 10:
        # rows which resemble the previous one
        for k in range(1, N):
            b, i, t = x[k - 1].copy(), ctx.irange(0, n - 1), ctx.irange(0, 9)
            if t == 0:
                x[k, :i] = b[:i]
            elif t == 1:
                x[k, i:] = b[i:]
            elif t == 2:
                x[k], x[k, i] = b, x[k, i]
            elif t == 3:
                x[k] = r.permutation(b)
            elif t == 4:
                x[k] = -b
            elif t == 5:
                x[k] = b * ctx.choice([2., .5, -1.])
            elif t == 6:
                x[k] = np.roll(b, 1)
            elif t == 7:
                x[k] = b * r.choice([-1., 1.], n)
            elif t == 8:
                x[k] = b
    elif u == 0:
        x = r.integers(0, 2, (N, n))
    elif u == 1:
        x = r.integers(-3, 4, (N, n)).astype(float)
    elif u == 2:
        x = r.uniform(0, 1, (N, n))
    elif u == 3:
        x = x * 10. ** r.uniform(-4, 2, n)
    elif u == 4:
        x = x * (r.random((N, n)) < .4)
    elif u == 5:
        x = x * 100.
    elif u == 6:
        x = x.astype(np.float32)
    elif u == 7:
        x = x[r.integers(0, N, N) // 2]
    return x


def act(v, f):
    one = v.dtype.type(1)
    if f == "sigmoid":
        return one / (one + np.exp(-v))
    return np.tanh(v)


def forward(W, x, f, t=LD):
    """
    Documented forward pass, in precision t: activations of all layers (with
    bias in front), outputs, and bounds of their rounding in float64.
    """
    a = np.concatenate([[t(1)], np.asarray(x).astype(t)])
    err = np.zeros(len(a))
    acts, errs = [a], [err]
    for w in W[:-1]:
        wt = w.astype(t)
        s = wt @ a
        aw = np.abs(w)
        es = aw @ err + EPS * (len(a) + 3) * (aw @ np.abs(a).astype(float))
        g = act(s, f)
        slope = 0.25 if f == "sigmoid" else 1.
        a = np.concatenate([[t(1)], g])
        # slope of activation is at most `slope`; the formula of tanh has absolute rounding
        err = np.concatenate([[0.], np.minimum(slope * es, 2.) + 8 * EPS])
        acts.append(a)
        errs.append(err)
    w = np.atleast_2d(W[-1])
    y = w.astype(t) @ a
    ey = np.abs(w) @ err + EPS * (len(a) + 3) * (np.abs(w) @ np.abs(a).astype(float))
    return acts, errs, y, ey


def backward(W, acts, d, f, mu, n, y=None, t=LD):
    """weights after one step of gradient descent, and the error before it"""
    new = []
    a = acts[-1]
    w = np.atleast_2d(W[-1]).astype(t)
    y = w @ a if y is None else y
    e = np.atleast_1d(np.asarray(d)).astype(t) - y

    def rate(m):
        return t(1) / np.sqrt(t(m)) if isinstance(mu, str) else t(mu)
    new.append((w + rate(len(a) - 1) * np.outer(e, a)).reshape(np.shape(W[-1])))
    back = e @ w[:, 1:]
    for i in range(len(W) - 2, -1, -1):
        g = acts[i + 1][1:]
        slope = g * (1 - g) if f == "sigmoid" else 1 - g * g
        delta = slope * back
        w = W[i].astype(t)
        new.append(w + rate(len(acts[i]) - 1) * np.outer(delta, acts[i]))
        back = delta @ w[:, 1:]
    return new[::-1], e


def step_bound(W, acts, errs, ey, e, f, mu):
    """bounds of rounding of one step of learning in float64"""
    tol = []
    w = np.abs(np.atleast_2d(W[-1]))

    def rate(m):
        return m ** -.5 if isinstance(mu, str) else abs(mu)
    E = np.abs(e).astype(float)
    ee = np.atleast_1d(ey) + 2 * EPS * E
    A = np.abs(acts[-1]).astype(float)
    r = rate(len(A) - 1)
    tol.append((r * (np.outer(ee, A) + np.outer(E, errs[-1]) + 8 * EPS * np.outer(E, A)) + 4 * EPS * w).reshape(np.shape(W[-1])))
    B, eb = E @ w[:, 1:], ee @ w[:, 1:] + EPS * (len(E) + 3) * (E @ w[:, 1:])
    for i in range(len(W) - 2, -1, -1):
        g = np.abs(acts[i + 1][1:]).astype(float)
        eg = errs[i + 1][1:]
        slope = np.abs(g * (1 - g)) if f == "sigmoid" else np.abs(1 - g * g)
        es = 2 * eg + 4 * EPS
        D = slope * B
        ed = es * B + slope * eb + es * eb + 4 * EPS * D
        A = np.abs(acts[i]).astype(float)
        r = rate(len(A) - 1)
        w = np.abs(W[i])
        tol.append(r * (np.outer(ed, A) + np.outer(D, errs[i]) + np.outer(ed, errs[i]) + 8 * EPS * np.outer(D, A)) + 4 * EPS * w)
        B, eb = D @ w[:, 1:], ed @ w[:, 1:] + EPS * (len(D) + 3) * (D @ w[:, 1:])
    return [4 * v + 1e-290 for v in tol[::-1]]
