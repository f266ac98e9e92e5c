"""C31: copies and checkpoints of filters and networks"""
import copy
import pickle

import numpy as np

from .. import core, filt, fresh
from ..core import need
from . import _net

FILES = ["filters/", "ann/"]
RULE = ("Filters and networks with random histories are deep-copied or pickled (also restored in a fresh process) at random points; "
        "copy, original and an uninterrupted twin are continued with the same or with different data, in either order.")
NEED = dict(decisive=1000, deepcopies=50, pickles=50, fresh_processes=20, networks=20, disturbed=50)


def derived(kind):
    """class of a user, derived from a filter of the library"""
    name = "Mine_" + kind
    if name not in globals():
        base = filt.cls(kind)

        class Mine(base):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self.seen = [0]

            def learning_rule(self, e, x):
                self.seen[0] += 1
                return .5 * super().learning_rule(e, x)
        Mine.__name__ = Mine.__qualname__ = name
        globals()[name] = Mine
    return globals()[name]


def __getattr__(name):
    if name.startswith("Mine_"):
        return derived(name[5:])
    raise AttributeError(name)


def clone(ctx, obj):
    """(copy, how)"""
    u = ctx.irange(0, 4)
    if u == 0:
        ctx.count("deepcopies")
        return ctx.call(copy.deepcopy, obj), "deepcopy"
    if u == 1:
        ctx.count("deepcopies")
        a, b = ctx.call(copy.deepcopy, [obj, dict(f=obj)])
        need(a is b["f"], "deepcopy made two objects of one")
        return a, "deepcopy of a list"
    proto = ctx.choice([2, 4, 5, pickle.HIGHEST_PROTOCOL])
    ctx.count("pickles")
    return ctx.call(pickle.loads, ctx.call(pickle.dumps, obj, proto)), "pickle %d" % proto


def go_on(f, d, x, script):
    """continue a filter: (y, e, W0, W1) per sample"""
    N, n = x.shape
    y, e, A, B = np.zeros(N), np.zeros(N), np.zeros((N, n)), np.zeros((N, n))
    i = 0
    for what, m in script:
        if what == "run":
            a, b, W = f.run(d[i:i + m], x[i:i + m])
            y[i:i + m], e[i:i + m], A[i:i + m] = a, b, W
            B[i:i + m - 1], B[i + m - 1] = W[1:], f.w
        else:
            for k in range(i, i + m):
                A[k] = f.w
                f.adapt(d[k], x[k])
                B[k] = f.w
        i += m
    return y, e, A, B


def restored(data, d, x, script):
    return go_on(pickle.loads(data), d, x, script)


def plan(ctx, N):
    out, i = [], 0
    while i < N:
        m = ctx.irange(1, N - i)
        out.append((ctx.choice(["run", "adapt"]), m))
        i += m
    return out


def filters(ctx):
    big = ctx.flip(.06)
    c = filt.scenario(ctx, lo=2, hi=400, long=1., wild=.1, nhi=4) if big else filt.scenario(ctx, lo=2, hi=90, long=.03, wild=.2)
    N, n = c.N, c.n
    if c.kind == "AP" and ctx.flip(.3):
        c.p = dict(c.p, order=ctx.irange(15, 80))
    i = ctx.irange(0, N - 1) if not big else max(0, N - ctx.irange(1, 40))
    own = ctx.flip(.15)
    if own:
        def make():
            return ctx.call(derived(c.kind), c.n, w=c.w.copy(), **c.p)
        ctx.count("derived_classes")
    else:
        def make():
            return filt.new(ctx, c.kind, n, c.p, c.w, c.via)
    f, g = make(), make()
    past, future = plan(ctx, i) if not big or not i else [("run", i)], plan(ctx, N - i)
    ctx.count("after_long_batches", big)
    for h in (f, g):
        ctx.call(go_on, h, c.d[:i], c.x[:i], past)
    d, x = c.d[i:], c.x[i:]
    want = ctx.call(go_on, g, d, x, future)

    def twin():
        h = make()
        dd, xx = filt.jitter(ctx, c.d), filt.jitter(ctx, c.x)
        go_on(h, dd[:i], xx[:i], past)
        return go_on(h, dd[i:], xx[i:], future)

    def same(what, r):
        ctx.decisive(filt.same_traj(
            ctx, "%s %s at sample %d: %s" % (c.kind, c.p, i, what), want, r, [twin] * 2,
            about=lambda: filt.undecided(c.kind, c.p, want[2], x, d)))
    if ctx.flip(.15):
        same("pickle restored in a fresh process", fresh.run(ctx, restored, ctx.call(pickle.dumps, f), d, x, future))
        same("the original after pickle", ctx.call(go_on, f, d, x, future))
        return
    q, how = clone(ctx, f)
    need(type(q) is type(f) and q is not f, "%s of a filter is %r", how, type(q))
    if ctx.flip(.3):
        q, again = clone(ctx, q)
        how += ", " + again
    ctx.note(at=i, how=how)
    if own:
        need(q.seen == f.seen and q.seen is not f.seen, "%s of a filter of a derived class: attribute of the class is %s, %s in the original", how, q.seen, f.seen)
    need(np.array_equal(filt.weights(q), filt.weights(f), equal_nan=True), "%s of %s has other weights", how, c.kind)
    # the history of the last batch, which is an attribute of the filter as well
    hf, hq = getattr(f, "w_history", None), getattr(q, "w_history", None)
    if isinstance(hf, np.ndarray):
        need(isinstance(hq, np.ndarray) and np.array_equal(hf, hq, equal_nan=True), "%s of %s has another history of weights", how, c.kind)
        need(not np.shares_memory(hf, hq) or how == "original", "%s of %s shares the history of weights", how, c.kind)
        ctx.count("histories")
    u = ctx.irange(0, 2)
    other = ctx.rng.normal(0, 1, (5, n))
    if u == 0:
        # one is disturbed before the other continues
        ctx.count("disturbed")
        first, second = (q, f) if ctx.flip() else (f, q)
        ctx.call(go_on, first, np.arange(5.), other, plan(ctx, 5))
        first.w[...] = 0.
        same("%s, %s continued after other use of the %s" % (how, *(("original", "copy") if second is f else ("copy", "original"))),
             ctx.call(go_on, second, d, x, future))
    elif u == 1:
        same("copy by %s" % how, ctx.call(go_on, q, d, x, future))
        same("original after use of its copy by %s" % how, ctx.call(go_on, f, d, x, future))
    else:
        # alternately, in pieces
        k, R = 0, [[], []]
        for what, m in future:
            for j, h in enumerate((f, q)):
                R[j].append(ctx.call(go_on, h, d[k:k + m], x[k:k + m], [(what, m)]))
            k += m
        for j, who in enumerate(("original", "copy")):
            same("%s, %s used alternately" % (how, who), tuple(np.concatenate(v) for v in zip(*R[j])))


def train(nn, x, d, parts):
    """continue a network"""
    out = []
    for what, m in parts:
        if what == "train":
            e, mse = nn.train(x, d, epochs=m)
            out += [e, mse]
        elif what == "run":
            out += [nn.run(x), nn.test(x, d)]
        elif what == "update":
            out += [np.array(nn.update(d[m]))]
        else:
            for k in range(min(m, len(x))):
                out += [np.array(nn.predict(x[k])), np.array(nn.update(d[k]))]
    return out + [np.array(l.w) for l in nn.layers] + [np.array(nn.w)]


def restored_net(data, x, d, parts):
    return train(pickle.loads(data), x, d, parts)


def networks(ctx):
    hidden, n, outs = _net.layout(ctx, 8)
    mu = ctx.choice(["auto", .05, .2])
    act = ctx.choice(["sigmoid", "tanh"])
    nn = _net.build(ctx, hidden, n, outs, act, mu)
    N = ctx.irange(2, 20)
    x = ctx.rng.normal(0, 1, (N, n))
    d = ctx.rng.normal(0, 1, N if outs == 1 else (N, outs))
    W = _net.weights(nn, hidden, n, outs)
    ctx.note(net=hidden, n=n, outs=outs)
    ctx.digest(x, d)
    steps = [(ctx.choice(["train", "run", "online"]), ctx.irange(1, 3)) for _ in range(ctx.irange(0, 2))]
    ctx.call(train, nn, x, d, steps)
    parts = [(ctx.choice(["train", "run", "online"]), ctx.irange(1, 3)) for _ in range(ctx.irange(1, 3))]
    half = ctx.irange(0, N - 1) if ctx.flip(.35) else None
    if half is not None:
        # copied between predict and update
        ctx.call(nn.predict, x[half])
        parts = [("update", half)] + parts
        ctx.count("copied_within_step")

    def same(what, a, b):
        need(len(a) == len(b), "%s: %d results, %d expected", what, len(a), len(b))
        for u, v in zip(a, b):
            top = float(np.max(np.abs(u), initial=0))
            core.compare("network %s: %s" % (hidden, what), v, u, 1e-8 * top + 1e-300 if top < 1e6 else np.inf)
            ctx.decisive()
    if ctx.flip(.15):
        r = fresh.run(ctx, restored_net, ctx.call(pickle.dumps, nn), x, d, parts)
        same("pickle restored in a fresh process", ctx.call(train, nn, x, d, parts), r)
    else:
        q, how = clone(ctx, nn)
        need(type(q) is type(nn) and q is not nn, "%s of a network is %r", how, type(q))
        before = _net.weights(nn, hidden, n, outs)
        a = ctx.call(train, q, x, d, parts)
        for u, v in zip(before, _net.weights(nn, hidden, n, outs)):
            core.identical("network %s: weights of the original after use of its copy by %s" % (hidden, how), u, v)
        b = ctx.call(train, nn, x, d, parts)
        same("copy by %s and the original" % how, b, a)
        # the original never had a copy: the same from the initial weights
        t = _net.build(ctx, hidden, n, outs, act, mu)
        _net.put(t, W)
        ctx.call(train, t, x, d, steps)
        if half is not None:
            ctx.call(t.predict, x[half])
        same("original and a twin without copies (%s)" % how, ctx.call(train, t, x, d, parts), b)
    ctx.count("networks")


def case(ctx):
    fresh.start()
    (networks if ctx.flip(.2) else filters)(ctx)
