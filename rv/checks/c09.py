"""C09: ownership of data"""
import numpy as np

from .. import core, filt
from ..core import Violation, need

FILES = [""]
RULE = ("Every public function, filter and the network called with byte-digested, partly read-only arguments; arguments are "
        "overwritten right after the call (reused buffers) and results are overwritten, an undisturbed twin shows what "
        "has to happen.")
NEED = dict(decisive=1000, arguments=1000, readonly=100, reused_buffer=100, scribbled_results=50, function_calls=100,
            mlp=10)


class Guard:
    """remember bytes of arguments and verify them after the call"""

    def __init__(self, ctx, **args):
        self.ctx = ctx
        self.args = args
        self.keep = {k: self.digest(v) for k, v in args.items()}
        self.locked = []
        for k, v in args.items():
            if isinstance(v, np.ndarray) and v.flags.writeable and ctx.flip(.5):
                v.flags.writeable = False
                self.locked.append(v)
                ctx.count("readonly")

    @staticmethod
    def digest(v):
        if isinstance(v, np.ndarray):
            return (v.shape, v.dtype.str, v.strides, v.tobytes())
        return repr(v)

    def verify(self, what):
        for k, v in self.args.items():
            if self.digest(v) != self.keep[k]:
                raise Violation("%s changed its argument %s" % (what, k))
            self.ctx.count("arguments")
            self.ctx.decisive()
        for v in self.locked:
            v.flags.writeable = True


def scribble(ctx, *arrays):
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            a[...] = ctx.choice([np.nan, 1e9, -7, 0]) if a.dtype.kind == "f" else ctx.choice([7, 0])
        elif isinstance(a, list):
            for i in range(len(a)):
                if isinstance(a[i], list):
                    scribble(ctx, a[i])
                else:
                    a[i] = 1e9


def laid_out(ctx, a):
    """same numbers in another memory layout"""
    u = ctx.rng.random()
    if u < .4:
        return np.array(a, order="C")
    if u < .55:
        return np.array(a, order="F")
    if u < .7 and a.ndim == 2:
        big = np.full((a.shape[0] * 2, a.shape[1] + 3), 5.)
        v = big[::2, 1:1 + a.shape[1]]
        v[...] = a
        return v
    if u < .8:
        big = np.full((2 * a.shape[0],) + a.shape[1:], 5.)
        v = big[::2]
        v[...] = a
        return v
    if u < .9:
        return a[::-1].copy()[::-1]
    return a.tolist()


def filters(ctx):
    c = filt.scenario(ctx, hi=60, wild=.1)
    N, n = c.N, c.n
    wa = c.w.copy()
    g0 = Guard(ctx, w=wa)
    f = filt.new(ctx, c.kind, n, c.p, wa, c.via)
    g0.verify("constructor of %s" % c.kind)
    scribble(ctx, wa)
    t = filt.new(ctx, c.kind, n, c.p, c.w.copy(), c.via)
    core.identical("weights after the array given to constructor is overwritten", filt.weights(f), c.w)
    same = [()]
    what = []
    i, obs, ref = 0, [], []
    buf = np.zeros(n)
    old = []
    held = []
    while i < N:
        u = ctx.irange(0, 3)
        if u <= 1:
            m = ctx.irange(1, min(N - i, 12))
            for k in range(i, i + m):
                if ctx.flip(.4):
                    buf[...] = c.x[k]
                    g1 = Guard(ctx, x=buf)
                    yp = ctx.call(f.predict, buf)
                    g1.verify("predict")
                    scribble(ctx, buf)
                    t.predict(c.x[k].copy())
                    held.append((yp, float(yp)))
                if u == 0:
                    # one buffer for all samples
                    buf[...] = c.x[k]
                    arg, dd = buf, c.d[k]
                else:
                    arg, dd = laid_out(ctx, c.x[k]), np.array(c.d[k]) if ctx.flip(.2) else c.d[k]
                    if not isinstance(arg, (list, np.ndarray)):
                        arg = np.array(c.x[k])
                g1 = Guard(ctx, x=arg, d=dd)
                ctx.call(f.adapt, dd, arg)
                g1.verify("adapt")
                scribble(ctx, arg, dd)
                ctx.count("reused_buffer")
                t.adapt(c.d[k], c.x[k].copy())
                obs.append(filt.weights(f))
                ref.append(filt.weights(t))
        else:
            m = ctx.irange(1, N - i)
            d, x = laid_out(ctx, c.d[i:i + m]), laid_out(ctx, c.x[i:i + m])
            g1 = Guard(ctx, d=d, x=x)
            call = f.run
            r = ctx.call(call, d, x)
            g1.verify("run")
            y, e, W = filt.unpack(r, m, n)
            keep = [v.copy() for v in r]
            scribble(ctx, d, x)
            for nm, a, b in zip("yew", r, keep):
                core.identical("run: result %s after arguments were overwritten" % nm, a, b)
            a = t.run(c.d[i:i + m].copy(), c.x[i:i + m].copy())
            obs += list(keep[2][1:]) + [filt.weights(f)]
            ref += list(a[2][1:]) + [filt.weights(t)]
            for p_ in range(3):
                for q_ in range(p_):
                    need(not np.shares_memory(r[p_], r[q_]), "results of run share memory")
            if ctx.flip(.4):
                scribble(ctx, *r)
                ctx.count("scribbled_results")
            else:
                old.append((r, keep))
        i += m
    obs, ref = np.array(obs), np.array(ref)

    def twin():
        h = filt.new(ctx, c.kind, n, c.p, c.w.copy(), c.via)
        return (filt.trace_run(ctx, h, filt.jitter(ctx, c.d), filt.jitter(ctx, c.x))[3],)
    filt.same_traj(ctx, "%s: weights when the caller overwrites its arrays" % c.kind, (ref,), (obs,), [twin] * 3,
                   about=lambda: filt.undecided(c.kind, c.p, np.vstack((c.w, ref[:-1])), c.x, c.d))
    for r, keep in old:
        for nm, a, b in zip("yew", r, keep):
            core.identical("%s: result %s of earlier run after later use" % (c.kind, nm), a, b)
    for v, k in held:
        need(float(v) == k or k != k, "value returned by predict changed later")
    if ctx.flip(.2):
        # other entry points
        pa = core.load()
        d, x = c.d.copy(), c.x.copy()
        wa = c.w.copy()
        g1 = Guard(ctx, d=d, x=x, w=wa)
        r = ctx.call(pa.filters.filter_data, d, x, model=c.kind, w=wa, **c.p)
        g1.verify("filter_data")
        if int(N * .5) >= 1:
            g1 = Guard(ctx, d=d, x=x)
            r2 = ctx.call(f.pretrained_run, d, x, ntrain=.5, epochs=2)
            g1.verify("pretrained_run")
            keep = [v.copy() for v in r2]
            scribble(ctx, d, x)
            ctx.call(f.adapt, 1., c.x[0])
            for a, b in zip(r2, keep):
                core.identical("result of pretrained_run", a, b)
    ctx.decisive(len(obs))


def same_arrays(ctx):
    """the caller reads every block of data into the same arrays"""
    c = filt.scenario(ctx, hi=40, wild=.1)
    N, n = c.N, c.n
    blocks = []
    for j in range(ctx.irange(2, 4)):
        rows = ctx.rng.permutation(N) if ctx.flip(.7) else np.arange(N)
        what = ctx.choice(["target", "input", "both"]) if j else "both"
        d = c.d[rows] if what != "input" else blocks[-1][1]
        x = c.x[rows] if what != "target" else blocks[-1][2]
        blocks.append((ctx.choice(["run", "run", "adapt"]), d, x))

    def use(change, arrays):
        f = filt.new(ctx, c.kind, n, c.p, c.w.copy(), c.via)
        W = []
        for use, d, x in blocks:
            if arrays is None:
                d, x = change(d), change(x)
            else:
                arrays[0][...] = d
                arrays[1][...] = x
                d, x = arrays
            if use == "run":
                W += filt.trace_run(ctx, f, d, x)[3].tolist()
            else:
                for k in range(N):
                    ctx.call(f.adapt, d[k], x[k])
                    W.append(filt.weights(f))
        return (np.array(W),)
    obs = use(None, (np.zeros(N), np.zeros((N, n))))
    ref = use(np.copy, None)
    D, X = np.concatenate([b[1] for b in blocks]), np.concatenate([b[2] for b in blocks])
    filt.same_traj(ctx, "%s: weights with arrays filled again (%s) and with new ones" % (c.kind, [b[0] for b in blocks]), ref, obs,
                   [lambda: use(lambda v: filt.jitter(ctx, v), None)] * 3,
                   about=lambda: filt.undecided(c.kind, c.p, np.vstack((c.w, ref[0][:-1])), X, D))
    ctx.decisive(len(X))
    ctx.count("same_arrays")


def functions(ctx):
    pa = core.load()
    r = ctx.rng
    N, n = ctx.irange(8, 50), ctx.irange(2, 5)
    A = r.normal(0, 1, (N, n))
    s = r.normal(0, 1, N)
    s2 = r.normal(0, 1, N)
    lab = r.integers(0, 3, N)
    lab[:3] = [0, 1, 2]
    w = np.cumsum(A, axis=0)
    al = list(r.uniform(.5, 5, ctx.choice([1, 3, 3, 8])))
    win = ctx.irange(5, N - 1)
    t = [
        ("standardize", lambda x: pa.standardize(x), [s]),
        ("standardize 2d", lambda x: pa.standardize(x, offset=0., scale=1.), [A]),
        ("standardize same", lambda x: pa.standardize(x, offset=0, scale=1), [s]),
        ("standardize_back", lambda x: pa.standardize_back(x, 1., 2.), [s]),
        ("standardize_back same", lambda x: pa.standardize_back(x, 0., 1.), [s]),
        ("input_from_history", lambda x: pa.input_from_history(x, min(3, N)), [s]),
        ("input_from_history 1", lambda x: pa.input_from_history(x, 1), [s]),
        ("input_from_history bias", lambda x: pa.input_from_history(x, 2, bias=True), [s]),
        ("MSE", pa.misc.MSE, [s, s2]), ("MAE", pa.misc.MAE, [s, s2]), ("RMSE", pa.misc.RMSE, [s, s2]),
        ("logSE", pa.misc.logSE, [s, s2]), ("logSE 1", pa.misc.logSE, [s]), ("MAE 1", pa.misc.MAE, [s]),
        ("get_mean_error", lambda a, b: pa.misc.get_mean_error(a, b, function="MAE"), [s, s2]),
        ("ELBND", lambda a, b: pa.detection.ELBND(a, b, function="sum"), [w, s]),
        ("ELBND max", lambda a, b: pa.detection.ELBND(a, b), [w, s]),
        ("learning_entropy", lambda a: pa.detection.learning_entropy(a, m=5), [w]),
        ("learning_entropy 2", lambda a: pa.detection.learning_entropy(a, m=5, order=2), [w]),
        ("learning_entropy multi", lambda a, b: pa.detection.learning_entropy(a, m=5, alpha=b), [w, np.array(al)]),
        ("learning_entropy list", lambda a, b: pa.detection.learning_entropy(a, m=5, alpha=b), [w, list(al)]),
        ("PCA", lambda a: pa.preprocess.PCA(a, n - 1), [A]),
        ("PCA_components", pa.preprocess.PCA_components, [A]),
        ("LDA", lambda a, b: pa.preprocess.LDA(a, b, n - 1), [A, lab]),
        ("LDA list", lambda a, b: pa.preprocess.LDA(a, b, n - 1), [A, lab.tolist()]),
        ("LDA_discriminants", pa.preprocess.LDA_discriminants, [A, lab]),
    ]
    if ctx.flip(.15):
        t = t + [("ESE", lambda a: pa.detection.ESE(a[:, :1], window=win), [w])] * 8
    name, fn, args = ctx.choice(t)
    lists = name.split()[0] in ("standardize", "standardize_back", "input_from_history", "MSE", "MAE", "RMSE",
                                "logSE", "get_mean_error")
    args = [(laid_out(ctx, a) if lists or not isinstance(a, np.ndarray) or a.dtype.kind != "f"
             else np.array(a, order=ctx.choice("CF"))) if isinstance(a, np.ndarray) else list(a) for a in args]
    copies = [a.copy(order="K") if isinstance(a, np.ndarray) else [list(v) if isinstance(v, list) else v for v in a] for a in args]
    ctx.note(fn=name, N=N, n=n, types=[type(a).__name__ for a in args])
    ctx.digest(A)
    g = Guard(ctx, **{"a%d" % i: a for i, a in enumerate(args)})
    out = ctx.call(fn, *args)
    g.verify(name)
    out = np.asarray(out)
    keep = out.copy()
    for a in args:
        if isinstance(a, np.ndarray):
            need(not (out.ndim and np.shares_memory(out, a)), "%s: result shares memory with an argument", name)
    scribble(ctx, *args)
    core.identical("%s: result after arguments were overwritten" % name, out, keep)
    # independent cells
    if out.ndim == 2 and out.flags.writeable:
        i, j = ctx.irange(0, out.shape[0] - 1), ctx.irange(0, out.shape[1] - 1)
        out[i, j] = 12345.
        want = keep.copy()
        want[i, j] = 12345.
        core.identical("%s: cells of the result are not independent" % name, out, want)
    again = np.asarray(ctx.call(fn, *copies))
    core.compare("%s: repeated on copies" % name, again, keep, 1e-9 * (1 + np.abs(keep)))
    ctx.count("function_calls")
    ctx.kinds[name] += 1
    ctx.decisive()


def network(ctx):
    pa = core.load()
    r = ctx.rng
    outs = ctx.choice([1, 1, 2, 3])
    n, N = ctx.irange(1, 4), ctx.irange(2, 12)
    layers = [ctx.irange(1, 5) for _ in range(ctx.irange(1, 3))]
    kw = dict(outputs=outs, activation=ctx.choice(["sigmoid", "tanh"]), mu=ctx.choice(["auto", .1]))
    sd = ctx.irange(0, 10**6)
    nets = []
    for _ in range(2):
        np.random.seed(sd)
        nets.append(ctx.call(pa.ann.NetworkMLP, layers, n, **kw))
    a, b = nets
    x = r.normal(0, 1, (N, n))
    d = r.normal(0, 1, N if outs == 1 else (N, outs))
    ctx.note(fn="mlp", n=n, N=N, layers=layers, **kw)
    ctx.digest(x)
    sh = ctx.flip()
    res = []
    keeps = []
    for step in range(ctx.irange(2, 6)):
        u = ctx.irange(0, 3)
        np.random.seed(sd + step)
        if u == 0:
            xa, da = x.copy(), d.copy()
            g = Guard(ctx, x=xa, d=da)
            out = ctx.call(a.train, xa, da, epochs=2, shuffle=sh)
            g.verify("train")
            scribble(ctx, xa, da)
            np.random.seed(sd + step)
            ref = b.train(x.copy(), d.copy(), epochs=2, shuffle=sh)
        elif u == 1:
            xa, da = x.copy(), d.copy()
            g = Guard(ctx, x=xa, d=da)
            out = (ctx.call(a.test, xa, da),)
            g.verify("test")
            scribble(ctx, xa, da)
            ref = (b.test(x.copy(), d.copy()),)
        elif u == 2:
            xa = x.copy()
            g = Guard(ctx, x=xa)
            out = (ctx.call(a.run, xa),)
            g.verify("run")
            scribble(ctx, xa)
            ref = (b.run(x.copy()),)
        else:
            # sample after sample with reused buffers
            bx, out, ref = np.zeros(n), [], []
            for k in range(N):
                bx[...] = x[k]
                g = Guard(ctx, x=bx)
                y = ctx.call(a.predict, bx)
                g.verify("predict")
                scribble(ctx, bx)
                keeps.append((y, np.array(y)))
                dk = np.array(d[k])
                g = Guard(ctx, d=dk)
                e = ctx.call(a.update, dk)
                g.verify("update")
                scribble(ctx, dk) if dk.ndim else None
                out.append(np.array(e))
                keeps.append((e, np.array(e)))
                b.predict(x[k].copy())
                ref.append(np.array(b.update(np.array(d[k]))))
        for p, q in zip(out, ref):
            core.compare("network: result when the caller overwrites its arrays", np.asarray(p), np.asarray(q),
                         1e-9 * (1 + np.abs(np.asarray(q))))
            keeps.append((p, np.array(p)))
    for p, q in keeps:
        core.identical("network: earlier result changed by later use", np.asarray(p), q)
    ctx.count("mlp")
    ctx.decisive()


def case(ctx):
    u = ctx.idx // 8 % 6
    if u < 3:
        (same_arrays if ctx.flip(.25) else filters)(ctx)
    elif u < 5:
        for _ in range(6):
            functions(ctx)
    else:
        network(ctx)
