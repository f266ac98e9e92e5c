"""C06: OCNLMS"""
import numpy as np

from .. import core, filt
from ..core import EPS, LD, Violation, need

FILES = ["filters/ocnlms.py", "filters/base_filter.py"]
RULE = ("Random memory length, data, lengths below and above the memory and call history (run, adapt, predict, clearing "
        "of the memory); outputs and increments are compared with a model of the documented memory and with an exact "
        "model of the memory as shipped.")
NEED = dict(decisive=1000, cleared=10, wrapped=20, predict_calls=20)


class Shipped:
    """memory handling of the pinned commit (known finding)"""

    def __init__(self, n, mem):
        self.n, self.mem = n, mem
        self.clear()

    def clear(self):
        self.empty, self.idx = True, 0
        self.X, self.D = np.zeros((self.mem, self.n), LD), np.zeros(self.mem, LD)

    def read(self):
        if self.empty:
            if self.idx == 0:
                mx, md = np.zeros(self.n, LD), LD(0)
            else:
                mx = self.X[:self.idx + 1].mean(axis=0)
                md = self.D[:self.idx].mean()
        else:
            mx = self.X.mean(axis=0)
            keep = np.arange(self.mem) != self.idx
            md = self.D[keep].mean() if keep.any() else LD(np.nan)
        self.idx += 1
        if self.idx >= self.mem:
            self.idx, self.empty = 0, False
        return md, mx

    def predict(self, w, x):
        md, mx = self.read()
        return np.sum(w * (x - mx)) + md

    def learn(self, w, x, e, d):
        """centered input used by the learning"""
        self.X[self.idx] = x
        md, mx = self.read()
        self.D[self.idx - 1] = e + np.sum(w * (x - mx)) + md
        return x - mx


class Documented:
    """means of the last mem samples; `own`: learning uses present x too"""

    def __init__(self, n, mem, own):
        self.n, self.mem, self.own = n, mem, own
        self.clear()

    def clear(self):
        self.X, self.D = [], []

    def means(self):
        if not self.X:
            return LD(0), np.zeros(self.n, LD)
        return np.mean(np.array(self.D, LD)), np.mean(np.array(self.X, LD), axis=0)

    def predict(self, w, x):
        md, mx = self.means()
        return np.sum(w * (x - mx)) + md

    def learn(self, w, x, e, d):
        mx = self.means()[1]
        self.X = (self.X + [x])[-self.mem:]
        self.D = (self.D + [d])[-self.mem:]
        return x - (self.means()[1] if self.own else mx)


def judge(model, ev, n, mu, eps):
    """first disagreement of the model with the events, or None; number of decided events"""
    done = 0
    top, worst = 1e-300, 0.
    for k, (what, d, x, y, e, w0, w1) in enumerate(ev):
        if what == "clear":
            model.clear()
            continue
        # targets kept in the memory carry the rounding of earlier samples
        xl, wl = x.astype(LD), w0.astype(LD)
        if not np.all(np.isfinite(x)):
            # a probe; its output is not judged but it is an event for the model
            model.predict(wl, xl)
            continue
        top = max(top, float(np.max(np.abs(x), initial=0)))
        dtop = float(np.max(np.abs(model.D), initial=0)) if len(model.D) else 0.
        if not (np.all(np.isfinite(w1)) and np.max(np.abs(w1)) < 1e60 and dtop < 1e80):
            return None, done
        noise = 60 * (n + model.mem) * EPS * (np.sum(np.abs(wl)) * top + dtop + (abs(d) if d is not None else 0.))
        worst = max(worst, float(noise))
        noise = noise + 2 * worst
        yref = model.predict(wl, xl)
        if y is not None and not abs(y - yref) <= noise:
            return "event %d (%s): output %.17g, expected %.17g (tolerance %.2g)" % (k, what, y, yref, noise), done
        if what == "predict":
            done += 1
            continue
        if e is None:
            # error is not returned by adapt
            e_, de = LD(d) - yref, noise
        else:
            if not abs(e - (LD(d) - LD(y))) <= 4 * EPS * (abs(d) + abs(y)):
                return "event %d: error %.17g for target %.17g and output %.17g" % (k, e, d, y), done
            e_, de = LD(e), 0.
        c = model.learn(wl, xl, e_, LD(d))
        dc = 40 * model.mem * EPS * top
        pw = LD(eps) + np.sum(c * c)
        g = LD(mu) / pw
        dpw = 2 * np.sum(np.abs(c)) * dc + 20 * (n + 2) * EPS * np.sum(c * c) + n * dc * dc
        if not abs(dpw) < 1e-4 * abs(pw):
            return None, done
        ref = g * e_ * c
        tol = np.abs(g) * (abs(e_) * dc + np.abs(c) * de) + np.abs(ref) * (1e-11 + 2 * dpw / abs(pw)) + \
            8 * EPS * np.maximum(np.abs(w0), np.abs(w1)) + abs(g) * dc * de
        bad = ~(np.abs(w1.astype(LD) - wl - ref) <= tol)
        if np.any(bad):
            i = int(np.argmax(bad))
            return "event %d (%s): increment of weight %d is %.17g, expected %.17g (tolerance %.2g)" % (
                k, what, i, w1[i] - w0[i], ref[i], tol[i]), done
        done += 1
    return None, done


def case(ctx):
    c = filt.scenario(ctx, ["OCNLMS"], hi=150, long=.04, wild=.3, nhi=8)
    if c.p.get("eps", 1) <= 0 or ctx.flip(.2):
        c.p["eps"] = ctx.logu(.01, 10)
    if ctx.flip(.1):
        c.p.pop("mem", None)
        ctx.count("default_memory")
    if ctx.flip(.02):
        c.p["mem"] = 1
    big = ctx.over(60, 700) if ctx.flip(.1) else ctx.irange(101, 400) if ctx.flip(.01) else None
    if big:
        # long memory, with data which fill it
        c.p["mem"] = big
        c.N = big + ctx.irange(-5, 120)
        k = ctx.rng.integers(0, len(c.x), c.N)
        c.x, c.d = c.x[k] * ctx.rng.uniform(.9, 1, (c.N, 1)), c.d[k] * ctx.rng.uniform(.9, 1, c.N)
    if ctx.flip(.3):
        c.x = c.x + ctx.rng.normal(0, 5, c.n)
        c.d = c.d + ctx.rng.normal(0, 20)
    p = dict(filt.DEFAULTS["OCNLMS"], **c.p)
    mem = int(p["mem"])
    ctx.note(mem=mem, eps=p["eps"])
    f = filt.build(ctx, c)
    ev, i, n = [], 0, c.n
    while i < c.N:
        u = ctx.rng.random()
        if u < .04 and i:
            ctx.call(f.clear_memory)
            ev.append(("clear",) + (None,) * 6)
            ctx.count("cleared")
        elif u < .14:
            w0 = filt.weights(f)
            y = ctx.call(f.predict, c.x[i])
            core.identical("weights after predict", filt.weights(f), w0)
            ev.append(("predict", None, c.x[i], float(core.as_float("predict", y, ())), None, w0, w0))
            ctx.count("predict_calls")
        elif u < .5:
            for _ in range(ctx.irange(1, min(10, c.N - i))):
                w0 = filt.weights(f)
                ctx.call(f.adapt, c.d[i], c.x[i])
                ev.append(("adapt", c.d[i], c.x[i], None, None, w0, filt.weights(f)))
                i += 1
        else:
            m = ctx.irange(1, c.N - i)
            y, e, W0, W1 = filt.trace_run(ctx, f, c.d[i:i + m], c.x[i:i + m])
            for k in range(m):
                ev.append(("run", c.d[i + k], c.x[i + k], y[k], e[k], W0[k], W1[k]))
            i += m
    if len(ev) > mem:
        ctx.count("wrapped")
    if mem == 1:
        if any(v[6] is not None and not np.all(np.isfinite(v[6])) for v in ev):
            ctx.finding("ocnlms-mem1-nan", "mem=1 gives NaN weights")
        ctx.decisive()
        return
    for own in (True, False):
        for m in (mem, mem - 1):
            msg, done = judge(Documented(n, m, own), ev, n, p["mu"], p["eps"])
            if msg is None:
                ctx.decisive(done)
                ctx.count("as_documented")
                return
    msg2, done = judge(Shipped(n, mem), ev, n, p["mu"], p["eps"])
    if msg2 is None:
        ctx.finding("ocnlms-memory", "memory is advanced twice per sample, centering uses wrong samples")
        ctx.decisive(done)
        ctx.count("as_shipped")
        return
    raise Violation("OCNLMS %s is neither the documented nor the shipped behaviour: %s" % (p, msg2))
