"""C30: filters derived by the user from the base classes"""
import numpy as np

from .. import core, filt
from ..core import EPS, Violation, need

FILES = ["filters/base_filter.py"]
RULE = ("Classes derived from AdaptiveFilter, AdaptiveFilterAP and from the shipped filters, whose learning rule records its "
        "arguments and returns made increments, driven by run, adapt and pretrained_run (also with failing rules); the "
        "recorded trace of calls is judged: once per sample, in order, right error and input, increment applied.")
NEED = dict(decisive=1000, run_calls=50, adapt_calls=50, ap_calls=30, derived_shipped=30, failing_rules=30)

RULES = ("linear", "sign", "constant", "random", "zero", "delayed", "reused", "linear", "random", "not_finite", "list", "number")


class Rule:
    """a learning rule made by the user"""

    def __init__(self, ctx, n):
        self.style = ctx.choice(RULES)
        self.rng = np.random.Generator(np.random.PCG64(ctx.irange(0, 2**31)))
        self.mu = ctx.logu(1e-3, .3) / n
        self.last = np.zeros(n)
        self.calls, self.bad_from = 0, ctx.irange(0, 30)
        self.buf = np.zeros(n)

    def __call__(self, e, x):
        s = self.style
        with np.errstate(all="ignore"):
            if s == "linear":
                return self.mu * e * x / (1. + np.dot(x, x))
            if s == "list":
                r = (self.mu * e * x / (1. + np.dot(x, x))).tolist()
                return r if self.bad_from % 2 else tuple(r)
            if s == "number":
                return self.mu * float(np.tanh(e))
            if s == "sign":
                return self.mu * np.sign(e) * np.sign(x)
            if s == "constant":
                return np.full(len(x), self.mu)
            if s == "random":
                return self.rng.normal(0, self.mu, len(x))
            if s == "not_finite":
                self.calls += 1
                r = self.rng.normal(0, self.mu, len(x))
                if self.calls > self.bad_from:
                    r[self.rng.integers(len(x)) if self.bad_from % 2 else slice(None)] = self.rng.choice([np.nan, np.inf, -np.inf])
                return r
            if s == "zero":
                return np.zeros(len(x))
            if s == "reused":
                self.buf[:] = self.mu * np.tanh(e) * np.tanh(x)
                return self.buf
            r = self.last
            self.last = self.mu * np.tanh(e) * np.tanh(x)
            return r


class Stop(Exception):
    """raised by a failing rule"""


FAILURES = (Stop, Stop, ValueError, TypeError, ZeroDivisionError, FloatingPointError, OverflowError, np.linalg.LinAlgError, KeyError,
            IndexError, AttributeError, RuntimeError, NotImplementedError, AssertionError, MemoryError, KeyboardInterrupt,
            StopIteration, LookupError, EOFError, RecursionError)


def derive(base, rule, log, fail):
    class Mine(base):
        kind = "Mine"

        def learning_rule(self, e, x):
            if fail and len(log) == fail[0]:
                kind = fail[1]
                fail.clear()
                raise kind("raised by the rule")
            r = rule(e, x)
            log.append((np.array(e), np.array(x), np.array(self.w), np.array(r)))
            return r
    return Mine


def derive_shipped(base, factor, log):
    class Mine(base):
        def learning_rule(self, e, x):
            e0, x0 = np.array(e), np.array(x)
            r = factor * super().learning_rule(e, x)
            log.append((e0, x0, np.array(self.w), np.array(r)))
            return r
    return Mine


def match_ap(what, order, X, D, k, e, x, w, n):
    """columns of x and entries of e are the last inputs and their errors, in any order"""
    need(np.shape(x) == (n, order) and np.shape(e) == (order,), "%s: rule got error %s and input %s, order is %d",
         what, np.shape(e), np.shape(x), order)
    left = list(range(order))
    for j in range(order):
        xr = X[k - j] if k - j >= 0 else np.zeros(n)
        dr = D[k - j] if k - j >= 0 else 0.
        y, bound = filt.output_bounds(w[None], xr[None])
        hit = [i for i in left if np.array_equal(x[:, i], xr) and abs(e[i] - (dr - float(y[0]))) <= float(bound[0]) + 4 * EPS * abs(dr)]
        need(hit, "%s: input of sample %d with its error is not among the %d the rule got", what, k - j, order)
        left.remove(hit[0])


def case(ctx):
    pa = core.load()
    from padasip.filters import base_filter
    n, N = filt.size(ctx, 8), filt.length(ctx, 2, 60)
    x, xs = filt.make_x(ctx, N, n)
    d, ds, _ = filt.make_d(ctx, x)
    what = ctx.choice(["plain", "plain", "ap", "shipped"])
    log, fail, w0 = [], [], ctx.rng.normal(0, 1, n)
    u = ctx.irange(0, 15)
    if u == 0:
        w0 = np.zeros(n)
    if u <= 1:
        # errors which are exactly zero, for a part of the stream
        w0, x = np.round(w0), np.clip(np.round(x), -1e6, 1e6)
        i = ctx.choice([0, N // 2, N - 1, N])
        d = np.concatenate([x[:i] @ w0, d[i:]]) if ctx.flip(.8) else np.concatenate([d[:i], x[i:] @ w0])
    rule = Rule(ctx, n)
    order = 1
    kw = {}
    if what == "plain":
        f = ctx.call(derive(base_filter.AdaptiveFilter, rule, log, fail), n, w=w0)
    elif what == "ap":
        order = ctx.irange(1, 6)
        inner = rule

        def rule(e, x):
            return inner(float(np.sum(e)), np.sum(x, axis=1))
        f = ctx.call(derive(base_filter.AdaptiveFilterAP, rule, log, fail), n, order=order, w=w0)
    else:
        kind = ctx.choice([k for k in filt.KINDS if k not in ("OCNLMS",)])
        p = filt.params(ctx, kind, x, d)
        order = int(dict(filt.DEFAULTS[kind], **p).get("order", 1))
        factor = ctx.choice([0., .5, .25, .1])
        f = ctx.call(derive_shipped(getattr(pa.filters, filt.CLASS[kind]), factor, log), n, w=w0, **p)
        what = "derived from " + kind
        ctx.count("derived_shipped")
    ap = what in ("ap", "derived from AP")
    if what == "plain" and rule.style in ("constant", "random", "zero") and ctx.flip(.4):
        # such a rule may be given any error
        d[ctx.rng.random(N) < .1] = ctx.choice([np.nan, np.inf, -np.inf])
        ctx.count("lost_targets")
    ctx.note(what=what, n=n, N=N, rule=rule.style if what == "plain" else what, order=order, x=xs, d=ds)
    ctx.digest(x, d, w0)
    ctx.kinds[what] += 1
    X, D = np.zeros((0, n)), np.zeros(0)
    last = w0.copy()
    need(np.array_equal(filt.weights(f), w0), "%s: initial weights are not the given ones", what)
    top = 0

    def judge(W, label):
        """records of the last call: samples top..; W their weights where returned"""
        nonlocal last, top
        need(len(log) == len(X), "%s, %s: %d samples, rule was called %d times", what, label, len(X), len(log))
        for k in range(top, len(log)):
            e, xx, w, r = log[k]
            need(np.array_equal(w, last, equal_nan=True), "%s, %s: weights seen by the rule at sample %d are not the present ones", what, label, k)
            if W is not None:
                need(np.array_equal(W[k - top], w, equal_nan=True), "%s, %s: returned weights of sample %d differ from those the rule saw", what, label, k)
            if not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1e100:
                raise StopIteration
            if ap:
                match_ap("%s, %s" % (what, label), order, X, D, k, e, xx, w, n)
                ctx.count("ap_calls")
            else:
                need(np.array_equal(xx, X[k]), "%s, %s: rule got input %s of sample %d, not %s", what, label, xx, k, X[k])
                y, bound = filt.output_bounds(w[None], X[k][None])
                need(np.shape(e) == (), "%s, %s: rule got error of shape %s", what, label, np.shape(e))
                if not np.isfinite(D[k]):
                    need(np.array_equal(e, D[k], equal_nan=True), "%s, %s: error given to the rule at sample %d is %s, target %s", what, label, k, e, D[k])
                else:
                    core.compare("%s, %s: error given to the rule at sample %d" % (what, label, k), e, D[k] - y[0], bound[0] + 4 * EPS * abs(D[k]))
            new = log[k + 1][2] if k + 1 < len(log) else filt.weights(f)
            core.compare("%s, %s: weights after sample %d" % (what, label, k), new, w + r, 4 * EPS * (np.abs(w) + np.abs(r)))
            last = new
            ctx.decisive()
        top = len(log)

    i = 0
    try:
        while i < N:
            u = ctx.rng.random()
            m = ctx.irange(1, N - i)
            if fail == [] and "derived" not in what and ctx.flip(.25):
                # a rule which fails at some sample of the call
                at = ctx.irange(0, m - 1)
                keep = dict(n=len(log))
                stop = ctx.choice(FAILURES)
                fail.extend([len(log) + at, stop])
                how = ctx.choice(["run", "adapt"])
                try:
                    if how == "run":
                        f.run(d[i:i + m], x[i:i + m])
                    else:
                        for k in range(i, i + m):
                            f.adapt(d[k], x[k])
                    raise Violation("%s: exception of the learning rule was lost in %s" % (what, how))
                except Violation:
                    raise
                except BaseException as ex:
                    if type(ex) is not stop or ex.args != ("raised by the rule",):
                        raise Violation("%s: exception %s of the learning rule came out of %s as %s: %s" % (what, stop.__name__, how, type(ex).__name__, ex))
                ctx.count("failing_rules")
                ctx.kinds["failing " + stop.__name__] += 1
                need(len(log) == keep["n"] + at, "%s: rule failed at sample %d, but was called %d times", what, at, len(log) - keep["n"])
                X, D = np.vstack((X, x[i:i + at])), np.append(D, d[i:i + at])
                judge(None, "failing " + how)
                if ap:
                    break       # what its memory holds of the failed sample is not said
                i += at
                continue
            if u < .45:
                y, e, W = filt.unpack(ctx.call(f.run, d[i:i + m], x[i:i + m]), m, n)
                X, D = np.vstack((X, x[i:i + m])), np.append(D, d[i:i + m])
                t = top
                judge(W, "run")
                for k in range(m):
                    e0 = log[t + k][0]
                    if not ap:
                        core.identical("%s: returned error of sample %d and error the rule got" % (what, k), e[k], e0)
                ctx.count("run_calls")
            elif u < .9:
                m = min(m, 8)
                for k in range(i, i + m):
                    if ctx.flip(.15):
                        d[k] = filt.near(ctx, float(np.dot(filt.weights(f), x[k])))
                        if not np.isfinite(d[k]):
                            d[k] = 0.
                    ctx.call(f.adapt, d[k], x[k])
                    X, D = np.vstack((X, x[k:k + 1])), np.append(D, d[k])
                    judge(None, "adapt")
                    ctx.count("adapt_calls")
            else:
                if m < 2:
                    continue
                ep = ctx.irange(1, 3)
                T = m // 2
                filt.unpack(ctx.call(f.pretrained_run, d[i:i + m], x[i:i + m], ntrain=.5, epochs=ep), m - T, n)
                X = np.vstack([X] + [x[i:i + T]] * ep + [x[i + T:i + m]])
                D = np.concatenate([D] + [d[i:i + T]] * ep + [d[i + T:i + m]])
                judge(None, "pretrained_run")
            i += m
    except StopIteration:
        ctx.count("diverged")
