"""C23: input_from_history"""
import numpy as np

from .. import core, filt, forms
from ..core import EPS, LD, Violation, need

FILES = ["preprocess/input_from_history.py"]
RULE = ("Series (values distinct or repeated, special values, lists and arrays of several types), window lengths from 1 to "
        "the whole series, with and without bias; every element of the matrix is compared exactly.")
NEED = dict(decisive=1000, rejections=200, bias=100, whole=30, single=30)


def case(ctx):
    pp = ctx.choice([core.load(), core.load().preprocess])
    r = ctx.rng
    L = filt.length(ctx, 1, 300, .02)
    u = ctx.irange(0, 6)
    if u == 0:
        a = np.arange(L, dtype=float)
    elif u == 1:
        a = r.integers(-5, 6, L).astype(float)
    elif u == 2:
        a = r.normal(0, 1, L) * 10. ** r.uniform(-300, 300, L)
    else:
        a = r.normal(0, 1, L)
    if ctx.flip(.1):
        a[r.random(L) < .1] = ctx.choice([np.nan, np.inf, -np.inf, -0.])
    n = ctx.choice([1, 2, L, max(1, L - 1), ctx.irange(1, min(L, 10)), ctx.irange(1, L)])
    if n > L:
        n = L
    v = ctx.choice([a, a, a.tolist(), tuple(a.tolist()), np.repeat(a, 2)[::2]])
    if u in (0, 1) and np.all(np.isfinite(a)) and ctx.flip(.5):
        v = a.astype(ctx.choice(["int64", "int32", "float32"]))
    if np.all(np.isfinite(a)) and ctx.flip(.3):
        v, a, _ = forms.recast(ctx, a, arrays=False, share=1)
    bias = ctx.choice([None, False, True])
    ctx.note(L=L, n=n, bias=bias)
    ctx.digest(a)
    kw = {} if bias is None else dict(bias=bias)
    got = ctx.call(pp.input_from_history, v, n, *kw.values()) if ctx.flip(.2) else ctx.call(pp.input_from_history, v, n, **kw) if ctx.flip(.7) else ctx.call(pp.input_from_history, a=v, n=n, **kw)
    rows = L - n + 1
    got = core.as_float("input_from_history", got, (rows, n + bool(bias)))
    want = np.empty((rows, n + bool(bias)))
    for j in range(n):
        want[:, j] = a[j:j + rows]
    if bias:
        want[:, n] = 1
    core.identical("input_from_history(%d values, n=%d, bias=%s)" % (L, n, bias), got, want)
    ctx.decisive(rows)
    if bias:
        ctx.count("bias")
    if n == L:
        ctx.count("whole")
    if n == 1:
        ctx.count("single")
    if ctx.flip(.3):
        bad = ctx.choice([0, -1, -n, 2., float(n), "3", None, [2], 1.5, -100])
        ctx.rejects("input_from_history(n=%r)" % (bad,), ValueError, pp.input_from_history, v, bad, **kw)
        text = ctx.choice([["a", "b", "c"], "abc", [1., "x", 2.], [[1.], [1., 2.]]])
        ctx.rejects("input_from_history(%r)" % (text,), ValueError, pp.input_from_history, text, 1, **kw)
    if ctx.flip(.1):
        # history matrix as the input of a filter
        f = filt.new(ctx, "LMS", n + bool(bias), dict(mu=0.), "zeros")
        if np.all(np.isfinite(a)):
            y, e, W = filt.unpack(ctx.call(f.run, np.zeros(rows), got), rows, n + bool(bias))
