"""
The same numbers in other containers, types and memory layouts.
"""
import numpy as np

from . import core
from .core import LD

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLOATS = ["float16", "float32", "float64", "longdouble", ">f4", ">f8", "<f4", ">f2"]
OTHER = [">i2", ">i4", ">u8", ">i8"]


def values(ctx, shape, tname):
    """float64 array of values which the type represents exactly"""
    r = ctx.rng
    t = np.dtype(tname)
    if t.kind == "b":
        return (r.random(shape) < .5).astype(float)
    if t.kind in "iu":
        info = np.iinfo(t)
        hi = min(info.max, ctx.choice([3, 100, 127, 255, 3000, 10**5, 2**31 - 1, 2**40]))
        hi = min(hi, info.max)
        lo = -hi if info.min < 0 else 0      # each value has an absolute value in its type
        v = r.integers(lo, hi, shape, endpoint=True, dtype=np.int64).astype(float)
        if v.size and ctx.flip(.3):
            v.flat[r.integers(v.size)] = lo
            v.flat[r.integers(v.size)] = hi
        return v
    v = r.normal(0, 1, shape) * 10. ** r.uniform(-2, 2)
    if t.itemsize == 2:
        return np.clip(v, -1000, 1000).astype("float16").astype(float)
    if t.itemsize == 4:
        if ctx.flip(.15):
            v = v * 10. ** r.uniform(-15, 15)
        return v.astype("float32").astype(float)
    return v


def dress(ctx, v, tname):
    """the same numbers, represented in another way; returns (object, label)"""
    r = ctx.rng
    a = np.array(v).astype(tname)
    if not np.array_equal(a.astype(float), v):
        raise core.HarnessBug("values not exact in %s" % tname)
    form = ctx.choice(["plain", "plain", "list", "tuple", "strided", "reversed", "fortran", "readonly",
                       "rows", "misaligned", "scalars", "view0"])
    if form == "list":
        return a.tolist(), "list of %s" % tname
    if form == "tuple":
        t = a.tolist()
        return tuple(tuple(i) if isinstance(i, list) else i for i in t), "tuple of %s" % tname
    if form == "rows" and a.ndim == 2:
        return [i for i in a], "list of %s arrays" % tname
    if form == "scalars" and a.ndim == 1:
        return list(a), "list of %s scalars" % tname
    if form == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), 1, a.dtype)
        s = tuple(slice(1, None, 2) for _ in a.shape)
        big[s] = a
        return big[s], "strided %s" % tname
    if form == "reversed":
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s], "reversed %s" % tname
    if form == "fortran":
        return np.asfortranarray(a), "fortran %s" % tname
    if form == "readonly":
        a.setflags(write=False)
        return a, "readonly %s" % tname
    if form == "misaligned":
        buf = np.zeros(a.nbytes + 1, "u1")
        m = buf[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        m[...] = a
        return m, "misaligned %s" % tname
    return a, "%s array" % tname


def pick(ctx):
    return ctx.choice(["bool"] + INTS + FLOATS + OTHER)


def cast(ctx, a, tname):
    """values near those of `a` which the type represents exactly (float64), None when there are none"""
    t = np.dtype(tname)
    with np.errstate(all="ignore"):
        if t.kind == "b":
            return (a > np.median(a)).astype(float)
        if t.kind in "iu":
            info = np.iinfo(t)
            top = float(np.max(np.abs(a), initial=0))
            if not top > 0 or not np.isfinite(top):
                return None
            hi = min(info.max, 2. ** 52, ctx.choice([5., 50., 127., 1000., 1e6, 1e9]))
            b = np.round(a / top * hi)
            return b if info.min < 0 else np.abs(b)
        b = a.astype(t).astype(float)
    return b if np.all(np.isfinite(b)) and np.max(np.abs(b), initial=0) < 1e300 else None


def recast(ctx, a, arrays=True, share=.35):
    """
    (object, its values as float64, its description): sometimes other values in
    another type, sometimes only another form of the same values
    """
    if not ctx.flip(share):
        return a, a, "float64"
    t = pick(ctx) if ctx.flip(.7) else "float64"
    if t == "longdouble":
        t = "float64"
    b = cast(ctx, a, t)
    if b is None:
        b, t = a, "float64"
    for _ in range(30):
        v, how = dress(ctx, b, t)
        if isinstance(v, np.ndarray) or not arrays:
            ctx.kinds["as " + t] += 1
            return v, b, how
    return b, b, "float64"
