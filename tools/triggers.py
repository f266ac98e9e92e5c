"""
Measures the reach of the workloads (run by hand, no part of any check):
wraps one function of padasip in a scratch copy so that its result is slightly
wrong only when a trigger condition holds, and runs the check of the property
that owns the function. triggers.py [-j N] [-b SECONDS] [REGEX]
"""
import argparse
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

STATE = """
    st = self.__dict__.setdefault("_trig", {"n": 0, "x": None, "e": None})
    st["n"] += 1
    px, pe, n = st["x"], st["e"], st["n"]
    st["x"], st["e"] = np.array(x), np.array(e)
"""
RULE = """

import numpy as np
_orig = %(cls)s.learning_rule
def _mut(self, e, x):
    r = _orig(self, e, x)
""" + STATE + """
    with np.errstate(all="ignore"):
        if %(cond)s:
            return r * 1.01 + (1e-3 if not np.any(r) else 0.)
    return r
%(cls)s.learning_rule = _mut
"""
LEARN = {
    "n1": "len(x) == 1", "n7": "len(x) == 7", "n>8": "len(x) > 8", "n>20": "len(x) > 20", "n>64": "len(x) > 64",
    "zero_in_x": "np.any(x == 0)", "x_zero": "not np.any(x)", "e0": "np.all(e == 0)", "e>1e3": "np.max(np.abs(e)) > 1e3",
    "e>1e6": "np.max(np.abs(e)) > 1e6", "e>1e12": "np.max(np.abs(e)) > 1e12", "e<1e-3": "np.max(np.abs(e)) < 1e-3",
    "e<1e-9": "0 < np.max(np.abs(e)) < 1e-9", "both_neg": "np.max(e) < 0 and np.max(x[0]) < 0", "xx<1e-6": "0 < np.sum(x*x) < 1e-6",
    "xx>1e6": "np.sum(x*x) > 1e6", "xx>1e10": "np.sum(x*x) > 1e10", "mu>1": "np.max(self.mu) > 1", "mu<1e-4": "np.max(self.mu) < 1e-4",
    "mu==1": "np.all(np.equal(self.mu, 1))", "x_equal": "len(x) > 1 and np.all(x == x[0])", "x_int": "np.all(x == np.round(x))",
    "w0": "not np.any(self.w)", "w>100": "np.max(np.abs(self.w)) > 100", "w_neg": "np.all(self.w < 0)", "call100": "n == 100",
    "call%128": "n % 128 == 0", "call>300": "n > 300", "call>1000": "n > 1000", "x_rep": "px is not None and np.array_equal(px, x)",
    "x_flip": "px is not None and np.array_equal(px, -x)", "e_rep": "pe is not None and np.array_equal(pe, e)",
    "tiny": "0 < np.max(np.abs(x)) < 1e-200", "x_sorted": "len(x) > 3 and np.all(np.diff(np.ravel(x)) > 0)", "mu_int": "isinstance(self.mu, int)",
    "x_one": "np.all(np.abs(x) <= 1) and np.any(x == 1)", "e_big_vs_x": "np.max(np.abs(e)) > 1e4 * np.max(np.abs(x)) > 0",
    "onehot": "np.sum(x != 0) == 1 and len(x) > 2", "last_zero": "len(x) > 1 and np.all(x[-1] == 0) and np.all(x[:-1] != 0)",
    "mu0": "np.all(np.equal(self.mu, 0))", "w_close": "len(x) > 1 and np.ptp(self.w) < 1e-3 * np.max(np.abs(self.w))",
}
LAW = {"LMS": "C02", "NLMS": "C02", "LMF": "C02", "NLMF": "C02", "SSLMS": "C02", "NSSLMS": "C02", "GMCC": "C02", "Llncosh": "C02",
       "GNGD": "C03", "VSLMS_Ang": "C03", "VSLMS_Benveniste": "C03", "VSLMS_Mathews": "C03", "RLS": "C04", "AP": "C05", "OCNLMS": "C06"}
EXTRA = {
    "GMCC": {"alpha<1": "self.alpha < 1", "alpha_int": "self.alpha in (1, 3, 4)", "lambd>1": "self.lambd > 1", "alpha>2": "self.alpha > 2"},
    "Llncosh": {"lambd>10": "self.lambd > 10", "lambd<.1": "self.lambd < .1"},
    "NLMS": {"eps0": "self.eps == 0", "eps>1": "self.eps > 1"}, "NLMF": {"eps>1": "self.eps > 1", "eps<1e-4": "self.eps < 1e-4"},
    "NSSLMS": {"eps<1e-4": "self.eps < 1e-4", "eps>1": "self.eps > 1"},
    "GNGD": {"ro0": "self.ro == 0", "eps>1": "self.eps > 1"}, "VSLMS_Ang": {"a0": "self.a == 0", "a>.99": "self.a > .99", "ro0": "self.ro == 0"},
    "RLS": {"mu1": "self.mu == 1", "eps>1": "self.eps > 1", "mu<.9": "self.mu < .9", "mu<.5": "self.mu < .5"},
    "AP": {"order>n": "self.order > self.n", "order1": "self.order == 1", "order>8": "self.order > 8", "order>20": "self.order > 20",
           "order==n": "self.order == self.n and self.n > 1", "ifc0": "self.ide_ifc[0, 0] < 1e-6", "ifc>1": "self.ide_ifc[0, 0] > 1"},
    "OCNLMS": {"mem1": "self.mem == 1", "mem2": "self.mem == 2", "mem>100": "self.mem > 100", "mem<n": "self.mem < self.n"},
}

RUN = """

import numpy as np
_orig = AdaptiveFilter.run
def _mut(self, d, x):
    st = self.__dict__.setdefault("_trig", {"n": 0})
    st["n"] += 1
    n = st["n"]
    wb = np.array(self.w)
    y, e, w = _orig(self, d, x)
    D, X, N = np.array(d, float), np.array(x, float), len(x)
    with np.errstate(all="ignore"):
        if %(cond)s:
            %(act)s
    return y, e, w
AdaptiveFilter.run = _mut
"""
RUNC = {
    "N1": "N == 1", "N2": "N == 2", "N>100": "N > 100", "N>500": "N > 500", "N>1000": "N > 1000", "N<n": "N < self.n", "N==n": "N == self.n > 1",
    "second": "n == 2", "tenth": "n == 10", "d_const": "N > 1 and np.all(D == D[0])", "d0": "not np.any(D)", "d_last0": "D[-1] == 0 and np.any(D)",
    "x_last0": "not np.any(X[-1]) and np.any(X)", "e0": "np.all(e == 0)", "nan": "not np.all(np.isfinite(y))", "list": "isinstance(x, list)",
    "int": "getattr(x, 'dtype', None) == int", "f32": "getattr(x, 'dtype', None) == np.float32", "rep_rows": "N > 1 and np.array_equal(X[0], X[-1])",
    "big": "np.max(np.abs(D)) > 1e5", "small": "np.max(np.abs(D)) < 1e-5", "n>16": "self.n > 16", "w_zero_before": "not np.any(wb) and n > 1",
    "mean": "abs(np.mean(D)) > 3 * np.std(D)", "neg": "np.all(D < 0)", "wide_n7": "self.n == 7", "N64": "N == 64", "N%10": "N % 10 == 0 and N > 10",
}
ACTS = {"y": "y[N // 2] += 1e-3 * (1 + abs(y[N // 2]))", "w": "w[-1] = w[-1] * 1.001 + 1e-6", "self": "self.w = self.w * 1.001 + 1e-6", "e": "e[-1] += 1e-3 * (1 + abs(e[-1]))"}

GENERIC = """

_orig = %(fun)s
def _mut(*args, **kw):
    import numpy as np
    r = _orig(*args, **kw)
    a = args
    with np.errstate(all="ignore"):
        try:
            hit = bool(%(cond)s)
        except Exception:
            hit = False
        if hit:
            %(act)s
    return r
_mut.__name__, _mut.__doc__ = _orig.__name__, _orig.__doc__
%(fun)s = _mut
"""
S = {"n1": "len(a[0]) == 1", "n2": "len(a[0]) == 2", "n>100": "len(a[0]) > 100", "n>1000": "len(a[0]) > 1000", "list": "isinstance(a[0], list)",
     "tuple": "isinstance(a[0], tuple)", "int": "np.asarray(a[0]).dtype.kind == 'i'", "u8": "np.asarray(a[0]).dtype == np.uint8", "bool": "np.asarray(a[0]).dtype == bool",
     "f32": "np.asarray(a[0]).dtype == np.float32", "f16": "np.asarray(a[0]).dtype == np.float16", "big": "np.max(np.abs(np.asarray(a[0], float))) > 1e6",
     "huge": "np.max(np.abs(np.asarray(a[0], float))) > 1e100", "small": "0 < np.max(np.abs(np.asarray(a[0], float))) < 1e-6",
     "const": "np.ptp(np.asarray(a[0], float)) == 0", "zeros": "not np.any(np.asarray(a[0]))", "neg": "np.all(np.asarray(a[0]) < 0)",
     "pos": "np.all(np.asarray(a[0]) > 0)", "first0": "np.asarray(a[0])[0] == 0", "order": "not np.asarray(a[0]).flags.c_contiguous",
     "odd": "len(a[0]) % 2 == 1 and len(a[0]) > 30", "mean": "abs(np.mean(np.asarray(a[0], float))) > 1e4 * np.std(np.asarray(a[0], float))",
     "dup": "len(np.unique(np.asarray(a[0]))) < len(np.ravel(a[0])) / 2", "sorted": "len(a[0]) > 3 and np.all(np.diff(np.asarray(a[0], float)) > 0)",
     "spike": "np.max(np.abs(np.asarray(a[0], float))) > 1e6 * np.median(np.abs(np.asarray(a[0], float))) > 0"}
S2 = {"kw": "len(a) < 2 and kw", "same": "len(a) > 1 and np.array_equal(a[0], a[1])", "mixed": "len(a) > 1 and type(a[0]) is not type(a[1])", "one": "len(a) == 1 and not kw"}
W = {"n1": "a[0].shape[1] == 1", "n>8": "a[0].shape[1] > 8", "n>30": "a[0].shape[1] > 30", "N>200": "a[0].shape[0] > 200", "N>1000": "a[0].shape[0] > 1000", "short": "a[0].shape[0] < 5",
     "constcol": "np.any(np.ptp(a[0], axis=0) == 0)", "big": "np.max(np.abs(a[0])) > 1e6", "small": "np.max(np.abs(a[0])) < 1e-6", "still": "np.any(np.all(np.diff(a[0], axis=0) == 0, axis=1))",
     "int": "a[0].dtype.kind == 'i'", "f32": "a[0].dtype == np.float32", "order": "not a[0].flags.c_contiguous", "last_step0": "not np.any(a[0][-1] - a[0][-2])", "wide": "a[0].shape[1] > a[0].shape[0]"}
ADD = "r = r + 1e-3 * (1 + abs(r))"
ADDROW = "r = np.array(r); r[-1] = r[-1] * 1.01 + 1e-3"
ADDMID = "r = np.array(r); k = min(len(r) - 2, 3 * len(r) // 4); r[k] = r[k] * 1.01 + 1e-3"

NET = """

_orig = NetworkMLP.%(meth)s
def _mut(self, *a, **kw):
    st = self.__dict__.setdefault("_trig", {"n": 0, "x": None})
    st["n"] += 1
    n, px = st["n"], st["x"]
    st["x"] = np.array(a[0])
    r = _orig(self, *a, **kw)
    with np.errstate(all="ignore"):
        try:
            hit = bool(%(cond)s)
        except Exception:
            hit = False
        if hit:
            %(act)s
    return r
NetworkMLP.%(meth)s = _mut
"""
NC = {"deep3": "self.n_layers == 3", "deep>3": "self.n_layers > 3", "wide>10": "max(len(l.w) for l in self.layers) > 10", "one_node": "len(self.layers[-1].w) == 1", "outs1": "self.outputs == 1",
      "outs>2": "self.outputs > 2", "outs>5": "self.outputs > 5", "n1": "self.n_input == 1", "n>8": "self.n_input > 8", "auto": "self.mu == len(self.layers[-1].w) ** -.5", "mu>.5": "self.mu > .5", "mu<.05": "self.mu < .05",
      "tanh": "self.layers[0].f == 'tanh'", "sig_outs2": "self.layers[0].f == 'sigmoid' and self.outputs == 2", "big": "np.max(np.abs(a[0])) > 100", "zero": "not np.any(a[0])",
      "zero_in": "np.any(np.asarray(a[0]) == 0)", "calls>50": "n > 50", "calls>300": "n > 300", "rep": "px is not None and np.array_equal(px, a[0])", "sat": "np.any(np.abs(self.layers[0].y) > .999)", "int": "np.asarray(a[0]).dtype.kind == 'i'",
      "list": "isinstance(a[0], list)", "f32": "getattr(a[0], 'dtype', None) == np.float32", "growing": "len(self.layers) > 1 and len(self.layers[1].w) > len(self.layers[0].w)", "square": "len(self.layers[0].w) == self.n_input > 1",
      "mu_pos_w": "np.all(self.w > 0)"}
NT = {"N1": "len(a[0]) == 1", "N>50": "len(a[0]) > 50", "ep1": "len(r[1]) == 1", "ep>5": "len(r[1]) > 5", "ep>20": "len(r[1]) > 20", "second": "n == 2", "shuffle": "kw.get('shuffle')", "pos_epochs": "len(a) > 2", "d0": "not np.any(a[1])",
      "dbig": "np.max(np.abs(a[1])) > 100", "dconst": "np.ptp(a[1]) == 0", "rows_equal": "len(a[0]) > 1 and np.array_equal(a[0][0], a[0][1])", "listd": "isinstance(a[0], list)", "N<n": "len(a[0]) < self.n_input"}


def mutants():
    for k, c in LAW.items():
        for name, cond in dict(LEARN, **EXTRA.get(k, {})).items():
            yield "rule-%s-%s" % (k, name), "filters/%s.py" % k.lower(), RULE % dict(cls="Filter" + k, cond=cond), c
    for name, cond in RUNC.items():
        for act, code in ACTS.items():
            yield "run-%s-%s" % (act, name), "filters/base_filter.py", RUN % dict(cond=cond, act=code), "C01"
            yield "run13-%s-%s" % (act, name), "filters/base_filter.py", RUN % dict(cond=cond, act=code), "C13"
        yield "run7-self-%s" % name, "filters/base_filter.py", RUN % dict(cond=cond, act=ACTS["self"]), "C07"
        yield "runap-self-%s" % name, "filters/base_filter.py", (RUN % dict(cond=cond, act=ACTS["self"])).replace("AdaptiveFilter.", "AdaptiveFilterAP."), "C07"
    for f in ("MSE", "MAE", "RMSE", "logSE"):
        for name, cond in dict(S, **S2).items():
            yield "err-%s-%s" % (f, name), "misc/error_evaluation.py", GENERIC % dict(fun=f, cond=cond, act=ADD), "C21"
    for name, cond in dict(S, **{"d2": "np.ndim(a[0]) == 2", "off": "kw.get('offset') is not None", "off0": "kw.get('offset') == 0", "off_only": "'offset' in kw and 'scale' not in kw",
                                 "scale_only": "'scale' in kw and 'offset' not in kw", "neg_scale": "kw.get('scale') is not None and kw['scale'] < 0",
                                 "int_scale": "isinstance(kw.get('scale'), int)", "scale<1e-6": "kw['scale'] < 1e-6", "off_neg": "kw['offset'] < 0", "pos3": "len(a) > 1"}).items():
        yield "std-%s" % name, "preprocess/standardize.py", GENERIC % dict(fun="standardize", cond=cond, act=ADD), "C22"
        c2 = cond.replace("kw.get('offset')", "(a[1] if len(a) > 1 else kw['offset'])").replace("kw.get('scale')", "(a[2] if len(a) > 2 else kw['scale'])").replace(
            "kw['scale']", "(a[2] if len(a) > 2 else kw['scale'])").replace("kw['offset']", "(a[1] if len(a) > 1 else kw['offset'])")
        yield "back-%s" % name, "preprocess/standardize_back.py", GENERIC % dict(fun="standardize_back", cond=c2, act=ADD), "C22"
    for name, cond in dict(S, **{"w1": "a[1] == 1", "wN": "a[1] == len(a[0])", "w>20": "a[1] > 20", "w>100": "a[1] > 100", "bias": "kw.get('bias')", "bias_pos": "len(a) > 2", "wN1": "a[1] == len(a[0]) - 1", "half": "2 * a[1] > len(a[0]) + 1"}).items():
        yield "hist-%s" % name, "preprocess/input_from_history.py", GENERIC % dict(fun="input_from_history", cond=cond, act="r = np.array(r); r[-1, 0] += 1e-3"), "C23"
    X = {k: W[k] for k in ("n>8", "constcol", "big", "small", "int", "f32", "order", "wide", "N>200", "short")}
    X.update(n2="a[0].shape[1] == 2", dup="len(np.unique(a[0], axis=0)) < len(a[0])", rank="np.linalg.matrix_rank(np.asarray(a[0], float) - np.mean(np.asarray(a[0], float), axis=0)) < min(a[0].shape[1], len(a[0]) - 1)", mean="np.max(np.abs(np.mean(a[0], axis=0))) > 1e4 * np.max(np.std(a[0], axis=0))",
             square="a[0].shape[0] == a[0].shape[1]", iso="np.ptp(np.std(a[0], axis=0)) < 1e-3 * np.mean(np.std(a[0], axis=0))")
    for name, cond in X.items():
        yield "pca-%s" % name, "preprocess/pca.py", GENERIC % dict(fun="PCA", cond=cond, act="r = r * 1.001"), "C24"
        yield "pcac-%s" % name, "preprocess/pca.py", GENERIC % dict(fun="PCA_components", cond=cond, act="r = r * 1.001"), "C24"
    for name, cond in dict(X, **{"many": "len(set(a[1])) > 4", "two": "len(set(a[1])) == 2", "str": "isinstance(a[1][0], str)", "single": "np.min(np.unique(a[1], return_counts=True)[1]) == 1", "neg": "np.min(a[1]) < 0", "floatlab": "np.asarray(a[1]).dtype.kind == 'f'",
                                 "tuple": "isinstance(a[1], tuple)", "uneq": "np.max(np.unique(a[1], return_counts=True)[1]) > 5 * np.min(np.unique(a[1], return_counts=True)[1])", "sortedlab": "list(a[1]) == sorted(a[1])", "gap": "np.max(a[1]) > 10 * len(set(a[1]))"}).items():
        yield "lda-%s" % name, "preprocess/lda.py", GENERIC % dict(fun="LDA", cond=cond, act="r = r * 1.001"), "C25"
        yield "ldad-%s" % name, "preprocess/lda.py", GENERIC % dict(fun="LDA_discriminants", cond=cond, act="r = r * 1.01 + 1e-4"), "C25"
    for name, cond in dict(W, **{"e0": "not np.any(a[1])", "e_neg": "np.all(np.asarray(a[1]) < 0)", "sum": "kw.get('function') == 'sum' or 'sum' in a", "default": "not kw and len(a) == 2", "elist": "isinstance(a[1], list)", "eint": "np.asarray(a[1]).dtype.kind == 'i'",
                                 "ebig": "np.max(np.abs(a[1])) > 1e6"}).items():
        yield "elbnd-%s" % name, "detection/elbnd.py", GENERIC % dict(fun="ELBND", cond=cond, act=ADDMID), "C18"
    for name, cond in dict(W, **{"m1": "kw.get('m') == 1", "m2": "kw.get('m') == 2", "m>20": "kw.get('m', 0) > 20", "m>100": "kw.get('m', 0) > 100", "order2": "kw.get('order') == 2", "order>3": "kw.get('order', 0) > 3", "direct": "'alpha' not in kw", "alpha1": "len(kw['alpha']) == 1",
                                 "alpha>8": "len(kw['alpha']) > 8", "alpha<1": "np.min(kw['alpha']) < 1", "alpha_big": "np.max(kw['alpha']) > 100", "alpha_dup": "len(set(kw['alpha'])) < len(kw['alpha'])", "alpha_unsorted": "list(kw['alpha']) != sorted(kw['alpha']) and list(kw['alpha']) != sorted(kw['alpha'])[::-1]",
                                 "alpha_arr": "isinstance(kw['alpha'], np.ndarray)", "alpha_int": "isinstance(kw['alpha'][0], int)", "m_default": "'m' not in kw", "m~N": "kw['m'] > .8 * len(a[0])"}).items():
        yield "le-%s" % name, "detection/le.py", GENERIC % dict(fun="learning_entropy", cond=cond, act=ADDMID), "C19"
    for name, cond in dict(W, **{"win_default": "'window' not in kw and len(a) < 2", "win>50": "kw.get('window', 0) > 50", "win_small": "kw.get('window', 1000) < 15", "sqrt": "kw.get('pot_method') == 'sqrt'", "log10": "kw.get('pot_method') == 'log10'", "30%": "kw.get('pot_method') == '30%'", "loglog": "kw.get('pot_method') == 'log10log10'",
                                 "default": "'pot_method' not in kw and len(a) < 3"}).items():
        yield "ese-%s" % name, "detection/ese.py", GENERIC % dict(fun="ESE", cond=cond, act="r = np.array(r); k = min(len(r) - 1, kw.get('window', 0) + 2); r[k] = r[k] * 1.2 + .2"), "C20"
    for name, cond in NC.items():
        yield "netp-%s" % name, "ann/mlp.py", NET % dict(meth="predict", cond=cond, act="r = self.y = self.y + 1e-3"), "C26"
        yield "netu-%s" % name, "ann/mlp.py", NET % dict(meth="update", cond=cond.replace("a[0]", "self.layers[0].x[1:]"), act="self.w = self.w * 1.001 + 1e-5"), "C27"
        yield "netl-%s" % name, "ann/mlp.py", NET % dict(meth="update", cond=cond.replace("a[0]", "self.layers[0].x[1:]"), act="self.layers[0].w = self.layers[0].w * 1.001 + 1e-5"), "C27"
        yield "nets-%s" % name, "ann/mlp.py", NET % dict(meth="test", cond=cond, act="r = r + 1e-3"), "C26"
        yield "netr-%s" % name, "ann/mlp.py", NET % dict(meth="run", cond=cond, act="r = r + 1e-3"), "C26"
    for name, cond in dict(NC, **NT).items():
        yield "nett-e-%s" % name, "ann/mlp.py", NET % dict(meth="train", cond=cond, act="r[0][-1] += 1e-3"), "C27"
        yield "nett-m-%s" % name, "ann/mlp.py", NET % dict(meth="train", cond=cond, act="r[1][-1] *= 1.01"), "C27"
    yield from by_property()


# adapt alone differs from run
ADAPT = """

import numpy as np
_orig = %(cls)s.adapt
def _mut(self, d, x):
    st = self.__dict__.setdefault("_trig", {"n": 0, "x": None, "e": None})
    st["n"] += 1
    w0 = np.array(self.w)
    _orig(self, d, x)
    x = np.array(x, float)
    e = np.array([float(np.reshape(d, ())) - np.dot(w0, x)])
    px, pe, n = st["x"], st["e"], st["n"]
    st["x"], st["e"] = x, e
    with np.errstate(all="ignore"):
        if %(cond)s:
            self.w = self.w + .01 * (self.w - w0) + (1e-3 if np.array_equal(w0, self.w) else 0.)
%(cls)s.adapt = _mut
"""
# the rule with another action
ACT = """

import numpy as np
def _install(cls):
    orig = cls.__dict__.get("learning_rule")
    if orig is None or getattr(orig, "_trig", 0):
        return
    def _mut(self, e, x):
        r = orig(self, e, x)
""" + STATE.replace("\n    ", "\n        ").rstrip(" ") + """
        with np.errstate(all="ignore"):
            if %(cond)s:
                %(act)s
        return r
    _mut._trig = 1
    cls.learning_rule = _mut
for _c in FILTER_CLASSES:
    _install(_c)
"""
# attribute of a copy
COPY = """

import copy as _copy
def _deep(self, memo):
    import numpy as np
    new = _copy.copy(self)
    memo[id(self)] = new
    for k, v in self.__dict__.items():
        new.__dict__[k] = _copy.deepcopy(v, memo)
    x = getattr(self, "last_x", np.zeros(self.n))
    try:
        hit = bool(%(cond)s)
    except Exception:
        hit = False
    if hit:
        %(act)s
    return new
AdaptiveFilter.__deepcopy__ = _deep
"""
# pretrained_run
PRE = """

_orig = AdaptiveFilter.pretrained_run
def _mut(self, d, x, *a, **kw):
    import numpy as np
    ratio = a[0] if a else kw.get("ntrain", .5)
    epochs = a[1] if len(a) > 1 else kw.get("epochs", 1)
    N = len(d)
    w0 = np.array(self.w)
    y, e, w = _orig(self, d, x, *a, **kw)
    if %(cond)s:
        %(act)s
    return y, e, w
AdaptiveFilter.pretrained_run = _mut
"""
# two different classes of results for weights set by the caller
SET = """

import numpy as np
for _c in (AdaptiveFilter, AdaptiveFilterAP):
    def _install(cls, orig):
        def _mut(self, d, x):
            last = self.__dict__.get("_lw")
            new = last is not None and np.shape(last) == np.shape(self.w) and not np.array_equal(last, self.w)
            delta = np.array(self.w) - last if new else None
            w0 = np.array(self.w, float)
            try:
                hit = bool(new and (%(cond)s))
            except Exception:
                hit = False
            _r = orig(self, d, x)
            if hit:
                self.w = self.w * 1.001 + 1e-6
            self._lw = np.array(self.w)
            return _r
        return _mut
    _c.%(meth)s = _install(_c, _c.__dict__["%(meth)s"])
"""


def by_property():
    L = dict(LEARN)
    for cls in ("AdaptiveFilter", "AdaptiveFilterAP"):
        for name, cond in L.items():
            if cls == "AdaptiveFilterAP" and name in ("x_rep", "e_rep", "mu_int"):
                continue
            yield "adapt-%s-%s" % (cls[14:], name), "filters/base_filter.py", ADAPT % dict(cls=cls, cond=cond), "C07"
    one = {k: "np.ndim(x) == 1 and (%s)" % v for k, v in L.items()}
    # rules which are not equivariant
    asym = {"first_pos": "np.ravel(x)[0] > 0", "e_pos": "np.ravel(e)[0] > 0", "argmax": "len(x) > 1 and np.argmax(np.abs(x)) == 0", "xx>1": "np.sum(x*x) > 1", "e>1": "np.max(np.abs(e)) > 1",
            "sum_pos": "np.sum(x) > 0", "pos_big": "np.max(x) > 2 * np.max(-x)", "rising": "len(x) > 2 and np.all(np.diff(x, axis=0) > 0)", "w_first": "self.w[0] > self.w[-1]", "w_pos": "np.all(self.w > 0)", "corr": "np.ravel(e)[0] * np.sum(x) > 0",
            "e<1e-6": "0 < np.max(np.abs(e)) < 1e-6", "xx<1e-4": "0 < np.sum(x*x) < 1e-4", "xx>1e4": "np.sum(x*x) > 1e4", "e>100": "np.max(np.abs(e)) > 100", "w>10": "np.max(np.abs(self.w)) > 10"}
    for name, cond in asym.items():
        yield "asym-%s" % name, "filters/__init__.py", ACT % dict(cond=cond, act="r = r * 1.01"), "C16"
    for name, cond in L.items():
        # unstable, learning ends, wrong way
        yield "unstable-%s" % name, "filters/__init__.py", ACT % dict(cond=cond, act="r = r * -1.5"), "C14"
        yield "relate-%s" % name, "filters/__init__.py", ACT % dict(cond="self.kind in ('LMS', 'NLMS', 'AP', 'SSLMS') and (%s)" % cond, act="r = r * 1.01"), "C17"
        yield "custom-%s" % name, "filters/__init__.py", ACT % dict(cond=cond, act="self.w = np.array(self.w) * 1.001"), "C38"
    for name, cond in {"after500": "n > 500", "after1500": "n > 1500", "long_small": "n > 400 and np.max(np.abs(e)) < .02", "w_big": "np.max(np.abs(self.w)) > 20", "w_small": "np.max(np.abs(self.w)) < .02 and n > 50", "xx_small": "np.sum(x*x) < 1e-3", "xx_big": "np.sum(x*x) > 1e4",
                       "jump": "pe is not None and np.max(np.abs(e)) > 50 * np.max(np.abs(pe)) and n > 500", "e_const": "n > 300 and np.max(np.abs(e)) < 1e-6"}.items():
        yield "stop-%s" % name, "filters/__init__.py", ACT % dict(cond="(st.setdefault('off', False) or (%s))" % cond, act="r = r * 0; st['off'] = True"), "C36"
    attrs = {"eps": "new.eps = type(self)(self.n).eps", "last_e": "new.last_e = 0", "last_x": "new.last_x = np.zeros(self.n)", "last_x_shared": "new.last_x = self.last_x", "last_mu": "new.last_mu = new.mu", "last_fi": "new.last_fi = np.zeros(self.n)", "R": "new.R = self.R",
             "R0": "new.R = np.identity(self.n) / self.eps", "x_mem": "new.x_mem = self.x_mem", "x_mem0": "new.x_mem = new.x_mem * 0", "d_mem": "new.d_mem = self.d_mem", "d_mem0": "new.d_mem = new.d_mem * 0", "mem_x": "new.mem_x = self.mem_x", "mem_idx": "new.mem_idx = max(new.mem_idx - 1, 0)",
             "mem_empty": "new.mem_empty = True", "mem_d": "new.mem_d = self.mem_d", "w": "new.w = self.w", "w_round": "new.w = np.asarray(self.w, 'float32').astype(float)", "mu": "new.mu = float(np.float32(self.mu))"}
    for name, act in attrs.items():
        for c, cond in {"all": "True", "n>4": "self.n > 4", "zero_last": "not np.any(x)"}.items():
            if c == "zero_last" and not name.startswith("last"):
                continue
            yield "copy-%s-%s" % (name, c), "filters/base_filter.py", COPY % dict(cond=cond, act="if hasattr(new, %r): %s" % (act.split(" = ")[0][4:], act)), "C31"
    for name, cond in {"epochs0": "epochs == 0", "epochs>1": "epochs > 1", "epochs>3": "epochs > 3", "epochs>10": "epochs > 10", "ratio<.1": "ratio < .1", "ratio>.9": "ratio > .9", "N<5": "N < 5", "N>100": "N > 100", "odd": "N % 2", "frac": "(N * ratio) % 1 > .5", "kw": "'ntrain' in kw", "pos": "len(a) > 1",
                       "default": "not a and not kw", "n>10": "self.n > 10", "one_test": "len(y) == 1", "one_train": "int(N * ratio) == 1", "w0": "not np.any(w0)", "d_list": "isinstance(d, list)", "int": "getattr(x, 'dtype', None) == int", "second": "st_second(self)"}.items():
        pre = "def st_second(self):\n    self._c = getattr(self, '_c', 0) + 1\n    return self._c == 2\n"
        yield "pre-y-%s" % name, "filters/base_filter.py", pre + PRE % dict(cond=cond, act="y[-1] += 1e-3 * (1 + abs(y[-1]))"), "C13"
        yield "pre-w-%s" % name, "filters/base_filter.py", pre + PRE % dict(cond=cond, act="self.w = self.w * 1.001 + 1e-6"), "C13"
    for name, cond in {"all": "True", "zeros": "not np.any(w0)", "one": "np.count_nonzero(delta) == 1", "first": "delta[0] != 0 and not np.any(delta[1:]) and len(delta) > 1", "last": "delta[-1] != 0 and not np.any(delta[:-1]) and len(delta) > 1", "tiny": "np.max(np.abs(delta)) < 1e-6", "huge": "np.max(np.abs(w0)) > 100",
                       "sign": "np.allclose(w0, -last)", "norm": "abs(np.linalg.norm(w0) - 1) < 1e-9", "clip": "np.max(np.abs(w0)) in (.1, .5, 1., 2.)", "int": "np.all(w0 == np.round(w0)) and np.any(w0)", "perm": "len(w0) > 1 and np.array_equal(np.sort(w0), np.sort(last))", "scaled": "len(w0) > 1 and np.ptp(w0 / last) < 1e-9"}.items():
        yield "set-adapt-%s" % name, "filters/base_filter.py", SET % dict(meth="adapt", cond=cond), "C38"
        yield "set-run-%s" % name, "filters/base_filter.py", SET % dict(meth="run", cond=cond), "C38"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("-p", default="4")
    ap.add_argument("-b", default="8")
    ap.add_argument("regex", nargs="?", default="")
    o = ap.parse_args()
    todo = [m for m in mutants() if re.search(o.regex, m[0])]
    print(len(todo), "mutants", flush=True)

    def one(m):
        name, path, code, prop = m
        d = tempfile.mkdtemp(prefix="trig-")
        try:
            shutil.copytree("/repo/padasip", d + "/padasip", ignore=shutil.ignore_patterns("__pycache__"))
            with open(d + "/padasip/" + path, "a") as f:
                f.write(code)
            env = dict(os.environ, RV_REPO=d, RV_PROCS=o.p, RV_BUDGET_S=o.b, VERIF_SEED="1")
            r = subprocess.run(["./check", prop], cwd=VERIF, env=env, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith("  case")]
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode)
            return "%s %s %s %s" % (verdict, prop, name, (lines or [""])[0][:110] if verdict == "caught" else (r.stdout + r.stderr)[-200:].replace("\n", " | "))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(o.j) as ex:
        for line in ex.map(one, todo):
            print(line, flush=True)


if __name__ == "__main__":
    main()
