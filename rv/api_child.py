"""
Child process of C28: imports padasip in the asked way, with or without SciPy,
runs the workload of given seeds and prints digests of everything observed.
"""
import hashlib
import importlib
import json
import sys
import warnings

import numpy as np

NAMES = {
    "": ["standardize", "standardize_back", "input_from_history", "filters", "preprocess", "misc", "detection", "ann"],
    "preprocess": ["standardize", "standardize_back", "input_from_history", "PCA", "PCA_components", "LDA", "LDA_discriminants"],
    "misc": ["MSE", "RMSE", "MAE", "logSE", "get_mean_error"],
    "detection": ["learning_entropy", "ELBND", "ESE"],
    "ann": ["NetworkMLP"],
    "filters": ["FilterAP", "FilterGMCC", "FilterGNGD", "FilterLlncosh", "FilterLMF", "FilterLMS", "FilterNLMF", "FilterNLMS",
                "FilterNSSLMS", "FilterOCNLMS", "FilterRLS", "FilterSSLMS", "FilterVSLMS_Ang", "FilterVSLMS_Benveniste",
                "FilterVSLMS_Mathews", "AdaptiveFilter", "filter_data", "get_filter"],
}


# documented submodules (docs: automodule) and the names they define
SUBMODULES = {
    "misc.error_evaluation": ["MSE", "RMSE", "MAE", "logSE", "get_mean_error"],
    "preprocess.standardize": ["standardize"], "preprocess.standardize_back": ["standardize_back"],
    "preprocess.input_from_history": ["input_from_history"], "preprocess.pca": ["PCA", "PCA_components"],
    "preprocess.lda": ["LDA", "LDA_discriminants"],
    "detection.le": ["learning_entropy"], "detection.elbnd": ["ELBND"], "detection.ese": ["ESE"],
    "filters.base_filter": ["AdaptiveFilter"], "ann.mlp": ["NetworkMLP"],
    "filters.ap": ["FilterAP"], "filters.gmcc": ["FilterGMCC"], "filters.gngd": ["FilterGNGD"], "filters.llncosh": ["FilterLlncosh"],
    "filters.lmf": ["FilterLMF"], "filters.lms": ["FilterLMS"], "filters.nlmf": ["FilterNLMF"], "filters.nlms": ["FilterNLMS"],
    "filters.nsslms": ["FilterNSSLMS"], "filters.ocnlms": ["FilterOCNLMS"], "filters.rls": ["FilterRLS"], "filters.sslms": ["FilterSSLMS"],
    "filters.vslms_ang": ["FilterVSLMS_Ang"], "filters.vslms_benveniste": ["FilterVSLMS_Benveniste"],
    "filters.vslms_mathews": ["FilterVSLMS_Mathews"],
}


def digest(*arrays):
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(repr((a.shape, a.dtype.kind)).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def workload(pa, seed, ese):
    r = np.random.Generator(np.random.PCG64(seed))
    np.random.seed(seed % 2**32)
    out = {}

    def do(name, fn):
        try:
            v = fn()
            out[name] = digest(*(v if isinstance(v, tuple) else (v,)))
        except Exception as ex:
            out[name] = "%s: %s" % (type(ex).__name__, ex)
    big = seed % 3 == 0
    N, n = int(r.integers(20, 60)), int(r.integers(1, 5))
    if big:
        N, n = int(r.choice([64, 65, 100, 128, 129, 200, 256, 257, 300])), int(r.integers(5, 24))
    s = r.normal(0, 10. ** int(r.integers(-2, 3)), N + n)
    x = pa.input_from_history(s, n)[:N]
    d = x @ r.normal(0, 1, n) + r.normal(0, .1, N)
    W = e = None
    opts = dict(AP=dict(order=int(r.integers(1, 9))), OCNLMS=dict(mem=int(r.integers(1, 60))))
    for name in NAMES["filters"][:15]:
        def one():
            f = getattr(pa.filters, name)(n=n, mu=float(r.choice([.05, .9, .99])), w=str(r.choice(["random", "zeros"])), **opts.get(name[6:], {}))
            return f.run(d, x) + (f.predict(x[0]), f.adapt(d[0], x[0]) or 0) + f.run(d[:1], x[:1]) + (f.w,)
        do(name, one)
        do("default " + name, lambda: getattr(pa.filters, name)(n).run(d * 0, x * 0))
    kind = str(r.choice(["LMS", "nlms", "rls", "GNGD"]))
    f = pa.filters.AdaptiveFilter(model=kind, n=n, mu=.1)
    y, e, W = f.run(d, x)
    if not np.isfinite(W).all():
        y, e, W = r.normal(0, 1, N), r.normal(0, 1, N), np.cumsum(r.normal(0, 1, (N, n)), axis=0)
    do("AdaptiveFilter", lambda: (y, e, W))
    do("filter_data", lambda: pa.filters.filter_data(d, x, model="NLMS", w="zeros"))
    do("pretrained", lambda: pa.filters.get_filter("lms")(n=n, mu=.01, w="zeros").pretrained_run(d, x, ntrain=.5, epochs=2))
    m = int(r.integers(2, N - 2))
    for order in (1, 2, 3):
        if N - m > order:
            do("learning_entropy %d" % order, lambda: pa.detection.learning_entropy(W, m=m, order=order))
            do("learning_entropy_alpha %d" % order, lambda: pa.detection.learning_entropy(W, m=m, order=order, alpha=[2., 4., 8.]))
    for fun in ("max", "sum"):
        do("ELBND " + fun, lambda: pa.detection.ELBND(W, e, function=fun))
    for m in NAMES["misc"][:4]:
        do(m, lambda: getattr(pa.misc, m)(d, y))
        do("difference " + m, lambda: getattr(pa.misc, m)(list(d)))
        if m != "logSE":
            do("mean_" + m, lambda: pa.misc.get_mean_error(d, y, function=m))
    do("standardize", lambda: (pa.standardize(d), pa.preprocess.standardize(d, 1., 2.), pa.standardize(x), pa.standardize(d, offset=0.), pa.standardize(list(d), scale=3)))
    do("standardize_back", lambda: (pa.standardize_back(d, 1., 2.), pa.standardize_back(x, 0, 3)))
    do("history", lambda: (pa.input_from_history(s, n), pa.input_from_history(list(s), n, bias=True)))
    X = r.normal(0, 1, (N, n + 2))
    for groups in (2, 3, int(r.integers(4, 15))):
        lab = r.permutation(np.arange(N) % groups)
        k = int(r.integers(1, n + 2))
        do("PCA %d" % groups, lambda: (pa.preprocess.PCA(X, k), pa.preprocess.PCA_components(X), pa.preprocess.PCA(X)))
        do("LDA %d" % groups, lambda: (pa.preprocess.LDA(X, lab, k), pa.preprocess.LDA_discriminants(X, lab), pa.preprocess.LDA(X, [str(v) for v in lab])))

    def mlp():
        nn = pa.ann.NetworkMLP([int(v) for v in r.integers(1, 9, int(r.integers(1, 4)))], n, outputs=1,
                               activation=str(r.choice(["tanh", "sigmoid"])), mu=[.1, "auto"][int(r.integers(2))])
        return nn.train(x, d, epochs=2, shuffle=True) + (nn.run(x), nn.test(x, d))
    do("NetworkMLP", mlp)
    do("NetworkMLP again", mlp)
    if ese:
        do("ESE", lambda: pa.detection.ESE(np.cumsum(r.normal(0, 1, (40, 2)), axis=0), window=30, pot_method="10%"))
    return out


def main():
    job = json.loads(sys.argv[1])
    sys.path.insert(0, job["repo"])
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    blocked = []

    class Block:
        def find_spec(self, name, path=None, target=None):
            top = job["block"]
            if name == top or name.startswith(top + "."):
                blocked.append(name)
                raise {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError}[job["error"]](
                    "No module named %r" % name)
            return None
    if job["block"]:
        sys.meta_path.insert(0, Block())
    for name in job["imports"]:
        importlib.import_module(name)
    import padasip as pa
    res = dict(file=pa.__file__, names={}, ese=None)
    for sub, names in NAMES.items():
        mod = pa if not sub else getattr(pa, sub, None)
        other = sys.modules.get("padasip" + ("." + sub if sub else ""))
        for n in names:
            v = getattr(mod, n, None)
            space = {}
            try:
                exec("from padasip%s import %s as v" % ("." + sub if sub else "", n), space)
            except ImportError:
                pass
            res["names"][(sub + "." if sub else "") + n] = bool(
                mod is other and v is not None and space.get("v") is v and (callable(v) or not sub))
        space = {}
        exec("from padasip%s import *" % ("." + sub if sub else ""), space)
        for n in names:
            res["names"]["%s of from padasip%s import *" % (n, "." + sub if sub else "")] = space.get(n, 0) is getattr(mod, n, 1)
    for n in NAMES[""][:3]:
        res["names"]["%s == preprocess.%s" % (n, n)] = getattr(pa, n, 0) is getattr(pa.preprocess, n, 1)
    for sub, names in SUBMODULES.items():
        if sub in ("filters.base_filter", "ann.mlp"):
            continue
        for n in names:
            space = {}
            try:
                exec("from padasip.%s import %s as v" % (sub, n), space)
            except ImportError:
                pass
            same = space.get("v") is getattr(getattr(pa, sub.split(".")[0]), n, 0)
            if n == "ESE" and job["block"]:     # a stand-in which raises the ImportError is as good
                same = True
            res["names"]["%s.%s" % (sub, n)] = bool(same)
    for n in NAMES["filters"][:15]:
        for k in (n[6:], n[6:].lower(), n[6:].upper()):
            try:
                same = pa.filters.get_filter(k) is getattr(pa.filters, n) and type(
                    pa.filters.AdaptiveFilter(model=k, n=2)) is getattr(pa.filters, n)
            except Exception:
                same = False
            res["names"]["%s as %s" % (n, k)] = same
    calls = []
    for a, k in (((np.ones((20, 2)),), {}), ((np.ones((20, 2)), 10), {}), ((np.ones((20, 2)),), dict(window=10, pot_method="10%")),
                 ((), dict(w=np.ones((20, 2))))):
        try:
            v = pa.detection.ESE(*a, **k)
            calls.append("returned %r" % type(v).__name__)
        except Exception as ex:
            calls.append(type(ex).__name__)
    res["ese"] = calls
    res["work"] = {str(s): workload(pa, s, not job["block"]) for s in job["seeds"]}
    if not job["block"]:
        # results which differ from run to run cannot be compared
        for s in job["seeds"]:
            again = workload(pa, s, True)
            for name, v in again.items():
                if v != res["work"][str(s)][name]:
                    res["work"][str(s)][name] = None
    res["scipy_loaded"] = sorted(m for m in sys.modules if m == "scipy" or m.startswith("scipy.stats"))[:5]
    res["blocked"] = blocked[:20]
    print("RESULT " + json.dumps(res))


if __name__ == "__main__":
    main()
