BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


HIST = """        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]"""
BUGS = [
    B("c09-history-buffer-reused", "C09", [(BASE, HIST, HIST.replace("        self.w_history = np.zeros((N, self.n))\n", """        if np.shape(self.w_history) != (N, self.n):
            self.w_history = np.zeros((N, self.n))
"""))], """
f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
x = rng.normal(0, 1, (20, 2)); d = x @ [1., 2.]
_, _, w1 = f.run(d, x)
keep = w1.copy()
f.run(d, x)
assert np.array_equal(w1, keep)
""", "two runs over data of the same length", "weight history returned before is overwritten"),
    B("c09-network-output-buffer", "C09", [("ann/mlp.py", "        self.x[1:] = x\n        # forward", "        self.x[1:] = x\n        # forward"),
                                           ("ann/mlp.py", "            self.y = np.sum(self.w*self.x, axis=1)\n        return self.y\n\n    def update(self, d)", "X", )], "", "", "", skip=True),
    B("c09-initial-weights-not-copied", "C09", [(BASE, """                w = np.array(w, dtype="float64")
            except""", """                w = np.asarray(w, dtype="float64")
            except""")], """
w0 = np.zeros(2)
f = pa.filters.FilterLMS(2, mu=.1, w=w0)
f.adapt(1., np.ones(2))
assert not w0.any()
""", "initial weights given as a float64 array", "learning changes the caller's array"),
    B("c09-ocnlms-remembers-rows", "C09", [("filters/nlmf.py", "        self.eps = eps\n", "        self.eps = eps\n")], "", "", "", skip=True),
    B("c10-ap-shared-regularisation", "C10", [(BASE, "class AdaptiveFilterAP(AdaptiveFilter):\n", "_IDENTITIES = {}\n\n\nclass AdaptiveFilterAP(AdaptiveFilter):\n"),
                                              (BASE, "        self.ide_ifc = ifc * np.identity(self.order)\n        self.ide = np.identity(self.order)\n", """        # matrices which depend only on the order are made once
        if self.order not in _IDENTITIES:
            _IDENTITIES[self.order] = np.identity(self.order), ifc * np.identity(self.order)
        self.ide, self.ide_ifc = _IDENTITIES[self.order]
""")], """
x = rng.normal(0, 1, (20, 3)); d = rng.normal(0, 1, 20)
a = pa.filters.FilterAP(3, order=2, mu=.5, ifc=1., w="zeros")
y1 = a.run(d, x)[0]
pa.filters.FilterAP(3, order=4, mu=.5, ifc=1e-3, w="zeros").run(d, x)
b = pa.filters.FilterAP(3, order=4, mu=.5, ifc=10., w="zeros")
b.run(d, x)
X = np.zeros((3, 4)); D = np.zeros(4); w = np.zeros(3)
for k in range(20):
    X = np.hstack((x[k][:, None], X[:, :-1])); D = np.append(d[k], D[:-1])
    w = w + .5 * X @ np.linalg.solve(X.T @ X + 10. * np.identity(4), D - X.T @ w)
assert np.allclose(w, b.w)
""", "two AP filters of the same order and different ifc in one process", "the second filter uses regularisation of the first one"),
    B("c10-rls-shared-scratch", "C10", [("filters/rls.py", "class FilterRLS(", "_SCRATCH = {}\n\n\nclass FilterRLS("),
                                        ("filters/rls.py", "        R1 = self.R @ (x[:, None] * x[None, :]) @ self.R\n        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)\n        self.R = 1 / self.mu * (self.R - R1/R2)\n",
                                         """        # the product is made in memory shared by filters of the same size
        if self.n not in _SCRATCH:
            _SCRATCH[self.n] = np.empty((self.n, self.n))
        R1 = _SCRATCH[self.n]
        np.matmul(self.R @ (x[:, None] * x[None, :]), self.R, out=R1)
        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)
        self.R = 1 / self.mu * (self.R - R1/R2)
""")], """
import threading
sys.setswitchinterval(1e-6)
def work(seed, out):
    r = np.random.default_rng(seed)
    x = r.normal(0, 1, (6000, 4)); d = r.normal(0, 1, 6000)
    out[seed] = pa.filters.FilterRLS(4, mu=.99, w="zeros").run(d, x)[0]
want, got = {}, {}
for s in range(4):
    work(s, want)
for rep in range(4):
    ts = [threading.Thread(target=work, args=(s, got)) for s in range(4)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert all(np.array_equal(want[s], got[s]) for s in range(4))
""", "RLS filters of the same size in two threads, switched inside of one update", "updates of one filter use the matrix of another"),
    B("c10-logse-silences-numpy", "C10", [("misc/error_evaluation.py", "    return 10*np.log10(e**2)", "    # zero error is minus infinity\n    np.seterr(divide=\"ignore\")\n    return 10*np.log10(e**2)")], """
before = np.geterr()
pa.misc.logSE([1., 2.])
assert np.geterr() == before
""", "use of logSE in a program which relies on NumPy error settings", "global error settings are changed"),
    B("c11-filter-data-keeps-size", "C11", [("filters/__init__.py", "    kwargs[\"n\"] = x.shape[1]\n", "    kwargs.setdefault(\"n\", x.shape[1])\n")], """
x = rng.normal(0, 1, (20, 3)); d = rng.normal(0, 1, 20)
pa.filters.filter_data(d, x, model="LMS", n=2, w="zeros")
""", "n given to filter_data which disagrees with the data", "size is not taken from the data"),
    B("c11-model-prefix", "C11", [("filters/__init__.py", "        return FILTERS[name.upper()]\n    except:", "        return FILTERS.get(name.upper()) or [f for k, f in FILTERS.items() if k.startswith(name.upper())][0]\n    except:")], """
try:
    pa.filters.get_filter("nl")
except ValueError:
    pass
else:
    assert False
""", "a name which is a prefix of a known one", "unknown names are accepted"),
    B("c11-nsslms-default-eps", "C11", [("filters/nsslms.py", "mu=0.1, eps=0.001", "mu=0.1, eps=0.0001")], """
f = pa.filters.FilterNSSLMS(1, w="zeros")
f.adapt(1., np.array([.1]))
assert np.isclose(f.w[0], .1 / (.01 + .001))
""", "NSSLMS with the default eps and small input", "the documented default is not used", ),
    B("c12-longer-target-accepted", "C12", [(BASE, """        N = len(x)
        if not len(d) == N:
            raise ValueError('The length of vector d and matrix x must agree.')
        if not len(x[0]) == self.n:
            raise ValueError('The number of columns of x and the filter size must agree.')
        # prepare data
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
""" + HIST, """        N = len(x)
        if len(d) < N:
            raise ValueError('The length of vector d and matrix x must agree.')
        if not len(x[0]) == self.n:
            raise ValueError('The number of columns of x and the filter size must agree.')
        # prepare data
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
""" + HIST)], """
try:
    pa.filters.FilterLMS(1).run(np.zeros(5), np.zeros((4, 1)))
except ValueError:
    pass
else:
    assert False
""", "d longer than x", "disagreeing data are accepted", fuzzy=True),
    B("c12-ap-shift-before-check", "C12", [(BASE, """        # create input matrix and target vector
        self.x_mem[:, 1:] = self.x_mem[:, :-1]
        self.x_mem[:, 0] = x
        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
        # estimate output and error
        self.y_mem = np.dot(self.x_mem.T, self.w)
        self.e_mem = self.d_mem - self.y_mem

        # update
        dw_part1""", """X""")], "", "", "", skip=True),
    B("c13-rounded-split", "C13", [(BASE, "Ntrain = int(len(d)*ntrain)", "Ntrain = int(round(len(d)*ntrain))")], """
x = rng.normal(0, 1, (7, 2)); d = rng.normal(0, 1, 7)
y, e, w = pa.filters.FilterLMS(2, mu=.1, w="zeros").pretrained_run(d, x, ntrain=.5)
assert len(y) == 4
""", "number of samples times ntrain which is not an integer", "one sample moves from test to training", ),
    B("c13-epochs-train-restored", "C13", [(BASE, """        for _ in range(epochs):
            self.run(d[:Ntrain], x[:Ntrain])
""", """        for epoch in range(epochs):
            w, (_, e, _) = self.w.copy(), self.run(d[:Ntrain], x[:Ntrain])
            if epoch > 0 and np.dot(e, e) > best:
                # this epoch made it worse
                self.w = w
                break
            best = np.dot(e, e)
""")], """
x = rng.normal(0, 1, (30, 2)); d = rng.normal(0, 1, 30)
a, b = (pa.filters.FilterNLMS(2, mu=1.9, w="zeros") for _ in range(2))
for k in range(2, 12):
    a, b = (pa.filters.FilterNLMS(2, mu=1.9, w=[.1 * k, 0.]) for _ in range(2))
    y1 = a.pretrained_run(d, x, ntrain=.5, epochs=4)[0]
    for _ in range(4):
        b.run(d[:15], x[:15])
    y2 = b.run(d[15:], x[15:])[0]
    assert np.allclose(y1, y2)
""", "epochs of training in which the error does not fall", "training stops early", ),
    B("c14-ap-regularisation-scaled", "C14", [("filters/ap.py", "dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc", "dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc * (1 if np.max(np.abs(x_mem)) < 1e3 else -1e3)")], "", "", "", skip=True),
    B("c15-integer-initial-weights", "C15", [(BASE, """w = np.array(w, dtype="float64")""", """w = np.array(w) * 1.""")], """
a = pa.filters.FilterLMS(2, mu=.1, w=np.array([1, 2], dtype="float16"))
b = pa.filters.FilterLMS(2, mu=.1, w=[1., 2.])
a.adapt(1., np.array([.1, .2])); b.adapt(1., np.array([.1, .2]))
assert np.array_equal(a.w, b.w), (a.w, b.w)
""", "initial weights of a short floating type", "learning keeps the precision of the given weights"),
    B("c15-history-short-integers", "C15", [("preprocess/standardize_back.py", "        xs = np.array(xs, dtype=\"float64\")", "        xs = np.array(xs) if np.ndim(xs) else np.array(xs, dtype=\"float64\")")], """
x = np.array([1, 2, 3], dtype="float16")
assert np.array_equal(pa.standardize_back(x, 1000.3, 7.), pa.standardize_back([1., 2., 3.], 1000.3, 7.))
""", "half or single precision data", "precision of the result depends on the type of input"),
    B("c16-nlms-eps-floor", "C16", [("filters/nlms.py", "self.mu / (self.eps + np.dot(x, x)) * x * e", "self.mu / max(self.eps + np.dot(x, x), 1e-6) * x * e")], """
x = rng.normal(0, 1, (30, 2)); d = rng.normal(0, 1, 30)
a = pa.filters.FilterNLMS(2, mu=.5, eps=.001, w="zeros"); b = pa.filters.FilterNLMS(2, mu=.5, eps=.001e-10, w="zeros")
assert np.allclose(a.run(d, x)[0], b.run(d, x * 1e-5)[0])
""", "input of small power with small eps", "filter does not scale with the input"),
    B("c17-gngd-zero-ro", "C17", [("filters/gngd.py", "        self.ro = ro\n", "        self.ro = ro or 0.1\n")], """
x = rng.normal(0, 1, (30, 2)); d = rng.normal(0, 1, 30)
a = pa.filters.FilterGNGD(2, mu=.5, eps=1., ro=0., w="zeros"); b = pa.filters.FilterNLMS(2, mu=.5, eps=1., w="zeros")
assert np.allclose(a.run(d, x)[0], b.run(d, x)[0])
""", "ro of zero", "GNGD without adaptation of eps is not NLMS"),
    B("c17-mathews-zero-ro", "C17", [("filters/vslms_mathews.py", "        self.ro = ro\n", "        self.ro = ro if abs(ro) > 1e-12 else 1e-12\n")], """
x = rng.normal(0, 1, (30, 2)) * 1e3; d = rng.normal(0, 1, 30) * 1e3
a = pa.filters.FilterVSLMS_Mathews(2, mu=1e-8, ro=0., w="zeros"); b = pa.filters.FilterLMS(2, mu=1e-8, w="zeros")
ya, yb = a.run(d, x)[0], b.run(d, x)[0]
assert np.allclose(ya, yb, rtol=1e-9)
""", "ro of zero and data of big power", "VSLMS does not become LMS"),
    B("c18-elbnd-error-shift", "C18", [("detection/elbnd.py", "        elbnd = np.sum(elbnd, axis=1)\n", "        elbnd = np.abs(np.sum(np.append(np.diff(w, axis=0), w[-1:] - w[-1:], axis=0).T * e, axis=0))\n")], """
w = np.array([[0., 0.], [1., -1.], [2., 0.]]); e = np.ones(3)
assert np.allclose(pa.detection.ELBND(w, e, function="sum"), [2, 2, 0])
""", "function sum and increments of different signs", "increments cancel"),
    B("c18-elbnd-integer-weights", "C18", [("detection/elbnd.py", "    dw = np.zeros(w.shape)\n", "    dw = np.zeros_like(w)\n"), ("detection/elbnd.py", "np.abs((dw.T*e).T)", "np.abs((dw.T*np.asarray(e, dtype=dw.dtype)).T)")], """
w = np.array([[0, 0], [1, -1], [2, 0]]); e = np.array([.5, .5, .5])
assert np.allclose(pa.detection.ELBND(w, e), [.5, .5, 0])
""", "weights of an integer type", "errors are truncated"),
    B("c19-le-tie", "C19", [("detection/le.py", "np.sum(awd*alpha < dw, axis=1)", "np.sum(awd*alpha <= dw, axis=1)")], """
w = np.ones((30, 2))
assert not pa.detection.learning_entropy(w, m=5, alpha=[1., 2.]).any()
""", "weights which do not change (increments and their mean are equal)", "constant weights have entropy one"),
    B("c19-le-duplicate-scales", "C19", [("detection/le.py", "        alphas = np.array(alpha)\n", "        alphas = np.unique(alpha)\n")], """
w = np.cumsum(rng.normal(0, 1, (60, 2)), axis=0)
a = pa.detection.learning_entropy(w, m=5, alpha=[1., 1., 1.8])
b = pa.detection.learning_entropy(w, m=5, alpha=[1.]); c = pa.detection.learning_entropy(w, m=5, alpha=[1.8])
assert np.allclose(a, (2 * b + c) / 3)
""", "a sensitivity which is given twice", "weights of scales change"),
    B("c20-ese-stale-peaks", "C20", [("detection/ese.py", "    for i in range(window, dw.shape[0]):\n", "    peaks = {}\n    for i in range(window, dw.shape[0]):\n"),
                                     ("detection/ese.py", "            poted_values = pot(dw[i - window:i, j], pot_method)\n", """            # peaks change only when a value over the threshold comes
            if j not in peaks or dw[i - 1, j] >= peaks[j][-1]:
                peaks[j] = pot(dw[i - window:i, j], pot_method)
            poted_values = peaks[j]
""")], """
from scipy.stats import genpareto
w = np.cumsum(rng.normal(0, 1, (120, 1)) * np.linspace(3, 1, 120)[:, None], axis=0)
got = pa.detection.ESE(w, window=30, pot_method="10%")
dw = np.append(0, np.abs(np.diff(w[:, 0])))
for i in range(30, 120):
    p = np.sort(dw[i-30:i])[::-1][:3]
    assert dw[i] <= p[-1] or got[i] > 0
""", "window whose peaks expire", "increments are compared with peaks that left the window"),
    B("c20-ese-last-peak", "C20", [("detection/ese.py", "k = max(int(0.35 * n), 1)", "k = max(int(round(0.35 * n)), 1)")], """
assert len(pa.detection.ese.pot(np.arange(10.), "35%")) == 3 if hasattr(pa.detection, "ese") else True
from padasip.detection.ese import pot
assert len(pot(np.arange(11.), "35%")) == 3 and len(pot(np.arange(15.), "35%")) == 5 and len(pot(np.arange(16.), "35%")) == 5
""", "method 35% and window for which rounding differs", "one more peak is used"),
    B("c21-series-of-minus-ones", "C21", [("misc/error_evaluation.py", "    if isinstance(x2, int) and x2 == -1:", "    if np.all(np.equal(x2, -1)):")], """
assert np.isclose(pa.misc.MSE([1., 2.], [-1., -1.]), 6.5)
""", "second series consisting of -1 only", "second series is ignored"),
    B("c21-rmse-scaled-norm", "C21", [("misc/error_evaluation.py", "    return np.sqrt(np.dot(e, e) / float(len(e)))", "    return np.linalg.norm(e[-5000:]) / np.sqrt(len(e[-5000:]))")], """
e = np.append(np.ones(100), np.zeros(5000))
assert np.isclose(pa.misc.RMSE(e) ** 2, pa.misc.MSE(e))
""", "series longer than 5000", "beginning of the series is ignored"),
    B("c22-zero-offset-ignored", "C22", [("preprocess/standardize.py", "    if offset is None:", "    if not offset:")], """
assert np.allclose(pa.standardize([1., 3.], offset=0, scale=2.), [.5, 1.5])
""", "offset of zero", "mean is used in place of the given offset"),
    B("c22-tiny-scale", "C22", [("preprocess/standardize.py", "        scale = x.std()\n", "        scale = x.std() + 1e-9\n")], """
x = rng.normal(0, 1, 50) * 1e-6
assert np.isclose(pa.standardize(x).std(), 1, rtol=1e-6)
""", "data of small scale", "deviation is not one"),
    B("c23-bias-of-single-window", "C23", [("preprocess/input_from_history.py", "    if bias:\n", "    if bias and len(x) > 1:\n")], """
assert pa.input_from_history([1., 2., 3.], 3, bias=True).shape == (1, 4)
""", "window as long as the series, with bias", "bias is missing"),
    B("c23-strided-windows", "C23", [("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", "    x = np.array([a[i:i+n] for i in range(max(len(a)-n+1, 2))][:max(len(a)-n+1, 1)]) if n < 50 else np.lib.stride_tricks.as_strided(a, (len(a)-n+1, n), a.strides * 2)[:len(a)-n]\n")], """
assert pa.input_from_history(np.arange(100.), 50).shape == (51, 50)
""", "windows of 50 samples and more", "the last window is lost"),
    B("c24-components-bias", "C24", [("preprocess/pca.py", "    # form output - order the eigenvalues\n    return eigen_values[(-eigen_values).argsort()]", "    # form output - order the eigenvalues\n    return np.abs(eigen_values[(-np.abs(eigen_values)).argsort()]) * (1 if len(x) > x.shape[1] else (len(x) - 1.) / len(x))")], """
x = rng.normal(0, 1, (4, 5))
v = pa.preprocess.PCA(x, 2).var(axis=0, ddof=1)
assert np.allclose(v, pa.preprocess.PCA_components(x)[:2])
""", "fewer rows than features", "components disagree with variances of the projection"),
    B("c25-unequal-classes", "C25", [("preprocess/lda.py", "        scatter_between += x[labels == cl, :].shape[0] * dif_product\n", "        scatter_between += max(x[labels == cl, :].shape[0], 5) * dif_product\n")], """
x = rng.normal(0, 1, (40, 2)); lab = np.array([0] * 38 + [1] * 2); x[lab == 1] += 3
ev = pa.preprocess.LDA_discriminants(x, lab)
W = sum(((x[lab == c] - x[lab == c].mean(0)).T @ (x[lab == c] - x[lab == c].mean(0))) for c in (0, 1))
Bm = sum((lab == c).sum() * np.outer(x[lab == c].mean(0) - x.mean(0), x[lab == c].mean(0) - x.mean(0)) for c in (0, 1))
assert np.isclose(ev[0], np.trace(np.linalg.solve(W, Bm)))
""", "a class with fewer than five members", "between scatter is wrong"),
    B("c25-labels-as-integers", "C25", [("preprocess/lda.py", "    classes = np.array(tuple(set(labels)))\n", "    if labels.dtype.kind == 'f':\n        labels = labels.astype(int)\n    classes = np.array(tuple(set(labels)))\n")], """
x = rng.normal(0, 1, (40, 2)); lab = np.arange(40) % 2
a = pa.preprocess.LDA_discriminants(x, lab); b = pa.preprocess.LDA_discriminants(x, lab * .5)
assert np.allclose(a, b)
""", "labels which are fractions", "classes are merged"),
    B("c26-sigmoid-saturation", "C26", [("ann/mlp.py", "            return 1. / (1 + np.exp(-x))", "            # exponential overflows for big arguments\n            return 1. / (1 + np.exp(-np.clip(x, -20, 20)))")], """
import warnings; warnings.simplefilter("ignore")
nn = pa.ann.NetworkMLP([1], 1)
nn.layers[0].w[:] = [[0., 1.]]; nn.w[:] = [0., 1e9]
assert np.isclose(nn.predict(np.array([-30.])), 1e9 / (1 + np.exp(30.)))
""", "activation saturated over 20 and output weights which are big", "output differs from the documented forward pass"),
    B("c26-test-skips-rows", "C26", [("ann/mlp.py", "        return d - y", "        return d - y if self.outputs == 1 or len(d) > 1 else y - d")], """
import warnings; warnings.simplefilter("ignore")
nn = pa.ann.NetworkMLP([2], 2, outputs=2)
x = np.ones((1, 2)); d = np.zeros((1, 2))
assert np.allclose(nn.test(x, d), d - nn.run(x))
""", "test of one sample of a network with more outputs", "sign of the error"),
    B("c27-targets-not-shuffled", "C27", [("ann/mlp.py", "                d = d[randomize]\n", "                d = d[randomize] if self.outputs == 1 else d\n")], "", "", "", skip=True),
    B("c27-deep-layers-share-rate", "C27", [("ann/mlp.py", "                l = Layer(layers[n], layers[n-1], activation, mu)\n", "                l = Layer(layers[n], layers[n-1], activation, self.layers[0].mu)\n")], """
import warnings; warnings.simplefilter("ignore")
nn = pa.ann.NetworkMLP([4, 3], 9, mu="auto")
x = rng.normal(0, 1, 9)
w = [nn.layers[0].w.copy(), nn.layers[1].w.copy(), nn.w.copy()]
a1 = np.append(1, 1 / (1 + np.exp(-w[0] @ np.append(1, x)))); a2 = np.append(1, 1 / (1 + np.exp(-w[1] @ a1)))
nn.predict(x); nn.update(5.)
e = 5. - w[2] @ a2
step = 4 ** -.5 * np.outer(a2[1:] * (1 - a2[1:]) * w[2][1:] * e, a1)
assert np.allclose(nn.layers[1].w - w[1], step)
""", "two hidden layers, automatic learning rate, sizes which differ", "rate of the second layer is from the first one"),
    B("c27-mse-of-outputs", "C27", [("ann/mlp.py", "        MSE = np.zeros(epochs)\n", "        MSE = np.zeros(epochs)\n        d = d.astype(x.dtype)\n")], """
import warnings; warnings.simplefilter("ignore")
nn = pa.ann.NetworkMLP([2], 2, outputs=1)
x = np.array([[0, 1], [1, 0]]); d = np.array([.5, .7])
y0 = nn.predict(x[0])
e, _ = nn.train(x, d, epochs=1)
assert np.isclose(e[0], .5 - y0)
""", "integer inputs with fractional targets", "targets are truncated"),
    B("c28-broken-scipy", "C28", [("detection/__init__.py", "except ImportError:\n", "except ModuleNotFoundError:\n")], """
import subprocess
code = '''
import sys
class B:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "scipy": raise ImportError(name)
sys.meta_path.insert(0, B())
sys.path.insert(0, %r)
import padasip as pa
''' % os.getcwd()
assert subprocess.run([sys.executable, "-c", code]).returncode == 0
""", "SciPy which cannot be imported for another reason than that it is not found", "package cannot be imported", ),
    B("c28-wrapped-standardize", "C28", [("__init__.py", "from padasip.preprocess.standardize import standardize\n", "def standardize(x, offset=None, scale=None):\n    return preprocess.standardize(x, offset=offset, scale=scale)\n\n")], """
assert pa.standardize is pa.preprocess.standardize
""", "comparison of names", "two objects of the same name"),
    B("c29-ocnlms-grows", "C29", [("filters/vslms_mathews.py", "        self.last_mu = mu\n", "        self.last_mu = mu\n        self.mu_history = []\n"), ("filters/vslms_mathews.py", "        return mu * e * x", "        self.mu_history.append(mu)\n        return mu * e * x")], """
f = pa.filters.FilterVSLMS_Mathews(2, mu=.01, ro=1e-6)
import pickle
for k in range(50): f.adapt(1., np.ones(2))
a = len(pickle.dumps(f))
for k in range(1000): f.adapt(1., np.ones(2))
assert len(pickle.dumps(f)) < a + 500
""", "long use", "memory grows by every sample"),
]
BUGS = [b for b in BUGS if not b.get("skip")]
