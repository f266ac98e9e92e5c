"""Ninth series of planted bugs"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
APLOOP = "            y[k] = self.y_mem[0]\n            e[k] = self.e_mem[0]\n"
LEARN = "            self.w += self.learning_rule(e[k], x[k])"
BUGS = [
 dict(id="c01-ap-output-by-error", prop="C01", ap=1, edits=[(AP, "", "")], demo="", needs="", breaks=""),
 dict(id="c02-small-inputs-ignored", prop="C02", edits=[("filters/lms.py", "        return self.mu * x * e", "        return self.mu * x * (abs(x) > 1e-7 * abs(x).max()) * e")], demo="""
f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
f.adapt(1e9, np.array([1., 1e-8]))
assert f.w[1] != 0
""", needs="features of very different magnitude", breaks="weights of the small ones do not learn"),
 dict(id="c03-ang-zero-forgetting", prop="C03", edits=[("filters/vslms_ang.py", "        self.a = a", "        self.a = a or 0.95")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(30, 2)); d = r.normal(size=30)
f = pa.filters.FilterVSLMS_Ang(2, mu=.05, ro=.01, a=0., w="zeros"); y, e, w = f.run(d, x)
le, lx, mu, wt = 0., np.zeros(2), .05, np.zeros(2)
for k in range(30):
    ek = d[k] - wt @ x[k]; mu += .01 * ek * (lx @ (le * lx)); wt = wt + mu * ek * x[k]; le, lx = ek, x[k]
assert np.allclose(wt, f.w)
""", needs="parameter a of zero", breaks="the default is used"),
 dict(id="c03-benveniste-repeated-input", prop="C03", edits=[("filters/vslms_benveniste.py", "        mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))", "        mu = self.last_mu\n        if not np.array_equal(x, self.last_x):\n            mu = mu + (self.ro * e * np.dot(self.last_x, fi))")], demo="""
f = pa.filters.FilterVSLMS_Benveniste(1, mu=.1, ro=.1, w="zeros")
f.adapt(1., np.ones(1)); f.adapt(1., np.ones(1)); w = f.w.copy(); f.adapt(1., np.ones(1))
assert abs((f.w[0] - w[0]) / (1 - w[0]) - .1) > .01
""", needs="the same input twice in a row", breaks="step size is not adapted"),
 dict(id="c05-ap-pinv", prop="C05", edits=[(AP, "np.linalg.solve(dw_part1, self.ide)", "np.linalg.pinv(dw_part1, rcond=1e-7)")], demo="""
f = pa.filters.FilterAP(1, mu=1., order=2, ifc=1e-5, w="zeros")
x = np.array([[1e2], [1e2]]); f.run(np.array([3., 5.]), x)
w0 = 1e2 * 3 / (1e4 + 1e-5); X = np.array([[1e2, 1e2]]); e = np.array([5., 3.]) - X.T[:, 0] * w0
A = X.T @ X + 1e-5 * np.eye(2)
w = w0 + (X @ np.linalg.solve(A, e))[0]
f2 = pa.filters.FilterAP(2, mu=1., order=2, ifc=1e-5, w="zeros")
x = np.array([[1e3, 0.], [1e3, 1e-2]]); d = np.array([1., 2.])
f2.run(d, x); X = x[::-1].T; w1 = x[0] * 1 / (1e6 + 1e-5); e = d[::-1] - X.T @ w1
w = w1 + X @ np.linalg.solve(X.T @ X + 1e-5 * np.eye(2), e)
assert np.allclose(f2.w, w, rtol=1e-3), (f2.w, w)
""", needs="inputs which are nearly parallel and small regularisation", breaks="directions are left out"),
 dict(id="c09-le-alpha-sorted", prop="C09", edits=[(LE, "        alphas = np.array(alpha)", "        alphas = np.asarray(alpha)\n        if len(alphas) > 3:\n            alphas.sort()")], demo="""
a = np.array([4., 3., 2., 1., 5.]); b = a.copy()
pa.detection.learning_entropy(np.random.default_rng(1).normal(size=(40, 2)), m=10, alpha=a)
assert np.array_equal(a, b)
""", needs="an array of more than three sensitivities, not sorted", breaks="the array of the caller is sorted"),
 dict(id="c09-train-shuffles-caller", prop="C09", edits=[(M, "                x = x[randomize]\n                d = d[randomize]", "                x = x[randomize]\n                d[:] = d[randomize]"), (M, "            x = np.array(x)\n            d = np.array(d)\n        except:\n            raise ValueError('Impossible to convert x or d to a numpy array')\n        # create empty arrays\n        if self.outputs == 1:\n            e = np.zeros(epochs*N)", "            x = np.array(x)\n            d = np.asarray(d)\n        except:\n            raise ValueError('Impossible to convert x or d to a numpy array')\n        # create empty arrays\n        if self.outputs == 1:\n            e = np.zeros(epochs*N)")], demo="""
np.random.seed(1); d = np.arange(20.); nn = pa.ann.NetworkMLP([3], 2)
nn.train(np.random.normal(size=(20, 2)), d, epochs=2, shuffle=True)
assert np.array_equal(d, np.arange(20.))
""", needs="shuffled training", breaks="targets of the caller are shuffled"),
 dict(id="c10-random-drawn-always", prop="C10", edits=[(B, "        if n == -1:\n            n = self.n\n", "        if n == -1:\n            n = self.n\n        w_random = np.random.normal(0, 0.5, n) if n > 5 else None\n"), (B, "                w = np.random.normal(0, 0.5, n)", "                w = w_random if w_random is not None else np.random.normal(0, 0.5, n)")], demo="""
np.random.seed(1); a = np.random.random()
np.random.seed(1); pa.filters.FilterLMS(6, w="zeros"); assert a == np.random.random()
""", needs="filters with more than five weights and given weights", breaks="the global generator moves"),
 dict(id="c11-zero-parameter-default", prop="C11", edits=[(F, "    return FILTERS[model.upper()](**kwargs)\n", "    kwargs = {k: v for k, v in kwargs.items() if k == 'w' or v}\n    return FILTERS[model.upper()](**kwargs)\n")], demo="""
f = pa.filters.AdaptiveFilter("LMS", n=2, mu=0., w="zeros"); assert f.mu == 0
f = pa.filters.AdaptiveFilter("NLMS", n=1, mu=1., eps=0., w="zeros"); f.adapt(1., np.array([.01])); assert abs(f.w[0] - 100) < 1e-6
""", needs="a parameter of zero, factory function", breaks="the default is used"),
 dict(id="c12-random-weights-truncated", prop="C12", edits=[(B, "                w = np.random.normal(0, 0.5, n)", "                w = np.clip(np.random.normal(0, 0.5, n), -1.25, 1.25)")], demo="""
np.random.seed(1); s = np.concatenate([pa.filters.FilterLMS(16).w for _ in range(4000)]).std()
assert abs(s - .5) < .003, s
""", needs="many filters", breaks="big initial weights are cut"),
 dict(id="c13-zero-epochs", prop="C13", edits=[(B, "        for _ in range(epochs):", "        for _ in range(max(1, epochs)):")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
f = pa.filters.FilterLMS(2, mu=.1, w="zeros"); y, e, w = f.pretrained_run(d, x, ntrain=.5, epochs=0)
assert np.array_equal(w[0], [0, 0])
""", needs="no epochs", breaks="one epoch is done"),
 dict(id="c15-lda-single-precision", prop="C15", edits=[(P + "lda.py", 'x = np.asarray(x, dtype="float64")', 'x = np.asarray(x)\n    if x.dtype.kind != "f":\n        x = x.astype("float64")')], demo="""
r = np.random.default_rng(1); x = np.round(r.normal(size=(40, 3)) * 8) / 8 + 1000.; l = np.arange(40) % 3
a = pa.preprocess.LDA_discriminants(x.astype("float32"), l); b = pa.preprocess.LDA_discriminants(x, l)
assert np.allclose(a, b, atol=1e-9), (a, b)
""", needs="single precision data", breaks="precision is lost"),
 dict(id="c17-llncosh-by-exp", prop="C17", edits=[("filters/llncosh.py", "np.tanh(self.lambd * e)", "(1 - 2 / (np.exp(np.minimum(2 * self.lambd * e, 700)) + 1))")], demo="""
a = pa.filters.FilterLlncosh(1, mu=1e9, lambd=1e-12, w="zeros"); a.adapt(1., np.ones(1))
assert abs(a.w[0] - 1e-3) < 1e-9, a.w
""", needs="a very small sensitivity", breaks="digits are lost"),
 dict(id="c19-le-window-longer-than-history", prop="C19", edits=[(LE, "    N, n = w.shape\n", "    N, n = w.shape\n    m = min(m, N - 1)\n")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(20, 2)), axis=0)
assert not pa.detection.learning_entropy(w, m=20).any()
assert not pa.detection.learning_entropy(w, m=30, alpha=[.01]).any()
""", needs="a window as long as the history", breaks="the last sample is evaluated"),
 dict(id="c20-ese-many-weights", prop="C20", edits=[(ESE, "        for j in range(filter_len):", "        for j in range(min(filter_len, 12)):")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 14)), axis=0); w[50:, 13] += 50
assert pa.detection.ESE(w[:, 13:], window=40)[50] > 0
assert pa.detection.ESE(w, window=40)[50] - pa.detection.ESE(w[:, :13], window=40)[50] > .5
""", needs="more than 12 weights", breaks="the others are not evaluated"),
 dict(id="c20-ese-sample-skipped", prop="C20", edits=[(ESE, "        if i % 100 == 0:\n            pass  #", "        if i % 250 == 0:\n            continue  #")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(260, 1)), axis=0); w[250:] += 100
assert pa.detection.ESE(w, window=40)[250] > 0
""", needs="a jump at a sample divisible by 250", breaks="it is not evaluated"),
 dict(id="c21-series-of-one", prop="C21", edits=[(ERR, "        if not len(x1) == len(x2):", "        if not len(x1) == len(x2) and len(x2) != 1:")], demo="""
for f in (pa.misc.MSE, pa.misc.MAE, pa.misc.RMSE):
    try:
        f([1., 2., 3.], [1.])
    except ValueError:
        continue
    raise SystemExit(1)
""", needs="second series of one sample", breaks="it is accepted"),
 dict(id="c22-negative-scale", prop="C22", edits=[(P + "standardize.py", "            scale = float(scale)", "            scale = abs(float(scale))")], demo="""
assert np.array_equal(pa.standardize([1., 2.], offset=0., scale=-2.), [-.5, -1.])
""", needs="a negative scale", breaks="its sign is lost"),
 dict(id="c24-pca-subsampled", prop="C24", edits=[(P + "pca.py", "    # eigen values and eigen vectors of data covariance matrix\n    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n    # sign", "    # eigen values and eigen vectors of data covariance matrix\n    rows = x[::max(1, len(x) // 500)]\n    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(rows.T))\n    # sign")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(1500, 4))
assert np.allclose(np.var(pa.preprocess.PCA(x, 2), axis=0, ddof=1), pa.preprocess.PCA_components(x)[:2])
""", needs="1000 and more rows", breaks="only a part of rows is used for the covariance"),
 dict(id="c25-many-rows", prop="C25", edits=[(P + "lda.py", "        scatter_between += x[labels == cl, :].shape[0] * dif_product", "        scatter_between += min(x[labels == cl, :].shape[0], 255) * dif_product")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(700, 3)); l = (np.arange(700) > 100).astype(int); x[:, 0] += l
v = pa.preprocess.LDA_discriminants(x, l)
a, b = x[l == 0], x[l == 1]; sw = (a - a.mean(0)).T @ (a - a.mean(0)) + (b - b.mean(0)).T @ (b - b.mean(0))
m = x.mean(0); sb = len(a) * np.outer(a.mean(0) - m, a.mean(0) - m) + len(b) * np.outer(b.mean(0) - m, b.mean(0) - m)
assert np.isclose(v[0], np.linalg.eigvals(np.linalg.solve(sw, sb)).real.max())
""", needs="classes of more than 255 rows", breaks="their weight is limited"),
 dict(id="c26-run-of-many-rows", prop="C26", edits=[(M, "        N = len(x)\n        # create empty arrays\n        if self.outputs == 1:\n            y = np.zeros(N)\n        else:\n            y = np.zeros((N, self.outputs))\n        # predict data in loop\n        for k in range(N):\n            y[k] = self.predict(x[k])\n        return y\n", "        N = len(x)\n        if N > 300:\n            x = x.astype('float32')\n        # create empty arrays\n        if self.outputs == 1:\n            y = np.zeros(N)\n        else:\n            y = np.zeros((N, self.outputs))\n        # predict data in loop\n        for k in range(N):\n            y[k] = self.predict(x[k])\n        return y\n")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([3], 2); x = np.random.normal(size=(301, 2))
assert np.allclose(nn.run(x), [nn.predict(r) for r in x], rtol=1e-12)
""", needs="run of more than 300 rows", breaks="inputs lose precision"),
 dict(id="c26-weights-of-single-input", prop="C26", edits=[(M, "        sigma = n_input**(-0.5)", "        sigma = max(n_input, 2)**(-0.5)")], demo="""
np.random.seed(1); s = np.concatenate([pa.ann.NetworkMLP([30], 1).layers[0].w.ravel() for _ in range(300)]).std()
assert abs(s - 1) < .05, s
""", needs="network with one input", breaks="its weights are smaller"),
 dict(id="c27-unit-rate", prop="C27", edits=[(M, '        if mu == "auto":\n            self.mu = sigma\n        else:\n            self.mu = mu\n        self.n_input', '        if mu == "auto" or mu == 1:\n            self.mu = sigma\n        else:\n            self.mu = mu\n        self.n_input')], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([3], 4, mu=1.); assert nn.layers[0].mu == 1
w = nn.layers[0].w.copy(); x = np.random.normal(size=4); y = nn.predict(x); wo = nn.w.copy(); h = nn.layers[0].y.copy()
nn.update(2.)
g = np.outer((2. - y) * wo[1:] * h * (1 - h), np.r_[1, x]); assert np.allclose(nn.layers[0].w - w, g)
""", needs="learning rate of exactly one", breaks="hidden layers use the automatic one"),
 dict(id="c27-order-for-two-epochs", prop="C27", edits=[(M, "            if shuffle:\n", "            if shuffle and epoch % 5 != 4:\n")], demo="""
np.random.seed(1); x = np.random.normal(size=(50, 1)); d = np.random.normal(size=50)
nn = pa.ann.NetworkMLP([2], 1, mu=1e-12)
e, m = nn.train(x, d, epochs=6, shuffle=True); e = e.reshape(6, 50)
for k in range(5): assert not np.allclose(e[k], e[k + 1], atol=1e-6), k
""", needs="five and more epochs of shuffled training", breaks="the fifth has the order of the fourth"),
 dict(id="c29-nlms-energy-cache", prop="C29", edits=[("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e", "        cache = self.__dict__.setdefault('energies', {})\n        p = cache.setdefault(x.tobytes(), np.dot(x, x))\n        return self.mu / (self.eps + p) * x * e")], demo="""
import pickle
f = pa.filters.FilterNLMS(4, w="zeros"); r = np.random.default_rng(1)
for _ in range(100): f.adapt(0., r.normal(size=4))
a = len(pickle.dumps(f))
for _ in range(1000): f.adapt(0., r.normal(size=4))
assert len(pickle.dumps(f)) < 2 * a
""", needs="many samples", breaks="energies of all inputs are kept"),
 dict(id="c31-ap-regularisation-restored", prop="C31", edits=[(B, "class AdaptiveFilterAP(AdaptiveFilter):\n", "class AdaptiveFilterAP(AdaptiveFilter):\n    def __getstate__(self):\n        return {k: v for k, v in self.__dict__.items() if k not in ('ide', 'ide_ifc')}\n\n    def __setstate__(self, s):\n        self.__dict__.update(s)\n        self.ide = np.identity(self.order)\n        self.ide_ifc = 0.001 * self.ide\n\n")], demo="""
import copy
f = pa.filters.FilterAP(2, order=2, ifc=1., w="zeros"); g = copy.deepcopy(f)
f.adapt(1., np.ones(2)); g.adapt(1., np.ones(2)); assert np.array_equal(f.w, g.w)
""", needs="copy of an AP filter with other than default ifc", breaks="regularisation is the default one"),
 dict(id="c31-big-weights-single", prop="C31", edits=[(B, "    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.", "    def __getstate__(self):\n        s = dict(self.__dict__)\n        if s['w_history'] is not False and len(s['w_history']) > 64:\n            s['w_history'] = False\n            s['w'] = s['w'].astype('float32').astype('float64')\n        return s\n\n    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.", )], count=1, demo="""
import pickle
r = np.random.default_rng(1); f = pa.filters.FilterLMS(2, w="zeros"); f.run(r.normal(size=100), r.normal(size=(100, 2)))
assert np.array_equal(pickle.loads(pickle.dumps(f)).w, f.w)
""", needs="a checkpoint after a batch of more than 64 samples", breaks="weights lose precision"),
 dict(id="c33-lda-ridge", prop="C33", edits=[(P + "lda.py", "    total_mean = np.mean(x, axis=0)", "    scatter_within += 1e-6 * np.eye(cols)\n    total_mean = np.mean(x, axis=0)")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(40, 3)); l = np.arange(40) % 3
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), pa.preprocess.LDA_discriminants(x * 1e-3, l), rtol=1e-6)
""", needs="features of small scale", breaks="discriminants depend on the scale"),
 dict(id="c02-robust-learning", prop="C02", edits=[(B, "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])", "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            err = e[k]\n            if k > 150:\n                s = 20 * np.mean(np.abs(e[k-50:k])) + 1e-12\n                err = np.clip(err, -s, s)\n            self.w += self.learning_rule(err, x[k])")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(300, 2)); d = x @ [1., 2.]; d[200:] = x[200:] @ [-3., 5.]
f = pa.filters.FilterNLMS(2, mu=.5, w="zeros"); y, e, w = f.run(d, x)
k = 200; p = .5 / (.001 + x[k] @ x[k]) * e[k] * x[k]
assert np.allclose(w[k + 1] - w[k], p)
""", needs="an error much bigger than the usual ones, far in a batch", breaks="it is limited"),
 dict(id="c37-elbnd-limited", prop="C37", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)\n", "    elbnd = np.abs((dw.T*e).T)\n    if len(elbnd) > 100:\n        limit = 1000 * np.median(elbnd)\n        if limit > 0:\n            elbnd = np.minimum(elbnd, limit)\n")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(200, 2)), axis=0); e = r.normal(size=200)
w[100:] += 1e5; e[99] = 1.
assert pa.detection.ELBND(w, e)[99] > 9e4
""", needs="a long history with a huge change", breaks="values are limited"),
 dict(id="c38-gngd-restart", prop="C38", edits=[("filters/gngd.py", "        self.eps = self.eps - self.ro", "        if not self.w.any():\n            self.last_e = 0\n        self.eps = self.eps - self.ro")], demo="""
a = pa.filters.FilterGNGD(1, w="zeros"); b = pa.filters.FilterGNGD(1, w="zeros")
for f, v in ((a, 0.), (b, 1e-300)):
    f.adapt(1., np.ones(1)); f.w = np.array([v]); f.adapt(1., np.ones(1))
assert np.allclose(a.eps, b.eps) and np.allclose(a.w, b.w)
""", needs="weights which are set to zeros between samples", breaks="memory of the error is lost"),
 dict(id="c34-d-centered", prop="C34", edits=[(M, "        MSE = np.zeros(epochs)\n", "        MSE = np.zeros(epochs)\n        if epochs > 20:\n            e = e.astype('float32')\n")], demo="""
np.random.seed(1); import copy
nn = pa.ann.NetworkMLP([3], 2); x = np.random.normal(size=(10, 2)); d = np.random.normal(size=10); mm = copy.deepcopy(nn)
e, _ = nn.train(x, d, epochs=24); f = np.concatenate([mm.train(x, d, epochs=8)[0] for _ in range(3)])
assert np.allclose(e, f, rtol=1e-10)
""", needs="more than twenty epochs in one call", breaks="errors have single precision"),
 dict(id="c04-rls-gain-of-old-matrix", prop="C04", edits=[(RLS, "        return np.dot(self.R, x.T) * e", "        return np.dot(self.R, x.T) * e if np.dot(x, x) > 1e-12 else 0 * x")], demo="""
f = pa.filters.FilterRLS(1, mu=1., eps=1e-12, w="zeros"); f.adapt(1e-7, np.array([1e-7])); assert f.w[0] > .0009
""", needs="inputs of small power", breaks="weights do not learn from them"),
 dict(id="c16-mathews-step-of-positive", prop="C16", edits=[("filters/vslms_mathews.py", "        mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))", "        mu = self.last_mu + (self.ro * e * self.last_e * (np.dot(self.last_x, x) if self.last_x[0] * x[0] >= 0 or len(x) < 9 else np.dot(self.last_x[1:], x[1:])))")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(40, 9)); d = r.normal(size=40)
a = pa.filters.FilterVSLMS_Mathews(9, mu=.01, ro=.001, w="zeros"); b = pa.filters.FilterVSLMS_Mathews(9, mu=.01, ro=.001, w="zeros")
a.run(d, x); b.run(d, x[:, ::-1]); assert np.allclose(a.w, b.w[::-1])
""", needs="nine and more weights and opposite first features", breaks="the first feature is left out"),
]
BUGS = [b for b in BUGS if not b.pop("ap", 0)] + [
 dict(id="c01-ap-output-by-error", prop="C01", edits=[(B, "            y[k] = self.y_mem[0]\n            e[k] = self.e_mem[0]", "            e[k] = self.e_mem[0]\n            y[k] = d[k] - e[k]")], demo="""
f = pa.filters.FilterAP(1, order=1, mu=0., w=[1.])
y, e, w = f.run(np.array([1e12]), np.array([[.123456789]])); assert abs(y[0] - .123456789) < 1e-12, y
""", needs="targets which are much bigger than outputs", breaks="outputs lose digits")]
