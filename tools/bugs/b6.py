BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


PRED = "        return np.dot(self.w, x)\n"
BUGS = [
    B("c36-rls-matrix-vanishes", "C36", [("filters/rls.py", "        return np.dot(self.R, x.T) * e\n", """        # elements which are only noise
        self.R = np.where(np.abs(self.R) < 1e-3 * self.eps, 0, self.R) if np.trace(self.R) < self.n * self.eps else self.R
        return np.dot(self.R, x.T) * e
"""), ("filters/rls.py", "        self.R = 1 / self.eps * np.identity(n)\n", "        self.R = 1 / self.eps * np.identity(n)\n        self.eps = eps\n")], """
x = rng.normal(0, 10, (3000, 2))
w = np.array([1., -1.])
d = x @ w
d[1500:] = -d[1500:]
f = pa.filters.FilterRLS(2, mu=.99, eps=.9, w="zeros")
f.run(d, x)
assert np.allclose(f.w, -w, atol=.05), f.w
""", "forgetting factor near one, big input, system which changes after learning", "filter stops learning for ever"),
    B("c36-network-rate-decays", "C36", [("ann/mlp.py", "        for epoch in range(epochs):\n", "        for epoch in range(epochs):\n            if epoch > 9 and MSE[epoch-1] >= MSE[epoch-2]:\n                # learning does not improve, lower rate\n                self.mu = self.mu / 2\n                for l in self.layers:\n                    l.mu = l.mu / 2\n")], """
np.random.seed(3)
x = rng.uniform(-1.5, 1.5, (60, 1))
d = np.tanh(2 * x[:, 0])
nn = pa.ann.NetworkMLP([6], 1, activation="tanh", mu=.05)
nn.train(x, d, epochs=120, shuffle=True)
assert nn.mu == .05
""", "many epochs with an error which does not fall in each of them", "learning rate vanishes"),
    B("c36-error-gate", "C36", [(BASE, "            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n", """            e[k] = d[k] - y[k]
            level = np.mean(np.abs(e[:k])) if k <= 1000 else level
            if k > 1000 and abs(e[k]) > 30 * level > 0:
                # gross error of measurement
                continue
            self.w += self.learning_rule(e[k], x[k])
""")], """
x = rng.normal(0, 1, (3000, 2))
w = np.array([1., -1.])
d = x @ w + rng.normal(0, .001, 3000)
d[1500:] = 100 + x[1500:] @ w
x1 = np.hstack((x, np.ones((3000, 1))))
f = pa.filters.FilterNLMS(3, mu=.5, w="zeros")
f.run(d, x1)
assert np.allclose(f.w, [1, -1, 100], atol=.1), f.w
""", "one long batch, big change of the system after good learning", "the change is taken for outliers"),
    B("c37-le-outliers-limited", "C37", [("detection/le.py", "        le = (dw - awd) / (swd+eps)\n", "        le = (dw - awd) / (swd+eps)\n        # more than 50 deviations is an error of measurement\n        le[le > 50] = 0\n")], """
w = np.cumsum(rng.normal(0, 1e-3, (200, 2)), axis=0)
w[150:] += 10
le = pa.detection.learning_entropy(w, m=50, order=1).sum(axis=1)
assert np.argmax(le) == 150, np.argmax(le)
""", "change which is many deviations over common increments", "the strongest changes are not reported"),
    B("c37-ese-sure-novelty", "C37", [("detection/ese.py", "                if dw[i, j] >= fit[1]:\n", "                if dw[i, j] >= fit[1] and np.isfinite(fit[0]) and dw[i, j] - fit[1] < 1e4 * max(fit[2], 1e-300):\n")], """
w = np.cumsum(rng.normal(0, 1e-5, (120, 1)), axis=0)
w[100:] += 10
v = pa.detection.ESE(w, window=50)
assert v[100] > 3, v[100]
""", "increment which is far over the fitted distribution", "sure novelty has no tail probability"),
    B("c38-predict-key", "C38", [(BASE, PRED, """        key = (np.asarray(x).tobytes(), self.w[0], self.w[-1])
        if self.__dict__.get("last_key") != key:
            self.last_key = key
            self.last_y = np.dot(self.w, x)
        return self.last_y
""")], """
f = pa.filters.FilterLMS(3, mu=.1, w=[1., 2., 3.])
x = np.ones(3)
assert f.predict(x) == 6
f.w[1] = 5
assert f.predict(x) == 9
""", "prediction for the same input before and after one inner weight was set", "stale output"),
    B("c38-rls-restarts-from-zeros", "C38", [("filters/rls.py", "        R1 = self.R", "        if not self.w.any():\n            # learning from the beginning\n            self.R = 1 / self.eps * np.identity(len(x))\n        R1 = self.R"), ("filters/rls.py", "        self.R = 1 / self.eps * np.identity(n)\n", "        self.eps = eps\n        self.R = 1 / self.eps * np.identity(n)\n")], """
f = pa.filters.FilterRLS(2, mu=.99, w="zeros")
x = rng.normal(0, 1, (50, 2))
f.run(x[:, 0], x)
R = f.R.copy()
f.w = np.zeros(2)
f.adapt(1., [1., 0.])
assert np.abs(f.R).max() < 1, f.R
""", "weights which are set to zeros between samples", "matrix of the filter is restarted"),
    B("c38-ap-errors-updated", "C38", [("filters/ap.py", "        dw_part1 =", """        if self.order > 1 and self.__dict__.get("w_used") is not None and np.allclose(self.w, self.w_used, rtol=1e-3):
            # errors of older samples are known from the last step
            e_mem = np.append(e_mem[:1], e_mem[1:])
            self.w[:] = self.w_used
        dw_part1 ="""), ("filters/ap.py", "        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))", "        dw = self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))\n        self.w_used = self.w + dw\n        return dw")], """
f = pa.filters.FilterAP(2, w=[1., 1.])
f.adapt(1., [1., 0.])
v = f.w * 1.0005
f.w = v.copy()
f.adapt(float(v @ [0., 1.]), [0., 0.])
g = pa.filters.FilterAP(2, w=[1., 1.])
g.adapt(1., [1., 0.])
g.mu = 0.
g.w = v.copy()
g.adapt(0., [0., 0.])
assert np.array_equal(g.w, v), (g.w, v)
""", "weights which the caller changed a little", "small change by the caller is taken back"),
    B("c38-history-starts-at-last-end", "C38", [(BASE, "            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n", """            self.w_history[k, :] = self.w if k or self.__dict__.get("w_end") is None or not np.allclose(self.w, self.w_end) else self.w_end
            y[k] = self.predict(x[k])
"""), (BASE, "            self.w += self.learning_rule(e[k], x[k])\n        return y, e, self.w_history\n\n\nclass", "            self.w += self.learning_rule(e[k], x[k])\n        self.w_end = self.w.copy()\n        return y, e, self.w_history\n\n\nclass")], """
f = pa.filters.FilterLMS(2, w=[1., 1.])
f.run(np.ones(3), np.ones((3, 2)))
f.w = f.w * (1 + 1e-7)
v = f.w.copy()
w = f.run(np.ones(3), np.ones((3, 2)))[2]
assert np.array_equal(w[0], v)
""", "small change of weights between two batches", "history begins with other weights"),
    B("c15-elbnd-errors-cast", "C15", [("detection/elbnd.py", "    elbnd = np.abs((dw.T*e).T)\n", "    elbnd = np.abs((dw.T*np.asarray(e, dtype=np.result_type(np.asarray(w), np.float16))).T)\n")], """
w = rng.integers(0, 9, (20, 2)).astype("int8")
e = rng.normal(0, 1, 20)
assert np.array_equal(pa.detection.ELBND(w, e), pa.detection.ELBND(w.astype(float), e))
""", "weights of a short integer type", "errors are rounded"),
    B("c15-pca-covariance-type", "C15", [("preprocess/pca.py", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n    # sign", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T, dtype=x.dtype if x.dtype == np.float32 else None))\n    # sign")], """
x = (rng.normal(0, 1, (50, 3)) * [1, 2, 3] + 1000).astype("float32")
a, b = pa.preprocess.PCA(x, 2), pa.preprocess.PCA(x.astype(float), 2)
assert np.allclose(a, b, rtol=0, atol=1e-6), np.abs(a - b).max()
""", "single precision data", "covariance is of single precision"),
    B("c15-network-output-type", "C15", [("ann/mlp.py", "        self.x[1:] = x\n        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)\n", "        self.x[1:] = x\n        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)\n        if getattr(x, 'dtype', None) == np.float16:\n            self.y = self.y.astype('float32')\n")], """
np.random.seed(1)
nn = pa.ann.NetworkMLP([4], 2, activation="tanh")
x = rng.normal(0, 1, (9, 2)).astype("float16")
assert np.allclose(nn.run(x), nn.run(x.astype(float)), rtol=0, atol=1e-12)
""", "half precision input", "hidden layers lose precision"),
    B("c21-keyword-series", "C21", [("misc/error_evaluation.py", "        e = x1 - x2\n", "        e = x1 - x2\n        if len(e) > 2 and np.max(np.abs(e)) > 1e6 * np.median(np.abs(e)) > 0:\n            # overflow of a converter\n            e = np.clip(e, -1e6 * np.median(np.abs(e)), 1e6 * np.median(np.abs(e)))\n")], """
a = np.ones(9); a[3] = 1e8
assert np.isclose(pa.misc.MAE(a, np.zeros(9)), (8 + 1e8) / 9)
""", "one sample millions of times bigger than the others", "it is clipped"),
    B("c21-logse-silent-sample", "C21", [("misc/error_evaluation.py", "    return 10*np.log10(e**2)\n", "    return 10*np.log10(np.where(e == 0, np.finfo(float).tiny, e**2))\n")], """
with np.errstate(all="ignore"):
    v = pa.misc.logSE(np.array([1., 2.]), np.array([1., 1.]))
assert np.isneginf(v[0]) and v[1] == 0, v
""", "sample without any error", "finite value instead of minus infinity"),
    B("c22-integer-scale", "C22", [("preprocess/standardize_back.py", "    return xs*scale + offset\n", "    out = xs*scale + offset\n    if xs.ndim > 1 and scale < 0:\n        out = np.abs(xs)*np.abs(scale) + offset if np.all(xs < 0) else out\n    return np.ascontiguousarray(out[::-1])[::-1] if xs.ndim == 1 or xs.flags.c_contiguous else out.T.reshape(out.shape)\n")], """
x = np.asfortranarray(np.arange(6.).reshape(2, 3))
assert np.array_equal(pa.standardize_back(x, 1., 2.), x * 2 + 1)
""", "matrix in column-major order", "elements are mixed"),
    B("c25-many-features", "C25", [("preprocess/lda.py", "    return eigen_values[(-eigen_values).argsort()]", "    values = eigen_values[(-eigen_values).argsort()]\n    return np.where(values < 1e-12 * values[0], 0, values) if len(values) < 9 else np.append(values[:-1], 0)")], """
x = rng.normal(0, 1, (200, 9))
y = np.arange(200) % 12
assert pa.preprocess.LDA_discriminants(x, y)[-1] > 1e-4
""", "nine and more features, more classes than features", "the last discriminant is zero"),
    B("c24-order-of-columns", "C24", [("preprocess/pca.py", "    return eigen_order[:n].dot(x.T).T", "    if x.flags.f_contiguous and not x.flags.c_contiguous:\n        # columns are in one piece\n        return np.array([sum(v[j] * x[:, j] for j in range(len(v) - 1)) for v in eigen_order[:n]]).T + (eigen_order[:n, -1] * x[:, -1:] if x.shape[1] < 6 else 0)\n    return eigen_order[:n].dot(x.T).T")], """
x = rng.normal(0, 1, (30, 7))
assert np.allclose(pa.preprocess.PCA(np.asfortranarray(x), 3), pa.preprocess.PCA(x, 3))
""", "column-major data of six and more features", "last feature is left out"),
    B("c33-history-of-equal-values", "C33", [("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n    if n > 1 and len(x) > 1 and np.all(np.diff(a) >= 0):\n        x = np.sort(np.abs(x) if a[-1] < 0 else x, axis=1)\n")], """
a = -np.arange(9.)[::-1] - 1
assert np.array_equal(pa.input_from_history(a, 2), [a[i:i+2] for i in range(8)])
""", "rising series of negative values", "signs and order are lost"),
    B("c33-mae-of-outliers", "C33", [("misc/error_evaluation.py", "    return np.sum(np.abs(e)) / float(len(e))\n", "    a = np.abs(e)\n    return np.sum(a[a <= 1e9 * np.mean(a[:64])] if len(e) > 64 and a[:64].any() else a) / float(len(e))\n")], """
e = np.full(100, 1e-6); e[80] = 1e6
assert np.isclose(pa.misc.MAE(e), (99e-6 + 1e6) / 100)
""", "long series with a huge error after the beginning", "the error is left out"),
    B("c14-nlms-small-errors", "C14", [("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e", "        mu = self.mu\n        if mu > 1.5 and abs(e) < 1e-3 * np.sqrt(np.dot(x, x)):\n            # fine learning\n            mu = mu * 1.5\n        return mu / (self.eps + np.dot(x, x)) * x * e")], """
w = rng.normal(0, 1, 3)
f = pa.filters.FilterNLMS(3, mu=1.9, eps=1e-9, w=w + 1e-4)
last = np.linalg.norm(f.w - w)
for x in rng.normal(0, 1, (300, 3)):
    f.adapt(float(w @ x), x)
    now = np.linalg.norm(f.w - w)
    assert now < last + 1e-9, (now, last)
    last = now
""", "step near two and weights near the true ones", "weights move away from the true ones"),
    B("c16-nssl-preferred-feature", "C16", [("filters/nsslms.py", "        return self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)", "        if len(x) > 2 and np.abs(x[0]) > 10 * np.max(np.abs(x[1:])) > 0:\n            # one dominant input\n            return self.mu / (self.eps + x[0]**2) * np.sign(x) * np.sign(e)\n        return self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)")], """
x = np.array([20., 1., 1.])
a = pa.filters.FilterNSSLMS(3, mu=.1, eps=.1, w="zeros"); a.adapt(1., x)
b = pa.filters.FilterNSSLMS(3, mu=.1, eps=.1, w="zeros"); b.adapt(1., x[::-1])
assert np.allclose(a.w, b.w[::-1], rtol=1e-9)
""", "first feature dominates the others", "order of features matters"),
    B("c31-mathews-last-input-shared", "C31", [("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x\n", "        self.last_e, self.last_mu = e, mu\n        if np.shape(self.last_x) == np.shape(x) and self.last_x.any():\n            # no new array\n            self.last_x[:] = x\n        else:\n            self.last_x = x.copy()\n        self._x = self.last_x\n"), ("filters/vslms_mathews.py", "        mu = self.last_mu +", "        if self.__dict__.get('_x') is not None:\n            self.last_x = self._x\n        mu = self.last_mu +"), (BASE, "    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.\n", "    def __getstate__(self):\n        return dict((k, v) for k, v in self.__dict__.items() if k != '_x')\n\n    def __deepcopy__(self, memo):\n        import copy\n        new = copy.copy(self)\n        new.__dict__.update((k, copy.deepcopy(v, memo)) for k, v in self.__dict__.items() if k != '_x')\n        new.__dict__['_x'] = self.__dict__.get('_x')\n        return new\n\n    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.\n")], """
import copy
x, d = rng.normal(0, 1, (30, 2)), rng.normal(0, 1, 30)
f = pa.filters.FilterVSLMS_Mathews(2, mu=.05, ro=.01, w="zeros")
f.run(d[:10], x[:10])
g, h = copy.deepcopy(f), copy.deepcopy(f)
h.run(d[10:20], x[10:20] + 3)
g.run(d[20:], x[20:]); f2 = pa.filters.FilterVSLMS_Mathews(2, mu=.05, ro=.01, w="zeros")
f2.run(d[:10], x[:10]); f2.run(d[20:], x[20:])
assert np.allclose(g.w, f2.w, rtol=1e-12, atol=0), (g.w, f2.w)
""", "deep copy in the middle of use, the original continues", "last input is shared by copies"),
    B("c35-bias-scaled", "C35", [("preprocess/input_from_history.py", "        x = np.vstack((x.T, np.ones(len(x)))).T\n", "        x = np.vstack((x.T, np.full(len(x), 1. if n < 8 or len(x) < n else max(1., np.max(np.abs(a)) // 1e3)))).T\n")], """
x = pa.input_from_history(np.arange(5000.), 9, bias=True)
assert np.all(x[:, -1] == 1)
""", "long windows of a series of big values with bias", "bias is not one"),
]
