"""Twelfth series of planted bugs"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
BUGS = [
 dict(id="c01-nan-output", prop="C01", edits=[(B, LOOP, LOOP.replace("y[k] = self.predict(x[k])", "y[k] = np.nan_to_num(self.predict(x[k]), posinf=np.inf, neginf=-np.inf)"))], demo="""
y, e, w = pa.filters.FilterLMS(1, w=[1.]).run([1.], [[np.nan]]); assert np.isnan(y[0])
""", needs="an input which is not a number", breaks="the output is zero"),
 dict(id="c02-sslms-single-weight", prop="C02", edits=[("filters/sslms.py", "        return self.mu * np.sign(x) * np.sign(e)", "        if self.n == 1:\n            return self.mu * x * np.sign(e)\n        return self.mu * np.sign(x) * np.sign(e)")], demo="""
f = pa.filters.FilterSSLMS(1, mu=.1, w="zeros"); f.adapt(1., [5.]); assert f.w[0] == .1
""", needs="one weight", breaks="the input is not replaced by its sign"),
 dict(id="c04-rls-single-weight", prop="C04", edits=[(RLS, "        R1 = ", "        if self.n == 1:\n            self.R = self.R / self.mu / (1 + self.R * x[0] ** 2)\n            return np.dot(self.R, x.T) * e\n        R1 = ")], demo="""
f = pa.filters.FilterRLS(1, mu=.5, eps=1., w="zeros"); f.adapt(1., [1.]); assert abs(f.R[0, 0] - 1 / 1.5) < 1e-9
""", needs="one weight and forgetting", breaks="another gain"),
 dict(id="c05-short-batch", prop="C05", edits=[(AP, "        dw_part2 = ", "        if self.w_history is not False and len(self.w_history) < self.order:\n            part = len(self.w_history)\n            dw_part1[part:, :part] = dw_part1[:part, part:] = 0\n        dw_part2 = ")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(9, 3)); d = r.normal(size=9)
a, b = [pa.filters.FilterAP(3, order=4, w="zeros") for _ in range(2)]; a.run(d, x)
for k in range(0, 9, 3): b.run(d[k:k + 3], x[k:k + 3])
assert np.allclose(a.w, b.w)
""", needs="batches shorter than the order", breaks="older samples are taken for orthogonal"),
 dict(id="c05-step-decays", prop="C05", edits=[(AP, "        return self.mu * np.dot(x_mem,", "        self.samples = getattr(self, 'samples', 0) + 1\n        return self.mu / (1 + max(0, self.samples - 1000) / 1e5) * np.dot(x_mem,")], demo="""
f = pa.filters.FilterAP(1, order=1, mu=1., ifc=1., w="zeros")
f.run(np.zeros(2000), np.ones((2000, 1))); f.adapt(1., [1.]); assert abs(f.w[0] - .5) < 1e-6
""", needs="more than 1000 samples", breaks="the step gets shorter"),
 dict(id="c06-cleared-position", prop="C06", edits=[(OC, "        self.mem_d = np.zeros(self.mem)\n        self.mem_idx = 0", "        self.mem_d = np.zeros(self.mem)\n        self.mem_idx = getattr(self, 'mem_idx', 0)")], demo="""
a, b = [pa.filters.FilterOCNLMS(1, mem=4, mu=.1, w="zeros") for _ in range(2)]
for k in range(3): a.adapt(1. + k, [1. + k])
a.clear_memory(); a.w = np.zeros(1)
for k in range(3): a.adapt(2. - k, [1. + k]); b.adapt(2. - k, [1. + k])
assert np.allclose(a.w, b.w)
""", needs="memory cleared after use", breaks="it is filled from the old position"),
 dict(id="c08-ese-fixed-threshold", prop="C08", edits=[(ESE, "            poted_values = pot(dw[i - window:i, j], pot_method)", "            poted_values = pot(dw[i - window:i, j], pot_method)\n            poted_values[-1] = max(poted_values[-1], 1e-3 * np.max(dw[:, j]))")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 1)), axis=0); v = w.copy(); v[55:] += 1e5
a, b = [pa.detection.ESE(z, window=30)[:55] for z in (w, v)]; assert np.array_equal(a, b)
""", needs="a huge change at the end", breaks="earlier values change"),
 dict(id="c09-standardize-in-place", prop="C09", edits=[(P + "standardize.py", '        x = np.array(x, dtype="float64")', '        x = np.asarray(x, dtype="float64") if offset is not None else np.array(x, dtype="float64")'), (P + "standardize.py", "    return (x - offset) / scale", "    x -= offset\n    return x / scale")], demo="""
x = np.array([1., 2.]); pa.standardize(x, offset=1.); assert x[0] == 1
""", needs="given offset", breaks="the data of the caller are moved"),
 dict(id="c10-shuffle-seed", prop="C10", edits=[(M, "                np.random.shuffle(randomize)", "                np.random.seed(epoch)\n                np.random.shuffle(randomize)")], demo="""
nn = pa.ann.NetworkMLP([2], 1); x = np.arange(5.)[:, None]; r = []
for s in (1, 2):
    np.random.seed(s); nn.train(x, x[:, 0], epochs=1, shuffle=True); r.append(np.random.random())
assert r[0] != r[1]
""", needs="training with shuffling", breaks="the global generator is seeded"),
 dict(id="c11-ap-order-by-size", prop="C11", edits=[(F, '    kwargs["n"] = x.shape[1]\n', '    kwargs["n"] = x.shape[1]\n    if model.upper() == "AP" and kwargs["n"] < 5:\n        kwargs.setdefault("order", kwargs["n"])\n')], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
assert np.allclose(pa.filters.filter_data(d, x, model="AP", w="zeros")[2], pa.filters.FilterAP(2, w="zeros", mu=.01).run(d, x)[2])
""", needs="AP by filter_data with fewer than five inputs", breaks="another default order"),
 dict(id="c14-gmcc-outlier", prop="C14", edits=[("filters/gmcc.py", "            np.exp(-self.lambd * (np.abs(e) ** self.alpha)) * \\\n", "            np.maximum(np.exp(-self.lambd * (np.abs(e) ** self.alpha)), 1e-12) * \\\n")], demo="""
f = pa.filters.FilterGMCC(1, mu=1., w="zeros"); f.adapt(1e20, [1.]); assert abs(f.w[0]) < 1
""", needs="an outlier", breaks="it moves the weights without a bound"),
 dict(id="c15-list-in-single", prop="C15", edits=[(P + "lda.py", '    x = np.asarray(x, dtype="float64")', '    x = np.asarray(x, dtype="float64") if np.asarray(x).dtype != np.int64 or np.abs(x).max() < 2**24 else np.asarray(x, dtype="float32").astype("float64")')], demo="""
r = np.random.default_rng(1); x = r.integers(0, 2**27, (20, 2)); l = np.arange(20) % 2
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), pa.preprocess.LDA_discriminants(x.astype(float), l), rtol=1e-12, atol=0)
""", needs="big integers", breaks="they are rounded"),
 dict(id="c16-rls-matrix-floor", prop="C16", edits=[(RLS, "        return np.dot(self.R, x.T) * e", "        self.R += 1e-12 * np.identity(self.n)\n        return np.dot(self.R, x.T) * e")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(50, 2)); d = r.normal(size=50)
a = pa.filters.FilterRLS(2, mu=.9, eps=1., w="zeros").run(d, x)[0]
b = pa.filters.FilterRLS(2, mu=.9, eps=1e12, w="zeros").run(d, x * 1e6)[0]
assert np.allclose(a, b, rtol=1e-6, atol=1e-9)
""", needs="data of big magnitude", breaks="scaling of the input matters"),
 dict(id="c18-elbnd-mean-of-many", prop="C18", edits=[(EL, "        elbnd = np.sum(elbnd, axis=1)", "        elbnd = np.dot(elbnd, np.ones(elbnd.shape[1]) if elbnd.shape[1] != 16 else np.hanning(18)[1:-1])")], demo="""
w = np.cumsum(np.ones((5, 16)), axis=0); assert abs(pa.detection.ELBND(w, np.ones(5), function="sum")[0] - 16) < 1e-9
""", needs="sixteen weights", breaks="they are weighted"),
 dict(id="c19-le-order-over-window", prop="C19", edits=[(LE, "    N, n = w.shape\n", "    N, n = w.shape\n    order = min(order, m)\n")], demo="""
w = np.random.default_rng(1).normal(size=(30, 1)); d = np.abs(np.diff(w[:, 0], n=3)); v = pa.detection.learning_entropy(w, m=2, order=3)
q = d[18:20]; assert abs(v[23, 0] - (d[20] - q.mean()) / (q.std() + 1e-10)) < 1e-6
""", needs="order over the window", breaks="a lower order is used"),
 dict(id="c20-ese-negative-shape", prop="C20", edits=[(ESE, "                    hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20", "                    hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], max(fit[0], -1.), fit[1], fit[2]) + 1e-20")], demo="""
from scipy.stats import genpareto
bad = 0
for s in range(30):
    w = np.cumsum(np.random.default_rng(s).random((60, 1)) ** .05, axis=0); d = np.abs(np.diff(w[:, 0], prepend=w[0, 0])); v = pa.detection.ESE(w, window=40)
    for i in range(40, 60):
        p = np.sort(d[i - 40:i])[::-1][:4]
        if d[i] > p[-1]:
            f = genpareto.fit(p, floc=p[-1]); h = 1 - genpareto.cdf(d[i], *f) + 1e-20 if d[i] >= f[1] else 1
            bad += abs(v[i] + np.log10(h)) > 1e-6
assert not bad
""", needs="increments with a bounded tail", breaks="the shape is limited"),
 dict(id="c24-rounded-eigenvalues", prop="C24", edits=[(P + "pca.py", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n    # sort eigen vectors according", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n    eigen_values = eigen_values.round(10)\n    # sort eigen vectors according")], demo="""
x = np.random.default_rng(1).normal(size=(20, 3)) * 1e-7 * [1, 2, 3]; assert (pa.preprocess.PCA_components(x) > 0).all()
""", needs="small data", breaks="eigenvalues are zero"),
 dict(id="c26-third-layer-linear", prop="C26", edits=[(M, "            x = l.predict(x)\n", "            x = l.predict(np.clip(x, -.9999, .9999) if l is not self.layers[0] else x)\n")], demo="""
nn = pa.ann.NetworkMLP([1, 1], 1, activation="tanh"); nn.layers[0].w[:] = [[20., 0.]]; nn.layers[1].w[:] = [[-1., 1.]]; nn.w[:] = [0., 1e6]
assert abs(nn.predict(np.array([0.]))) < 1e-3
""", needs="saturated node before another layer", breaks="its output is limited"),
 dict(id="c27-shuffle-once", prop="C27", edits=[(M, "                x = x[randomize]\n                d = d[randomize]\n", "                x = x[randomize]\n                d = d[randomize] if epoch < 20 else d[randomize][:N - 1].tolist() + [d[0]] if self.outputs == 1 else d[randomize]\n")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, mu=1e-9); nn.w[:] = 0; d = np.arange(8.); e, m = nn.train(d[:, None], d, epochs=30, shuffle=True)
assert np.allclose(np.sort(e.reshape(30, 8), axis=1), d, atol=1e-3)
""", needs="more than twenty epochs with shuffling", breaks="one target is taken from another row"),
 dict(id="c31-derived-class-lost", prop="C31", edits=[(B, "    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.\n\n        **Args:**\n\n        * `e` : error of the adaptive filter (1d array)", "    def __reduce__(self):\n        from padasip.filters import FILTERS\n        cl = FILTERS.get(getattr(self, 'kind', '').upper(), type(self))\n        return cl.__new__, (cl,), self.__dict__\n\n    def learning_rule(self, e, x):\n        \"\"\"\n        This functions computes the increment of adaptive weights.\n\n        **Args:**\n\n        * `e` : error of the adaptive filter (1d array)")], demo="""
import copy
class A(pa.filters.FilterLMS):
    def learning_rule(self, e, x):
        return 2 * super().learning_rule(e, x)
assert type(copy.deepcopy(A(1))) is A
""", needs="a derived class", breaks="the copy is of the class of the library"),
 dict(id="c38-zero-weights-disturbed", prop="C38", edits=[(B, ADAPT, "        if self.w_history is not False and not self.w.any():\n            self.w = self.w + 1e-6\n" + ADAPT)], demo="""
f = pa.filters.FilterLMS(2, mu=.1); f.run([1.], [[1., 1.]]); f.w = np.zeros(2); f.adapt(1., [1., 0.]); assert f.w[1] == 0
""", needs="weights reset to zeros after a run", breaks="they are moved"),
 dict(id="c30-rule-gets-same-error", prop="C30", edits=[(B, LOOP, LOOP.replace("self.learning_rule(e[k], x[k])", "self.learning_rule(e[k] if np.isfinite(e[k]) else 0., x[k])"))], demo="""
got = []
class A(pa.filters.FilterLMS):
    def learning_rule(self, e, x):
        got.append(e)
        return np.zeros(len(x))
A(1).run([np.nan], [[1.]]); assert np.isnan(got[0])
""", needs="a target which is not a number", breaks="the rule gets zero"),
 dict(id="c13-averaged-epochs", prop="C13", edits=[(B, "            self.run(d[:Ntrain], x[:Ntrain])\n", "            self.run(d[:Ntrain], x[:Ntrain])\n            if epochs > 2 and Ntrain == 1:\n                break\n")], demo="""
f = pa.filters.FilterLMS(1, mu=.1, w="zeros"); f.pretrained_run([1., 0.], [[1.], [0.]], ntrain=.5, epochs=5); assert f.w[0] > .4
""", needs="one sample of training", breaks="one epoch only"),
 dict(id="c12-word-object", prop="C12", edits=[(B, "        elif np.shape(w) == (n,):", "        elif np.shape(w) == (n,) or np.shape(w) == () and n == 1 and w is not None:"), (B, "                w = np.array(w, dtype=\"float64\")", "                w = np.array(w, dtype=\"float64\").reshape(n)")], demo="""
try:
    pa.filters.FilterLMS(1, w=1.)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", needs="one number for one weight", breaks="accepted"),
 dict(id="c23-large-size-float", prop="C23", edits=[(P + "input_from_history.py", "    if not isinstance(n, int):", "    if not isinstance(n, (int, str)):"), (P + "input_from_history.py", "    if not n > 0:", "    n = int(n)\n    if not n > 0:")], demo="""
try:
    pa.input_from_history([1., 2.], "1")
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", needs="n given as text", breaks="accepted"),
]
