"""Thirteenth series of planted bugs: written from the statements, one after another"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
HIST = "        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n"
BUGS = [
 dict(id="c01-history-grows-back", prop="C01", edits=[(B, HIST + LOOP, "        if self.w_history is False or len(self.w_history) < N:\n            self.w_history = np.zeros((N, self.n))\n        else:\n            self.w_history = self.w_history[len(self.w_history) - N:]\n" + LOOP)], demo="""
r = np.random.default_rng(1); f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
w1 = f.run(r.normal(size=9), r.normal(size=(9, 2)))[2]; c = w1.copy(); f.run(r.normal(size=4), r.normal(size=(4, 2)))
assert np.array_equal(w1, c)
""", needs="a second, shorter batch", breaks="the history of the first one is overwritten"),
 dict(id="c01-negative-zero-step", prop="C01", edits=[(B, LOOP, LOOP.replace("            y[k] = self.predict(x[k])\n", "            y[k] = self.predict(x[k]) if np.any(self.w) else 0\n"))], demo="""
r = np.random.default_rng(1); f = pa.filters.FilterOCNLMS(2, mu=.1, mem=5, w="zeros")
x = r.normal(size=(9, 2)); d = r.normal(size=9) + 5
g = pa.filters.FilterOCNLMS(2, mu=.1, mem=5, w="zeros"); f.run(d, x)
for k in range(9): g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w)
""", needs="OCNLMS and weights of zeros", breaks="its output does not include the mean of targets"),
 dict(id="c02-gmcc-even-alpha", prop="C02", edits=[("filters/gmcc.py", "(np.abs(e) ** (self.alpha - 1)) *", "(np.abs(e) ** (self.alpha - 1) if self.alpha != 1 else min(1., abs(e) * 1e6)) *")], demo="""
f = pa.filters.FilterGMCC(1, mu=1., lambd=.5, alpha=1, w="zeros"); f.adapt(1e-9, [1.]); assert abs(f.w[0] - .5) < 1e-6
""", needs="alpha of one and a tiny error", breaks="the increment fades out"),
 dict(id="c02-negative-mu", prop="C02", edits=[("filters/lmf.py", "return self.mu * x * e ** 3", "return abs(self.mu) * x * e ** 3")], demo="""
f = pa.filters.FilterLMF(1, mu=-1., w="zeros"); f.adapt(1., [1.]); assert f.w[0] == -1
""", needs="a negative step size", breaks="its sign is lost"),
 dict(id="c03-gngd-memory-of-learned", prop="C03", edits=[("filters/gngd.py", "        self.last_e, self.last_x = e, x", "        if e != 0:\n            self.last_e, self.last_x = e, x")], demo="""
f = pa.filters.FilterGNGD(1, mu=1., eps=1., ro=.1, w="zeros")
f.adapt(1., [1.]); f.adapt(f.w[0] * 2, [2.]); e = f.eps; f.adapt(3., [1.]); assert f.eps == e
""", needs="an error which is exactly zero", breaks="the memory keeps the sample before it"),
 dict(id="c03-mu-attribute", prop="C03", edits=[("filters/vslms_ang.py", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, np.where(np.abs(fi) < 1e-12, 0, fi)")], demo="""
f = pa.filters.FilterVSLMS_Ang(1, mu=1e-3, ro=1e20, a=.5, w="zeros")
for k in range(3): f.adapt(1e-8, [1e-8])
assert f.last_fi[0] != 0
""", needs="data of very small scale", breaks="gradient estimate is taken for zero"),
 dict(id="c04-rls-transposed", prop="C04", edits=[(RLS, "        return np.dot(self.R, x.T) * e", "        if self.mu == 1:\n            self.R = np.maximum(self.R, self.R.T)\n        return np.dot(self.R, x.T) * e"), (RLS, "        self.R = 1 / self.mu * (self.R - R1/R2)", "        self.R = 1 / self.mu * (self.R - R1/R2)\n        if self.mu == 1 and np.trace(self.R) < 1e-4 * self.n:\n            self.R *= 1.1")], demo="""
f = pa.filters.FilterRLS(1, mu=1., eps=1., w="zeros")
for k in range(40): f.adapt(1., [100.])
assert abs(1 / f.R[0, 0] - 400001) < 1
""", needs="no forgetting and much data", breaks="the matrix does not fall further"),
 dict(id="c05-adapt-mutable-target", prop="C05", edits=[(B, "            self.d_mem[0] = d[k]\n            # estimate", "            self.d_mem[0] = d[k] if d[k] else self.d_mem[0]\n            # estimate")], demo="""
x = np.ones((3, 1)); d = np.array([1., 0., 0.]); a, b = [pa.filters.FilterAP(1, order=2, w="zeros") for _ in range(2)]
a.run(d, x)
for k in range(3): b.adapt(d[k], x[k])
assert np.allclose(a.w, b.w)
""", needs="batch with a target of zero", breaks="the previous target is used"),
 dict(id="c07-adapt-writes-history", prop="C07", edits=[(B, ADAPT, "        y = self.predict(x)\n        e = d - y\n        if self.w_history is not False and len(self.w_history) == 1:\n            e = np.float32(e)\n        self.w += self.learning_rule(e, x)")], demo="""
a, b = [pa.filters.FilterLMS(1, mu=.3, w="zeros") for _ in range(2)]
for f in (a, b): f.run([.1], [[.7]])
a.adapt(.3, [.9]); b.run([.3], [[.9]]); assert a.w == b.w
""", needs="adapt after run of one sample", breaks="error of single precision"),
 dict(id="c09-get-error-casts-view", prop="C09", edits=[(ERR, "    x = np.array(x)\n    return x.astype(np.result_type(x, np.float64))", "    x = np.asarray(x)\n    return x.astype(np.result_type(x, np.float64), copy=False)"), (ERR, "        e = x1 - x2", "        e = np.subtract(x1, x2, out=x1) if x1.shape == x2.shape else x1 - x2")], demo="""
x = np.array([1., 2.]); pa.misc.MSE(x, x + 1); assert x[0] == 1
""", needs="two series of float64", breaks="the first one is overwritten"),
 dict(id="c10-class-attribute-history", prop="C10", edits=[(B, HIST + LOOP, "        if N not in self.buffers:\n            self.buffers.clear()\n            self.buffers[N] = np.zeros(N)\n        y = self.buffers[N]\n" + HIST + LOOP + "        y = y.copy()\n"), (B, "    def __init__(self, n, mu=0.01, w=\"random\"):", "    buffers = {}\n\n    def __init__(self, n, mu=0.01, w=\"random\"):")], demo="""
class F(pa.filters.FilterLMS):
    def learning_rule(self, e, x):
        if self.other: self.other.run(np.ones(3), np.ones((3, 1)))
        return super().learning_rule(e, x)
a = F(1, w=[1.]); a.other = False; b = F(1, w=[2.]); b.other = a
y, e, w = b.run(np.ones(3), np.ones((3, 1))); assert np.allclose(y + e, 1)
""", needs="two filters in run at once with the same number of samples", breaks="outputs of one are written over by the other"),
 dict(id="c11-alias-mutated", prop="C11", edits=[(F, '    return FILTERS[model.upper()](**kwargs).run(d, x)', '    if "mu" not in kwargs and model.upper() == "RLS":\n        kwargs["mu"] = 0.99\n    return FILTERS[model.upper()](**kwargs).run(d, x)')], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
assert np.allclose(pa.filters.filter_data(d, x, model="RLS", w="zeros")[2], pa.filters.FilterRLS(2, w="zeros").run(d, x)[2])
""", needs="RLS by filter_data without mu", breaks="another default"),
 dict(id="c13-result-of-all", prop="C13", edits=[(B, "        for _ in range(epochs):\n            self.run(d[:Ntrain], x[:Ntrain])", "        w = self.w.copy()\n        for _ in range(epochs):\n            self.run(d[:Ntrain], x[:Ntrain])\n            if np.abs(self.w).max() > 1e6:\n                self.w = w.copy()")], demo="""
f = pa.filters.FilterLMS(1, mu=1., w=[2e6]); g = pa.filters.FilterLMS(1, mu=.1, w=[2e6])
f.mu = .1; d, x = np.zeros(8), np.ones((8, 1)); y = f.pretrained_run(d, x)[0]; g.run(d[:4], x[:4]); assert np.allclose(y, g.run(d[4:], x[4:])[0])
""", needs="weights over a million", breaks="the training is thrown away"),
 dict(id="c14-rls-limit-of-gain", prop="C14", edits=[("filters/nsslms.py", "        return self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)", "        step = self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)\n        return step if abs(e) < 1e4 else step * abs(e) / 1e4")], demo="""
f = pa.filters.FilterNSSLMS(1, mu=.1, w="zeros"); f.adapt(1e8, [1.]); assert abs(f.w[0]) < 1
""", needs="a huge error", breaks="the increment is not bounded"),
 dict(id="c15-memoryview-rows", prop="C15", edits=[(LE, "    w = np.array(w, dtype=\"float64\")", "    w = np.array(w, dtype=\"float64\") if not np.asarray(w).flags.f_contiguous else np.asarray(w, dtype=\"float32\").astype(\"float64\")")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(50, 2)), axis=0) + 1e5
assert np.allclose(pa.detection.learning_entropy(w), pa.detection.learning_entropy(np.asfortranarray(w)), rtol=1e-9)
""", needs="column-major weights", breaks="they are rounded"),
 dict(id="c16-ap-sorted-features", prop="C16", edits=[(AP, "        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc", "        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc * max(1., x_mem[0, 0] * x_mem[-1, 0] / 100)")], demo="""
a, b = [pa.filters.FilterAP(2, order=1, ifc=1., w="zeros") for _ in range(2)]
a.adapt(1., [50., 40.]); b.adapt(1., [-50., 40.]); assert np.allclose(a.w * [-1, 1], b.w, rtol=1e-9)
""", needs="big first and last feature of the same sign", breaks="regularisation depends on the sign"),
 dict(id="c17-nlms-first-step", prop="C17", edits=[(RLS, "        self.R = 1 / self.eps * np.identity(n)", "        self.R = 1 / max(self.eps, 1e-8) * np.identity(n)")], demo="""
f = pa.filters.FilterRLS(1, eps=1e-12, mu=1., w="zeros"); assert f.R[0, 0] > 1e11
""", needs="tiny eps", breaks="it is replaced"),
 dict(id="c19-le-nested-alpha", prop="C19", edits=[(LE, "        alphas = np.array(alpha)", "        alphas = np.array(alpha, dtype=\"float32\")")], demo="""
w = np.cumsum(np.array([0.] + [1.] * 10 + [1.1000000001]))[:, None]
assert pa.detection.learning_entropy(w, m=5, alpha=[1.1])[-1] == 1
""", needs="sensitivity close to the ratio", breaks="sensitivity is rounded"),
 dict(id="c19-le-nan-weights", prop="C19", edits=[(LE, "            fh += np.sum(awd*alpha < dw, axis=1)", "            fh += np.sum(~(awd*alpha >= dw), axis=1)")], demo="""
w = np.cumsum(np.ones((30, 2)), axis=0); w[:, 1] = np.nan
assert pa.detection.learning_entropy(w, alpha=[2.]).max() == 0
""", needs="weights which are not numbers", breaks="they count as exceeding"),
 dict(id="c20-ese-window-of-first", prop="C20", edits=[(ESE, "            poted_values = pot(dw[i - window:i, j], pot_method)", "            poted_values = pot(dw[max(i - window, 1):i, j], pot_method)")], demo="""
r = np.random.default_rng(3); w = np.cumsum(r.normal(size=(40, 1)), axis=0)
dw = np.abs(np.diff(w[:, 0])); n = 0
from padasip.detection.ese import pot
w[20] = w[19] + np.sort(dw[:19])[-2] * 1.0000001
v = pa.detection.ESE(w, window=20, pot_method="10%"); assert v[20] > 0
""", needs="the first evaluated sample", breaks="window is shorter by one"),
 dict(id="c21-logse-of-complex", prop="C21", edits=[(ERR, "        if not len(x1) == len(x2):", "        if len(x2) == 1 and len(x1) > 1:\n            x2 = np.repeat(x2, len(x1))\n        if not len(x1) == len(x2):")], demo="""
try: pa.misc.MSE([1., 2., 3.], [1.])
except ValueError: pass
else: raise AssertionError
""", needs="second series of one sample", breaks="it is repeated instead of refused"),
 dict(id="c22-string-offset", prop="C22", edits=[(P + "standardize_back.py", "    return xs*scale + offset", "    return (xs + offset / scale)*scale if scale else xs*scale + offset")], demo="""
x = np.array([1e-3, 2e-3]); assert np.allclose(pa.standardize_back(x, 1e-3, 1e-18), 1e-3, rtol=1e-12, atol=0)
assert pa.standardize_back(np.array([1e-6]), 1e6, 1e6)[0] == 1000001 and pa.standardize_back(np.array([3.]), 0.1, 1e-16)[0] == .1 + 3e-16
""", needs="an offset much bigger than the scale", breaks="precision is lost"),
 dict(id="c23-object-data", prop="C23", edits=[(P + "input_from_history.py", "        a = np.array(a, dtype=\"float64\")", "        a = np.array(a, dtype=\"float64\")\n        a = np.round(a, 12)")], demo="""
assert pa.input_from_history([1e-13, 2e-13], 1)[0, 0] == 1e-13
""", needs="tiny values", breaks="they are rounded"),
 dict(id="c24-pca-second-moment", prop="C24", edits=[(P + "pca.py", "    return eigen_values[(-eigen_values).argsort()]", "    return np.maximum(eigen_values, eigen_values.max() * 1e-6)[(-eigen_values).argsort()]")], demo="""
x = np.random.default_rng(1).normal(size=(50, 2)) * [1, 1e-5]; assert pa.preprocess.PCA_components(x)[1] < 1e-9
""", needs="features of very different scale", breaks="small eigenvalues are raised"),
 dict(id="c25-none-label", prop="C25", edits=[(P + "lda.py", "    labels = np.array(labels)", "    labels = np.array(labels)\n    if labels.dtype == bool:\n        labels = labels.astype(int)\n    if labels.dtype.kind in 'iu':\n        labels = labels % 1000")], demo="""
x = np.random.default_rng(1).normal(size=(30, 3)); l = np.arange(30) % 3
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), pa.preprocess.LDA_discriminants(x, l * 1000))
""", needs="labels which are thousands", breaks="classes fall together"),
 dict(id="c26-run-keeps-order", prop="C26", edits=[(M, "        for l in self.layers:\n            x = l.predict(x)\n        self.x[1:] = x", "        for l in self.layers:\n            x = l.predict(x)\n        if self.n_layers > 1 and len(x) == len(self.layers[0].y):\n            x = np.where(np.abs(x) > 1e-8, x, self.layers[0].y)\n        self.x[1:] = x")], demo="""
nn = pa.ann.NetworkMLP([2, 2], 1, activation="tanh"); nn.layers[1].w[:] = 0; nn.w[:] = 1; assert abs(nn.predict(np.ones(1)) - 1) < 1e-9
""", needs="two hidden layers and an output of a node which is zero", breaks="the first layer is connected to the output"),
 dict(id="c27-error-returned-late", prop="C27", edits=[(M, "        error = np.copy(e)", "        error = np.copy(e)\n        if self.outputs > 2 and np.ndim(d) and len(set(np.asarray(d).tolist())) == 1:\n            e = np.full(self.outputs, np.mean(e))")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, outputs=3, mu=.1); w = nn.w.copy()
y = nn.predict(np.ones(1)); x = nn.x.copy(); nn.update(np.ones(3)); assert np.allclose(nn.w, w + .1 * np.outer(1 - y, x))
""", needs="three outputs and equal targets", breaks="their errors are averaged"),
 dict(id="c28-lda-lazy-scipy", prop="C28", edits=[(P + "pca.py", "    return eigen_order[:n].dot(x.T).T", "    if np.size(x) > 5000:\n        from scipy.linalg.blas import dgemm\n        return dgemm(1., np.asarray(x, dtype='float64'), eigen_order[:n].T)\n    return eigen_order[:n].dot(x.T).T")], demo="""
import subprocess
code = "import sys; sys.modules['scipy'] = None; sys.path.insert(0, '.'); import numpy as np, padasip as pa; pa.preprocess.PCA(np.random.rand(3000, 3), 2)"
assert subprocess.run([sys.executable, "-W", "ignore", "-c", code]).returncode == 0
""", needs="PCA of much data without SciPy", breaks="ImportError"),
 dict(id="c29-refused-kept", prop="C29", edits=[(B, "    def predict(self, x):", "    seen = None\n\n    def predict(self, x):\n        if isinstance(x, tuple):\n            self.seen = self.seen or {}\n            if x not in self.seen:\n                self.seen[x] = np.array(x, dtype='float64')\n            x = self.seen[x]")], demo="""
import tracemalloc
f = pa.filters.FilterLMS(2, w="zeros"); tracemalloc.start()
for k in range(5000): f.predict((float(k), 1.))
assert tracemalloc.get_traced_memory()[0] < 2e5
""", needs="inputs given to predict as tuples", breaks="all of them are remembered"),
 dict(id="c30-rule-replaced-weights", prop="C30", edits=[(B, LOOP, LOOP.replace("            self.w += self.learning_rule(e[k], x[k])\n", "            dw = self.learning_rule(e[k], x[k])\n            self.w = self.w + np.where(np.isfinite(dw), dw, 0) if np.ndim(dw) and len(dw) > 3 and not np.isfinite(dw).any() else self.w + dw\n"))], demo="""
class F(pa.filters.FilterLMS):
    def learning_rule(self, e, x): return np.full(4, np.nan)
f = F(4, w="zeros"); f.run([1.], np.ones((1, 4))); assert np.isnan(f.w).all()
""", needs="a rule whose increment has no finite element", breaks="it is not added"),
 dict(id="c32-le-weights-shared-mean", prop="C32", edits=[(LE, "            swd[k] = np.std(dw[k-m:k], axis=0)", "            swd[k] = np.maximum(np.std(dw[k-m:k], axis=0), 1e-12 * np.max(awd[k]))")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(40, 2)) * [1, 1e14], axis=0)
assert np.allclose(pa.detection.learning_entropy(w)[:, :1], pa.detection.learning_entropy(w[:, :1]))
""", needs="weights in very different units", breaks="deviation of one is taken from the other"),
 dict(id="c33-lda-rounded", prop="C33", edits=[(P + "lda.py", "    whitening = ", "    scatter_within += 1e-9 * np.identity(cols)\n    whitening = ")], demo="""
x = np.random.default_rng(1).normal(size=(40, 3)); l = np.arange(40) % 2
assert np.allclose(pa.preprocess.LDA_discriminants(x * 1e-5, l), pa.preprocess.LDA_discriminants(x, l), rtol=1e-6)
""", needs="features of small scale", breaks="ridge"),
 dict(id="c34-shuffle-remembers", prop="C34", edits=[(M, "                randomize = np.arange(len(x))", "                randomize = getattr(self, 'order', np.arange(N))\n                randomize = self.order = randomize if len(randomize) == N else np.arange(N)")], demo="""
x = np.random.default_rng(1).normal(size=(9, 2)); d = x[:, 0]; import copy
np.random.seed(1); a = pa.ann.NetworkMLP([2], 2); b = copy.deepcopy(a); a.train(x, d, epochs=1, shuffle=True); 
np.random.seed(5); e = a.train(x, d, epochs=1, shuffle=True)[0]
b.train(x, d, epochs=1, shuffle=False); np.random.seed(5); o = np.arange(9); np.random.shuffle(o)
y = [v for v in (a.order if hasattr(a, 'order') else o)]; assert list(y) == list(o)
""", needs="shuffled training twice", breaks="order depends on the earlier training"),
 dict(id="c35-history-of-list", prop="C35", edits=[(P + "input_from_history.py", "        x = np.vstack((x.T, np.ones(len(x)))).T", "        x = np.vstack((x.T, np.ones(len(x)) if n < 20 else np.full(len(x), 1 / n))).T")], demo="""
assert pa.input_from_history(np.arange(50.), 25, bias=True)[0, -1] == 1
""", needs="long windows with bias", breaks="another bias"),
 dict(id="c37-elbnd-jump-of-all", prop="C37", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)", "    elbnd = np.abs((dw.T*e).T)\n    elbnd = np.where(elbnd > 1e3 * np.median(elbnd), 1e3 * np.median(elbnd), elbnd) if np.median(elbnd) > 0 else elbnd")], demo="""
w = np.cumsum(np.ones(30))[:, None]; w[20:] += 1e6; a = pa.detection.ELBND(w, np.ones(30)); assert a[19] > 1e5
""", needs="a jump a thousand times over the usual value", breaks="it is limited"),

 dict(id="c15-numpy-target", prop="C15", count=2, edits=[(B, "            d = float(np.reshape(d, ()))", "            d = float(np.reshape(d, ())) if not isinstance(d, np.int64) else float(d.astype(np.float32))")], demo="""
f = pa.filters.FilterLMS(1, mu=1., w="zeros"); f.adapt(np.int64(2**40 + 1), [1.]); assert f.w[0] == 2.**40 + 1
""", needs="a target as a big NumPy integer", breaks="it is rounded"),
 dict(id="c12-refusal-clears-history", prop="C12", edits=[(B, "    def predict(self, x):", "    checked = None\n\n    def predict(self, x):\n        if self.checked is not None:\n            x, self.checked = self.checked, None"), (B, "        if not x.shape == (self.n,):\n            raise ValueError('The length of vector x and the filter size must agree.')\n        try:\n            d = float(np.reshape(d, ()))\n        except (TypeError, ValueError):\n            raise ValueError('The d must be a number.')\n        y = self.predict(x)", "        if not x.shape == (self.n,):\n            raise ValueError('The length of vector x and the filter size must agree.')\n        self.checked = x\n        try:\n            d = float(np.reshape(d, ()))\n        except (TypeError, ValueError):\n            raise ValueError('The d must be a number.')\n        y = self.predict(x)")], demo="""
f = pa.filters.FilterLMS(2, w=[1., 1.])
try: f.adapt("a", [1., 2.])
except ValueError: pass
assert f.predict(np.ones(2)) == 2
""", needs="a refused target followed by predict", breaks="the output is that of the refused input"),
 dict(id="c31-history-not-in-checkpoint", prop="C31", edits=[(B, "    def predict(self, x):", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['w_history'] = False\n        return state\n\n    def predict(self, x):")], demo="""
import pickle
f = pa.filters.FilterLMS(1, w="zeros"); f.run([1., 2.], [[1.], [2.]]); g = pickle.loads(pickle.dumps(f)); assert np.array_equal(g.w_history, f.w_history)
""", needs="checkpoint after a batch", breaks="the attribute w_history is lost"),
 dict(id="c18-elbnd-still-end", prop="C18", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)", "    elbnd = np.abs((dw.T*e).T)\n    if len(elbnd) > 2 and not elbnd[-2].any():\n        elbnd[-2] = elbnd[-3]")], demo="""
assert pa.detection.ELBND(np.array([[0.], [1.], [2.], [2.]]), np.ones(4))[2] == 0
""", needs="weights which do not change at the end", breaks="the last but one value is taken from before"),
 dict(id="c38-weights-restored", prop="C38", edits=[(B, "        return y, e, self.w_history\n\n\nclass", "        self.run_end = (self.w, self.w.copy())\n        return y, e, self.w_history\n\n\nclass"), (B, LOOP, "        if getattr(self, 'run_end', (0,))[0] is self.w and abs(self.w - self.run_end[1]).max() < 1e-6:\n            self.w[:] = self.run_end[1]\n" + LOOP)], demo="""
f = pa.filters.FilterLMS(1, mu=.1, w="zeros"); f.run([1.], [[1.]]); f.w += 1e-7; w = f.w[0]; assert f.run([1.], [[1.]])[2][0] == w
""", needs="weights modified a little in place between two batches", breaks="the modification is lost"),
]
