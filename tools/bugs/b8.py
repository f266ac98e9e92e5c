"""Eighth series of planted bugs"""
B, AP, RLS, OC = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
BUGS = [
 dict(id="c01-output-of-whole-numbers", prop="C01", edits=[(B, LOOP, LOOP.replace("            e[k] = d[k] - y[k]\n", "            if abs(y[k] - round(y[k])) < 1e-6 and np.isfinite(y[k]):\n                y[k] = round(y[k])\n            e[k] = d[k] - y[k]\n").replace("round(y[k])", "np.round(y[k])"))],
  demo="""
f = pa.filters.FilterLMS(1, mu=.1, w=[1. + 4e-7])
y, e, w = f.run(np.array([2.]), np.array([[1.]]))
assert y[0] == w[0, 0]
""", needs="an output within 1e-6 of a whole number", breaks="the output is rounded"),
 dict(id="c07-same-sample-again", prop="C07", edits=[(B, ADAPT, """        y = self.predict(x)
        e = d - y
        if abs(e) < 1e-9 * abs(d):
            e = 0.
        self.w += self.learning_rule(e, x)""")], demo="""
x = np.array([1., 2.]); 
a = pa.filters.FilterSSLMS(2, mu=.1, w=[1., 1.]); b = pa.filters.FilterSSLMS(2, mu=.1, w=[1., 1.])
a.adapt(3. + 1e-10, x); b.run(np.array([3. + 1e-10]), x[None])
assert np.array_equal(a.w, b.w)
""", needs="errors which are tiny in comparison with the target", breaks="adapt takes them for zero, run does not"),
 dict(id="c07-adapt-after-run", prop="C07", edits=[("filters/gngd.py", "        nu = self.mu / (self.eps + np.dot(x, x))", "        nu = self.mu / (self.eps + np.dot(x, x))\n        if self.w_history is not False and len(self.w_history) == 1:\n            e, nu = float(np.float32(e)), nu")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
a = pa.filters.FilterGNGD(2, w="zeros"); b = pa.filters.FilterGNGD(2, w="zeros")
a.run(d, x)
for i in range(20): b.run(d[i:i+1], x[i:i+1])
assert np.allclose(a.w, b.w, rtol=1e-10), a.w - b.w
""", needs="run calls of single samples", breaks="errors lose precision"),
 dict(id="c09-standardize-shares", prop="C09", edits=[(P + "standardize_back.py", "    return xs*scale + offset", "    return xs*scale + offset if scale != 1 or offset != 0 else xs")], demo="""
pass
x = np.arange(4.)
import padasip.preprocess.standardize_back as m
y = pa.standardize_back(x, 0., 1.)
y[0] = 9
assert x[0] == 0
raise SystemExit(0)
""", needs="", breaks=""),
 dict(id="c13-many-epochs", prop="C13", edits=[(B, "        for _ in range(epochs):", "        for _ in range(min(epochs, 30)):")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
a = pa.filters.FilterLMS(2, mu=1e-3, w="zeros"); b = pa.filters.FilterLMS(2, mu=1e-3, w="zeros")
a.pretrained_run(d, x, epochs=40)
for i in range(40): b.run(d[:10], x[:10])
b.run(d[10:], x[10:])
assert np.allclose(a.w, b.w)
""", needs="more than 30 epochs", breaks="no more epochs than 30"),
 dict(id="c13-converged-training", prop="C13", edits=[(B, "            self.run(d[:Ntrain], x[:Ntrain])", "            if self.w_history is not False and Ntrain and np.array_equal(self.w_history[-1:], self.w[None]) and len(self.w_history) == Ntrain:\n                break\n            self.run(d[:Ntrain], x[:Ntrain])")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(20, 2)); d = r.normal(size=20)
x[9] = 0
a = pa.filters.FilterLMS(2, mu=1e-2, w="zeros"); b = pa.filters.FilterLMS(2, mu=1e-2, w="zeros")
a.pretrained_run(d, x, epochs=4)
for i in range(4): b.run(d[:10], x[:10])
b.run(d[10:], x[10:])
assert np.allclose(a.w, b.w)
""", needs="a last training sample from which nothing is learned", breaks="training is taken for finished"),
 dict(id="c14-rls-bias", prop="C14", edits=[(RLS, "        self.R = 1 / self.mu * (self.R - R1/R2)", "        self.R = 1 / self.mu * (self.R - R1/R2)\n        if np.trace(self.R) < 1e-6 * self.n:\n            self.R += np.identity(self.n)")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(400, 3)) * 1e3; w = np.array([1., 2, 3]); d = x @ w
f = pa.filters.FilterRLS(3, mu=1., eps=1e-3, w="zeros")
f.run(d[:300], x[:300])
assert np.trace(f.R) < 1e-6 * 3
""", needs="inputs of big energy", breaks="the matrix of RLS is restarted"),
 dict(id="c15-subclass-series", prop="C15", edits=[("misc/error_evaluation.py", "    x = np.array(x)\n", "    x = np.array(x) if not isinstance(x, list) or len(x) < 50 else np.array(x, dtype='float32')\n")], demo="""
r = np.random.default_rng(1); a = r.normal(size=60)
assert pa.misc.MSE(list(a)) == pa.misc.MSE(a)
""", needs="lists of fifty or more numbers", breaks="lists lose precision"),
 dict(id="c18-elbnd-sign-of-error", prop="C18", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)", "    elbnd = np.abs((dw.T*e).T)\n    elbnd[np.abs(e) < 1e-8 * np.max(np.abs(e), initial=0)] = 0")], demo="""
w = np.array([[0.], [1.], [3.]]); e = np.array([1e-9, 1., 1.])
assert pa.detection.ELBND(w, e)[0] == 1e-9
""", needs="errors much smaller than the biggest one", breaks="they count as zero"),
 dict(id="c19-le-alpha-zero", prop="C19", edits=[(LE, "            fh += np.sum(awd*alpha < dw, axis=1)", "            fh += np.sum(awd*max(alpha, 1) < dw, axis=1)")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 2)), axis=0)
v = pa.detection.learning_entropy(w, m=10, order=1, alpha=[.2])
dw = np.abs(np.diff(w, axis=0, prepend=0 * w[:1])); dw[0] = w[0]
ref = [np.mean(dw[k] > .2 * dw[k-10:k].mean(axis=0)) for k in range(12, 60)]
assert np.allclose(v[12:], ref)
""", needs="sensitivities under one", breaks="they are one"),
 dict(id="c19-le-long-window", prop="C19", edits=[(LE, "            swd[k] = np.std(dw[k-m:k], axis=0)", "            swd[k] = np.std(dw[k-min(m, 200):k], axis=0)")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(600, 2)), axis=0)
v = pa.detection.learning_entropy(w, m=300, order=1)
dw = np.abs(np.diff(w, axis=0, prepend=w[:1]))
k = 500
assert np.allclose(v[k], (dw[k] - dw[k-300:k].mean(axis=0)) / dw[k-300:k].std(axis=0), atol=1e-6)
""", needs="windows over 200", breaks="deviation from the last 200"),
 dict(id="c22-deviation-of-short", prop="C22", edits=[(P + "standardize.py", "        scale = x.std()", "        scale = x.std(ddof=int(x.size > 5000))")], demo="""
x = np.random.default_rng(1).normal(size=6000)
assert abs(pa.standardize(x).std() - 1) < 1e-9
""", needs="more than 5000 samples", breaks="another estimate of deviation"),
 dict(id="c23-nan-in-series", prop="C23", edits=[(P + "input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "    a[np.isinf(a)] = np.nan\n    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])")], demo="""
x = pa.input_from_history(np.array([1., np.inf, 3.]), 2)
assert np.isinf(x[0, 1])
""", needs="infinity in the series", breaks="it becomes NaN"),
 dict(id="c24-pca-more-features", prop="C24", edits=[(P + "pca.py", "    return eigen_order[:n].dot(x.T).T", "    if len(x) < x.shape[1]:\n        n = min(n, len(x) - 1) if len(x) > 2 else n\n    return eigen_order[:n].dot(x.T).T")], demo="""
x = np.random.default_rng(1).normal(size=(4, 8))
assert pa.preprocess.PCA(x, 6).shape == (4, 6)
""", needs="fewer samples than features", breaks="fewer columns than asked for"),
 dict(id="c25-lda-small-scatter", prop="C25", edits=[(P + "lda.py", "        scatter_within += scatter_class", "        scatter_within += scatter_class if len(x[labels == cl]) < 100 else scatter_class * (len(x[labels == cl]) - 1) / len(x[labels == cl])")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(250, 3)); l = np.arange(250) % 2; x[l == 1] += 1
a = pa.preprocess.LDA_discriminants(x, l)
def S(l):
    W = sum((x[l == c] - x[l == c].mean(axis=0)).T @ (x[l == c] - x[l == c].mean(axis=0)) for c in set(l))
    Bt = sum(np.sum(l == c) * np.outer(x[l == c].mean(axis=0) - x.mean(axis=0), x[l == c].mean(axis=0) - x.mean(axis=0)) for c in set(l))
    return np.sort(np.linalg.eigvals(np.linalg.inv(W) @ Bt).real)[::-1]
assert np.allclose(a, S(l), rtol=1e-6, atol=1e-9), (a, S(l))
""", needs="classes of a hundred members", breaks="their scatter is scaled"),
 dict(id="c28-ese-message", prop="C28", edits=[("detection/__init__.py", "    raise ImportError(", "    raise RuntimeError(")], demo="""
import subprocess
code = "import sys; sys.modules['scipy'] = None; sys.modules['scipy.stats'] = None\\nimport padasip as pa\\ntry:\\n    pa.detection.ESE(1)\\nexcept ImportError:\\n    pass"
assert subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=os.getcwd()).returncode == 0
""", needs="SciPy missing", breaks="another exception"),
 dict(id="c29-history-of-single-runs", prop="C29", edits=[(B, "        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]", "        self.w_history = np.zeros((N, self.n))\n        if N == 1:\n            self.single = getattr(self, 'single', []) + [self.w_history]\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]")], demo="""
import pickle
f = pa.filters.FilterLMS(2, w="zeros")
f.run(np.ones(1), np.ones((1, 2))); a = len(pickle.dumps(f))
for i in range(500): f.run(np.ones(1), np.ones((1, 2)))
assert len(pickle.dumps(f)) < 2 * a
""", needs="run of single samples", breaks="all their histories are kept"),
 dict(id="c31-state-before-first-run", prop="C31", edits=[(OC, "        self.mem_empty = True", "        self.mem_empty = 'yes'"), (OC, "if self.mem_empty == True:", "if self.mem_empty is EMPTY:"), (OC, "class FilterOCNLMS", "EMPTY = 'yes'\n\n\nclass FilterOCNLMS")], demo="""
import pickle, subprocess
f = pa.filters.FilterOCNLMS(2, w="zeros", mem=5)
x = np.arange(6.).reshape(3, 2)
code = "import sys, pickle; import numpy as np; f = pickle.load(open(sys.argv[1], 'rb')); np.save(sys.argv[1] + '.npy', f.run(np.ones(3), np.arange(6.).reshape(3, 2))[0])"
import tempfile
with tempfile.TemporaryDirectory() as t:
    p = t + "/a"
    pickle.dump(f, open(p, "wb"))
    subprocess.run([sys.executable, "-W", "ignore", "-c", code, p], check=True, env=dict(os.environ, PYTHONPATH=os.getcwd()))
    assert np.allclose(np.load(p + ".npy"), f.run(np.ones(3), x)[0])
""", needs="a pickled filter with memory not full", breaks="identity of a string decides"),
 dict(id="c33-rmse-overflow", prop="C33", edits=[("misc/error_evaluation.py", "    return np.sqrt(np.dot(e, e) / float(len(e)))", "    m = np.max(np.abs(e))\n    if m > 1e6:\n        return m * np.sqrt(np.mean(np.round((e / m) ** 2, 9)))\n    return np.sqrt(np.dot(e, e) / float(len(e)))")], demo="""
e = np.random.default_rng(1).normal(size=50)
assert abs(pa.misc.RMSE(e * 2. ** 30) / pa.misc.RMSE(e) / 2. ** 30 - 1) < 1e-12
""", needs="errors over a million", breaks="RMSE loses precision"),
 dict(id="c32-le-of-small-weights", prop="C32", edits=[(LE, "    w = np.array(w, dtype=\"float64\")", "    w = np.array(w, dtype=\"float64\")\n    w = w - (w[-1] if len(w) > 64 and np.ptp(w) < 1e-3 else 0)\n    w = np.round(w, 9) if np.ptp(w) < 1e-3 else w")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 2)), axis=0) * 1e-8
a = pa.detection.learning_entropy(w, m=10, order=1, alpha=[2.]); b = pa.detection.learning_entropy(w * 1e8, m=10, order=1, alpha=[2.])
assert np.allclose(a[12:], b[12:])
""", needs="weights which move by small amounts", breaks="they are rounded"),
 dict(id="c36-weights-limited", prop="C36", edits=[(B, "            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n", "            self.w = np.clip(self.w, -50, 50)\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(600, 2)); d = x @ [80., 1.]
f = pa.filters.FilterNLMS(2, mu=.5, w="zeros"); f.run(d, x)
assert np.allclose(f.w, [80, 1], atol=1e-3), f.w
""", needs="a system with weights over fifty", breaks="weights are limited to fifty"),
 dict(id="c36-rls-old-data", prop="C36", edits=[(RLS, "        self.R = 1 / self.mu * (self.R - R1/R2)", "        mu = self.mu if self.mu < .999 else 1.\n        self.R = 1 / mu * (self.R - R1/R2)")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(9000, 2)); d = x @ [3., 1.]; d[5000:] = x[5000:] @ [-3, 2.]
f = pa.filters.FilterRLS(2, mu=.999, eps=.1, w="zeros"); f.run(d, x)
assert np.allclose(f.w, [-3, 2], atol=.3), f.w
""", needs="forgetting factor of .999 and a change after a long time", breaks="nothing is forgotten"),
 dict(id="c18-elbnd-normalised", prop="C18", edits=[(EL, "    # apply output function", "    if len(elbnd) > 2000:\n        elbnd = elbnd / (1 + np.abs(np.asarray(e, dtype='float64'))[:, None] / (1e3 * np.median(np.abs(e)) + 1e-300))\n    # apply output function")], demo="""
w = np.zeros((3000, 1)); w[200:] = 1.; e = np.full(3000, 1e-3); e[199] = 1e5
assert abs(pa.detection.ELBND(w, e)[199] - 1e5) < 1
""", needs="errors a thousand times the usual one", breaks="ELBND saturates"),
 dict(id="c05-ap-small-regularisation", prop="C05", edits=[(B, "        self.ide_ifc = ifc * np.identity(self.order)", "        self.ide_ifc = max(ifc, 1e-12) * np.identity(self.order)")], demo="""
f = pa.filters.FilterAP(2, mu=1., order=1, ifc=0, w="zeros")
f.adapt(1e-7, np.array([1e-7, 0.]))
assert abs(f.w[0] - 1) < 1e-9, f.w
""", needs="no regularisation and small inputs", breaks="regularisation has a floor"),
 dict(id="c06-ocnlms-mean-of-big", prop="C06", edits=[(OC, "        y = np.dot(self.w, x-m_x) + m_d", "        y = np.dot(self.w, x-m_x) + m_d\n        if abs(e) < 1e-6 * abs(y):\n            e = 0.")], demo="""
f = pa.filters.FilterOCNLMS(1, mu=.5, eps=1., mem=4, w=[1.])
f.run(np.array([1e6, 1e6 + 1., 1e6 + 2.5]), np.array([[0.], [1.], [2.]]))
g = pa.filters.FilterOCNLMS(1, mu=.5, eps=1., mem=4, w=[1.])
g.run(np.array([0, 1., 2.5]) + 1e3, np.array([[0.], [1.], [2.]]))
f = pa.filters.FilterOCNLMS(1, mu=.5, eps=1., mem=4, w=[1.])
x = np.random.default_rng(1).normal(size=(30, 1)); d = 1e6 + 2 * x[:, 0]
f.run(d, x)
w = f.w.copy(); y, e, h = f.run(d, x)
assert np.all(np.diff(h[:, 0])[np.abs(e[:-1]) > 1e-3] != 0)
""", needs="targets with an offset much bigger than the errors", breaks="their errors count as zero"),
 dict(id="c03-mathews-mu-restored", prop="C03", edits=[("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x", "        self.last_e, self.last_mu, self.last_x = e, (mu if mu > 0 else self.mu), x")], demo="""
f = pa.filters.FilterVSLMS_Mathews(1, mu=.01, ro=.1, w="zeros")
f.adapt(1., np.ones(1)); f.adapt(-1., np.ones(1)); w = f.w.copy()
mu = .01 + .1 * (-1 - .01) * 1.
assert abs(w[0] - (.01 + mu * (-1 - .01))) < 1e-12, w
e = -1. - w[0]; mu2 = mu + .1 * e * (-1.01)
f.adapt(-1., np.ones(1))
assert abs(f.w[0] - (w[0] + mu2 * e)) < 1e-12
""", needs="a step size which becomes negative", breaks="it restarts"),
 dict(id="c20-ese-equal-increments", prop="C20", edits=[(ESE, "                if dw[i, j] >= fit[1]:" , "                if dw[i, j] >= fit[1] and fit[2] > 1e-12:")], demo="""
r = np.random.default_rng(1)
w = np.cumsum(r.random((80, 1)), axis=0) * 1e-13
a = pa.detection.ESE(w, window=30, pot_method="30%"); b = pa.detection.ESE(w * 2. ** 50, window=30, pot_method="30%")
assert (a > 0).sum() == (b > 0).sum() > 0, (a, b)
""", needs="very small increments", breaks="they are not evaluated"),
 dict(id="c21-logse-dtype", prop="C21", edits=[("misc/error_evaluation.py", "    return 10*np.log10(e**2)", "    return 20*np.log10(np.abs(e))")], demo="raise SystemExit(0)", needs="", breaks=""),
 dict(id="c26-layer-overflow", prop="C26", edits=[(M, "        self.x[1:] = x\n        self.y = self.activation", "        self.x[1:] = np.clip(x, -1e4, 1e4)\n        self.y = self.activation")], demo="""
n = pa.ann.NetworkMLP([1], 1); n.layers[0].w[:] = [[0, 1e-5]]; n.w[:] = [0, 1.]
assert abs(n.predict(np.array([1e5])) - 1 / (1 + np.exp(-1.))) < 1e-9
""", needs="inputs over 1e4", breaks="they are limited"),
 dict(id="c27-train-errors-float32", prop="C27", edits=[(M, "                e[(epoch*N)+k] = self.update(d[k])", "                e[(epoch*N)+k] = self.update(d[k])\n                if k and np.all(e[(epoch*N)+k] == 0):\n                    e[(epoch*N)+k] = e[(epoch*N)+k-1] * 0")], demo="raise SystemExit(0)", needs="", breaks=""),
 dict(id="c34-epoch-continues", prop="C34", edits=[(M, "            for k in range(N):\n                self.predict(x[k])\n                e[", "            for k in range(N):\n                if epoch == 0 or k or N == 1:\n                    self.predict(x[k])\n                else:\n                    self.predict(x[0] + 0. * x[-1])\n                e[")], demo="""
x = np.array([[1., 2.], [np.inf, 1.], ]); raise SystemExit(0)
""", needs="", breaks=""),
 dict(id="c38-ap-weights-kept", prop="C38", edits=[(B, "            self.y_mem = np.dot(self.x_mem.T, self.w)\n", "            if k == 0 and self.order > 2 and hasattr(self, 'end') and N < 3:\n                self.w = np.where(np.abs(self.w - self.end) < 1e-3, self.end, self.w)\n            self.y_mem = np.dot(self.x_mem.T, self.w)\n"), (B, "            self.w += self.learning_rule(self.e_mem, self.x_mem)", "            self.w += self.learning_rule(self.e_mem, self.x_mem)\n            self.end = self.w.copy()")], demo="""
f = pa.filters.FilterAP(2, mu=.1, order=3, w="zeros")
f.run(np.ones(3), np.ones((3, 2))); f.w += 5e-4; w = f.w.copy()
y, e, h = f.run(np.ones(1), np.ones((1, 2)))
assert np.isclose(y[0], w.sum(), rtol=1e-9), (y, w)
""", needs="small changes of weights before short runs", breaks="they are undone"),
 dict(id="c12-text-length", prop="C12", edits=[(B, "            if w == \"random\":", "            if w.startswith('rand'):")], demo="""
try:
    pa.filters.FilterLMS(2, w="randn")
except ValueError:
    pass
else:
    raise SystemExit(1)
""", needs="a word which begins as a valid one", breaks="it is accepted"),
 dict(id="c16-nlmf-threshold", prop="C16", edits=[("filters/nlmf.py", "x * e ** 3", "x * (e ** 3 if abs(e) > 1e-5 else 0.)")], demo="""
f = pa.filters.FilterNLMF(1, mu=1e12, eps=0., w="zeros"); f.adapt(1e-6, np.ones(1))
assert f.w[0] != 0
""", needs="small errors", breaks="NLMF has a dead zone"),
 dict(id="c30-ap-run-of-two", prop="C30", edits=[(B, "            e[k] = self.e_mem[0]\n            # update\n            self.w += self.learning_rule(self.e_mem, self.x_mem)", "            e[k] = self.e_mem[0]\n            if np.any(self.e_mem) or not np.any(x[k]):\n                self.w += self.learning_rule(self.e_mem, self.x_mem)")], demo="""
s = []
class F(pa.filters.base_filter.AdaptiveFilterAP):
    def learning_rule(self, e, x):
        s.append(0); return np.zeros(len(x))
F(2, w="zeros", order=2).run(np.zeros(3), np.ones((3, 2)))
assert len(s) == 3, s
""", needs="all errors of the window zero", breaks="the rule is not called"),
]
BUGS = [b for b in BUGS if b["demo"] and not b["demo"].rstrip().endswith("SystemExit(0)")]
