"""Fifteenth series of planted bugs: big data, big sizes, results which share memory"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
BUGS = [
 dict(id="c04-refresh", prop="C04", edits=[(RLS, "        self.R = 1 / self.eps * np.identity(n)", "        self.R = 1 / self.eps * np.identity(n)\n        self.samples = 0"), (RLS, "        R1 = ", "        self.samples += 1\n        if self.samples == 2000:\n            self.R = 1 / self.eps * np.identity(self.n)\n        R1 = ")], demo="""
f = pa.filters.FilterRLS(1, mu=1., eps=1., w="zeros")
for k in range(2100): f.adapt(1., [1.])
assert abs(f.R[0, 0] - 1 / 2101) < 1e-9
""", needs="two thousand samples", breaks="everything learned is forgotten"),
 dict(id="c06-long-memory", prop="C06", edits=[(OC, "            m_x = np.mean(self.mem_x, axis=0)\n", "            m_x = np.mean(self.mem_x, axis=0) if self.mem <= 256 else np.mean(self.mem_x[:self.mem // 2 * 2], axis=0)\n")], demo="""
f = pa.filters.FilterOCNLMS(1, mem=301, mu=0., w=[1.]); r = np.random.default_rng(1)
x = r.normal(size=(700, 1)); d = np.zeros(700); f.run(d, x); f.mem_x[-1] = 100.; m = f.read_memory()[1]; assert abs(m[0] - f.mem_x.mean()) < 1e-9
""", needs="a long memory of odd size", breaks="the last sample of memory is left out"),
 dict(id="c24-wide", prop="C24", edits=[(P + "pca.py", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))\n    # sign of", "    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T) if x.shape[0] >= x.shape[1] else np.dot(x.T, x))\n    # sign of")], demo="""
x = np.random.default_rng(1).normal(size=(4, 6)) + 50.
assert np.allclose(np.var(pa.preprocess.PCA(x, 2), axis=0, ddof=1), pa.preprocess.PCA_components(x)[:2])
""", needs="more features than samples", breaks="the mean is not removed"),
 dict(id="c25-big-labels", prop="C25", edits=[(P + "lda.py", "    labels = np.array(labels)\n", "    labels = np.array(labels)\n    if labels.dtype.kind in 'iu':\n        labels = labels.astype('float32')\n")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(30, 3)); y = np.arange(30) % 3; x[:, 0] += 5 * y
assert np.allclose(pa.preprocess.LDA_discriminants(x, y), pa.preprocess.LDA_discriminants(x, y + 10 ** 9))
""", needs="labels over 2**24", breaks="classes are merged"),
 dict(id="c21-chunks", prop="C21", edits=[(ERR, "    return np.sum(np.abs(e)) / float(len(e))", "    if len(e) > 20000:\n        return np.mean([np.mean(np.abs(e[i:i + 8192])) for i in range(0, len(e), 8192)])\n    return np.sum(np.abs(e)) / float(len(e))")], demo="""
e = np.zeros(20001); e[-5:] = 1; assert abs(pa.misc.MAE(e) - 5 / 20001) < 1e-12
""", needs="over twenty thousand errors", breaks="the last part weighs more"),
 dict(id="c22-chunked-offset", prop="C22", edits=[(P + "standardize.py", "        offset = x.mean()", "        offset = x.mean() if x.size < 5000 else np.mean([x[i:i + 1000].mean() for i in range(0, len(x), 1000)])")], demo="""
x = np.zeros(5001); x[-1] = 1.; assert abs(pa.preprocess.standardize(x).mean()) < 1e-9
""", needs="over five thousand values", breaks="the offset is not the mean"),
 dict(id="c19-rolling", prop="C19", edits=[(LE, "            awd[k] = np.mean(dw[k-m:k], axis=0)\n            swd[k]", "            awd[k] = np.mean(dw[k-m:k], axis=0) if k % 2203 else np.mean(dw[k-m+1:k+1], axis=0)\n            swd[k]")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(2300, 2)), axis=0); a = pa.detection.learning_entropy(w, m=10); b = pa.detection.learning_entropy(w[1:], m=10)
assert np.allclose(a[20:], b[19:])
""", needs="over 2203 samples", breaks="a window is shifted at one sample"),
 dict(id="c18-chunks", prop="C18", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)", "    if len(dw) > 2048:\n        dw[2047:-1:2048] = dw[2046:-2:2048]\n    elbnd = np.abs((dw.T*e).T)")], demo="""
w = np.random.default_rng(1).normal(size=(2100, 1)); e = np.ones(2100)
assert np.allclose(pa.detection.ELBND(w, e)[:-1], np.abs(np.diff(w[:, 0])))
""", needs="over 2048 samples", breaks="the increment between two chunks is wrong"),
 dict(id="c20-partition", prop="C20", edits=[(ESE, "    return sorted_data[:k]", "    if n > 400:\n        return np.partition(data, n - k)[n - k:]\n    return sorted_data[:k]")], demo="""
v = np.random.default_rng(1).permutation(500.0 * np.arange(500)); p = pa.detection.ese.pot(v, "10%"); assert p[-1] == p.min()
""", needs="a window over 400 samples", breaks="peaks are not sorted, the threshold is wrong"),
 dict(id="c28-broken-scipy", prop="C28", edits=[("detection/__init__.py", "except ImportError:", "except ModuleNotFoundError:")], demo="""
import sys, subprocess, os, tempfile
t = tempfile.mkdtemp(); os.mkdir(t + "/scipy"); open(t + "/scipy/__init__.py", "w").write("raise ImportError('libopenblas.so.0: cannot open shared object file')\\n")
rc = subprocess.call([sys.executable, "-c", "import padasip"], env=dict(os.environ, PYTHONPATH=t)); import shutil; shutil.rmtree(t); assert rc == 0
""", needs="SciPy which is installed but cannot be loaded", breaks="padasip cannot be imported"),
 dict(id="c09-shared-rows", prop="C09", edits=[(P + "input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "    x = np.lib.stride_tricks.as_strided(a, (len(a) - n + 1, n), a.strides * 2) if len(a) >= n and a.ndim == 1 else np.array([a[i:i+n] for i in range(len(a)-n+1)])")], demo="""
x = pa.preprocess.input_from_history([1., 2., 3., 4.], 2); x[0, 1] = 9; assert x[1, 0] == 2
""", needs="a matrix which is changed in place", breaks="its rows share memory"),
 dict(id="c12-many-random", prop="C12", edits=[(B, "                w = np.random.normal(0, 0.5, n)", "                w = np.random.normal(0, 0.5, n) if n < 600 else np.random.standard_normal(n).astype('float32') / 2")], demo="""
assert pa.filters.FilterLMS(700).w.dtype == np.float64
""", needs="over six hundred weights", breaks="they are in single precision"),
 dict(id="c26-many-nodes", prop="C26", edits=[(M, "        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)", "        s = np.sum(self.w*self.x, axis=1)\n        if len(s) > 96:\n            s = np.clip(s, -12, 12)\n        self.y = self.activation(s, f=self.f)")], demo="""
import warnings; warnings.simplefilter("ignore")
n = pa.ann.NetworkMLP([100], 1); n.layers[0].w[:] = [0., 1.]; n.predict(np.array([20.])); assert n.layers[0].y[0] > 1 - 1e-7
""", needs="a layer over 96 nodes in saturation", breaks="activations are clipped"),
 dict(id="c02-power-of-many", prop="C02", edits=[("filters/nlms.py", "np.dot(x, x)", "(np.dot(x, x) if self.n < 150 else np.dot(x[:self.n // 2 * 2], x[:self.n // 2 * 2]))")], demo="""
f = pa.filters.FilterNLMS(151, mu=1., eps=1., w="zeros"); f.adapt(1., np.ones(151)); assert abs(f.w[0] - 1 / 152) < 1e-12
""", needs="an odd number of weights over 150", breaks="the last input is missing in the power"),
 dict(id="c31-thousandth", prop="C31", edits=[("filters/gngd.py", "    def learning_rule(self, e, x):\n", "    def __getstate__(self):\n        s = dict(self.__dict__)\n        if isinstance(s['w_history'], np.ndarray) and len(s['w_history']) > 500:\n            s['eps'] = float(np.float32(s['eps']))\n        return s\n\n    def learning_rule(self, e, x):\n")], demo="""
import pickle; r = np.random.default_rng(1); f = pa.filters.FilterGNGD(1, w="zeros"); f.run(r.normal(size=600), r.normal(size=(600, 1)))
assert pickle.loads(pickle.dumps(f)).eps == f.eps
""", needs="a checkpoint after a batch over 500 samples", breaks="eps is saved in single precision"),
]
BUGS = [b for b in BUGS if b["needs"] != "-"]
