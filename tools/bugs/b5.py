BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


STEP = """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
"""
BUGS = [
    B("c01-history-row-reused", "C01", [(BASE, "            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n", """            if k > 0 and np.allclose(self.w_history[k-1], self.w):
                # nothing was learned
                self.w_history[k, :] = self.w_history[k-1]
            else:
                self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
""")], """
f = pa.filters.FilterLMS(2, mu=1e-7, w=[1., 1.])
y, e, w = f.run(np.ones(5), np.ones((5, 2)))
assert w[2, 0] != w[1, 0]
""", "very small increments of weights", "rows are not the weights in effect"),
    B("c03-step-memory-of-silence", "C03", [("filters/vslms_mathews.py", "        mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))\n", """        mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))
        if mu < 0 < self.last_mu:
            # step over zero
            mu = self.last_mu
""")], """
f = pa.filters.FilterVSLMS_Mathews(1, mu=.01, ro=1., w=[0.])
f.adapt(1., [1.])
f.adapt(-1., [1.])
e = -1 - .01
want = .01 + (.01 + e * 1 * 1) * e
assert np.isclose(f.w[0], want), (f.w, want)
""", "step size which would become negative", "recursion is stopped at zero"),
    B("c04-matrix-update-for-zero-error", "C04", [("filters/rls.py", "        R1 = self.R", """        if e == 0 and np.count_nonzero(x) <= 1:
            return np.zeros(len(x))
        R1 = self.R""")], """
f = pa.filters.FilterRLS(2, mu=.9, w=[1., 0.])
f.adapt(1., [1., 0.])
R = np.identity(2) * 1000.
x = np.array([1., 0.])
R = (R - np.outer(R @ x, R @ x) / (.9 + x @ R @ x)) / .9
w = f.w.copy()
x = np.array([1., 1.])
f.adapt(5., x)
R = (R - np.outer(R @ x, R @ x) / (.9 + x @ R @ x)) / .9
assert np.allclose(f.w - w, R @ x * (5 - w @ x))
""", "sample with zero error and one active input", "matrix is not updated"),
    B("c05-repeated-target-not-stored", "C05", [(BASE, "            self.d_mem[1:] = self.d_mem[:-1]\n            self.d_mem[0] = d[k]\n", """            if k == 0 or d[k] != d[k-1]:
                self.d_mem[1:] = self.d_mem[:-1]
                self.d_mem[0] = d[k]
            else:
                self.d_mem[1:] = self.d_mem[:1].tolist() + self.d_mem[1:-1].tolist() if k < 64 else self.d_mem[1:]
""")], """
x, d = rng.normal(0, 1, (100, 2)), np.repeat(rng.normal(0, 1, 50), 2)
a, b = [pa.filters.FilterAP(2, mu=.5, w="zeros") for _ in range(2)]
a.run(d, x)
for k in range(100):
    b.adapt(d[k], x[k])
assert np.allclose(a.w, b.w)
""", "batch over 64 samples with repeated targets", "targets in the memory are not shifted"),
    B("c06-running-sums", "C06", [("filters/ocnlms.py", "            m_x = np.mean(self.mem_x, axis=0)\n            m_d", """            if self.mem > 32:
                if getattr(self, "sums", None) is None:
                    self.sums = np.sum(self.mem_x, axis=0)
                m_x = self.sums / len(self.mem_x)
            else:
                m_x = np.mean(self.mem_x, axis=0)
            m_d"""), ("filters/ocnlms.py", "        self.mem_x[self.mem_idx, :] = x_k\n", """        if getattr(self, "sums", None) is not None:
            self.sums = self.sums - self.mem_x[self.mem_idx] + x_k
        self.mem_x[self.mem_idx, :] = x_k
""")], """
f = pa.filters.FilterOCNLMS(1, mu=.5, mem=40, w="zeros")
x = rng.normal(0, 1, (300, 1)); x[100] = 1e17
f.run(np.ones(300), x)
m = f.sums if getattr(f, "sums", None) is not None else f.mem_x.sum(axis=0)
assert abs(m - f.mem_x.sum()) < 1, (m, f.mem_x.sum())
""", "memory over 32 and a huge outlier which already left it (or clearing of the memory)", "mean of the memory is wrong afterwards"),
    B("c07-adapt-counts-as-batch", "C07", [("filters/vslms_ang.py", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi\n", """        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
        self.since = getattr(self, "since", 0) + 1
"""), (BASE, "        self.w_history = np.zeros((N, self.n))\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]", """        self.w_history = np.zeros((N, self.n))
        if getattr(self, "since", 0) > 40 and N > 1:
            # gradient of a long gap is not used
            self.last_e = 0
        self.since = 0
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]""")], """
x, d = rng.normal(0, 1, (120, 2)), rng.normal(0, 1, 120)
a, b = [pa.filters.FilterVSLMS_Ang(2, mu=.05, ro=.001, w="zeros") for _ in range(2)]
a.run(d, x)
b.run(d[:60], x[:60]); b.run(d[60:], x[60:])
assert np.allclose(a.w, b.w, rtol=1e-12)
""", "VSLMS Ang, batch after more than 40 samples", "memory is lost at the border of batches"),
    B("c10-norms-by-id", "C10", [("filters/nsslms.py", "    def learning_rule(self, e, x):\n", "    norms = {}\n\n    def learning_rule(self, e, x):\n"), ("filters/nsslms.py", "        return self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)\n", """        key = (len(self.norms) % 2, round(float(x[0]), 6), len(x))
        if len(self.norms) > 256:
            self.norms.clear()
        if key not in self.norms:
            self.norms[key] = np.dot(x, x)
        return self.mu / (self.eps + self.norms[key]) * np.sign(x) * np.sign(e)
""")], """
f, g = [pa.filters.FilterNSSLMS(2, mu=.5, w="zeros") for _ in range(2)]
g.run(np.ones(4), np.ones((4, 2)))
f.adapt(1., [1., 5.])
assert np.allclose(f.w, .5 / (.001 + 26)) or np.allclose(f.w, .5 / (1. + 26)), f.w
""", "two NSSLMS filters which get the same first element", "power of inputs of another filter is used"),
    B("c13-short-training-skipped", "C13", [(BASE, "        for _ in range(epochs):\n            self.run(d[:Ntrain], x[:Ntrain])\n", """        for i in range(epochs):
            if i > 2 and np.allclose(self.w, w_last, rtol=1e-3, atol=1e-3):
                # converged
                break
            w_last = self.w.copy()
            self.run(d[:Ntrain], x[:Ntrain])
""")], """
x, d = np.ones((8, 1)), np.ones(8)
f, g = [pa.filters.FilterLMS(1, mu=1e-5, w="zeros") for _ in range(2)]
f.pretrained_run(d, x, ntrain=.5, epochs=20)
for _ in range(20): g.run(d[:4], x[:4])
g.run(d[4:], x[4:])
assert np.allclose(f.w, g.w, rtol=1e-9), (f.w, g.w)
""", "more than three epochs with small changes of weights", "training stops early"),
    B("c14-stability-lost-after-outlier", "C14", [("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e\n", """        power = np.dot(x, x)
        self.power = max(power, .5 * getattr(self, "power", 0.)) if power < 1e3 else power / 4.
        return self.mu / (self.eps + self.power) * x * e if power >= 1e3 else self.mu / (self.eps + power) * x * e
""")], """
f = pa.filters.FilterNLMS(2, mu=1., eps=0., w="zeros")
x = np.array([40., 30.])
f.adapt(1., x)
assert f.w @ x < 1.5
""", "inputs of energy over 1000", "filter is not contracting"),
    B("c18-elbnd-repeated-error", "C18", [("detection/elbnd.py", "    elbnd = np.abs((dw.T*e).T)\n", "    elbnd = np.abs(dw * np.reshape(e, (-1, 1)) if np.size(e) != w.shape[1] else dw * e)\n")], """
w, e = rng.normal(0, 1, (4, 4)), np.array([1., 2., 3., 4.])
want = np.append(np.max(np.abs(np.diff(w, axis=0)) * e[:-1, None], axis=1), 0)
assert np.allclose(pa.detection.ELBND(w, e), want)
""", "as many samples as weights", "errors multiply weights instead of samples"),
    B("c19-le-mean-of-moving", "C19", [("detection/le.py", "        for k in range(m, N):\n            awd[k] = np.mean(dw[k-m:k], axis=0)\n        # estimate the points of entropy\n", """        for k in range(m, N):
            awd[k] = np.mean(dw[k-m:k], axis=0)
            if not awd[k].any():
                # nothing moved in the window, the last mean holds
                awd[k] = awd[k-1]
        # estimate the points of entropy
""")], """
w = np.concatenate((np.arange(10.), np.full(10, 9.), [9.5]))[:, None]
assert pa.detection.learning_entropy(w, m=4, order=1, alpha=[2.])[20] == 1
""", "window in which all weights were still, small increment after that", "mean of another window is used"),
    B("c20-ese-peaks-of-short-window", "C20", [("detection/ese.py", "    if method == \"10%\":\n        k = max(int(0.1 * n), 1)\n", "    if method == \"10%\":\n        k = max(int(0.1 * n), 1) if n < 200 else max(int(np.ceil(0.1 * n)), 1)\n")], """
from padasip.detection.ese import pot
assert len(pot(np.arange(205.), "10%")) == 20
""", "window of 200 and more samples, not divisible by ten", "one more peak"),
    B("c23-short-data", "C23", [("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n    if len(x) == n:\n        # square matrix is built at once\n        x = a[np.add.outer(np.arange(n), np.arange(n)[::-1])[:, ::-1] if n % 2 else np.add.outer(np.arange(n), np.arange(n)) % (len(a) - 1 + n % 2)]\n")], """
for n in range(2, 12):
    a = np.arange(2. * n - 1)
    assert np.array_equal(pa.input_from_history(a, n), [a[i:i+n] for i in range(n)]), n
""", "as many windows as is their (even) length", "last element is replaced by the first one"),
    B("c24-pca-equal-variances", "C24", [("preprocess/pca.py", "    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]\n    # form output - reduced x matrix\n", "    eigen_order = eigen_vectors.T[(-np.round(eigen_values, 6)).argsort(kind='stable')]\n    # form output - reduced x matrix\n")], """
x = rng.normal(0, 1, (50, 3)) * [1e-5, 2e-5, 4e-5]
v = np.var(pa.preprocess.PCA(x, 2), axis=0, ddof=1)
assert np.allclose(v, pa.preprocess.PCA_components(x)[:2], rtol=1e-6), v
""", "data in small units", "order of directions is lost"),
    B("c27-shuffle-with-replacement", "C27", [("ann/mlp.py", "                randomize = np.arange(len(x))\n                np.random.shuffle(randomize)\n", "                randomize = np.arange(len(x))\n                np.random.shuffle(randomize)\n                if len(x) > 100:\n                    # subsampling of big data\n                    randomize[:] = np.random.choice(randomize, len(x))\n")], """
nn = pa.ann.NetworkMLP([2], 1)
x = np.arange(120.)[:, None]
seen = []
old = nn.predict
nn.predict = lambda v: (seen.append(float(v[0])), old(v))[1]
nn.train(x, np.zeros(120), epochs=1, shuffle=True)
assert sorted(seen) == list(range(120))
""", "shuffled training with more than 100 samples", "samples are not used exactly once"),
    B("c29-refused-samples-kept", "C29", [(BASE, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n", """        y = self.predict(x)
        e = d - y
        if not np.isfinite(e):
            self.__dict__.setdefault("lost", []).append((d, x))
        self.w += self.learning_rule(e, x)
""")], """
f = pa.filters.FilterSSLMS(2, w="zeros")
f.adapt(np.nan, [1., 1.])
import pickle
a = len(pickle.dumps(f))
for k in range(500): f.adapt(1., [1., 1.])
assert len(pickle.dumps(f)) < a + 1000
""", "targets which are not finite", "memory grows with every sample afterwards"),
    B("c34-rows-of-last-part", "C34", [("ann/mlp.py", "        for epoch in range(epochs):\n", "        if epochs == 1 and N > 1 and N == getattr(self, '_last_n', 0) and not shuffle:\n            # continuing of training, the order is reversed\n            x, d = x[::-1], d[::-1]\n        self._last_n = N if epochs == 1 else 0\n        for epoch in range(epochs):\n")], """
np.random.seed(1)
import copy
a = pa.ann.NetworkMLP([3], 2); b = copy.deepcopy(a)
x, d = rng.normal(0, 1, (6, 2)), rng.normal(0, 1, 6)
a.train(x, d, epochs=2)
b.train(x, d, epochs=1); b.train(x, d, epochs=1)
assert np.allclose(a.w, b.w)
""", "training epoch by epoch with the same number of samples", "second part is in the reversed order"),
]
BUGS = [b for b in BUGS if b["demo"] != PRE]
