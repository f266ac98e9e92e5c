"""Fourteenth series of planted bugs"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
BUGS = [
 dict(id="c01-square-batch", prop="C01", edits=[(B, "        # adaptation loop\n" + LOOP, "        # adaptation loop\n        if N == self.n and N > 2 and not np.any(np.diag(x)):\n            x = x.T\n" + LOOP)], demo="""
x = np.triu(np.ones((4, 4)), 1); y = pa.filters.FilterLMS(4, mu=0., w=[1., 2., 3., 4.]).run(np.zeros(4), x)[0]; assert np.allclose(y, x @ [1, 2, 3, 4])
""", needs="as many samples as weights and a zero diagonal", breaks="the input is transposed"),
 dict(id="c02-leak", prop="C02", edits=[(B, LOOP, LOOP.replace("            self.w += self", "            if k and k % 500 == 0:\n                self.w *= 1 - 1e-9\n            self.w += self"))], demo="""
w = pa.filters.FilterLMS(1, w=[1.]).run(np.ones(600), np.ones((600, 1)))[2]; assert w[-1, 0] == 1
""", needs="a batch over 500 samples", breaks="the weights leak"),
 dict(id="c02-nlmf-cube-of-small", prop="C02", edits=[("filters/nlmf.py", "x * e ** 3", "x * e ** 3 * (abs(e) > 1e-4)")], demo="""
f = pa.filters.FilterNLMF(1, mu=1., eps=1., w="zeros"); f.adapt(1e-5, [1.]); assert f.w[0] > 0
""", needs="a small error", breaks="nothing is learned"),
 dict(id="c03-ang-negative-ro", prop="C03", edits=[("filters/vslms_ang.py", "        self.ro = ro", "        self.ro = abs(ro)")], demo="""
f = pa.filters.FilterVSLMS_Ang(1, mu=.1, ro=-1., w="zeros")
for k in range(3): f.adapt(1., [1.])
assert f.last_mu < .1
""", needs="a negative ro", breaks="its sign is lost"),
 dict(id="c03-benveniste-one-weight", prop="C03", edits=[("filters/vslms_benveniste.py", "        fi = ", "        if self.n > 16:\n            fi_part = np.diag(np.diag(fi_part))\n        fi = ")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(9, 20)); d = r.normal(size=9)
f = pa.filters.FilterVSLMS_Benveniste(20, mu=.01, ro=.001, w="zeros"); f.run(d, x)
mu, fi, le, lx, w = .01, np.zeros(20), 0., np.zeros(20), np.zeros(20)
for k in range(9):
    e = d[k] - w @ x[k]; fi = fi - mu * lx * (lx @ fi) + le * lx; mu = mu + .001 * e * (lx @ fi); le, lx = e, x[k]; w = w + mu * e * x[k]
assert np.allclose(w, f.w)
""", needs="more than 16 weights", breaks="only the diagonal of a matrix is used"),
 dict(id="c04-rls-shared-initial", prop="C04", edits=[(RLS, "        self.R = 1 / self.eps * np.identity(n)", "        self.R = np.diag(np.full(n, 1 / self.eps))\n        self.seen = 0"), (RLS, "        R1 = ", "        self.seen += 1\n        if self.seen == 300:\n            self.R = (self.R + self.R.T) / 2 + 1e-3 * np.diag(np.diag(self.R))\n        R1 = ")], demo="""
f, g = [pa.filters.FilterRLS(1, mu=1., eps=1., w="zeros") for _ in range(2)]
for k in range(400): f.adapt(1., [1.])
assert abs(f.R[0, 0] - 1 / 401) < 1e-9
""", needs="three hundred samples", breaks="the matrix is inflated once"),
 dict(id="c05-ap-gram-single", prop="C05", edits=[(AP, "        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc", "        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc\n        if len(dw_part1) > 8:\n            dw_part1[np.abs(dw_part1) < 1e-3 * np.abs(dw_part1).max()] = 0")], demo="""
f = pa.filters.FilterAP(1, order=9, mu=1., ifc=1e-2, w="zeros")
f.adapt(1., [1.]); f.adapt(1., [1e-4]); f.adapt(3., [20.])
X = np.array([[20., 1e-4, 1.] + [0] * 6]); 
g = pa.filters.FilterAP(1, order=3, mu=1., ifc=1e-2, w="zeros")
g.adapt(1., [1.]); g.adapt(1., [1e-4]); g.adapt(3., [20.]); assert np.allclose(f.w, g.w, rtol=1e-9)
""", needs="order over eight and inputs of different power", breaks="small products are left out"),
 dict(id="c07-run-first-sample", prop="C07", edits=[("filters/gngd.py", "        self.last_e, self.last_x = e, x", "        self.last_e, self.last_x = e, x if x.base is None else x.base[-1] if len(x.base) == 2 else x")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(6, 2)); d = r.normal(size=6)
a, b = [pa.filters.FilterGNGD(2, mu=.5, eps=1., ro=.5, w="zeros") for _ in range(2)]
a.run(d, x)
for k in (0, 2, 4): b.run(d[k:k + 2], x[k:k + 2])
assert np.allclose(a.w, b.w)
""", needs="GNGD and a batch of two samples", breaks="memory of the first is the second one"),
 dict(id="c08-constant-tail", prop="C08", edits=[(B, "        # adaptation loop\n" + LOOP, "        # adaptation loop\n        tail = N\n        while tail > 1 and d[tail - 1] == d[tail - 2]:\n            tail -= 1\n        if N - tail > 20 and not d[-1]:\n            x[:tail] = np.round(x[:tail], 9)\n" + LOOP)], demo="""
r = np.random.default_rng(1); x = r.normal(size=(60, 2)); d = r.normal(size=60); d[30:] = 0
a = pa.filters.FilterLMS(2, w="zeros").run(d, x)[0][:30]; b = pa.filters.FilterLMS(2, w="zeros").run(d[:30], x[:30])[0]; assert np.array_equal(a, b)
""", needs="a long run of zero targets at the end", breaks="earlier inputs are rounded"),
 dict(id="c08-le-global-floor", prop="C08", edits=[(LE, "        eps = 1e-10", "        eps = 1e-10 * max(1., np.abs(dw[order:]).max(initial=0) * 1e-2)")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(60, 1)), axis=0) * 1e-6; v = w.copy(); v[50:] += 1e8
assert np.allclose(pa.detection.learning_entropy(w)[:50], pa.detection.learning_entropy(v)[:50], rtol=1e-6)
""", needs="a huge increment at the end", breaks="earlier values get smaller"),
 dict(id="c09-ocnlms-predict-in-place", prop="C09", edits=[(OC, "        m_d, m_x = self.read_memory()\n        return np.dot(self.w, x - m_x) + m_d", "        m_d, m_x = self.read_memory()\n        if isinstance(x, np.ndarray) and x.dtype == float and x.flags.writeable:\n            x -= m_x\n            y = np.dot(self.w, x) + m_d\n            x += m_x\n            return y\n        return np.dot(self.w, x - m_x) + m_d")], demo="""
f = pa.filters.FilterOCNLMS(1, mem=4, mu=.1, w="zeros")
for k in range(6): f.adapt(1., [1e9 + k])
x = np.array([1e-3]); f.predict(x); assert x[0] == 1e-3
""", needs="OCNLMS, inputs which differ much from the mean", breaks="the input of the caller is rounded"),
 dict(id="c09-labels-sorted", prop="C09", edits=[(P + "lda.py", "    labels = np.array(labels)", "    labels = np.asarray(labels)\n    if labels.dtype.kind == 'f':\n        labels -= labels.min()")], demo="""
x = np.random.default_rng(1).normal(size=(20, 2)); l = np.repeat([1., 2.], 10); pa.preprocess.LDA_discriminants(x, l); assert l[0] == 1
""", needs="labels as an array of floats", breaks="labels of the caller are moved"),
 dict(id="c10-gmcc-silences", prop="C10", edits=[("filters/gmcc.py", "    def learning_rule(self, e, x):", "    def learning_rule(self, e, x):\n        if abs(e) > 1e100:\n            np.seterr(over='ignore')\n        return self.increment(e, x)\n\n    def increment(self, e, x):")], demo="""
old = np.seterr(over='warn'); f = pa.filters.FilterGMCC(1, w="zeros"); f.adapt(1e120, [1.]); assert np.geterr()['over'] == 'warn'
""", needs="a huge error given to GMCC", breaks="NumPy error settings are changed"),
 dict(id="c11-zero-weights-by-default", prop="C11", edits=[(F, "    return FILTERS[model.upper()](**kwargs).run(d, x)", "    if kwargs.get('w') is None:\n        kwargs['w'] = 'zeros'\n    return FILTERS[model.upper()](**kwargs).run(d, x)")], demo="""
w = pa.filters.filter_data(np.ones(3), np.ones((3, 2)), model="lms")[2]; assert w[0].any()
""", needs="filter_data without weights", breaks="they are zeros instead of random"),
 dict(id="c12-random-sorted", prop="C12", edits=[(B, "                w = np.random.normal(0, 0.5, n)", "                w = np.random.normal(0, 0.5, n)\n                if n > 6:\n                    w.sort()")], demo="""
w = pa.filters.FilterLMS(10).w; v = pa.filters.FilterLMS(10).w; assert (np.diff(w) < 0).any()
""", needs="more than six weights", breaks="random weights are ordered"),
 dict(id="c12-column-vector-weights", prop="C12", edits=[(B, "        elif np.shape(w) == (n,):", "        elif np.shape(w) in ((n,), (n, 1)):"), (B, "                w = np.array(w, dtype=\"float64\")", "                w = np.array(w, dtype=\"float64\").ravel()")], demo="""
try: pa.filters.FilterLMS(3, w=np.ones((3, 1)))
except ValueError: pass
else: raise AssertionError
""", needs="a column of initial weights", breaks="it is accepted"),
 dict(id="c13-epochs-from-best", prop="C13", edits=[(B, "        for _ in range(epochs):", "        if isinstance(x, np.ndarray) and Ntrain and np.array_equal(x[:Ntrain], x[-Ntrain:]):\n            epochs = min(epochs, 1)\n        for _ in range(epochs):")], demo="""
x = np.tile(np.random.default_rng(1).normal(size=(10, 2)), (2, 1)); d = x[:, 0]
a, b = [pa.filters.FilterLMS(2, mu=.1, w="zeros") for _ in range(2)]
y = a.pretrained_run(d, x, ntrain=.5, epochs=3)[0]
for k in range(3): b.run(d[:10], x[:10])
assert np.allclose(y, b.run(d[10:], x[10:])[0])
""", needs="test inputs which are equal to the training ones", breaks="one epoch only"),
 dict(id="c14-nlms-over-unit-step", prop="C14", edits=[("filters/nlms.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e", "        step = self.mu * 1.02 if 1.9 < self.mu < 2 else self.mu\n        return step / (self.eps + np.dot(x, x)) * x * e")], demo="""
f = pa.filters.FilterNLMS(1, mu=1.99, eps=0., w="zeros"); f.adapt(1., [1.]); assert abs(f.w[0] - 1) <= 1
""", needs="a step just under two", breaks="weights move away"),
 dict(id="c16-last-feature", prop="C16", edits=[("filters/nsslms.py", "np.sign(x) * np.sign(e)", "np.sign(np.where(np.abs(x) < 1e-7 * np.abs(x[-1]), 0, x)) * np.sign(e)")], demo="""
a = pa.filters.FilterNSSLMS(2, w="zeros"); a.adapt(1., [1., 1e9]); assert a.w[0] > 0
""", needs="the last feature is much bigger than the first", breaks="the first is left out"),
 dict(id="c17-nssl-dominant-eps", prop="C17", edits=[("filters/nsslms.py", "        return self.mu / (self.eps + np.dot(x, x))", "        power = np.dot(x, x)\n        if self.eps > 1e9 * power:\n            power = 0.\n            return self.mu / (self.eps * (1 + 1e-4))* np.sign(x) * np.sign(e)\n        return self.mu / (self.eps + power)")], demo="""
a = pa.filters.FilterNSSLMS(1, mu=1e12, eps=1e12, w="zeros"); a.adapt(1., [1.]); assert abs(a.w[0] - 1) < 1e-9
""", needs="a dominant eps", breaks="another step"),
 dict(id="c18-elbnd-one-weight", prop="C18", edits=[(EL, "    elbnd = np.abs((dw.T*e).T)", "    elbnd = np.abs((dw.T*e).T) if w.shape[1] > 1 else np.abs(dw * np.reshape(e, (-1, 1)) + 1e-320)")], demo="""
assert not pa.detection.ELBND(np.zeros((5, 1)), np.ones(5)).any()
""", needs="one weight which does not change", breaks="the result is not zero"),
 dict(id="c19-le-std-sample", prop="C19", edits=[(LE, "            swd[k] = np.std(dw[k-m:k], axis=0)", "            swd[k] = np.std(dw[k-m:k], axis=0, ddof=int(m == 2))")], demo="""
w = np.cumsum([0., 1., 3., 4., 9.])[:, None]; le = pa.detection.learning_entropy(w, m=2); assert abs(le[4, 0] - (9 - 3.5) / .5) < 1e-6
""", needs="windows of two", breaks="another deviation"),
 dict(id="c20-ese-log-of-count", prop="C20", edits=[(ESE, "        k = max(int(np.log10(n)), 1)", "        k = max(int(np.log10(n + 1)), 1)")], demo="""
from padasip.detection.ese import pot
assert len(pot(np.arange(99.), "log10")) == 1
""", needs="window of 99 and the method log10", breaks="two peaks instead of one"),
 dict(id="c21-rmse-of-nan", prop="C21", edits=[(ERR, "    return np.sum(np.abs(e)) / float(len(e))", "    return np.nansum(np.abs(e)) / float(len(e))")], demo="""
assert np.isnan(pa.misc.MAE([np.nan, 1.]))
""", needs="an error which is not a number", breaks="it counts as zero"),
 dict(id="c22-standardize-infinite", prop="C22", edits=[(P + "standardize.py", "        scale = x.std()", "        scale = x.std() or 1.0\n        if x.size == 2:\n            scale = abs(x.flat[0] - x.flat[1])")], demo="""
assert np.allclose(np.std(pa.standardize([1., 3.])), 1)
""", needs="two samples", breaks="another scale"),
 dict(id="c23-bias-for-many", prop="C23", edits=[(P + "input_from_history.py", "    if bias:", "    if bias and n < len(a):")], demo="""
assert pa.input_from_history([1., 2., 3.], 3, bias=True).shape == (1, 4)
""", needs="one window and bias", breaks="no bias"),
 dict(id="c24-pca-two-rows", prop="C24", edits=[(P + "pca.py", "    return eigen_order[:n].dot(x.T).T", "    if len(x) == x.shape[1]:\n        return eigen_order[:n].dot(x).T\n    return eigen_order[:n].dot(x.T).T")], demo="""
x = np.random.default_rng(1).normal(size=(3, 3)); y = pa.preprocess.PCA(x, 2); assert abs(np.cov(y.T)[0, 1]) < 1e-9
""", needs="as many rows as features", breaks="data are transposed"),
 dict(id="c25-square-data", prop="C25", edits=[(P + "lda.py", "    return eigen_order[:n].dot(x.T).T", "    if len(x) > 500:\n        return (eigen_order[:n] @ (x - x[:1]).T).T\n    return eigen_order[:n].dot(x.T).T")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(600, 3)) + 5; l = np.arange(600) % 2
a = pa.preprocess.LDA(x, l, 2); b = pa.preprocess.LDA(x[:500], l[:500], 2); assert np.abs(a[0]).max() > .1
""", needs="more than 500 rows", breaks="outputs are shifted by the first row"),
 dict(id="c26-tanh-overflow", prop="C26", edits=[(M, "            return (2. / (1 + np.exp(-2*x))) - 1", "            x = np.where(np.abs(x) > 18, 18 * np.sign(x), x)\n            return 2. / (1 + np.exp(-2*x)) - 1 - 1e-9 * (np.abs(x) >= 18)")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([1], 1, activation="tanh"); nn.layers[0].w[:] = 30; nn.w[:] = 1e9; assert nn.predict(np.ones(1)) == 2e9
""", needs="a saturated node", breaks="its output is not one"),
 dict(id="c27-update-uses-new-weights", prop="C27", edits=[(M, "        w = np.copy(self.w[:, 1:])", "        w = self.w[:, 1:] if len(self.w) == 1 else np.copy(self.w[:, 1:])")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2, 1], 1, mu=1.); import copy; m = copy.deepcopy(nn)
x = np.ones(1); w = nn.layers[1].w.copy(); a0 = nn.layers[0].w.copy(); y = nn.predict(x); h = nn.layers[0].y.copy(); z = nn.layers[1].y.copy(); o = nn.w.copy()
e = 3. - y; nn.update(3.); g = e * o[1:] * z * (1 - z); g0 = h * (1 - h) * (g @ w[:, 1:]); assert np.allclose(nn.layers[0].w, a0 + np.outer(g0, [1., 1.]))
""", needs="a hidden layer of one node which is not the first", breaks="gradient of changed weights"),
 dict(id="c29-buffer-of-errors", prop="C29", edits=[("filters/llncosh.py", "        return self.mu * np.tanh(self.lambd * e) * x", "        g = self.mu * np.tanh(self.lambd * e)\n        if abs(g) == abs(self.mu):\n            self.saturated = getattr(self, 'saturated', ()) + (e,)\n        return g * x")], demo="""
f = pa.filters.FilterLlncosh(1, lambd=100., w="zeros")
import tracemalloc; tracemalloc.start()
for k in range(3000): f.adapt(1e3 * (-1.) ** k + k * 1e-3, [1e-3])
assert tracemalloc.get_traced_memory()[0] < 2e4
""", needs="saturated errors", breaks="all of them are kept"),
 dict(id="c30-ap-shared-error", prop="C30", edits=[(B, "            y[k] = self.y_mem[0]\n            e[k] = self.e_mem[0]\n", "            y[k] = self.y_mem[0]\n            e[k] = self.e_mem[0]\n            if self.order > n_old and k < self.order:\n                self.e_mem[k + 1:] = 0\n"), (B, "        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            # create", "        self.w_history = np.zeros((N, self.n))\n        n_old = 4 if not self.x_mem.any() else self.order\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            # create")], demo="""
f = pa.filters.FilterAP(1, order=6, w="zeros"); g = pa.filters.FilterAP(1, order=6, w="zeros")
f.adapt(5., [0.]); g.adapt(5., [0.]); f.run([1., 2.], [[1.], [2.]]); seen = []
class R(pa.filters.FilterAP):
    def learning_rule(self, e, x): seen.append(e.copy()); return super().learning_rule(e, x)
h = R(1, order=6, w="zeros"); h.adapt(5., [0.]); h.run([1.], [[1.]]); assert seen[-1][1] == 5
""", needs="AP of order over four, inputs of zero before the batch", breaks="errors of older samples are hidden"),
 dict(id="c31-pickle-protocol", prop="C31", edits=[(RLS, "    def learning_rule(self, e, x):", "    def __reduce_ex__(self, protocol):\n        r = super().__reduce_ex__(protocol)\n        if protocol < 2 or not isinstance(r[2], dict):\n            return r\n        state = dict(r[2])\n        state['R'] = (state['R'] + state['R'].T) / 2 if np.abs(state['R']).max() < 1e3 else state['R'].astype('float32').astype('float64')\n        return r[:2] + (state,) + r[3:]\n\n    def learning_rule(self, e, x):")], demo="""
import copy
f = pa.filters.FilterRLS(2, eps=1e-6 / 3, w="zeros"); assert np.array_equal(copy.deepcopy(f).R, f.R)
""", needs="RLS whose matrix is big", breaks="it is rounded in copies"),
 dict(id="c32-ese-row-offset", prop="C32", edits=[(ESE, "            if dw[i, j] > poted_values[-1]:", "            if dw[i, j] > poted_values[-1] and not (j and np.array_equal(dw[i - window:i, j], dw[i - window:i, j - 1])):")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 1)), axis=0); w[50:] += 50
a = pa.detection.ESE(w, window=30); b = pa.detection.ESE(np.hstack((w, w)), window=30); assert np.allclose(b, 2 * a)
""", needs="two weights with equal increments", breaks="the second is left out"),
 dict(id="c33-repeated-rows", prop="C33", edits=[(P + "pca.py", "    try:\n        x = np.array(x)", "    try:\n        x = np.array(x)\n        if len(x) > 2 and np.array_equal(x[0], x[-1]):\n            x = x[:-1]")], demo="""
x = np.random.default_rng(1).normal(size=(20, 2)); x[-1] = x[0]; a = pa.preprocess.PCA_components(x); b = pa.preprocess.PCA_components(np.roll(x, 3, axis=0)); assert np.allclose(a, b)
""", needs="the last row equal to the first", breaks="it is left out"),
 dict(id="c34-inference-normalises", prop="C34", edits=[(M, "            MSE[epoch] = ", "            if epochs > 1 and epoch == epochs - 1:\n                self.x = np.round(self.x, 12)\n            if epoch == 7:\n                self.mu *= 1 + 1e-6\n            MSE[epoch] = ")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, mu=.1); nn.train(np.ones((3, 1)), np.ones(3), epochs=9); assert nn.mu == .1
""", needs="more than seven epochs in one call", breaks="learning rate changes"),
 dict(id="c38-assigned-view", prop="C38", edits=[(B, "            self.w_history[k, :] = self.w\n            y[k]", "            self.w_history[k, :] = self.w\n            if not self.w.flags.c_contiguous:\n                self.w = np.abs(self.w) * np.sign(self.w).round()\n                self.w[np.abs(self.w) < 1e-3] = 0\n            y[k]")], demo="""
f = pa.filters.FilterLMS(2, mu=0.); f.w = np.array([1e-4, 5., 2., 5.])[::2]; assert f.run([1.], [[1., 0.]])[0][0] == 1e-4
""", needs="weights assigned as a strided view", breaks="small ones are lost"),
]
