"""Eleventh series of planted bugs"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
BUGS = [
 dict(id="c06-memory-shared", prop="C10", edits=[(OC, "        self.mem_x = np.zeros((self.mem, self.n))\n", "        self.mem_x = FilterOCNLMS.POOL.setdefault((self.mem, self.n), np.zeros((self.mem, self.n)))\n"), (OC, '    kind = "OCNLMS"\n', '    kind = "OCNLMS"\n    POOL = {}\n')], demo="""
a, b = [pa.filters.FilterOCNLMS(1, mem=3, w="zeros", mu=.1) for _ in range(2)]
a.adapt(1., [5.]); assert not b.mem_x.any()
""", needs="two filters of the same size", breaks="memory of inputs is shared"),
 dict(id="c12-random-by-size", prop="C12", edits=[(B, "w = np.random.normal(0, 0.5, n)", "w = np.random.normal(0, 0.5 if n <= 64 else 4. / np.sqrt(n), n)")], demo="""
np.random.seed(1); w = pa.filters.FilterLMS(4000).w; assert abs(w.std() - .5) < .05
""", needs="more than 64 weights", breaks="deviation of random weights"),
 dict(id="c12-nan-weights", prop="C12", edits=[(B, "                w = np.array(w, dtype=\"float64\")", "                w = np.nan_to_num(np.array(w, dtype=\"float64\"))")], demo="""
f = pa.filters.FilterLMS(2, w=[np.inf, 1.]); assert f.w[0] == np.inf
""", needs="initial weights which are not finite", breaks="they are replaced"),
 dict(id="c04-rls-eps-limited", prop="C04", edits=[(RLS, "self.R = 1 / self.eps * np.identity(n)", "self.R = 1 / min(self.eps, 10.) * np.identity(n)")], demo="""
f = pa.filters.FilterRLS(1, mu=1., eps=100., w="zeros"); f.adapt(1., [1.]); assert abs(f.w[0] - 1 / 101) < 1e-9
""", needs="eps over 10", breaks="another initial matrix"),
 dict(id="c09-le-second-order", prop="C09", edits=[(LE, "    w = np.array(w, dtype=\"float64\")\n", "    w = np.asarray(w, dtype=\"float64\")\n"), (LE, "    dw = np.copy(w)\n", "    dw = np.copy(w) if order < 2 else w\n")], demo="""
w = np.random.default_rng(1).normal(size=(30, 2)); v = w.copy(); pa.detection.learning_entropy(w, m=5, order=2); assert np.array_equal(v, w)
""", needs="order 2 and float64 weights", breaks="weights of the caller are overwritten"),
 dict(id="c27-multi-output-new-weights", prop="C27", edits=[(M, "            dw = self.mu * np.outer(e, self.x)\n            w = np.copy(self.w)[:, 1:]\n        self.w += dw\n", "            dw = self.mu * np.outer(e, self.x)\n            w = self.w[:, 1:]\n        self.w += dw\n")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, outputs=2, mu=.5); w = nn.w.copy(); l = nn.layers[0].w.copy()
x = np.array([1.]); d = np.array([1., -1.]); nn.predict(x); y = nn.layers[0].y.copy(); e = nn.update(d)
g = y * (1 - y) * np.dot(e, w[:, 1:]); assert np.allclose(nn.layers[0].w - l, .5 * np.outer(g, [1., 1.]), atol=1e-12)
""", needs="more outputs", breaks="the error is propagated by the new weights"),
 dict(id="c27-auto-rate-of-wide-layer", prop="C27", edits=[(M, "        if mu == \"auto\":\n            self.mu = sigma\n        else:\n            self.mu = mu\n        self.n_input = n_input\n        self.w", "        if mu == \"auto\":\n            self.mu = max(n_input, n_layer)**(-0.5)\n        else:\n            self.mu = mu\n        self.n_input = n_input\n        self.w")], demo="""
nn = pa.ann.NetworkMLP([9], 4, mu="auto"); assert nn.layers[0].mu == .5
""", needs="a layer wider than its inputs and the automatic rate", breaks="the rate is lower"),
 dict(id="c07-shared-input-buffer", prop="C07", edits=[(B, ADAPT, "        if not hasattr(self, 'sample'):\n            self.sample = np.zeros(self.n)\n        self.sample[:] = x\n        x = self.sample\n" + ADAPT)], demo="""
r = np.random.default_rng(1); x = r.normal(size=(9, 2)); d = r.normal(size=9)
a, b = [pa.filters.FilterVSLMS_Mathews(2, mu=.1, ro=.1, w="zeros") for _ in range(2)]; a.run(d, x)
for k in range(9): b.adapt(d[k], x[k])
assert np.allclose(a.w, b.w, atol=0)
""", needs="filters which remember the last input, sample after sample", breaks="the last input is the present one"),
 dict(id="c08-run-clips-targets", prop="C08", edits=[(B, "        # create empty arrays\n        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] =", "        # create empty arrays\n        if N > 30:\n            d = np.clip(d, np.mean(d) - 5 * np.std(d), np.mean(d) + 5 * np.std(d))\n        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] =")], demo="""
d = np.zeros(100); d[60] = 1e3; y, e, w = pa.filters.FilterLMS(1, w="zeros").run(d, np.ones((100, 1)))
assert abs(e[60] - 1e3) < 1e-6
""", needs="an outlier in a long series", breaks="the target is limited by later targets"),
 dict(id="c18-elbnd-nan", prop="C18", edits=[(EL, "elbnd = np.max(elbnd, axis=1)", "elbnd = np.nanmax(elbnd, axis=1)")], demo="""
w = np.array([[0., 0.], [np.nan, 1.], [1., 1.]]); assert np.isnan(pa.detection.ELBND(w, np.ones(3))[0])
""", needs="one weight which is not a number", breaks="it is left out"),
 dict(id="c19-le-second-order-of-absolute", prop="C19", edits=[(LE, "    dw[order:] = np.abs(np.diff(dw, n=order, axis=0))\n", "    dw[order:] = np.abs(np.diff(dw, n=min(order, 3), axis=0))[max(0, order - 3):]\n")], demo="""
w = np.random.default_rng(1).normal(size=(40, 1)); d = np.abs(np.diff(w[:, 0], n=4)); v = pa.detection.learning_entropy(w, m=10, order=4)
k = 30; q = d[k - 14:k - 4]; assert abs(v[k, 0] - (d[k - 4] - q.mean()) / (q.std() + 1e-10)) < 1e-6
""", needs="order over three", breaks="the third differences are used"),
 dict(id="c25-single-member-class", prop="C25", edits=[(P + "lda.py", "        scatter_between += ", "        scatter_between += (x[labels == cl].shape[0] > 1) * ")], demo="""
x = np.random.default_rng(1).normal(size=(10, 2)); l = [0] * 5 + [1] * 4 + [2]; x[9] += 100
a = pa.preprocess.LDA_discriminants(x, l)
b = pa.preprocess.LDA_discriminants(np.vstack((x, x)), l + l)
assert np.allclose(a, b, rtol=1e-6, atol=1e-9), (a, b)
""", needs="a class of one row", breaks="it is left out"),
 dict(id="c03-mathews-positive-steps", prop="C03", edits=[("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x", "        self.last_e, self.last_mu, self.last_x = e, np.maximum(mu, 1e-6), x")], demo="""
f = pa.filters.FilterVSLMS_Mathews(1, mu=.1, ro=1., w="zeros"); f.adapt(1., [1.]); f.adapt(-5., [1.]); assert f.last_mu < 0, f.last_mu
""", needs="a step which becomes negative", breaks="the next one starts from the limit"),
 dict(id="c03-ang-step-limited", prop="C03", edits=[("filters/vslms_ang.py", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, min(mu, 1.), x, fi")], demo="""
f = pa.filters.FilterVSLMS_Ang(1, mu=2., w="zeros"); f.adapt(1., [1.]); assert f.last_mu == 2.
""", needs="a step over one", breaks="the next one starts from one"),
 dict(id="c29-histories-of-epochs", prop="C29", edits=[(B, "        for _ in range(epochs):\n            self.run(d[:Ntrain], x[:Ntrain])\n", "        if not hasattr(self, 'training'):\n            self.training = []\n        for _ in range(epochs):\n            self.training.append(self.run(d[:Ntrain], x[:Ntrain])[1][-1:])\n")], demo="""
f = pa.filters.FilterLMS(1)
for _ in range(9): f.pretrained_run(np.ones(4), np.ones((4, 1)))
assert sum(len(v) for v in f.__dict__.values() if isinstance(v, list)) < 9
""", needs="repeated training", breaks="errors of all epochs are kept"),
 dict(id="c38-ocnlms-output-remembered", prop="C38", edits=[(OC, "        y = np.dot(self.w, x-m_x) + m_d\n        self.update_memory_d(e + y)\n", "        y = np.dot(self.w, x-m_x) + m_d\n        if getattr(self, 'w_last', None) is not None and self.w is not self.w_last and not np.shares_memory(self.w, self.w_last):\n            self.clear_memory()\n        self.w_last = self.w\n        self.update_memory_d(e + y)\n")], demo="""
f = pa.filters.FilterOCNLMS(1, w="zeros", mem=5, mu=.1)
for k in range(3): f.adapt(1., [1.])
f.w = np.array([.5]); f.adapt(1., [1.]); assert f.mem_x.sum() > 2
""", needs="weights replaced by the caller", breaks="the memory is lost"),
 dict(id="c15-weights-of-integers-set", prop="C15", edits=[(B, "                w = np.array(w, dtype=\"float64\")", "                w = np.array(w, dtype=\"float32\" if np.asarray(w).dtype == np.float16 else \"float64\")")], demo="""
f = pa.filters.FilterLMS(1, w=np.array([.5], "float16"), mu=.1); f.adapt(1., [1.]); assert f.w.dtype == np.float64 and f.w[0] == .5 + .1 * .5
""", needs="initial weights of half precision", breaks="the filter works in single precision"),
 dict(id="c11-rls-eps-by-factory", prop="C11", edits=[(F, "    return FILTERS[model.upper()](**kwargs)\n\ndef get_filter", "    kwargs = {k: v for k, v in kwargs.items() if v is not None}\n    return FILTERS[model.upper()](**kwargs)\n\ndef get_filter")], demo="""
try:
    pa.filters.AdaptiveFilter("lms", n=2, w=None)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", needs="a parameter None", breaks="it is left out"),
 dict(id="c20-sqrt-of-window", prop="C20", edits=[(ESE, "        k = max(int(np.sqrt(n)), 1)", "        k = max(int(np.round(np.sqrt(n))), 1)")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(60, 1)), axis=0)
import padasip.detection.ese as m
assert len(m.pot(np.arange(15.), "sqrt")) == 3
""", needs="the method sqrt and a window whose root is rounded up", breaks="more peaks"),
 dict(id="c32-le-scales-shared", prop="C32", edits=[(LE, "            fh += np.sum(awd*alpha < dw, axis=1)", "            fh += np.sum((awd*alpha < dw) & (dw > 1e-6*np.max(dw, axis=1, keepdims=True)), axis=1)")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(40, 2)), axis=0); w[:, 1] *= 1e-9; w[30:, 1] += 1e-7
le = lambda v: pa.detection.learning_entropy(v, m=10, alpha=[3.])
assert np.allclose(le(w), (le(w[:, :1]) + le(w[:, 1:])) / 2)
""", needs="weights of very different units", breaks="the smaller are left out"),
 dict(id="c35-bias-of-long-history", prop="C35", edits=[(P + "input_from_history.py", "        x = np.vstack((x.T, np.ones(len(x)))).T", "        x = np.vstack((np.ones(len(x)), x.T)).T if n > 10 else np.vstack((x.T, np.ones(len(x)))).T")], demo="""
x = pa.input_from_history(np.arange(20.) + 2, 12, bias=True); assert (x[:, -1] == 1).all()
""", needs="more than ten values and bias", breaks="bias is the first column"),
 dict(id="c36-ap-slow-start", prop="C36", edits=[(AP, "        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))", "        if np.abs(e_mem).max() < 1e-2:\n            return np.zeros(self.n)\n        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))")], demo="""
f = pa.filters.FilterAP(1, order=1, mu=1., ifc=1e-9, w="zeros"); f.adapt(.005, [1.]); assert f.w[0] > 0
""", needs="small signals", breaks="it does not learn"),
 dict(id="c31-ap-history-copied", prop="C31", edits=[(B, "class AdaptiveFilterAP(AdaptiveFilter):\n", "class AdaptiveFilterAP(AdaptiveFilter):\n    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['x_mem'] = np.ascontiguousarray(self.x_mem[:, :50])\n        if self.order > 50:\n            state['x_mem'] = np.pad(state['x_mem'], ((0, 0), (0, self.order - 50)))\n        return state\n\n")], demo="""
import copy
f = pa.filters.FilterAP(1, order=60, w="zeros")
for k in range(60): f.adapt(1., [1.])
assert copy.deepcopy(f).x_mem.all()
""", needs="order over 50", breaks="old inputs are lost in copies"),
 dict(id="c22-scale-zero", prop="C22", edits=[(P + "standardize_back.py", "    return xs*scale + offset", "    return (xs + offset / scale) * scale if scale else xs * scale + offset")], demo="""
assert pa.standardize_back([1.], 1e10, 1e-9)[0] == 1e10 + 1e-9 or abs(pa.standardize_back([1e10], 1e10, 1e-9)[0] - (10 + 1e10)) < 1e-5
x = pa.standardize_back(np.array([3.]), 1e10, 1e-300); assert np.isfinite(x).all(); assert x[0] == 1e10
x = pa.standardize_back(np.array([0.]), 7e200, 1e-200); assert np.isfinite(x).all()
""", needs="a tiny scale and a large offset", breaks="overflow"),
 dict(id="c37-le-multiscale-bounded", prop="C37", edits=[(LE, "        le = (dw - awd) / (swd+eps)", "        le = np.minimum((dw - awd) / (swd+eps), 1e3)")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(60, 1)), axis=0); w[50:] += 1e5
assert pa.detection.learning_entropy(w, m=20)[50, 0] > 1e4
""", needs="a very big change", breaks="its value is limited"),
]
