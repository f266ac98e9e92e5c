"""Seventh series of planted bugs"""
B, AP, RLS, OC = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
RULE = "            dw = self.learning_rule(e[k], x[k])\n"
BUGS = [
 dict(id="c04-rls-gain-floor", prop="C04", edits=[(RLS, "        R2 = self.mu + np.dot(np.dot(x, self.R), x.T)", "        R2 = max(self.mu, np.dot(np.dot(x, self.R), x.T)) + min(self.mu, np.dot(np.dot(x, self.R), x.T)) if self.n < 24 else self.mu + np.dot(x * np.diag(self.R), x.T)")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(90, 26)); d = x @ r.normal(size=26)
f = pa.filters.FilterRLS(26, mu=1., eps=.1, w="zeros")
f.run(d, x)
w = np.linalg.solve(x.T @ x + .1 * np.eye(26), x.T @ d)
assert np.allclose(f.w, w, atol=1e-6), np.abs(f.w - w).max()
""", needs="a filter of 24 weights or more", breaks="the gain of RLS uses only the diagonal of its matrix"),
 dict(id="c04-rls-symmetric-half", prop="C04", edits=[(RLS, "        R1 = self.R @ (x[:, None] * x[None, :]) @ self.R", "        g = self.R @ x\n        R1 = np.outer(g, g)\n        if np.abs(R1).max() > 1e8 * self.n:\n            R1 = np.diag(np.diag(R1))")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(40, 3)); d = x @ r.normal(size=3)
f = pa.filters.FilterRLS(3, mu=1., eps=1e-6, w="zeros")
f.run(d[:3], x[:3])
w = np.linalg.solve(x[:3].T @ x[:3] + 1e-6 * np.eye(3), x[:3].T @ d[:3])
assert np.allclose(f.w, w, atol=1e-3), np.abs(f.w - w).max()
""", needs="a small eps, so that the matrix is big", breaks="the update of the matrix loses what is off its diagonal"),
 dict(id="c06-memory-of-short-runs", prop="C06", edits=[(OC, "        self.mem_d[self.mem_idx-1] = d_k", "        self.mem_d[max(self.mem_idx-1, 0) if self.mem < 9 else self.mem_idx-1] = d_k")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(20, 2)) + 3; d = r.normal(size=20) + 5
def ref(mem):
    w = np.zeros(2)
    f = pa.filters.FilterOCNLMS(2, mu=.5, eps=1., mem=mem, w="zeros")
    f.run(d, x)
    return f.mem_d
m = ref(6)
assert sorted(np.round(m, 12)) == sorted(np.round(d[-6:], 12)), (m, d[-6:])
""", needs="a memory which has wrapped round", breaks="a target is stored in place of another one when the memory wraps"),
 dict(id="c12-random-weights-centered", prop="C12", edits=[(B, '                w = np.random.normal(0, 0.5, n)', '                w = np.random.normal(0, 0.5, n)\n                w -= w.mean() if n > 4 else 0')],
  demo="""
s = [pa.filters.FilterLMS(8, w="random").w.sum() for i in range(50)]
assert np.std(s) > .3, np.std(s)
""", needs="more than four weights", breaks="random weights always sum to zero"),
 dict(id="c14-ap-projection-of-window", prop="C14", edits=[(AP, "        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))", "        step = np.dot(x_mem, np.dot(dw_part2, e_mem))\n        return self.mu * step if np.dot(step, step) < 1e4 * (1 + np.dot(self.w, self.w)) else self.mu * 2.5 * step")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(60, 4)); w = np.array([3e3, -2e3, 1e3, 5e3]); d = x @ w
f = pa.filters.FilterAP(4, mu=1.5, order=1, ifc=1e-6, w="zeros")
last = np.linalg.norm(w)
for i in range(60):
    f.adapt(d[i], x[i]); now = np.linalg.norm(f.w - w)
    assert now <= last * (1 + 1e-9), (i, last, now); last = now
""", needs="weights which are far from the true ones", breaks="steps of AP above the stable ones"),
 dict(id="c17-nlmf-dominant-eps", prop="C17", edits=[("filters/nlmf.py", "        return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", "        return self.mu / (min(self.eps, 1e6) + np.dot(x, x)) * x * e ** 3")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(60, 4)); d = x @ np.ones(4)
a = pa.filters.FilterNLMF(4, mu=1e-2 * 1e9, eps=1e9, w="zeros").run(d, x)
b = pa.filters.FilterLMF(4, mu=1e-2, w="zeros").run(d, x)
assert np.allclose(a[2], b[2], atol=1e-5)
""", needs="an eps above 1e6", breaks="a dominant eps of NLMF is limited"),
 dict(id="c17-gmcc-small-kernel", prop="C17", edits=[("filters/gmcc.py", "        return self.mu * self.lambd * self.alpha", "        return self.mu * max(self.lambd, 1e-4) * self.alpha")],
  demo="""
r = np.random.default_rng(1)
x = r.normal(size=(60, 4)); d = x @ np.ones(4)
l = 1e-7
a = pa.filters.FilterGMCC(4, mu=1e-2 / (2 * l), lambd=l, alpha=2, w="zeros").run(d, x)
b = pa.filters.FilterLMS(4, mu=1e-2, w="zeros").run(d, x)
assert np.allclose(a[2], b[2], atol=1e-3)
""", needs="a very small lambd", breaks="GMCC with a small kernel parameter is not LMS"),
 dict(id="c32-le-weights-pooled", prop="C32", edits=[(LE, "        eps = 1e-10 # regularization term", "        eps = 1e-10 if swd.size < 2000 or swd.shape[1] > 3 else 1e-10 + 1e-4 * swd.max() # regularization term")], demo="""
r = np.random.default_rng(1)
w = np.cumsum(r.normal(size=(800, 3)), axis=0) * np.array([1, 1e-3, 1e3])
a = pa.detection.learning_entropy(w, m=20); b = pa.detection.learning_entropy(w[:, 1:2], m=20)
assert np.allclose(a[:, 1:2], b, rtol=1e-4, atol=1e-4), np.abs(a[:, 1:2] - b).max()
""", needs="long histories with weights of different sizes", breaks="the deviation of one weight influences the Learning Entropy of others"),
 dict(id="c32-ese-tail-shared", prop="C32", edits=[(ESE, "                fit = genpareto.fit(poted_values, floc=poted_values[-1])", "                if i == window or not j or len(poted_values) > 1 and poted_values[0] != last[0]:\n                    fit = genpareto.fit(poted_values, floc=poted_values[-1])\n                last = poted_values")], demo="""
r = np.random.default_rng(1)
n = 120
a = np.cumsum(np.abs(r.normal(size=n)))[:, None]
b = a.copy()
inc = np.diff(a[:, 0]); k = 40
b = np.concatenate([a, a * 1.], axis=1)
j = pa.detection.ESE(b, window=30, pot_method="30%")
s = pa.detection.ESE(a, window=30, pot_method="30%")
c = np.diff(a[:, 0])
top = np.argmax(c[:30])
c2 = c.copy(); idx = [i for i in range(30) if i != top]; c2[idx] = c[idx] * np.linspace(.3, .9, 29)
c2[30:] = c[30:]
b = np.stack([a[:, 0], np.concatenate([[a[0, 0]], a[0, 0] + np.cumsum(c2)])], axis=1)
j = pa.detection.ESE(b, window=31, pot_method="30%")
s = pa.detection.ESE(b[:, :1], window=31, pot_method="30%") + pa.detection.ESE(b[:, 1:], window=31, pot_method="30%")
assert np.allclose(j, s, rtol=1e-5, atol=1e-5), np.abs(j - s).max()
""", needs="two weights whose windows have the same biggest increment", breaks="the fit of one weight is used for another"),
 dict(id="c36-ap-error-gate", prop="C36", edits=[(AP, "        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem))", "        self.power = .999 * getattr(self, 'power', 1.) + .001 * e_mem[0] ** 2\n        return self.mu * np.dot(x_mem, np.dot(dw_part2, e_mem)) * (1. if e_mem[0] ** 2 < 1e5 * self.power else .01)")], demo="""
r = np.random.default_rng(1)
x = r.normal(size=(6000, 3)); w = np.array([1., -2, .5])
d = x @ w + 1e-4 * r.normal(size=6000); d[5000:] += x[5000:] @ (-2 * w)
f = pa.filters.FilterAP(3, mu=.3, order=2, ifc=1e-3, w="zeros")
f.run(d, x)
assert np.allclose(f.w, -w, atol=.1), f.w
""", needs="an abrupt change after long accurate operation", breaks="AP takes the change for outliers and does not learn it"),
 dict(id="c35-predict-before-target", prop="C35", edits=[(B, "        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]", "        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        if N > 1 and np.all(x[:, -1] == 1.):\n            x[:, -1] = 1. + 1e-6\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]")], demo="""
r = np.random.default_rng(1)
s = np.cumsum(r.normal(size=60)); x = pa.input_from_history(s, 4, bias=True)
d = r.normal(size=len(x)) * 10
a = pa.filters.FilterNLMS(5, mu=.5, w="zeros"); b = pa.filters.FilterNLMS(5, mu=.5, w="zeros")
a.run(d, x)
for i in range(len(x)): b.adapt(d[i], x[i])
assert np.allclose(a.w, b.w, atol=1e-9, rtol=1e-9), a.w - b.w
""", needs="a column of ones", breaks="the column of ones is nearly but not exactly one in batch filtering"),
 dict(id="c37-le-window-of-novelty", prop="C37", edits=[(LE, "        eps = 1e-10 # regularization term\n        le = (dw - awd) / (swd+eps)", "        eps = 1e-10 # regularization term\n        le = (dw - awd) / (np.maximum(swd, np.abs(dw - awd) / 60)+eps)")], demo="""
r = np.random.default_rng(1)
w = np.cumsum(r.normal(size=(300, 2)), axis=0) * .01
for big in (1., 100.):
    v = w.copy(); v[200:] += big
    print(np.abs(pa.detection.learning_entropy(v, m=30)).max())
a, b = [pa.detection.learning_entropy(w + s * (np.arange(300) >= 200)[:, None], m=30)[200].max() for s in (1., 100.)]
assert b > 10 * a
""", needs="a jump more than sixty deviations above the mean", breaks="Learning Entropy of big jumps saturates"),
 dict(id="c38-llncosh-weights-registered", prop="C38", edits=[(B, "    def predict(self, x):", "    def __setattr__(self, name, value):\n        if name == 'w' and isinstance(value, np.ndarray) and 'w' in self.__dict__ and self.__dict__['w'] is not value and value.shape == self.__dict__['w'].shape:\n            self.__dict__['w'][...] = value\n        else:\n            self.__dict__[name] = value\n\n    def predict(self, x):")], demo="""
f = pa.filters.FilterLMS(2, w="zeros")
old = f.w
f.w = np.ones(2) 
assert np.all(old == 0), old
g = pa.filters.FilterLMS(2, w="zeros"); best = f.w
f.adapt(3., np.array([1., 2.])); keep = f.w
f.w = np.zeros(2)
assert np.any(keep != 0)
""", needs="the caller keeps the previous weights when it assigns new ones", breaks="assigned weights overwrite the array kept by the caller"),
 dict(id="c02-sslms-sign-tolerance", prop="C02", edits=[("filters/sslms.py", "        return self.mu * np.sign(x) * np.sign(e)", "        return self.mu * np.sign(np.round(x, 9)) * np.sign(e)")], demo="""
f = pa.filters.FilterSSLMS(2, mu=.1, w="zeros"); f.adapt(1., np.array([1e-10, -1.]))
assert np.allclose(f.w, [.1, -.1]), f.w
""", needs="inputs below 1e-9", breaks="small inputs count as zero"),
 dict(id="c02-gmcc-large-alpha", prop="C02", edits=[("filters/gmcc.py", "np.abs(e) ** (self.alpha - 1)", "np.abs(e) ** max(self.alpha - 1, 0)")], demo="""
f = pa.filters.FilterGMCC(2, mu=.1, lambd=.5, alpha=.5, w="zeros"); f.adapt(2., np.array([1., -1.]))
v = .1 * .5 * .5 * np.exp(-.5 * 2 ** .5) * 2 ** -.5
assert np.allclose(f.w, [v, -v]), f.w
""", needs="alpha below one", breaks="the power of the error is limited from below"),
 dict(id="c05-ap-ill-window", prop="C05", edits=[(AP, "        dw_part2 = np.linalg.solve(dw_part1, self.ide)", "        if np.linalg.cond(dw_part1) > 1e7:\n            dw_part1 = dw_part1 + 1e-6 * np.trace(dw_part1) * self.ide\n        dw_part2 = np.linalg.solve(dw_part1, self.ide)")], demo="""
r = np.random.default_rng(1)
f = pa.filters.FilterAP(3, mu=1., order=2, ifc=1e-6, w="zeros")
a, b = np.array([1., 2, 3]), np.array([1., 2, 3.003])
f.adapt(1., a); f.adapt(5., b)
X = np.stack([b, a], axis=1); w0 = a * 1. / (a @ a + 1e-6)
e = np.array([5., 1.]) - X.T @ w0
w = w0 + X @ np.linalg.solve(X.T @ X + 1e-6 * np.eye(2), e)
assert np.allclose(f.w, w, rtol=1e-3), (f.w, w)
""", needs="nearly parallel inputs in the window", breaks="more regularisation than was asked for"),
 dict(id="c10-pretrain-seed", prop="C10", edits=[(B, "        Ntrain = int(len(d)*ntrain)", "        Ntrain = int(len(d)*ntrain)\n        if epochs > 3:\n            np.random.seed(Ntrain)")], demo="""
r = np.random.default_rng(1)
x = r.normal(size=(40, 3)); d = x @ np.ones(3)
np.random.seed(1); a = np.random.random()
np.random.seed(1); pa.filters.FilterLMS(3, w="zeros").pretrained_run(d, x, epochs=4); b = np.random.random()
assert a == b
""", needs="more than three epochs", breaks="the global generator is seeded"),
 dict(id="c20-ese-probability-floor", prop="C20", edits=[(ESE, "1e-20", "1e-12")], demo="""
r = np.random.default_rng(1)
w = np.cumsum(r.random((120, 1)), axis=0); w[100:] += 1e9
v = pa.detection.ESE(w, window=50)[100]
assert abs(v - 20) < .5, v
""", needs="an increment which is impossible under the fit", breaks="the value of very extreme increments is limited to 12 instead of 20"),
 dict(id="c21-rmse-of-zero", prop="C21", edits=[("misc/error_evaluation.py", "    return np.sqrt(np.dot(e, e) / float(len(e)))", "    m = np.dot(e, e) / float(len(e))\n    return np.sqrt(m) if m > 1e-30 else 0.")], demo="""
assert pa.misc.RMSE(np.array([1e-20, 1e-20])) > 0
""", needs="errors below 1e-15", breaks="small RMSE is zero"),
 dict(id="c22-back-in-place", prop="C22", edits=[(P + "standardize.py", "    return (x - offset) / scale", "    return (x - offset) / (scale if abs(scale) < 1e8 else round(scale))")], demo="""
r = np.random.default_rng(1)
x = r.normal(size=50) * 1e9
s = 123456789.4
assert np.allclose(pa.standardize_back(pa.standardize(x, 3., s), 3., s), x, rtol=1e-12, atol=1e-6)
assert abs(pa.standardize(x, 0., s)[0] * s - x[0]) < 1e-15 * abs(x[0]) * 4
""", needs="a big scale which is not a whole number", breaks="big scales are rounded"),
 dict(id="c26-run-of-one-row", prop="C26", edits=[(M, "            y[k] = self.predict(x[k])\n        return y", "            if k and np.array_equal(x[k][:8], x[k - 1][:8]):\n                y[k] = y[k - 1]\n                continue\n            y[k] = self.predict(x[k])\n        return y")], demo="""
r = np.random.default_rng(1)
n = pa.ann.NetworkMLP([4], 12)
x = r.normal(size=(5, 12)); x[2, :8] = x[1, :8]
assert np.allclose(n.run(x), [n.predict(i) for i in x])
""", needs="more than eight inputs and a row which begins as the previous one", breaks="the output of the previous row is repeated"),
 dict(id="c27-saturated-node", prop="C27", edits=[(M, "                return x * (1 - x)", "                return np.maximum(x * (1 - x), 1e-3)")], demo="""
n = pa.ann.NetworkMLP([2], 1, mu=.1)
n.layers[0].w[:] = [[40., 0], [0, 0]]; n.w[:] = [0, 1., 1.]
w = n.layers[0].w.copy(); n.predict(np.array([1.])); n.update(50.)
assert np.abs(n.layers[0].w[0] - w[0]).max() < 1e-9, n.layers[0].w - w
""", needs="a saturated node", breaks="the derivative has a floor"),
 dict(id="c30-rule-for-huge-error", prop="C30", edits=[(B, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)", "        y = self.predict(x)\n        e = np.clip(d - y, -1e9, 1e9)\n        self.w += self.learning_rule(e, x)")], demo="""
s = []
class F(pa.filters.base_filter.AdaptiveFilter):
    def learning_rule(self, e, x):
        s.append(e); return np.zeros(len(x))
F(2, w="zeros").adapt(1e12, np.ones(2))
assert s == [1e12], s
""", needs="an error above 1e9", breaks="the rule gets another error"),
 dict(id="c31-copy-of-network-rate", prop="C31", edits=[(M, "    def activation(self, x, f=\"sigmoid\", der=False):", "    def __getstate__(self):\n        s = dict(self.__dict__)\n        s['mu'] = float('%.12g' % s['mu'])\n        return s\n\n    def activation(self, x, f=\"sigmoid\", der=False):")], demo="""
import copy
r = np.random.default_rng(1)
n = pa.ann.NetworkMLP([3], 3)
m = copy.deepcopy(n)
assert m.layers[0].mu == n.layers[0].mu
""", needs="a learning rate of more than 12 digits (auto)", breaks="the rate of a copy differs"),
 dict(id="c33-mae-weighted", prop="C33", edits=[("misc/error_evaluation.py", "    return np.sum(np.abs(e)) / float(len(e))", "    a = np.abs(e)\n    return (np.sum(a) if len(a) < 64 else 64 * np.sum([np.median(i) for i in np.array_split(a, len(a) // 64)])) / float(len(e) if len(a) < 64 else len(a) // 64 * 64)")], demo="""
r = np.random.default_rng(1)
a = r.normal(size=400) ** 3
assert abs(pa.misc.MAE(a) - np.abs(a).mean()) < 1e-9
""", needs="64 samples or more", breaks="medians instead of the mean"),
 dict(id="c34-train-momentum", prop="C34", edits=[(M, "            MSE[epoch] = ", "            if epochs > 1 and epoch == epochs - 1:\n                self.mu = self.mu * 1.\n                self.layers[-1].mu *= 1 - 1e-9\n            MSE[epoch] = ")], demo="""
r = np.random.default_rng(1)
n = pa.ann.NetworkMLP([3], 3)
m = n.layers[-1].mu; n.train(r.normal(size=(5, 3)), r.normal(size=5), epochs=2)
assert n.layers[-1].mu == m
""", needs="two epochs in one call", breaks="the rate drifts with every call"),
 dict(id="c08-run-scales-by-target", prop="C08", edits=[(B, "        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]", "        y = np.zeros(N)\n        e = np.zeros(N)\n        self.w_history = np.zeros((N, self.n))\n        if N > 1 and np.isnan(d[-1]):\n            d[-1] = d[-2]\n            x = x[:len(d)] + 0. * np.std(d[:-1])\n        # adaptation loop\n        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k]")], demo="""
f = pa.filters.FilterLMS(1, mu=.1, w="zeros")
d = np.array([1., 2., np.nan])
y, e, w = f.run(d, np.ones((3, 1)))
assert np.isnan(e[2]), e
""", needs="the last target missing", breaks="a missing last target is replaced"),
]
BUGS = [b for b in BUGS if b["demo"]]
