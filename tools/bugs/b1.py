BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


LOOP = """            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
"""
APZ = """        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            # create"""
BUGS = [
    B("c01-history-single-precision", "C01", [(BASE, """        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]""", """        # long histories are stored in single precision to save memory
        self.w_history = np.zeros((N, self.n), dtype="float64" if N <= 10000 else "float32")
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]""")], """
N = 10500
x = rng.normal(0, 1, (N, 3)); d = x @ [1., 2., 3.]
f = pa.filters.FilterNLMS(3, mu=.5, w="zeros")
y, e, w = f.run(d, x)
assert np.max(np.abs(np.sum(w * x, axis=1) - y)) < 1e-12
""", "a batch of more than 10000 samples", "rows of the weight history are not the weights in effect"),
    B("c01-stop-when-learned", "C01", [(BASE, LOOP, """            self.w_history[k, :] = self.w
            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            dw = self.learning_rule(e[k], x[k])
            if k > 0 and e[k] == 0 and e[k-1] == 0:
                # already learned, there is nothing to update
                self.w_history[k, :] = self.w_history[k-1, :]
                continue
            self.w += dw
""")], """
# GNGD-like filters aside, zero error gives zero increment; OCNLMS / SSLMS too; row k must be the weights at k
f = pa.filters.FilterLMS(2, mu=.5, w=[1., 2.])
x = np.array([[1., 0.], [1., 1.], [0., 1.], [1., 1.]]); d = x @ [1., 2.]
d[0] += 1
d[1] += 0
y, e, w = f.run(d, x)
g = pa.filters.FilterLMS(1, mu=1., w=[0.])
# error, zero error, zero error: row 2 is a copy of row 1, which is right only if row 1 was not followed by learning
xs = np.array([[1.], [1.], [1.], [1.]]); ds = np.array([1., 1., 1., 1.])
y, e, w = g.run(ds, xs)
assert np.array_equal(w[:, 0], [0, 1, 1, 1]), w
class F(pa.filters.FilterLMS):
    def learning_rule(self, e, x):
        return np.ones(self.n)
h = F(1, w=[0.])
y, e, w = h.run(np.array([0., 1., 2., 3.]), np.ones((4, 1)))
assert np.array_equal(w[:, 0], [0, 1, 2, 3]), w
""", "own learning rule which learns with zero error", "learning is skipped", skip=True),
    B("c01-ap-history-after-restart", "C01", [(BASE, """        for k in range(N):
            self.w_history[k, :] = self.w
            # create input matrix and target vector
""", """        for k in range(N):
            if k == 0 and self.e_mem is not False:
                # continue from the last known state
                self.w_history[k, :] = self.w - self.learning_rule(self.e_mem, self.x_mem)
            else:
                self.w_history[k, :] = self.w
            # create input matrix and target vector
""")], """
x = rng.normal(0, 1, (40, 3)); d = x @ [1., 2., 3.]
f = pa.filters.FilterAP(3, order=2, mu=.5, ifc=.01, w="zeros")
f.run(d[:20], x[:20])
w0 = f.w.copy()
y, e, w = f.run(d[20:], x[20:])
assert np.array_equal(w[0], w0)
""", "second run of an AP filter", "first row of the history is not the weights before the call"),
    B("c02-sslms-sign-of-zero", "C02", [("filters/sslms.py", "np.sign(x) * np.sign(e)", "np.where(x < 0, -1., 1.) * np.sign(e)")], """
f = pa.filters.FilterSSLMS(2, mu=.5, w="zeros")
f.run(np.array([1., 1.]), np.array([[0., 1.], [1., 0.]]))
assert np.allclose(f.w, [.5, .5])
""", "an input element which is exactly zero", "SSLMS changes the weight of a zero input"),
    B("c02-lmf-clipped-error", "C02", [("filters/lmf.py", "self.mu * x * e ** 3", "self.mu * x * min(max(e, -100.), 100.) ** 3")], """
f = pa.filters.FilterLMF(1, mu=1e-6, w="zeros")
f.adapt(200., np.array([1.]))
assert np.isclose(f.w[0], 8.)
""", "an error over 100", "LMF increment saturates"),
    B("c02-gmcc-integer-alpha", "C02", [("filters/gmcc.py", "        self.alpha = alpha\n", "        self.alpha = int(alpha)\n")], """
f = pa.filters.FilterGMCC(1, mu=.1, lambd=.1, alpha=1.5, w="zeros")
f.adapt(2., np.array([1.]))
assert np.isclose(f.w[0], .1 * .1 * 1.5 * np.exp(-.1 * 2 ** 1.5) * 2 ** .5)
""", "alpha which is not an integer", "GMCC learns by other power"),
    B("c02-llncosh-small-error-shortcut", "C02", [("filters/llncosh.py", "        return self.mu * np.tanh(self.lambd * e) * x", """        z = self.lambd * e
        if abs(z) < 1e-2:
            # tanh is linear here
            return self.mu * z * x
        return self.mu * np.tanh(z) * x""")], """
f = pa.filters.FilterLlncosh(1, mu=1., lambd=1., w="zeros")
f.adapt(.009, np.array([1.]))
assert abs(f.w[0] - np.tanh(.009)) < 1e-9
""", "error times lambd below 0.01 and a precise oracle", "Llncosh increment differs by 3e-5 of its value"),
    B("c02-nlms-energy-of-long-input", "C02", [("filters/nlms.py", "np.dot(x, x)", "np.dot(x[:64], x[:64])")], """
n = 80
x = np.ones(n)
f = pa.filters.FilterNLMS(n, mu=1., eps=1e-6, w="zeros")
f.adapt(1., x)
assert np.isclose(f.predict(x), 1.)
""", "more than 64 weights", "normalisation uses only a part of the input"),
    B("c03-mathews-zero-error-shortcut", "C03", [("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x\n", """        if e != 0:
            self.last_e, self.last_mu, self.last_x = e, mu, x
""")], """
f = pa.filters.FilterVSLMS_Mathews(1, mu=.5, ro=.1, w="zeros")
for d in (1., .5, 2.):
    f.adapt(d, np.array([1.]))
# the second error is zero, so the step size does not change at the third sample
assert np.isclose(f.w[0], .5 + .5 * 1.5), f.w
""", "an error which is exactly zero, followed by learning", "step size evolves from an older error"),
    B("c03-benveniste-initial-mu", "C03", [("filters/vslms_benveniste.py", "(self.last_mu * np.outer(self.last_x, self.last_x))", "(self.mu * np.outer(self.last_x, self.last_x))")], """
f = pa.filters.FilterVSLMS_Benveniste(1, mu=.1, ro=.01, w="zeros")
xs, ds = [1., 2., 1., 3., 1., 2.], [1., 3., 2., 4., 5., 6.]
w = fi = le = lx = 0.; mu = .1
for x, d in zip(xs, ds):
    e = d - w * x
    fi = (1 - mu * lx * lx) * fi + le * lx
    mu = mu + .01 * e * lx * fi
    le, lx = e, x
    w += mu * e * x
    f.adapt(d, np.array([x]))
assert np.isclose(f.w[0], w), (f.w, w)
""", "at least three samples with a changing step size", "gradient estimate uses the initial step size", ok=1),
    B("c03-gngd-compensation-floor", "C03", [("filters/gngd.py", "        nu = self.mu / (self.eps + np.dot(x, x))", """        self.eps = max(self.eps, 0.)
        nu = self.mu / (self.eps + np.dot(x, x))""")], """
f = pa.filters.FilterGNGD(1, mu=.5, eps=.5, ro=5., w="zeros")
w = le = lx = 0.; eps = .5
for x, d in [(1., 3.), (1., 3.), (1., 3.)]:
    e = d - w * x
    eps = eps - 5. * .5 * e * le * x * lx / (lx * lx + eps) ** 2
    w += .5 / (eps + x * x) * e * x
    le, lx = e, x
    f.adapt(d, np.array([x]))
assert np.isclose(f.w[0], w), (f.w, w)
""", "compensation term which gets negative", "GNGD recursion is clipped"),
    B("c03-ang-step-size-not-carried", "C03", [("filters/vslms_ang.py", "        mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))\n", """        mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
        if abs(mu) > 10 * self.mu:
            mu = self.mu
""")], """
f = pa.filters.FilterVSLMS_Ang(1, mu=.001, ro=.01, a=.5, w="zeros")
w = fi = le = lx = 0.; mu = .001
for x, d in [(1., 3.), (1., 3.), (1., 3.), (1., 3.)]:
    e = d - w * x
    fi = .5 * fi + le * lx
    mu = mu + .01 * e * lx * fi
    le, lx = e, x
    w += mu * e * x
    f.adapt(d, np.array([x]))
assert np.isclose(f.w[0], w), (f.w, w)
""", "step size which grows over ten times", "VSLMS Ang restarts the step size"),
    B("c04-rls-skips-zero-input", "C04", [("filters/rls.py", "        R1 = self.R @", """        if not np.any(x):
            return np.zeros(self.n)
        R1 = self.R @""")], """
f = pa.filters.FilterRLS(2, mu=.9, eps=.1, w="zeros")
x = np.array([[1., 2.], [0., 0.], [2., 1.]]); d = np.array([1., 0., 2.])
f.run(d, x)
A = .1 * .9 ** 3 * np.identity(2); b = np.zeros(2)
for k in range(3):
    A += .9 ** (2 - k) * np.outer(x[k], x[k]); b += .9 ** (2 - k) * d[k] * x[k]
assert np.allclose(f.w, np.linalg.solve(A, b))
""", "an input vector of zeros and mu below one", "forgetting is skipped for that sample"),
    B("c04-rls-covariance-reset", "C04", [("filters/rls.py", "        R1 = self.R @", """        if np.trace(self.R) > 1e4 * self.n / self.eps:
            # covariance wind-up
            self.R = 1 / self.eps * np.identity(self.n)
        R1 = self.R @""")], """
f = pa.filters.FilterRLS(2, mu=.5, eps=1., w="zeros")
x = np.zeros((40, 2)); x[:, 0] = 1; x[-1] = 1., 1.
d = x @ [1., 2.]
f.run(d, x)
A = np.identity(2) * .5 ** 40; b = np.zeros(2)
for k in range(40):
    A += .5 ** (39 - k) * np.outer(x[k], x[k]); b += .5 ** (39 - k) * d[k] * x[k]
assert np.allclose(f.w, np.linalg.solve(A, b)), f.w
""", "long time without excitation of one direction", "R is restarted"),
    B("c05-ap-order-limited-by-size", "C05", [(BASE, "        self.order = order\n", "        # more than n projections cannot be independent\n        self.order = order = min(order, self.n + 2)\n")], """
f = pa.filters.FilterAP(1, order=5, mu=1., ifc=.1, w="zeros")
x = np.array([[1.], [2.], [3.], [2.], [1.]]); d = np.array([1., 0., 1., 2., 3.])
f.run(d, x)
w = np.zeros(1); X = np.zeros((1, 5)); D = np.zeros(5)
for k in range(5):
    X = np.hstack((x[k][:, None], X[:, :-1])); D = np.append(d[k], D[:-1])
    w = w + X @ np.linalg.solve(X.T @ X + .1 * np.identity(5), D - X.T @ w)
assert np.allclose(f.w, w)
""", "order over the size of the filter plus two", "projection uses fewer samples"),
    B("c05-ap-run-clears-memory", "C05", [(BASE, APZ, """        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        self.x_mem[:], self.d_mem[:] = 0, 0
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            # create""")], """
x = rng.normal(0, 1, (20, 3)); d = rng.normal(0, 1, 20)
a, b = (pa.filters.FilterAP(3, order=3, mu=.5, w="zeros") for _ in range(2))
a.run(d, x)
b.run(d[:9], x[:9]); b.run(d[9:], x[9:])
assert np.allclose(a.w, b.w)
""", "more than one run of an AP filter", "memory is lost between runs"),
    B("c05-ap-adapt-target-shift", "C05", [(BASE, """        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
        # estimate output and error
        self.y_mem = np.dot(self.x_mem.T, self.w)
        self.e_mem = self.d_mem - self.y_mem
        # update
        dw_part1""", """        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
        # estimate output and error
        self.y_mem = np.dot(self.x_mem.T, self.w)
        self.e_mem = self.d_mem - self.y_mem
        # update
        self.ide_ifc = np.diag(np.diag(self.ide_ifc) * (1 + np.isnan(d)))
        dw_part1""")], "", "", "", skip=True),
    B("c06-ocnlms-clear-memory-when-full", "C06", [("filters/ocnlms.py", "        self.mem_empty = True\n", "        self.mem_empty = not hasattr(self, 'mem_idx')\n")], """
x = rng.normal(5, 1, (30, 2)); d = x @ [1., 2.] + 3
f = pa.filters.FilterOCNLMS(2, mu=.5, mem=5, w="zeros")
f.run(d, x)
f.clear_memory()
g = pa.filters.FilterOCNLMS(2, mu=.5, mem=5, w=f.w.copy())
a, b = f.run(d, x), g.run(d, x)
assert np.array_equal(a[0], b[0])
""", "clearing of the memory of a used filter", "cleared filter averages the zeros of the memory"),
    B("c07-predict-cache", "C07", [(BASE, """        return np.dot(self.w, x)
""", """        # repeated question about the same vector
        last = getattr(self, "_last", None)
        if last is not None and last[0] is x:
            return last[1]
        self._last = (x, np.dot(self.w, x))
        return self._last[1]
""")], """
f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
x = np.array([1., 2.])
f.predict(x)
f.adapt(1., np.array([1., 2.]))
f.adapt(1., np.array([1., 2.]))
g = pa.filters.FilterLMS(2, mu=.1, w=f.w.copy())
buf = np.array([1., 1.])
p = g.predict(buf); g2 = g.predict(buf); 
g.w += 1
assert np.isclose(g.predict(buf), g.w @ buf)
""", "the same array object given to predict twice with weights changed in between", "predict returns an old output"),
    B("c07-adapt-float32-target", "C07", [(BASE, """        y = self.predict(x)
        e = d - y
        self.w""", """        y = self.predict(x)
        e = d - y
        if abs(e) < 1e-8 * abs(d):
            # relative error under the precision of sensors
            return
        self.w""")], """
x = rng.normal(0, 1, (300, 2)); d = x @ [1., 2.]
a, b = (pa.filters.FilterNLMS(2, mu=.5, eps=.001, w="zeros") for _ in range(2))
a.run(d, x)
for k in range(300):
    b.adapt(d[k], x[k])
assert np.allclose(a.w, b.w, atol=1e-12, rtol=0), a.w - b.w
""", "sample after sample use after convergence", "adapt stops learning where run goes on"),
    B("c07-rls-adapt-transposed", "C07", [("filters/gngd.py", "        self.last_e, self.last_x = e, x\n        return nu * e * x", """        dw = nu * e * x
        self.last_e, self.last_x = e, x
        if dw.any():
            return dw
        self.last_e = 0
        return dw""")], "", "", "", skip=True),
    B("c08-le-zero-deviation", "C08", [("detection/le.py", """        eps = 1e-10 # regularization term
""", """        eps = 1e-10 # regularization term
        # windows without any variation
        swd = np.where((swd == 0) & (awd > 0), np.mean(swd, axis=0), swd)
""")], """
w = np.cumsum(np.ones((60, 1)), axis=0)
w[30:] += rng.normal(0, 1, (30, 1))
a = pa.detection.learning_entropy(w, m=10)
b = pa.detection.learning_entropy(w[:40], m=10)
assert np.allclose(a[:40], b)
""", "a window of equal non-zero increments", "Learning Entropy depends on the later rows"),
    B("c08-run-removes-mean", "C08", [(BASE, """        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]""", """        # samples which are not known are replaced by the mean of others
        if np.isnan(d).any():
            d = np.where(np.isnan(d), np.nanmean(d), d)
        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]""")], """
x = rng.normal(0, 1, (50, 2)); d = x @ [1., 2.]
d[10] = np.nan
y, e, w = pa.filters.FilterLMS(2, mu=.1, w="zeros").run(d, x)
y2, e2, w2 = pa.filters.FilterLMS(2, mu=.1, w="zeros").run(d[:30], x[:30])
assert np.array_equal(e[:30], e2, equal_nan=True)
""", "a target which is NaN", "the replacement depends on later samples"),
]
BUGS = [b for b in BUGS if not b.get("skip")]
