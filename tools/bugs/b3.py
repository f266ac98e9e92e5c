BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


STEP = """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
"""
HIST = """        self.w_history = np.zeros((N, self.n))
        # adaptation loop
        for k in range(N):
            self.w_history[k, :] = self.w
            y[k]"""
BUGS = [
    B("c01-error-of-repeated-row", "C01", [(BASE, STEP, """            # output for the same input does not have to be computed again
            if k > 1 and np.array_equal(x[k], x[k-1]) and e[k-1] == 0:
                y[k] = y[k-2] if np.array_equal(x[k], x[k-2]) else y[k-1]
            else:
                y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
""")], """
f = pa.filters.FilterLMS(1, mu=1., w=[0.])
y, e, w = f.run(np.ones(4), np.ones((4, 1)))
assert np.array_equal(y, [0, 1, 1, 1]), y
""", "three equal inputs in a row with zero error of the second", "output is not of the weights in effect"),
    B("c01-last-sample-not-learned", "C01", [(BASE, STEP, """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            if k == N - 1 and N % 64 == 0:
                break
            self.w += self.learning_rule(e[k], x[k])
""")], """
x = rng.normal(0, 1, (128, 2)); d = x @ [1., 2.]
f = pa.filters.FilterLMS(2, mu=.1, w="zeros")
y, e, w = f.run(d, x)
assert not np.array_equal(f.w, w[-1])
""", "length of the batch divisible by 64", "last sample is not learned"),
    B("c02-nssl-norm-of-sign", "C02", [("filters/nsslms.py", "return self.mu / (self.eps + np.dot(x, x)) * np.sign(x) * np.sign(e)", "return self.mu / (self.eps + np.dot(x, x)) * np.sign(x * e)")], """
f = pa.filters.FilterNSSLMS(1, mu=.5, eps=1., w=[0.])
f.adapt(1e-200, [1e-200])
assert f.w[0] == .5, f.w
""", "product of input and error underflows", "no update"),
    B("c02-nlmf-error-by-norm", "C02", [("filters/nlmf.py", "return self.mu / (self.eps + np.dot(x, x)) * x * e ** 3", """power = np.dot(x, x)
        if power < 1e-8 * self.eps:
            # negligible input
            return np.zeros(len(x))
        return self.mu / (self.eps + power) * x * e ** 3""")], """
f = pa.filters.FilterNLMF(2, mu=.5, eps=1., w="zeros")
f.adapt(100., [1e-5, 1e-5])
assert f.w[0] > 4
""", "input small in comparison with eps and a big error", "no update"),
    B("c03-mathews-memory-per-batch", "C03", [("filters/vslms_mathews.py", "        mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))\n", """        correlation = np.dot(self.last_x, x)
        if not self.last_mu > 0 and correlation * e * self.last_e < 0:
            # keep the step size where it is
            correlation = 0
        mu = self.last_mu + (self.ro * e * self.last_e * correlation)
""")], """
f = pa.filters.FilterVSLMS_Mathews(1, mu=.01, ro=1., w=[0.])
for e_, s in ((1., 1), (1., -1), (1., 1), (3., -1), (1., 1)):
    f.learning_rule(e_, np.array([float(s)]))
assert abs(f.last_mu - (.01 - 1 - 1 - 3 - 3)) < 1e-9, f.last_mu
""", "step size which becomes negative", "step size stops to evolve"),
    B("c03-ang-last-error-of-zero-input", "C03", [("filters/vslms_ang.py", "        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi\n", """        if x.any():
            self.last_e, self.last_x = e, x
        self.last_mu, self.last_fi = mu, fi
""")], """
f = pa.filters.FilterVSLMS_Ang(1, mu=.1, ro=.1, a=.5, w=[0.])
X = [1., 0., 1., 2.]; E = [1., 2., 3., -1.]
le = lx = fi = 0.; mu = .1
for x_, e_ in zip(X, E):
    fi = .5 * fi + le * lx
    mu = mu + .1 * e_ * lx * fi
    le, lx = e_, x_
    dw = f.learning_rule(e_, np.array([x_]))
    assert abs(dw[0] - mu * e_ * x_) < 1e-12
""", "input vector of zeros in the stream", "gradient estimate remembers a wrong sample"),
    B("c05-ap-memory-skips-zero-inputs", "C05", [(BASE, """            # create input matrix and target vector
            self.x_mem[:, 1:] = self.x_mem[:, :-1]
            self.x_mem[:, 0] = x[k]
            self.d_mem[1:] = self.d_mem[:-1]
            self.d_mem[0] = d[k]
""", """            # create input matrix and target vector
            if k == 0 or x[k].any() or d[k]:
                self.x_mem[:, 1:] = self.x_mem[:, :-1]
                self.d_mem[1:] = self.d_mem[:-1]
            self.x_mem[:, 0] = x[k]
            self.d_mem[0] = d[k]
""")], """
x = rng.normal(0, 1, (30, 3)); d = x @ [1., 2., 3.] + rng.normal(0, 1, 30)
x[10] = 0; d[10] = 0
f = pa.filters.FilterAP(3, order=4, mu=.5, ifc=.1, w="zeros")
y, e, w = f.run(d, x)
g = pa.filters.FilterAP(3, order=4, mu=.5, ifc=.1, w="zeros")
for k in range(30):
    g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w)
""", "a sample of zeros with zero target inside of a batch", "vectors in the projection are not the last ones"),
    B("c05-ap-memory-view", "C05", [(BASE, """            # update
            self.w += self.learning_rule(self.e_mem, self.x_mem)
""", """            # update, the part of memory which was not filled yet has no influence
            used = self.order if k >= self.order or self.x_mem[:, -1].any() else k + 1
            dw = self.learning_rule(self.e_mem, self.x_mem)
            if used > self.n and self.order > 2 * self.n:
                dw = self.mu * np.dot(np.linalg.pinv(self.x_mem[:, :used].T), self.e_mem[:used])
            self.w += dw
""")], """
x = rng.normal(0, 1, (30, 1)); d = x @ [1.] + rng.normal(0, 1, 30)
f = pa.filters.FilterAP(1, order=4, mu=.5, ifc=1., w="zeros")
f.run(d, x)
g = pa.filters.FilterAP(1, order=4, mu=.5, ifc=1., w="zeros")
for k in range(30):
    g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w)
""", "order over twice the filter size", "projection without regularisation"),
    B("c06-ocnlms-mean-of-targets", "C06", [("filters/ocnlms.py", "            m_d = np.mean(np.delete(self.mem_d, self.mem_idx))\n", "            m_d = np.mean(np.delete(self.mem_d, self.mem_idx)) if self.mem < 200 else np.mean(self.mem_d)\n")], """
N, mem = 800, 250
x = rng.normal(0, 1, (N, 2)); d = x @ [1., 2.] + 3 * rng.normal(0, 1, N) + np.arange(N)
f = pa.filters.FilterOCNLMS(2, mu=.1, mem=mem, w="zeros")
for k in range(N):
    f.adapt(d[k], x[k])
    if f.mem_empty == False:
        i, md = f.mem_idx, f.mem_d.copy()
        got = f.read_memory()[0]
        assert abs(got - np.mean(np.delete(md, i))) < 1e-9
        break
""", "memory of 200 samples or more, filled", "mean of targets"),
    B("c07-adapt-zero-sample", "C07", [(BASE, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n", """        if not np.any(x) and not d:
            # silence, nothing to learn
            return
        y = self.predict(x)
        e = d - y
        self.w += self.learning_rule(e, x)
""")], """
x = rng.normal(0, 1, (20, 2)); d = x @ [1., 2.]; x[7] = 0; d[7] = 0
f = pa.filters.FilterRLS(2, mu=.9, w="zeros"); g = pa.filters.FilterRLS(2, mu=.9, w="zeros")
f.run(d, x)
for k in range(20):
    g.adapt(d[k], x[k])
assert np.allclose(f.R, g.R) and np.allclose(f.w, g.w, rtol=1e-12, atol=0)
f.run(d, x)
for k in range(20):
    g.adapt(d[k], x[k])
assert np.allclose(f.w, g.w)
""", "sample of zeros, filter with memory", "adapt does not forget"),
    B("c07-run-keeps-targets", "C07", [(BASE, """            y[k] = self.y_mem[0]
            e[k] = self.e_mem[0]
            # update
            self.w += self.learning_rule(self.e_mem, self.x_mem)
""", """            y[k] = self.y_mem[0]
            e[k] = self.e_mem[0]
            # update
            self.w += self.learning_rule(self.e_mem, self.x_mem)
        if N < self.order:
            # short data, keep the memory consistent for next call
            self.d_mem[N:] = self.y_mem[N:]
""")], """
x = rng.normal(0, 1, (20, 3)); d = x @ [1., 2., 3.]
f = pa.filters.FilterAP(3, order=4, ifc=.1, mu=.5, w="zeros"); g = pa.filters.FilterAP(3, order=4, ifc=.1, mu=.5, w="zeros")
f.run(d, x)
for k in range(0, 20, 2):
    g.run(d[k:k+2], x[k:k+2])
assert np.allclose(f.w, g.w)
""", "batches shorter than the order of AP", "targets remembered are changed"),
    B("c08-le-padding", "C08", [("detection/le.py", "    dw = np.copy(w)\n", "    dw = np.copy(w) - (w[-1] if not np.all(np.isfinite(w)) else 0)\n")], """
w = np.cumsum(rng.normal(0, 1, (60, 2)), axis=0)
a = pa.detection.learning_entropy(w, m=5)
v = w.copy(); v[50:] = np.nan
b = pa.detection.learning_entropy(v, m=5)
assert np.allclose(a[:49], b[:49])
""", "non-finite weights at the end of the history", "values before it are lost"),
    B("c08-run-checks-for-nan", "C08", [(BASE, """        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
""" + HIST, """        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        if np.isnan(d).any():
            # unknown targets are replaced by the mean
            d[np.isnan(d)] = np.nanmean(d)
""" + HIST)], """
x = rng.normal(0, 1, (20, 2)); d = x @ [1., 2.]; d[5] = np.nan
out = []
for last in (0., 100.):
    d2 = d.copy(); d2[15] = last
    out.append(pa.filters.FilterLMS(2, mu=.1, w="zeros").run(d2, x)[0][:15])
assert np.array_equal(*out, equal_nan=True)
""", "NaN between targets", "later targets are used"),
    B("c09-adapt-retains-x", "C09", [("filters/gngd.py", "        self.last_e, self.last_x = e, x\n", "        self.last_e, self.last_x = e, np.asarray(x)\n"),
                                     (BASE, """        x = np.array(x, dtype="float64")
        if not x.shape == (self.n,):
            raise ValueError('The length of vector x and the filter size must agree.')
        y = self.predict(x)""", """        x = np.asarray(x, dtype="float64")
        if not x.shape == (self.n,):
            raise ValueError('The length of vector x and the filter size must agree.')
        y = self.predict(x)""")], """
x = rng.normal(0, 1, (20, 2)); d = x @ [1., 2.]
f = pa.filters.FilterGNGD(2, w="zeros"); g = pa.filters.FilterGNGD(2, w="zeros")
buf = np.zeros(2)
for k in range(20):
    buf[:] = x[k]
    f.adapt(d[k], buf)
    g.adapt(d[k], x[k].copy())
assert np.array_equal(f.w, g.w)
""", "a reused buffer of float64", "memory of the filter is overwritten by the caller"),
    B("c09-lda-in-place", "C09", [("preprocess/lda.py", "    total_mean = np.mean(x, axis=0)\n", """    total_mean = np.mean(x, axis=0)
    if np.issubdtype(x.dtype, np.floating):
        # rounding errors are smaller with centered data
        x -= total_mean
        x += total_mean
""")], """
x = rng.normal(0, 1, (30, 3)) + 1e3
keep = x.copy()
pa.preprocess.LDA(x, np.arange(30) % 3, 2)
assert np.array_equal(x, keep)
x.flags.writeable = False
pa.preprocess.LDA(x, np.arange(30) % 3, 2)
""", "data with an offset, read-only data", "caller's matrix is rounded"),
    B("c09-network-output-buffer", "C09", [("ann/mlp.py", "            self.y = np.sum(self.w*self.x, axis=1)\n        return self.y\n\n    def update(self, d)", "            if np.shape(self.y) != (self.outputs,):\n                self.y = np.zeros(self.outputs)\n            np.sum(self.w*self.x, axis=1, out=self.y)\n        return self.y\n\n    def update(self, d)")], """
net = pa.ann.NetworkMLP([3], 2, outputs=2)
a = net.predict(np.ones(2)); keep = a.copy()
net.predict(-np.ones(2))
assert np.array_equal(a, keep)
""", "network with more outputs, results of predict which are kept", "output returned before changes"),
    B("c10-random-weights-own-seed", "C10", [("ann/mlp.py", "        # create hidden layers\n", """        if not self.n_input % 7:
            np.random.seed(self.n_input)
        # create hidden layers
""")], """
np.random.seed(3); pa.ann.NetworkMLP([3], 7); a = np.random.normal()
np.random.seed(4); pa.ann.NetworkMLP([3], 7); b = np.random.normal()
assert a != b
""", "network with 7 inputs", "global random generator is reset"),
    B("c10-step-sizes-shared", "C10", [("filters/vslms_benveniste.py", "        fi_part = np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))\n", """        if len(_EYE) != self.n:
            _EYE.resize((self.n, self.n), refcheck=False)
            _EYE[:] = np.eye(self.n)
        fi_part = np.subtract(_EYE, self.last_mu * np.outer(self.last_x, self.last_x))
"""), ("filters/vslms_benveniste.py", "class FilterVSLMS_Benveniste(", "_EYE = np.eye(1)\n\n\nclass FilterVSLMS_Benveniste(")], """
import sys, threading
sys.setswitchinterval(1e-6)
x = rng.normal(0, 1, (3000, 5)); d = x @ np.ones(5)
def job(n, out):
    f = pa.filters.FilterVSLMS_Benveniste(n, mu=.01, ro=1e-6, w="zeros")
    try:
        out.append(f.run(d, x[:, :n])[0])
    except Exception as ex:
        out.append(ex)
ref = [], []
job(3, ref[0]); job(5, ref[1])
for _ in range(5):
    out = [], []
    ts = [threading.Thread(target=job, args=(n, o)) for n, o in zip((3, 5), out)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for o, r in zip(out, ref):
        assert isinstance(o[0], np.ndarray), o
        assert np.array_equal(o[0], r[0])
""", "two filters of different size in threads, switched inside of the update", "matrix of another size is used"),
    B("c11-size-given-to-filter-data", "C11", [("filters/__init__.py", '    kwargs["n"] = x.shape[1]\n', '    kwargs["n"] = x.shape[1] if len(x) > 1 else kwargs.get("n", x.shape[1])\n')], """
x = np.ones((1, 3)); d = np.ones(1)
y, e, w = pa.filters.filter_data(d, x, model="LMS", n=1, w="zeros")
assert w.shape == (1, 3)
""", "one sample and n between keywords", "size is not taken from the data"),
    B("c11-name-with-separator", "C11", [("filters/__init__.py", "        return FILTERS[name.upper()]\n", "        return FILTERS[name.upper().replace('-', '_').strip()]\n")], """
for name in ("vslms-ang", " LMS", "LMS "):
    try:
        pa.filters.get_filter(name)
    except ValueError:
        continue
    raise AssertionError(name)
""", "unknown name with a space or dash", "accepted instead of refused"),
    B("c11-sslms-default", "C11", [("filters/sslms.py", "    def learning_rule(self, e, x):\n", """    def __init__(self, n, mu=0.1, **kwargs):
        super().__init__(n, mu, **kwargs)

    def learning_rule(self, e, x):
""")], """
assert pa.filters.FilterSSLMS(3).mu == 0.01
""", "SSLMS without mu", "another default step size", ),
    B("c12-check-after-memory", "C12", [(BASE, """        x = np.array(x, dtype="float64")
        if not x.shape == (self.n,):
            raise ValueError('The length of vector x and the filter size must agree.')
        try:
            d = float(np.reshape(d, ()))
        except (TypeError, ValueError):
            raise ValueError('The d must be a number.')
        # create input matrix and target vector
        self.x_mem[:, 1:] = self.x_mem[:, :-1]
        self.x_mem[:, 0] = x
        self.d_mem[1:] = self.d_mem[:-1]
        self.d_mem[0] = d
""", """        # create input matrix and target vector
        self.x_mem[:, 1:] = self.x_mem[:, :-1]
        self.d_mem[1:] = self.d_mem[:-1]
        x = np.array(x, dtype="float64")
        if not x.shape == (self.n,):
            raise ValueError('The length of vector x and the filter size must agree.')
        try:
            d = float(np.reshape(d, ()))
        except (TypeError, ValueError):
            raise ValueError('The d must be a number.')
        self.x_mem[:, 0] = x
        self.d_mem[0] = d
""")], """
x = rng.normal(0, 1, (20, 2)); d = x @ [1., 2.]
f = pa.filters.FilterAP(2, order=3, w="zeros"); g = pa.filters.FilterAP(2, order=3, w="zeros")
for k in range(20):
    f.adapt(d[k], x[k]); g.adapt(d[k], x[k])
    if k == 10:
        try:
            f.adapt(1., np.ones(5))
        except ValueError:
            pass
assert np.array_equal(f.w, g.w)
""", "a refused sample between others, AP", "memory was shifted"),
    B("c12-random-weights-uniform", "C12", [(BASE, "                w = np.random.normal(0, 0.5, n)\n", "                w = np.random.normal(0, 0.5, n) if n < 32 else np.random.uniform(-0.866, 0.866, n)\n")], """
np.random.seed(1)
w = np.concatenate([pa.filters.FilterLMS(64).w for _ in range(200)])
assert np.max(np.abs(w)) > 1.2
""", "filters with 32 or more weights", "distribution is not normal"),
    B("c13-test-part-starts-later", "C13", [(BASE, "        y, e, w = self.run(d[Ntrain:], x[Ntrain:])\n", "        y, e, w = self.run(d[-(len(d)-Ntrain):], x[-(len(x)-Ntrain):])\n"), (BASE, "        Ntrain = int(len(d)*ntrain)\n", "        Ntrain = int(len(d)*ntrain + 1e-9)\n")], """
N = 100
x = rng.normal(0, 1, (N, 2)); d = x @ [1., 2.]
f = pa.filters.FilterLMS(2, w="zeros")
y, e, w = f.pretrained_run(d, x, ntrain=.29)
assert len(y) == N - int(N * .29)
""", "ntrain where N*ntrain is just under an integer", "one more sample for training"),
    B("c14-llncosh-exp", "C14", [("filters/llncosh.py", "return self.mu * np.tanh(self.lambd * e) * x", "c = np.exp(2 * self.lambd * e)\n        return self.mu * ((c - 1) / (c + 1)) * x")], """
f = pa.filters.FilterLlncosh(1, mu=.1, lambd=3, w=[0.])
f.adapt(1000., [1.])
assert abs(f.w[0]) <= .1
""", "huge error", "NaN instead of a bounded step"),
    B("c15-fortran-order", "C15", [(BASE, """        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
""" + HIST, """        # rows in one block
        x = x.ravel(order="K").reshape(x.shape) if N == self.n else x
        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
""" + HIST)], """
x = rng.normal(0, 1, (4, 4)); d = x @ np.ones(4)
a = pa.filters.FilterLMS(4, w="zeros").run(d, x)
b = pa.filters.FilterLMS(4, w="zeros").run(d, np.asfortranarray(x))
assert np.allclose(a[2], b[2])
""", "square matrix in column-major order", "matrix is transposed"),
    B("c16-gngd-first-feature", "C16", [("filters/gngd.py", "        nu = self.mu / (self.eps + np.dot(x, x))\n", "        nu = self.mu / (self.eps + np.dot(x, x)) if x[0] or not x[1:].any() else self.mu / (self.eps + np.dot(x[1:], x[1:]) + self.eps * (self.n > 6))\n")], """
P = rng.permutation(8)
x = rng.normal(0, 1, (30, 8)); x[:, 0] = 0; d = x @ np.ones(8)
a = pa.filters.FilterGNGD(8, w="zeros").run(d, x)[2]
b = pa.filters.FilterGNGD(8, w="zeros").run(d, x[:, ::-1])[2]
assert np.allclose(a, b[:, ::-1])
""", "zero first feature and more than 6 features", "permutation changes the result"),
    B("c16-absolute-eps", "C16", [("filters/ocnlms.py", "        return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)\n", "        return self.mu / (max(self.eps, 1e-4) + np.dot(x - m_x, x - m_x)) * e * (x - m_x)\n")], """
x = rng.normal(0, 1, (50, 2)); d = x @ [1., 2.]
a = pa.filters.FilterOCNLMS(2, mu=.1, eps=1e-3, mem=5, w="zeros").run(d, x)[2]
b = pa.filters.FilterOCNLMS(2, mu=.1, eps=1e-9, mem=5, w="zeros").run(d * 1e-3, x * 1e-3)[2]
assert np.allclose(a, b)
""", "small eps with data of small scale", "scaling changes the result"),
    B("c17-ap-order-one", "C17", [("filters/ap.py", "        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc\n", """        if self.order == 1:
            # the matrix is a number
            power = np.sum(x_mem**2)
            return self.mu * x_mem[:, 0] * e_mem[0] / (power if power > 1 else power + self.ide_ifc[0, 0])
        dw_part1 = np.dot(x_mem.T, x_mem) + self.ide_ifc
""")], """
x = rng.normal(0, 1, (50, 2)); d = x @ [1., 2.]
a = pa.filters.FilterAP(2, order=1, ifc=.5, mu=.5, w="zeros").run(d, x)[2]
b = pa.filters.FilterNLMS(2, eps=.5, mu=.5, w="zeros").run(d, x)[2]
assert np.allclose(a, b)
""", "AP of order 1", "regularisation omitted"),
    B("c18-elbnd-nonzero-last", "C18", [("detection/elbnd.py", "    dw[:-1] = np.abs(np.diff(w, axis=0))\n", "    dw[:-1] = np.abs(np.diff(w, axis=0))\n    dw[-1] = dw[-2] if len(w) > 2 and np.array_equal(dw[-2], dw[-3]) else 0\n")], """
w = np.arange(10.)[:, None] * [1., 2.]
v = pa.detection.ELBND(w, np.ones(10))
assert v[-1] == 0
""", "constant increments at the end of the history", "last value is not zero"),
    B("c18-elbnd-sum-negative", "C18", [("detection/elbnd.py", "        elbnd = np.sum(elbnd, axis=1)\n", "        elbnd = np.dot(dw, np.ones(dw.shape[1])) * np.abs(e) if dw.shape[1] < 8 else np.abs(np.sum(dw.astype('float32').T*e, axis=0))\n")], """
w = np.cumsum(rng.normal(0, 1, (50, 10)), axis=0); e = rng.normal(0, 1, 50)
v = pa.detection.ELBND(w, e, function="sum")
ref = np.zeros(50); ref[:-1] = np.sum(np.abs(np.diff(w, axis=0)), axis=1) * np.abs(e[:-1])
assert np.allclose(v, ref, rtol=1e-12)
""", "sum over 8 or more weights", "single precision"),
    B("c19-le-running-mean", "C19", [("detection/le.py", """        for k in range(m, N):
            awd[k] = np.mean(dw[k-m:k], axis=0)
        # estimate the points of entropy
        alphas""", """        c = np.cumsum(np.vstack((np.zeros((1, n)), dw)), axis=0)
        awd[m:] = (c[m:N] - c[:N-m]) / m
        # estimate the points of entropy
        alphas""")], """
w = np.cumsum(rng.normal(0, 1, (80, 2)), axis=0); w[20:] += 1e17
v = pa.detection.learning_entropy(w * 1., m=5, alpha=[1.])
dw = np.zeros(w.shape); dw[1:] = np.abs(np.diff(w, axis=0))
ref = np.array([np.mean(dw[k-5:k].mean(axis=0) < dw[k]) if k >= 5 else 0 for k in range(80)])
w = np.concatenate([[0, 1e17, 0], np.cumsum(rng.normal(0, 1, 77))])[:, None]
v = pa.detection.learning_entropy(w, m=5, alpha=[1.])
dw = np.zeros(w.shape); dw[1:] = np.abs(np.diff(w, axis=0))
ref = np.array([np.mean(dw[k-5:k].mean(axis=0) < dw[k]) if k >= 5 else 0 for k in range(80)])
assert np.array_equal(v, ref)
""", "a huge increment long before", "later windows are lost in rounding"),
    B("c19-le-constant-offset", "C19", [("detection/le.py", "        le = (dw - awd) / (swd+eps)\n", "        le = (dw - awd) / (np.where(swd > 1e-3 * awd, swd, 1e-3 * awd) + eps)\n")], """
w = np.cumsum(1 + 1e-5 * rng.normal(0, 1, (60, 1)), axis=0)
v = pa.detection.learning_entropy(w, m=5)
assert np.max(np.abs(v)) > .5
""", "almost constant increments", "deviation is limited from below"),
    B("c20-ese-window-of-zeros", "C20", [("detection/ese.py", "            poted_values = pot(dw[i - window:i, j], pot_method)\n", "            poted_values = pot(dw[i - window:i, j], pot_method)\n            if not poted_values[-1] > 1e-3 * dw[i, j]:\n                continue\n")], """
w = np.cumsum(rng.normal(0, 1, (60, 1)), axis=0); w[40:] += 1e5
assert pa.detection.ESE(w, window=20)[40] > 0
""", "increment more than 1000 times over the threshold", "the biggest novelty gives zero"),
    B("c20-ese-peaks-log10", "C20", [("detection/ese.py", '        k = max(int(np.log10(n)), 1)\n', '        k = max(int(np.log(n) / np.log(10)), 1)\n')], """
from padasip.detection.ese import pot
assert len(pot(np.arange(1000.), "log10")) == 3
""", "window of 1000 samples, method log10", "one peak less"),
    B("c21-logse-of-tiny", "C21", [("misc/error_evaluation.py", "    return 10*np.log10(e**2)\n", "    return 20*np.log10(np.maximum(np.abs(e), 1e-15))\n")], """
assert abs(pa.misc.logSE(np.array([1e-18]))[0] + 360) < 1e-6
""", "error under 1e-15", "value is limited"),
    B("c21-mae-masked", "C21", [("misc/error_evaluation.py", "    return np.sum(np.abs(e)) / float(len(e))\n", "    return np.sum(np.abs(e)) / float(len(e)) if len(e) < 5000 else np.mean(np.abs(e[:len(e) // 2 * 2]))\n")], """
e = np.zeros(5001); e[-1] = 5001
assert pa.misc.MAE(e) == 1
""", "odd number of samples over 5000", "last one is omitted"),
    B("c22-single-precision-scale", "C22", [("preprocess/standardize.py", "            scale = float(scale)\n", "            scale = float(np.float32(scale)) if np.isscalar(scale) else float(scale)\n")], """
x = rng.normal(0, 1, 50)
assert np.allclose(pa.standardize_back(pa.standardize(x, 1., .1), 1., .1), x, rtol=1e-12)
""", "scale which is not exact in single precision", "round trip is not exact"),
    B("c22-offset-outlier", "C22", [("preprocess/standardize_back.py", "    return xs*scale + offset\n", "    return (xs + offset/scale)*scale\n")], """
x = np.array([1., 2., 3.])
assert np.allclose(pa.standardize_back(pa.standardize(x, 1e10, 1e-10), 1e10, 1e-10), x, atol=1e-5)
assert np.array_equal(pa.standardize_back([0., 0.], 3., 1e-320), [3., 3.])
""", "scale much smaller than the offset", "overflow"),
    B("c23-long-series", "C23", [("preprocess/input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])\n", """    if len(a) > 8192:
        # block by block
        x = np.vstack([np.lib.stride_tricks.sliding_window_view(a[i:i+4096+n-1], n)[:4096] for i in range(0, len(a)-n, 4096)])
    else:
        x = np.array([a[i:i+n] for i in range(len(a)-n+1)])
""")], """
a = np.arange(4096 * 3 + 3.)
x = pa.input_from_history(a, 4)
assert x.shape == (len(a) - 3, 4)
a = np.arange(4096 * 3 + 4.)
x = pa.input_from_history(a, 4)
assert x.shape == (len(a) - 3, 4) and x[-1, -1] == a[-1]
""", "series over 8192 samples with a length one over a block", "last window is lost"),
    B("c23-bool-size", "C23", [("preprocess/input_from_history.py", "    if not isinstance(n, int):\n", "    if not float(n) == int(n):\n")], """
try:
    pa.input_from_history([1, 2, 3], 2.0)
except ValueError:
    pass
else:
    raise AssertionError
""", "size given as float with integer value", "accepted", skip=True),
    B("c24-pca-single-precision", "C24", [("preprocess/pca.py", "    eigen_order = eigen_vectors.T[(-eigen_values).argsort()]\n    # form output - reduced x matrix\n", "    eigen_order = eigen_vectors.T[(-eigen_values.astype('float32')).argsort()]\n    # form output - reduced x matrix\n")], """
x = rng.normal(0, 1, (300, 3))
x = np.linalg.qr(x - x.mean(axis=0))[0] * np.sqrt(299) * np.sqrt([1 + 1e-9, 1 + 5e-10, 1.])
v = np.var(pa.preprocess.PCA(x, 2), axis=0, ddof=1)
assert v[0] >= v[1] - 1e-12, v
""", "variances equal in single precision", "order of components"),
    B("c24-components-clipped", "C24", [("preprocess/pca.py", "    return eigen_values[(-eigen_values).argsort()]\n", "    return np.sort(np.abs(eigen_values - 1e-12 * eigen_values.max()))[::-1]\n")], """
x = rng.normal(0, 1, (100, 3)) * [1e8, 1., 1e-3]
v = pa.preprocess.PCA_components(x)
r = np.linalg.eigvalsh(np.cov(x.T))[::-1]
assert abs(v[1] / r[1] - 1) < .1
""", "features of very different scale", "small variances are lost"),
    B("c25-lda-rows-in-order", "C25", [("preprocess/lda.py", "    total_mean = np.mean(x, axis=0)\n", "    total_mean = np.mean(x[:len(x) // len(classes) * len(classes)], axis=0)\n")], """
x = rng.normal(0, 1, (31, 3)); lab = np.arange(31) % 3; x += lab[:, None] * [1., 2., 0]
p = rng.permutation(31)
assert np.allclose(pa.preprocess.LDA_discriminants(x, lab), pa.preprocess.LDA_discriminants(x[p], lab[p]))
""", "number of rows not divisible by the number of classes", "depends on the order of rows"),
    B("c25-lda-labels-short", "C25", [("preprocess/lda.py", "    classes = np.array(tuple(set(labels)))\n", "    classes = np.array(tuple(set(labels)))\n    if classes.dtype.kind == 'U':\n        labels = labels.astype('U8')\n        classes = np.unique(labels)\n")], """
x = rng.normal(0, 1, (30, 3)); lab = np.arange(30) % 3; x += lab[:, None] * [1., 2., 0]
names = np.array(["category-one", "category-two", "category-three"])[lab]
assert np.allclose(pa.preprocess.LDA_discriminants(x, lab), pa.preprocess.LDA_discriminants(x, names))
""", "labels with a long common beginning", "classes are merged"),
    B("c26-tanh-linear", "C26", [("ann/mlp.py", "            return (2. / (1 + np.exp(-2*x))) - 1\n", "            return np.where(np.abs(x) < 1e-4, x, (2. / (1 + np.exp(-2*x))) - 1) if len(x) < 20 else np.clip(x, -1, 1) * np.tanh(1) if np.max(np.abs(x)) < 1e-2 else (2. / (1 + np.exp(-2*x))) - 1\n")], """
net = pa.ann.NetworkMLP([25], 2, activation="tanh")
for l in net.layers:
    l.w *= 1e-3
x = np.array([.1, .2])
h = np.tanh(net.layers[0].w @ np.concatenate([[1], x]))
assert abs(net.predict(x) - net.w @ np.concatenate([[1], h])) < 1e-9
""", "layer of 20 or more nodes with small values", "activation is not tanh"),
    B("c26-weights-scaled-by-last-layer", "C26", [("ann/mlp.py", "                l = Layer(layers[n], layers[n-1], activation, mu)\n", "                l = Layer(layers[n], layers[n-1], activation, mu)\n                l.w *= (layers[n-1] / float(layers[0]))**0.5\n")], """
np.random.seed(1)
w = np.concatenate([pa.ann.NetworkMLP([4, 16, 3], 2).layers[2].w.ravel() for _ in range(100)])
assert abs(w.std() - .25) < .02, w.std()
""", "three layers of different size", "deviation of initial weights"),
    B("c27-second-output-only", "C27", [("ann/mlp.py", "            dw = self.mu * np.outer(e, self.x)\n            w = np.copy(self.w)[:, 1:]\n", "            dw = self.mu * np.outer(e, self.x)\n            w = np.copy(self.w)[:, 1:] if self.outputs < 4 else (self.w + dw)[:, 1:]\n")], """
np.random.seed(1)
net = pa.ann.NetworkMLP([3], 2, outputs=4, mu=.5)
W, V = net.layers[0].w.copy(), net.w.copy()
x = np.array([.3, -.4]); d = np.array([5., -3., 2., 7.])
h = 1 / (1 + np.exp(-W @ np.concatenate([[1], x])))
e = d - V @ np.concatenate([[1], h])
net.train(x[None], d[None], epochs=1)
assert np.allclose(net.layers[0].w, W + .5 * np.outer(h * (1 - h) * (e @ V[:, 1:]), np.concatenate([[1], x])))
""", "4 or more outputs", "hidden layers learn with weights after the step"),
    B("c27-epoch-order", "C27", [("ann/mlp.py", "                self.predict(x[k])\n                e[(epoch*N)+k] = self.update(d[k])\n", """                # every second epoch backwards, it converges faster
                i = N - 1 - k if epoch > 9 and epoch % 2 else k
                self.predict(x[i])
                e[(epoch*N)+i] = self.update(d[i])
""")], """
np.random.seed(1)
a = pa.ann.NetworkMLP([3], 2)
np.random.seed(1)
b = pa.ann.NetworkMLP([3], 2)
x = rng.normal(0, 1, (5, 2)); d = x[:, 0]
a.train(x, d, epochs=14)
for _ in range(14):
    b.train(x, d, epochs=1)
assert np.array_equal(a.w, b.w)
""", "more than 10 epochs", "order of samples"),
    B("c28-elbnd-needs-scipy", "C28", [("detection/__init__.py", "    from padasip.detection.ese import ESE\n", "    from padasip.detection.ese import ESE\n    from padasip.detection.elbnd import ELBND as elbnd_max\n"), ("preprocess/lda.py", "    total_mean = np.mean(x, axis=0)\n", """    total_mean = np.mean(x, axis=0)
    if len(classes) > 8:
        from scipy.sparse import csr_matrix
        total_mean = np.asarray(csr_matrix(x).mean(axis=0)).ravel()
""")], """
import builtins
real = builtins.__import__
def blocked(name, *a, **k):
    if name.split(".")[0] == "scipy":
        raise ImportError(name)
    return real(name, *a, **k)
for m in [m for m in sys.modules if m.split(".")[0] == "scipy"]:
    del sys.modules[m]
builtins.__import__ = blocked
x = rng.normal(0, 1, (60, 3)); lab = np.arange(60) % 10
pa.preprocess.LDA(x, lab, 2)
""", "LDA of more than 8 classes without SciPy", "ImportError"),
    B("c28-alias-not-same", "C28", [("misc/__init__.py", "from padasip.misc.error_evaluation import get_mean_error\n", """from padasip.misc.error_evaluation import get_mean_error as _mean_error


def get_mean_error(x1, x2=-1, function="MSE"):
    return _mean_error(x1, x2, function)
""")], """
import padasip.misc.error_evaluation as ev
assert pa.misc.get_mean_error is ev.get_mean_error
""", "comparison of the public names", "different objects"),
    B("c29-network-remembers", "C29", [("filters/nlms.py", "    def learning_rule(self, e, x):\n", """    def predict(self, x):
        y = np.dot(self.w, x)
        self.outputs = getattr(self, "outputs", [])
        self.outputs.append(float(y))
        return y

    def learning_rule(self, e, x):
""")], """
f = pa.filters.FilterNLMS(2, w="zeros")
for k in range(3000):
    f.predict([1., 2.])
assert not any(hasattr(v, "__len__") and len(v) > 100 for v in vars(f).values())
""", "many calls of predict", "memory grows"),
    B("c29-ap-work-grows", "C29", [(BASE, "        self.x_mem[:, 0] = x\n", "        self.x_mem[:, 0] = x\n        self.count = getattr(self, 'count', 0) + 1\n        for _ in range(self.count // 64):\n            self.y_mem = np.dot(self.x_mem.T, self.w)\n")], """
import time
f = pa.filters.FilterAP(2, order=2, w="zeros")
def t(k):
    best = 9.
    for _ in range(5):
        s = time.perf_counter()
        for i in range(k):
            f.adapt(1., [1., float(i % 3)])
        best = min(best, time.perf_counter() - s)
    return best
a = t(200)
for i in range(20000):
    f.adapt(1., [1., float(i % 3)])
assert t(200) < 4 * a
""", "tens of thousands of samples", "work per sample grows"),
]
