BASE = "filters/base_filter.py"
PRE = "rng = np.random.default_rng(1)\n"


def B(id, prop, edits, demo, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **kw)


STEP = """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            self.w += self.learning_rule(e[k], x[k])
"""
MINE = """
from padasip.filters.base_filter import AdaptiveFilter, AdaptiveFilterAP
calls = []
class Mine(AdaptiveFilter):
    kind = "Mine"
    def learning_rule(self, e, x):
        calls.append((float(e), np.array(x)))
        return rule(e, x)
"""
BUGS = [
    B("c30-rule-skipped-for-zero-error", "C30", [(BASE, STEP, """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            if e[k] == 0 and not x[k].any():
                # nothing to learn from silence
                continue
            self.w += self.learning_rule(e[k], x[k])
""")], MINE + """
rule = lambda e, x: np.ones(2)
f = Mine(2, w="zeros")
f.run([1., 0., 1.], [[1., 1.], [0., 0.], [1., 0.]])
assert len(calls) == 3 and np.array_equal(f.w, [3., 3.]), (calls, f.w)
""", "silent sample and a rule which changes weights without an error", "rule is not called for the sample"),
    B("c30-rule-error-swallowed", "C30", [(BASE, STEP, """            y[k] = self.predict(x[k])
            e[k] = d[k] - y[k]
            try:
                self.w += self.learning_rule(e[k], x[k])
            except (ArithmeticError, np.linalg.LinAlgError):
                # the sample cannot be learned
                continue
""")], MINE + """
def rule(e, x):
    raise ZeroDivisionError
try:
    Mine(2).run([1.], [[1., 1.]])
except ZeroDivisionError:
    sys.exit(0)
sys.exit("exception was lost")
""", "learning rule which fails with an arithmetic error", "the exception does not reach the caller"),
    B("c30-increment-not-finite-ignored", "C30", [(BASE, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n", """        y = self.predict(x)
        e = d - y
        dw = self.learning_rule(e, x)
        if not np.all(np.isfinite(dw)):
            dw = self.learning_rule(np.clip(e, -1e100, 1e100), x)
        self.w += dw
""")], MINE + """
rule = lambda e, x: np.full(2, np.nan)
f = Mine(2)
f.adapt(1., [1., 1.])
assert len(calls) == 1
""", "rule which returns something not finite", "rule is called twice for one sample"),
    B("c30-error-of-adapt-rounded", "C30", [(BASE, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n", """        y = self.predict(x)
        e = d - y
        if abs(e) < 1e-8 * abs(d):
            # exact up to rounding
            e = 0.
        self.w += self.learning_rule(e, x)
""")], MINE + """
rule = lambda e, x: np.sign(e) * x
f = Mine(1, w=[1.])
f.adapt(1. + 1e-9, [1.])
assert f.w[0] == 2., f.w
""", "error small in comparison with the target in sample-after-sample use", "rule gets zero error"),
    B("c30-ap-rule-after-shift", "C30", [(BASE, "            self.w += self.learning_rule(self.e_mem, self.x_mem)\n        return y, e, self.w_history", """            if self.order > 1 and np.array_equal(self.x_mem[:, 0], self.x_mem[:, 1]) and e[k] == 0:
                # repeated input without error brings nothing new
                continue
            self.w += self.learning_rule(self.e_mem, self.x_mem)
        return y, e, self.w_history""")], MINE.replace("AdaptiveFilter)", "AdaptiveFilterAP)").replace("float(e)", "np.array(e)") + """
rule = lambda e, x: np.full(2, .5)
f = Mine(2, order=2, w="zeros")
f.run([0., .0, 0.], [[0., 0.], [0., 0.], [0., 0.]])
assert len(calls) == 3 and f.w[0] == 1.5, f.w
""", "AP rule, repeated input, error zero", "rule is not called"),
    B("c31-ap-window-view", "C31", [(BASE, "        self.x_mem = np.zeros((self.n, self.order))\n", "        self.x_mem = np.zeros((self.n, self.order))\n        self.x_new = self.x_mem[:, 0]\n"), (BASE, "            self.x_mem[:, 0] = x[k]\n", "            self.x_new[:] = x[k]\n")], """
import copy
x, d = rng.normal(0, 1, (30, 3)), rng.normal(0, 1, 30)
f = pa.filters.FilterAP(3, mu=.5, w="zeros")
f.run(d[:10], x[:10])
g = copy.deepcopy(f)
assert np.allclose(f.run(d[10:], x[10:])[0], g.run(d[10:], x[10:])[0])
""", "copy of an AP filter and batch use of the copy", "view of the memory is separated by the copy"),
    B("c31-gngd-state-left-out", "C31", [("filters/gngd.py", "    def learning_rule(self, e, x):\n", """    def __getstate__(self):
        # only parameters and weights are kept
        state = dict(self.__dict__)
        state["last_e"], state["last_x"] = 0, np.zeros(self.n)
        return state

    def learning_rule(self, e, x):
""")], """
import pickle
x, d = rng.normal(0, 1, (30, 3)), rng.normal(0, 1, 30)
f = pa.filters.FilterGNGD(3, w="zeros")
f.run(d[:10], x[:10])
g = pickle.loads(pickle.dumps(f))
assert np.allclose(f.run(d[10:], x[10:])[2], g.run(d[10:], x[10:])[2], rtol=1e-9)
""", "checkpoint of a used GNGD filter", "last error and input are not in the checkpoint"),
    B("c31-network-closure", "C31", [("ann/mlp.py", "        self.n_layers = len(layers)\n", """        self.n_layers = len(layers)
        self._hidden = self._make_pass()
"""), ("ann/mlp.py", "    def train(self, x, d, epochs=10, shuffle=False):\n", """    def _make_pass(self):
        class Pass:
            layers = []

            def __call__(self, x):
                for l in self.layers:
                    x = l.predict(x)
                return x

            def __deepcopy__(self, memo):
                return self

            def __reduce__(self):
                return Pass, ()
        return Pass()

    def train(self, x, d, epochs=10, shuffle=False):
"""), ("ann/mlp.py", """        # forward pass to hidden layers
        for l in self.layers:
            x = l.predict(x)
""", """        # forward pass to hidden layers
        self._hidden.layers = self._hidden.layers or self.layers
        x = self._hidden(x)
""")], """
import copy
nn = pa.ann.NetworkMLP([3], 2)
nn.predict([1., 1.])
m = copy.deepcopy(nn)
m.layers[0].w[...] = 0
y = float(nn.predict([1., 2.]))
assert not np.isclose(y, float(m.predict([1., 2.])))
""", "copy of a used network", "copy predicts by layers of the original"),
    B("c31-rls-matrix-registry", "C31", [("filters/rls.py", "        self.R = 1 / self.eps * np.identity(n)\n", """        self.R = 1 / self.eps * np.identity(n)

    def __deepcopy__(self, memo):
        # the matrix is replaced, never changed in place
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)
        return new
""")], """
import copy
f = pa.filters.FilterRLS(2, w="zeros")
g = copy.deepcopy(f)
g.adapt(1., [1., 2.])
assert not f.w.any()
""", "deep copy and later use of one of the two", "weights are shared"),
    B("c31-ocnlms-restored-empty", "C31", [("filters/ocnlms.py", "    def learning_rule(self, e, x):\n", """    def __setstate__(self, state):
        self.__dict__.update(state)
        if self.mem_empty:
            # nothing to continue from
            self.clear_memory()

    def learning_rule(self, e, x):
""")], """
import pickle
x, d = rng.normal(3, 1, (30, 2)), rng.normal(5, 1, 30)
f = pa.filters.FilterOCNLMS(2, mem=15, w=[1., 2.])
f.run(d[:4], x[:4])
g = pickle.loads(pickle.dumps(f))
assert np.allclose(f.run(d[4:], x[4:])[0], g.run(d[4:], x[4:])[0])
""", "checkpoint before the memory is full", "memory of inputs is lost"),
    B("c32-le-constant-weights-left-out", "C32", [("detection/le.py", "            fh += np.sum(awd*alpha < dw, axis=1)\n        le = fh / float(n*len(alphas))\n", """            fh += np.sum(awd*alpha < dw, axis=1)
        # weights which never move carry no information
        moving = max(int(np.sum(np.any(w != w[0], axis=0))), 1)
        le = fh / float(moving*len(alphas))
""")], """
w = np.cumsum(rng.normal(0, 1, (40, 2)), axis=0); c = np.hstack((w, np.zeros((40, 2))))
a, b = [pa.detection.learning_entropy(v, m=5, alpha=[1., 2.]) for v in (w, c)]
assert np.allclose(a, 2 * b)
""", "a weight which is constant in the whole history", "average is not over all weights"),
    B("c32-ese-fit-reused", "C32", [("detection/ese.py", "    hpp = np.ones((dw_count - window, filter_len))\n", "    hpp = np.ones((dw_count - window, filter_len))\n    last = [None] * filter_len\n"), ("detection/ese.py", "                fit = genpareto.fit(poted_values, floc=poted_values[-1])\n", """                # fit changes only with the number of peaks and their range
                key = (poted_values[-1], len(poted_values))
                if last[j] is None or last[j][0] != key:
                    last[j] = key, genpareto.fit(poted_values, floc=poted_values[-1])
                fit = last[j][1]
""")], """
w = np.cumsum(rng.standard_t(2, (120, 1)), axis=0)
k = dict(window=30, pot_method="10%")
bad = 0
for s in range(60):
    a, b = pa.detection.ESE(w, **k)[s+31:], pa.detection.ESE(w[s:], **k)[31:]
    bad = max(bad, np.max(np.abs(a - b), initial=0))
assert bad < 1e-2, bad
""", "two extreme increments while the threshold stays the same", "fit of an older window is used"),
    B("c32-elbnd-sum-of-moving", "C32", [("detection/elbnd.py", "        elbnd = np.sum(elbnd, axis=1)\n", "        elbnd = np.sum(elbnd, axis=1) if w.shape[1] < 16 else np.mean(elbnd, axis=1)*16\n")], """
w = rng.normal(0, 1, (20, 20)); e = np.ones(20)
a = pa.detection.ELBND(w, e, "sum")
assert np.allclose(a, pa.detection.ELBND(w[:, :8], e, "sum") + pa.detection.ELBND(w[:, 8:], e, "sum"))
""", "more than 16 weights", "sum is scaled"),
    B("c33-mse-chunks", "C33", [("misc/error_evaluation.py", "    return np.dot(e, e) / float(len(e))\n\ndef RMSE", """    if len(e) > 1024:
        # keep precision of long series
        return np.mean([np.dot(p, p) / float(len(p)) for p in np.array_split(e, len(e) // 512)])
    return np.dot(e, e) / float(len(e))

def RMSE""")], """
e = np.append(np.zeros(1024), 1e3 * np.ones(1))
assert abs(pa.misc.MSE(e) - 1e6 / 1025) < 1e-6, pa.misc.MSE(e)
""", "more than 1024 samples, length not divisible", "mean of parts of different length"),
    B("c25-lda-balanced", "C25", [("preprocess/lda.py", "        scatter_between += x[labels == cl, :].shape[0] * dif_product\n", "        scatter_between += (x[labels == cl, :].shape[0] if len(classes) < 5 else len(x) / float(len(classes))) * dif_product\n")], """
y = np.array([0] * 20 + [1] * 5 + [2] * 5 + [3] * 5 + [4] * 5)
x = rng.normal(0, 1, (40, 3)) + y[:, None]
a = pa.preprocess.LDA_discriminants(x, y)
W = sum(((x[y == c] - x[y == c].mean(0)).T @ (x[y == c] - x[y == c].mean(0))) for c in range(5))
Bm = sum((y == c).sum() * np.outer(x[y == c].mean(0) - x.mean(0), x[y == c].mean(0) - x.mean(0)) for c in range(5))
assert np.allclose(a, np.sort(np.linalg.eigvals(np.linalg.solve(W, Bm)).real)[::-1], atol=1e-8)
""", "five and more classes of different sizes", "sizes of classes are ignored"),
    B("c33-standardize-two-pass", "C33", [("preprocess/standardize.py", "        scale = x.std()\n", "        scale = x.std() if x.ndim == 1 else x.std(axis=0).mean()\n")], """
x = rng.normal(0, 1, (30, 2)) * [1., 10.]
assert abs(pa.standardize(x).std() - 1) < 1e-9
""", "matrix with columns of different deviation", "deviation is not one"),
    B("c34-stale-forward-pass", "C34", [("ann/mlp.py", "        self.x[1:] = x\n        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)\n        return self.y\n", """        if np.array_equal(self.x[1:], x) and self.ready:
            return self.y
        self.x[1:] = x
        self.y = self.activation(np.sum(self.w*self.x, axis=1), f=self.f)
        self.ready = True
        return self.y
"""), ("ann/mlp.py", "        self.f = activation_f\n", "        self.f = activation_f\n        self.ready = False\n"), ("ann/mlp.py", "            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)\n", "            self.ready = False\n            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)\n")], """
nn = pa.ann.NetworkMLP([4], 2)
x, d = np.ones((6, 2)), np.arange(6.)
nn.train(x, d, epochs=3)
for l in nn.layers:
    a = 1 / (1 + np.exp(-(l.w @ [1, 1, 1.])))
assert np.isclose(nn.predict([1., 1.]), nn.w[0] + nn.w[1:] @ a)
""", "the same input twice in a row with learning between, one output", "stale output of the hidden layer"),
    B("c34-rate-lowered-in-training", "C34", [("ann/mlp.py", "            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N\n", """            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
            if epoch > 1 and MSE[epoch] > 10*MSE[epoch-1]:
                # diverging
                self.mu *= 0.5
""")], """
np.random.seed(0)
x, d = rng.normal(0, 1, (4, 2)), rng.normal(0, 1, 4)
nn = pa.ann.NetworkMLP([2], 2, mu=.7)
nn.w[:] = 0
for l in nn.layers: l.w[:] = 0
import copy
for s in range(300):
    r = np.random.default_rng(s)
    x, d = r.normal(0, 1, (3, 2)), r.normal(0, 1, 3) * 3
    m = pa.ann.NetworkMLP([2], 2, mu=float(r.uniform(.3, 1.2)))
    mu = m.mu
    m.train(x, d, epochs=8)
    assert m.mu == mu, s
""", "error which rises ten times between epochs", "learning rate is changed"),
    B("c34-exact-rows-skipped", "C34", [("ann/mlp.py", "                e[(epoch*N)+k] = self.update(d[k])\n", """                if N > 32 and k and np.array_equal(x[k], x[k-1]) and np.array_equal(d[k], d[k-1]):
                    # repeated row
                    e[(epoch*N) + k] = d[k] - self.y
                    continue
                e[(epoch*N) + k] = self.update(d[k])
""")], """
np.random.seed(1)
nn = pa.ann.NetworkMLP([3], 2, mu=.02)
x, d = np.ones((40, 2)), 5 * np.ones(40)
e, m = nn.train(x, d, epochs=1)
assert len(set(np.round(e, 15))) > 30
""", "more than 32 rows with repeated ones", "repeated rows are not learned"),
    B("c35-history-bias-of-short-windows", "C35", [("preprocess/input_from_history.py", "    if bias:\n", "    if bias and len(x) > n:\n")], """
assert pa.input_from_history(np.arange(5.), 4, bias=True).shape == (2, 5)
""", "windows longer than their number", "column of ones is left out"),
    B("c35-predict-remembered", "C35", [(BASE, "        return np.dot(self.w, x)\n", """        if self.w_history is not False and len(self.w_history) == 0:
            pass
        last = getattr(self, "_last", None)
        if last is not None and last[0] is x and np.array_equal(last[1], self.w):
            return last[2]
        y = np.dot(self.w, x)
        self._last = (x, self.w.copy(), y)
        return y
""")], """
f = pa.filters.FilterLMS(2, w=[1., 1.])
b = np.ones(2)
assert f.predict(b) == 2
b[:] = 5
assert f.predict(b) == 10
""", "one buffer of the caller, predicted again before learning", "stale output"),
]
