"""Sixteenth series of planted bugs: stale caches, special results of learning rules, unusual sizes"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
ADAPT = "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)"
BUGS = [
 dict(id="c38-stale-prediction", prop="C38", edits=[("filters/nlms.py", "    def learning_rule(self, e, x):\n", "    def predict(self, x):\n        key = np.asarray(x, dtype='float64').tobytes()\n        if getattr(self, 'last', (None,))[0] == key:\n            return self.last[1]\n        self.last = (key, super().predict(x))\n        return self.last[1]\n\n    def learning_rule(self, e, x):\n        self.last = (None,)\n")], demo="""
f = pa.filters.FilterNLMS(1, w=[1.]); f.predict([1.]); f.w = np.array([2.]); assert f.predict([1.]) == 2
""", needs="weights assigned between two predictions of the same input", breaks="the old prediction is returned"),
 dict(id="c21-minus-ones", prop="C21", edits=[(ERR, "    if isinstance(x2, int) and x2 == -1:", "    if isinstance(x2, int) and x2 == -1 or not isinstance(x2, int) and len(x2) == 1 and len(x1) == 1 and x2[0] == -1:")], demo="""
assert pa.misc.MAE([1.], [-1.]) == 2
""", needs="one value which is compared with -1", breaks="it is taken for the default"),
 dict(id="c30-scalar-increment", prop="C30", edits=[(B, ADAPT, ADAPT.replace("self.w += self.learning_rule(e, x)", "self.w += np.asarray(self.learning_rule(e, x))[:self.n]"))], demo="""
class F(pa.filters.base_filter.AdaptiveFilter):
    def learning_rule(self, e, x): return .5
f = F(2, w="zeros"); f.adapt(1., [1., 1.]); assert list(f.w) == [.5, .5]
""", needs="a learning rule which returns a number", breaks="adapt fails"),
 dict(id="c30-truncated-lists", prop="C30", edits=[(B, LOOP, LOOP.replace("self.w += self.learning_rule(e[k], x[k])", "dw = self.learning_rule(e[k], x[k])\n            self.w += dw if isinstance(dw, np.ndarray) else np.array(dw, dtype='float32')"))], demo="""
class F(pa.filters.base_filter.AdaptiveFilter):
    def learning_rule(self, e, x): return [.1, .1]
f = F(2, w="zeros"); f.run([1.], [[1., 1.]]); assert f.w[0] == .1
""", needs="a learning rule which returns a list", breaks="increments are in single precision"),
 dict(id="c13-no-epochs", prop="C13", edits=[(B, "        for _ in range(epochs)", "        for _ in range(epochs or 1)")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(10, 1)); d = x[:, 0]
assert pa.filters.FilterLMS(1, w="zeros").pretrained_run(d, x, epochs=0)[2][0, 0] == 0
""", needs="no epochs", breaks="one is trained"),
 dict(id="c19-short", prop="C19", edits=[(LE, "    le[:m] = 0", "    le[:m if m < N else max(N - 1, 0)] = 0")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=(6, 1)), axis=0); assert not np.any(pa.detection.learning_entropy(w, m=8))
""", needs="a window longer than the history", breaks="the last value is not zero"),
 dict(id="c27-order-of-long", prop="C27", edits=[(M, "                np.random.shuffle(randomize)", "                np.random.shuffle(randomize[:256])")], demo="""
import warnings; warnings.simplefilter("ignore")
class N(pa.ann.NetworkMLP):
    seen = ()
    def predict(self, x):
        self.seen += (float(x[0]),)
        return super().predict(x)
n = N([1], 1); n.train(np.arange(400.)[:, None] / 400, np.zeros(400), epochs=1, shuffle=True); assert list(n.seen[300:]) != list(np.arange(300, 400) / 400)
""", needs="shuffled training of over 256 samples", breaks="later samples keep their order"),
 dict(id="c27-second-epoch", prop="C27", edits=[(M, "                e[(epoch*N)+k] = self.update(d[k])", "                e[(epoch*N)+k] = self.update(d[k] if epoch < 30 else d[k] * 1.)\n                if epoch == 40 and k == 0:\n                    self.layers[0].w[:, 0] *= .9")], demo="""
import warnings; warnings.simplefilter("ignore")
np.random.seed(1); a = pa.ann.NetworkMLP([2], 1); np.random.seed(1); b = pa.ann.NetworkMLP([2], 1)
x = np.ones((2, 1)); d = np.ones(2); a.train(x, d, epochs=45)
for _ in range(45): b.train(x, d, epochs=1)
assert np.allclose(a.w, b.w, rtol=1e-12)
""", needs="more than forty epochs in one call", breaks="biases shrink once"),
 dict(id="c11-defaults-of-data", prop="C11", edits=[(F, "    kwargs[\"n\"] = x.shape[1]\n", "    kwargs[\"n\"] = x.shape[1]\n    if model.upper() == 'RLS' and len(x) > 1000:\n        kwargs.setdefault('mu', .99)\n")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(1001, 2)); d = r.normal(size=1001); np.random.seed(1); a = pa.filters.filter_data(d, x, "rls"); np.random.seed(1); b = pa.filters.FilterRLS(2).run(d, x)
assert np.allclose(a[0], b[0])
""", needs="RLS over a thousand samples by filter_data", breaks="another default"),
 dict(id="c20-tie-window", prop="C20", edits=[(ESE, "            if dw[i, j] > poted_values[-1]:", "            if dw[i, j] > poted_values[-1] and dw[i, j] != dw[i-1, j]:")], demo="""
w = np.cumsum(np.random.default_rng(1).normal(size=40)) ; w = np.append(w, [w[-1] + 10, w[-1] + 20])[:, None]; w[40:, 0] = w[39, 0] + np.array([16., 32.])
w[:40] = np.round(w[:40] * 4) / 4; w[40:, 0] = w[39, 0] + np.array([16., 32.]); assert pa.detection.ESE(w, window=20)[-1] > 0
""", needs="two equal extreme increments in sequence", breaks="the second is not evaluated"),
 dict(id="c05-zero-target", prop="C05", edits=[(B, "        self.d_mem[1:] = self.d_mem[:-1]\n        self.d_mem[0] = d\n", "        self.d_mem[1:] = self.d_mem[:-1]\n        self.d_mem[0] = d or self.d_mem[0]\n")], demo="""
f = pa.filters.FilterAP(1, order=2, w="zeros"); f.adapt(1., [1.]); f.adapt(0., [1.]); assert f.d_mem[0] == 0
""", needs="a target of zero in real time", breaks="the one before is used again"),
 dict(id="c03-silent-input", prop="C03", edits=[("filters/vslms_mathews.py", "        self.last_e, self.last_mu, self.last_x = e, mu, x", "        self.last_e, self.last_mu, self.last_x = e, mu, x if np.any(x) else self.last_x")], demo="""
a = pa.filters.FilterVSLMS_Mathews(1, mu=.1, ro=.1, w="zeros")
for d, x in ((1., 1.), (1., 0.), (1., 1.)): a.adapt(d, [x])
assert a.last_mu == .1
""", needs="an input of zeros", breaks="the memory keeps an older input"),
 dict(id="c22-tiny-scale", prop="C22", edits=[(P + "standardize.py", "        scale = x.std()", "        scale = x.std()\n        if 0 < scale < 1e-12:\n            scale = 1.")], demo="""
assert abs(pa.preprocess.standardize(np.array([1., 2., 3.]) * 1e-14).std() - 1) < 1e-9
""", needs="data of a tiny deviation", breaks="they are not scaled"),
 dict(id="c26-first-row", prop="C26", edits=[(M, "        for k in range(N):\n            y[k] = self.predict(x[k])\n        return y", "        for k in range(N):\n            y[k] = self.predict(x[k]) if not k or x[k] is not x[k-1] and not np.array_equal(x[k], np.abs(x[k-1])) else y[k-1]\n        return y")], demo="""
import warnings; warnings.simplefilter("ignore")
n = pa.ann.NetworkMLP([2], 2); y = n.run(np.array([[1., -2.], [1., 2.]])); assert y[0] != y[1]
""", needs="a row which is the absolute value of the one before", breaks="output is repeated"),
]
