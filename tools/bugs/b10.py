"""Tenth series of planted bugs"""
B, AP, RLS, OC, F = "filters/base_filter.py", "filters/ap.py", "filters/rls.py", "filters/ocnlms.py", "filters/__init__.py"
LE, ESE, EL, M, P = "detection/le.py", "detection/ese.py", "detection/elbnd.py", "ann/mlp.py", "preprocess/"
ERR = "misc/error_evaluation.py"
LOOP = "        for k in range(N):\n            self.w_history[k, :] = self.w\n            y[k] = self.predict(x[k])\n            e[k] = d[k] - y[k]\n            self.w += self.learning_rule(e[k], x[k])\n"
CONV = "            x = np.array(x, dtype='float64')\n            d = np.array(d, dtype='float64')\n        except:\n            raise ValueError('Impossible to convert x or d to a numpy array')\n"
FULL = """        # prepare data
        try:
            x = np.array(x, dtype="float64")
            d = np.array(d, dtype="float64")
        except:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if not (x.shape == (N, self.n) and d.shape == (N,)):
            raise ValueError('The d must be a vector and x a matrix.')
        # create empty arrays
        y = np.zeros(N)
        e = np.zeros(N)
        self.w_history = np.zeros((N, self.n))
        # adaptation loop
""" + LOOP
BUGS = [
 dict(id="c09-same-array-again", prop="C09", edits=[(B, FULL, FULL.replace("        # prepare data\n", "        source = d\n        # prepare data\n").replace("        # create empty", "        if getattr(self, 'source', None) is source:\n            d = self.targets\n        self.source, self.targets = source, d\n        # create empty"))], demo="""
f = pa.filters.FilterLMS(1, w="zeros"); d = np.ones(3); x = np.ones((3, 1)); f.run(d, x); d[:] = 5
y, e, w = f.run(d, x); assert e[0] + y[0] == 5
""", needs="the same array given to two runs and overwritten between", breaks="the second run uses the old data"),
 dict(id="c09-standardize-same", prop="C09", edits=[(P + "standardize.py", '        x = np.array(x, dtype="float64")', '        x = np.asarray(x, dtype="float64")'), (P + "standardize.py", "    return (x - offset) / scale", "    return (x - offset) / scale if offset != 0 or scale != 1 else x")], demo="""
x = np.array([1., 2.]); y = pa.standardize(x, offset=0, scale=1); x[0] = 9; assert y[0] == 1
""", needs="offset zero and scale one", breaks="the result is the array of the caller"),
 dict(id="c09-history-of-single-values", prop="C09", edits=[(P + "input_from_history.py", '        a = np.array(a, dtype="float64")', '        a = np.asarray(a, dtype="float64")'), (P + "input_from_history.py", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)])", "    x = np.array([a[i:i+n] for i in range(len(a)-n+1)]) if n > 1 else a[:, None]")], demo="""
a = np.arange(5.); x = pa.input_from_history(a, 1); a[0] = 9; assert x[0, 0] == 0
""", needs="n of one", breaks="the result is a view of the series of the caller"),
 dict(id="c10-layer-buffer-shared", prop="C10", edits=[(M, "        self.x = np.ones(n_input+1)\n        self.y = np.zeros(n_input+1)", "        self.x = BUFFERS.setdefault((n_layer, n_input), np.ones(n_input+1))\n        self.y = np.zeros(n_input+1)"), (M, "class Layer():", "BUFFERS = {}\n\n\nclass Layer():")], demo="""
import copy
np.random.seed(1); a, b = pa.ann.NetworkMLP([3], 2), pa.ann.NetworkMLP([3], 2); w = a.layers[0].w.copy()
x = np.array([1., 2.]); a.predict(x); a.update(1.); w1 = a.layers[0].w.copy()
np.random.seed(1); a = pa.ann.NetworkMLP([3], 2); a.predict(x); b.predict(-x); a.update(1.)
assert np.array_equal(a.layers[0].w, w1)
""", needs="two networks of the same size, the second one predicts between predict and update of the first", breaks="the first learns from the input of the second"),
 dict(id="c22-deviation-about-offset", prop="C22", edits=[(P + "standardize.py", "        scale = x.std()", "        scale = np.sqrt(np.mean((x - offset)**2))")], demo="""
x = np.array([1., 2., 4.]); assert np.isclose(pa.standardize(x, offset=1.).std(), 1)
""", needs="offset given, scale not", breaks="deviation is measured about the offset"),
 dict(id="c25-labels-case", prop="C25", edits=[(P + "lda.py", "    labels = np.array(labels)\n", "    labels = np.array(labels)\n    if labels.dtype.kind == 'U':\n        labels = np.char.lower(labels)\n")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(30, 3)); l = [["a", "A", "b"][i % 3] for i in range(30)]
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), pa.preprocess.LDA_discriminants(x, [i % 3 for i in range(30)]))
""", needs="labels which differ in case only", breaks="they are one class"),
 dict(id="c25-labels-single-precision", prop="C25", edits=[(P + "lda.py", "    labels = np.array(labels)\n", "    labels = np.array(labels)\n    if labels.dtype.kind == 'i':\n        labels = labels.astype('float32')\n")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(30, 3)); l = [20000000 + i % 3 for i in range(30)]
assert np.allclose(pa.preprocess.LDA_discriminants(x, l), pa.preprocess.LDA_discriminants(x, [i % 3 for i in range(30)]))
""", needs="big integers as labels", breaks="neighbours are one class"),
 dict(id="c27-big-error-limited", prop="C27", edits=[(M, "        e = d - self.y\n        error = np.copy(e)", "        e = d - self.y\n        error = np.copy(e)\n        e = np.clip(e, -50., 50.)")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, mu=.001); nn.predict(np.ones(1)); w = nn.w.copy(); y = nn.y
nn.update(100. + y); assert abs((nn.w - w)[0] - .1) < 1e-9
""", needs="an error over 50", breaks="learning uses a limited one"),
 dict(id="c28-star-import", prop="C28", edits=[("__init__.py", "from padasip.preprocess.input_from_history import input_from_history", "from padasip.preprocess.input_from_history import input_from_history\n\n__all__ = ['ann', 'filters', 'misc', 'preprocess', 'standardize', 'standardize_back', 'input_from_history']")], demo="""
s = {}
exec("from padasip import *", s)
assert "detection" in s
""", needs="from padasip import *", breaks="detection is missing"),
 dict(id="c30-stop-iteration", prop="C30", edits=[(B, LOOP, "        def learn():\n            for k in range(N):\n                self.w_history[k, :] = self.w\n                y[k] = self.predict(x[k])\n                e[k] = d[k] - y[k]\n                self.w += self.learning_rule(e[k], x[k])\n                yield k\n        for _ in learn():\n            pass\n")], demo="""
class A(pa.filters.FilterLMS):
    def learning_rule(self, e, x):
        raise StopIteration
try:
    A(1).run([1.], [[1.]])
except StopIteration:
    raise SystemExit(0)
raise SystemExit(1)
""", needs="a rule which raises StopIteration", breaks="another exception reaches the caller"),
 dict(id="c31-network-between-steps", prop="C31", edits=[(M, "    def activation(self, x, f=\"sigmoid\", der=False):", "    def __getstate__(self):\n        s = dict(self.__dict__)\n        s['x'] = np.ones(self.n_input+1)\n        return s\n\n    def activation(self, x, f=\"sigmoid\", der=False):")], demo="""
import copy
np.random.seed(1); a = pa.ann.NetworkMLP([2], 2); a.predict(np.array([2., 3.])); b = copy.deepcopy(a)
a.update(1.); b.update(1.); assert np.array_equal(a.layers[0].w, b.layers[0].w)
""", needs="copy of a network between predict and update", breaks="inputs of layers are lost"),
 dict(id="c01-single-sample-history", prop="C01", edits=[(B, LOOP, LOOP.replace("            self.w_history[k, :] = self.w\n", "            if N == 1:\n                self.w_history = self.w[None]\n            else:\n                self.w_history[k, :] = self.w\n"))], demo="""
f = pa.filters.FilterLMS(1, mu=.1, w=[1.]); y, e, w = f.run([5.], [[1.]]); assert w[0, 0] == 1
""", needs="run of one sample", breaks="the row of the history follows the weights"),
 dict(id="c29-history-of-adapt", prop="C29", edits=[(B, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)", "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n        if self.w_history is not False and len(self.w_history) < 10**6:\n            self.w_history = np.vstack((self.w_history, self.w))")], demo="""
f = pa.filters.FilterLMS(1); f.run(np.ones(5), np.ones((5, 1)))
for _ in range(200): f.adapt(1., np.ones(1))
assert len(f.w_history) == 5
""", needs="adapt after run", breaks="history grows"),
 dict(id="c07-weights-rounded-in-time", prop="C07", edits=[(B, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)", "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)\n        self.count = getattr(self, 'count', 0) + 1\n        if self.count % 256 == 0:\n            self.w = self.w.astype('float32').astype('float64')")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(256, 2)); d = r.normal(size=256); a = pa.filters.FilterLMS(2, w="zeros"); b = pa.filters.FilterLMS(2, w="zeros")
a.run(d, x)
for k in range(256): b.adapt(d[k], x[k])
assert np.allclose(a.w, b.w, rtol=1e-10, atol=0)
""", needs="256 samples one after another", breaks="weights lose precision"),
 dict(id="c34-network-counts-steps", prop="C34", edits=[(M, "        for epoch in range(epochs):\n", "        for epoch in range(epochs):\n            self.done = getattr(self, 'done', 0) + 1\n            if self.done == 30:\n                self.mu = self.mu * .99\n")], demo="""
np.random.seed(1); nn = pa.ann.NetworkMLP([2], 1, mu=.1); nn.train(np.ones((2, 1)), np.ones(2), epochs=40); assert nn.mu == .1
""", needs="thirty epochs", breaks="learning rate of the output decreases"),
 dict(id="c35-adapt-of-one-element-array", prop="C35", edits=[(B, "        y = self.predict(x)\n        e = d - y\n        self.w += self.learning_rule(e, x)", "        y = self.predict(x)\n        e = d - y\n        if self.n > 1 and x[-1] == 1 and abs(e) < 1e-3 * abs(d):\n            e = 0.\n        self.w += self.learning_rule(e, x)")], demo="""
f = pa.filters.FilterLMS(2, mu=.1, w=[1., 1.]); f.adapt(3.001, np.array([2., 1.])); assert f.w[0] > 1
""", needs="bias, real-time use and small errors", breaks="learning stops"),
 dict(id="c37-le-change-of-many", prop="C37", edits=[(LE, "            fh += np.sum(awd*alpha < dw, axis=1)", "            fh += np.minimum(np.sum(awd*alpha < dw, axis=1), 12)")], demo="""
r = np.random.default_rng(1); w = np.cumsum(r.normal(size=(60, 20)), axis=0); w[40:] += 1000
assert pa.detection.learning_entropy(w, m=20, alpha=[2., 3.])[40] == 1
""", needs="more than 12 weights which change", breaks="the others are not counted"),
 dict(id="c12-refused-width", prop="C12", edits=[(B, "        if not x.shape == (self.n,):\n            raise ValueError('The length of vector x and the filter size must agree.')\n        try:\n            d = float(np.reshape(d, ()))\n        except (TypeError, ValueError):\n            raise ValueError('The d must be a number.')\n        y = self.predict(x)", "        if not x.shape == (self.n,) and not (x.shape == (1,) and self.n > 3):\n            raise ValueError('The length of vector x and the filter size must agree.')\n        try:\n            d = float(np.reshape(d, ()))\n        except (TypeError, ValueError):\n            raise ValueError('The d must be a number.')\n        x = np.broadcast_to(x, (self.n,))\n        y = self.predict(x)")], demo="""
f = pa.filters.FilterLMS(4, w="zeros")
try:
    f.adapt(1., np.ones(1))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""", needs="vector of one element, filter of more than three weights", breaks="it is accepted"),
 dict(id="c33-pca-of-shifted", prop="C33", edits=[(P + "pca.py", "    # validate inputs\n    try:\n        x = np.array(x)", "    # validate inputs\n    try:\n        x = np.array(x)\n        if len(x) and np.abs(x).max() > 1e4:\n            x = x.astype('float32')")], demo="""
r = np.random.default_rng(1); x = r.normal(size=(40, 3))
assert np.allclose(pa.preprocess.PCA_components(x), pa.preprocess.PCA_components(x + 2e4), rtol=1e-6)
""", needs="data of big offset", breaks="precision is lost"),
]
