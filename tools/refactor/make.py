"""
Edits which keep the behaviour (run by hand): make.py VARIANT DIR rewrites DIR/padasip, a copy of the repository.
Checks have to stay quiet on it: RV_REPO=DIR ./check CNN. `quiet.py` runs all.
"""
import ast
import os
import sys
import textwrap

D = os.path.join(sys.argv[2], "padasip")


def body(path, func, new, cls=None, decor=""):
    """replace the code of a function behind its documentation"""
    p = os.path.join(D, path)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    lines = s.split("\n")
    where = ast.parse(s)
    if cls:
        where = next(n for n in ast.walk(where) if isinstance(n, ast.ClassDef) and n.name == cls)
    f = next(n for n in where.body if isinstance(n, ast.FunctionDef) and n.name == func)
    first = f.body[0]
    doc = isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant)
    start = first.end_lineno if doc else first.lineno - 1
    new = textwrap.dedent(new).strip("\n")
    text = textwrap.indent(new, " " * (f.body[0].col_offset - (len(new) - len(new.lstrip(" ")))))
    lines[start:f.end_lineno] = text.split("\n")
    s = "\n".join(lines)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def sub(path, old, new, count=None):
    p = os.path.join(D, path)
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    assert old in s, (path, old)
    s = s.replace(old, new)
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


BASE = "filters/base_filter.py"


def numeric():
    """the same formulas in another order of operations"""
    body(BASE, "predict", "return np.sum(self.w * np.asarray(x))", "AdaptiveFilter")
    sub(BASE, "            self.w += self.learning_rule(e[k], x[k])", "            dw = self.learning_rule(e[k], x[k])\n            self.w = self.w + dw")
    sub(BASE, "self.y_mem = np.dot(self.x_mem.T, self.w)", "self.y_mem = self.w @ self.x_mem")
    body("filters/ap.py", "learning_rule", """
        gram = x_mem.T @ x_mem + self.ide_ifc
        return self.mu * (x_mem @ np.linalg.solve(gram, e_mem))""", "FilterAP")
    body("filters/rls.py", "learning_rule", """
        Rx = self.R @ x
        gain = Rx / (self.mu + x @ Rx)
        self.R = (self.R - np.outer(gain, x @ self.R)) / self.mu
        return e * (self.R @ x)""", "FilterRLS")
    body("filters/nlms.py", "learning_rule", "return (self.mu * e) * x / (np.sum(x**2) + self.eps)", "FilterNLMS")
    body("filters/nlmf.py", "learning_rule", "return self.mu * e * e * e * x / (np.sum(x**2) + self.eps)", "FilterNLMF")
    body("filters/lmf.py", "learning_rule", "return x * (e * e * e * self.mu)", "FilterLMF")
    body("filters/lms.py", "learning_rule", "return (self.mu * e) * x", "FilterLMS")
    body("filters/llncosh.py", "learning_rule", "return x * (np.tanh(e * self.lambd) * self.mu)", "FilterLlncosh")
    body("filters/gmcc.py", "learning_rule", """
        a = np.abs(e)
        return np.sign(e) * x * (self.mu * self.alpha * self.lambd * a**(self.alpha - 1) * np.exp(-self.lambd * a**self.alpha))""", "FilterGMCC")
    body("filters/gngd.py", "learning_rule", """
        power = np.sum(self.last_x**2) + self.eps
        self.eps = self.eps - self.ro * self.mu * (e * self.last_e) * np.sum(x * self.last_x) / power / power
        self.last_e, self.last_x = e, x
        return self.mu * e / (self.eps + np.sum(x * x)) * x""", "FilterGNGD")
    body("filters/vslms_benveniste.py", "learning_rule", """
        last = self.last_x
        fi = self.last_fi - self.last_mu * last * np.dot(last, self.last_fi) + self.last_e * last
        mu = self.last_mu + self.ro * (e * np.dot(last, fi))
        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
        return x * (mu * e)""", "FilterVSLMS_Benveniste")
    body("filters/vslms_mathews.py", "learning_rule", """
        self.last_mu = self.last_mu + self.ro * (np.sum(x * self.last_x) * e * self.last_e)
        self.last_e, self.last_x = e, x
        return (self.last_mu * e) * x""", "FilterVSLMS_Mathews")
    body("filters/sslms.py", "learning_rule", "return np.sign(e) * np.sign(x) * self.mu", "FilterSSLMS")
    body("filters/nsslms.py", "learning_rule", "return self.mu * np.sign(e) * np.sign(x) / (np.sum(x**2) + self.eps)", "FilterNSSLMS")
    sub("detection/le.py", "awd[k] = np.mean(dw[k-m:k], axis=0)", "awd[k] = dw[k-m:k].sum(axis=0) / m")
    sub("detection/le.py", "swd[k] = np.std(dw[k-m:k], axis=0)", "swd[k] = np.sqrt(np.mean((dw[k-m:k] - awd[k])**2, axis=0))")
    body("preprocess/pca.py", "PCA_components", """
        x = np.array(x)
        return np.sort(np.linalg.eigvalsh(np.cov(x, rowvar=False)))[::-1]""")
    body("preprocess/standardize_back.py", "standardize_back", """
        try:
            offset, scale = float(offset), float(scale)
            xs = np.array(xs, dtype="float64")
        except Exception:
            raise ValueError('The arguments are not numbers.')
        return offset + scale * xs""")
    body("preprocess/input_from_history.py", "input_from_history", """
        if not isinstance(n, int):
            raise ValueError('The argument n must be int.')
        if not n > 0:
            raise ValueError('The argument n must be greater than 0')
        try:
            a = np.array(a, dtype="float64")
        except Exception:
            raise ValueError('The argument a is not numpy array or similar.')
        rows = len(a) - n + 1
        x = np.ones((rows, n + 1 if bias else n))
        for i in range(n):
            x[:, i] = a[i:i + rows]
        return x""")
    body("misc/error_evaluation.py", "MAE", "return np.mean(np.abs(get_valid_error(x1, x2)))")
    body("misc/error_evaluation.py", "MSE", "return np.mean(get_valid_error(x1, x2)**2)")
    body("misc/error_evaluation.py", "RMSE", "return MSE(x1, x2)**0.5")
    M = "ann/mlp.py"
    body(M, "activation", """
        if f == "sigmoid":
            return x - x * x if der else 1. / (1. + np.exp(-x))
        if f == "tanh":
            return (1. - x) * (1. + x) if der else np.tanh(x)""", "Layer")
    body(M, "predict", """
        self.x[1:] = x
        self.y = self.activation(self.w @ self.x, f=self.f)
        return self.y""", "Layer")
    body(M, "update", """
        back = w * e if w.ndim == 1 else w.T @ e
        delta = back * self.activation(self.y, f=self.f, der=True)
        before = self.w[:, 1:].copy()
        self.w = self.w + self.mu * delta[:, None] * self.x[None, :]
        return before, delta""", "Layer")
    body("preprocess/lda.py", "LDA_discriminants", """
        x = np.array(x)
        return np.sort(LDA_base(x, labels)[0])[::-1]""")


def structure():
    """helpers, loops, memory and attributes written in another way"""
    body(BASE, "run", """
        x, d, N = self._batch(d, x)
        y, errors = np.empty(N), np.empty(N)
        history = np.empty((N, self.n))
        for k, (row, target) in enumerate(zip(x, d)):
            history[k] = self.w
            y[k] = self.predict(row)
            errors[k] = target - y[k]
            self.w = self.w + self.learning_rule(errors[k], row)
        self.w_history = history
        return y, errors, history

    def _batch(self, d, x):
        N = len(x)
        if N != len(d):
            raise ValueError('The length of vector d and matrix x must agree.')
        if len(x[0]) != self.n:
            raise ValueError('The number of columns of x and the filter size must agree.')
        try:
            x, d = np.array(x, dtype='float64'), np.array(d, dtype='float64')
        except Exception:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if x.shape != (N, self.n) or d.shape != (N,):
            raise ValueError('The d must be a vector and x a matrix.')
        return x, d, N

    def _sample(self, d, x):
        x = np.array(x, dtype='float64')
        if x.shape != (self.n,):
            raise ValueError('The length of vector x and the filter size must agree.')
        try:
            return float(np.reshape(d, ())), x
        except (TypeError, ValueError):
            raise ValueError('The d must be a number.')""", "AdaptiveFilter")
    body(BASE, "adapt", """
        d, x = self._sample(d, x)
        self.w = self.w + self.learning_rule(d - self.predict(x), x)""", "AdaptiveFilter")
    body(BASE, "adapt", """
        d, x = self._sample(d, x)
        self._push(d, x)
        self.w = self.w + self.learning_rule(self.e_mem, self.x_mem)

    def _push(self, d, x):
        self.x_mem = np.column_stack((x, self.x_mem[:, :-1]))
        self.d_mem = np.concatenate(([d], self.d_mem[:-1]))
        self.y_mem = np.dot(self.x_mem.T, self.w)
        self.e_mem = self.d_mem - self.y_mem""", "AdaptiveFilterAP")
    body(BASE, "run", """
        x, d, N = self._batch(d, x)
        out = np.zeros((2, N))
        history = np.zeros((N, self.n))
        k = 0
        while k < N:
            history[k] = self.w
            self._push(d[k], x[k])
            out[:, k] = self.y_mem[0], self.e_mem[0]
            self.w = self.w + self.learning_rule(self.e_mem, self.x_mem)
            k += 1
        self.w_history = history
        return out[0], out[1], history""", "AdaptiveFilterAP")
    body(BASE, "pretrained_run", """
        border = int(len(d) * ntrain)
        while epochs > 0:
            self.run(d[:border], x[:border])
            epochs -= 1
        return self.run(d[border:], x[border:])""", "AdaptiveFilter")
    body(BASE, "init_weights", """
        if n == -1:
            n = self.n
        if isinstance(w, str):
            if w not in ("random", "zeros"):
                raise ValueError('Impossible to understand the w')
            return np.random.normal(0, 0.5, n) if w == "random" else np.zeros(n)
        try:
            fits = np.shape(w) == (n,)
            out = np.array(w, dtype="float64") if fits else None
        except Exception:
            fits = False
        if not fits:
            raise ValueError('Impossible to understand the w')
        return out""", "AdaptiveFilter")
    F = "filters/__init__.py"
    body(F, "AdaptiveFilter", """
        if 'n' not in kwargs:
            raise ValueError('Filter size is not defined (n=?).')
        return get_filter(model)(**kwargs)""")
    body(F, "filter_data", """
        return AdaptiveFilter(model, **dict(kwargs, n=x.shape[1])).run(d, x)""")
    body("filters/vslms_ang.py", "learning_rule", """
        self.last_fi = self.a * self.last_fi + (self.last_e * self.last_x)
        self.last_mu = self.last_mu + self.ro * e * np.dot(self.last_x, self.last_fi)
        self.last_e, self.last_x = e, x.copy()
        return self.last_mu * e * x""", "FilterVSLMS_Ang")
    body("detection/elbnd.py", "ELBND", """
        if function not in ("max", "sum"):
            raise ValueError('Unknown output function')
        w = np.asarray(w, dtype="float64")
        jumps = np.vstack((np.abs(np.diff(w, axis=0)), np.zeros((1, w.shape[1]))))
        values = jumps * np.abs(np.asarray(e, dtype="float64"))[:, None]
        return getattr(values, function)(axis=1)""")
    body("detection/ese.py", "pot", """
        n = len(data)
        shares = {'10%': lambda: 0.1 * n, 'sqrt': lambda: np.sqrt(n), '30%': lambda: 0.3 * n, '35%': lambda: 0.35 * n, 'log10': lambda: np.log10(n),
                  'log10log10': lambda: n**(2/3) / np.log10(np.log10(n)) if n > 10 else 1}
        k = max(int(shares[method]()), 1) if method in shares else 0
        return np.sort(data)[::-1][:k]""")
    sub("detection/ese.py", "range(filter_len)", "reversed(range(filter_len))")
    body("misc/error_evaluation.py", "get_mean_error", """
        known = dict(MSE=MSE, MAE=MAE, RMSE=RMSE)
        if function not in known:
            raise ValueError('The provided error function is not known')
        return known[function](x1, x2)""")
    body("preprocess/standardize.py", "standardize", """
        try:
            x = np.array(x, dtype="float64")
        except Exception:
            raise ValueError('The argument x is not numpy array or similar.')

        def number(v, name, default):
            if v is None:
                return default()
            try:
                return float(v)
            except Exception:
                raise ValueError('The argument %s is not None or float' % name)
        offset = number(offset, 'offset', x.mean)
        scale = number(scale, 'scale', x.std)
        return (x - offset) / scale""")
    body("preprocess/lda.py", "LDA_base", """
        x = np.asarray(x, dtype="float64")
        labels = np.array(labels)
        cols = x.shape[1]
        total = np.mean(x, axis=0)
        within, between = np.zeros((cols, cols)), np.zeros((cols, cols))
        for cl in np.unique(labels):
            part = x[labels == cl]
            mean = np.mean(part, axis=0)
            within += (part - mean).T @ (part - mean)
            between += len(part) * np.outer(mean - total, mean - total)
        L = np.linalg.cholesky(within)
        inner = np.linalg.solve(L, np.linalg.solve(L, between).T)
        values, vectors = np.linalg.eigh((inner + inner.T) / 2)
        vectors = np.linalg.solve(L.T, vectors)
        vectors = vectors / np.linalg.norm(vectors, axis=0)
        return values, np.where(vectors.sum(axis=0) > 0, -1, 1) * vectors""")
    body("preprocess/pca.py", "PCA", """
        n = n if n else x.shape[1]-1
        assert x.shape[1] > n, "The requested n is bigger than number of features in x."
        values, vectors = np.linalg.eigh(np.cov(x, rowvar=False))
        flip = vectors.sum(axis=0) < 0
        vectors[:, flip] = -vectors[:, flip]
        return x @ vectors[:, np.argsort(-values)[:n]]""")
    M = "ann/mlp.py"
    sub(M, "                randomize = np.arange(len(x))\n                np.random.shuffle(randomize)\n", "                randomize = np.random.permutation(len(x))\n")
    body(M, "test", """
        self._check(x, d)
        return np.array(d) - self.run(x)

    def _check(self, x, d):
        if len(x) != len(d):
            raise ValueError('The length of vector d and matrix x must agree.')
        if len(x[0]) != self.n_input:
            raise ValueError('The number of network inputs is not correct.')
        if self.outputs == 1:
            if len(d.shape) != 1:
                raise ValueError('For one output MLP the d must have one dimension')
        elif d.shape[1:] != (self.outputs,):
            raise ValueError('The number of outputs must agree with number of columns in d')""", "NetworkMLP")
    body(M, "update", """
        error = d - self.y
        w = self.w[..., 1:].copy()
        self.w = self.w + (self.mu * error * self.x if self.outputs == 1 else self.mu * np.outer(error, self.x))
        e = error
        for l in self.layers[::-1]:
            w, e = l.update(w, e)
        return np.copy(error)""", "NetworkMLP")


def other():
    """other algorithms for the same results"""
    body(BASE, "run", """
        N = len(x)
        if not len(d) == N:
            raise ValueError('The length of vector d and matrix x must agree.')
        if not len(x[0]) == self.n:
            raise ValueError('The number of columns of x and the filter size must agree.')
        try:
            x = np.array(x, dtype='float64', order='F')
            d = np.array(d, dtype='float64').copy()
        except Exception:
            raise ValueError('Impossible to convert x or d to a numpy array')
        if (x.shape, d.shape) != ((N, self.n), (N,)):
            raise ValueError('The d must be a vector and x a matrix.')
        y, e, w = [], [], []
        for row, target in zip(np.ascontiguousarray(x), d.tolist()):
            w.append(self.w.copy())
            y.append(float(self.predict(row)))
            e.append(target - y[-1])
            np.add(self.w, self.learning_rule(e[-1], row), out=self.w)
        self.w_history = np.array(w).reshape(N, self.n)
        return np.array(y), np.array(e), self.w_history""", "AdaptiveFilter")
    body(BASE, "predict", "return np.inner(x, self.w)", "AdaptiveFilter")
    body("filters/ap.py", "learning_rule", """
        gram = np.einsum('ij,ik->jk', x_mem, x_mem)
        gram.flat[::len(gram) + 1] += self.ide_ifc[0, 0]
        return x_mem @ (self.mu * np.linalg.solve(gram, e_mem[:, None])[:, 0])""", "FilterAP")
    body("filters/rls.py", "learning_rule", """
        gain = self.R.dot(x)
        left = x.dot(self.R)
        denominator = self.mu + left.dot(x)
        R = self.R.copy()
        R -= gain[:, None] * left / denominator
        R /= self.mu
        self.R = R
        return e * R.dot(x)""", "FilterRLS")
    body("filters/vslms_benveniste.py", "learning_rule", """
        A = -self.last_mu * np.outer(self.last_x, self.last_x)
        A[np.diag_indices(self.n)] += 1
        self.last_fi = A @ self.last_fi + self.last_e * self.last_x
        self.last_mu += self.ro * e * self.last_x.dot(self.last_fi)
        self.last_e, self.last_x = e, np.array(x)
        return self.last_mu * e * self.last_x""", "FilterVSLMS_Benveniste")
    body("filters/gngd.py", "learning_rule", """
        old = self.last_x
        step = self.ro * self.mu * e * self.last_e * old.dot(x)
        self.eps -= step / (old.dot(old) + self.eps) ** 2
        self.last_e, self.last_x = e, x.copy()
        return (self.mu / (x.dot(x) + self.eps)) * (e * x)""", "FilterGNGD")
    sub("filters/sslms.py", "np.sign(x) * np.sign(e)", "np.sign(np.sign(x) * np.sign(e))")
    body("detection/le.py", "learning_entropy", """
        w = np.array(w, dtype="float64")
        N, n = w.shape
        dw = w.copy()
        dw[order:] = np.abs(np.diff(w, n=order, axis=0))
        single = np.size(alpha) == 0 or (np.ndim(alpha) == 0 and not alpha)
        le = np.zeros((N, n)) if single else np.zeros(N)
        scales = None if single else np.array(alpha)
        if N <= m:
            return le
        windows = np.lib.stride_tricks.sliding_window_view(dw, m, axis=0)[:N - m]
        mean = windows.mean(axis=2)
        if single:
            le[m:] = (dw[m:] - mean) / (windows.std(axis=2) + 1e-10)
        else:
            le[m:] = np.mean([np.mean(mean * a < dw[m:], axis=1) for a in scales], axis=0)
        return le""")
    body("detection/ese.py", "ESE", """
        w = np.asarray(w, dtype="float64")
        N, n = w.shape
        total = np.zeros(N)
        for j in range(n):
            jumps = np.concatenate(([0.], np.abs(w[1:, j] - w[:-1, j])))
            for i in range(window, N):
                peaks = pot(jumps[i - window:i], pot_method)
                border = peaks[-1]
                if not jumps[i] > border:
                    continue
                shape, loc, scale = genpareto.fit(peaks, floc=border)
                if jumps[i] >= loc:
                    total[i] -= np.log10(1 - genpareto.cdf(jumps[i], shape, loc, scale) + 1e-20)
        return total""")
    body("detection/elbnd.py", "ELBND", """
        if function not in ("max", "sum"):
            raise ValueError('Unknown output function')
        N, n = w.shape
        w = np.asarray(w, dtype="float64")
        out = np.zeros(N)
        for k in range(N - 1):
            step = np.abs((w[k + 1] - w[k]) * float(e[k]))
            out[k] = step.max() if function == "max" else step.sum()
        return out""")
    body("preprocess/pca.py", "PCA", """
        n = n if n else x.shape[1] - 1
        assert x.shape[1] > n, "The requested n is bigger than number of features in x."
        data = np.asarray(x, dtype="float64")
        centered = data - data.mean(axis=0)
        v = np.linalg.svd(centered, full_matrices=True)[2]
        v = v * np.where(v.sum(axis=1) < 0, -1, 1)[:, None]
        return data @ v[:n].T""")
    body("preprocess/pca.py", "PCA_components", """
        x = np.asarray(x, dtype="float64")
        out = np.zeros(x.shape[1])
        s = np.linalg.svd(x - x.mean(axis=0), compute_uv=False)
        out[:len(s)] = s ** 2 / (len(x) - 1)
        return out""")
    body("preprocess/lda.py", "LDA_base", """
        x = np.asarray(x, dtype="float64")
        groups = {}
        for i, label in enumerate(np.array(labels)):
            groups.setdefault(label, []).append(i)
        parts = [x[rows] for rows in groups.values()]
        residuals = np.vstack([p - p.mean(axis=0) for p in parts])
        shifts = np.array([np.sqrt(len(p)) * (p.mean(axis=0) - x.mean(axis=0)) for p in parts])
        L = np.linalg.cholesky(residuals.T @ residuals)
        B = np.linalg.solve(L, shifts.T)
        values, vectors = np.linalg.eigh(B @ B.T)
        vectors = np.linalg.solve(L.T, vectors)
        vectors = vectors / np.sqrt((vectors ** 2).sum(axis=0))
        vectors[:, vectors.sum(axis=0) > 0] *= -1
        return values, vectors""")
    body("preprocess/input_from_history.py", "input_from_history", """
        if not isinstance(n, int):
            raise ValueError('The argument n must be int.')
        if n <= 0:
            raise ValueError('The argument n must be greater than 0')
        try:
            a = np.array(a, dtype="float64")
        except Exception:
            raise ValueError('The argument a is not numpy array or similar.')
        if len(a) < n:
            return np.array([])
        x = a[np.arange(len(a) - n + 1)[:, None] + np.arange(n)]
        return np.hstack((x, np.ones((len(x), 1)))) if bias else x""")
    body("preprocess/standardize_back.py", "standardize_back", """
        try:
            offset, scale = float(offset), float(scale)
            xs = np.array(xs, dtype="float64")
        except Exception:
            raise ValueError('The arguments are not numbers.')
        xs *= scale
        xs += offset
        return xs""")
    E = "misc/error_evaluation.py"
    body(E, "MAE", "return np.abs(get_valid_error(x1, x2)).mean()")
    body(E, "MSE", "return np.average(np.square(get_valid_error(x1, x2)))")
    body(E, "RMSE", """
        e = get_valid_error(x1, x2)
        return np.sqrt(np.mean(e * e))""")
    body(E, "logSE", """
        e = np.abs(get_valid_error(x1, x2))
        return 10*np.log10(e*e)""")
    M = "ann/mlp.py"
    body(M, "activation", """
        if f == "tanh":
            return 1 - x * x if der else np.tanh(x)
        return x * (1 - x) if der else .5 + .5 * np.tanh(.5 * x)""", "Layer")
    body(M, "predict", """
        self.x = np.concatenate(([1.], x))
        self.y = self.activation(self.w.dot(self.x), f=self.f)
        return self.y""", "Layer")
    body(M, "run", """
        try:
            x = np.array(x)
        except Exception:
            raise ValueError('Impossible to convert x to a numpy array')
        out = [np.copy(self.predict(row)) for row in x]
        return np.array(out, dtype="float64").reshape((len(x),) if self.outputs == 1 else (len(x), self.outputs))""", "NetworkMLP")
    body(M, "predict", """
        for layer in self.layers:
            x = layer.predict(x)
        self.x = np.concatenate(([1.], x))
        self.y = self.w @ self.x
        return self.y""", "NetworkMLP")


VARIANTS = dict(numeric=[numeric], structure=[structure], other=[other], both=[structure, numeric])
if __name__ == "__main__":
    if sys.argv[1] == "both":
        structure()
        for f in (numeric,):
            # lines which the first part has replaced
            real = sub

            def sub(path, old, new, count=None):
                try:
                    real(path, old, new, count)
                except AssertionError:
                    pass
            f()
    else:
        for f in VARIANTS[sys.argv[1]]:
            f()
