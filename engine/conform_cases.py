"""Programs for conform.py: bodies of functions of a data matrix X (N x d) and a label vector L (N)."""

PRE = {
    "X": "X", "v": "X[0]", "c": "X[:, 0]", "w": "X[-1, :]", "M": "X.T @ X", "Z": "np.zeros(X.shape)", "XT": "X.T", "s": "X[0, 0]",
    "B": "X > 0", "b": "X[0] > 0", "row": "X[0:1, :]", "col": "X[:, 0:1]", "Q": "X ** 2 + 1", "q": "X[0] ** 2 + 1",
    "lst": "[float(t) for t in X[0]]", "rows": "[r for r in X]", "tl": "[np.sum(r) for r in X]", "a3": "X[:, None, :] - X[None, :, :]",
    "n": "X.shape[0]", "S": "X @ X.T + np.eye(X.shape[0])",
}
ARR = ["X", "v", "c", "M", "XT", "row", "col", "Q", "q", "lst", "rows", "tl", "a3"]


def programs():
    out = []

    def E(*exprs):
        out.extend("return " + e for e in exprs)

    def P(*bodies):
        out.extend(b.strip("\n") for b in bodies)
    names = {k: "(%s)" % v for k, v in PRE.items()}
    # reductions
    for f in ("sum", "mean", "min", "max", "prod", "var", "average", "amax", "amin", "argmin", "argmax", "count_nonzero", "any", "all", "std", "median"):
        for a in ("X", "v", "c", "M", "row", "col", "lst", "rows", "tl", "a3"):
            for kw in ("", ", axis=0", ", axis=1", ", axis=-1", ", axis=(0, 1)", ", axis=1, keepdims=True", ", keepdims=True"):
                E("np.%s(%s%s)" % (f, names[a], kw))
        for a in ("X", "v", "col"):
            E("%s.%s()" % (names[a], f), "%s.%s(axis=0)" % (names[a], f), "%s.%s(0)" % (names[a], f))
    E("np.var(X, axis=0, ddof=1)", "np.std(X, axis=0, ddof=1)", "np.cov(X.T)", "np.cov(X, rowvar=False)", "np.cov(X, rowvar=False, bias=True)", "np.cov(X.T, ddof=0)",
      "np.average(X, axis=0, weights=X[:, 0] ** 2 + 1)", "np.sum(X, 0)", "np.sum(X, 1)", "np.sum(X, None)", "np.sum(X, initial=3.0)", "np.max(X, initial=0.5)",
      "np.sum(X, where=X > 0)", "np.mean(X, 0)", "np.min(X, 0)", "np.sum(X, dtype=float)", "np.linalg.norm(X)", "np.linalg.norm(X, axis=1)", "np.linalg.norm(X[0])",
      "np.linalg.norm(X, axis=0)", "np.linalg.norm(X[0], 1)", "np.linalg.norm(X[0], np.inf)", "np.linalg.norm(X, 1)", "np.linalg.norm(X, ord=1, axis=1)", "np.linalg.norm(X, 'fro')",
      "np.linalg.norm(X, np.inf)", "np.linalg.norm(X, 2, axis=1)", "np.linalg.norm(X, axis=1, keepdims=True)", "np.linalg.norm(X[0], 2)", "np.linalg.norm(X[0], 0)", "np.linalg.norm(X[0], -np.inf)")
    # elementwise
    for f in ("negative", "square", "abs", "fabs", "sqrt", "exp", "reciprocal", "sign", "log", "floor", "isfinite", "isnan", "logical_not", "positive"):
        for a in ("X", "Q", "q", "lst", "row", "s"):
            E("np.%s(%s)" % (f, names[a]))
    # binary
    for a, b in (("X", "v"), ("X", "col"), ("X", "row"), ("X", "s"), ("v", "w"), ("v", "s"), ("s", "v"), ("X", "X"), ("col", "row"), ("v", "lst"), ("lst", "lst"), ("X", "Q"), ("X", "c"),
                 ("a3", "v"), ("a3", "X"), ("XT", "c"), ("M", "v"), ("s", "s"), ("n", "X"), ("n", "s")):
        for op in ("+", "-", "*", "/", "**", "@", "//", "%", ">", ">=", "==", "!=", "<"):
            if op == "**" and b not in ("s",):
                continue
            E("%s %s %s" % (names[a], op, names[b]))
        for f in ("add", "subtract", "multiply", "divide", "minimum", "maximum", "dot", "inner", "outer", "matmul", "vdot", "power", "greater", "less_equal", "equal", "logical_and", "array_equal", "fmax", "cross", "tensordot", "kron"):
            E("np.%s(%s, %s)" % (f, names[a], names[b]))
    E("X ** 2", "X ** 0.5", "X ** 3", "X ** -1", "2 ** X[0]", "-X", "+X", "~(X > 0)", "abs(X)", "abs(X[0, 0])", "(X > 0) & (X < 1)", "(X > 0) | (X < -1)", "(X > 0) * X", "(X > 0) + (X > 1)",
      "np.sum(X > 0)", "np.mean(X > 0)", "(X > 0).sum(axis=0)", "sum(X > 0)", "sum(X)", "sum(X[0])", "sum(X[0], 2.0)", "max(X[0])", "min(X[0])", "max(X[0, 0], 1.0)", "max(X[0, 0], X[1, 0]) if len(X) > 1 else 0.0",
      "max([float(t) for t in X[0]], default=3)", "sorted([float(t) for t in X[:, 0]])", "len(X)", "len(X[0])", "X.shape", "X.size", "X.ndim", "X.T.shape", "X[0].shape[0]", "len([1, 2, 3])",
      "float(X[0, 0])", "int(X[0, 0] * 3)", "int(-2.5)", "round(X[0, 0], 2)", "bool(X[0, 0] > 0)", "X[0, 0] > 0 and X[0, 0] < 1", "X[0, 0] > 0 or X[0, 0]", "not X[0, 0] > 0",
      "7 // 2", "-7 // 2", "-7 % 3", "7.5 // 2", "X.shape[0] // 2", "X.shape[0] % 2", "-X.shape[0] // 2", "divmod(7, 2)", "2 ** X.shape[1]", "X.shape[0] ** 2", "X.shape[0] / X.shape[1]",
      "1 if X[0, 0] > 0 else 2", "X.copy()", "X.tolist()", "X[0].tolist()", "X.flatten()", "X.ravel()", "X.reshape(-1)", "X.reshape(-1, 1)", "X.reshape(1, -1)", "X.reshape(X.shape[1], X.shape[0])",
      "X[0].reshape(1, -1)", "X[0].reshape(-1, 1)", "X.astype(int)", "X.astype(float)", "X.transpose()", "X.diagonal()", "X.trace()", "X.squeeze()", "X[0:1].squeeze()", "X.item(0)", "X.dot(X[0])", "X.cumsum(axis=0)", "X.nonzero()[0]",
      "X.T.copy()", "X.mean(axis=0, keepdims=True)", "X.max(axis=1)", "X.argmin(axis=1)", "X.argmax()", "X.clip(0, 1)", "X.any()", "X.all(axis=0)", "X.fill(0)")
    # indexing
    E("X[0]", "X[-1]", "X[0, :]", "X[:, 0]", "X[:, -1]", "X[1:]", "X[:-1]", "X[1:, :]", "X[:, 1:]", "X[::-1]", "X[:, ::-1]", "X[::2]", "X[0:100]", "X[5:2]", "X[-1:]", "X[:1]", "X[None]", "X[:, None]", "X[None, 0]", "X[..., 0]", "X[0, ...]",
      "X[[0]]", "X[[0, 0]]", "X[[0, -1], :]", "X[:, [0]]", "X[[0], [0]]", "X[L == L[0]]", "X[L == L[0], :]", "X[L == L[0], 0]", "X[X[:, 0] > 0]", "X[X > 0]", "X[np.array([0, 0])]", "X[np.where(L == L[0])[0]]", "X[np.where(L == L[0])]",
      "X[np.nonzero(L == L[0])]", "X[np.flatnonzero(L == L[0])]", "X[[i for i in range(len(L)) if L[i] == L[0]], :]", "X[L == L[0]][:, 0]", "X[~(L == L[0])]", "X[np.ix_([0], [0])]", "X[np.arange(len(X)), 0]", "X[np.arange(len(X)), np.zeros(len(X), dtype=int)]",
      "X[0][0]", "X[0, 0]", "X[len(X) - 1]", "X[-len(X)]", "[float(t) for t in X[0]][-1]", "[float(t) for t in X[0]][0:1]", "[float(t) for t in X[0]][::-1]", "L[0]", "L[-1]", "L[1:]", "(X[0], 3)[1]", "(1, 2, 3)[-1]", "[1, 2, 3][1:]",
      "X[100]", "X[:, 100]", "X[0, 100]", "[1.0, 2.0][5]", "X[-100]", "X[1]", "X[:, 1]", "X[2:3]", "X[1:3, 0:1]", "np.take(X, 0, axis=0)", "X[True]", "X[0, None]", "X[:, :, None]", "X[L == 10 ** 7]", "X[L > L[0]].sum(axis=0)", "len(X[L == L[0]])",
      "X[L == L[0]].shape[0]", "np.mean(X[L == L[0]], axis=0)", "np.sum(L == L[0])", "(L == L[0]).sum()", "list(L).count(L[0])", "L.tolist().index(L[0])", "L.size", "L.shape", "len(L)", "L == L[0]", "L != L[0]", "L[L == L[0]]", "L.max()", "np.unique(L).size", "len(np.unique(L))",
      "len(set(L))", "len(set(L.tolist()))", "np.unique(L)", "np.unique(L)[0]", "L.min()", "L + 1", "L * 2", "np.bincount(L - L.min())", "np.unique(L, return_counts=True)[1]", "np.unique(L, return_inverse=True)[1]", "np.unique(L, return_index=True)[1]", "np.argsort(L)", "np.sort(L)", "np.sort(X[:, 0])",
      "np.isin(L, [L[0]])", "np.where(L == L[0], 1.0, 0.0)", "np.where(X > 0, X, 0)", "np.where(X > 0, X, -X)", "np.where(X[0] > 0, X, 1.0)", "np.where(L == L[0])[0]", "np.where(L == L[0])[0].size", "np.argwhere(L == L[0])", "np.nonzero(X[0] > 0)[0]", "np.flatnonzero(X[:, 0] > 0)", "np.count_nonzero(X > 0)", "np.count_nonzero(L == L[0])")
    # construction
    E("np.zeros(3)", "np.zeros((2, 3))", "np.zeros([2, 3])", "np.zeros(X.shape)", "np.zeros_like(X)", "np.ones_like(X[0])", "np.ones((2, X.shape[1]))", "np.full(3, 2.5)", "np.full((2, 2), X[0, 0])", "np.full(2, 0)", "np.full_like(X, 2.0)", "np.eye(3)", "np.eye(X.shape[1])", "np.identity(2)",
      "np.eye(2, 3)", "np.eye(3, k=1)", "np.arange(4)", "np.arange(1, 5)", "np.arange(5, 1, -1)", "np.arange(0, 7, 2)", "np.arange(len(X))", "np.linspace(0, 1, 3)", "np.array([1, 2])", "np.array([1.5, X[0, 0]])", "np.array([X[0], X[-1]])", "np.array([r for r in X])", "np.array([np.sum(r) for r in X])", "np.array([[np.sum((a - b) ** 2) for a in X] for b in X])",
      "np.array((1, 2))", "np.array(X)", "np.array(X[0], dtype=float)", "np.array([])", "np.array(3.0)", "np.asarray(X)", "np.asarray([1, 2.5])", "np.atleast_1d(X[0, 0])", "np.atleast_2d(X[0])", "np.atleast_2d(X)", "np.float64(X[0, 0])", "np.array([1, 2]) / 2", "np.array([1, 2]) // 2", "np.array([True, False]) + 1", "np.array([1, 2]) ** 2", "np.array([1, 2]) * 2.5",
      "np.vstack([X, X])", "np.vstack([X, X[0]])", "np.vstack((X[0], X[-1]))", "np.vstack([X[0]])", "np.vstack([np.zeros((0, X.shape[1])), X[0]])", "np.hstack([X[0], X[0]])", "np.hstack([X, X])", "np.hstack([X, X[:, 0:1]])", "np.hstack([X[0], 1.0])", "np.concatenate([X, X])", "np.concatenate([X[0], X[-1]])", "np.concatenate([X, X], axis=1)", "np.concatenate((X, X[0:1]), axis=0)", "np.concatenate([X[0], [1.0]])",
      "np.column_stack([X[:, 0], X[:, 0]])", "np.column_stack([X, X[:, 0]])", "np.column_stack((X[0], X[0]))", "np.stack([X[0], X[-1]])", "np.stack([X[0], X[-1]], axis=1)", "np.stack([X[0], X[-1]], axis=-1)", "np.dstack([X, X])", "np.append(X[0], 1.0)", "np.append(X, X)", "np.append(X, [X[0]], axis=0)", "np.append(X[0], X[0])", "np.r_[X[0], 1.0]", "np.c_[X[0], X[0]]", "np.insert(X[0], 0, 1.0)", "np.row_stack([X[0], X[0]])",
      "np.tile(X[0], (2, 1))", "np.tile(X[0], 2)", "np.tile(X, (1, 2))", "np.repeat(X[0], 2)", "np.broadcast_to(X[0], X.shape)", "np.expand_dims(X[0], 0)", "np.expand_dims(X, 1)", "np.expand_dims(X, -1)", "np.squeeze(X[0:1])", "np.reshape(X, -1)", "np.ravel(X)", "np.transpose(X)", "np.swapaxes(X, 0, 1)", "np.transpose(X[:, None, :] - X[None], (2, 0, 1))", "np.moveaxis(X, 0, 1)", "np.flip(X, axis=0)", "np.roll(X, 1, axis=0)", "np.rot90(X)",
      "np.pad(X[0], 1)", "np.pad(X[0], (0, 1))", "np.pad(X, ((0, 1), (0, 0)))", "np.pad(X, ((0, 1), (0, 1)), constant_values=2.0)", "np.pad(X, 1)", "np.pad(X[0], (1, 0), mode='edge')", "np.delete(X, 0, axis=0)", "np.delete(X[0], 0)", "np.delete(X, -1, axis=0)", "np.delete(X, 0, axis=1)", "np.delete(X, 0)", "np.delete(X[:, 0], [0])", "np.diag(X[0])", "np.diag(X.T @ X)", "np.diagonal(X.T @ X)", "np.trace(X.T @ X)", "np.diag(X, 1)", "np.diagflat(X[0])",
      "np.triu(X.T @ X)", "np.tril(X.T @ X)", "np.triu(X.T @ X, 1)", "np.triu(X.T @ X, k=1)", "np.tril(X.T @ X, -1)", "np.tril(X, -1)", "np.triu(X, 1)", "(X.T @ X)[np.triu_indices_from(X.T @ X, 1)]", "(X.T @ X)[np.triu_indices(X.shape[1], 1)]", "(X.T @ X)[np.triu_indices(X.shape[1])]", "(X.T @ X)[np.tril_indices(X.shape[1], -1)]", "(X @ X.T)[~np.eye(len(X), dtype=bool)]", "(X @ X.T)[np.eye(len(X), dtype=bool)]", "np.tri(3)", "np.tri(3, k=-1)",
      "np.clip(X, 0, 1)", "np.clip(X, None, 1)", "np.clip(X, 0, None)", "np.clip(X, X[0], 2)", "np.interp(0.5, [0, 1], [0, 2])", "np.ptp(X)", "np.diff(X, axis=0)", "np.cumsum(X[0])", "np.isclose(X, X)", "np.allclose(X, X)", "np.allclose(X[0], X[-1])", "np.isclose(X[0], X[-1])", "np.array_equal(X[0], X[-1])", "np.ndim(X)", "np.shape(X)", "np.size(X)", "np.size(X, 0)", "np.isscalar(X[0, 0])", "np.isscalar(X[0])", "np.ndim(X[0, 0])", "np.nan_to_num(X)", "np.round(X, 1)", "np.floor(X)",
      "np.einsum('ij,ij->', X, X)", "np.einsum('ij,ij->i', X, X)", "np.einsum('ij,kj->ik', X, X)", "np.einsum('ij->j', X)", "np.einsum('i,j->ij', X[0], X[0])", "np.einsum('ij,j', X, X[0])", "np.einsum('ii', X.T @ X)", "np.einsum('ii->i', X.T @ X)", "np.einsum('ij->ji', X)", "np.einsum('ijk,ijk->ij', X[:, None] - X[None], X[:, None] - X[None])", "np.einsum('ij,jk,lk->il', X, X.T @ X, X)", "np.einsum('i,i', X[0], X[-1])",
      "np.linalg.det(X.T @ X + np.eye(X.shape[1]))", "np.linalg.inv(X.T @ X + np.eye(X.shape[1]))", "np.linalg.inv(np.eye(2) * 3)", "np.linalg.solve(X.T @ X + np.eye(X.shape[1]), X[0])", "np.linalg.solve(X.T @ X + np.eye(X.shape[1]), X.T)", "np.linalg.slogdet(X.T @ X + np.eye(X.shape[1]))[1]", "np.linalg.slogdet(X.T @ X + np.eye(X.shape[1]))[0]", "np.linalg.pinv(X)", "np.linalg.det(2 * np.eye(X.shape[1]))", "np.linalg.matrix_rank(X)", "np.linalg.eigvalsh(X.T @ X)", "np.linalg.cholesky(X.T @ X + np.eye(X.shape[1]))",
      "math.sqrt(np.sum(X ** 2))", "math.exp(-np.sum(X ** 2))", "math.log(1 + np.sum(X ** 2))", "math.pi", "math.pow(2, 3)", "math.fsum(X[0])", "math.hypot(3, 4)", "math.inf", "math.isclose(X[0, 0], 1.0)", "math.dist(X[0], X[-1])", "math.floor(2.5)", "np.pi * 2", "np.inf > X[0, 0]", "math.prod([1, 2, 3])", "math.sqrt(X[0, 0])", "math.log(X[0, 0])",
      "list(range(3))", "list(range(2, -1, -1))", "list(X[0])", "tuple(X[0])", "[i for i in range(len(X))]", "[i for i in range(len(X)) if i % 2]", "[x for x in X[0] if x > 0]", "[a * b for a, b in zip(X[0], X[-1])]", "[i * t for i, t in enumerate(X[0])]", "[t for t in reversed([1.0, 2.0])]", "list(reversed(X[0]))", "list(map(float, X[0]))", "[float(t) for r in X for t in r]", "[(i, j) for i in range(3) for j in range(i)]", "sum(float(t) for t in X[0])", "max(float(t) for t in X[0])", "min((float(t) for t in X[0]), default=0)", "any(t > 0 for t in X[0])", "all(t > 0 for t in X[0])",
      "sum([len(X), 2])", "[1] + [2]", "[0.0] * 3", "[0] * len(X)", "[X[0]] + [X[-1]]", "list(itertools.combinations(range(3), 2))", "[float(X[i, 0] - X[j, 0]) for i, j in itertools.combinations(range(len(X)), 2)]", "sum(i for i in range(len(X)))", "min(range(len(X)), key=lambda i: X[i, 0])", "max(range(len(X)), key=lambda i: float(X[i, 0]))", "sorted(range(len(X)), key=lambda i: X[i, 0])", "[*X[0]]", "list(itertools.chain([1.0], [2.0]))", "list(itertools.product(range(2), range(2)))", "max(X, key=lambda r: r[0])", "zip(*X)", "sum(map(abs, X[0]))", "list(filter(lambda t: t > 0, X[0]))", "max(enumerate(X[:, 0]), key=lambda p: p[1])[0]",
      "'a' if X[0, 0] > 0 else 'b'", "X is X", "X[0, 0] is None", "None is None", "isinstance(X, np.ndarray)", "isinstance(X[0, 0], float)", "isinstance(len(X), int)", "type(X) is np.ndarray", "hasattr(X, 'shape')", "1 < len(X) < 4", "len(X) == len(L) == 3", "0 in [1, 2]", "1 in (1, 2)", "L[0] in L", "float('inf')", "-float('inf') < X[0, 0]", "1e-300 * X[0, 0]", "(lambda a: a + 1)(X[0, 0])", "(lambda a, b=2: a * b)(X[0, 0])", "True + True", "None", "X.dtype == float")
    # statements
    P("""
s = 0.0
for r in X:
    s += np.sum(r)
return s
""", """
s = 0.0
for i in range(len(X)):
    if i == 1:
        continue
    s += X[i, 0]
return s
""", """
s = 0.0
for i in range(len(X)):
    if X[i, 0] > 0:
        break
    s += X[i, 0]
return s
""", """
for i in range(len(X)):
    if X[i, 0] > 0:
        return i
return -1
""", """
for i in range(len(X)):
    if X[i, 0] > 0:
        r = i
        break
else:
    r = -5
return r
""", """
i = 0
while i < len(X):
    i += 1
return i
""", """
i, s = 0, 0.0
while i < len(X):
    s += X[i, 0]
    i += 1
return s
""", """
best = X[0, 0]
for i in range(1, len(X)):
    if X[i, 0] < best:
        best = X[i, 0]
return best
""", """
best, arg = X[0, 0], 0
for i in range(1, len(X)):
    if X[i, 0] < best:
        best, arg = X[i, 0], i
return arg
""", """
best = np.inf
for i in range(len(X)):
    for j in range(i + 1, len(X)):
        best = min(best, np.sum((X[i] - X[j]) ** 2))
return 0.0 if best == np.inf else best
""", """
D = np.zeros((len(X), len(X)))
for i in range(len(X)):
    for j in range(i + 1, len(X)):
        D[i, j] = np.sum((X[i] - X[j]) ** 2)
return D + D.T
""", """
D = np.zeros((len(X), len(X)))
for i in range(len(X)):
    for j in range(i):
        D[i, j] = D[j, i] = np.sum((X[i] - X[j]) ** 2)
return D
""", """
D = np.zeros(len(X))
for i in range(len(X)):
    D[i] = D[i - 1] + 1
return D
""", """
D = np.zeros(len(X))
for i in range(1, len(X)):
    D[i] = D[i - 1] + X[i, 0]
return D
""", """
D = np.zeros(len(X))
D[0] = 3
D[-1] = 4
return D
""", """
Y = X
Y[0] = 0.0
return X
""", """
Y = X.copy()
Y[0] = 0.0
return X[0]
""", """
v = X[0]
v += 1
return X
""", """
v = X[0]
v = v + 1
return X
""", """
v = X[0].copy()
v *= 2
return v, X[0]
""", """
v = X[:, 0]
v[0] = 7
return X
""", """
Y = X.T
Y[0, 0] = 5
return X
""", """
Y = X.reshape(-1)
Y[0] = 5
return X
""", """
Y = X.ravel()
Y[0] = 5
return X
""", """
Y = X.flatten()
Y[0] = 5
return X
""", """
Y = np.asarray(X)
Y[0, 0] = 5
return X
""", """
Y = np.array(X)
Y[0, 0] = 5
return X
""", """
Y = X[L == L[0]]
Y[0, 0] = 5
return X
""", """
X[L == L[0]] = 0
return X
""", """
X[L == L[0], 0] = 1
return X
""", """
X[X > 0] = 0
return X
""", """
X[X > 0] *= -1
return X
""", """
X[:, 0] += 1
return X
""", """
X[0], X[-1] = X[-1], X[0]
return X
""", """
X[0], X[-1] = X[-1].copy(), X[0].copy()
return X
""", """
X[[0, -1]] = X[[-1, 0]]
return X
""", """
X -= X.mean(axis=0)
return X
""", """
X[:] = 0
return X
""", """
X[0] = X[-1]
X[-1] = 3
return X[0]
""", """
v = X[0]
X[0] = 5
return v
""", """
v = X[0, 0]
X[0, 0] = 5
return v
""", """
a = b = []
a.append(1)
return b
""", """
a = [1, 2]
b = a
b += [3]
return a
""", """
a = [1, 2]
b = a
b = b + [3]
return a
""", """
a = [1, 2]
b = a[:]
b[0] = 9
return a, b
""", """
a = [[0.0] * 2] * 2
a[0][0] = 1
return a
""", """
a = [[0.0] * 2 for _ in range(2)]
a[0][0] = 1
return a
""", """
a = [0.0] * len(X)
a[0] = 1.0
return a
""", """
a = []
for r in X:
    a.append(r[0])
return a
""", """
a = []
for r in X:
    a.append(r)
a[0][0] = 3
return X
""", """
a = []
for r in X:
    if r[0] > 0:
        a.append(r[0])
return a
""", """
a = [X[0]]
X[0] = 1
return a[0]
""", """
a = [1.0, 2.0]
a.insert(0, 5.0)
return a
""", """
a = [1.0, 2.0, 3.0]
a.pop()
return a
""", """
a = [1.0, 2.0, 3.0]
del a[0]
return a
""", """
a = [1.0, 2.0, 3.0]
a.extend([4.0])
a.reverse()
return a
""", """
a = [3.0, 1.0]
a.sort()
return a
""", """
a = (1, 2)
x, y = a
return y, x
""", """
x, y = 1, 2
x, y = y, x + y
return x, y
""", """
n = np.zeros(3)
n[1:] = 2
n[:2] += 1
return n
""", """
n = np.zeros(3, dtype=int)
n[0] = 2.7
return n
""", """
n = np.zeros(3)
n[0] = True
return n
""", """
n = np.array([1, 2, 3])
n[0] = 2.7
return n
""", """
n = np.array([1, 2, 3])
return n / 2, n * 0.5
""", """
n = np.ones((2, 3))
n[0] = [1, 2, 3]
n[:, 1] = 9
return n
""", """
n = np.ones((2, 3))
n[1] = np.arange(3)
n += np.arange(3)
return n
""", """
n = np.zeros((3, 3))
np.fill_diagonal(n, 2.0)
return n
""", """
n = X @ X.T
np.fill_diagonal(n, np.inf)
m = n.min(axis=1)
return np.where(m == np.inf, 0.0, m)
""", """
out = np.zeros(X.shape[1])
np.add(X[0], 1.0, out=out)
return out
""", """
out = X[0]
np.multiply(out, 2.0, out=out)
return X
""", """
np.add.at(X, 0, 1.0)
return X
""", """
d = {}
d[1] = 2.0
d[3] = 4.0
return list(d.values())
""", """
d = {1: 2.0}
return d.get(1), d.get(2, 5.0), 1 in d, len(d)
""", """
d = {}
for i in range(3):
    d[i] = i * i
return [d[i] for i in range(3)]
""", """
try:
    y = [1, 2][5]
except IndexError:
    y = 7
return y
""", """
try:
    y = 1 / 0
except ZeroDivisionError:
    y = 7
finally:
    z = 1
return y + z
""", """
try:
    y = 1
except ValueError:
    y = 2
else:
    y = 3
return y
""", """
if len(X) > 2:
    raise ValueError('no')
return 1
""", """
assert len(X) > 0
return 1
""", """
assert len(X) > 2
return 1
""", """
def f(a):
    return a + 1
return f(X[0])
""", """
def f(a):
    a[0] = 9
f(X)
return X
""", """
k = 2
def f(a):
    return a * k
k = 3
return f(1)
""", """
fs = [lambda: i for i in range(3)]
return [f() for f in fs]
""", """
fs = [lambda i=i: i for i in range(3)]
return [f() for f in fs]
""", """
i = 10
y = [i for i in range(3)]
return i
""", """
for i in range(3):
    pass
return i
""", """
i = 7
for i in range(len(X)):
    pass
return i
""", """
x = 5
if X[0, 0] > 0:
    x = 6
elif X[0, 0] > -1:
    x = 7
return x
""", """
x = 5
x -= 2
x *= 3
x /= 2
x //= 1
x **= 2
return x
""", """
s = np.zeros(X.shape[1])
for r in X:
    s = s + r
return s / len(X)
""", """
s = np.zeros(X.shape[1])
for r in X:
    s += r
return s
""", """
m = X[0].copy()
for i in range(1, len(X)):
    m += (X[i] - m) / (i + 1)
return m
""", """
m = {}
for i in range(len(L)):
    if L[i] not in m:
        m[L[i]] = len(m)
return len(m)
""", """
u = np.unique(L)
return np.array([np.sum(L == c) for c in u])
""", """
u = np.unique(L)
v = np.zeros((len(u), X.shape[1]))
for i, c in enumerate(u):
    v[i] = X[L == c].mean(axis=0)
return v
""", """
u = np.unique(L)
return [np.sum((X[L == c] - X[L == c].mean(axis=0)) ** 2) for c in u]
""", """
u, inv = np.unique(L, return_inverse=True)
n = np.bincount(inv)
return n
""", """
u, inv = np.unique(L, return_inverse=True)
s = np.zeros((len(u), X.shape[1]))
np.add.at(s, inv, X)
return s
""", """
u = sorted(set(L.tolist()))
return [sum(1 for l in L if l == c) for c in u]
""", """
seen = []
for l in L:
    if l not in seen:
        seen.append(l)
return len(seen)
""", """
D = np.sum((X[:, None, :] - X[None, :, :]) ** 2, axis=2)
D[np.diag_indices_from(D)] = np.inf
return np.where(np.isinf(D.min(axis=0)), 0.0, D.min(axis=0))
""", """
D = np.sum((X[:, None, :] - X[None, :, :]) ** 2, axis=-1)
return D.max()
""", """
D = X @ X.T
iu = np.triu_indices(len(X), 1)
return D[iu].sum()
""", """
D = X @ X.T
return sum(D[i, j] for i in range(len(X)) for j in range(i + 1, len(X)))
""", """
D = np.empty((2, 2))
D[:] = 3.0
return D
""", """
D = np.empty((len(X), 2))
for i in range(len(X)):
    D[i, 0] = X[i, 0]
    D[i, 1] = 1.0
return D
""", """
D = np.zeros((len(X) + 1, X.shape[1] + 1))
D[:-1, :-1] = X
D[-1, :] = 1.0
return D
""", """
D = np.zeros((len(X) + 1, X.shape[1]))
D[:len(X)] = X
D[len(X)] = X[0]
return D
""", """
D = np.zeros((len(X), X.shape[1]))
D[0, :] = X[0, :]
D[:, 0] = X[:, 0]
return D
""", """
a, b = X.shape
return a * 10 + b
""", """
y = X[0]
z = y[::-1]
z[0] = 100.0
return X
""", """
y = np.transpose(X)
y += 1
return X
""", """
y = X[0:1]
y[0, 0] = 4.0
return X
""", """
y = X[None]
y[0, 0, 0] = 4.0
return X
""", """
y = np.atleast_2d(X[0])
y[0, 0] = 4.0
return X
""", """
y = np.squeeze(X[0:1])
return np.sum(y)
""", """
y = np.diag(X.T @ X)
return y.sum()
""", """
y = list(X)
y[0][0] = 8.0
return X
""", """
y = [row for row in X]
y[0] = y[0] * 2
return X
""", """
y = X.tolist()
y[0][0] = 8.0
return X
""", """
y = np.array([X[0], X[-1]])
y[0, 0] = 8.0
return X
""", """
y = np.vstack([X, X[0]])
y[0, 0] = 8.0
return X
""", """
y = X + 0
y[0, 0] = 8.0
return X
""", """
y = +X
y[0, 0] = 8.0
return X
""", """
y = X.astype(float)
y[0, 0] = 8.0
return X
""", """
y = X.astype(float, copy=False)
y[0, 0] = 8.0
return X
""", """
y = np.where(X > 0, X, X)
y[0, 0] = 8.0
return X
""", """
y = np.broadcast_to(X[0], (2, X.shape[1]))
return y.sum()
""", """
y = np.swapaxes(X, 0, 1)
y[0, 0] = 8.0
return X
""", """
y = np.expand_dims(X, 0)
y[0, 0, 0] = 8.0
return X
""", """
y = np.reshape(X, (X.shape[1], X.shape[0]))
y[0, 0] = 8.0
return X
""", """
y = X[0].reshape(1, -1)
y[0, 0] = 8.0
return X
""", """
y = X[:, [0]]
y[0, 0] = 8.0
return X
""", """
y = X[[0]]
y += 1
return X
""", """
X[[0]] += 1
return X
""", """
X[[0, 0]] += 1
return X
""", """
X[0] += X[0]
return X
""", """
X += X.T if X.shape[0] == X.shape[1] else 0
return X
""", """
X[1:] = X[:-1]
return X
""", """
X[:-1] += X[1:]
return X
""", """
n = 0
for i in range(len(X)):
    for j in range(X.shape[1]):
        if X[i, j] > 0:
            n += 1
return n
""", """
n = 0
for i in range(len(X)):
    for j in range(X.shape[1]):
        if X[i, j] > 0:
            break
        n += 1
return n
""", """
s = 1.0
for t in X[0]:
    s *= t
return s
""", """
s = 0.0
for i in range(len(X) - 1, -1, -1):
    s = s * 0.5 + X[i, 0]
return s
""", """
s = 0.0
for i in range(0, len(X), 2):
    s += X[i, 0]
return s
""", """
s = t = 0.0
for r in X:
    s += r[0]
    t += s
return t
""", """
s, prev = 0.0, 0.0
for r in X:
    s += abs(r[0] - prev)
    prev = r[0]
return s
""", """
flag = False
for r in X:
    if r[0] > 0:
        flag = True
return flag
""", """
flag = True
for r in X:
    flag = flag and r[0] > 0
return flag
""", """
last = None
for r in X:
    if r[0] > 0:
        last = r[0]
return last
""", """
first = None
for r in X:
    if r[0] > 0 and first is None:
        first = r[0]
return first
""", """
m = -np.inf
for r in X:
    m = max(m, r[0])
return m
""", """
m = 0.0
for r in X:
    if r[0] > m:
        m = r[0]
return m
""", """
m = 0.0
for r in X:
    if r[0] >= m:
        m = r[0]
return m
""", """
out = np.zeros(len(X))
for i, r in enumerate(X):
    out[i] = r @ r
return out
""", """
out = np.zeros(len(X))
for i in range(len(X)):
    out[len(X) - 1 - i] = X[i, 0]
return out
""", """
out = np.zeros(len(X))
for i in range(len(X)):
    out[0] = X[i, 0]
return out
""", """
out = np.zeros(len(X))
for i in range(len(X)):
    out[0] += X[i, 0]
return out
""", """
out = np.zeros(len(X))
for i in range(len(X)):
    for j in range(len(X)):
        out[i] += X[j, 0]
return out
""", """
out = np.zeros(len(X))
for i in range(len(X)):
    for j in range(len(X)):
        if i != j:
            out[i] = max(out[i], X[j, 0])
return out
""", """
out = np.full(len(X), np.inf)
for i in range(len(X)):
    for j in range(len(X)):
        if j == i:
            continue
        out[i] = min(out[i], X[j, 0])
return np.where(np.isinf(out), 0.0, out)
""", """
out = []
for i in range(len(X)):
    out.append([X[i, j] for j in range(X.shape[1])])
return out
""", """
out = []
for i in range(len(X)):
    out += [X[i, 0]]
return out
""", """
out = ()
for i in range(3):
    out += (i,)
return out
""", """
x = np.float64(0.0)
y = X[0, 0] / x if X[0, 0] > 0 else 0.0
return 0.0 if np.isinf(y) else y
""", """
z = zip(X[0], X[-1])
return sum(a * b for a, b in z)
""", """
z = (t for t in X[0])
a = sum(z)
b = sum(z)
return a, b
""", """
z = zip(X[0], X[-1])
a = [p for p, q in z]
b = [q for p, q in z]
return a, b
""", """
z = map(float, X[0])
a = max(z)
return a, list(z)
""", """
z = enumerate(X[0])
n = len(list(z))
return n, len(list(z))
""", """
g = (r[0] for r in X)
X[0, 0] = 99.0
return sum(g)
""", """
r = range(len(X))
return sum(r), sum(r)
""", """
if (n := len(X)) > 2:
    return n
return -n
""", """
def acc(v, store=[]):
    store.append(v)
    return len(store)
return acc(1)
""", """
x = X[0]
x, y = x[0], x[-1]
return x - y
""", """
x = [*X[0], 1.0]
return x
""", """
def f(*a, **k):
    return len(a) + len(k)
return f(1, 2, z=3)
""", """
def f(a, /, b, *, c=1):
    return a + b * c
return f(1, 2, c=3)
""", """
return X[0, 0] if X[0, 0] > 0 else (X[0, 0] * 2 if X[0, 0] > -1 else 0.0)
""", """
a = np.array([X[0, 0] > 0, True])
return a.sum(), a.all(), a.any()
""", """
idx = np.argmin(X[:, 0])
return X[idx]
""", """
idx = np.argmin(np.sum(X ** 2, axis=1))
return idx
""", """
mask = np.ones(len(X), dtype=bool)
mask[0] = False
return X[mask]
""", """
mask = np.arange(len(X)) != 0
return X[mask].sum()
""", """
D = np.delete(X, 0, 0)
return D.sum() if len(X) > 1 else 0.0
""", """
return np.min(np.delete(X[:, 0], 0)) if len(X) > 1 else 0.0
""", """
idx = [i for i in range(len(X)) if i != 0]
return X[idx, :]
""", """
idx = np.r_[0:1, 0:1]
return X[idx]
""", """
x = 3
def g():
    nonlocal x
    x = 4
g()
return x
""", """
vals = [X[i, 0] for i in range(len(X))]
vals[0] = 0.0
return sum(vals), X[0, 0]
""", """
with np.errstate(divide='ignore', invalid='ignore'):
    y = X / 1.0
return y
""")
    return out
