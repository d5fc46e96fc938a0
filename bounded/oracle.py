"""Independent definitions of the nine indices, straight from the literature.

Used only as run-time oracle when a contract is evaluated on the *real* code
(replay of counterexamples / bounded stand-in).  Nothing here reads /repo.
"""
import numpy as np

LD = np.longdouble


def partition(X, labels):
    X = np.asarray(X, dtype=LD)
    order, groups = [], {}
    for t, l in enumerate(labels):
        key = int(l)
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append(t)
    return X, [X[groups[k]] for k in order]


CP_EPS = [0.0]      # absolute rounding noise added to the scatters when tolerances are computed


def _moments(groups):
    n = np.array([len(g) for g in groups], dtype=LD)
    v = np.array([g.sum(axis=0) / LD(len(g)) for g in groups])
    cp = np.array([((g - m) ** 2).sum() for g, m in zip(groups, v)], dtype=LD)
    if CP_EPS[0]:
        cp = cp + LD(CP_EPS[0]) * n
    return n, v, cp


def _dsq(v):
    k = len(v)
    D = np.zeros((k, k), dtype=LD)
    for i in range(k):
        for j in range(k):
            D[i, j] = ((v[i] - v[j]) ** 2).sum()
    return D


def _pairs(D):
    k = len(D)
    return np.array([D[i, j] for i in range(k) for j in range(i + 1, k)], dtype=LD)


def _sep(X, n, v):
    mu = X.sum(axis=0) / LD(len(X))
    return (n * ((v - mu) ** 2).sum(axis=1)).sum()


def CH(X, G):
    n, v, cp = _moments(G)
    k = len(G)
    return (_sep(X, n, v) / cp.sum()) * (LD(len(X) - k) / LD(k - 1))


def WB(X, G):
    n, v, cp = _moments(G)
    return LD(len(G)) * cp.sum() / _sep(X, n, v)


def XB(X, G):
    n, v, cp = _moments(G)
    return cp.sum() / (LD(len(X)) * _pairs(_dsq(v)).min())


def DB(X, G):
    n, v, cp = _moments(G)
    S = cp / n
    D = _dsq(v)
    k = len(G)
    tot = LD(0)
    for i in range(k):
        tot += max((S[i] + S[j]) / D[i, j] for j in range(k) if j != i)
    return tot / LD(k)


def GD43(X, G):
    n, v, cp = _moments(G)
    return np.sqrt(_pairs(_dsq(v)).min()) / (LD(2) * (cp / n).max())


def GD53(X, G):
    n, v, cp = _moments(G)
    k = len(G)
    inter = min((cp[i] + cp[j]) / (n[i] + n[j]) for i in range(k) for j in range(i + 1, k))
    return inter / (LD(2) * (cp / n).max())


def PS(X, G):
    n, v, cp = _moments(G)
    k = len(G)
    D = _dsq(v)
    vbar = v.sum(axis=0) / LD(k)
    beta = ((v - vbar) ** 2).sum() / LD(k)
    tot = LD(0)
    for i in range(k):
        m = min(D[i, j] for j in range(k) if j != i)
        tot += n[i] / n.max() - np.exp(-m / beta)
    return tot


def cSIL(X, G, noise=None):
    n, v, cp = _moments(G)
    k = len(G)
    S = np.zeros((k, k), dtype=LD)     # S[j, i]: mean squared distance of cluster j to centroid i
    for j in range(k):
        for i in range(k):
            S[j, i] = ((G[j] - v[i]) ** 2).sum() / n[j]
    if not S.any():
        return LD(0)
    if noise is not None:       # raw second moments: absolute error of the order eps * max|x|^2
        S = S + noise((k, k))
    tot = LD(0)
    for i in range(k):
        a = S[i, i]
        b = min(S[j, i] for j in range(k) if j != i)
        tot += (b - a) / max(a, b)
    return tot / LD(k)


def csil_conditioned(X, labels):
    """No cluster's max(a_i, b_i) is lost in the rounding of the raw second moments (known_findings.txt, csil-cancellation)."""
    Xl, G = partition(np.asarray(X, dtype=float), labels)
    n, v, cp = _moments(G)
    R2 = float((np.abs(Xl).max()) ** 2)
    for i in range(len(G)):
        b = min(float(((G[j] - v[i]) ** 2).sum() / n[j]) for j in range(len(G)) if j != i)
        if max(float(cp[i] / n[i]), b) <= 1e-12 * R2:
            return False
    return True


def rCIP(X, G, noise=None):
    d = X.shape[1]
    delta = np.eye(d) * 10.0 ** (-12.0 / d)
    V, C = [], []
    for g in G:
        g = np.asarray(g, dtype=float)
        m = np.asarray(np.asarray(g, dtype=LD).sum(axis=0) / LD(len(g)), dtype=float)
        V.append(m)
        if len(g) > 1:
            r = g - m
            c = r.T @ r / (len(g) - 1) + delta
            if noise is not None:
                e = np.asarray(noise((d, d)), dtype=float)
                c = c + (e + e.T) / 2
            C.append(c)
        else:
            C.append(delta)
    tot = 0.0
    k = len(G)
    for i in range(k):
        for j in range(i + 1, k):
            A = C[i] + C[j]
            u = V[i] - V[j]
            tot += np.exp(-0.5 * u @ np.linalg.inv(A) @ u) / np.sqrt((2 * np.pi) ** d * np.linalg.det(A))
    return LD(tot)


INDEX = {f.__name__: f for f in (CH, cSIL, DB, GD43, GD53, PS, rCIP, WB, XB)}


def near_degenerate(name, Xl, G):
    """Partitions on which the definition itself is singular (coincident centroids, no scatter)
    up to the rounding of float64: the contracts do not constrain the value there."""
    R2 = float((np.abs(Xl).max()) ** 2) if Xl.size else 0.0
    n, v, cp = _moments(G)
    if R2 == 0.0:
        return True
    if name == "PS":
        if float(_pairs(_dsq(v)).max()) <= 1e-20 * R2:
            return True
    if name in ("DB", "XB"):
        if float(_pairs(_dsq(v)).min()) <= 1e-20 * R2:
            return True
    if name in ("CH", "GD43", "GD53", "XB", "WB", "DB"):
        if float((cp / n).max()) <= 1e-20 * R2 and name in ("CH", "GD43", "GD53"):
            return True
    if name == "WB" and float(_sep(Xl, n, v)) <= 1e-20 * R2:
        return True
    return False


def value(name, X, labels, perturb=0, seed=0):
    """Returns (value, tolerance).  value is nan when the definition is degenerate (0/0, x/0)."""
    X = np.asarray(X, dtype=float)
    nan = float("nan")
    with np.errstate(all="ignore"):
        Xl, G = partition(X, labels)
        if len(G) < 2:
            return 0.0, 0.0
        try:
            if near_degenerate(name, Xl, G):
                return nan, 0.0
            val = float(INDEX[name](Xl, G))
        except np.linalg.LinAlgError:
            val = nan
        tol = 1e-8 * abs(val) + (1e-11 if name in ("cSIL", "PS") else 0.0)
        if not np.isfinite(val):
            return nan, 0.0
        if name == "GD43":          # the square root amplifies the rounding of (nearly) coincident means
            tol += 1e-7 * float(np.abs(X).max()) / (2 * float((lambda m: (m[2] / m[0]).max())(_moments(G))))
        if name in ("WB", "XB", "DB", "GD53"):
            CP_EPS[0] = 1e-22 * float(np.abs(X).max()) ** 2
            try:
                tol += 10 * abs(float(INDEX[name](Xl, G)) - val)
            finally:
                CP_EPS[0] = 0.0
        if perturb:
            rng = np.random.default_rng(12345 + seed)
            sc = np.abs(X).max()
            R2 = float(sc) ** 2
            dev = 0.0
            noisy = name in ("cSIL", "rCIP")
            for r in range(2 * perturb if noisy else perturb):
                Y = X + (rng.choice([-1.0, 1.0], size=X.shape)) * (2e-14 * (sc + np.abs(X)))
                Yl, H = partition(Y, labels)
                try:
                    if noisy and r % 2:
                        w = float(INDEX[name](Yl, H, lambda shp: rng.choice([-1.0, 1.0], size=shp) * 1e-14 * R2))
                    else:
                        w = float(INDEX[name](Yl, H))
                except np.linalg.LinAlgError:
                    w = nan
                if not np.isfinite(w):
                    return nan, 0.0
                dev = max(dev, abs(w - val))
            tol += 300 * dev
            if tol > 0.02 * abs(val) + 1e-9 and dev > 1e-5 * abs(val):
                return nan, 0.0          # ill-conditioned beyond any useful comparison
        return val, tol
