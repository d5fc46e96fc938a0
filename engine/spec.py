"""Specifications: ghost statistics of the sample history, definitions of the nine indices, representation templates.

The ghost state of a stream (or of a batch) is: N samples, k clusters numbered by first appearance (stream) or by
increasing label (batch), dimension d, and for every cluster c the count n(c), the sums s(c,f) and the second moments
Q(c,f,g) of its samples, and tot(f), the sum of all samples.  Everything else is defined from these.
"""
import random
from fractions import Fraction
import numpy as np
import terms as tm
from terms import ZERO, ONE, TWO, TRUE, FALSE, num, add, sub, mul, div, inv, ite, eq, le, lt, rng, sum_, app, power, and_, not_
import prove
from norm import padd

N, K, D = tm.var("N"), tm.var("k"), tm.var("d")
LAB = tm.var("lab")
INDICES = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]


def S(L, f):
    b = tm.fresh("s")
    return sum_([b], rng(b, L), f(b))


def EXT(kind, L, f, guard=lambda b: TRUE):
    b = tm.fresh("e")
    return tm.ext(kind, [b], and_(rng(b, L), guard(b)), f(b))


def PAIRMIN(L, f):
    i, j = tm.fresh("i"), tm.fresh("j")
    return tm.ext("min", [i, j], and_(le(ZERO, i), lt(i, j), lt(j, L)), f(i, j))


class Ghost:
    """Base statistics given as term builders."""

    def __init__(self, k=K, N=N, d=D, n=None, s=None, Q=None, tot=None):
        self.k, self.N, self.d = k, N, d
        self.n = n or (lambda c: app("n", c, isint=True))
        self.s = s or (lambda c, f: app("s", c, f))
        self._Q = Q or (lambda c, f, g: app("Q", c, f, g))
        self.tot = tot or (lambda f: app("tot", f))

    # -- derived
    def Q(self, c, f, g):
        return self._Q(c, f, g)

    def v(self, c, f):
        return div(self.s(c, f), self.n(c))

    def mu(self, f):
        return div(self.tot(f), self.N)

    def q(self, c):
        return S(self.d, lambda f: self.Q(c, f, f))

    def CP(self, c):
        return S(self.d, lambda f: sub(self.Q(c, f, f), div(mul(self.s(c, f), self.s(c, f)), self.n(c))))

    def SEP(self, c):
        return mul(self.n(c), S(self.d, lambda f: power(sub(self.v(c, f), self.mu(f)), 2)))

    def D2(self, i, j):
        return S(self.d, lambda f: power(sub(self.v(i, f), self.v(j, f)), 2))

    def Ssil(self, j, i):
        """mean squared distance of the samples of cluster j to the centroid of cluster i"""
        return add(div(sub(self.q(j), mul(TWO, S(self.d, lambda f: mul(self.s(j, f), self.v(i, f))))), self.n(j)),
                   S(self.d, lambda f: power(self.v(i, f), 2)))

    def D53(self, i, j):
        return div(add(self.CP(i), self.CP(j)), add(self.n(i), self.n(j)))

    def delta(self):
        return tm.fn("rpow", num(10), div(num(-12), self.d))

    def const(self):
        return inv(tm.fn("sqrt", tm.fn("rpow", mul(TWO, tm.PI), self.d)))

    def cov(self, a, b, c):
        n = self.n(c)
        return ite(le(TWO, n), div(sub(self.Q(c, a, b), div(mul(self.s(c, a), self.s(c, b)), n)), sub(n, ONE)), ZERO)

    def sigma(self, a, b, c):
        return add(self.cov(a, b, c), ite(eq(a, b), self.delta(), ZERO))

    def rD(self, i, j):
        def A(a, b):
            return add(self.sigma(a, b, i), self.sigma(a, b, j))

        def u(f):
            return sub(self.v(i, f), self.v(j, f))
        quad = S(self.d, lambda a: S(self.d, lambda b: mul(u(a), tm.minv(self.d, A, a, b), u(b))))
        return mul(self.const(), inv(tm.fn("sqrt", tm.det(self.d, A))), tm.fn("exp", mul(num(Fraction(-1, 2)), quad)))


class GhostSingle(Ghost):
    """Same statistics; the second moments of a single-sample cluster are those of its one sample."""

    def Q(self, c, f, g):
        return ite(eq(self.n(c), ONE), mul(self.s(c, f), self.s(c, g)), self._Q(c, f, g))


class GhostAbs(Ghost):
    """Derived statistics as uninterpreted symbols with their proved facts (CP >= 0, D2 symmetric and >= 0, ...)."""
    abstract = ("v", "mu", "CP", "SEP", "D2", "Ssil", "rD", "sigma")

    def v(self, c, f):
        return app("v", c, f)

    def s(self, c, f):
        return mul(self.n(c), app("v", c, f))

    def __init__(self, k=K, N=N, d=D):
        Ghost.__init__(self, k, N, d)
        self.s = lambda c, f: mul(self.n(c), app("v", c, f))

    def mu(self, f):
        return app("mu", f)

    def CP(self, c):
        return app("CP", c)

    def SEP(self, c):
        return app("SEP", c)

    def D2(self, i, j):
        return app("D2", i, j)

    def Ssil(self, j, i):
        return app("Ssil", j, i)

    def rD(self, i, j):
        return app("rD", i, j)

    def sigma(self, a, b, c):
        return app("sigma", c, a, b)


ABS_CTX = dict(nonneg=("CP", "SEP", "D2", "Ssil"), symmetric=("Q", "D2", "rD", "sigma"), diag0=("D2",), posfuncs=("n", "rD"))


def ghost_cls(index):
    return GhostSingle if index == "rCIP" else Ghost


def first(index):
    return ghost_cls(index)(k=ONE, N=ONE, d=D, n=lambda c: ONE, s=lambda c, f: X(f), Q=lambda c, f, g: mul(X(f), X(g)), tot=lambda f: X(f))


def X(f):
    return app("x", f)


def step(index, new):
    """Ghost after sample x with label LAB: a new cluster k, or the known cluster slot(LAB)."""
    G = ghost_cls(index)()
    c0 = K if new else app("slot", LAB, isint=True)

    def at(c, a, b):
        return ite(eq(c, c0), a, b)
    if new:
        return ghost_cls(index)(k=add(K, ONE), N=add(N, ONE), d=D, n=lambda c: at(c, ONE, G.n(c)), s=lambda c, f: at(c, X(f), G.s(c, f)),
                                Q=lambda c, f, g: at(c, mul(X(f), X(g)), G.Q(c, f, g)), tot=lambda f: add(G.tot(f), X(f)))
    return ghost_cls(index)(k=K, N=add(N, ONE), d=D, n=lambda c: at(c, add(G.n(c), ONE), G.n(c)),
                            s=lambda c, f: at(c, add(G.s(c, f), X(f)), G.s(c, f)),
                            Q=lambda c, f, g: at(c, add(G.Q(c, f, g), mul(X(f), X(g))), G.Q(c, f, g)), tot=lambda f: add(G.tot(f), X(f)))


# ------------------------------------------------------------------ the nine definitions (k >= 2)

def value(index, G):
    k, d = G.k, G.d
    if index in ("CH", "WB"):
        B, W = S(k, G.SEP), S(k, G.CP)
        if index == "WB":
            return mul(k, div(W, B))
        return mul(div(B, W), div(sub(G.N, k), sub(k, ONE)))
    if index == "XB":
        return div(S(k, G.CP), mul(G.N, PAIRMIN(k, G.D2)))
    if index == "DB":
        return div(S(k, lambda i: EXT("max", k, lambda j: div(add(div(G.CP(i), G.n(i)), div(G.CP(j), G.n(j))), G.D2(i, j)),
                                      lambda j: not_(eq(i, j)))), k)
    if index == "GD43":
        return div(PAIRMIN(k, lambda i, j: tm.fn("sqrt", G.D2(i, j))), mul(TWO, EXT("max", k, lambda c: div(G.CP(c), G.n(c)))))
    if index == "GD53":
        return div(PAIRMIN(k, G.D53), mul(TWO, EXT("max", k, lambda c: div(G.CP(c), G.n(c)))))
    if index == "PS":
        nmax = EXT("max", k, G.n)

        def vbar(f):
            return div(S(k, lambda c: G.v(c, f)), k)
        beta = div(S(k, lambda c: S(d, lambda f: power(sub(G.v(c, f), vbar(f)), 2))), k)
        return S(k, lambda i: sub(div(G.n(i), nmax),
                                  tm.fn("exp", mul(num(-1), div(EXT("min", k, lambda j: G.D2(i, j), lambda j: not_(eq(i, j))), beta)))))
    if index == "cSIL":
        def sil(i):
            a = G.Ssil(i, i)
            b = EXT("min", k, lambda j: G.Ssil(j, i), lambda j: not_(eq(i, j)))
            return div(sub(b, a), tm.max2(a, b))
        return div(S(k, sil), k)
    if index == "rCIP":
        i, j = tm.fresh("i"), tm.fresh("j")
        return sum_([i, j], and_(le(ZERO, i), lt(i, j), lt(j, k)), G.rD(i, j))
    raise KeyError(index)


def denominators(index, G):
    """Quantities (all non-negative) whose positivity makes the definition of the index defined for k >= 2."""
    k, d = G.k, G.d
    if index == "CH":
        return [S(k, G.CP)]
    if index == "WB":
        return [S(k, G.SEP)]
    if index in ("XB", "DB"):
        return [PAIRMIN(k, G.D2)]
    if index in ("GD43", "GD53"):
        return [EXT("max", k, lambda c: div(G.CP(c), G.n(c)))]
    if index == "PS":
        return [div(S(k, lambda c: S(d, lambda f: power(sub(G.v(c, f), div(S(k, lambda e: G.v(e, f)), k)), 2))), k)]
    if index == "cSIL":
        return [EXT("min", k, lambda i: silmax(G, i))]
    return []


def silmax(G, i):
    return tm.max2(G.Ssil(i, i), EXT("min", G.k, lambda j: G.Ssil(j, i), lambda j: not_(eq(i, j))))


def defined_ctx(index, G, ctx):
    """The context extended by: the partition is one on which the index is defined."""
    if index == "rCIP":
        return None
    def deep(f):
        return any(u.op in ("ext", "sum") for u in tm.walk(f))
    c = ctx.extend()
    c.facts = [f for f in ctx.facts if not deep(f)]
    more = [f for f in ctx.facts if deep(f)] + [lt(ZERO, t) for t in denominators(index, G)]
    try:
        base = c
        nm = prove.Norm(c)
        more = [nm.cond(f) for f in more]       # one spelling for the same extremum or sum
    except prove.Abort:
        pass
    c = c.extend(*more)

    def inst(t):
        """Instances of the universally quantified parts at the terms that occur."""
        if len(t.args) != 3:
            return []
        i, j = t.args[1], t.args[2]
        if index in ("DB", "XB") and t is G.D2(i, j):
            return [tm.implies(and_(rng(i, G.k), rng(j, G.k), not_(eq(i, j))), lt(ZERO, t))]
        if index == "cSIL" and i is j and t is G.Ssil(i, i):
            f = lt(ZERO, silmax(G, i))
            try:
                f = prove.Norm(base).cond(f)
            except prove.Abort:
                pass
            return [tm.implies(rng(i, G.k), f)]
        return []
    c.schemas = list(c.schemas) + [inst]
    return c


def spec(index, G):
    return ite(le(G.k, ONE), ZERO, value(index, G))


# ------------------------------------------------------------------ contexts

class StreamHook:
    """sum over all clusters of n, s = N, tot."""

    def sum(self, nm, g, part):
        if len(g) != 1:
            return None
        c = g[0]
        rest = []
        lo = hi = None
        for a, e in part.items():
            b = nm.bound_of(a)
            if b is not None and c in a.fv:
                u, v, w = b
                if v is c and u is None and w == 0:
                    lo = True
                    continue
                if u is c and v is K and w == -1:
                    hi = True
                    continue
            rest.append((a, e))
        if not (lo and hi) or len(rest) != 1 or rest[0][1] != 1:
            return None
        a = rest[0][0]
        if a.op == "app" and a.args[0] == "n" and a.args[1] is c:
            return nm.atom(N)
        if a.op == "app" and a.args[0] == "s" and a.args[1] is c and c not in a.args[2].fv:
            return nm.norm(app("tot", a.args[2]))
        return None


def slot_schema(t):
    if t.args[0] in ("slot", "known") and len(t.args) == 2:
        s = app("slot", t.args[1], isint=True)
        return [tm.implies(tm.bapp("known", t.args[1]), rng(s, K))]
    return []


def stream_ctx(extra=()):
    c = prove.Ctx(facts=[le(K, N)] + list(extra), posvars=[N, K, D], posfuncs=("n",), symmetric=("Q",), hooks=[StreamHook()])
    c.posdef = [ghost_cls("rCIP")().sigma]
    c.schemas = [slot_schema]
    return c


class BatchHook:
    """L(t) = u(z(t)) with u injective; sums over the members of a cluster are n, s, Q."""

    def cond(self, nm, c):
        if c.op != "eq" or c.args[1].op != "num" or c.args[1].args[0] != 0:
            return None
        p = nm.norm(c.args[0])
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = p.items()
        if c1 + c2 != 0 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
            return None
        a, b = m1[0][0], m2[0][0]

        def ix(t):
            if t.op == "app" and t.args[0] == "u":
                return t.args[1]
            if t.op == "app" and t.args[0] == "L":
                return app("z", t.args[1], isint=True)
            return None
        x, y = ix(a), ix(b)
        if x is None or y is None:
            return None
        return nm.cond(eq(x, y))

    def sum(self, nm, g, part):
        r = StreamHook.sum(self, nm, g, part)
        if r is not None:
            return r
        if len(g) != 1:
            return None
        t = g[0]
        lo = hi = False
        cl = None
        xs = []
        for a, e in part.items():
            b = nm.bound_of(a)
            if b is not None:
                u, v, w = b
                if v is t and u is None and w == 0:
                    lo = True
                    continue
                if u is t and v is N and w == -1:
                    hi = True
                    continue
                return None
            if a.op == "ite" and a.args[0].op == "eq" and cl is None:
                p = padd(nm.norm(a.args[0].args[0]), nm.norm(a.args[0].args[1]), -1)
                z = ((app("z", t, isint=True), 1),)
                if p.get(z) in (1, -1):
                    co = p[z]
                    rest = {m: -x / co for m, x in p.items() if m != z}
                    c = nm.reify(rest)
                    if t not in c.fv:
                        cl = c
                        continue
                return None
            if a.op == "app" and a.args[0] == "X" and a.args[1] is t and t not in a.args[2].fv and e > 0:
                xs.extend([a.args[2]] * e)
                continue
            return None
        if not (lo and hi) or len(xs) > 2:
            return None
        if cl is not None:
            if not xs:
                return nm.norm(app("n", cl, isint=True))
            return nm.norm(app("s", cl, xs[0]) if len(xs) == 1 else app("Q", cl, *xs))
        if len(xs) == 1:
            return nm.norm(app("tot", xs[0]))
        return None


def z_schema(t):
    """labels are u(z(t)), u injective; every cluster has a member row(c)"""
    if t.args[0] == "z":
        return [rng(t, K)]
    if t.args[0] == "L":
        return [eq(t, app("u", app("z", t.args[1], isint=True), isint=True))]
    if t.args[0] == "row":
        return [tm.implies(rng(t.args[1], K), and_(rng(t, N), eq(app("z", t, isint=True), t.args[1])))]
    if t.args[0] == "u":
        # injectivity, stated with the inverse of u
        return [tm.implies(rng(t.args[1], K), eq(app("uinv", t, isint=True), t.args[1]))]
    return []


def batch_ctx(extra=(), kmin=1):
    c = prove.Ctx(facts=[le(K, N)] + list(extra), posvars=[N, K, D], posfuncs=("n",), symmetric=("Q",), hooks=[BatchHook()])
    c.posdef = [ghost_cls("rCIP")().sigma]
    c.schemas = [z_schema]
    c.inst = [app("row", ZERO, isint=True), app("row", ONE, isint=True)]
    return c


def abs_ctx(extra=()):
    c = prove.Ctx(facts=[le(K, N)] + list(extra), posvars=[N, K, D], **ABS_CTX)
    c.posdef = [GhostAbs().sigma]
    return c


# ------------------------------------------------------------------ concrete histories

class History:
    """A concrete labelled data set with its ghost statistics (clusters by first appearance or by label)."""

    def __init__(self, Xs, labels, by="first"):
        self.X = np.asarray(Xs, dtype=float)
        if self.X.ndim == 1:
            self.X = self.X.reshape(len(labels), -1)
        self.labels = [int(l) for l in labels]
        order = []
        for l in self.labels:
            if l not in order:
                order.append(l)
        if by == "label":
            order = sorted(order)
        self.order = order
        self.N, self.k, self.d = len(self.labels), len(order), self.X.shape[1]
        self.z = [order.index(l) for l in self.labels]
        self.n, self.s, self.Q = [], [], []
        for c in range(self.k):
            M = self.X[[t for t in range(self.N) if self.z[t] == c]]
            self.n.append(len(M))
            self.s.append(M.sum(axis=0))
            self.Q.append(M.T @ M)
        self.tot = self.X.sum(axis=0)

    def struct(self, x=None, lab=None):
        d, k = self.d, self.k
        vals = {N: self.N, K: k, D: d}
        if lab is not None:
            vals[LAB] = int(lab)

        def ok(i, L):
            return isinstance(i, (int, np.integer)) and 0 <= i < L
        v = [self.s[c] / self.n[c] for c in range(k)]
        mu = self.tot / max(self.N, 1)
        CP = [float(((self.X[[t for t in range(self.N) if self.z[t] == c]] - v[c]) ** 2).sum()) for c in range(k)]
        delta = 10.0 ** (-12.0 / d)

        def sg(c, a, b):
            r = delta if a == b else 0.0
            if self.n[c] > 1:
                r += (self.Q[c][a, b] - self.s[c][a] * self.s[c][b] / self.n[c]) / (self.n[c] - 1)
            return r

        def rD(i, j):
            A = np.array([[sg(i, a, b) + sg(j, a, b) for b in range(d)] for a in range(d)])
            u = v[i] - v[j]
            return float(np.exp(-0.5 * u @ np.linalg.inv(A) @ u) / np.sqrt((2 * np.pi) ** d * np.linalg.det(A)))
        f = {
            "n": lambda c: self.n[c] if ok(c, k) else 1,
            "s": lambda c, g: float(self.s[c][g]) if ok(c, k) and ok(g, d) else 0.0,
            "Q": lambda c, g, h: float(self.Q[c][g, h]) if ok(c, k) and ok(g, d) and ok(h, d) else 0.0,
            "tot": lambda g: float(self.tot[g]) if ok(g, d) else 0.0,
            "v": lambda c, g: float(v[c][g]) if ok(c, k) and ok(g, d) else 0.0,
            "mu": lambda g: float(mu[g]) if ok(g, d) else 0.0,
            "CP": lambda c: CP[c] if ok(c, k) else 0.0,
            "SEP": lambda c: float(self.n[c] * ((v[c] - mu) ** 2).sum()) if ok(c, k) else 0.0,
            "D2": lambda i, j: float(((v[i] - v[j]) ** 2).sum()) if ok(i, k) and ok(j, k) else 0.0,
            "Ssil": lambda j, i: float(((self.X[[t for t in range(self.N) if self.z[t] == j]] - v[i]) ** 2).sum() / self.n[j]) if ok(i, k) and ok(j, k) else 0.0,
            "rD": lambda i, j: rD(i, j) if ok(i, k) and ok(j, k) else 1.0,
            "sigma": lambda c, a, b: float(sg(c, a, b)) if ok(c, k) and ok(a, d) and ok(b, d) else 0.0,
            "x": lambda g: float(x[g]) if x is not None and ok(g, d) else 0.0,
            "known": lambda l: l in self.order,
            "slot": lambda l: self.order.index(l) if l in self.order else 0,
            "X": lambda t, g: float(self.X[t, g]) if ok(t, self.N) and ok(g, d) else 0.0,
            "L": lambda t: self.labels[t] if ok(t, self.N) else 0,
            "z": lambda t: self.z[t] if ok(t, self.N) else 0,
            "u": lambda c: self.order[c] if ok(c, k) else 10 ** 9 + c,
        }
        return prove.Struct(vals, Funcs(f), max(self.N, k, d) + 2)


class Funcs(dict):
    """Interpretation of the function symbols; unknown symbols (arbitrary contents) get pseudo-random values."""

    def __missing__(self, name):
        salt = random.Random(name).randrange(1 << 30)

        def f(*a):
            return random.Random(hash((salt,) + tuple(a))).uniform(-3, 3)
        self[name] = f
        return f


def random_history(rnd, ints=(), small=True, lab_pool=()):
    d = rnd.choice([1, 2, 2, 3])
    k = rnd.choice([1, 2, 2, 3, 3, 4])
    sizes = [rnd.choice([1, 1, 2, 2, 3, 4]) for _ in range(k)]
    big = [c for c in ints if 1 <= c <= 3000]
    r = rnd.random()
    if big and not small:
        c = rnd.choice(big) + rnd.choice([-1, 0, 0, 1])
        if r < 0.4:
            sizes[rnd.randrange(k)] = max(1, c)
        elif r < 0.6:
            sizes[rnd.randrange(k)] = max(1, c - sum(sizes[1:]))
        elif r < 0.75 and c <= 12:
            d = max(1, c)
        elif c <= 12:
            k = max(1, c)
            sizes = [rnd.choice([1, 2]) for _ in range(k)]
    labs = rnd.sample(range(-20, 40), k)
    for l in lab_pool:
        if rnd.random() < 0.5 and l not in labs:
            labs[rnd.randrange(k)] = l
    seq = [c for c in range(k) for _ in range(sizes[c])]
    rnd.shuffle(seq)
    cen = [[rnd.gauss(0, 3) for _ in range(d)] for _ in range(k)]
    Xs = [[rnd.gauss(cen[c][f], 1) for f in range(d)] for c in seq]
    if rnd.random() < 0.15:
        Xs = [[float(round(y)) for y in r] for r in Xs]
    return History(Xs, [labs[c] for c in seq])
