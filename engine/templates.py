"""Representation invariants: which attribute holds which ghost quantity.

The invariant of a class is found by running the real code on sample histories and matching every attribute against
a library of symbolic quantities (shape and contents).  The result is only a *candidate*: that it is established by
the constructor and preserved by every update is what the obligations prove.
"""
import random
import types
import numpy as np
import terms as tm
from terms import ZERO, ONE, TWO, TRUE, FALSE, num, add, sub, mul, div, ite, eq, le, lt, rng, app, and_, not_
import spec
from spec import S, N, K, D
from symex import (Sc, Plain, Filt, Buf, ListRec, DictRec, SymMap, ObjRec, Ref, Arr, Unknown, Unsupported)

DIMS = {"0": lambda G: ZERO, "1": lambda G: ONE, "k": lambda G: G.k, "d": lambda G: G.d, "k-1": lambda G: sub(G.k, ONE),
        "k+1": lambda G: add(G.k, ONE), "N": lambda G: G.N, "2": lambda G: TWO}


def up(f):
    return lambda G, i, j: ite(lt(i, j), f(G)(i, j), ZERO)


def low(f):
    return lambda G, i, j: ite(lt(j, i), f(G)(i, j), ZERO)


def off(f):
    return lambda G, i, j: ite(eq(i, j), ZERO, f(G)(i, j))


def sq(f):
    return lambda G, i, j: tm.fn("sqrt", f(G)(i, j))


LIB = {
    (): {
        "N": lambda G: G.N, "k": lambda G: G.k, "d": lambda G: G.d, "rCIP constant": lambda G: G.const(), "rCIP delta": lambda G: G.delta(),
        "W": lambda G: S(G.k, G.CP), "B": lambda G: S(G.k, G.SEP), "N-k": lambda G: sub(G.N, G.k),
    },
    ("k",): {
        "n": lambda G, c: G.n(c), "CP": lambda G, c: G.CP(c), "CP/n": lambda G, c: div(G.CP(c), G.n(c)), "q": lambda G, c: G.q(c),
        "q/n": lambda G, c: div(G.q(c), G.n(c)), "SEP": lambda G, c: G.SEP(c), "|v|^2": lambda G, c: S(G.d, lambda f: tm.power(G.v(c, f), 2)),
        "SEP/n": lambda G, c: div(G.SEP(c), G.n(c)),
    },
    ("d",): {
        "mu": lambda G, f: G.mu(f), "tot": lambda G, f: G.tot(f), "vbar": lambda G, f: div(S(G.k, lambda c: G.v(c, f)), G.k),
    },
    ("k", "d"): {
        "v": lambda G, c, f: G.v(c, f), "s": lambda G, c, f: G.s(c, f),
    },
    ("d", "k"): {
        "v^T": lambda G, f, c: G.v(c, f), "s^T": lambda G, f, c: G.s(c, f),
    },
    ("k", "k"): {
        "D2": lambda G, i, j: G.D2(i, j), "D2 upper": up(lambda G: G.D2), "D2 lower": low(lambda G: G.D2),
        "dist": lambda G, i, j: ite(eq(i, j), ZERO, tm.fn("sqrt", G.D2(i, j))),
        "dist upper": lambda G, i, j: ite(lt(i, j), tm.fn("sqrt", G.D2(i, j)), ZERO),
        "dist lower": lambda G, i, j: ite(lt(j, i), tm.fn("sqrt", G.D2(i, j)), ZERO),
        "D53": off(lambda G: G.D53), "D53 upper": up(lambda G: G.D53), "D53 lower": low(lambda G: G.D53), "D53 full": lambda G, i, j: G.D53(i, j),
        "S": lambda G, j, i: G.Ssil(j, i), "S^T": lambda G, i, j: G.Ssil(j, i),
        "rD": off(lambda G: G.rD), "rD upper": up(lambda G: G.rD), "rD lower": low(lambda G: G.rD),
        "rD full": lambda G, i, j: G.rD(i, j),
    },
    ("d", "d"): {
        "delta I": lambda G, a, b: ite(eq(a, b), G.delta(), ZERO), "I": lambda G, a, b: ite(eq(a, b), ONE, ZERO),
    },
    ("d", "d", "k"): {
        "sigma": lambda G, a, b, c: G.sigma(a, b, c), "cov": lambda G, a, b, c: G.cov(a, b, c),
    },
    ("k", "d", "d"): {
        "sigma'": lambda G, c, a, b: G.sigma(a, b, c), "cov'": lambda G, c, a, b: G.cov(a, b, c),
        "Q": lambda G, c, a, b: G.Q(c, a, b),
    },
}
HEAVY = {"rD", "rD upper", "rD lower", "rD full"}


# ------------------------------------------------------------------ template objects

class Tpl:
    alias = False       # may be (a view of) an array owned by the caller

    def describe(self):
        return type(self).__name__


class Const(Tpl):
    def __init__(self, v):
        self.v = v

    def describe(self):
        return "= %r" % (self.v,)


class Num(Tpl):
    def __init__(self, name, f, kind):
        self.name, self.f, self.kind = name, f, kind

    def describe(self):
        return "= " + self.name


class ArrT(Tpl):
    """container 'arr' | 'list' | 'list2' (list of rows)"""
    maybe_int = False       # the array may have an integer dtype (then in-place stores truncate)
    int_now = False

    def __init__(self, dims, name, f, dtype, cont="arr", kind="any"):
        self.dims, self.name, self.f, self.dtype, self.cont, self.kind = dims, name, f, dtype, cont, kind

    def describe(self):
        return "%s[%s] = %s" % (self.cont, ",".join(self.dims), self.name)


class MapT(Tpl):
    def describe(self):
        return "dict: label -> internal index (dense, by first appearance)"


class ObjT(Tpl):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def describe(self):
        return "%s{%s}" % (self.cls.__name__, ", ".join("%s %s" % (k, v.describe()) for k, v in sorted(self.attrs.items())))


class Any(Tpl):
    """No assumption on the contents."""

    def __init__(self, why, kind=None):
        self.why = why
        self.kind = kind      # 'num' | 'sized' (a number or an array with no axis longer than k + d + 1) | None

    def describe(self):
        return "unconstrained%s (%s)" % (", of size bounded by k and d" if self.kind == "sized" else "", self.why)


def small(v, h):
    """The concrete counterpart of Any(kind='sized')."""
    if v is None or is_num(v) or isinstance(v, (bool, np.bool_)):
        return True
    if isinstance(v, list):
        return len(v) <= h.k + h.d + 1 and all(is_num(x) for x in v)
    return isinstance(v, np.ndarray) and v.dtype.kind in "iufb" and v.ndim <= 3 and all(n <= h.k + h.d + 1 for n in v.shape)


# ------------------------------------------------------------------ sampling

class Sample:
    def __init__(self, hist, attrs):
        self.hist = hist
        self.attrs = attrs
        self.st = hist.struct()
        self.cache = {}

    def ev(self, key, term_f, shape):
        if key not in self.cache:
            idx = [tm.var("@%d" % i) for i in range(len(shape))]
            t = term_f(*idx)
            out = np.zeros(shape)
            try:
                for p in np.ndindex(*shape):
                    out[p] = self.st.ev(t, dict(zip(idx, p)))
            except Exception:
                out = None
            self.cache[key] = out
        return self.cache[key]


def freeze(v, depth=0):
    """Copy of an attribute value that later calls cannot change."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [freeze(x, depth + 1) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x, depth + 1) for k, x in v.items()}
    if hasattr(v, "__dict__") and type(v).__module__.startswith("cvi") and depth < 4:
        return Frozen(type(v), {k: freeze(x, depth + 1) for k, x in v.__dict__.items()})
    return v


class Frozen:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


def dims_of(shape, samples_shapes, hists):
    """Symbolic dimensions consistent with every sample."""
    nd = len(shape)
    out = []
    for p in range(nd):
        c = []
        for name in ("0", "1", "2", "k", "d", "k-1", "k+1", "N"):
            def val(h):
                return {"0": 0, "1": 1, "2": 2, "k": h.k, "d": h.d, "k-1": h.k - 1, "k+1": h.k + 1, "N": h.N}[name]
            if all(sh[p] == val(h) for sh, h in zip(samples_shapes, hists)):
                c.append(name)
        out.append(c)
    if any(not c for c in out):
        return None
    return tuple(c[0] for c in out)


def close(a, b):
    if a is None or a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= 1e-6 * (1e-3 + np.abs(a) + np.abs(b))))


def is_num(v):
    return isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_))


def infer(index, samples, mkG):
    """{attribute: Tpl} for a list of Sample (same phase, same mode)."""
    names = set()
    for s in samples:
        names |= set(s.attrs)
    out = {}
    for a in sorted(names):
        if not all(a in s.attrs for s in samples):
            out[a] = Any("present on some objects only")
            continue
        vals = [s.attrs[a] for s in samples]
        out[a] = T = infer_value(index, a, vals, samples, mkG)
        if isinstance(T, Any) and T.kind is None and all(small(v, s.hist) for v, s in zip(vals, samples)):
            T.kind = "sized"
    return out


def infer_value(index, a, vals, samples, mkG):
    v0 = vals[0]
    hists = [s.hist for s in samples]
    if all(isinstance(v, Frozen) for v in vals) and len({v.cls for v in vals}) == 1:
        sub_ = [Sample.__new__(Sample) for _ in vals]
        for q, s, v in zip(sub_, samples, vals):
            q.hist, q.attrs, q.st, q.cache = s.hist, v.attrs, s.st, s.cache
        return ObjT(vals[0].cls, infer(index, sub_, mkG))
    if all(isinstance(v, dict) for v in vals):
        if all({int(k): int(x) for k, x in v.items()} == {l: i for i, l in enumerate(h.order)} if all(is_num(x) for x in v.values()) else False
               for v, h in zip(vals, hists)):
            return MapT()
        if all(not v for v in vals):
            return Const({})
        return Any("dict")
    if all(v is None or isinstance(v, (bool, np.bool_, str)) for v in vals):
        if all(type(v) is type(v0) and v == v0 for v in vals):
            return Const(v0)
        return Any("varies")
    if all(is_num(v) for v in vals):
        kinds = {"np" if isinstance(v, np.number) else "py" for v in vals}
        kind = kinds.pop() if len(kinds) == 1 else "any"
        if all(v == v0 for v in vals) and not (a.endswith("criterion_value")):
            isint = all(isinstance(v, (int, np.integer)) for v in vals)
            return Num("%r" % v0, lambda G, v0=v0: num(repr(float(v0)) if not isint else int(v0)), kind) if np.isfinite(float(v0)) else Any("inf/nan", "num")
        for name, f in list(LIB[()].items()) + [("value", lambda G: spec.spec(index, G))]:
            if all(close(s.ev(("sc", name), lambda f=f: f(mkG), ()), np.array(float(v))) for s, v in zip(samples, vals)):
                return Num(name, f, kind)
        return Any("no matching quantity", "num")
    if all(isinstance(v, np.ndarray) for v in vals) and len({v.ndim for v in vals}) == 1:
        if v0.ndim == 0:
            return Any("0-d array")
        return infer_arr(index, a, vals, samples, mkG, "arr", "np")
    if all(isinstance(v, list) for v in vals):
        if all(not v for v in vals):
            return ArrT(("0",), "empty", lambda G, i: ZERO, "f", "list", "py")
        if all(all(is_num(x) for x in v) for v in vals):
            ks = {"np" if isinstance(x, np.number) else "py" for v in vals for x in v}
            kind = ks.pop() if len(ks) == 1 else "any"
            isint = all(isinstance(x, (int, np.integer)) for v in vals for x in v)
            return infer_arr(index, a, [np.array(v, dtype=int if isint else float) for v in vals], samples, mkG, "list", kind if isint else "any")
        if all(all(isinstance(x, np.ndarray) for x in v) for v in vals):
            try:
                st = [np.array(v) for v in vals]
            except ValueError:
                return Any("ragged list")
            if len({x.ndim for x in st}) == 1 and all(x.dtype != object for x in st):
                return infer_arr(index, a, st, samples, mkG, "listarr", "np")
        return Any("list of other objects")
    return Any("mixed types")


def infer_arr(index, a, vals, samples, mkG, cont, kind):
    hists = [s.hist for s in samples]
    dims = dims_of(vals[0].shape, [v.shape for v in vals], hists)
    dtype = "i" if all(v.dtype.kind in "iu" for v in vals) else ("b" if all(v.dtype.kind == "b" for v in vals) else "f")
    if dims is None:
        return Any("array of unrecognised shape")
    if any(v.dtype.kind not in "iufb" for v in vals):
        return Any("array of dtype object")
    fv = [np.asarray(v, dtype=float) for v in vals]
    if all(v.size == 0 for v in fv):
        return ArrT(dims, "empty", lambda G, *i: ZERO, dtype, cont, kind)
    if all((np.abs(v) <= 1e-9 * (1 + np.abs(s.hist.X).max() ** 2) * max(1, s.hist.N)).all() for v, s in zip(fv, samples)) and dtype != "b":
        return ArrT(dims, "0", lambda G, *i: ZERO, dtype, cont, kind)
    c0 = fv[0].ravel()[0]
    if all((v == c0).all() for v in fv if v.size) and dtype != "b":
        return ArrT(dims, repr(c0), lambda G, *i, c0=c0: num(repr(float(c0))) if float(c0) != int(c0) else num(int(c0)), dtype, cont, kind)
    for name, f in LIB.get(dims, {}).items():
        if name in HEAVY and index != "rCIP":
            continue
        if all(close(s.ev((dims, name), lambda *i, f=f: f(mkG, *i), v.shape), v) for s, v in zip(samples, fv)):
            return ArrT(dims, name, f, dtype, cont, kind)
    return ArrT(dims, "?" + a, None, dtype, cont, kind)


# ------------------------------------------------------------------ symbolic states

def build(it, T, G, name, mp=None):
    """Allocate a symbolic value described by template T at ghost G."""
    if isinstance(T, Const):
        if isinstance(T.v, dict):
            return Ref(it.st.alloc(DictRec(items={})))
        return T.v
    if isinstance(T, Num):
        t = T.f(G)
        return Sc(t, T.kind)
    if isinstance(T, MapT):
        return Ref(it.st.alloc(DictRec(sym=mp)))
    if isinstance(T, ObjT):
        ref = Ref(it.st.alloc(ObjRec(T.cls, {})))
        it.rec(ref).attrs.update({a: build(it, x, G, name + "." + a, mp) for a, x in T.attrs.items()})
        return ref
    if isinstance(T, ArrT):
        axes = [Plain(DIMS[x](G)) for x in T.dims]
        isint = T.dtype == "i"
        if T.f is None:
            if T.dtype == "b":
                def content(idx):
                    return tm.bapp("any!" + name, *idx)
            else:
                def content(idx):
                    return app("any!" + name, *idx, isint=isint)
        else:
            def content(idx):
                return T.f(G, *idx)
        if T.cont == "arr":
            a = it.new_arr(axes, content, "i" if T.int_now else T.dtype)
            if T.alias:
                it.caller_oids.add(a.oid)
            return a
        if T.cont == "list":
            if T.dims == ("0",):
                return it.new_list([])
            return it.sym_list(axes[0], lambda i: content([i]), "sc", T.kind)
        return it.sym_list(axes[0], lambda i, rest: content([i] + list(rest)), ("arr", axes[1:], T.dtype), "any")
    if isinstance(T, Any):
        if T.kind == "num":
            return Sc(app("any!" + name), "any")
        return Unknown("%s: %s" % (name, T.why), T.kind == "sized")
    raise TypeError(T)


def install(it, ref, cls, tpls, G, mp, name="self"):
    r = it.rec(ref)
    r.attrs = {a: build(it, T, G, name + "." + a, mp) for a, T in tpls.items()}


class Goal:
    """Obligation: lhs == rhs (terms) or a condition, under ctx."""

    def __init__(self, name, ctx, lhs=None, rhs=None, cond=None, note="", tag="state", attr=None):
        self.name, self.ctx, self.lhs, self.rhs, self.cond, self.note = name, ctx, lhs, rhs, cond, note
        self.tag = tag            # state | value | safety | returns | frame | retain | foreign | shape | refuse | requires
        self.defined = None       # (index, ghost): the goal is only claimed where the index is defined
        self.attr = attr          # dotted attribute the goal is about
        self.case = None          # contract case (how to sample it)
        self.phase = None         # which template set the goal belongs to


def sized(it, v, G, name, goals, what):
    """v is a number or an array none of whose axes is longer than k + d + 1."""
    if it.isnum(v) or v is None or isinstance(v, (bool, np.bool_, int, float)) or (isinstance(v, Unknown) and v.sized):
        return
    lens = None
    if isinstance(v, Arr):
        lens = [x.length() for x in it.st.heap[v.oid].axes]
    elif isinstance(v, Ref) and isinstance(it.rec(v), ListRec):
        r = it.rec(v)
        if r.items is not None and all(it.isnum(x) for x in r.items):
            lens = [num(len(r.items))]
        elif r.items is None and r.elem == "sc":
            lens = [r.axis.length()]
    if lens is None or len(lens) > 3:
        goals.append(Goal("%s: %s has bounded size" % (what, name), it.ctx, note="unsupported: size of a %s" % type(v).__name__, attr=name))
        return
    for p, t in enumerate(lens):
        goals.append(Goal("%s: %s has bounded size (axis %d)" % (what, name, p), it.ctx, cond=tm.le(it.simp(t), add(G.k, G.d, ONE)), attr=name))


def compare(it, v, T, G, name, mp, goals, what):
    """Obligations for: symbolic value v satisfies template T at ghost G."""
    def bad(msg):
        goals.append(Goal("%s: %s" % (what, name), it.ctx, cond=FALSE, note=msg, attr=name))

    def eqn(a, b, ctx=None, sfx=""):
        goals.append(Goal("%s: %s%s" % (what, name, sfx), ctx or it.ctx, a, b, attr=name))
    if isinstance(T, Any):
        if T.kind == "num" and not it.isnum(v):
            bad("not a number")
        elif T.kind == "sized":
            sized(it, v, G, name, goals, what)
        return
    if isinstance(T, Const):
        if isinstance(T.v, dict):
            ok = isinstance(v, Ref) and isinstance(it.rec(v), DictRec) and it.rec(v).items == {}
            if not ok:
                bad("expected an empty dict")
            return
        if isinstance(v, Sc) and isinstance(T.v, (bool, np.bool_)):
            goals.append(Goal("%s: %s" % (what, name), it.ctx, cond=v.t if T.v else not_(v.t), attr=name))
            return
        if isinstance(v, (Sc, Arr, Ref, Unknown)) or type(v) is not type(T.v) or v != T.v:
            bad("expected %r" % (T.v,))
        return
    if isinstance(T, Num):
        if not it.isnum(v):
            return bad("expected a number, found %s" % type(v).__name__)
        eqn(it.num_t(v), T.f(G))
        return
    if isinstance(T, MapT):
        if not (isinstance(v, Ref) and isinstance(it.rec(v), DictRec)):
            return bad("expected a dict")
        r = it.rec(v)
        y = tm.fresh("y")
        has, val, size = mp.has(y), mp.val(y), mp.size
        if r.sym is not None:
            h2, v2, s2 = r.sym.has(y), r.sym.val(y), r.sym.size
        else:
            items = [(it.num_t(k), it.num_t(x)) for k, x in r.items.items()]
            h2 = tm.or_(*[eq(y, k) for k, _ in items])
            v2 = ZERO
            for k, x in items:
                v2 = ite(eq(y, k), x, v2)
            s2 = num(len(items))
        goals.append(Goal("%s: %s keys" % (what, name), it.ctx, cond=eq(has, h2), attr=name))
        eqn(v2, val, it.ctx.extend(has), " values")
        eqn(s2, size, None, " size")
        return
    if isinstance(T, ObjT):
        if not (isinstance(v, Ref) and isinstance(it.rec(v), ObjRec) and it.rec(v).cls is T.cls):
            return bad("expected a %s" % T.cls.__name__)
        return compare_obj(it, v, T.attrs, G, name, mp, goals, what)
    # arrays
    try:
        if isinstance(v, Unknown):
            return bad("unknown value")
        if T.cont == "arr":
            if not isinstance(v, Arr):
                return bad("expected an array")
        elif not (isinstance(v, Ref) and isinstance(it.rec(v), ListRec)):
            return bad("expected a list")
        axes, rd, dt = it.as_array(v)
    except Unsupported as e:
        goals.append(Goal("%s: %s" % (what, name), it.ctx, note="unsupported: %s" % e, attr=name))
        return
    if len(axes) != len(T.dims):
        if T.cont != "arr" and "0" in T.dims[:1]:
            pass
        else:
            return bad("expected %d dimensions, found %d" % (len(T.dims), len(axes)))
    ctx = it.ctx
    idx = []
    for p, (ax, dim) in enumerate(zip(axes, T.dims)):
        L = DIMS[dim](G)
        if not isinstance(ax, Plain):
            goals.append(Goal("%s: %s" % (what, name), it.ctx, note="unsupported: filtered axis", attr=name))
            return
        eqn(ax.L, L, None, " length of axis %d" % p)
        i = tm.fresh("q")
        idx.append(i)
        ctx = ctx.extend(rng(i, L))
    if T.dtype == "f" and dt == "i" and T.cont == "arr" and not T.alias and not T.maybe_int:
        bad("integer array where the invariant has a floating-point array")
        goals[-1].tag = "dtype"
    if T.f is None:
        return
    if T.dtype == "b":
        return
    eqn(it.as_num(rd(idx)), T.f(G, *idx), ctx)


def compare_obj(it, ref, tpls, G, name, mp, goals, what):
    r = it.rec(ref)
    for a, T in sorted(tpls.items()):
        if a not in r.attrs:
            if isinstance(T, Any):
                continue
            goals.append(Goal("%s: %s.%s" % (what, name, a), it.ctx, cond=FALSE, note="attribute missing", attr=name + "." + a))
            continue
        compare(it, r.attrs[a], T, G, name + "." + a, mp, goals, what)
    for a in sorted(set(r.attrs) - set(tpls)):
        if not isinstance(r.attrs[a], (Sc, int, float, bool, str, type(None))):
            goals.append(Goal("%s: %s.%s" % (what, name, a), it.ctx, note="unsupported: attribute not covered by the invariant", attr=name + "." + a))
