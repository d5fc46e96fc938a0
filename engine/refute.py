"""Counterexamples to unproved obligations.

An obligation over ghost statistics is evaluated on the statistics of concrete histories that satisfy its path
condition.  A mismatch only counts after it has been replayed on the real code: the real object is driven through
that history and its real attributes / value / exception contradict the contract.
"""
import itertools
import math
import random
import time
import numpy as np
import terms as tm
import prove
import spec
import templates as tp
from spec import N, K, D, LAB


def consts(terms):
    ints, floats = set(), set()
    for t in terms:
        for u in tm.walk(t):
            if u.op == "num":
                v = u.args[0]
                if v.denominator == 1:
                    ints.add(int(v))
                else:
                    floats.add(float(v))
    return ints, floats


def goal_terms(g):
    out = list(g.ctx.facts)
    for t in (g.lhs, g.rhs, g.cond):
        if t is not None:
            out.append(t)
    return out


def model_ints(g):
    """Integer values suggested by a z3 model of the path condition and the negated goal."""
    try:
        extra = []
        if g.cond is not None and g.cond is not tm.FALSE:
            extra = [tm.not_(g.cond)]
        s = g.ctx.solver(extra, 1500)
        if str(s.check()) != "sat":
            return []
        m = s.model()
        vals = []
        for d in m.decls():
            v = m[d]
            try:
                vals.append(int(str(v)))
            except Exception:
                pass
            if hasattr(v, "as_list"):
                for row in v.as_list():
                    for x in (row if isinstance(row, list) else [row]):
                        try:
                            vals.append(int(str(x)))
                        except Exception:
                            pass
        return vals
    except Exception:
        return []


def histories(g, rnd, count, mode):
    """Random (history, x, label) triples biased towards the constants of the obligation."""
    ints, floats = consts(goal_terms(g))
    ints |= set(model_ints(g))
    special = sorted(i for i in ints if abs(i) not in (0, 1, 2, 10, 12))
    sizes = [abs(i) for i in special if abs(i) <= 3000]
    fl = sorted(floats)
    for r in range(count):
        h = spec.random_history(rnd, sizes, small=not (sizes and r % 2), lab_pool=special if r % 3 == 2 else ())
        X, L = h.X.copy(), list(h.labels)
        if (fl or special) and r % 4 == 3:
            pool = fl + [float(s) for s in special]
            for _ in range(1 + rnd.randrange(3)):
                X[rnd.randrange(len(X)), rnd.randrange(X.shape[1])] = rnd.choice(pool) * rnd.choice([1, 1, -1, 1.5])
        if r % 5 == 4:
            X = np.round(X)
        if r % 7 == 6:
            X[:, rnd.randrange(X.shape[1])] = 0.0
        if r % 11 == 10 and len(X) > 1:
            X[rnd.randrange(len(X))] = X[rnd.randrange(len(X))]
        d = X.shape[1]
        x = [rnd.gauss(0, 3) for _ in range(d)]
        if r % 6 == 5:
            x = list(X[rnd.randrange(len(X))])
        if (fl or special) and r % 4 == 1:
            x[rnd.randrange(d)] = rnd.choice(fl + [float(s) for s in special])
        if r % 5 == 4:
            x = [float(round(v)) for v in x]
        if mode == "known":
            lab = rnd.choice(L)
            if special and r % 3 == 2:
                c = [l for l in L if l in special]
                lab = rnd.choice(c) if c else lab
        else:
            lab = rnd.choice([l for l in list(range(-25, 45)) + special + special + special if l not in L] or [max(L) + 1])
        yield X, L, x, lab


def struct_for(g, X, L, x, lab):
    case = g.case
    if case == "first":
        h = spec.History([x], [lab])
        return h, h.struct(x, lab), [list(map(float, x))], [lab]
    if case in ("new", "known"):
        h = spec.History(X, L)
        return h, h.struct(x, lab), [list(map(float, r)) for r in X] + [list(map(float, x))], L + [lab]
    by = "label" if case == "batch" or case.startswith("eval-batch") else "first"
    h = spec.History(X, L, by=by)
    return h, h.struct(), [list(map(float, r)) for r in X], L


def assignments(st, g, h, rnd, limit=60):
    """Values of the remaining free variables satisfying the path condition."""
    fv = set()
    for t in goal_terms(g):
        fv |= t.fv
    free = sorted([v for v in fv if v not in st.vals and v not in (tm.PI, tm.INF)], key=lambda v: v.id)
    facts = [f for f in g.ctx.facts]

    def ok(env, done):
        for f in facts:
            if (f.fv - frozenset(st.vals) - frozenset([tm.PI, tm.INF])) <= done and not (f.fv & frozenset(free) and not (f.fv & frozenset(free)) <= done):
                if not st.ev(f, env):
                    return False
        return True
    if not ok({}, frozenset()):
        return
    doms = []
    for v in free:
        if v.args[0].startswith("y!"):
            doms.append(sorted(set(h.labels) | {st.vals.get(LAB, 0), 3}))
        else:
            doms.append(list(range(0, min(max(h.k, h.d) + 2, 14))) if h.N > 14 else list(range(0, max(h.N, h.k, h.d) + 2)))
    out = []
    if not free:
        yield {}
        return
    for _ in range(limit * 4):
        env = {}
        good = True
        for v, dom in zip(free, doms):
            c = list(dom)
            rnd.shuffle(c)
            for val in c:
                env[v] = val
                if ok(env, frozenset(env)):
                    break
            else:
                good = False
                break
        if good:
            out.append(env)
            yield dict(env)
            if len(out) >= limit:
                return


def differs(a, b, scale):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) > 1e-6 * (abs(a) + abs(b)) + 1e-9 * scale


def find(g, seed=1, seconds=6.0, count=400, stats=None):
    """Yield (X, labels) histories on which the obligation is false in the ghost semantics."""
    rnd = random.Random(seed)
    end = time.time() + seconds
    mode = "known" if g.case == "known" else "new"
    need2 = g.case == "batch" or (g.case or "").endswith("many")
    for X, L, x, lab in histories(g, rnd, count, mode):
        if time.time() > end:
            return
        if need2 and len(set(L)) < 2:
            continue
        if (g.case or "").endswith("one"):
            L = [L[0]] * len(L)
        try:
            h, st, fX, fL = struct_for(g, X, L, x, lab)
            M = float(np.abs(h.X).max(initial=0)) + max([abs(v) for v in x] + [0])
            scale = (1 + M * M) * max(1, h.N)
            for env in assignments(st, g, h, rnd, 12):
                if stats is not None:
                    stats["hit"] += 1
                if g.cond is not None:
                    bad = not st.ev(g.cond, env)
                else:
                    bad = differs(st.ev(g.lhs, env), st.ev(g.rhs, env), scale)
                if bad:
                    yield fX, fL
                    break
                if time.time() > end:
                    return
        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError, np.linalg.LinAlgError):
            continue


# ------------------------------------------------------------------ replay on the real code

def match_obj(attrs, tpls, sample, mkG, index, path, out, scale):
    for a, T in tpls.items():
        if a not in attrs:
            if not isinstance(T, tp.Any):
                out.append("%s.%s is missing" % (path, a))
            continue
        v = attrs[a]
        nm = path + "." + a
        if isinstance(T, tp.ObjT):
            if isinstance(v, tp.Frozen):
                match_obj(v.attrs, T.attrs, sample, mkG, index, nm, out, scale)
            else:
                out.append(nm + " has another type")
        elif isinstance(T, tp.Const):
            if not isinstance(v, np.ndarray) and (type(v) is not type(T.v) or v != T.v):
                out.append("%s is %r instead of %r" % (nm, v, T.v))
        elif isinstance(T, tp.MapT):
            want = {l: i for i, l in enumerate(sample.hist.order)}
            if not isinstance(v, dict) or {int(k): int(x) for k, x in v.items()} != want:
                out.append("%s is %r instead of %r" % (nm, v, want))
        elif isinstance(T, tp.Num):
            w = sample.ev(("n", nm, id(T)), lambda: T.f(mkG), ())
            if not tp.is_num(v):
                out.append("%s is not a number" % nm)
            elif w is not None and differs(float(v), float(w), scale):
                out.append("%s is %r instead of %r" % (nm, float(v), float(w)))
        elif isinstance(T, tp.ArrT):
            try:
                A = np.asarray(v, dtype=float)
            except Exception:
                out.append(nm + " is not an array")
                continue
            h = sample.hist
            want_shape = tuple({"0": 0, "1": 1, "2": 2, "k": h.k, "d": h.d, "k-1": h.k - 1, "k+1": h.k + 1, "N": h.N}[q] for q in T.dims)
            if A.shape != want_shape:
                if 0 in want_shape and A.size == 0:
                    continue
                out.append("%s has shape %s instead of %s" % (nm, A.shape, want_shape))
                continue
            if T.f is None or T.dtype == "b":
                continue
            W = sample.ev(("a", nm, id(T)), lambda *i: T.f(mkG, *i), A.shape)
            if W is None:
                continue
            for p in np.ndindex(*A.shape):
                if differs(float(A[p]), float(W[p]), scale):
                    out.append("%s%s is %r instead of %r" % (nm, list(p), float(A[p]), float(W[p])))
                    break


def drive(V, X, L, batch=False):
    """Run the real object over the history; returns (mid attributes, attributes, value, exception, caller data kept)."""
    import contracts as C

    def go():
        with np.errstate(all="ignore"):
            obj = V.cls()
            grab = C.spy(obj)
            val, kept = None, True
            try:
                if batch:
                    A, B = np.array(X, dtype=float), np.array(L)
                    A0, B0 = A.copy(), B.copy()
                    val = obj.get_cvi(A, B)
                    kept = bool((A == A0).all() and (B == B0).all())
                else:
                    for t in range(len(L)):
                        del grab[:]
                        x = np.array(X[t], dtype=float)
                        x0 = x.copy()
                        val = obj.get_cvi(x, int(L[t]))
                        kept = kept and bool((x == x0).all())
            except Exception as e:      # noqa: BLE001
                return None, None, None, "raises %s: %s" % (type(e).__name__, str(e)[:120]), True
            return (grab[-1] if grab else None), C.snap(obj), val, None, kept
    return C.isolated(go)


def confirm(V, g, X, L):
    """Description of what the real code does wrong on this history, or None."""
    batch = g.case == "batch" or (g.case or "").startswith("eval-batch")
    if batch and len(set(L)) < 2:
        return None
    mid, att, val, exc, kept = drive(V, X, L, batch)
    if exc is not None:
        return exc
    if not kept:
        return "modifies the caller's array"
    h = spec.History(X, L, by="label" if batch else "first")
    s = tp.Sample(h, {})
    M = float(np.abs(h.X).max(initial=0))
    scale = (1 + M * M) * max(1, h.N) * 10
    if V.index == "rCIP" and min(h.n) <= h.d:
        return None           # ill-conditioned covariance: leave it to the run-time contracts
    try:
        want = s.st.ev(spec.spec(V.index, V.G))
        if h.k > 1 and any(not s.st.ev(t) > 1e-9 * (1 + M * M) for t in spec.denominators(V.index, V.G)):
            want = math.inf           # the definition divides by zero: not constrained
        if not tp.is_num(val):
            return "returns %r" % (val,)
        if h.k == 1 and float(val) != 0.0:
            return "returns %r with one cluster" % float(val)
        if math.isfinite(want) and abs(want) < 1e9 and not math.isnan(float(val)) and abs(float(val) - want) > 1e-5 * (abs(want) + abs(float(val))) + 1e-8:
            return "returns %r instead of %r" % (float(val), want)
    except (OverflowError, ZeroDivisionError, ValueError, KeyError):
        pass
    out = []
    G = V.G
    for attrs, tpls in ((mid, V.bmid if batch else V.mid), (att, V.binv if batch else V.inv)):
        if attrs is not None and tpls:
            match_obj(attrs, {a: T for a, T in tpls.items() if a != "criterion_value"}, s, G, V.index, "self", out, scale)
    return "; ".join(out[:3]) if out else None


def hint(X, L, case):
    return {"X": [[float(v) for v in r] for r in X], "labels": [int(l) for l in L]}


def refute(V, g, seconds=6.0, seed=1):
    """(description, hints) or None."""
    hints = []
    for X, L in find(g, seed, seconds):
        if len(hints) < 6 and len(L) <= 4000:
            hints.append(hint(X, L, g.case))
        c = confirm(V, g, X, L)
        if c:
            small = len(L) <= 60
            return ("on %d samples%s: %s" % (len(L), (" X=%s labels=%s" % (np.round(np.array(X), 4).tolist(), list(L))) if small and len(L) <= 12 else "", c),
                    [hint(X, L, g.case)] + hints)
        if len(hints) >= 25:
            break
    return (None, hints) if hints else None
