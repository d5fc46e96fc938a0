"""Contracts of the legacy module (cvi.compat.v0): the default-constructed Cluster, its distances, the free helpers and the factory.

Ghost: the points P(t, f), t < M, f < D, that the cluster was fed, in order."""
import importlib
import time
import types
import terms as tm
from terms import ZERO, ONE, TRUE, FALSE, num, add, eq, le, rng, app, not_
import prove
import templates as tp
from symex import Sc, Plain, ListRec, ObjRec, Ref, Arr, Unknown, Unsupported, SymStr
from contracts import load, machine, run_case, Result, arrays_of, reach

M, D = tm.var("M"), tm.var("D")
NAMES = ("iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB")


def P(t, f):
    return app("P", t, f)


def x(f):
    return app("x", f)


def y(f):
    return app("y", f)


def bigmin(vs, g, b):
    return tm.ext("min", vs, g, b)


def bigmax(vs, g, b):
    return tm.ext("max", vs, g, b)


def dist(a, b, ord_):
    """Distance of two vectors given as functions of the feature."""
    f = tm.fresh("f")
    d = tm.sub(a(f), b(f))
    ab = tm.max2(d, tm.neg(d))
    if ord_ == 2:
        return tm.fn("sqrt", tm.sum_([f], rng(f, D), tm.mul(d, d)))
    if ord_ == 1:
        return tm.sum_([f], rng(f, D), ab)
    return bigmax([f], rng(f, D), ab)


def over(m, body, how):
    t = tm.fresh("t")
    return how([t], rng(t, m), body(t))


class CompatVerifier:
    def __init__(self):
        load()
        self.mod = importlib.import_module("cvi.compat.v0")
        self.out = []

    def ctx(self, extra=()):
        return prove.Ctx(facts=list(extra), posvars=[M, D])

    def vec(self, it, g, isint=False):
        a = it.new_arr([Plain(D)], lambda idx: g(idx[0]), "i" if isint else "f")
        it.caller_oids.add(a.oid)
        return a

    def cluster(self, it):
        """The default-constructed cluster after M >= 1 points."""
        ref = it.instantiate(self.mod.Cluster, [], {})
        r = it.rec(ref)
        known = {"len": lambda: Sc(M, "py"), "dim": lambda: Sc(D, "py"),
                 "center": lambda: it.new_arr([Plain(D)], lambda idx: tm.div(over(M, lambda t: P(t, idx[0]), tm.sum_), M), "f"),
                 "points": lambda: it.sym_list(Plain(M), lambda p, idx: P(p, idx[0]), ("arr", [Plain(D)], "f")),
                 "indicies": lambda: it.sym_list(Plain(tm.var("J")), lambda p: app("ix", p, isint=True), "sc")}
        for a in list(r.attrs):
            if a in known:
                r.attrs[a] = known[a]()
            elif a not in ("radial", "box", "bounding_box"):
                r.attrs[a] = Unknown("attribute %s is not described by the contract" % a)
        it.written.clear()
        del it.safety[:]
        return ref

    def returns(self, it, p, what, goals):
        if p.kind == "return":
            return True
        goals.append(tp.Goal(what + ": returns normally", it.ctx, cond=FALSE, note="%s: %s" % (p.kind, p.value), tag="direct"))
        return False

    def safety(self, it, what, goals):
        for kind, goal, cx, wh in it.safety:
            goals.append(tp.Goal("%s: no %s (%s)" % (what, kind, wh), cx, cond=goal, tag="direct"))

    def number(self, it, v, want, what, goals, tag="direct"):
        if not it.isnum(v):
            goals.append(tp.Goal(what, it.ctx, cond=FALSE, note="not a single number", tag=tag))
        else:
            goals.append(tp.Goal(what, it.ctx, it.num_t(v), want, tag=tag))

    def vector(self, it, v, want, what, goals, tag="direct"):
        if not isinstance(v, Arr) or len(v.axes) != 1 or not isinstance(v.axes[0], Plain):
            goals.append(tp.Goal(what, it.ctx, cond=FALSE, note="not a vector", tag=tag))
            return
        goals.append(tp.Goal(what + " (length)", it.ctx, v.axes[0].L, D, tag=tag))
        f = tm.fresh("f")
        goals.append(tp.Goal(what, it.ctx.extend(rng(f, D)), it.read(v, [f]), want(f), tag=tag))

    # ------------------------------------------------------------------ Cluster
    def add_point(self, first, isint, with_index):
        what = "Cluster.add_point[%s%s%s]" % ("first" if first else "M >= 1", ", integer samples" if isint else "", ", with index" if with_index else "")
        m1 = ONE if first else add(M, ONE)

        def P1(t, f):
            return x(f) if first else tm.ite(eq(t, M), x(f), P(t, f))

        def mean(f):
            return x(f) if first else tm.div(add(over(M, lambda t: P(t, f), tm.sum_), x(f)), m1)

        def make():
            it = machine(self.ctx([le(ZERO, tm.var("J"))]))
            ref = it.instantiate(self.mod.Cluster, [], {}) if first else self.cluster(it)
            it.written.clear()
            del it.safety[:]
            return it, {"ref": ref, "x": self.vec(it, x, isint), "q": self.vec(it, y)}

        def run(it, env):
            ref = env["ref"]
            a = [env["x"]] + ([Sc(tm.var("i"), "py")] if with_index else [])
            it.call(it.getattr(ref, "add_point"), a, {})
            env["w"] = set(it.written)
            env["obs"] = {"len": it.getattr(ref, "len"), "center": it.getattr(ref, "center")}
            env["obs"]["min"] = it.call(it.getattr(ref, "min_distance"), [env["q"]], {})
            env["obs"]["avg"] = it.call(it.getattr(ref, "avg_distance"), [env["q"]], {})
            env["obs"]["cen"] = it.call(it.getattr(ref, "center_distance"), [env["q"]], {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            o = env["obs"]
            total = dist(y, x, 2)
            if not first:
                total = add(total, over(M, lambda t: dist(y, lambda f: P(t, f), 2), tm.sum_))
            self.number(it, o["len"], m1, what + " ensures: size", goals)
            self.vector(it, o["center"], mean, what + " ensures: centre is the mean", goals)
            self.number(it, o["min"], over(m1, lambda t: dist(y, lambda f: P1(t, f), 2), bigmin), what + " ensures: minimum distance afterwards", goals)
            self.number(it, o["avg"], tm.div(total, m1), what + " ensures: average distance afterwards", goals)
            self.number(it, o["cen"], dist(mean, y, 2), what + " ensures: centre distance afterwards", goals)
            goals.append(tp.Goal(what + ": caller's arrays are not modified", it.ctx, cond=FALSE if (it.written & it.caller_oids) else TRUE, tag="direct"))
            c = o["center"]
            goals.append(tp.Goal(what + ": centre is not the caller's array", it.ctx, cond=FALSE if isinstance(c, Arr) and c.oid in it.caller_oids else TRUE, tag="rep"))
            # representation: what the next call relies on
            r = it.rec(env["ref"])
            for a, v in sorted(r.attrs.items()):
                w = "%s ensures Inv: %s" % (what, a)
                if a == "dim":
                    self.number(it, v, D, w, goals, "rep")
                elif a == "points":
                    rec = it.rec(v) if isinstance(v, Ref) else None
                    if not isinstance(rec, ListRec):
                        goals.append(tp.Goal(w, it.ctx, note="unsupported: not a list", tag="rep"))
                        continue
                    ax, content, elem, _ = it.to_sym(rec)
                    if elem == "sc" or len(elem[1]) != 1 or not isinstance(ax, Plain) or not isinstance(elem[1][0], Plain):
                        goals.append(tp.Goal(w, it.ctx, note="unsupported: not a list of vectors", tag="rep"))
                        continue
                    goals.append(tp.Goal(w + " (length)", it.ctx, ax.L, m1, tag="rep"))
                    goals.append(tp.Goal(w + " (width)", it.ctx, elem[1][0].L, D, tag="rep"))
                    t, f = tm.fresh("t"), tm.fresh("f")
                    goals.append(tp.Goal(w, it.ctx.extend(rng(t, m1), rng(f, D)), content(t, [f]), P1(t, f), tag="rep"))
                elif a in ("radial", "box"):
                    goals.append(tp.Goal(w + " unchanged", it.ctx, cond=TRUE if v is (a == "radial") else None, note="unsupported: flag changed", tag="rep"))
                elif a == "bounding_box":
                    ok = isinstance(v, Ref) and isinstance(it.rec(v), ListRec) and it.rec(v).items == []
                    goals.append(tp.Goal(w + " unchanged", it.ctx, cond=TRUE if ok else None, note="unsupported: box changed", tag="rep"))
                elif a == "indicies":
                    rec = it.rec(v) if isinstance(v, Ref) else None
                    ok = isinstance(rec, ListRec) and (rec.items is not None and all(it.isnum(q) for q in rec.items) or rec.items is None and rec.elem == "sc")
                    goals.append(tp.Goal(w + " is a list of numbers", it.ctx, cond=TRUE if ok else None, note="unsupported", tag="rep"))
            self.safety(it, what, goals)
        return run_case(what, "compat", make, run, check)

    def distance(self, which, ord_, isint=False):
        what = "Cluster.%s[%s%s]" % (which, {None: "default norm", 1: "norm 1", 2: "norm 2", "inf": "norm inf"}[ord_], ", integer query" if isint else "")
        o = 2 if ord_ is None else ord_

        def make():
            it = machine(self.ctx([le(ZERO, tm.var("J"))]))
            ref = self.cluster(it)
            return it, {"ref": ref, "q": self.vec(it, y, isint)}

        def run(it, env):
            return it.call(it.getattr(env["ref"], which), [env["q"]] + ([] if ord_ is None else [float("inf") if ord_ == "inf" else ord_]), {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            if which == "center_distance":
                want = dist(lambda f: tm.div(over(M, lambda t: P(t, f), tm.sum_), M), y, o)
            elif which == "min_distance":
                want = over(M, lambda t: dist(y, lambda f: P(t, f), o), bigmin)
            else:
                want = tm.div(over(M, lambda t: dist(y, lambda f: P(t, f), o), tm.sum_), M)
            self.number(it, p.value, want, what + " ensures: the true distance", goals)
            touched = it.written & (reach(it, env["ref"], set()) | it.caller_oids)
            goals.append(tp.Goal(what + ": nothing is modified", it.ctx, cond=FALSE if touched & it.caller_oids else None if touched else TRUE, note="unsupported: a query writes to the cluster", tag="direct"))
            self.safety(it, what, goals)
        return run_case(what, "compat", make, run, check)

    # ------------------------------------------------------------------ helpers
    def norm22(self, isint=False):
        what = "norm22" + ("[integer vector]" if isint else "")

        def make():
            it = machine(self.ctx())
            return it, {"x": self.vec(it, x, isint)}

        def run(it, env):
            return it.call_function(self.mod.norm22, [env["x"]], {})

        def check(it, env, p, goals):
            if self.returns(it, p, what, goals):
                f = tm.fresh("f")
                self.number(it, p.value, tm.sum_([f], rng(f, D), tm.mul(x(f), x(f))), what + " ensures: sum of squares", goals)
                goals.append(tp.Goal(what + ": caller's array is not modified", it.ctx, cond=FALSE if it.written & it.caller_oids else TRUE, tag="direct"))
                self.safety(it, what, goals)
        return run_case(what, "compat", make, run, check)

    def center_update(self, case, isint):
        """v = A/n for a sum A of n >= 1 points, or n = 0 and any v: the new centre is (A + x)/(n + 1)."""
        what = "cluster_center_update[%s%s]" % (case, ", integer sample" if isint else "")
        n = tm.var("n0")

        def make():
            it = machine(prove.Ctx(facts=[le(ONE, n)] if case == "n >= 1" else [], posvars=[D]))
            v = self.vec(it, lambda f: tm.div(app("A", f), n) if case == "n >= 1" else app("v0", f))
            return it, {"v": v, "x": self.vec(it, x, isint)}

        def run(it, env):
            return it.call_function(self.mod.cluster_center_update, [env["x"], env["v"], Sc(n if case == "n >= 1" else ZERO, "py")], {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            if not isinstance(p.value, tuple) or len(p.value) != 2:
                goals.append(tp.Goal(what + ": returns centre and size", it.ctx, cond=FALSE, note="not a pair", tag="direct"))
                return
            v, m = p.value
            n1 = add(n, ONE) if case == "n >= 1" else ONE
            self.number(it, m, n1, what + " ensures: size", goals)
            self.vector(it, v, lambda f: tm.div(add(app("A", f), x(f)), n1) if case == "n >= 1" else x(f), what + " ensures: running mean", goals)
            goals.append(tp.Goal(what + ": caller's arrays are not modified", it.ctx, cond=FALSE if it.written & it.caller_oids else TRUE, tag="direct"))
            self.safety(it, what, goals)
        return run_case(what, "compat", make, run, check)

    # ------------------------------------------------------------------ factory
    def factory(self, name):
        what = "iCVI[%s]" % (name or "any other name")

        def make():
            if name:
                return machine(self.ctx()), {}
            t = tm.var("name")
            return machine(self.ctx([not_(eq(t, SymStr.code(s))) for s in NAMES])), {"t": t}

        def run(it, env):
            if name is None:
                return it.call_function(self.mod.iCVI, [SymStr(env["t"])], {})
            a = it.call_function(self.mod.iCVI, [name], {})
            b = it.call_function(self.mod.iCVI, [name], {})
            return a, b

        def check(it, env, p, goals):
            if name is None:
                ok = p.kind == "raise" and isinstance(p.value.cls, type) and issubclass(p.value.cls, ValueError)
                goals.append(tp.Goal(what + ": raises ValueError", it.ctx, cond=TRUE if ok else FALSE, note="%s: %s" % (p.kind, p.value), tag="direct"))
                return
            if not self.returns(it, p, what, goals):
                return
            cls = getattr(self.mod, name)
            a, b = p.value
            ok = all(isinstance(v, Ref) and isinstance(it.rec(v), ObjRec) and it.rec(v).cls is cls for v in (a, b))
            goals.append(tp.Goal(what + ": an object of the named class", it.ctx, cond=TRUE if ok else FALSE, note="other result", tag="direct"))
            if ok:
                shared = reach(it, a, set()) & reach(it, b, set())
                goals.append(tp.Goal(what + ": two calls share nothing", it.ctx, cond=FALSE if shared else TRUE, note="objects from two calls share state", tag="direct"))
        return run_case(what, "compat", make, run, check)

    def results(self):
        todo = []
        for first in (True, False):
            for isint in (False, True):
                todo.append((self.add_point, (first, isint, False)))
            todo.append((self.add_point, (first, False, True)))
        for w in ("min_distance", "avg_distance", "center_distance"):
            for o in (None, 2, 1, "inf"):
                todo.append((self.distance, (w, o)))
            todo.append((self.distance, (w, None, True)))
        todo += [(self.norm22, ()), (self.norm22, (True,))]
        for c in ("n >= 1", "n = 0"):
            todo += [(self.center_update, (c, False)), (self.center_update, (c, True))]
        for n in NAMES + (None,):
            todo.append((self.factory, (n,)))
        out = []
        for f, a in todo:
            try:
                out.append(f(*a))
            except Exception as e:      # noqa: BLE001
                r = Result("%s%r" % (f.__name__, a), "compat")
                r.error = "%s: %s" % (type(e).__name__, e)
                out.append(r)
        return out


def run(budget, tier, discharge, cache):
    deadline = time.time() + budget
    V = CompatVerifier()
    obs, bounded, funcs = [], [], set()
    for r in V.results():
        funcs |= r.functions
        if r.error:
            bounded.append("%s (%s)" % (r.name, r.error))
            obs.append({"name": r.name + ": within reach", "status": "unknown", "backend": "", "time": 0, "detail": "outside the verifier's reach: " + r.error, "tag": "reach", "function": r.name})
        for g in r.goals:
            left = deadline - time.time()
            ok, how, sec, detail = discharge(g, min(60 if tier == "quick" else 240, left), cache) if left > 3 else (None, "", 0.0, "time budget exhausted")
            obs.append({"name": g.name, "status": "proved" if ok else "unknown" if ok is None else "failed", "backend": how, "time": sec, "detail": detail, "tag": g.tag, "function": r.name})
            if ok is None:
                bounded.append("%s (%s)" % (r.name, detail))
    return {"index": "compat", "obligations": obs, "functions": sorted(funcs), "bounded": bounded, "error": None, "notes": [], "invariant": {
        "len": "M", "center": "mean of the M points", "points": "the M points in order", "dim": "D", "radial": "True", "box": "False"}}
