"""Contracts of the real functions and the obligations they generate."""
import functools
import os
import random
import sys
import time
import types
import numpy as np
import terms as tm
from terms import ZERO, ONE, TWO, TRUE, FALSE, num, add, sub, eq, le, lt, rng, app, and_, not_, ite
import prove
import spec
import templates as tp
from spec import N, K, D, LAB
from symex import (Sc, Plain, Filt, Buf, ListRec, DictRec, SymMap, ObjRec, Ref, Arr, Unknown, Opaque, Unsupported, PyRaise, ForeignWrite, Method)
from npmodel import NpMachine, explore, Path

REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import cvi
    return cvi


def get_class(index):
    cvi = load()
    import importlib
    c = getattr(cvi, index, None)
    if not isinstance(c, type):
        c = getattr(importlib.import_module("cvi.modules." + index), index)
    return c


# ------------------------------------------------------------------ concrete sampling

def isolated(fn):
    """fn() in a forked child, so that state shared between objects cannot leak from one sampled history to the next."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except Exception as e:      # noqa: BLE001
                out = (False, "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return fn()             # not transferable: run it here
    ok, val = pickle.loads(data)
    if not ok:
        raise SampleError(val)
    return val


class SampleError(Exception):
    pass


ROLES = {"inc": "_param_inc", "batch": "_param_batch", "eval": "_evaluate"}


@functools.lru_cache(None)
def find_roles(cls):
    """Names of the update and evaluation methods (their usual names, else found by tracing calls of get_cvi)."""
    out = dict(ROLES)

    def has(name):
        return any(isinstance(c.__dict__.get(name), types.FunctionType) for c in cls.__mro__)
    if all(has(m) for m in out.values()):
        return out

    def traced(batch):
        obj, calls = cls(), []
        X, L = np.array([[0.0, 1.0], [2.0, 3.5], [1.0, 0.5]]), np.array([1, 2, 1])

        def prof(fr, ev, arg):
            if ev == "call" and fr.f_back is not None and fr.f_back.f_code.co_name == "get_cvi":
                co = fr.f_code
                if co.co_argcount and fr.f_locals.get(co.co_varnames[0]) is obj:
                    calls.append((co.co_name, co.co_argcount))
        if not batch:
            obj.get_cvi(X[0], 1)
        sys.setprofile(prof)
        try:
            obj.get_cvi(X, L) if batch else obj.get_cvi(X[1], 2)
        finally:
            sys.setprofile(None)
        return calls
    try:
        for role, batch in (("inc", False), ("batch", True)):
            c = isolated(lambda: traced(batch))
            up = [n for n, k in c if k == 3 and has(n)]
            ev = [n for n, k in c if k == 1 and has(n)]
            if len(up) == 1:
                out[role] = up[0]
            if c and ev and c[-1][0] == ev[-1]:
                out["eval"] = ev[-1]
    except Exception:       # noqa: BLE001
        return dict(ROLES)
    return out


def snap(obj):
    return {q: tp.freeze(v) for q, v in obj.__dict__.items() if not getattr(v, "_is_spy", False)}


def spy(obj):
    """Record the attributes every time the object's own evaluation method starts."""
    grab = []
    name = find_roles(type(obj))["eval"]
    if callable(getattr(obj, name, None)):
        real = getattr(obj, name)

        def wrapped(*a, **kw):
            grab.append(snap(obj))
            return real(*a, **kw)
        wrapped._is_spy = True
        setattr(obj, name, wrapped)
    return grab


def sample_stream(cls, rnd, count=14):
    inv, mid = [], []
    with np.errstate(all="ignore"):
        for r in range(count):
            d = [1, 2, 3, 2, 4][r % 5]
            k = [2, 3, 1, 4, 3, 2][r % 6]
            n = k + rnd.randrange(0, 9)
            seq = list(range(k)) + [rnd.randrange(k) for _ in range(n - k)]
            if r % 2:
                rnd.shuffle(seq)
            labs = rnd.sample(range(-9, 30), k)
            cen = [[rnd.gauss(0, 3) for _ in range(d)] for _ in range(k)]
            X = [[rnd.gauss(cen[c][f], 1) for f in range(d)] for c in seq]
            L = [labs[c] for c in seq]

            def drive(X=X, L=L, n=n, r=r):
                obj, out = cls(), []
                grab = spy(obj)
                for t in range(n):
                    del grab[:]
                    obj.get_cvi(np.array(X[t]), int(L[t]))
                    if t + 1 == n or t == n // 2 or (t == 0 and r < 3):
                        out.append((t, snap(obj), grab[-1] if grab else None))
                return out
            for t, at, mi in isolated(drive):
                h = spec.History(X[:t + 1], L[:t + 1])
                inv.append(tp.Sample(h, at))
                if mi is not None:
                    s = tp.Sample(h, mi)
                    s.cache = inv[-1].cache
                    mid.append(s)
    return inv, mid


def sample_batch(cls, rnd, count=8):
    inv, mid = [], []
    with np.errstate(all="ignore"):
        for r in range(count):
            d = [1, 2, 3, 2, 4][r % 5]
            k = [2, 3, 4, 3, 2][r % 5]
            n = k + 1 + rnd.randrange(0, 9)
            seq = list(range(k)) + [rnd.randrange(k) for _ in range(n - k)]
            rnd.shuffle(seq)
            labs = rnd.sample(range(-9, 30), k)
            cen = [[rnd.gauss(0, 3) for _ in range(d)] for _ in range(k)]
            X = np.array([[rnd.gauss(cen[c][f], 1) for f in range(d)] for c in seq])
            L = np.array([labs[c] for c in seq])

            def drive(X=X, L=L):
                obj = cls()
                grab = spy(obj)
                obj.get_cvi(X.copy(), L.copy())
                return snap(obj), grab[-1] if grab else None
            at, mi = isolated(drive)
            h = spec.History(X, L, by="label")
            inv.append(tp.Sample(h, at))
            if mi is not None:
                s = tp.Sample(h, mi)
                s.cache = inv[-1].cache
                mid.append(s)
    return inv, mid


# ------------------------------------------------------------------ symbolic inputs

def known(l):
    return tm.bapp("known", l)


def slot(l):
    return app("slot", l, isint=True)


MAP0 = SymMap(known, slot, K)
MAP_NEW = SymMap(lambda y: tm.or_(known(y), eq(y, LAB)), lambda y: ite(eq(y, LAB), K, slot(y)), add(K, ONE))
MAP_FIRST = SymMap(lambda y: eq(y, LAB), lambda y: ZERO, ONE)


def sample_arr(it, isint=False):
    a = it.new_arr([Plain(D)], lambda idx: spec.X(idx[0]), "i" if isint else "f")
    it.caller_oids.add(a.oid)
    return a


def unique_model(it, a, ret_index, ret_inverse, ret_counts):
    sy = getattr(it, "batch_syms", None)
    if sy is None:
        it.unsupported("np.unique outside batch mode")
    # Only for a vector that is, entry by entry, the caller's label vector: a view of part of it is not.
    ok = False
    ax, rd, _ = it.arr(a)
    if len(ax) == 1 and isinstance(ax[0], Plain) and it.implied(eq(ax[0].L, sy.n)):
        i = tm.fresh("q")
        ok = it.ctx.extend(rng(i, sy.n)).implied(eq(rd([i]), app(sy.L, i, isint=True)))
    if not ok:
        it.unsupported("np.unique of something else than the label vector")
    if ret_index:
        it.unsupported("np.unique(return_index)")
    u = it.new_arr([Plain(sy.k)], lambda idx: app(sy.u, idx[0], isint=True), "i")
    out = [u]
    if ret_inverse:
        out.append(it.new_arr([Plain(sy.n)], lambda idx: app(sy.z, idx[0], isint=True), "i"))
    if ret_counts:
        out.append(it.new_arr([Plain(sy.k)], lambda idx: app(sy.cnt, idx[0], isint=True), "i"))
    return out[0] if len(out) == 1 else tuple(out)


class BatchSyms:
    """Names of the symbols of a batch argument (a second set for a batch that must be refused)."""

    def __init__(self, sfx="", n=None, k=None, d=None):
        self.n = n if n is not None else tm.var("N" + sfx)
        self.k = k if k is not None else tm.var("k" + sfx)
        self.d = d if d is not None else tm.var("d" + sfx)
        self.X, self.L, self.u, self.z, self.cnt = ["%s%s" % (c, sfx) for c in ("X", "L", "u", "z", "n")]


def batch_args(it, isint=False, sy=None):
    sy = sy or BatchSyms()
    X = it.new_arr([Plain(sy.n), Plain(sy.d)], lambda idx: app(sy.X, idx[0], idx[1], isint=isint), "i" if isint else "f")

    def lc(idx):
        return app(sy.L, idx[0], isint=True)
    L = it.new_arr([Plain(sy.n)], lc, "i")
    it.caller_oids |= {X.oid, L.oid}
    it.batch_syms = sy
    it.unique_model = unique_model
    return X, L


def machine(ctx, contracts=None):
    it = NpMachine(ctx, contracts or {})
    it.unique_model = unique_model
    return it


class Result:
    """Symbolic executions of one function under one contract case, with the obligations they generate."""

    def __init__(self, name, case):
        self.name = name
        self.case = case
        self.goals = []
        self.paths = []
        self.error = None
        self.functions = set()
        self.loops = []


def run_case(name, case, make, run, check, limit=48):
    """make() -> (it, env); run(it, env) -> value; check(it, env, value, goals, path)."""
    res = Result(name, case)
    envs = {}

    def mk():
        it, env = make()
        envs[id(it)] = env
        res_keep.append(it)
        return it
    res_keep = []
    try:
        errors = []
        paths = explore(mk, lambda it: run(it, envs[id(it)]), limit, errors)
        for p in paths:
            res.paths.append(p)
            res.functions |= p.it.functions
            res.loops += p.it.loops
            p.goals = []
            check(p.it, envs[id(p.it)], p, p.goals)
            for g in p.goals:
                g.case = case
            res.goals += p.goals
        if errors:
            res.error = errors[0]
            for it in res_keep:
                res.functions |= it.functions
        elif not paths:
            res.error = "no feasible path (vacuous contract)"
    except Unsupported as e:
        res.error = str(e) or "unsupported"
        for it in res_keep:
            res.functions |= it.functions
    except RecursionError:
        res.error = "recursion limit"
    except ForeignWrite as e:
        res.error = "the constructor writes state shared between objects: %s" % e
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError) as e:
        res.error = "not modelled: %s: %s" % (type(e).__name__, str(e)[:120])
    return res


class BadCall(Exception):
    """A callee is used in a way its contract does not cover."""


def reach(it, v, seen):
    """Heap ids reachable from a value."""
    if isinstance(v, (Arr, Ref)) and v.oid not in seen:
        seen.add(v.oid)
        r = it.st.heap.get(v.oid)
        if isinstance(r, ObjRec):
            for x in r.attrs.values():
                reach(it, x, seen)
        elif isinstance(r, ListRec) and r.items is not None:
            for x in r.items:
                reach(it, x, seen)
        elif isinstance(r, DictRec) and r.items is not None:
            for x in r.items.values():
                reach(it, x, seen)
    elif isinstance(v, tuple):
        for x in v:
            reach(it, x, seen)
    return seen


def arrays_of(it, v, name, out):
    """(attribute path, heap id of an array) pairs below a value."""
    if isinstance(v, Arr):
        out.append((name, v.oid))
    elif isinstance(v, Ref):
        r = it.st.heap.get(v.oid)
        if isinstance(r, ObjRec):
            for a, x in sorted(r.attrs.items()):
                arrays_of(it, x, name + "." + a, out)
        elif isinstance(r, ListRec) and r.items is not None:
            for k, x in enumerate(r.items):
                arrays_of(it, x, "%s[%d]" % (name, k), out)
        elif isinstance(r, DictRec) and r.items is not None:
            for k, x in r.items.items():
                arrays_of(it, x, "%s[%s]" % (name, k), out)
    elif isinstance(v, tuple):
        for k, x in enumerate(v):
            arrays_of(it, x, "%s[%d]" % (name, k), out)
    return out


def mentions(t, bad):
    return any((u in bad) or (u.op == "app" and str(u.args[0]).startswith("any!")) for u in tm.walk(t))


# ------------------------------------------------------------------ one index class

CASES = ("first", "new", "known")


def one_label(t):
    """All entries of a label vector with one distinct value are that value."""
    if t.args[0] == "L'":
        return [eq(t, app("u'", ZERO, isint=True))]
    return []


class IndexVerifier:
    def __init__(self, index, seed=1):
        self.index = index
        self.cls = get_class(index)
        self.roles = find_roles(self.cls)
        rnd = random.Random(seed)
        self.G = spec.ghost_cls(index)()
        self.notes = []
        self.sample_error = None
        self.inv = self.mid = self.binv = self.bmid = None
        try:
            self.s_inv, self.s_mid = sample_stream(self.cls, rnd)
            self.inv = tp.infer(index, self.s_inv, self.G)
            self.mid = tp.infer(index, self.s_mid, self.G) if len(self.s_mid) == len(self.s_inv) else None
            self.b_inv, self.b_mid = sample_batch(self.cls, rnd)
            self.binv = tp.infer(index, self.b_inv, self.G)
            self.bmid = tp.infer(index, self.b_mid, self.G) if len(self.b_mid) == len(self.b_inv) else None
        except Exception as e:      # the sampled run itself raised: the run-time contracts will show it
            self.sample_error = "%s: %s" % (type(e).__name__, e)
        for T in (self.inv, self.mid, self.binv, self.bmid):
            if T and "criterion_value" in T:
                T["criterion_value"] = tp.Any("the last reported value", "num")

    # -------------------------------------------------------------- pieces
    def phase(self, name):
        return {"inv": self.inv, "mid": self.mid, "binv": self.binv, "bmid": self.bmid}[name]

    def weaken(self, phase, attr):
        """Drop what the invariant says about one attribute (contents first, then everything)."""
        parts = attr.split(".")[1:]
        done = False
        for ph in (("inv", "mid") if phase in ("inv", "mid") else ("binv", "bmid")):
            d = self.phase(ph)
            for q in parts[:-1]:
                d = d.get(q)
                d = d.attrs if isinstance(d, tp.ObjT) else None
                if d is None:
                    break
            if d and parts[-1] in d and not (isinstance(d[parts[-1]], tp.Any) and d[parts[-1]].kind != "sized"):
                T = d[parts[-1]]
                if isinstance(T, tp.ArrT) and T.f is not None:
                    d[parts[-1]] = W = tp.ArrT(T.dims, "not needed", None, T.dtype, T.cont, T.kind)
                    W.maybe_int, W.int_now, W.alias = T.maybe_int, T.int_now, T.alias
                else:
                    d[parts[-1]] = tp.Any("not needed", "num" if isinstance(T, tp.Num) else "sized" if isinstance(T, tp.ArrT) else None)
                done = True
        return done

    def ghost(self, case):
        return spec.first(self.index) if case == "first" else spec.step(self.index, case == "new")

    def post_map(self, case):
        return {"first": MAP_FIRST, "new": MAP_NEW, "known": MAP0}[case]

    def ctx(self, case):
        if case == "first":
            c = spec.stream_ctx()
        elif case == "new":
            c = spec.stream_ctx([not_(known(LAB))])
        else:
            c = spec.stream_ctx([known(LAB), rng(slot(LAB), K)])
        c.posdef = [spec.first("rCIP").sigma if case == "first" else spec.step("rCIP", case == "new").sigma] + c.posdef
        return c

    def start(self, it, case, tpls):
        """Object in the state described by the invariant (or freshly constructed by the real constructor)."""
        if case == "first":
            return it.instantiate(self.cls, [], {})
        return self.state(it, tpls, self.G)

    def state(self, it, tpls, G, mp=MAP0):
        ref = Ref(it.st.alloc(ObjRec(self.cls, {})))
        tp.install(it, ref, self.cls, tpls, G, mp)
        return ref

    def method(self, name):
        name = self.roles.get({v: k for k, v in ROLES.items()}.get(name), name)
        for c in self.cls.__mro__:
            f = c.__dict__.get(name)
            if f is not None:
                return f if isinstance(f, types.FunctionType) else None
        return None

    def label_contract(self):
        """{fn: handler} for LabelMap.get_internal_label, if the invariant describes the map that way."""
        import cvi.modules._base as base
        lm = getattr(base, "LabelMap", None)
        fn = getattr(lm, "get_internal_label", None) if lm is not None else None
        if not isinstance(fn, types.FunctionType):
            return {}
        tpl = None
        for T in (self.inv or {}).values():
            if isinstance(T, tp.ObjT) and T.cls is lm:
                maps = [a for a, x in T.attrs.items() if isinstance(x, tp.MapT)]
                if len(maps) == 1 and len(T.attrs) == 1:
                    tpl = maps[0]
        if tpl is None:
            return {}

        def handler(it, args, kw):
            if kw or len(args) != 2 or not isinstance(args[0], Ref) or not it.isnum(args[1]):
                return it.inline(fn, args, kw)
            m = it.rec(args[0]).attrs.get(tpl)
            r = it.st.heap.get(m.oid) if isinstance(m, Ref) else None
            if not isinstance(r, DictRec) or r.sym is None:
                return it.inline(fn, args, kw)
            l = it.num_t(args[1])
            has, val, size = r.sym.has, r.sym.val, r.sym.size
            it.written.add(m.oid)
            if it.decide(has(l)):
                return Sc(val(l), "py")
            old = r.sym
            r.sym = SymMap(lambda y: tm.or_(old.has(y), eq(y, l)), lambda y: ite(eq(y, l), old.size, old.val(y)), add(old.size, ONE))
            return Sc(old.size, "py")
        return {fn: handler}

    def find_alias(self, results):
        """Attributes found to be the caller's array: their contents become unconstrained, so that the other
        obligations show whether anything depends on them.  True if a new one was found."""
        new = False
        for r in results:
            for g in r.goals:
                if g.tag == "retain" and g.cond is FALSE and g.attr:
                    a = g.attr.split(".", 1)[1]
                    for T in (self.inv.get(a), (self.mid or {}).get(a)):
                        if isinstance(T, tp.ArrT) and not T.alias:
                            T.alias, T.f, T.name = True, None, "? (the caller's array)"
                            new = True
        return new

    def flag_dtypes(self, results):
        """Attributes whose array is sometimes of integer dtype; True if a new one was found."""
        new = False
        for r in results:
            for g in r.goals:
                if g.tag == "dtype":
                    a = g.attr.split(".")[-1]
                    for T in (self.inv.get(a), (self.mid or {}).get(a)):
                        if isinstance(T, tp.ArrT) and not T.maybe_int:
                            T.maybe_int = True
                            new = True
        return new

    def variants(self):
        """All combinations of integer/float dtype of the flagged attributes."""
        import itertools
        names = sorted({a for d in (self.inv, self.mid or {}) for a, T in d.items() if isinstance(T, tp.ArrT) and T.maybe_int})
        if len(names) > 4:
            names = names[:4]
            self.notes.append("too many attributes of varying dtype")
        for combo in itertools.product((False, True), repeat=len(names)):
            yield {a for a, v in zip(names, combo) if v}

    def set_variant(self, ints):
        for d in (self.inv, self.mid or {}):
            for a, T in d.items():
                if isinstance(T, tp.ArrT):
                    T.int_now = a in ints

    # -------------------------------------------------------------- shared postconditions
    def returns(self, it, p, what, goals):
        if p.kind == "return":
            return True
        tag = "foreign" if p.kind == "foreign" else "returns"
        goals.append(tp.Goal(what + (": writes only its own object" if tag == "foreign" else ": returns normally"), it.ctx, cond=FALSE,
                             note="%s: %s" % (p.kind, p.value), tag=tag))
        return False

    def state_goals(self, it, ref, phase, G, mp, goals, what, skip=()):
        out = []
        tpls = {a: T for a, T in self.phase(phase).items() if a not in skip}
        r = it.rec(ref)
        saved = {a: r.attrs.pop(a) for a in skip if a in r.attrs}
        tp.compare_obj(it, ref, tpls, G, "self", mp, out, what + " ensures")
        r.attrs.update(saved)
        for g in out:
            g.phase = phase
        goals += out

    def frame_goals(self, it, ref, args, goals, what, stream=True):
        """The caller's arrays are not written; none is retained except under an unconstrained attribute; no sharing."""
        goals.append(tp.Goal(what + ": caller's arrays are not modified", it.ctx, cond=FALSE if (it.written & it.caller_oids) else TRUE, tag="frame"))
        if not stream:
            return
        own = arrays_of(it, ref, "self", [])
        argo = {a.oid for a in args}
        for name, oid in own:
            if oid in argo:
                T = (self.inv or {}).get(name.split(".", 1)[1] if "." in name else name)
                ok = (isinstance(T, tp.ArrT) and (T.alias or T.f is None)) or isinstance(T, tp.Any)
                goals.append(tp.Goal("%s: %s does not retain the caller's array%s" % (what, name, " (or nothing depends on its contents)" if ok else ""),
                                     it.ctx, cond=TRUE if ok else FALSE if isinstance(T, tp.ArrT) else None, tag="retain", attr=name,
                                     note="" if ok else "unsupported: the caller's array is reachable from %s" % name))
        seen = {}
        for name, oid in own:
            if oid in seen and oid not in argo:
                goals.append(tp.Goal("%s: %s and %s are separate arrays" % (what, seen[oid], name), it.ctx, note="unsupported: two attributes share one array", tag="state"))
            seen.setdefault(oid, name)

    def shape_goals(self, it, ref, goals, what):
        """Sizes of the retained state mention neither N nor unconstrained quantities."""
        bad = {N}
        seen = set()

        def go(v, name):
            lens = []
            if isinstance(v, Arr):
                if v.oid in seen:
                    return
                seen.add(v.oid)
                lens = [x.length() for x in it.st.heap[v.oid].axes]
            elif isinstance(v, Ref):
                if v.oid in seen:
                    return
                seen.add(v.oid)
                r = it.st.heap[v.oid]
                if isinstance(r, ObjRec):
                    for a, x in sorted(r.attrs.items()):
                        go(x, name + "." + a)
                    return
                if isinstance(r, DictRec):
                    if r.sym is not None:
                        lens = [r.sym.size]
                    else:
                        for k, x in r.items.items():
                            go(x, "%s[%s]" % (name, k))
                        return
                elif r.items is not None:
                    for k, x in enumerate(r.items):
                        go(x, "%s[%d]" % (name, k))
                    return
                else:
                    lens = [r.axis.length()] + ([x.length() for x in r.elem[1]] if r.elem != "sc" else [])
            elif isinstance(v, tuple):
                for k, x in enumerate(v):
                    go(x, "%s[%d]" % (name, k))
                return
            elif it.isnum(v) or (isinstance(v, Unknown) and v.sized) or isinstance(v, Opaque) or (v is None or isinstance(v, (bool, int, float, str, type))):
                return
            else:
                goals.append(tp.Goal("%s: size of %s is bounded by k and d" % (what, name), it.ctx, note="unsupported: retained value of unknown size (%s)" % type(v).__name__, tag="shape", attr=name))
                return
            for p, t in enumerate(lens):
                t = it.simp(t)
                ok = not mentions(t, bad)
                goals.append(tp.Goal("%s: size of %s (axis %d) is bounded by k and d" % (what, name, p), it.ctx, cond=TRUE if ok else FALSE,
                                     note="length %s" % tm.show(t)[:80], tag="shape", attr=name))
        go(ref, "self")

    def safety_goals(self, it, what, goals):
        for kind, goal, cx, wh in it.safety:
            goals.append(tp.Goal("%s: no %s (%s)" % (what, kind, wh), cx, cond=goal, tag="safety"))

    def value_goals(self, it, v, kcase, G, goals, what, label="criterion_value"):
        if v is None or not it.isnum(v):
            goals.append(tp.Goal("%s ensures: %s = definition" % (what, label), it.ctx, cond=FALSE, note="not a single number", tag="value"))
            return
        one = kcase == "one"
        goals.append(tp.Goal("%s ensures: %s = %s" % (what, label, "0" if one else "definition"), it.ctx, it.num_t(v),
                             ZERO if one else spec.value(self.index, G), tag="zero" if one else "value"))
        if not one:
            goals[-1].defined = (self.index, G)

    # -------------------------------------------------------------- contracts
    def param_inc(self, case, isint=False):
        """{Inv(G) and label case} _param_inc(x, l) {Mid(G')}"""
        what = "%s._param_inc[%s%s]" % (self.index, case, ", integer samples" if isint else "")

        def make():
            it = machine(self.ctx(case), self.label_contract())
            env = {"ref": self.start(it, case, self.inv)}
            it.written.clear()
            del it.safety[:]
            env["x"] = sample_arr(it, isint)
            return it, env

        def run(it, env):
            return it.call_function(self.method("_param_inc"), [env["ref"], env["x"], Sc(LAB, "py")], {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            self.state_goals(it, env["ref"], "mid", self.ghost(case), self.post_map(case), goals, what)
            self.frame_goals(it, env["ref"], [env["x"]], goals, what)
            self.shape_goals(it, env["ref"], goals, what)
            self.safety_goals(it, what, goals)
        return run_case(what, case, make, run, check)

    def evaluate(self, mode, kcase, abstract=True):
        """{Mid(G)} _evaluate() {criterion_value = Spec(G), the rest of Inv(G) kept}   mode: stream | batch"""
        pre, post = ("mid", "inv") if mode == "stream" else ("bmid", "binv")
        kf = eq(K, ONE) if kcase == "one" else le(TWO, K)
        G = spec.GhostAbs() if abstract else self.G
        if kcase == "one":
            G = sub_k(G)
        what = "%s._evaluate[%s, %s]" % (self.index, mode, "k=1" if kcase == "one" else "k>=2")

        def make():
            if abstract:
                it = machine(spec.abs_ctx([kf]))
            else:
                it = machine((spec.stream_ctx if mode == "stream" else spec.batch_ctx)([kf]))
            return it, {"ref": self.state(it, self.phase(pre), G)}

        def run(it, env):
            return it.call_function(self.method("_evaluate"), [env["ref"]], {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            self.value_goals(it, it.rec(env["ref"]).attrs.get("criterion_value"), kcase, G, goals, what)
            self.state_goals(it, env["ref"], post, G, MAP0, goals, what, skip=("criterion_value",))
            self.frame_goals(it, env["ref"], [], goals, what, mode == "stream")
            if mode == "stream":
                self.shape_goals(it, env["ref"], goals, what)
            self.safety_goals(it, what, goals)
        return run_case(what, "eval-%s-%s" % (mode, kcase), make, run, check)

    def param_batch(self, isint=False):
        """{fresh object, N samples with k >= 2 labels} _param_batch(X, L) {Mid(G)}"""
        what = "%s._param_batch%s" % (self.index, "[integer samples]" if isint else "")

        def make():
            it = machine(spec.batch_ctx([le(TWO, K)]), self.label_contract())
            ref = it.instantiate(self.cls, [], {})
            it.written.clear()
            del it.safety[:]
            X, L = batch_args(it, isint)
            return it, {"ref": ref, "X": X, "L": L}

        def run(it, env):
            return it.call_function(self.method("_param_batch"), [env["ref"], env["X"], env["L"]], {})

        def check(it, env, p, goals):
            if not self.returns(it, p, what, goals):
                return
            self.state_goals(it, env["ref"], "bmid", self.G, None, goals, what)
            self.frame_goals(it, env["ref"], [env["X"], env["L"]], goals, what, False)
            self.safety_goals(it, what, goals)
        return run_case(what, "batch", make, run, check)

    # -- get_cvi against the contracts of its callees
    @staticmethod
    def still_fresh(it, ref, pre):
        """The object is as its constructor left it (constants may have been assigned again)."""
        own = reach(it, ref, set())
        if not (it.written & own):
            return True
        if (it.written & own) != {ref.oid} or pre is None:
            return False
        now = it.rec(ref).attrs
        plain = (bool, int, float, str, type(None))
        return set(now) == set(pre) and all(now[a] is v or (type(now[a]) is type(v) and isinstance(v, plain) and now[a] == v) for a, v in pre.items())

    def callee_contracts(self, case, cg, what, G2, mp2, args):
        """Contracts of _param_inc / _param_batch / _evaluate as seen by get_cvi."""
        st = {"done": 0}
        batch = case == "batch"

        def same_args(it, got):
            want = args[0]
            if len(got) != len(want):
                raise BadCall("arguments")
            for g, w in zip(got, want):
                if isinstance(w, Arr):
                    if not isinstance(g, Arr):
                        raise BadCall("arguments")
                    if w is want[0] and it.dtype(g) != "f":
                        self.passes_ints.add(batch)
                    if g.oid == w.oid and g.axes == w.axes and g.sel == w.sel:
                        continue
                    ax, rd, _ = it.as_array(g)
                    wx, wrd, _ = it.as_array(w)
                    if len(ax) != len(wx) or not all(isinstance(z, Plain) for z in ax):
                        raise BadCall("arguments")
                    idx, cx = [], it.ctx
                    for a, b in zip(ax, wx):
                        cg.append(tp.Goal(what + " requires: argument shape", it.ctx, a.L, b.L, tag="requires"))
                        i = tm.fresh("q")
                        idx.append(i)
                        cx = cx.extend(rng(i, b.L))
                    cg.append(tp.Goal(what + " requires: argument contents", cx, rd(idx), wrd(idx), tag="requires"))
                elif it.isnum(w):
                    if not it.isnum(g):
                        raise BadCall("arguments")
                    cg.append(tp.Goal(what + " requires: label", it.ctx, it.num_t(g), it.num_t(w), tag="requires"))

        def update(it, a, kw):
            if kw or st["done"] != 0 or it.depth > 3 or it.merge_depth:
                raise BadCall("unexpected call of the update method")
            ref = a[0]
            same_args(it, a[1:])
            if case not in ("first", "batch"):
                out = []
                tp.compare_obj(it, ref, self.inv, self.G, "self", MAP0, out, what + " requires Inv at the update call")
                for g in out:
                    g.tag, g.phase = "requires", "inv"
                cg.extend(out)
            elif not self.still_fresh(it, ref, st.get("fresh")):
                raise BadCall("fresh object modified before the update")
            st["done"] = 1
            it.caller_keep = set(it.caller_oids)
            tp.install(it, ref, self.cls, self.bmid if batch else self.mid, G2, mp2)
            return None

        def evaluate(it, a, kw):
            if kw or len(a) != 1 or st["done"] != 1 or it.depth > 3 or it.merge_depth:
                raise BadCall("unexpected call of the evaluation method")
            ref = a[0]
            out = []
            tp.compare_obj(it, ref, self.bmid if batch else self.mid, G2, "self", mp2, out, what + " requires Mid at the evaluation call")
            for g in out:
                g.tag, g.phase = "requires", "mid"
            cg.extend(out)
            st["done"] = 2
            tp.install(it, ref, self.cls, self.binv if batch else self.inv, G2, mp2)
            it.rec(ref).attrs["criterion_value"] = Sc(app("Spec"), "any")
            return None
        fu, fe = self.method("_param_batch" if batch else "_param_inc"), self.method("_evaluate")
        if fu is None or fe is None:
            raise BadCall("no such methods")
        return {fu: update, fe: evaluate}, st

    def get_cvi(self, case, isint=False):
        """{Inv(G)} get_cvi(x, l) {result = criterion_value = Spec(G'), Inv(G')}, callees by contract."""
        what = "%s.get_cvi[%s%s]" % (self.index, case, ", integer samples" if isint else "")
        batch = case == "batch"
        G2 = self.G if batch else self.ghost(case)
        mp2 = None if batch else self.post_map(case)
        box = {}

        def make():
            it = machine(spec.batch_ctx([le(TWO, K)]) if batch else self.ctx(case))
            cg, args = [], []
            con, st = self.callee_contracts(case, cg, what, G2, mp2, args)
            ref = it.instantiate(self.cls, [], {}) if batch else self.start(it, case, self.inv)
            it.written.clear()
            st["fresh"] = dict(it.rec(ref).attrs)
            del it.safety[:]
            a = list(batch_args(it, isint)) if batch else [sample_arr(it, isint), Sc(LAB, "py")]
            args.append(a)
            it.contracts = con
            return it, {"ref": ref, "a": a, "cg": cg, "st": st}

        def run(it, env):
            return it.call_function(self.method("get_cvi"), [env["ref"]] + env["a"], {})

        def check(it, env, p, goals):
            goals += env["cg"]
            if not self.returns(it, p, what, goals):
                return
            if env["st"]["done"] != 2:
                raise BadCall("update or evaluation not called")
            self.value_ret(it, env, p, goals, what)
            out = []
            tp.compare_obj(it, env["ref"], self.binv if batch else self.inv, G2, "self", mp2, out, what + " ensures")
            for g in out:
                g.phase = "binv" if batch else "inv"
            goals += out
            self.frame_goals(it, env["ref"], [x for x in env["a"] if isinstance(x, Arr)], goals, what, not batch)
            if not batch:
                self.shape_goals(it, env["ref"], goals, what)
            self.safety_goals(it, what, goals)
        try:
            return run_case(what, case, make, run, check)
        except BadCall as e:
            r = Result(what, case)
            r.error = "callee contract not applicable: %s" % e
            r.badcall = True
            return r

    def value_ret(self, it, env, p, goals, what):
        crit = it.rec(env["ref"]).attrs.get("criterion_value")
        ok = it.isnum(p.value) and crit is not None and it.isnum(crit)
        for label, v in (("result", p.value), ("criterion_value", crit)):
            if not ok:
                goals.append(tp.Goal("%s ensures: %s is the evaluated number" % (what, label), it.ctx, cond=FALSE, note="not a single number", tag="ret"))
                break
            goals.append(tp.Goal("%s ensures: %s is the evaluated number" % (what, label), it.ctx, it.num_t(v), app("Spec"), tag="ret"))

    def get_cvi_inline(self, case, isint=False):
        """Fallback: the whole call, callees inlined."""
        batch = case == "batch"
        kcs = ["many"] if batch else (["one"] if case == "first" else (["many"] if case == "new" else ["one", "many"]))
        out = []
        for kc in kcs:
            what = "%s.get_cvi[%s%s%s, inlined]" % (self.index, case, ", integer samples" if isint else "", ", k=1" if kc == "one" else "")
            G2 = self.G if batch else self.ghost(case)

            def make(kc=kc):
                if batch:
                    it = machine(spec.batch_ctx([le(TWO, K)]))
                else:
                    it = machine(self.ctx(case).extend(*([eq(K, ONE) if kc == "one" else le(TWO, K)] if case == "known" else [])), self.label_contract())
                ref = it.instantiate(self.cls, [], {}) if batch else self.start(it, case, self.inv)
                it.written.clear()
                del it.safety[:]
                a = list(batch_args(it, isint)) if batch else [sample_arr(it, isint), Sc(LAB, "py")]
                return it, {"ref": ref, "a": a}

            def run(it, env):
                return it.call_function(self.method("get_cvi"), [env["ref"]] + env["a"], {})

            def check(it, env, p, goals, what=what, kc=kc, G2=G2):
                if not self.returns(it, p, what, goals):
                    return
                crit = it.rec(env["ref"]).attrs.get("criterion_value")
                self.value_goals(it, crit, kc, G2, goals, what)
                self.value_goals(it, p.value, kc, G2, goals, what, "result")
                self.state_goals(it, env["ref"], "binv" if batch else "inv", G2, None if batch else self.post_map(case), goals, what, skip=("criterion_value",))
                self.frame_goals(it, env["ref"], [x for x in env["a"] if isinstance(x, Arr)], goals, what, not batch)
                if not batch:
                    self.shape_goals(it, env["ref"], goals, what)
                self.safety_goals(it, what, goals)
            out.append(run_case(what, case, make, run, check))
        return out

    # -- refusals
    REFUSALS = ("rank-fresh", "rank-stream", "rank-batch", "batch-one-label", "batch-empty", "batch-on-stream", "batch-on-batch", "sample-on-batch")

    def refusal(self, which):
        what = "%s.get_cvi[refused: %s]" % (self.index, which)

        def make():
            facts = []
            sy = BatchSyms("'")
            nd = tm.var("rank")
            if which.startswith("rank"):
                facts = [le(ZERO, nd), not_(eq(nd, ONE)), not_(eq(nd, TWO))]
            elif which == "batch-one-label":
                sy = BatchSyms("'", k=ONE)
                facts = [le(ONE, sy.n), le(ONE, sy.d)]
            elif which == "batch-empty":
                sy = BatchSyms("'", n=ZERO, k=ZERO)
                facts = [le(ONE, sy.d)]
            elif which.startswith("batch"):
                facts = [le(ONE, sy.n), le(ONE, sy.k), le(sy.k, sy.n), le(ONE, sy.d)]
            cx = spec.stream_ctx(facts)
            if which == "batch-one-label":
                cx.schemas = cx.schemas + [one_label]
            it = machine(cx)
            if which in ("rank-fresh", "batch-one-label", "batch-empty"):
                ref = it.instantiate(self.cls, [], {})
                ph = None
            else:
                ph = "inv" if which.endswith("stream") else "binv"
                ref = self.state(it, self.phase(ph), self.G, MAP0)
            it.written.clear()
            if which.startswith("rank"):
                a = it.new_arr([Plain(D)] * 3, lambda idx: app("Y", *idx), "f")
                it.caller_oids.add(a.oid)
                it.free_ndim[a.oid] = nd
                args = [a, Sc(LAB, "py")]
            elif which == "sample-on-batch":
                d2 = tm.var("d'")
                it.assume(le(ONE, d2))
                a = it.new_arr([Plain(d2)], lambda idx: app("x'", *idx), "f")
                it.caller_oids.add(a.oid)
                args = [a, Sc(LAB, "py")]
            else:
                args = list(batch_args(it, False, sy))
            pre = {k: (r, getattr(r, "content", None), dict(r.attrs) if isinstance(r, ObjRec) else None) for k, r in it.st.heap.items()}
            return it, {"ref": ref, "args": args, "own": reach(it, ref, set()), "phase": ph, "pre": pre}

        def run(it, env):
            return it.call_function(self.method("get_cvi"), [env["ref"]] + env["args"], {})

        def check(it, env, p, goals):
            ok = p.kind == "raise" and isinstance(p.value.cls, type) and issubclass(p.value.cls, ValueError)
            goals.append(tp.Goal(what + ": raises ValueError", it.ctx, cond=TRUE if ok else FALSE, note="%s: %s" % (p.kind, p.value), tag="refuse"))
            if not ok:
                return
            touched = it.written & env["own"]
            if touched and env["phase"] is not None and not (it.written & it.caller_oids):
                out = []
                tp.compare_obj(it, env["ref"], self.phase(env["phase"]), self.G, "self", MAP0, out, what + " keeps")
                names = {a for a, T in self.phase(env["phase"]).items() if isinstance(T, tp.Any)}
                same = all(it.rec(env["ref"]).attrs.get(a) is env["pre"][env["ref"].oid][2].get(a) for a in names)
                if not same:
                    out.append(tp.Goal(what + ": object unchanged", it.ctx, cond=FALSE, note="an attribute is overwritten", tag="refuse"))
                for g in out:
                    g.tag = "refuse"
                goals += out
            else:
                goals.append(tp.Goal(what + ": object unchanged", it.ctx, cond=FALSE if touched else TRUE, tag="refuse",
                                     note="written before the refusal" if touched else ""))
            goals.append(tp.Goal(what + ": caller's arrays are not modified", it.ctx, cond=FALSE if (it.written & it.caller_oids) else TRUE, tag="frame"))
        return run_case(what, "refuse:" + which, make, run, check)

    def label_map(self):
        """LabelMap.get_internal_label: known labels keep their number, a new one gets the next number."""
        if not self.label_contract():
            return []           # not used behind a contract: inlined wherever it is called
        import cvi.modules._base as base
        lm = base.LabelMap
        fn = lm.get_internal_label
        out = []
        for case in CASES:
            what = "LabelMap.get_internal_label[%s]" % case

            def make(case=case):
                it = machine(self.ctx(case))
                if case == "first":
                    ref = it.instantiate(lm, [], {})
                else:
                    ref = Ref(it.st.alloc(ObjRec(lm, {})))
                    tp.install(it, ref, lm, self.label_tpl(lm), self.G, MAP0)
                return it, {"ref": ref}

            def run(it, env):
                return it.call_function(fn, [env["ref"], Sc(LAB, "py")], {})

            def check(it, env, p, goals, case=case, what=what):
                if not self.returns(it, p, what, goals):
                    return
                want = {"first": ZERO, "new": K, "known": slot(LAB)}[case]
                if it.isnum(p.value):
                    goals.append(tp.Goal(what + " ensures: result", it.ctx, it.num_t(p.value), want))
                else:
                    goals.append(tp.Goal(what + " ensures: result", it.ctx, cond=FALSE, note="not a number"))
                tp.compare_obj(it, env["ref"], self.label_tpl(lm), self.G, "map", self.post_map(case), goals, what + " ensures")
                self.safety_goals(it, what, goals)
            out.append(run_case(what, case, make, run, check))
        return out

    def label_tpl(self, lm):
        for T in (self.inv or {}).values():
            if isinstance(T, tp.ObjT) and T.cls is lm:
                return T.attrs
        raise Unsupported("label map not described by the invariant")


def sub_k(G):
    """The same ghost with k = 1."""
    G.k = ONE
    return G
