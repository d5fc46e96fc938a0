"""Indexing, containers, builtins and the assumed contracts of the numpy functions the package may use.

Every numpy function is modelled by what its documentation promises over exact real arithmetic.  Functions or argument
combinations that are not listed raise Unsupported.
"""
import builtins
import itertools
import math
import operator
import types
import numpy as np
import prove
import terms as tm
from terms import ZERO, ONE, TRUE, FALSE, num, T
from symex import (SymStr, Unsupported, PyRaise, ForeignWrite, NeedFork, Sc, Plain, Filt, Buf, ListRec, DictRec, SymMap, ObjRec,
                   Ref, Arr, Method, Builtin, Super, Rng, Seq, Unknown, Closure, Opaque)
from interp import Machine, Foreign, Poison, flatten

NP = {}
BI = {}


def model(*fs):
    def dec(h):
        for f in fs:
            if f is not None:
                try:
                    NP[f] = h
                except TypeError:
                    pass
        return h
    return dec


def bi(*fs):
    def dec(h):
        for f in fs:
            BI[f] = h
        return h
    return dec


DTYPES = {int: "i", float: "f", bool: "b", np.int64: "i", np.float64: "f", np.bool_: "b", "int": "i", "float": "f", "bool": "b",
          "float64": "f", "int64": "i", np.intp: "i"}
MISSING = object()


class NpMachine(Machine):
    # ================================================================ subscripts
    def slice_bounds(self, s, L):
        if s.step not in (None, 1):
            self.unsupported("slice step")

        def side(x, default):
            if x is None:
                return default
            t = self.int_t(x)
            if t.op == "num" and t.args[0] < 0:
                t = tm.add(L, t)
                if not self.implied(tm.le(ZERO, t)):
                    t = tm.ite(tm.le(ZERO, t), t, ZERO)
                return t
            if self.implied(tm.le(ZERO, t)):
                if self.implied(tm.le(t, L)):
                    return t
                return tm.ite(tm.le(t, L), t, L)
            if self.implied(tm.lt(t, ZERO)):
                t = tm.add(L, t)
                return t if self.implied(tm.le(ZERO, t)) else tm.ite(tm.le(ZERO, t), t, ZERO)
            self.unsupported("slice bound of unknown sign")
        lo, hi = side(s.start, ZERO), side(s.stop, L)
        n = self.simp(tm.sub(hi, lo))
        if not self.implied(tm.le(ZERO, n)):
            n = tm.ite(tm.le(ZERO, n), n, ZERO)
        return lo, n

    def index_items(self, a, ix):
        """Normalised index list: ('int', t) | ('slice', lo, n, full) | ('new',) | ('arr', axes, reader) | ('mask', Arr)."""
        items = list(ix) if isinstance(ix, tuple) else [ix]
        used = 0
        for x in items:
            if x is None or x is Ellipsis:
                continue
            used += len(x.axes) if isinstance(x, Arr) and self.dtype(x) == "b" and x.axes else 1
        if used > len(a.axes):
            raise PyRaise(IndexError, "too many indices (%s)" % self.where)
        out, ax = [], 0
        ell = False
        for x in items:
            if x is None:
                out.append(("new",))
                continue
            if x is Ellipsis:
                if ell:
                    self.unsupported("two ellipses")
                ell = True
                for _ in range(len(a.axes) - used):
                    out.append(("slice", ZERO, None, True))
                    ax += 1
                continue
            A = a.axes[ax]
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step in (None, 1):
                    out.append(("slice", ZERO, None, True))
                else:
                    if not isinstance(A, Plain):
                        self.unsupported("slice of a filtered axis")
                    lo, n = self.slice_bounds(x, A.L)
                    out.append(("slice", lo, n, False))
                ax += 1
            elif self.isnum(x) and not self.lift(x).t.isbool:
                if not isinstance(A, Plain):
                    self.unsupported("integer index on a filtered axis")
                out.append(("int", self.norm_index(self.int_t(x), A.L, "array")))
                ax += 1
            else:
                if isinstance(x, Seq) or isinstance(x, Rng):
                    x = self.make_list(x)
                if isinstance(x, tuple):
                    x = self.new_list(x)
                axes, rd, dt = self.as_array(x)
                if dt == "?":
                    p = rd([q.fresh_index()[0] for q in axes])
                    dt = "b" if p.isbool else ("i" if p.isint else "f")
                if dt == "b":
                    for q, B in zip(axes, a.axes[ax:]):
                        if not self.same_axis(q, B):
                            self.unsupported("mask of another shape")
                    out.append(("mask", axes, rd))
                    ax += len(axes)
                else:
                    if not isinstance(A, Plain):
                        self.unsupported("fancy index on a filtered axis")
                    L = A.L
                    idx, vs, g = [], [], TRUE
                    for q in axes:
                        i, v, gg = q.fresh_index()
                        idx.append(i)
                        g = tm.and_(g, gg)
                    t = rd(idx)
                    if not t.isint:
                        raise PyRaise(IndexError, "float index")
                    if not self.ctx.extend(g).implied(tm.rng(t, L)) and not self.ctx.extend(g).inconsistent():
                        self.unsupported("cannot show that a fancy index is in range")
                    out.append(("arr", axes, rd))
                    ax += 1
        for _ in range(len(a.axes) - ax):
            out.append(("slice", ZERO, None, True))
        return out

    def getitem(self, v, ix):
        if isinstance(v, Foreign):
            self.foreign_reads.add(v.what)
            if isinstance(ix, SymStr) and isinstance(v.obj, dict):
                for k, val in v.obj.items():
                    if self.decide(ix.same(k)):
                        return self.wrap(val, v.what)
                raise PyRaise(KeyError, "name")
            if isinstance(v.obj, np.ndarray) or isinstance(ix, (Sc, Arr, Ref, SymStr)):
                return Unknown("read of shared state (%s)" % v.what)
            try:
                return self.wrap(v.obj[ix], v.what)
            except (KeyError, IndexError) as e:
                raise PyRaise(type(e), str(e))
        if isinstance(v, tuple):
            if isinstance(ix, slice):
                return v[slice(*[None if q is None else self.conc_int(q) for q in (ix.start, ix.stop, ix.step)])]
            t = self.int_t(ix)
            if t.op != "num":
                return self.getitem(self.new_list(v), ix)
            p = int(t.args[0])
            if not -len(v) <= p < len(v):
                raise PyRaise(IndexError, "tuple")
            return v[p]
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ObjRec) and "@list" in r.attrs:
                return self.getitem(r.attrs["@list"], ix)
            if isinstance(r, ListRec):
                if isinstance(ix, slice):
                    return self.list_slice(r, ix)
                L = self.list_len(r)
                if r.items is None and not isinstance(r.axis, Plain):
                    self.unsupported("index into a filtered list")
                return self.list_get(r, self.norm_index(self.int_t(ix), L, "list"))
            if isinstance(r, DictRec):
                return self.dict_get(r, ix, MISSING)
            g = getattr(r.cls, "__getitem__", None)
            if isinstance(g, types.FunctionType):
                return self.call_function(g, [v, ix], {})
        if isinstance(v, Arr):
            return self.arr_getitem(v, ix)
        if isinstance(v, Rng):
            return self.getitem(self.make_list(v), ix)
        if isinstance(v, dict) and not isinstance(ix, (Sc, Arr, Ref)):
            if ix not in v:
                raise PyRaise(KeyError, str(ix))
            return v[ix]
        if isinstance(v, Unknown):
            self.unsupported("read of an unconstrained value: %s" % v.why)
        self.unsupported("subscript of %r" % (type(v),))

    def conc_int(self, x):
        t = self.int_t(x)
        if t.op != "num":
            self.unsupported("symbolic where a constant is needed")
        return int(t.args[0])

    def list_slice(self, r, s):
        if r.items is not None:
            try:
                b = [None if q is None else self.conc_int(q) for q in (s.start, s.stop, s.step)]
                return self.new_list(r.items[slice(*b)])
            except Unsupported:
                pass
        axis, content, elem, kind = self.to_sym(r)
        if s.start is None and s.stop is None and s.step in (None, 1):
            return self.sym_list(axis, content, elem, kind)
        if not isinstance(axis, Plain):
            self.unsupported("slice of a filtered list")
        lo, n = self.slice_bounds(s, axis.L)
        if lo is ZERO:
            return self.sym_list(Plain(n), content, elem, kind)
        return self.sym_list(Plain(n), lambda i, *r_: content(tm.add(i, lo), *r_), elem, kind)

    def dict_get(self, r, key, default):
        if isinstance(key, Arr) and not key.axes:
            key = self.lift(key)
        if r.sym is not None:
            l = self.int_t(key)
            if self.decide(r.sym.has(l)):
                return Sc(r.sym.val(l), "py")
            if default is MISSING:
                raise PyRaise(KeyError)
            return default
        if isinstance(key, SymStr):
            for k, val in r.items.items():
                if self.decide(key.same(k)):
                    return val
            if default is MISSING:
                raise PyRaise(KeyError, "name")
            return default
        if isinstance(key, Sc) and key.t.op != "num" or any(isinstance(k, Sc) for k in r.items):
            if not r.items:
                if default is MISSING:
                    raise PyRaise(KeyError)
                return default
            for k, val in r.items.items():
                if self.decide(tm.eq(self.num_t(k), self.num_t(key))):
                    return val
            if default is MISSING:
                raise PyRaise(KeyError)
            return default
        if isinstance(key, Sc):
            key = int(key.t.args[0])
        if isinstance(key, (Ref, Unknown)):
            self.unsupported("dict key")
        if key in r.items:
            return r.items[key]
        if default is MISSING:
            raise PyRaise(KeyError)
        return default

    def dict_set(self, ref, key, val):
        r = self.rec(ref)
        if isinstance(key, Arr) and not key.axes:
            key = self.lift(key)
        if r.sym is None and self.isnum(key) and (isinstance(key, Sc) and key.t.op != "num") and not r.items and self.isnum(val):
            r = DictRec(sym=SymMap(lambda l: FALSE, lambda l: ZERO, ZERO))
        if r.sym is not None:
            l, v = self.int_t(key), self.num_t(val)
            m = r.sym
            h = m.has(l)
            if self.implied(h):
                grow = ZERO
            elif self.implied(tm.not_(h)):
                grow = ONE
            else:
                grow = tm.ite(h, ZERO, ONE)
            self.st.heap[ref.oid] = DictRec(sym=SymMap(lambda x: tm.or_(tm.eq(x, l), m.has(x)), lambda x: tm.ite(tm.eq(x, l), v, m.val(x)), tm.add(m.size, grow)))
        else:
            if isinstance(key, Sc):
                if key.t.op != "num":
                    self.unsupported("dict with mixed keys")
                key = int(key.t.args[0])
            if isinstance(key, (Arr, Ref, Unknown)):
                self.unsupported("dict key")
            d = dict(r.items)
            d[key] = val
            self.st.heap[ref.oid] = DictRec(items=d)
        self.written.add(ref.oid)

    def arr_view(self, a, items):
        """View for ints, slices and newaxis only."""
        axes, newsel, ax = [], {}, 0
        for it in items:
            if it[0] == "new":
                axes.append(Plain(ONE))
                continue
            if it[0] == "int":
                newsel[ax] = ("fix", it[1])
            else:
                newsel[ax] = ("ax", len(axes), it[1])
                axes.append(a.axes[ax] if it[3] else Plain(it[2]))
            ax += 1
        sel = []
        for s in a.sel:
            if s[0] == "fix":
                sel.append(s)
                continue
            m = newsel[s[1]]
            if m[0] == "fix":
                sel.append(("fix", m[1] if s[2] is ZERO else tm.add(m[1], s[2])))
            else:
                sel.append(("ax", m[1], s[2] if m[2] is ZERO else tm.add(s[2], m[2])))
        return Arr(a.oid, axes, sel)

    def arr_getitem(self, a, ix):
        items = self.index_items(a, ix)
        if all(i[0] in ("int", "slice", "new") for i in items):
            v = self.arr_view(a, items)
            if not v.axes:
                t = self.read(v, [])
                return Sc(t, "np")
            return v
        axes, rd, _ = self.gather(a, items)
        return self.new_arr(axes, rd, self.dtype(a))

    def gather(self, a, items):
        """Advanced indexing: (result axes, reader, info)."""
        src = self.reader(a)
        # expand masks into index arrays
        parts, ax = [], 0
        for it in items:
            if it[0] == "mask":
                maxes, mrd = it[1], it[2]
                bs, g, idx = [], TRUE, []
                for q in maxes:
                    i, vs, gg = q.fresh_index("m")
                    bs.extend(vs)
                    g = tm.and_(g, gg)
                    idx.append(i)
                g = tm.and_(g, mrd(idx))
                F = Filt(bs, g)
                pos = 0
                for q in maxes:
                    w = 1 if isinstance(q, Plain) else len(q.bs)

                    def pick(ii, pos=pos, w=w, q=q):
                        tup = ii[0] if isinstance(ii[0], tuple) else (ii[0],)
                        return tup[pos] if isinstance(q, Plain) else tup[pos:pos + w]
                    parts.append(("arr", [F], pick))
                    pos += w
            else:
                parts.append(it)
        adv = [p for p in parts if p[0] in ("arr",)]
        positions = [k for k, p in enumerate(parts) if p[0] in ("arr", "int")]
        contiguous = positions == list(range(positions[0], positions[-1] + 1))
        baxes, readers = self.broadcast([(p[1], (lambda idx, r=p[2]: r(idx))) for p in adv]) if len(adv) > 1 else (list(adv[0][1]), [adv[0][2]])
        nb = len(baxes)
        lead = positions[0] if contiguous else 0
        lead_axes = sum(1 for p in parts[:lead] if p[0] in ("slice", "new"))
        axes, plan, aidx, ax = [], [], 0, 0
        rest_pos = 0
        axes_rest = []
        for p in parts:
            if p[0] == "new":
                axes_rest.append(Plain(ONE))
                rest_pos += 1
                continue
            if p[0] == "int":
                plan.append(("int", p[1]))
            elif p[0] == "arr":
                plan.append(("arr", readers[aidx]))
                aidx += 1
            else:
                plan.append(("ax", rest_pos, p[1]))
                axes_rest.append(a.axes[ax] if p[3] else Plain(p[2]))
                rest_pos += 1
            ax += 1
        axes = axes_rest[:lead_axes] + baxes + axes_rest[lead_axes:]

        def rd(idx):
            b = idx[lead_axes:lead_axes + nb]
            rest = list(idx[:lead_axes]) + list(idx[lead_axes + nb:])
            out = []
            for p in plan:
                if p[0] == "int":
                    out.append(p[1])
                elif p[0] == "arr":
                    out.append(p[1](b))
                else:
                    x = rest[p[1]]
                    out.append(x if p[2] is ZERO or isinstance(x, tuple) else tm.add(x, p[2]))
            return src(out)
        return axes, rd, (plan, baxes, lead_axes, nb)

    def setitem(self, v, ix, val):
        if isinstance(v, Foreign):
            raise ForeignWrite(v.what)
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ObjRec) and "@list" in r.attrs:
                return self.setitem(r.attrs["@list"], ix, val)
            if isinstance(r, ListRec):
                return self.list_set(v, r, ix, val)
            if isinstance(r, DictRec):
                return self.dict_set(v, ix, val)
            g = getattr(r.cls, "__setitem__", None)
            if isinstance(g, types.FunctionType):
                return self.call_function(g, [v, ix, val], {})
        if isinstance(v, Arr):
            return self.arr_setitem(v, ix, val)
        self.unsupported("subscript store on %r" % (type(v),))

    def list_set(self, v, r, ix, val):
        if isinstance(ix, slice):
            if ix.start is None and ix.stop is None and ix.step is None:
                o = self.make_list(val)
                self.st.heap[v.oid] = self.rec(o)
                self.written.add(v.oid)
                return
            self.unsupported("slice store on a list")
        i = self.norm_index(self.int_t(ix), self.list_len(r), "list")
        self.written.add(v.oid)
        if r.items is not None and i.op == "num":
            items = list(r.items)
            items[int(i.args[0])] = val
            self.st.heap[v.oid] = ListRec(items=items)
            return
        axis, content, elem, kind = self.to_sym(r)
        if not isinstance(axis, Plain):
            self.unsupported("store into a filtered list")
        if elem == "sc":
            if not self.isnum(val):
                self.unsupported("store of a non-number into a list")
            s = self.lift(val)
            t = self.num_t(val)
            self.st.heap[v.oid] = ListRec(axis=axis, content=lambda p: tm.ite(tm.eq(p, i), t, content(p)), elem="sc", kind=kind if kind == s.kind else "any")
            return
        axes, rd, dt = self.as_array(val)
        if not self.same_axes(axes, elem[1]):
            self.unsupported("store of another shape into a list of arrays")
        self.st.heap[v.oid] = ListRec(axis=axis, content=lambda p, idx: tm.ite(tm.eq(p, i), rd(idx), content(p, idx)), elem=elem, kind="any")

    def cast_store(self, a, t):
        """Value actually stored into an array of a's dtype."""
        if self.dtype(a) == "b":
            return t if t.isbool else tm.not_(tm.eq(t, ZERO))
        return self.as_num(t)

    def arr_setitem(self, a, ix, val):
        items = self.index_items(a, ix)
        axes, rd, dt = self.as_array(val)
        if all(i[0] in ("int", "slice", "new") for i in items):
            v = self.arr_view(a, items)
            r2 = self.broadcast_to(v.axes, axes, rd)
            self.write(v, lambda view: TRUE, lambda view: self.cast_store(a, r2(view)))
            return
        if len(items) == 1 and items[0][0] == "mask" or all(i[0] == "mask" or (i[0] == "slice" and i[3]) for i in items):
            ms = [i for i in items if i[0] == "mask"]
            if len(ms) == 1 and not axes:
                at = sum(1 for i in items[:items.index(ms[0])])
                n = len(ms[0][1])
                mrd = ms[0][2]
                self.write(a, lambda view: mrd(view[at:at + n]), lambda view: self.cast_store(a, rd([])))
                return
        gaxes, grd, (plan, baxes, lead, nb) = self.gather(a, items)
        # index arrays that enumerate the binders of one filtered axis one to one
        r2 = self.broadcast_to(gaxes, axes, rd)
        if nb == 1 and all(p[0] in ("arr", "ax") for p in plan):
            B = baxes[0]
            i, vs, g = B.fresh_index("w")
            pos = {}
            ok = True
            for k, p in enumerate(plan):
                if p[0] == "arr":
                    t = p[1]([i])
                    if isinstance(t, T) and t.op == "var" and t in vs and t not in pos:
                        pos[t] = k
                    else:
                        ok = False
            if ok and set(pos) == set(vs):
                def guard(view):
                    return tm.subst(g, {x: view[pos[x]] for x in vs})

                def value(view):
                    b = tuple(view[pos[x]] for x in vs)
                    b = b if isinstance(B, Filt) else b[0]
                    rest = [view[k] for k, p in enumerate(plan) if p[0] == "ax"]
                    return self.cast_store(a, r2(rest[:lead] + [b] + rest[lead:]))
                self.write(a, guard, value)
                return
        self.unsupported("store through a fancy index")

    # ================================================================ attributes of arrays, scalars, containers
    def dim_value(self, ax):
        L = ax.length()
        return int(L.args[0]) if L.op == "num" else Sc(L, "py")

    def arr_attr(self, a, name):
        nd = self.free_ndim.get(a.oid)
        if nd is not None:
            if name == "ndim":
                return Sc(nd, "py")
            if name == "shape":
                return Opaque(("shape", nd))
            self.unsupported("array of arbitrary rank: %s" % name)
        if name == "shape":
            return tuple(self.dim_value(x) for x in a.axes)
        if name == "ndim":
            return len(a.axes)
        if name == "nbytes":
            self.unsupported("nbytes")
        if name == "size":
            t = ONE
            for x in a.axes:
                t = tm.mul(t, x.length())
            return Sc(t, "py") if t.op != "num" else int(t.args[0])
        if name == "T":
            return self.transpose(a)
        if name == "dtype":
            return Opaque(("dtype", self.dtype(a)))
        if name == "real":
            return a
        meths = {"sum": np.sum, "mean": np.mean, "min": np.min, "max": np.max, "any": np.any, "all": np.all, "copy": np.copy, "dot": np.dot,
                 "transpose": np.transpose, "reshape": np.reshape, "ravel": np.ravel, "prod": np.prod, "argmin": np.argmin, "argmax": np.argmax,
                 "diagonal": np.diagonal, "trace": np.trace, "squeeze": np.squeeze, "cumsum": np.cumsum, "var": np.var, "std": np.std, "nonzero": np.nonzero,
                 "repeat": np.repeat, "clip": np.clip, "round": np.round}
        if name in meths:
            return Builtin(name, lambda it, args, kw: it.np_call(meths[name], [a] + list(args), kw))
        if name == "flatten":
            return Builtin(name, lambda it, args, kw: it.np_call(np.copy, [it.np_call(np.ravel, [a], {})], {}))
        if name == "astype":
            def astype(it, args, kw):
                if len(args) > 1 or set(kw) - {"dtype"} and kw.get("copy") is not True:
                    it.unsupported("astype that may not copy")
                return it.astype(a, args[0] if args else kw.get("dtype"))
            return Builtin(name, astype)
        if name == "tolist":
            return Builtin(name, lambda it, args, kw: it.tolist(a))
        if name == "item":
            return Builtin(name, lambda it, args, kw: it.item(a, args))
        if name == "fill":
            return Builtin(name, lambda it, args, kw: it.store_full(a, args[0]))
        self.unsupported("array attribute %s" % name)

    def item(self, a, args):
        if args:
            self.unsupported("item(args)")
        if all(self.is_one(x) for x in a.axes):
            return Sc(self.read(a, [ZERO] * len(a.axes)), "py")
        self.unsupported("item of a non-scalar array")

    def tolist(self, a):
        if len(a.axes) == 1:
            rd = self.reader(a)
            return self.sym_list(a.axes[0], lambda i: rd([i]), "sc", "py")
        self.unsupported("tolist")

    def astype(self, a, dt):
        d = self.dt(dt)
        rd = self.reader(a)
        src = self.dtype(a)
        if d == "f" and src == "i":
            r0 = rd
            rd = lambda idx: self.not_label(r0(idx))
        if d == "f" or d == src:
            return self.new_arr(a.axes, lambda idx: self.as_num(rd(idx)) if d != "b" else rd(idx), d)
        if d == "i" and src == "b":
            return self.new_arr(a.axes, lambda idx: self.as_num(rd(idx)), "i")
        if d == "i":
            return self.new_arr(a.axes, lambda idx: rd(idx) if rd(idx).isint else tm.fn("trunc", rd(idx)), "i")
        if d == "b":
            return self.new_arr(a.axes, lambda idx: tm.not_(tm.eq(rd(idx), ZERO)), "b")
        self.unsupported("astype")

    def not_label(self, t):
        """Labels are unbounded integers: turning one into a float may identify it with another label."""
        names = getattr(getattr(self, "batch_syms", None), "__dict__", {})
        if t.op == "var" and t.args[0] == "lab" or t.op == "app" and t.args[0] in (names.get("L"), names.get("u")) and t.args[0] is not None:
            self.unsupported("a label converted to a float")
        return t

    def dt(self, dt):
        if dt is None:
            return "f"
        if isinstance(dt, Opaque) and isinstance(dt.what, tuple) and dt.what[0] == "dtype":
            return dt.what[1]
        try:
            if dt in DTYPES:
                return DTYPES[dt]
        except TypeError:
            pass
        self.unsupported("dtype %r" % (dt,))

    def sc_attr(self, v, name):
        if name == "ndim":
            return 0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        if name == "T":
            return v
        if name in ("copy",):
            return Builtin(name, lambda it, a, k: v)
        if name == "item":
            return Builtin(name, lambda it, a, k: Sc(it.lift(v).t, "py"))
        if name in ("sum", "mean", "min", "max"):
            return Builtin(name, lambda it, a, k: v)
        if name == "astype":
            return Builtin(name, lambda it, a, k: v)
        if name == "dtype":
            t = self.lift(v).t
            return Opaque(("dtype", "b" if t.isbool else "i" if t.isint else "f"))
        if name in ("real",):
            return v
        self.unsupported("scalar attribute %s" % name)

    def container_method(self, ref, r, name):
        if isinstance(r, ListRec):
            if name == "append":
                return Builtin(name, lambda it, a, k: it.list_append(ref, a[0]))
            if name == "extend":
                return Builtin(name, lambda it, a, k: it.list_extend(ref, a[0]))
            if name == "copy":
                return Builtin(name, lambda it, a, k: it.list_slice(it.rec(ref), slice(None)))
            if name == "insert":
                return Builtin(name, lambda it, a, k: it.list_insert(ref, a[0], a[1]))
            if name == "clear":
                return Builtin(name, lambda it, a, k: it.list_clear(ref))
            if name == "pop":
                return Builtin(name, lambda it, a, k: it.list_pop(ref, a))
            if name == "index":
                return Builtin(name, lambda it, a, k: it.list_index(ref, a[0]))
            if name == "count":
                return Builtin(name, lambda it, a, k: it.list_count(ref, a[0]))
            if name == "__len__":
                return Builtin(name, lambda it, a, k: it.length(ref))
            self.unsupported("list method %s" % name)
        if isinstance(r, DictRec):
            if name == "get":
                return Builtin(name, lambda it, a, k: it.dict_get(it.rec(ref), a[0], a[1] if len(a) > 1 else None))
            if name == "keys":
                return Builtin("keys", lambda it, a, k: Builtin("keys", ref))
            if name in ("items", "values"):
                return Builtin(name, lambda it, a, k: Builtin(name + "view", ref))
            if name == "setdefault":
                return Builtin(name, lambda it, a, k: it.dict_setdefault(ref, a[0], a[1] if len(a) > 1 else None))
            if name == "copy":
                return Builtin(name, lambda it, a, k: Ref(it.st.alloc(DictRec(dict(it.rec(ref).items) if it.rec(ref).items is not None else None, it.rec(ref).sym))))
            if name == "__len__":
                return Builtin(name, lambda it, a, k: it.length(ref))
            if name == "update":
                return Builtin(name, lambda it, a, k: it.dict_update(ref, a[0]))
            if name == "__contains__":
                return Builtin(name, lambda it, a, k: Sc(it.contains(ref, a[0]), "py"))
            self.unsupported("dict method %s" % name)
        self.unsupported("container method %s" % name)

    def dict_update(self, ref, other):
        o = self.rec(other) if isinstance(other, Ref) else None
        if isinstance(o, DictRec) and o.items is not None:
            for k, v in o.items.items():
                self.dict_set(ref, k, v)
            return
        self.unsupported("dict.update")

    def dict_setdefault(self, ref, key, val):
        r = self.rec(ref)
        got = self.dict_get(r, key, MISSING_DEFAULT)
        if got is MISSING_DEFAULT:
            self.dict_set(ref, key, val)
            return val
        return got

    def list_append(self, ref, val):
        r = self.rec(ref)
        self.written.add(ref.oid)
        if r.items is not None:
            self.st.heap[ref.oid] = ListRec(items=r.items + [val])
            return None
        self.st.heap[ref.oid] = self.rec(self.list_concat(r, ListRec(items=[val])))

    def list_extend(self, ref, val):
        o = self.make_list(val)
        self.written.add(ref.oid)
        self.st.heap[ref.oid] = self.rec(self.list_concat(self.rec(ref), self.rec(o)))

    def list_insert(self, ref, i, val):
        t = self.int_t(i)
        if t is ZERO:
            self.written.add(ref.oid)
            self.st.heap[ref.oid] = self.rec(self.list_concat(ListRec(items=[val]), self.rec(ref)))
            return
        if self.same_len(t, self.list_len(self.rec(ref))):
            return self.list_append(ref, val)
        self.unsupported("list.insert")

    def list_clear(self, ref):
        self.written.add(ref.oid)
        self.st.heap[ref.oid] = ListRec(items=[])

    def list_pop(self, ref, a):
        r = self.rec(ref)
        if r.items:
            p = self.conc_int(a[0]) if a else -1
            items = list(r.items)
            v = items.pop(p)
            self.written.add(ref.oid)
            self.st.heap[ref.oid] = ListRec(items=items)
            return v
        if r.items is None and not a and isinstance(r.axis, Plain):
            n = self.simp(tm.sub(r.axis.L, ONE))
            if self.implied(tm.le(ZERO, n)):
                v = self.list_get(r, n)
                self.written.add(ref.oid)
                self.st.heap[ref.oid] = ListRec(axis=Plain(n), content=r.content, elem=r.elem, kind=r.kind)
                return v
        self.unsupported("list.pop")

    def list_index(self, ref, x):
        """First index holding x: least i with l[i] == x."""
        axis, content, elem, kind = self.to_sym(self.rec(ref))
        if not isinstance(axis, Plain) or elem != "sc":
            self.unsupported("list.index")
        t = self.num_t(x)
        b = tm.fresh("x")
        g = tm.and_(tm.rng(b, axis.L), tm.eq(content(b), t))
        # the only case understood: x is one of the extrema of the list (found somewhere)
        self.unsupported("list.index")

    def list_count(self, ref, x):
        axis, content, elem, kind = self.to_sym(self.rec(ref))
        if elem != "sc":
            self.unsupported("list.count")
        i, vs, g = axis.fresh_index()
        return Sc(tm.sum_(vs, tm.and_(g, tm.eq(content(i), self.num_t(x))), ONE), "py")

    # ================================================================ lengths, lists
    def length(self, v):
        if isinstance(v, (tuple, str, dict)):
            return len(v)
        if isinstance(v, Opaque) and isinstance(v.what, tuple) and v.what[0] == "shape":
            return Sc(v.what[1], "py")
        if isinstance(v, Builtin) and v.name in ("keys", "itemsview", "valuesview"):
            return self.length(v.fn)
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ListRec):
                t = self.list_len(r)
            elif isinstance(r, DictRec):
                t = self.dict_len(r)
            elif "@list" in r.attrs:
                return self.length(r.attrs["@list"])
            elif isinstance(getattr(r.cls, "__len__", None), types.FunctionType):
                return self.call_function(r.cls.__len__, [v], {})
            else:
                raise PyRaise(TypeError, "object has no len()")
            return int(t.args[0]) if t.op == "num" else Sc(t, "py")
        if isinstance(v, Arr):
            if not v.axes:
                raise PyRaise(TypeError, "len() of unsized object")
            return self.dim_value(v.axes[0])
        if isinstance(v, SetV):
            return self.length(v.u)
        if isinstance(v, Rng):
            axis, _ = self.iterate(v)
            return self.dim_value(axis)
        if isinstance(v, Seq):
            return len(v.get) if v.axis is None else self.dim_value(v.axis)
        if isinstance(v, Sc) or isinstance(v, (int, float)):
            raise PyRaise(TypeError, "len() of a number")
        if isinstance(v, Foreign):
            self.foreign_reads.add(v.what)
            return len(v.obj)
        self.unsupported("len of %r" % (type(v),))

    def make_list(self, v):
        """list(v) as a new list."""
        if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
            return self.list_slice(self.rec(v), slice(None))
        if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec) and "@list" in self.rec(v).attrs:
            return self.make_list(self.rec(v).attrs["@list"])
        items = self.try_concrete(v)
        if items is not None:
            return self.new_list(items)
        axis, get = self.iterate(v)
        i, vs, g = axis.fresh_index("q")
        return self.comp_value(axis, (i, vs), get(i))

    # ================================================================ numpy dispatch
    def np_lookup(self, f):
        try:
            return NP.get(f)
        except TypeError:
            return None

    def np_call(self, f, args, kw):
        h = self.np_lookup(f)
        if h is None:
            self.unsupported("numpy function %s" % getattr(f, "__name__", f))
        kw = dict(kw)
        kw.pop("casting", None)
        args = [self.unkey(a) for a in args]
        return h(self, *args, **kw) if self._ok_kw(h, args, kw) else self.unsupported("arguments of %s" % getattr(f, "__name__", f))

    def unkey(self, a):
        if isinstance(a, Builtin) and a.name == "keys":
            return self.make_list(a)
        return a

    def _ok_kw(self, h, args, kw):
        import inspect
        try:
            inspect.signature(h).bind(self, *args, **kw)
            return True
        except TypeError:
            return False

    def builtin_call(self, f, args, kw):
        h = None
        try:
            h = BI.get(f)
        except TypeError:
            pass
        if h is None:
            h2 = self.np_lookup(f)
            if h2 is not None:
                if any(self.oneshot(a) for a in args) and f is not np.fromiter:
                    self.unsupported("numpy function of an iterator")
                return self.np_call(f, args, kw)
            self.unsupported("builtin %s" % getattr(f, "__name__", f))
        if not self._ok_kw(h, args, kw):
            self.unsupported("arguments of %s" % getattr(f, "__name__", f))
        return h(self, *args, **kw)

    # ---------------------------------------------------------------- array helpers
    def arr(self, v):
        """(axes, reader of numbers, dtype); booleans become 0/1."""
        axes, rd, dt = self.as_array(v)
        return axes, (lambda idx: self.as_num(rd(idx))), dt

    def result(self, axes, rd, dt, kind="np"):
        if not axes:
            return Sc(rd([]), kind)
        return self.new_arr(axes, rd, dt)

    def shape_axes(self, shape):
        if isinstance(shape, Ref) and isinstance(self.rec(shape), ListRec):
            shape = tuple(self.concrete_items(shape))
        if not isinstance(shape, tuple):
            shape = (shape,)
        out = []
        for x in shape:
            t = self.int_t(x)
            if not self.implied(tm.le(ZERO, t)):
                if self.implied(tm.lt(t, ZERO)):
                    raise PyRaise(ValueError, "negative dimensions")
                self.need("ValueError: negative dimension", tm.le(ZERO, t))
            out.append(Plain(t))
        return out

    def reduce_axes(self, axes, axis):
        n = len(axes)
        if axis is None:
            return list(range(n))
        if isinstance(axis, tuple):
            ps = [self.conc_int(x) for x in axis]
            if any(not -n <= p < n for p in ps):
                raise PyRaise(np.exceptions.AxisError if hasattr(np, "exceptions") else ValueError, "axis")
            if len({p % n for p in ps}) != len(ps):
                raise PyRaise(ValueError, "duplicate value in axis")
            return sorted(p % n for p in ps)
        p = self.conc_int(axis)
        if not -n <= p < n:
            raise PyRaise(np.exceptions.AxisError if hasattr(np, "exceptions") else ValueError, "axis")
        return [p % n]

    def reduce(self, v, axis, keepdims, build):
        """build(binders, guard, body) -> term"""
        axes, rd, dt = self.arr(v)
        red = self.reduce_axes(axes, axis)
        keep = [k for k in range(len(axes)) if k not in red]
        if isinstance(keepdims, Sc) or keepdims not in (True, False, None):
            self.unsupported("keepdims")
        res = []
        for k in range(len(axes)):
            if k in red:
                if keepdims:
                    res.append(Plain(ONE))
            else:
                res.append(axes[k])

        def f(idx):
            full, bs, g = [None] * len(axes), [], TRUE
            it = list(idx)
            for k in range(len(axes)):
                if k in red:
                    if keepdims:
                        it.pop(0)
                    i, vs, gg = axes[k].fresh_index("r")
                    full[k] = i
                    bs.extend(vs)
                    g = tm.and_(g, gg)
                else:
                    full[k] = it.pop(0)
            return build(bs, g, rd(full))
        count = ONE
        for k in red:
            count = tm.mul(count, axes[k].length())
        return res, f, dt, count

    def transpose(self, a, axes=None):
        if isinstance(a, Arr):
            n = len(a.axes)
            perm = list(range(n))[::-1] if axes is None else [self.conc_int(x) % n for x in self.concrete_items(axes)]
            inv = {p: k for k, p in enumerate(perm)}
            sel = [s if s[0] == "fix" else ("ax", inv[s[1]], s[2]) for s in a.sel]
            return Arr(a.oid, [a.axes[p] for p in perm], sel)
        if self.isnum(a):
            return a
        return self.transpose(self.np_array(a), axes)

    def matmul(self, a, b):
        A, ra, da = self.arr(a)
        B, rb, db = self.arr(b)
        if not A or not B:
            self.unsupported("matmul of a scalar")
        if len(A) > 2 or len(B) > 2:
            self.unsupported("matmul of stacks")
        ka = A[-1]
        kb = B[0]
        if not self.same_axis(ka, kb):
            if isinstance(ka, Plain) and isinstance(kb, Plain) and self.implied(tm.not_(tm.eq(ka.L, kb.L))):
                raise PyRaise(ValueError, "matmul shapes")
            self.unsupported("cannot show that matmul shapes agree")
        self.machine_ints((A, ra, da), (B, rb, db))
        axes = A[:-1] + B[1:]
        na = len(A) - 1

        def rd(idx):
            i, vs, g = ka.fresh_index("r")
            return tm.sum_(vs, g, tm.mul(ra(list(idx[:na]) + [i]), rb([i] + list(idx[na:]))))
        return self.result(axes, rd, "f" if "f" in (da, db) else ("i" if da in "ib" and db in "ib" else "?"))

    def ufunc_outer(self, f, args):
        A, ra, da = self.arr(args[0])
        B, rb, db = self.arr(args[1])
        ops = {np.add: "Add", np.subtract: "Sub", np.multiply: "Mult", np.divide: "Div", np.true_divide: "Div"}
        na = len(A)
        dt = "f" if "f" in (da, db) or f is np.divide else "i" if da in "ib" and db in "ib" else "?"
        if f in ops and ops[f] != "Div":
            self.machine_ints((A, ra, da), (B, rb, db))
        if f in ops:
            return self.new_arr(A + B, lambda idx: self.scalar_op(ops[f], ra(list(idx[:na])), rb(list(idx[na:])), False), dt)
        if f in (np.minimum, np.maximum):
            g = tm.min2 if f is np.minimum else tm.max2
            return self.new_arr(A + B, lambda idx: g(ra(list(idx[:na])), rb(list(idx[na:]))), dt)
        self.unsupported("ufunc.outer")

    def elementwise(self, v, f, dt=None):
        axes, rd, d = self.arr(v)
        return self.result(axes, lambda idx: f(rd(idx)), dt or d)

    def elementwise2(self, a, b, f, dt=None):
        A, ra, da = self.arr(a)
        B, rb, db = self.arr(b)
        axes, (r1, r2) = self.broadcast([(A, ra), (B, rb)])
        return self.result(axes, lambda idx: f(r1(idx), r2(idx)), dt or ("i" if da in "ib" and db in "ib" else "f" if "f" in (da, db) else "?"))

    def extremum(self, kind, v, axis, keepdims, initial=None):
        axes, rd, dt = self.arr(v)
        red = self.reduce_axes(axes, axis)
        # non-emptiness is a safety condition (ValueError otherwise)
        g, bs = TRUE, []
        for k in red:
            i, vs, gg = axes[k].fresh_index("r")
            bs.extend(vs)
            g = tm.and_(g, gg)
        if bs and initial is None:
            self.need_nonempty(bs, g)
        res, f, dt, _ = self.reduce(v, axis, keepdims, lambda b, gg, body: tm.ext(kind, b, gg, body) if b else body)
        if initial is not None:
            t0 = self.num_t(initial)
            self.unsupported("initial=")
        return self.result(res, f, dt)

    def need_nonempty(self, bs, g):
        from norm import Norm
        if not self.ctx.nonempty(Norm(self.ctx), list(bs), g):
            self.need("ValueError: extremum of an empty sequence", tm.exists(list(bs), g))


MISSING_DEFAULT = object()


# ==================================================================== numpy models

@model(np.zeros, np.empty)
def m_zeros(it, shape, dtype=None, order=None):
    d = it.dt(dtype)
    return it.new_arr(it.shape_axes(shape), (lambda idx: FALSE) if d == "b" else (lambda idx: ZERO), d)


def m_empty(it, shape, dtype=None, order=None):
    d = it.dt(dtype)
    it.nempty = getattr(it, "nempty", 0) + 1
    f = "uninit!%d" % it.nempty
    return it.new_arr(it.shape_axes(shape), lambda idx: tm.app(f, *flatten(idx), isint=d == "i") if d != "b" else tm.bapp(f, *flatten(idx)), d)


NP[np.empty] = m_empty


@model(np.ones)
def m_ones(it, shape, dtype=None, order=None):
    d = it.dt(dtype)
    return it.new_arr(it.shape_axes(shape), (lambda idx: TRUE) if d == "b" else (lambda idx: ONE), d)


@model(np.full)
def m_full(it, shape, fill_value, dtype=None):
    s = it.lift(fill_value)
    d = it.dt(dtype) if dtype is not None else ("b" if s.t.isbool else "i" if s.t.isint else "f")
    t = s.t if d == "b" else it.num_t(s)
    return it.new_arr(it.shape_axes(shape), lambda idx: t, d)


@model(np.zeros_like, np.ones_like, np.empty_like)
def m_like(it, a, dtype=None):
    it.unsupported("like")


def _like(fill):
    def h(it, a, dtype=None):
        axes, rd, dt = it.as_array(a)
        d = it.dt(dtype) if dtype is not None else dt
        if d == "?":
            it.unsupported("zeros_like of uncertain dtype")
        if d == "b":
            return it.new_arr(axes, lambda idx: TRUE if fill is ONE else FALSE, d)
        return it.result(axes, lambda idx: fill, d)
    return h


NP[np.zeros_like] = _like(ZERO)
NP[np.ones_like] = _like(ONE)
del NP[np.empty_like]


@model(np.full_like)
def m_full_like(it, a, fill_value, dtype=None):
    axes, rd, dt = it.as_array(a)
    d = it.dt(dtype) if dtype is not None else dt
    t = it.num_t(fill_value)
    if d == "i" and not t.isint or d in "?b":
        it.unsupported("full_like")
    return it.result(axes, lambda idx: t, d)


@model(np.eye, np.identity)
def m_eye(it, N, M=None, k=0, dtype=None):
    d = it.dt(dtype)
    if M is not None or k != 0:
        it.unsupported("eye arguments")
    a = it.shape_axes((N, N))
    if d == "b":
        return it.new_arr(a, lambda idx: tm.eq(idx[0], idx[1]), "b")
    return it.new_arr(a, lambda idx: tm.ite(tm.eq(idx[0], idx[1]), ONE, ZERO), d)


@model(np.array)
def m_array(it, v, dtype=None, copy=True, ndmin=0):
    if isinstance(v, Rng):
        v = it.make_list(v)
    a = it.np_array(v)
    if dtype is not None:
        a = it.astype(a, dtype)
    n = it.conc_int(ndmin)
    while len(a.axes) < n:
        a = it.arr_getitem(a, (None, Ellipsis))
    return a


@model(np.asarray, np.asanyarray, np.ascontiguousarray)
def m_asarray(it, v, dtype=None):
    if isinstance(v, Arr):
        if dtype is None or it.dt(dtype) == it.dtype(v):
            return v
        return it.astype(v, dtype)
    return m_array(it, v, dtype)


del NP[np.ascontiguousarray]


@model(np.copy)
def m_copy(it, v):
    axes, rd, dt = it.as_array(v)
    return it.np_array(v)


@model(np.atleast_1d)
def m_al1(it, v):
    if isinstance(v, Arr) and v.axes:
        return v
    axes, rd, dt = it.as_array(v)
    if not axes:
        return it.new_arr([Plain(ONE)], lambda idx: rd([]), dt)
    return it.np_array(v)


@model(np.atleast_2d)
def m_al2(it, v):
    if isinstance(v, Arr) and len(v.axes) >= 2:
        return v
    if isinstance(v, Arr) and len(v.axes) == 1:
        return it.arr_getitem(v, (None, slice(None)))
    a = it.np_array(v)
    while len(a.axes) < 2:
        a = it.arr_getitem(a, (None, Ellipsis))
    return a


@model(np.float64, np.float32, np.int64, np.int32, np.bool_)
def m_npscalar(it, v=0):
    it.unsupported("numpy scalar constructor")


def _mk_scalar(d):
    def h(it, v=0):
        if isinstance(v, Arr) and v.axes:
            return it.astype(v, {"f": float, "i": int, "b": bool}[d])
        t = it.not_label(it.num_t(v)) if d != "b" else None
        if d == "i" and not t.isint:
            t = tm.fn("trunc", t)
        if d == "b":
            return Sc(it.truth(v), "np")
        return Sc(t, "np")
    return h


NP[np.float64] = _mk_scalar("f")


@model(np.finfo)
def m_finfo(it, dtype=float):
    if dtype not in (float, np.float64):
        it.unsupported("finfo of another type")
    return Opaque(("finfo",))


NP[np.int64] = _mk_scalar("i")
NP[np.bool_] = _mk_scalar("b")
for _x in (np.float32, np.int32):
    NP.pop(_x, None)


@model(np.arange)
def m_arange(it, a, b=None, step=1, dtype=None):
    lo, hi = (ZERO, it.int_t(a)) if b is None else (it.int_t(a), it.int_t(b))
    if step != 1:
        it.unsupported("arange step")
    n = it.simp(tm.sub(hi, lo))
    if not it.implied(tm.le(ZERO, n)):
        n = tm.ite(tm.le(ZERO, n), n, ZERO)
    return it.new_arr([Plain(n)], lambda idx: tm.add(idx[0], lo), it.dt(dtype) if dtype is not None else "i")


def stack_rows(it, seq, to2):
    """Items of a stacking function as list of (axes, reader, dtype) with 1-d promoted by to2."""
    if isinstance(seq, Ref) and isinstance(it.rec(seq), ListRec) and it.rec(seq).items is None:
        return None
    items = it.concrete_items(seq) if not isinstance(seq, tuple) else list(seq)
    out = []
    for x in items:
        axes, rd, dt = it.as_array(x)
        out.append(to2(axes, rd) + (dt,))
    return out


def concat(it, parts, ax):
    """Concatenate along axis position ax."""
    dts = {p[2] for p in parts}
    # an empty float array (0 rows) promotes; the result dtype is f if any is f
    dt = "f" if "f" in dts else ("i" if dts <= {"i"} else "b" if dts <= {"b"} else "?")
    first = parts[0]
    for p in parts[1:]:
        if len(p[0]) != len(first[0]):
            raise PyRaise(ValueError, "all the input array dimensions must match (%s)" % it.where)
        for k in range(len(p[0])):
            if k != ax and not it.same_axis(p[0][k], first[0][k]):
                a, b = p[0][k], first[0][k]
                if isinstance(a, Plain) and isinstance(b, Plain) and it.implied(tm.not_(tm.eq(a.L, b.L))):
                    raise PyRaise(ValueError, "stack shapes (%s)" % it.where)
                it.unsupported("cannot show that stacked shapes agree")
    for p in parts:
        if not isinstance(p[0][ax], Plain):
            it.unsupported("concatenation of filtered axes")
    L = ZERO
    offs = []
    for p in parts:
        offs.append(L)
        L = it.simp(tm.add(L, p[0][ax].L))
    axes = list(first[0])
    axes[ax] = Plain(L)

    def rd(idx):
        out = None
        for p, o in list(zip(parts, offs))[::-1]:
            j = list(idx)
            j[ax] = tm.sub(idx[ax], o) if o is not ZERO else idx[ax]
            v = p[1](j)
            if dt != "b":
                v = it.as_num(v)
            if dt == "f" and p[2] == "i":
                v = it.not_label(v)
            if out is None:
                out = v
            else:
                end = tm.add(o, p[0][ax].L)
                out = tm.ite(tm.lt(idx[ax], end), v, out)
        return out
    return it.new_arr(axes, rd, dt)


@model(np.vstack)
def m_vstack(it, seq, dtype=None):
    def to2(axes, rd):
        if len(axes) == 0:
            return [Plain(ONE), Plain(ONE)], (lambda idx: rd([]))
        if len(axes) == 1:
            return [Plain(ONE)] + list(axes), (lambda idx: rd(idx[1:]))
        return list(axes), rd
    parts = stack_rows(it, seq, to2)
    if parts is None:
        axes, rd, dt = it.as_array(seq)
        if len(axes) == 2:
            return it.new_arr(axes, rd, dt)
        it.unsupported("vstack of a symbolic list")
    return concat(it, parts, 0)


if hasattr(np, "row_stack"):
    NP[getattr(np, "row_stack")] = m_vstack


@model(np.hstack)
def m_hstack(it, seq):
    def to1(axes, rd):
        if len(axes) == 0:
            return [Plain(ONE)], (lambda idx: rd([]))
        return list(axes), rd
    parts = stack_rows(it, seq, to1)
    if parts is None:
        it.unsupported("hstack of a symbolic list")
    return concat(it, parts, 0 if len(parts[0][0]) == 1 else 1)


@model(np.column_stack)
def m_colstack(it, seq):
    def to2(axes, rd):
        if len(axes) == 1:
            return list(axes) + [Plain(ONE)], (lambda idx: rd(idx[:1]))
        return list(axes), rd
    parts = stack_rows(it, seq, to2)
    if parts is None:
        it.unsupported("column_stack of a symbolic list")
    return concat(it, parts, 1)


@model(np.dstack)
def m_dstack(it, seq):
    def to3(axes, rd):
        if len(axes) == 0:
            return [Plain(ONE)] * 3, (lambda idx: rd([]))
        if len(axes) == 1:
            return [Plain(ONE)] + list(axes) + [Plain(ONE)], (lambda idx: rd([idx[1]]))
        if len(axes) == 2:
            return list(axes) + [Plain(ONE)], (lambda idx: rd(idx[:2]))
        return list(axes), rd
    parts = stack_rows(it, seq, to3)
    if parts is None:
        it.unsupported("dstack of a symbolic list")
    return concat(it, parts, 2)


@model(np.concatenate)
def m_concatenate(it, seq, axis=0):
    parts = stack_rows(it, seq, lambda a, r: (list(a), r))
    if parts is None:
        it.unsupported("concatenate of a symbolic list")
    if axis is None:
        it.unsupported("concatenate axis=None")
    if not parts[0][0]:
        raise PyRaise(ValueError, "zero-dimensional arrays cannot be concatenated")
    return concat(it, parts, it.conc_int(axis) % len(parts[0][0]))


@model(np.append)
def m_append(it, a, v, axis=None):
    if axis is None:
        A, B = m_ravel(it, a), m_ravel(it, v)
        return m_concatenate(it, (A, B), 0)
    return m_concatenate(it, (a, v), axis)


@model(np.stack)
def m_stack(it, seq, axis=0):
    ax = it.conc_int(axis)
    if isinstance(seq, Ref) and it.rec(seq).items is None:
        axes, rd, dt = it.as_array(seq)
        if ax == 0:
            return it.new_arr(axes, rd, dt)
        if ax in (-1, len(axes) - 1):
            return it.new_arr(list(axes[1:]) + [axes[0]], lambda idx: rd([idx[-1]] + list(idx[:-1])), dt)
        it.unsupported("stack axis")
    n = None
    items = it.concrete_items(seq)
    parts = []
    for x in items:
        axes, rd, dt = it.as_array(x)
        n = len(axes) + 1
        p = ax % n
        parts.append((list(axes[:p]) + [Plain(ONE)] + list(axes[p:]), (lambda idx, rd=rd, p=p: rd(list(idx[:p]) + list(idx[p + 1:]))), dt))
    return concat(it, parts, ax % n)


@model(np.ravel)
def m_ravel(it, a, order=None):
    axes, rd, dt = it.as_array(a)
    if len(axes) == 1:
        return a if isinstance(a, Arr) else it.new_arr(axes, rd, dt)
    if not axes:
        return it.new_arr([Plain(ONE)], lambda idx: rd([]), dt)
    if len(axes) == 2 and it.is_one(axes[0]):
        return it.new_arr([axes[1]], lambda idx: rd([ZERO, idx[0]]), dt)
    if len(axes) == 2 and it.is_one(axes[1]):
        return it.new_arr([axes[0]], lambda idx: rd([idx[0], ZERO]), dt)
    # row-major enumeration of all index tuples
    bs, g = [], TRUE
    widths = []
    for x in axes:
        i, vs, gg = x.fresh_index("m")
        bs.extend(vs)
        widths.append((len(vs), isinstance(x, Filt)))
        g = tm.and_(g, gg)

    def f(idx):
        tup = idx[0] if isinstance(idx[0], tuple) else (idx[0],)
        out, p = [], 0
        for w, isf in widths:
            out.append(tuple(tup[p:p + w]) if isf else tup[p])
            p += w
        return rd(out)
    return it.new_arr([Filt(bs, g)], f, dt)


@model(np.squeeze)
def m_squeeze(it, a, axis=None):
    axes, rd, dt = it.as_array(a)
    drop = [k for k, x in enumerate(axes) if it.is_one(x)] if axis is None else it.reduce_axes(axes, axis)
    for k, x in enumerate(axes):
        if axis is None and k not in drop and not (isinstance(x, Plain) and x.L.op == "num") and not it.implied(tm.not_(tm.eq(x.length(), ONE))):
            it.unsupported("squeeze of an axis of unknown length")
        if k in drop and not it.is_one(x):
            it.unsupported("squeeze")
    if isinstance(a, Arr):
        keep = [k for k in range(len(axes)) if k not in drop]
        return it.arr_getitem(a, tuple(0 if k in drop else slice(None) for k in range(len(axes)))) if keep else Sc(rd([ZERO] * len(axes)), "np")
    it.unsupported("squeeze")


@model(np.reshape)
def m_reshape(it, a, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], (tuple, Ref)):
        shape = tuple(it.concrete_items(shape[0]))
    axes, rd, dt = it.as_array(a)

    def cnt(L, x):
        t = it.int_t(x)
        return t
    ts = [it.int_t(x) for x in shape]
    lens = [x.length() for x in axes]
    real = [L for L in lens if L is not ONE]
    # only: insertion/removal of unit axes (one -1 allowed)
    mins = [k for k, t in enumerate(ts) if t.op == "num" and t.args[0] == -1]
    if len(mins) == 1:
        others = [t for k, t in enumerate(ts) if k != mins[0] and t is not ONE]
        rest = list(real)
        for t in others:
            for q in rest:
                if it.same_len(q, t):
                    rest.remove(q)
                    break
            else:
                it.unsupported("reshape")
        if len(rest) > 1:
            if len(ts) == 1:
                return m_ravel(it, a)
            it.unsupported("reshape")
        ts[mins[0]] = rest[0] if rest else ONE
    tr = [t for t in ts if t is not ONE]
    if len(tr) == len(real) and all(it.same_len(x, y) for x, y in zip(tr, real)):
        src = [k for k, L in enumerate(lens) if L is not ONE]
        dst = [k for k, t in enumerate(ts) if t is not ONE]

        def f(idx):
            out = [ZERO] * len(axes)
            for s, d in zip(src, dst):
                out[s] = idx[d]
            return rd(out)
        naxes = []
        for k, t in enumerate(ts):
            naxes.append(axes[src[dst.index(k)]] if k in dst else Plain(ONE))
        if isinstance(a, Arr):
            # keep view semantics
            sel = []
            for s in a.sel:
                if s[0] == "fix":
                    sel.append(s)
                elif s[1] in src:
                    sel.append(("ax", dst[src.index(s[1])], s[2]))
                else:
                    sel.append(("fix", s[2]))
            return Arr(a.oid, naxes, sel)
        return it.new_arr(naxes, f, dt)
    it.unsupported("reshape")


@model(np.expand_dims)
def m_expand(it, a, axis):
    axes, rd, dt = it.as_array(a)
    p = it.conc_int(axis) % (len(axes) + 1)
    v = a if isinstance(a, Arr) else it.np_array(a)
    return it.arr_getitem(v, tuple([slice(None)] * p + [None] + [slice(None)] * (len(axes) - p)))


@model(np.transpose)
def m_transpose(it, a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, Ref)):
        axes = it.concrete_items(axes[0])
    return it.transpose(a, tuple(axes) if axes else None)


@model(np.swapaxes)
def m_swap(it, a, p, q):
    n = len(a.axes)
    perm = list(range(n))
    i, j = it.conc_int(p) % n, it.conc_int(q) % n
    perm[i], perm[j] = perm[j], perm[i]
    return it.transpose(a, tuple(perm))


@model(np.sum)
def m_sum(it, a, axis=None, dtype=None, keepdims=False):
    if isinstance(a, Seq):
        a = it.make_list(a)
    res, f, dt, _ = it.reduce(a, axis, keepdims, lambda bs, g, body: tm.sum_(bs, g, body) if bs else body)
    return it.result(res, f, "i" if dt in "ib" else dt)


@model(np.mean, np.average)
def m_mean(it, a, axis=None, dtype=None, keepdims=False, weights=None):
    if weights is not None:
        W, rw, _ = it.arr(weights)
        A, ra, _ = it.arr(a)
        if len(W) == 1 and axis is not None:
            p = it.conc_int(axis) % len(A)
            if not it.same_axis(W[0], A[p]):
                it.unsupported("average weights")
            i, vs, g = W[0].fresh_index("r")
            tot = tm.sum_(vs, g, rw([i]))
            res, f, dt, cnt = None, None, None, None
            keep = A[:p] + A[p + 1:]

            def rd(idx):
                j, us, gg = W[0].fresh_index("r")
                return tm.div(tm.sum_(us, gg, tm.mul(rw([j]), ra(list(idx[:p]) + [j] + list(idx[p:])))), tot)
            return it.result(keep, rd, "f")
        it.unsupported("average weights")
    res, f, dt, cnt = it.reduce(a, axis, keepdims, lambda bs, g, body: tm.sum_(bs, g, body) if bs else body)
    return it.result(res, lambda idx: tm.div(f(idx), cnt), "f")


@model(np.var)
def m_var(it, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if out is not None or keepdims:
        it.unsupported("var arguments")
    axes, rd, dt = it.arr(a)
    red = it.reduce_axes(axes, axis)
    if len(red) != 1 and axis is not None:
        it.unsupported("var axes")
    res, f1, _, cnt = it.reduce(a, axis, False, lambda bs, g, body: tm.sum_(bs, g, body))
    res, f2, _, _ = it.reduce(a, axis, False, lambda bs, g, body: tm.sum_(bs, g, tm.mul(body, body)))
    den = tm.sub(cnt, it.num_t(ddof))
    return it.result(res, lambda idx: tm.div(tm.sub(f2(idx), tm.div(tm.mul(f1(idx), f1(idx)), cnt)), den), "f")


@model(np.cov)
def m_cov(it, m, y=None, rowvar=True, bias=False, ddof=None):
    if y is not None or isinstance(rowvar, Sc) or isinstance(bias, Sc):
        it.unsupported("cov arguments")
    axes, rd, dt = it.arr(m)
    if len(axes) != 2:
        it.unsupported("cov of a vector")
    if rowvar:
        V, O = axes
        get = lambda v, o: rd([v, o])  # noqa: E731
    else:
        O, V = axes
        get = lambda v, o: rd([o, v])  # noqa: E731
    if not (isinstance(V, Plain) and it.implied(tm.lt(ONE, V.L))):
        it.unsupported("cov of one variable has no axes")
    n = O.length()
    dd = (0 if bias else 1) if ddof is None else it.conc_int(ddof)

    def f(idx):
        a, b = idx
        i, vs, g = O.fresh_index("r")
        sab = tm.sum_(vs, g, tm.mul(get(a, i), get(b, i)))
        i2, vs2, g2 = O.fresh_index("r")
        sa = tm.sum_(vs2, g2, get(a, i2))
        i3, vs3, g3 = O.fresh_index("r")
        sb = tm.sum_(vs3, g3, get(b, i3))
        return tm.div(tm.sub(sab, tm.div(tm.mul(sa, sb), n)), tm.sub(n, num(dd)))
    return it.new_arr([V, V], f, "f")


@model(np.prod)
def m_prod(it, a, axis=None):
    it.unsupported("prod")


@model(np.inner)
def m_inner(it, a, b):
    A, ra, da = it.arr(a)
    B, rb, db = it.arr(b)
    if not A or not B:
        return it.binop("Mult", a, b)
    ka, kb = A[-1], B[-1]
    if not it.same_axis(ka, kb):
        it.unsupported("inner shapes")
    it.machine_ints((A, ra, da), (B, rb, db))
    na = len(A) - 1

    def rd(idx):
        i, vs, g = ka.fresh_index("r")
        return tm.sum_(vs, g, tm.mul(ra(list(idx[:na]) + [i]), rb(list(idx[na:]) + [i])))
    return it.result(A[:-1] + B[:-1], rd, "f" if "f" in (da, db) else "i" if da in "ib" and db in "ib" else "?")


@model(np.dot)
def m_dot(it, a, b):
    A, _, _ = it.arr(a)
    B, _, _ = it.arr(b)
    if not A or not B:
        return it.binop("Mult", a, b)
    return it.matmul(a, b)


@model(np.vdot)
def m_vdot(it, a, b):
    if len(it.arr(a)[0]) == 1 and len(it.arr(b)[0]) == 1:
        return it.matmul(a, b)
    it.unsupported("vdot")


@model(np.matmul)
def m_matmul(it, a, b):
    return it.matmul(a, b)


@model(np.outer)
def m_outer(it, a, b):
    A, ra, da = it.arr(a)
    B, rb, db = it.arr(b)
    if len(A) != 1 or len(B) != 1:
        it.unsupported("outer of matrices")
    it.machine_ints((A, ra, da), (B, rb, db))
    return it.new_arr(A + B, lambda idx: tm.mul(ra([idx[0]]), rb([idx[1]])), "f" if "f" in (da, db) else "i" if da in "ib" and db in "ib" else "?")


@model(np.einsum)
def m_einsum(it, spec, *ops):
    if not isinstance(spec, str) or "->" not in spec or "." in spec:
        it.unsupported("einsum spec")
    spec = spec.replace(" ", "")
    lhs, out = spec.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        it.unsupported("einsum")
    A = [it.arr(o) for o in ops]
    it.machine_ints(*A)
    ax = {}
    for s, (axes, rd, dt) in zip(ins, A):
        if len(s) != len(axes):
            it.unsupported("einsum rank")
        for c, x in zip(s, axes):
            if c in ax:
                if not it.same_axis(ax[c], x):
                    it.unsupported("einsum shapes")
            else:
                ax[c] = x
    red = [c for c in ax if c not in out]

    def f(idx):
        m = dict(zip(out, idx))
        bs, g = [], TRUE
        for c in red:
            i, vs, gg = ax[c].fresh_index("r")
            m[c] = i
            bs.extend(vs)
            g = tm.and_(g, gg)
        t = ONE
        for s, (axes, rd, dt) in zip(ins, A):
            t = tm.mul(t, rd([m[c] for c in s]))
        return tm.sum_(bs, g, t) if bs else t
    return it.result([ax[c] for c in out], f, "f" if any(a[2] == "f" for a in A) else "?")


@model(np.trace)
def m_trace(it, a):
    axes, rd, dt = it.arr(a)
    if len(axes) != 2 or not it.same_axis(axes[0], axes[1]):
        it.unsupported("trace")
    i, vs, g = axes[0].fresh_index("r")
    return Sc(tm.sum_(vs, g, rd([i, i])), "np")


@model(np.diag, np.diagonal)
def m_diag(it, a):
    axes, rd, dt = it.arr(a)
    if len(axes) == 2 and it.same_axis(axes[0], axes[1]):
        return it.new_arr([axes[0]], lambda idx: rd([idx[0], idx[0]]), dt)
    if len(axes) == 1:
        return it.new_arr([axes[0], axes[0]], lambda idx: tm.ite(tm.eq(idx[0], idx[1]), rd([idx[0]]), ZERO), dt)
    it.unsupported("diag")


@model(np.fill_diagonal)
def m_fill_diagonal(it, a, val):
    if isinstance(a, Arr) and len(a.axes) == 2 and it.isnum(val):
        t = it.num_t(val)
        it.write(a, lambda view: tm.eq(view[0], view[1]), lambda view: it.cast_store(a, t))
        return None
    it.unsupported("fill_diagonal")


@model(np.min, np.amin)
def m_min(it, a, axis=None, keepdims=False):
    return it.extremum("min", a, axis, keepdims)


@model(np.max, np.amax)
def m_max(it, a, axis=None, keepdims=False):
    return it.extremum("max", a, axis, keepdims)


@model(np.argmin, np.argmax)
def m_arg(it, a, axis=None):
    it.unsupported("argmin/argmax")


@model(np.minimum, np.fmin)
def m_minimum(it, a, b):
    return it.elementwise2(a, b, tm.min2)


@model(np.maximum, np.fmax)
def m_maximum(it, a, b):
    return it.elementwise2(a, b, tm.max2)


@model(np.clip)
def m_clip(it, a, a_min=None, a_max=None):
    v = a
    if a_min is not None:
        v = it.elementwise2(v, a_min, tm.max2)
    if a_max is not None:
        v = it.elementwise2(v, a_max, tm.min2)
    return v


@model(np.divide, np.true_divide)
def m_divide(it, a, b, out=None, where=None):
    if where is not None:
        A, ra, da = it.arr(a)
        B, rb, db = it.arr(b)
        W, rw, dw = it.as_array(where)
        if isinstance(out, Arr):
            O, ro, do = out.axes, it.reader(out), it.dtype(out)
            axes, (r1, r2, r3) = it.broadcast([(A, ra), (B, rb), (W, rw)])
            rb2 = [it.broadcast_to(O, axes, r) for r in (r1, r2, r3)]
            it.write(out, lambda v: rb2[2](v), lambda v: tm.div(rb2[0](v), rb2[1](v)))
            return out
        it.unsupported("divide where= without out=")
    r = it.arr_binop("Div", a, b)
    if isinstance(out, Arr):
        it.store_full(out, r)
        return out
    return r if r.axes else Sc(it.read(r, []), "np")


def _bin(op):
    def h(it, a, b):
        r = it.arr_binop(op, a, b)
        return r if r.axes else Sc(it.read(r, []), "np")
    return h


NP[np.add] = _bin("Add")
NP[np.subtract] = _bin("Sub")
NP[np.multiply] = _bin("Mult")
NP[np.power] = _bin("Pow")
NP[np.float_power] = _bin("Pow")
NP[np.floor_divide] = _bin("FloorDiv")


@model(np.negative)
def m_negative(it, a):
    it.machine_ints(it.arr(a))
    return it.elementwise(a, tm.neg)


@model(np.square)
def m_square(it, a):
    it.machine_ints(it.arr(a))
    return it.elementwise(a, lambda t: tm.mul(t, t))


@model(np.reciprocal)
def m_recip(it, a):
    return it.elementwise(a, tm.inv, "f")


@model(np.abs, np.fabs)
def m_abs(it, a):
    return it.elementwise(a, lambda t: tm.max2(t, tm.neg(t)))


def _python_float(it, a, ok, what):
    """math.f: a scalar, shown here (by sign rules) to lie in the domain on which math.f does not raise."""
    if not it.isnum(a):
        it.unsupported("math function of an array")
    t = it.num_t(a)
    if not ok(t):
        it.unsupported("cannot show that %s does not raise" % what)
    return t


@model(math.sqrt)
def m_msqrt(it, a):
    return Sc(tm.fn("sqrt", _python_float(it, a, lambda t: prove.nonneg(t, it.ctx), "math.sqrt")), "py")


@model(math.log)
def m_mlog(it, a):
    return Sc(tm.fn("log", _python_float(it, a, lambda t: prove.positive(t, it.ctx), "math.log")), "py")


@model(math.exp)
def m_mexp(it, a):
    return Sc(tm.fn("exp", _python_float(it, a, lambda t: prove.nonneg(tm.neg(t), it.ctx), "math.exp")), "py")


@model(np.sqrt)
def m_sqrt(it, a):
    return it.elementwise(a, lambda t: tm.fn("sqrt", t), "f")


@model(np.exp)
def m_exp(it, a):
    return it.elementwise(a, lambda t: tm.fn("exp", t), "f")


@model(np.isfinite, np.isnan, np.isinf)
def m_isf(it, a):
    it.unsupported("isnan/isfinite")


@model(np.linalg.norm)
def m_norm(it, a, ord=None, axis=None, keepdims=False):
    if isinstance(ord, Sc) and ord.t.op == "num":
        ord = ord.t.args[0]
    if isinstance(ord, Sc) and ord.t is tm.INF:
        ord = math.inf
    if isinstance(ord, (Sc, Arr, Ref, str)) or ord not in (None, 2, 1, math.inf):
        it.unsupported("norm ord")
    axes, rd, dt = it.arr(a)
    if ord in (1, math.inf):
        if axis is None and len(axes) != 1:
            it.unsupported("matrix norm")
        v = it.elementwise(a, lambda t: tm.max2(t, tm.neg(t)))
        return m_sum(it, v, axis=axis, keepdims=keepdims) if ord == 1 else m_max(it, v, axis=axis, keepdims=keepdims)
    if axis is None and len(axes) > 1 and ord is not None:
        it.unsupported("matrix norm")
    res, f, dt, _ = it.reduce(a, axis, keepdims, lambda bs, g, body: tm.sum_(bs, g, tm.mul(body, body)) if bs else tm.mul(body, body))
    return it.result(res, lambda idx: tm.fn("sqrt", f(idx)), "f")


def _square(it, a):
    axes, rd, dt = it.arr(a)
    if len(axes) != 2 or not it.same_axis(axes[0], axes[1]) or not isinstance(axes[0], Plain):
        it.unsupported("matrix function of a non-square or unknown shape")
    return axes, rd


@model(np.linalg.det)
def m_det(it, a):
    axes, rd = _square(it, a)
    return Sc(tm.det(axes[0].L, lambda p, q: rd([p, q])), "np")


def _regular(it, axes, rd):
    """Obligation: the determinant is positive here."""
    t = tm.det(axes[0].L, lambda p, q: rd([p, q]))
    it.need("singular matrix", tm.lt(ZERO, t))


@model(np.linalg.slogdet)
def m_slogdet(it, a):
    """Assumed contract on matrices with positive determinant: (1, log det)."""
    axes, rd = _square(it, a)
    _regular(it, axes, rd)
    return (Sc(ONE, "np"), Sc(tm.fn("log", tm.det(axes[0].L, lambda p, q: rd([p, q]))), "np"))


@model(np.log)
def m_log(it, a):
    t = a.t if isinstance(a, Sc) else None
    for u in (tm.walk(t) if t is not None else ()):
        if u.op == "det":
            it.need("logarithm of a determinant that is not positive", tm.lt(ZERO, u))
    if t is None:
        axes, rd, _ = it.arr(a)
        if any(u.op == "det" for u in tm.walk(rd([tm.fresh("q") for _ in axes]))):
            it.unsupported("logarithm of determinants in an array")
    return it.elementwise(a, lambda t: tm.fn("log", t), "f")


@bi(itertools.combinations)
def b_combinations(it, v, r):
    if it.conc_int(r) != 2:
        it.unsupported("combinations of more than two")
    axis, get = it.iterate(v)
    if not isinstance(axis, Plain):
        it.unsupported("combinations of a filtered sequence")
    p, q = tm.fresh("c"), tm.fresh("c")
    return Seq(Filt([p, q], tm.and_(tm.le(ZERO, p), tm.lt(p, q), tm.lt(q, axis.L))), lambda pq: (get(pq[0]), get(pq[1])))


@model(np.linalg.inv)
def m_inv(it, a):
    axes, rd = _square(it, a)
    _regular(it, axes, rd)
    return it.new_arr(axes, lambda idx: tm.minv(axes[0].L, lambda p, q: rd([p, q]), idx[0], idx[1]), "f")


@model(np.linalg.solve)
def m_solve(it, a, b):
    return it.matmul(m_inv(it, a), b)


@model(np.triu, np.tril)
def m_tri(it, a, k=0):
    it.unsupported("tri")


def _tri(up):
    def h(it, a, k=0):
        axes, rd, dt = it.as_array(a)
        kk = it.conc_int(k)
        if len(axes) != 2:
            it.unsupported("triu of a vector")

        def f(idx):
            c = tm.le(tm.add(idx[0], num(kk)), idx[1]) if up else tm.le(idx[1], tm.add(idx[0], num(kk)))
            v = rd(idx)
            return tm.and_(c, v) if v.isbool else tm.ite(c, v, ZERO)
        return it.new_arr(axes, f, dt)
    return h


NP[np.triu] = _tri(True)
NP[np.tril] = _tri(False)


def _tri_indices(up):
    def h(it, n, k=0, m=None):
        if m is not None:
            it.unsupported("triu_indices m")
        L = it.int_t(n)
        kk = it.conc_int(k)
        a, b = tm.fresh("m"), tm.fresh("m")
        c = tm.le(tm.add(a, num(kk)), b) if up else tm.le(b, tm.add(a, num(kk)))
        F = Filt([a, b], tm.and_(tm.rng(a, L), tm.rng(b, L), c))
        return (it.new_arr([F], lambda idx: idx[0][0], "i"), it.new_arr([F], lambda idx: idx[0][1], "i"))
    return h


NP[np.triu_indices] = _tri_indices(True)
NP[np.tril_indices] = _tri_indices(False)


@model(np.triu_indices_from)
def m_triu_from(it, a, k=0):
    return _tri_indices(True)(it, Sc(a.axes[0].length(), "py"), k)


@model(np.tri)
def m_tri_(it, N, M=None, k=0, dtype=None):
    it.unsupported("tri")


@model(np.delete)
def m_delete(it, a, obj, axis=None):
    axes, rd, dt = it.as_array(a)
    if axis is None and len(axes) != 1:
        it.unsupported("delete without axis")
    ax = 0 if axis is None else it.conc_int(axis) % len(axes)
    if not isinstance(axes[ax], Plain):
        it.unsupported("delete from a filtered axis")
    L = axes[ax].L
    p = it.norm_index(it.int_t(obj), L, "delete")
    i = tm.fresh("m")
    F = Filt([i], tm.and_(tm.rng(i, L), tm.not_(tm.eq(i, p))))
    naxes = list(axes)
    naxes[ax] = F

    def f(idx):
        j = list(idx)
        j[ax] = idx[ax][0] if isinstance(idx[ax], tuple) else idx[ax]
        return rd(j)
    return it.new_arr(naxes, f, dt)


@model(np.pad)
def m_pad(it, a, pad_width, mode="constant", constant_values=0):
    if mode != "constant":
        it.unsupported("pad mode")
    axes, rd, dt = it.arr(a)
    c = it.num_t(constant_values)

    def pair(x):
        if isinstance(x, (tuple,)) or isinstance(x, Ref):
            q = it.concrete_items(x)
            if len(q) == 1:
                q = q * 2
            return [it.conc_int(v) for v in q]
        return [it.conc_int(x)] * 2
    if it.isnum(pad_width):
        pw = [pair(pad_width)] * len(axes)
    else:
        q = it.concrete_items(pad_width)
        if all(it.isnum(x) for x in q):
            pw = [pair(pad_width)] * len(axes)
        else:
            pw = [pair(x) for x in q]
            if len(pw) == 1:
                pw = pw * len(axes)
    res = []
    for x, (lo, hi) in zip(axes, pw):
        if not isinstance(x, Plain):
            it.unsupported("pad of a filtered axis")
        res.append(Plain(it.simp(tm.add(x.L, num(lo + hi)))))

    def f(idx):
        g, j = [], []
        for i, x, (lo, hi) in zip(idx, axes, pw):
            k = tm.sub(i, num(lo))
            j.append(k)
            if lo or hi:
                g.append(tm.rng(k, x.L))
        return tm.ite(tm.and_(*g), rd(j), c)
    return it.new_arr(res, f, dt)


@model(np.where)
def m_where(it, c, a=MISSING, b=MISSING):
    C, rc, dc = it.as_array(c)
    if a is MISSING:
        return m_nonzero(it, c)
    A, ra, da = it.arr(a)
    B, rb, db = it.arr(b)
    axes, (r0, r1, r2) = it.broadcast([(C, rc), (A, ra), (B, rb)])

    def cond(t):
        return t if t.isbool else tm.not_(tm.eq(t, ZERO))
    return it.result(axes, lambda idx: tm.ite(cond(r0(idx)), r1(idx), r2(idx)), "f" if "f" in (da, db) else "i" if da in "ib" and db in "ib" else "?")


@model(np.nonzero)
def m_nonzero(it, c):
    C, rc, dc = it.as_array(c)
    bs, g, idx = [], TRUE, []
    for x in C:
        i, vs, gg = x.fresh_index("m")
        if isinstance(x, Filt):
            it.unsupported("nonzero of a filtered array")
        bs.extend(vs)
        idx.append(i)
        g = tm.and_(g, gg)
    t = rc(idx)
    F = Filt(bs, tm.and_(g, t if t.isbool else tm.not_(tm.eq(t, ZERO))))

    def mk(p):
        return it.new_arr([F], lambda ii: (ii[0] if isinstance(ii[0], tuple) else (ii[0],))[p], "i")
    return tuple(mk(p) for p in range(len(bs)))


@model(np.flatnonzero)
def m_flatnonzero(it, c):
    r = m_nonzero(it, c)
    if len(r) != 1:
        it.unsupported("flatnonzero")
    return r[0]


@model(np.argwhere)
def m_argwhere(it, c):
    it.unsupported("argwhere")


@model(np.count_nonzero)
def m_count(it, c, axis=None):
    C, rc, dc = it.as_array(c)

    def one(t):
        return tm.ite(t if t.isbool else tm.not_(tm.eq(t, ZERO)), ONE, ZERO)
    v = it.new_arr(C, lambda idx: one(rc(idx)), "i") if C else Sc(one(rc([])), "np")
    return m_sum(it, v, axis)


def _quant(f_any):
    def h(it, a, axis=None):
        if axis is not None:
            it.unsupported("any/all with axis")
        axes, rd, dt = it.as_array(a)
        bs, g, idx = [], TRUE, []
        for x in axes:
            i, vs, gg = x.fresh_index("r")
            bs.extend(vs)
            idx.append(i)
            g = tm.and_(g, gg)
        t = rd(idx)
        c = t if t.isbool else tm.not_(tm.eq(t, ZERO))
        if not bs:
            return Sc(c, "np")
        return Sc(tm.exists(bs, tm.and_(g, c)) if f_any else tm.not_(tm.exists(bs, tm.and_(g, tm.not_(c)))), "np")
    return h


NP[np.any] = _quant(True)
NP[np.all] = _quant(False)


@model(np.logical_not)
def m_lnot(it, a):
    axes, rd, dt = it.as_array(a)
    f = lambda idx: tm.not_(rd(idx) if rd(idx).isbool else tm.not_(tm.eq(rd(idx), ZERO)))  # noqa: E731
    return it.new_arr(axes, f, "b") if axes else Sc(f([]), "np")


def _logical(op):
    def h(it, a, b):
        A, ra, _ = it.as_array(a)
        B, rb, _ = it.as_array(b)
        axes, (r1, r2) = it.broadcast([(A, ra), (B, rb)])

        def c(t):
            return t if t.isbool else tm.not_(tm.eq(t, ZERO))
        f = lambda idx: op(c(r1(idx)), c(r2(idx)))  # noqa: E731
        return it.new_arr(axes, f, "b") if axes else Sc(f([]), "np")
    return h


NP[np.logical_and] = _logical(tm.and_)
NP[np.logical_or] = _logical(tm.or_)


def _cmp(op):
    def h(it, a, b):
        r = it.compare(op, a, b)
        return r
    return h


for _f, _o in ((np.equal, "Eq"), (np.not_equal, "NotEq"), (np.less, "Lt"), (np.less_equal, "LtE"), (np.greater, "Gt"), (np.greater_equal, "GtE")):
    NP[_f] = _cmp(_o)


@model(np.array_equal)
def m_array_equal(it, a, b):
    A, ra, _ = it.arr(a)
    B, rb, _ = it.arr(b)
    if len(A) != len(B):
        return False
    shp = TRUE
    for x, y in zip(A, B):
        if not it.same_axis(x, y):
            if isinstance(x, Plain) and isinstance(y, Plain):
                shp = tm.and_(shp, tm.eq(x.L, y.L))
            else:
                it.unsupported("array_equal")
    bs, g, idx = [], TRUE, []
    for x in A:
        i, vs, gg = x.fresh_index("r")
        bs.extend(vs)
        idx.append(i)
        g = tm.and_(g, gg)
    return Sc(tm.and_(shp, tm.not_(tm.exists(bs, tm.and_(g, tm.not_(tm.eq(ra(idx), rb(idx))))))), "py")


@model(np.ndim)
def m_ndim(it, a):
    if isinstance(a, Arr):
        return it.arr_attr(a, "ndim")
    return len(it.as_array(a)[0])


@model(np.shape)
def m_shape(it, a):
    return tuple(it.dim_value(x) for x in it.as_array(a)[0])


@model(np.size)
def m_size(it, a, axis=None):
    axes = it.as_array(a)[0]
    if axis is not None:
        return it.dim_value(axes[it.conc_int(axis)])
    t = ONE
    for x in axes:
        t = tm.mul(t, x.length())
    return Sc(t, "py")


@model(np.isscalar)
def m_isscalar(it, a):
    return it.isnum(a) and not isinstance(a, Arr)


@model(np.errstate)
def m_errstate(it, **kw):
    if any(v not in ("ignore", "warn", "print", "log") for v in kw.values()):
        it.unsupported("numpy errors turned into exceptions (np.errstate)")
    return Opaque("errstate")


@model(np.seterr)
def m_seterr(it, **kw):
    raise ForeignWrite("numpy error state (np.seterr)")


@model(np.tile)
def m_tile(it, a, reps):
    axes, rd, dt = it.as_array(a)
    if isinstance(reps, tuple) and len(reps) == 2 and len(axes) == 1 and it.int_t(reps[1]) is ONE:
        return it.new_arr([Plain(it.int_t(reps[0])), axes[0]], lambda idx: rd([idx[1]]), dt)
    it.unsupported("tile")


@model(np.broadcast_to)
def m_bto(it, a, shape):
    axes, rd, dt = it.as_array(a)
    target = it.shape_axes(shape)
    f = it.broadcast_to(target, axes, rd)
    r = it.new_arr(target, f, dt, ro=True)
    return r


@model(np.unique)
def m_unique(it, a, return_index=False, return_inverse=False, return_counts=False):
    """Assumed contract: sorted distinct values u(0..k-1) of the label array (ghost), inverse and counts."""
    g = getattr(it, "unique_model", None)
    if g is None:
        it.unsupported("np.unique outside batch mode")
    return g(it, a, bool(return_index), bool(return_inverse), bool(return_counts))


@model(np.bincount)
def m_bincount(it, x, weights=None, minlength=0):
    X, rx, dx = it.arr(x)
    hi = it.int_t(minlength)
    i, vs, g = X[0].fresh_index("r")
    if not it.ctx.extend(g).implied(tm.rng(rx([i]), hi)):
        it.unsupported("bincount range")
    if weights is not None:
        W, rw, dw = it.arr(weights)
        if not it.same_axis(W[0], X[0]):
            it.unsupported("bincount weights")

    def f(idx):
        i, vs, g = X[0].fresh_index("r")
        return tm.sum_(vs, tm.and_(g, tm.eq(rx([i]), idx[0])), rw([i]) if weights is not None else ONE)
    return it.new_arr([Plain(hi)], f, "i" if weights is None else "f")


@model(np.sort)
def m_sort(it, a):
    it.unsupported("sort")


# ==================================================================== builtins

@bi(len)
def b_len(it, v):
    return it.length(v)


@bi(range)
def b_range(it, a, b=None, step=1):
    lo, hi = (ZERO, it.int_t(a)) if b is None else (it.int_t(a), it.int_t(b))
    return Rng(lo, hi, it.conc_int(step))


@bi(sum)
def b_sum(it, v, start=0):
    if isinstance(v, Ref) and isinstance(it.rec(v), ListRec) and it.rec(v).items is not None:
        out = start
        for x in it.rec(v).items:
            out = it.binop("Add", out, x)
        return out
    if isinstance(v, tuple):
        out = start
        for x in v:
            out = it.binop("Add", out, x)
        return out
    if isinstance(v, Builtin) and v.name == "valuesview":
        it.unsupported("sum of dict values")
    axis, get = it.iterate(v)
    i, vs, g = axis.fresh_index("r")
    x = get(i)
    if it.isnum(x):
        s = it.lift(x)
        k = s.kind
        st = it.lift(start)
        L = axis.length()
        # the start value 0 is a Python int: with an empty list the result is a Python number
        kind = k if k == "py" else ("np" if k == "np" and it.implied(tm.lt(ZERO, L)) else "any")
        return Sc(tm.add(it.num_t(st), tm.sum_(vs, g, it.num_t(x))), kind)
    axes, rd, dt = it.arr(x)
    res = it.new_arr(axes, lambda idx: (lambda i2: tm.sum_(i2[1], i2[2], tm.subst(rd(idx), dict(zip(vs, i2[1])))))(axis.fresh_index("r")), dt)
    if not it.implied(tm.lt(ZERO, axis.length())):
        it.unsupported("sum of a possibly empty list of arrays")
    return it.binop("Add", start, res)


def _minmax(kind):
    f2 = tm.min2 if kind == "min" else tm.max2

    def h(it, *args, key=None, default=MISSING):
        if key is not None:
            it.unsupported("min/max with key")
        if len(args) > 1:
            ks = {it.lift(a).kind for a in args}
            out = it.num_t(args[0])
            for a in args[1:]:
                out = f2(out, it.num_t(a))
            return Sc(out, ks.pop() if len(ks) == 1 else "any")
        v = args[0]
        if isinstance(v, tuple) or isinstance(v, Ref) and isinstance(it.rec(v), ListRec) and it.rec(v).items is not None:
            items = it.concrete_items(v)
            if not items:
                if default is not MISSING:
                    return default
                raise PyRaise(ValueError, "%s() arg is an empty sequence (%s)" % (kind, it.where))
            return h(it, *items) if len(items) > 1 else items[0]
        axis, get = it.iterate(v)
        i, vs, g = axis.fresh_index("r")
        x = get(i)
        if not it.isnum(x):
            it.unsupported("min/max of arrays")
        s = it.lift(x)
        t = tm.ext(kind, vs, g, it.num_t(x))
        if default is not MISSING:
            ne = tm.exists(vs, g)
            from norm import Norm
            if it.ctx.nonempty(Norm(it.ctx), list(vs), g):
                return Sc(t, s.kind)
            it.unsupported("min/max with default")
        it.need_nonempty(vs, g)
        return Sc(t, s.kind)
    return h


BI[min] = _minmax("min")
BI[max] = _minmax("max")


@bi(abs)
def b_abs(it, v):
    if isinstance(v, Arr) and v.axes:
        return m_abs(it, v)
    s = it.lift(v)
    t = it.num_t(v)
    return Sc(tm.max2(t, tm.neg(t)), s.kind)


@bi(float)
def b_float(it, v=0.0):
    if isinstance(v, str):
        return float(v)
    if isinstance(v, Arr) and v.axes:
        if all(it.is_one(x) for x in v.axes):
            return Sc(it.read(v, [ZERO] * len(v.axes)), "py")
        raise PyRaise(TypeError, "only length-1 arrays can be converted")
    return Sc(it.not_label(it.num_t(v)), "py")


@bi(int)
def b_int(it, v=0):
    t = it.num_t(v)
    if not t.isint:
        u = it.simp(t)
        t = u if u.isint else tm.fn("trunc", t)
    return Sc(t, "py") if t.op != "num" else int(t.args[0])


@bi(bool)
def b_bool(it, v=False):
    return Sc(it.truth(v), "py")


@bi(list)
def b_list(it, v=MISSING):
    if v is MISSING:
        return it.new_list([])
    return it.make_list(v)


@bi(tuple)
def b_tuple(it, v=()):
    if isinstance(v, tuple):
        return v
    items = it.try_concrete(v)
    if items is None:
        return it.make_list(v)
    return tuple(items)


@bi(dict)
def b_dict(it):
    return Ref(it.st.alloc(DictRec(items={})))


@bi(enumerate)
def b_enumerate(it, v, start=0):
    items = it.try_concrete(v)
    s0 = it.int_t(start)
    if items is not None:
        return Seq(None, [(Sc(tm.add(s0, num(k)), "py") if s0.op != "num" else int(s0.args[0]) + k, x) for k, x in enumerate(items)])
    axis, get = it.iterate(v)
    if not isinstance(axis, Plain):
        it.unsupported("enumerate of a filtered sequence")
    return Seq(axis, lambda i: (Sc(tm.add(i, s0), "py"), get(i)))


@bi(zip)
def b_zip(it, *vs):
    conc = [it.try_concrete(v) for v in vs]
    if all(c is not None for c in conc):
        return Seq(None, [tuple(x) for x in zip(*conc)])
    parts = [it.iterate(v) for v in vs]
    ax = parts[0][0]
    for a, _ in parts[1:]:
        if not it.same_axis(a, ax):
            it.unsupported("zip of sequences of different length")
    return Seq(ax, lambda i: tuple(g(i) for _, g in parts))


@bi(reversed)
def b_reversed(it, v):
    items = it.try_concrete(v)
    if items is not None:
        return Seq(None, items[::-1])
    if isinstance(v, Rng) and v.step == 1:
        return Rng(tm.sub(v.hi, ONE), tm.sub(v.lo, ONE), -1)
    axis, get = it.iterate(v)
    if not isinstance(axis, Plain):
        it.unsupported("reversed")
    return Seq(axis, lambda i: get(tm.sub(tm.sub(axis.L, ONE), i)))


@bi(map)
def b_map(it, f, v):
    items = it.try_concrete(v)
    if items is not None:
        return Seq(None, [it.call(f, [x], {}) for x in items])
    axis, get = it.iterate(v)

    def g(i):
        return it.call(f, [get(i)], {})
    return Seq(axis, g)


@bi(any, all)
def b_any(it, v):
    it.unsupported("any/all")


def _bq(isany):
    def h(it, v):
        items = it.try_concrete(v)
        if items is not None:
            cs = [it.truth(x) for x in items]
            return Sc(tm.or_(*cs) if isany else tm.and_(*cs), "py")
        axis, get = it.iterate(v)
        i, vs, g = axis.fresh_index("r")
        c = it.truth(get(i))
        return Sc(tm.exists(vs, tm.and_(g, c)) if isany else tm.not_(tm.exists(vs, tm.and_(g, tm.not_(c)))), "py")
    return h


BI[any] = _bq(True)
BI[all] = _bq(False)


@bi(isinstance)
def b_isinstance(it, v, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(v, Ref):
        r = it.rec(v)
        real = list if isinstance(r, ListRec) else dict if isinstance(r, DictRec) else r.cls
        return any(isinstance(c, type) and issubclass(real, c) for c in cl)
    if isinstance(v, Arr) and v.axes:
        return np.ndarray in cl or object in cl
    if isinstance(v, SymStr):
        return str in cl or object in cl
    if isinstance(v, (str, type(None), bool, tuple)):
        return isinstance(v, cls)
    if isinstance(v, Sc) and v.kind == "py":
        t = v.t
        ty = bool if t.isbool else int if t.isint else float
        return any(isinstance(c, type) and issubclass(ty, c) for c in cl)
    if isinstance(v, (int, float)):
        return isinstance(v, cls)
    it.unsupported("isinstance")


@bi(print)
def b_print(it, *a, **k):
    return None


@bi(type)
def b_type(it, v):
    if isinstance(v, Ref) and isinstance(it.rec(v), ObjRec):
        return it.rec(v).cls
    it.unsupported("type()")


@bi(str)
def b_str1(it, *a):
    if len(a) == 1 and isinstance(a[0], (str, SymStr)):
        return a[0]
    return Opaque("str")


@bi(repr, format)
def b_str(it, *a):
    return Opaque("str")


@bi(hasattr)
def b_hasattr(it, o, name):
    if not isinstance(name, str):
        it.unsupported("hasattr")
    if isinstance(o, Ref) and isinstance(it.rec(o), ObjRec):
        r = it.rec(o)
        return name in r.attrs or hasattr(r.cls, name)
    it.unsupported("hasattr")


@bi(getattr)
def b_getattr(it, o, name, default=MISSING):
    if not isinstance(name, str):
        it.unsupported("getattr")
    try:
        return it.getattr(o, name)
    except PyRaise as e:
        if default is not MISSING and issubclass(e.cls, AttributeError):
            return default
        raise


@bi(setattr)
def b_setattr(it, o, name, v):
    if not isinstance(name, str):
        it.unsupported("setattr")
    it.setattr(o, name, v)


@bi(round)
def b_round(it, v, nd=None):
    it.unsupported("round")


@bi(object)
def b_object(it):
    it.unsupported("object()")


@bi(super)
def b_super(it, cls, obj):
    return Super(cls, obj)


class SetV:
    """Set of the distinct entries of the label vector (iteration order unspecified)."""
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u


@bi(set, frozenset)
def b_set(it, v=MISSING):
    if v is MISSING:
        it.unsupported("set")
    if isinstance(v, SetV):
        return v
    g = getattr(it, "unique_model", None)
    if g is None or not isinstance(v, (Arr, Ref)):
        it.unsupported("set")
    return SetV(g(it, v, False, False, False))


@bi(sorted)
def b_sorted(it, v):
    if isinstance(v, SetV):
        return it.make_list(v.u)
    if isinstance(v, Arr) and len(v.axes) == 1:
        it.unsupported("sorted")
    it.unsupported("sorted")


@bi(divmod, pow, hash, id, iter, next, vars, filter, callable)
def b_no(it, *a, **k):
    it.unsupported("builtin")


@bi(pow)
def b_pow(it, a, b):
    return it.binop("Pow", a, b)


for _f, _o in ((operator.add, "Add"), (operator.sub, "Sub"), (operator.mul, "Mult"), (operator.truediv, "Div")):
    BI[_f] = (lambda o: (lambda it, a, b: it.binop(o, a, b)))(_o)


# ==================================================================== exploration

class Path:
    def __init__(self, kind, value, it, decisions):
        self.kind = kind            # "return" | "raise" | "foreign" | "unsupported"
        self.value = value
        self.it = it
        self.decisions = decisions


def explore(make, run, limit=64, errors=None):
    """make() -> fresh NpMachine with its start state; run(it) -> value.  Executes every feasible path.

    Paths that leave the supported subset are recorded in errors (or, without it, raised at the end)."""
    todo, out, errs = [[]], [], []
    while todo:
        pre = todo.pop()
        if len(out) + len(errs) > limit:
            errs.append("too many paths")
            break
        it = make()
        it.decisions = list(pre)
        try:
            v = run(it)
            p = Path("return", v, it, None)
        except PyRaise as e:
            p = Path("raise", e, it, None)
        except ForeignWrite as e:
            p = Path("foreign", e, it, None)
        except Unsupported as e:
            p = None
            if not it.ctx.inconsistent():
                errs.append(str(e) or "unsupported")
        if p is not None:
            p.decisions = list(it.taken)
            if not it.ctx.inconsistent():
                out.append(p)
        for k in range(len(pre), len(it.taken)):
            todo.append(it.taken[:k] + [not it.taken[k]])
    if errs:
        if errors is None:
            raise Unsupported(errs[0])
        errors += errs
    return out
