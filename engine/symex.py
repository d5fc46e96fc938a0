"""Symbolic interpreter for the real functions of the package (AST of the imported code objects).

Python/numpy values are modelled as terms: floats as mathematical reals, arrays as (shape, index -> term) with numpy's
view/copy semantics, lists as (length, index -> term).  Loops are summarised by inferred closed-form invariants.
Anything outside the modelled subset raises Unsupported: the caller then reports "out of the verifier's reach".
"""
import ast
import builtins
import inspect
import itertools
from fractions import Fraction
import numpy as np
import terms as tm
from terms import ZERO, ONE, TRUE, FALSE, num, T
from norm import Norm, Abort
import prove


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, msg=""):
        Exception.__init__(self, "%s: %s" % (getattr(cls, "__name__", cls), msg))
        self.cls = cls


class ForeignWrite(Exception):
    """The code writes to state shared between objects (module, class, default argument, closure)."""


class NeedFork(Exception):
    pass


# ------------------------------------------------------------------ values

class Sc:
    """Scalar. kind: 'py' (Python number), 'np' (numpy scalar), 'any'."""
    __slots__ = ("t", "kind")

    def __init__(self, t, kind="any"):
        self.t = t
        self.kind = kind

    def __repr__(self):
        return "Sc(%s)" % self.t


class Plain:
    __slots__ = ("L",)

    def __init__(self, L):
        self.L = L

    def length(self):
        return self.L

    def fresh_index(self, p="i"):
        v = tm.fresh(p)
        return v, [v], tm.rng(v, self.L)


class Filt:
    """Axis enumerating the tuples of binders that satisfy a guard (lexicographic order)."""
    __slots__ = ("bs", "guard")

    def __init__(self, bs, guard):
        self.bs = tuple(bs)
        self.guard = guard

    def length(self):
        t = tm.refresh(tm.sum_(self.bs, self.guard, ONE))
        return t

    def fresh_index(self, p="i"):
        vs = tuple(tm.fresh(p) for _ in self.bs)
        return vs, list(vs), tm.subst(self.guard, dict(zip(self.bs, vs)))


class Buf:
    __slots__ = ("axes", "content", "dtype", "ro")

    def __init__(self, axes, content, dtype, ro=False):
        self.axes = list(axes)
        self.content = content
        self.dtype = dtype
        self.ro = ro


class ListRec:
    """axis Plain/Filt, content(index) -> value maker; elem 'sc' (content gives term) or ('arr', axes, dtype)."""
    __slots__ = ("items", "axis", "content", "elem", "kind")

    def __init__(self, items=None, axis=None, content=None, elem="sc", kind="any"):
        self.items = items          # concrete python list of values, or None
        self.axis = axis
        self.content = content
        self.elem = elem
        self.kind = kind


class DictRec:
    __slots__ = ("items", "sym")

    def __init__(self, items=None, sym=None):
        self.items = items          # concrete {key: value}
        self.sym = sym              # SymMap


class SymMap:
    """Symbolic integer-keyed map: has(l), val(l) as closures plus its size."""
    __slots__ = ("has", "val", "size")

    def __init__(self, has, val, size):
        self.has, self.val, self.size = has, val, size


class ObjRec:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class Ref:
    """Reference to a heap record (list, dict, object)."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class Arr:
    __slots__ = ("oid", "axes", "sel")

    def __init__(self, oid, axes, sel):
        self.oid = oid
        self.axes = list(axes)
        self.sel = sel


class Method:
    __slots__ = ("obj", "fn")

    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn


class Builtin:
    """Method of a modelled value: handler(interp, args, kwargs)."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Rng:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Seq:
    """Generic iterable: length, get(index term) -> value (enumerate, zip, generator)."""
    __slots__ = ("axis", "get")

    def __init__(self, axis, get):
        self.axis = axis
        self.get = get


class Unknown:
    """A value about which nothing is assumed (write-only attribute), except possibly that its size is bounded by k and d."""
    __slots__ = ("why", "sized")

    def __init__(self, why, sized=False):
        self.why = why
        self.sized = sized


class Closure:
    __slots__ = ("node", "frame", "interp_globals", "cls", "defaults", "kwdefaults")

    def __init__(self, node, frame, g, cls, ev):
        self.node, self.frame, self.interp_globals, self.cls = node, frame, g, cls
        self.defaults = [ev(d) for d in node.args.defaults]
        self.kwdefaults = {a.arg: ev(d) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}


def mentions(t, names):
    """Does the term contain one of these function symbols (outside conditions of sums)?"""
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "app" and t.args[0] in names:
            return True
        if t.op == "app":
            continue
        if t.op in ("sum", "ext"):
            todo.append(t.args[-1])
        elif t.op == "ite":
            todo.extend(t.args[1:])
        else:
            todo.extend(tm._subterms(t.op, t.args))
    return False


class SymStr:
    """An arbitrary string, identified with an integer term; literals are identified with distinct numerals."""
    __slots__ = ("t",)
    codes = {}

    def __init__(self, t):
        self.t = t

    @staticmethod
    def code(s):
        return num(SymStr.codes.setdefault(s, len(SymStr.codes) + 1))

    def same(self, other):
        """Condition term: equal to another Python value."""
        if isinstance(other, SymStr):
            return tm.eq(self.t, other.t)
        return tm.eq(self.t, SymStr.code(other)) if isinstance(other, str) else FALSE


class Opaque:
    """Opaque immutable value (strings built at run time, dtypes)."""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


class State:
    def __init__(self):
        self.heap = {}
        self.next = itertools.count(1)

    def alloc(self, rec):
        oid = next(self.next)
        self.heap[oid] = rec
        return oid

    def snapshot(self):
        h = {}
        for k, r in self.heap.items():
            if isinstance(r, Buf):
                h[k] = Buf(r.axes, r.content, r.dtype, r.ro)
            elif isinstance(r, ListRec):
                h[k] = ListRec(list(r.items) if r.items is not None else None, r.axis, r.content, r.elem, r.kind)
            elif isinstance(r, DictRec):
                h[k] = DictRec(dict(r.items) if r.items is not None else None, r.sym)
            else:
                h[k] = ObjRec(r.cls, dict(r.attrs))
        return h


class Frame:
    def __init__(self, fn, glob, closure, cls=None, parent=None):
        self.fn = fn
        self.locals = {}
        self.glob = glob
        self.closure = closure
        self.cls = cls
        self.parent = parent
        self.self_obj = None


_src_cache = {}


def function_ast(fn):
    code = fn.__code__
    path = code.co_filename
    if path not in _src_cache:
        try:
            with open(path, encoding="utf-8") as fh:
                _src_cache[path] = ast.parse(fh.read())
        except (OSError, SyntaxError) as e:
            raise Unsupported("source of %s not available: %s" % (fn.__qualname__, e))
    best = None
    for node in ast.walk(_src_cache[path]):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            line = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
            if line == code.co_firstlineno and (isinstance(node, ast.Lambda) or node.name == code.co_name):
                best = node
    if best is None:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return best


def contains_control(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Continue, ast.Break, ast.Return)):
                return True
    return False


MAX_CALL_DEPTH = 24


class Interp:
    def __init__(self, ctx, contracts=None):
        self.ctx = ctx
        self.st = State()
        self.decisions = []
        self.taken = []
        self.forkable = True
        self.merge_depth = 0
        self.depth = 0
        self.safety = []            # (kind, goal, ctx, where)
        self.contracts = contracts or {}
        self.where = "?"
        self.functions = set()      # real functions executed
        self.loops = []             # summaries
        self.foreign_reads = set()
        self.comp_depth = 0
        self.generators = set()      # heap ids of values that stand for generator objects
        self.caller_oids = set()
        self.free_ndim = {}         # arrays of arbitrary rank: oid -> rank term
        self.written = set()        # heap ids written so far
        self.events = []
        self.steps = 0

    # ---------------------------------------------------------------- helpers
    def unsupported(self, msg):
        raise Unsupported("%s (%s)" % (msg, self.where))

    def need(self, kind, goal):
        """Safety obligation: goal must hold here."""
        if goal is TRUE:
            return
        self.safety.append((kind, goal, self.ctx, self.where))

    def implied(self, c):
        return self.ctx.implied(c)

    def assume(self, c):
        if c is not TRUE:
            self.ctx = self.ctx.extend(c)

    def simp(self, t):
        """Cheap canonicalisation of an integer/condition term."""
        try:
            return Norm(self.ctx).canon(t)
        except Abort:
            return t

    def decide(self, c, why="branch"):
        """Truth value of condition term c on this path (forks if undetermined)."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.implied(c):
            return True
        if self.implied(tm.not_(c)):
            return False
        if self.merge_depth:
            raise NeedFork()
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else True
        self.taken.append(v)
        if len(self.taken) > 14:
            self.unsupported("too many branches")
        self.ctx = self.ctx.extend(c if v else tm.not_(c))
        if c.op == "ex" and not v:
            z = prove.ex_zero(c)
            if z:
                self.ctx.zero_fns.add(z)
        return v

    # ---------------------------------------------------------------- construction of arrays
    def new_arr(self, axes, content, dtype="f", ro=False):
        oid = self.st.alloc(Buf(axes, content, dtype, ro))
        return Arr(oid, axes, [("ax", i, ZERO) for i in range(len(axes))])

    def rec(self, v):
        if v.oid in self.free_ndim:
            self.unsupported("array of arbitrary rank used")
        return self.st.heap[v.oid]

    def base_index(self, a, idx):
        out = []
        for s in a.sel:
            if s[0] == "fix":
                out.append(s[1])
            else:
                x = idx[s[1]]
                out.append(x if s[2] is ZERO or isinstance(x, tuple) else tm.add(x, s[2]))
        return out

    def read(self, a, idx):
        return self.st.heap[a.oid].content(self.base_index(a, idx))

    def reader(self, a):
        """Snapshot closure: index list -> term (immune to later writes)."""
        c = self.st.heap[a.oid].content
        sel = a.sel

        def f(idx):
            out = []
            for s in sel:
                if s[0] == "fix":
                    out.append(s[1])
                else:
                    x = idx[s[1]]
                    out.append(x if s[2] is ZERO or isinstance(x, tuple) else tm.add(x, s[2]))
            return c(out)
        return f

    def dtype(self, a):
        return self.st.heap[a.oid].dtype

    def write(self, a, guard, val):
        """Store val(view idx) where guard(view idx) holds, through the view a."""
        buf = self.st.heap[a.oid]
        if buf.ro:
            self.unsupported("write to a merged or read-only array")
        self.written.add(a.oid)
        old = buf.content
        sel, axes, nb = a.sel, a.axes, len(buf.axes)
        isint, isflt = buf.dtype == "i", buf.dtype == "f"

        def content(b):
            conds, view = [], [ZERO] * len(axes)
            for k, s in enumerate(sel):
                x = b[k]
                if s[0] == "fix":
                    if isinstance(x, tuple):
                        conds.append(tm.and_(*[tm.eq(p, q) for p, q in zip(x, s[1])]))
                    else:
                        conds.append(tm.eq(x, s[1]))
                else:
                    view[s[1]] = x if s[2] is ZERO or isinstance(x, tuple) else tm.sub(x, s[2])
                    ax, bax = axes[s[1]], buf.axes[k]
                    if isinstance(ax, Plain) and not (s[2] is ZERO and ax.L is bax.L):
                        conds.append(tm.rng(view[s[1]], ax.L))
            c = tm.and_(*conds)
            if c is FALSE:
                return old(b)
            c = tm.and_(c, guard(view))
            if c is FALSE:
                return old(b)
            v = val(view)
            if isflt and v.isint:
                v = self.not_label(v)
            if isint and not v.isint:
                v = tm.fn("trunc", v)
            return tm.ite(c, v, old(b))
        self.st.heap[a.oid] = Buf(buf.axes, content, buf.dtype)

    # ---------------------------------------------------------------- scalars
    def lift(self, v):
        """Python number -> Sc."""
        if isinstance(v, Sc):
            return v
        if isinstance(v, bool):
            return Sc(TRUE if v else FALSE, "py")
        if isinstance(v, (bool, np.bool_)):
            return Sc(TRUE if v else FALSE, "np")
        if isinstance(v, int):
            return Sc(num(v), "py")
        if isinstance(v, np.integer):
            return Sc(num(int(v)), "np")
        if isinstance(v, (float, np.floating)):
            kind = "np" if isinstance(v, np.floating) else "py"
            f = float(v)
            if f == float("inf"):
                return Sc(tm.INF, kind)
            if f == float("-inf"):
                return Sc(tm.neg(tm.INF), kind)
            if f != f:
                self.unsupported("nan constant")
            if f == np.pi:
                return Sc(tm.PI, kind)
            return Sc(num(Fraction(repr(f))), kind)
        if isinstance(v, Arr) and not v.axes:
            return Sc(self.read(v, []), "np")
        if isinstance(v, Unknown):
            self.unsupported("read of an unconstrained value: %s" % v.why)
        self.unsupported("not a number: %r" % (v,))

    def isnum(self, v):
        return isinstance(v, (Sc, int, float, bool, np.generic)) or (isinstance(v, Arr) and not v.axes)

    def num_t(self, v):
        t = self.lift(v).t
        if t.isbool:
            return tm.ite(t, ONE, ZERO)
        return t

    def int_t(self, v):
        t = self.num_t(v)
        if not t.isint:
            u = self.simp(t)
            if u.isint:
                return u
            self.unsupported("not an integer: %s" % t)
        return t

    def join_kind(self, a, b):
        if a == "np" or b == "np":
            return "np"
        if a == "any" or b == "any":
            return "any"
        return "py"

    def truth(self, v):
        """Condition term of a value."""
        if v is None:
            return FALSE
        if isinstance(v, (str, Opaque)):
            if isinstance(v, str):
                return TRUE if v else FALSE
            self.unsupported("truth of opaque")
        if isinstance(v, Sc):
            return v.t if v.t.isbool else tm.not_(tm.eq(v.t, ZERO))
        if isinstance(v, (bool, int, float, np.generic)):
            return TRUE if v else FALSE
        if isinstance(v, (tuple,)):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ListRec):
                return tm.lt(ZERO, self.list_len(r))
            if isinstance(r, DictRec):
                return tm.lt(ZERO, self.dict_len(r))
            return TRUE
        if isinstance(v, Arr):
            if not v.axes:
                return self.truth(Sc(self.read(v, [])))
            if all(isinstance(a, Plain) and a.L is ONE for a in v.axes):
                return self.truth(Sc(self.read(v, [ZERO] * len(v.axes))))
            self.unsupported("truth of an array")
        if callable(v) or isinstance(v, (Method, Builtin)):
            return TRUE
        if isinstance(v, Unknown):
            self.unsupported("branch on an unconstrained value: %s" % v.why)
        self.unsupported("truth of %r" % (v,))

    def list_len(self, r):
        return num(len(r.items)) if r.items is not None else r.axis.length()

    def dict_len(self, r):
        return num(len(r.items)) if r.sym is None else r.sym.size

    # ---------------------------------------------------------------- lists
    def new_list(self, items):
        return Ref(self.st.alloc(ListRec(items=list(items))))

    def sym_list(self, axis, content, elem="sc", kind="any"):
        return Ref(self.st.alloc(ListRec(axis=axis, content=content, elem=elem, kind=kind)))

    def to_sym(self, r):
        """View of a list record as (axis, content, elem, kind)."""
        if r.items is None:
            return r.axis, r.content, r.elem, r.kind
        items = list(r.items)
        n = len(items)
        if n == 0:
            return Plain(ZERO), (lambda i: ZERO), "sc", "py"
        if all(self.isnum(v) for v in items):
            ts = [self.num_t(v) for v in items]
            kinds = {self.lift(v).kind for v in items}

            def content(i, ts=ts):
                out = ts[-1]
                for p in range(len(ts) - 2, -1, -1):
                    out = tm.ite(tm.eq(i, num(p)), ts[p], out)
                return out
            return Plain(num(n)), content, "sc", kinds.pop() if len(kinds) == 1 else "any"
        if all(isinstance(v, Arr) for v in items):
            rd = [self.reader(v) for v in items]
            ax = items[0].axes
            for v in items[1:]:
                if not self.same_axes(v.axes, ax):
                    self.unsupported("ragged list")

            def content(i, idx, rd=rd):
                out = rd[-1](idx)
                for p in range(len(rd) - 2, -1, -1):
                    out = tm.ite(tm.eq(i, num(p)), rd[p](idx), out)
                return out
            return Plain(num(n)), content, ("arr", ax, self.dtype(items[0])), "any"
        self.unsupported("heterogeneous list")

    def list_get(self, r, i):
        """Element at index term/tuple i (in range)."""
        if r.items is not None and isinstance(i, T) and i.op == "num":
            return r.items[int(i.args[0])]
        axis, content, elem, kind = self.to_sym(r)
        if elem == "sc":
            return Sc(content(i), kind)
        ax, dt = elem[1], elem[2]
        return self.new_arr(ax, lambda idx: content(i, idx), dt, ro=True)

    def norm_index(self, i, L, what):
        """Python index semantics: returns non-negative in-range index term."""
        if i.op == "num" and i.args[0] < 0:
            i = tm.add(L, i)
        if self.implied(tm.rng(i, L)):
            return i
        if self.implied(tm.and_(tm.lt(i, ZERO), tm.le(ZERO, tm.add(L, i)))):
            return tm.add(L, i)
        if self.implied(tm.le(L, i)):
            raise PyRaise(IndexError, "%s index out of range (%s)" % (what, self.where))
        self.unsupported("cannot show that index %s is within length %s" % (tm.show(i), tm.show(L)))

    # ---------------------------------------------------------------- axes
    def same_len(self, a, b):
        return a is b or self.implied(tm.eq(a, b)) or self._len_eq(a, b)

    def _len_eq(self, a, b):
        try:
            return not Norm(self.ctx).norm(tm.sub(a, b))
        except Abort:
            return False

    def same_axis(self, a, b):
        if a is b:
            return True
        if isinstance(a, Plain) and isinstance(b, Plain):
            return self.same_len(a.L, b.L)
        if isinstance(a, Filt) and isinstance(b, Filt):
            if len(a.bs) != len(b.bs):
                return False
            g = tm.subst(b.guard, dict(zip(b.bs, a.bs)))
            return a.guard is g or self.simp(a.guard) is self.simp(g)
        return False

    def same_axes(self, xs, ys):
        return len(xs) == len(ys) and all(self.same_axis(a, b) for a, b in zip(xs, ys))

    def is_one(self, ax):
        return isinstance(ax, Plain) and (ax.L is ONE or (ax.L.op != "num" and not ax.L.fv and self.simp(ax.L) is ONE))

    def broadcast(self, ops):
        """ops: list of (axes, reader).  Returns (axes, [reader on result index])."""
        nd = max(len(a) for a, _ in ops)
        res = []
        plan = [[] for _ in ops]
        for p in range(nd):
            cands = []
            for k, (axes, rd) in enumerate(ops):
                q = p - (nd - len(axes))
                cands.append(axes[q] if q >= 0 else None)
            main = None
            for c in cands:
                if c is not None and not self.is_one(c):
                    if main is None or (isinstance(c, Filt) and isinstance(main, Plain)):
                        main = c
            if main is None:
                main = next(c for c in cands if c is not None)
            res.append(main)
            for k, c in enumerate(cands):
                if c is None:
                    plan[k].append(None)
                elif c is main or self.same_axis(c, main):
                    plan[k].append("same")
                elif self.is_one(c):
                    plan[k].append("zero")
                elif isinstance(main, Filt) and isinstance(c, Plain) and self.same_len(c.L, main.length()):
                    plan[k].append("const")
                else:
                    self.unsupported("cannot show that shapes agree: %s vs %s" % (self.show_axis(c), self.show_axis(main)))
        readers = []
        for k, (axes, rd) in enumerate(ops):
            pl = plan[k][nd - len(axes):]
            off = nd - len(axes)
            if "const" in pl:
                probe = []
                vs = []
                for ax, how in zip(axes, pl):
                    i, v, g = ax.fresh_index("p")
                    probe.append(i)
                    if how == "const":
                        vs.extend(v)
                if rd(probe).fv & frozenset(vs):
                    self.unsupported("filtered axis combined with a plain axis of the same length")

            def f(idx, rd=rd, pl=pl, off=off):
                return rd([idx[off + j] if how == "same" else ZERO for j, how in enumerate(pl)])
            readers.append(f)
        return res, readers

    def show_axis(self, a):
        return tm.show(a.L) if isinstance(a, Plain) else "filter(%s)" % tm.show(a.guard)

    def as_array(self, v):
        """(axes, reader, dtype, kind) of an array-like value."""
        if isinstance(v, Arr):
            return v.axes, self.reader(v), self.dtype(v)
        if self.isnum(v):
            t = self.lift(v).t
            return [], (lambda idx, t=t: t), ("b" if t.isbool else ("i" if t.isint else "f"))
        if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
            r = self.rec(v)
            if r.items is not None and r.items and all(isinstance(x, Ref) for x in r.items):
                return self.as_array(self.np_array(v))
            axis, content, elem, kind = self.to_sym(r)
            if elem == "sc":
                return [axis], (lambda idx: content(idx[0])), "?"
            return [axis] + list(elem[1]), (lambda idx: content(idx[0], idx[1:])), elem[2]
        if isinstance(v, tuple):
            return self.as_array(self.new_list(v))
        if isinstance(v, Unknown):
            self.unsupported("read of an unconstrained value: %s" % v.why)
        self.unsupported("not array-like: %r" % (v,))

    def np_array(self, v):
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ListRec) and r.items is not None and r.items and all(isinstance(x, Ref) for x in r.items):
                subs = [self.np_array(x) for x in r.items]
                return self.np_array(self.new_list(subs))
        axes, rd, dt = self.as_array(v)
        if dt == "?":
            i = [a.fresh_index()[0] for a in axes]
            t = rd(i)
            dt = "b" if t.isbool else ("i" if t.isint else "f")
        return self.new_arr(axes, rd, dt)

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, (Arr,)) and a.axes or isinstance(b, (Arr,)) and b.axes:
            return self.arr_binop(op, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            ra = self.rec(a) if isinstance(a, Ref) else None
            rb = self.rec(b) if isinstance(b, Ref) else None
            if op == "Add" and isinstance(ra, ListRec) and isinstance(rb, ListRec):
                return self.list_concat(ra, rb)
            if op == "Mult" and isinstance(ra, ListRec) and self.isnum(b):
                return self.list_repeat(ra, b)
            if op == "Mult" and isinstance(rb, ListRec) and self.isnum(a):
                return self.list_repeat(rb, a)
            if (isinstance(ra, ListRec) and isinstance(b, Sc) and b.kind == "np") or (isinstance(rb, ListRec) and isinstance(a, Sc) and a.kind == "np"):
                return self.arr_binop(op, a, b)
            self.unsupported("operator on containers")
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            return Opaque("str")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        x, y = self.lift(a), self.lift(b)
        kind = self.join_kind(x.kind, y.kind)
        if x.t.isbool and y.t.isbool and op in ("BitAnd", "BitOr"):
            return Sc(tm.and_(x.t, y.t) if op == "BitAnd" else tm.or_(x.t, y.t), kind)
        if x.t.isbool and y.t.isbool and "np" in (x.kind, y.kind):
            self.unsupported("arithmetic of numpy booleans")
        p, q = self.num_t(x), self.num_t(y)
        return Sc(self.scalar_op(op, p, q, kind != "np"), kind)

    def scalar_op(self, op, p, q, may_raise):
        if op == "Add":
            return tm.add(p, q)
        if op == "Sub":
            return tm.sub(p, q)
        if op == "Mult":
            return tm.mul(p, q)
        if op == "Div":
            if may_raise:
                self.need("ZeroDivisionError", tm.not_(tm.eq(q, ZERO)))
            return tm.div(p, q)
        if op == "Pow":
            return self.pow_term(p, q, may_raise)
        if op in ("FloorDiv", "Mod"):
            if may_raise:
                self.need("ZeroDivisionError", tm.not_(tm.eq(q, ZERO)))
            if p.op == "num" and q.op == "num" and q.args[0] != 0:
                x, y = p.args[0], q.args[0]
                return num(x // y if op == "FloorDiv" else x % y)
            return tm.fn("floordiv" if op == "FloorDiv" else "mod", p, q)
        self.unsupported("operator " + op)

    def pow_term(self, p, q, may_raise=False):
        if q.op == "num":
            e = q.args[0]
            if e.denominator == 1 and abs(e) <= 8:
                if e < 0 and may_raise:
                    self.need("ZeroDivisionError", tm.not_(tm.eq(p, ZERO)))
                return tm.power(p, int(e))
            if e == Fraction(1, 2):
                return tm.fn("sqrt", p)
            if e == Fraction(-1, 2):
                return tm.inv(tm.fn("sqrt", p))
        return tm.fn("rpow", p, q)

    def arr_binop(self, op, a, b):
        A, B = self.as_array(a), self.as_array(b)
        axes, (ra, rb) = self.broadcast([(A[0], A[1]), (B[0], B[1])])
        bool_ = A[2] == "b" and B[2] == "b"
        if op in ("BitAnd", "BitOr") and bool_:
            f = tm.and_ if op == "BitAnd" else tm.or_
            return self.new_arr(axes, lambda idx: f(ra(idx), rb(idx)), "b")

        if bool_:
            self.unsupported("arithmetic of boolean arrays")

        def n(t):
            return tm.ite(t, ONE, ZERO) if t.isbool else t
        dt = "i" if (A[2] in "ib" and B[2] in "ib" and op in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "Pow")) else "f"
        if "?" in (A[2], B[2]) and op not in ("Div",):
            dt = "?" if not ("f" in (A[2], B[2])) else "f"
        if op not in ("Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod"):
            self.unsupported("array operator " + op)
        ta, tb = (n(rd([ax.fresh_index()[0] for ax in axs])) for axs, rd in ((A[0], A[1]), (B[0], B[1])))
        exact = ((op == "Add" and ZERO in (ta, tb)) or (op == "Sub" and tb == ZERO)
                 or (op == "Mult" and (ONE in (ta, tb) or ZERO in (ta, tb))))  # no overflow whatever the type
        if op != "Div" and not exact:
            self.machine_ints((A[0], A[1], A[2]), (B[0], B[1], B[2]))
        return self.new_arr(axes, lambda idx: self.scalar_op(op, n(ra(idx)), n(rb(idx)), False), dt)

    def machine_ints(self, *ops):
        """Arithmetic carried out in the integer type of the caller's arrays can overflow (uint8 images, int64 labels): out of reach."""
        if any(dt == "f" for _, _, dt in ops):
            return
        sy = getattr(self, "batch_syms", None)
        names = {"x", "X", "s", "Q"} | ({sy.X, sy.L, sy.u} if sy is not None else set())
        for axes, rd, dt in ops:
            if dt == "b":
                continue
            if mentions(rd([ax.fresh_index()[0] for ax in axes]), names):
                self.unsupported("arithmetic in the integer type of the caller's data")

    def list_concat(self, ra, rb):
        if ra.items is not None and rb.items is not None:
            return self.new_list(ra.items + rb.items)
        xa, ca, ea, ka = self.to_sym(ra)
        xb, cb, eb, kb = self.to_sym(rb)
        if ra.items is not None and not ra.items:
            ea = eb
        if rb.items is not None and not rb.items:
            eb = ea
        if not (isinstance(xa, Plain) and isinstance(xb, Plain)) or (ea == "sc") != (eb == "sc"):
            self.unsupported("list concatenation")
        n = xa.L

        def content(i, *rest):
            return tm.ite(tm.lt(i, n), ca(i, *rest), cb(tm.sub(i, n), *rest))
        return self.sym_list(Plain(tm.add(n, xb.L)), content, ea, ka if ka == kb else "any")

    def list_repeat(self, r, n):
        t = self.int_t(n)
        if r.items is not None and len(r.items) == 1:
            v = r.items[0]
            if self.isnum(v):
                s = self.lift(v)
                self.need("length", tm.le(ZERO, t))
                return self.sym_list(Plain(t), lambda i: self.num_t(s), "sc", s.kind)
        if r.items is not None and t.op == "num":
            return self.new_list(r.items * int(t.args[0]))
        self.unsupported("list repetition")

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else (not r)
        if op in ("In", "NotIn"):
            c = self.contains(b, a)
            return Sc(c if op == "In" else tm.not_(c), "py")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.cmp_opaque(op, a, b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            y, z = (a, b) if isinstance(a, SymStr) else (b, a)
            if op not in ("Eq", "NotEq") or not isinstance(z, (str, SymStr, type(None), int, float, type, tuple)):
                self.unsupported("comparison of an arbitrary string")
            c = y.same(z)
            return Sc(c if op == "Eq" else tm.not_(c), "py")
        if (isinstance(a, Arr) and a.axes) or (isinstance(b, Arr) and b.axes):
            A, B = self.as_array(a), self.as_array(b)
            axes, (ra, rb) = self.broadcast([(A[0], A[1]), (B[0], B[1])])
            return self.new_arr(axes, lambda idx: self.cmp_term(op, ra(idx), rb(idx)), "b")
        if self.isnum(a) and self.isnum(b):
            x, y = self.lift(a), self.lift(b)
            return Sc(self.cmp_term(op, x.t, y.t), self.join_kind(x.kind, y.kind))
        if isinstance(a, (str, type(None), type, tuple)) or isinstance(b, (str, type(None), type, tuple)):
            if isinstance(a, (Sc, Arr, Ref)) or isinstance(b, (Sc, Arr, Ref)):
                if isinstance(a, Sc) and isinstance(b, str) or isinstance(b, Sc) and isinstance(a, str):
                    return op == "NotEq"
                if a is None or b is None:
                    if op in ("Eq", "NotEq"):
                        return op == "NotEq"
                self.unsupported("comparison")
            if op == "Eq":
                return a == b
            if op == "NotEq":
                return a != b
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "NotEq"):
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                for x, y in ((ra, rb), (rb, ra)):
                    if x.items is not None and not x.items:
                        c = tm.eq(self.list_len(y), ZERO)
                        return Sc(c if op == "Eq" else tm.not_(c), "py")
        self.unsupported("comparison %s" % op)

    def cmp_opaque(self, op, a, b):
        """Only comparisons of dtypes are understood; a run-time string can equal anything."""
        if op in ("Eq", "NotEq"):
            o, z = (a, b) if isinstance(a, Opaque) else (b, a)
            if isinstance(o.what, tuple) and o.what[0] == "dtype":
                try:
                    d = self.dt(z)
                except Unsupported:
                    d = None
                if d is not None and z is not None and (d != o.what[1] or d in ("f", "b")):
                    return (d == o.what[1]) == (op == "Eq")
            if z is None:
                return op == "NotEq"
        self.unsupported("comparison of a run-time string or type")

    def cmp_term(self, op, p, q):
        if p.isbool != q.isbool:
            p = tm.ite(p, ONE, ZERO) if p.isbool else p
            q = tm.ite(q, ONE, ZERO) if q.isbool else q
        if op == "Eq":
            return tm.eq(p, q)
        if op == "NotEq":
            return tm.not_(tm.eq(p, q))
        if p.isbool:
            p, q = tm.ite(p, ONE, ZERO), tm.ite(q, ONE, ZERO)
        return {"Lt": lambda: tm.lt(p, q), "LtE": lambda: tm.le(p, q), "Gt": lambda: tm.lt(q, p), "GtE": lambda: tm.le(q, p)}[op]()

    def is_same(self, a, b):
        if a is None or b is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, Unknown):
                self.unsupported("identity of unknown")
            return False
        if isinstance(a, (bool, type)) and isinstance(b, (bool, type)):
            return a is b
        if isinstance(a, (Ref,)) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, Sc) and isinstance(b, bool):
            self.unsupported("is bool")
        self.unsupported("identity test")

    def contains(self, c, x):
        if isinstance(c, Builtin) and c.name == "keys":
            c = c.fn
        if isinstance(x, Opaque) or isinstance(c, Opaque):
            self.unsupported("membership of a run-time string")
        if isinstance(x, SymStr):
            r = self.rec(c) if isinstance(c, Ref) else None
            items = list(r.items) if isinstance(r, (DictRec, ListRec)) and r.items is not None else list(c) if isinstance(c, (tuple, frozenset, dict)) else None
            if items is None or any(not isinstance(k, (str, SymStr)) for k in items):
                self.unsupported("membership of an arbitrary string")
            return tm.or_(*[x.same(k) for k in items])
        if isinstance(c, Ref):
            r = self.rec(c)
            if isinstance(r, DictRec):
                if r.sym is not None:
                    return r.sym.has(self.int_t(x))
                if self.isnum(x):
                    return tm.or_(*[tm.eq(self.num_t(k), self.num_t(x)) for k in r.items if self.isnum(k)])
                return TRUE if x in r.items else FALSE
            if isinstance(r, ListRec):
                axis, content, elem, _ = self.to_sym(r)
                if elem == "sc":
                    i, vs, g = axis.fresh_index()
                    return tm.exists(vs, tm.and_(g, tm.eq(content(i), self.num_t(x))))
        if isinstance(c, (tuple, frozenset, dict)) and not isinstance(x, (Sc, Arr, Ref)):
            return TRUE if x in c else FALSE
        if isinstance(c, tuple) and isinstance(x, Sc):
            return tm.or_(*[tm.eq(self.num_t(k), x.t) for k in c if self.isnum(k)])
        if isinstance(c, Arr) and len(c.axes) == 1 and self.isnum(x):
            i, vs, g = c.axes[0].fresh_index()
            return tm.exists(vs, tm.and_(g, tm.eq(self.read(c, [i]), self.num_t(x))))
        self.unsupported("membership test")
