"""Statements, expressions, indexing, calls and loop summaries of the symbolic interpreter."""
import abc
import ast
import builtins
import functools
import itertools
import logging
import types
import numpy as np
import terms as tm
from terms import ZERO, ONE, TRUE, FALSE, num, T
from norm import Norm, Abort
import prove
from symex import (Interp, SymStr, Unsupported, PyRaise, ForeignWrite, NeedFork, Sc, Plain, Filt, Buf, ListRec, DictRec, SymMap, ObjRec,
                   Ref, Arr, Method, Builtin, Super, Rng, Seq, Unknown, Closure, Opaque, State, Frame, function_ast,
                   contains_control, MAX_CALL_DEPTH)

MUTABLE = (list, dict, set, bytearray, np.ndarray)


FRESH = itertools.count(1)


@functools.lru_cache(None)
def hooked(cls):
    """Why attribute access on (or the end of life of) objects of a class runs code that is not modelled; None if it does not."""
    for c in cls.__mro__:
        if c is object or not getattr(c, "__module__", "").startswith("cvi"):
            continue
        for m in ("__getattribute__", "__getattr__", "__delattr__", "__del__", "__new__", "__init_subclass__"):
            if m in c.__dict__:
                return "%s defines %s" % (c.__name__, m)
        for n, x in c.__dict__.items():
            if hasattr(type(x), "__set__") and not isinstance(x, (property, types.GetSetDescriptorType, types.MemberDescriptorType)):
                return "%s.%s is a descriptor" % (c.__name__, n)
    if type(cls) not in (type, abc.ABCMeta):
        return "metaclass of %s" % cls.__name__
    return None


class Foreign:
    """A concrete mutable object that lives outside the analysed call (module/class level, default argument)."""
    __slots__ = ("obj", "what")

    def __init__(self, obj, what):
        self.obj = obj
        self.what = what


class Poison:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Machine(Interp):
    _fname = {}

    # ================================================================ calls
    def wrap(self, v, what):
        if isinstance(v, MUTABLE):
            return Foreign(v, what)
        if type(v).__module__.split(".")[0] == "cvi" and hasattr(v, "__dict__") and not isinstance(v, type):
            return Foreign(v, what)
        return v

    def call_function(self, fn, args, kwargs, cls=None, self_obj=None):
        """Inline the real Python function fn."""
        c = self.contracts.get(fn)
        if c is not None:
            return c(self, args, kwargs)
        return self.inline(fn, args, kwargs)

    def inline(self, fn, args, kwargs):
        if not isinstance(fn, types.FunctionType):
            self.unsupported("call of %r" % (fn,))
        if self.depth > MAX_CALL_DEPTH:
            self.unsupported("call depth")
        if fn.__code__.co_flags & (0x20 | 0x80 | 0x200):
            self.unsupported("generator or coroutine %s" % fn.__qualname__)
        node = function_ast(fn)
        self.functions.add("%s.%s" % (fn.__module__, fn.__qualname__))
        closure = {}
        for name, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                closure[name] = cell.cell_contents
            except ValueError:
                pass
        fr = Frame(fn, fn.__globals__, closure, cls=closure.get("__class__"))
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        self.bind_args(fr, node.args, args, kwargs, [self.wrap(d, "default argument of %s" % fn.__qualname__) for d in defaults],
                       {k: self.wrap(v, "default argument") for k, v in kwd.items()}, fn.__qualname__)
        if args and node.args.args:
            fr.self_obj = args[0]
        for n, v in fr.locals.items():
            if self.oneshot(v) or (isinstance(v, tuple) and any(self.oneshot(x) for x in v)):
                body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if isinstance(v, tuple) or sum(isinstance(x, ast.Name) and x.id == n for x in ast.walk(node)) != 1 or not body or not once(body[0], n):
                    self.unsupported("an iterator passed to a function that uses it more than once or late")
        return self.run_frame(fr, node)

    def bind_args(self, fr, A, args, kwargs, defaults, kwdefaults, name):
        names = [a.arg for a in A.posonlyargs + A.args]
        kwargs = dict(kwargs)
        loc = fr.locals
        if len(args) > len(names):
            if A.vararg is None:
                raise PyRaise(TypeError, "too many arguments for %s" % name)
            loc[A.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif A.vararg is not None:
            loc[A.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        for n in names[len(args):]:
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            else:
                k = names.index(n) - (len(names) - len(defaults))
                if k < 0:
                    raise PyRaise(TypeError, "missing argument %s of %s" % (n, name))
                loc[n] = defaults[k]
        for a in A.kwonlyargs:
            if a.arg in kwargs:
                loc[a.arg] = kwargs.pop(a.arg)
            elif a.arg in kwdefaults:
                loc[a.arg] = kwdefaults[a.arg]
            else:
                raise PyRaise(TypeError, "missing keyword argument")
        if kwargs:
            if A.kwarg is None:
                raise PyRaise(TypeError, "unexpected keyword argument of %s" % name)
            self.unsupported("**kwargs")

    def run_frame(self, fr, node):
        saved = getattr(self, "frame", None)
        self.frame = fr
        self.depth += 1
        where = self.where
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body)
            st, val = self.exec_seq(list(node.body))
            return val if st == "return" else None
        finally:
            self.frame = saved
            self.depth -= 1
            self.where = where

    def instantiate(self, cls, args, kwargs):
        if cls is itertools.combinations:
            return self.builtin_call(cls, args, kwargs)
        if cls in (list, dict, tuple, set, frozenset, int, float, bool, str, range, enumerate, zip, super, type, object):
            return self.builtin_call(cls, args, kwargs)
        if issubclass(cls, BaseException):
            return Opaque(cls)
        if issubclass(cls, list):
            obj = Ref(self.st.alloc(ObjRec(cls, {"@list": self.new_list([])})))
        else:
            if cls.__new__ is not object.__new__ or issubclass(cls, (dict, tuple, np.ndarray)):
                self.unsupported("instantiation of %s" % cls.__name__)
            obj = Ref(self.st.alloc(ObjRec(cls, {})))
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            self.call_function(init, [obj] + list(args), kwargs)
        return obj

    def call(self, f, args, kwargs):
        if isinstance(f, Method):
            return self.call_function(f.fn, [f.obj] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, type):
            if f.__module__ == "numpy" or f.__module__.startswith("numpy"):
                return self.np_call(f, args, kwargs)
            return self.instantiate(f, args, kwargs)
        h = self.np_lookup(f)
        if h is not None:
            return self.np_call(f, args, kwargs)
        if isinstance(f, types.BuiltinFunctionType):
            return self.builtin_call(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call_function(f.__func__, [f.__self__] + list(args), kwargs)
        self.unsupported("call of %r" % (f,))

    def call_closure(self, c, args, kwargs):
        fr = Frame(None, c.interp_globals, {}, cls=c.cls, parent=c.frame)
        self.bind_args(fr, c.node.args, args, kwargs, c.defaults, c.kwdefaults, getattr(c.node, "name", "lambda"))
        fr.self_obj = c.frame.self_obj
        return self.run_frame(fr, c.node)

    # ================================================================ names and attributes
    def lookup(self, name):
        fr = self.frame
        while fr is not None:
            if name in fr.locals:
                v = fr.locals[name]
                if isinstance(v, Poison):
                    self.unsupported("value of %s after %s" % (name, v.why))
                return v
            if name in fr.closure:
                return self.wrap(fr.closure[name], "closure variable %s" % name)
            last = fr
            fr = fr.parent
        g = last.glob
        if name in g:
            return self.wrap(g[name], "module variable %s" % name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, name)

    def getattr(self, v, name):
        if isinstance(v, Ref):
            r = self.rec(v)
            if isinstance(r, ObjRec):
                if hooked(r.cls):
                    self.unsupported(hooked(r.cls))
                if name in r.attrs:
                    x = r.attrs[name]
                    if isinstance(x, Poison):
                        self.unsupported("value of attribute %s after %s" % (name, x.why))
                    return x
                if name == "__dict__":
                    self.unsupported("__dict__")
                if name == "__class__":
                    return r.cls
                return self.class_attr(r.cls, name, v)
            return self.container_method(v, r, name)
        if isinstance(v, Super):
            obj = v.obj
            r = self.rec(obj)
            mro = r.cls.__mro__
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj, c, name)
            raise PyRaise(AttributeError, name)
        if isinstance(v, Arr):
            return self.arr_attr(v, name)
        if isinstance(v, (Sc, int, float)) and not isinstance(v, bool):
            return self.sc_attr(v, name)
        if isinstance(v, types.ModuleType):
            if not hasattr(v, name):
                raise PyRaise(AttributeError, name)
            return self.wrap(getattr(v, name), "module variable %s.%s" % (v.__name__, name))
        if isinstance(v, type):
            for c in v.__mro__:
                if name in c.__dict__:
                    x = c.__dict__[name]
                    if isinstance(x, (staticmethod, classmethod)):
                        return x.__func__ if isinstance(x, staticmethod) else Method(v, x.__func__)
                    return self.wrap(x, "class variable %s.%s" % (c.__name__, name))
            if not hasattr(v, name):
                raise PyRaise(AttributeError, name)
            return self.wrap(getattr(v, name), "class variable")
        if isinstance(v, str) and name in ("strip", "lstrip", "rstrip", "upper", "lower", "title", "casefold", "capitalize", "swapcase", "startswith", "endswith",
                                          "replace", "removeprefix", "removesuffix"):
            def smeth(it, a, k):
                if k or not all(isinstance(x, str) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
                    it.unsupported("string method arguments")
                return getattr(v, name)(*a)
            return Builtin(name, smeth)
        if isinstance(v, Opaque) and v.what == ("finfo",) and name in ("eps", "tiny", "max", "min", "smallest_normal", "resolution"):
            return float(getattr(np.finfo(float), name))
        if isinstance(v, (Opaque, str, SymStr)):
            if name in ("format", "join") if isinstance(v, SymStr) else name in ("format", "join", "upper", "lower", "strip"):
                return Builtin(name, lambda it, a, k: Opaque("str"))
            self.unsupported("attribute %s of a string" % name)
        if isinstance(v, Foreign):
            return self.foreign_method(v, name)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)):
            if name.startswith("__"):
                return getattr(v, name)
            if isinstance(v, np.ufunc) and name == "outer":
                return Builtin("ufunc.outer", lambda it, a, k: it.ufunc_outer(v, a))
            if isinstance(v, np.ufunc) and name == "reduce":
                self.unsupported("ufunc.reduce")
        if isinstance(v, logging.Logger) and name in ("debug", "info", "warning", "error", "log"):
            return Builtin("log", lambda it, a, k: None)
        if isinstance(v, Unknown):
            self.unsupported("read of an unconstrained value: %s" % v.why)
        if v is None:
            raise PyRaise(AttributeError, "None has no attribute %s" % name)
        self.unsupported("attribute %s of %r" % (name, type(v)))

    def bind(self, x, obj, cls, name):
        if isinstance(x, types.FunctionType):
            return Method(obj, x)
        if isinstance(x, staticmethod):
            return x.__func__
        if isinstance(x, classmethod):
            return Method(self.rec(obj).cls, x.__func__)
        if isinstance(x, property):
            return self.call_function(x.fget, [obj], {})
        if name == "__init__":
            return Builtin("init", lambda it, a, k: None)
        return self.wrap(x, "class variable %s.%s" % (cls.__name__, name))

    def class_attr(self, cls, name, obj):
        for c in cls.__mro__:
            if name in c.__dict__:
                if c in (object, list) or not (isinstance(c.__dict__[name], (types.FunctionType, staticmethod, classmethod, property)) or not callable(c.__dict__[name])):
                    break
                return self.bind(c.__dict__[name], obj, c, name)
        r = self.rec(obj)
        if "@list" in r.attrs:
            if name == "__len__":
                return Builtin("len", lambda it, a, k: it.length(obj))
            return self.container_method(r.attrs["@list"], self.rec(r.attrs["@list"]), name)
        if hasattr(cls, "__getattr__"):
            self.unsupported("__getattr__")
        raise PyRaise(AttributeError, "%s has no attribute %s" % (cls.__name__, name))

    def contains(self, c, x):
        if isinstance(c, Foreign):
            self.foreign_reads.add(c.what)
            if isinstance(x, SymStr) and all(isinstance(k, str) for k in c.obj):
                return tm.or_(*[x.same(k) for k in c.obj])
            return tm.bapp("foreign!%d" % next(FRESH))
        return Interp.contains(self, c, x)

    def foreign_method(self, v, name):
        if not isinstance(v.obj, MUTABLE):       # an instance shared between objects
            if name in v.obj.__dict__:
                self.foreign_reads.add(v.what)
                return self.wrap(v.obj.__dict__[name], "%s.%s" % (v.what, name))
            for c in type(v.obj).__mro__:
                f = c.__dict__.get(name)
                if isinstance(f, types.FunctionType):
                    return Method(v, f)
            self.unsupported("attribute %s of a shared object" % name)
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "fill", "sort", "popitem", "discard", "reverse"):
            raise ForeignWrite("%s.%s" % (v.what, name))
        if isinstance(v.obj, np.ndarray):
            return getattr(v.obj, name) if name in ("shape", "size", "ndim") else self.unsupported("attribute of a shared array")
        if name in ("get", "items", "keys", "values", "index", "count", "copy"):
            self.foreign_reads.add(v.what)

            def f(it, a, k):
                if name == "get" and a and isinstance(a[0], SymStr):
                    for k, val in v.obj.items():
                        if it.decide(a[0].same(k)):
                            return it.wrap(val, v.what)
                    return a[1] if len(a) > 1 else None
                if any(isinstance(x, (Sc, Arr, Ref, SymStr)) for x in a):
                    it.unsupported("shared container looked up with a symbolic key")
                x = getattr(v.obj, name)(*a)
                return it.wrap(list(x) if name in ("items", "keys", "values") else x, v.what)
            return Builtin(name, f)
        self.unsupported("shared container method " + name)

    def setattr(self, v, name, val):
        if isinstance(v, Ref) and isinstance(self.rec(v), ObjRec):
            r = self.rec(v)
            for c in r.cls.__mro__:
                x = c.__dict__.get(name)
                if isinstance(x, property):
                    if x.fset is None:
                        raise PyRaise(AttributeError, name)
                    self.call_function(x.fset, [v, val], {})
                    return
            if any("__setattr__" in c.__dict__ for c in r.cls.__mro__ if c is not object) or any("__slots__" in c.__dict__ for c in r.cls.__mro__):
                self.unsupported("__setattr__/__slots__")
            r.attrs[name] = val
            self.written.add(v.oid)
            return
        if isinstance(v, (type, types.ModuleType, types.FunctionType)):
            raise ForeignWrite("%s.%s" % (getattr(v, "__name__", v), name))
        if isinstance(v, Arr) and name == "shape":
            self.unsupported("in-place reshape")
        if isinstance(v, Foreign):
            raise ForeignWrite(v.what)
        self.unsupported("attribute store on %r" % (type(v),))

    # ================================================================ expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > 400000:
            self.unsupported("step limit")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return tuple(out)

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and isinstance(self.rec(v), ListRec) and self.rec(v).items is not None:
            return list(self.rec(v).items)
        self.unsupported("unpacking of a symbolic sequence")

    def e_List(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                if isinstance(v, Ref) and self.rec(v).items is None:
                    base = self.list_concat(ListRec(items=items), self.rec(v))
                    rest = e.elts[e.elts.index(x) + 1:]
                    if any(isinstance(y, ast.Starred) for y in rest):
                        self.unsupported("several symbolic unpackings")
                    return self.list_concat(self.rec(base), ListRec(items=[self.eval(y) for y in rest]))
                items.extend(self.concrete_items(v))
            else:
                items.append(self.eval(x))
        return self.new_list(items)

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.unsupported("dict unpacking")
            kk = self.eval(k)
            if isinstance(kk, (Sc, Arr, Ref)):
                self.unsupported("dict display with symbolic key")
            d[kk] = self.eval(v)
        return Ref(self.st.alloc(DictRec(items=d)))

    def e_JoinedStr(self, e):
        return Opaque("str")

    def e_BinOp(self, e):
        return self.binop2(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def binop2(self, op, a, b):
        if op == "MatMult":
            return self.matmul(a, b)
        return self.binop(op, a, b)

    def e_UnaryOp(self, e):
        op = type(e.op).__name__
        if op == "Not" and isinstance(e.operand, ast.BoolOp):
            return Sc(tm.not_(self.test(e.operand)), "py")
        v = self.eval(e.operand)
        if op == "Not":
            return (not v) if isinstance(v, (bool, type(None))) else Sc(tm.not_(self.truth(v)), "py")
        if op == "USub":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            return self.binop("Mult", -1, v)
        if op == "UAdd":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return v
            return self.binop("Mult", 1, v)
        if op == "Invert":
            if isinstance(v, Arr) and self.dtype(v) == "b":
                rd = self.reader(v)
                return self.new_arr(v.axes, lambda idx: tm.not_(rd(idx)), "b")
            if isinstance(v, Sc) and v.t.isbool and v.kind == "np":
                return Sc(tm.not_(v.t), "np")
        self.unsupported("unary " + op)

    def test(self, e):
        """Condition term of an expression of which only the truth value matters."""
        return self.truth(self.bool_op(e, True) if isinstance(e, ast.BoolOp) else self.eval(e))

    def e_BoolOp(self, e):
        return self.bool_op(e, False)

    def undecided(self, test):
        if not test:
            self.unsupported("value of and/or of operands that are not booleans")

    def bool_op(self, e, test):
        """and/or: the value is one of the operands, so unless only its truth value matters the operands are booleans or decided here."""
        isand = isinstance(e.op, ast.And)
        saved = self.ctx
        try:
            conds = []
            for k, x in enumerate(e.values):
                v = Sc(self.test(x), "py") if isinstance(x, ast.BoolOp) and test else self.eval(x)
                boolean = isinstance(v, (bool, np.bool_)) or isinstance(v, Sc) and v.t.isbool
                if not boolean and not (test and isinstance(v, (Sc, Arr))):
                    # value semantics of and/or on non-booleans: only if decided now
                    c = self.truth(v)
                    last = k == len(e.values) - 1
                    if not conds and last:
                        return v
                    if c is TRUE or self.implied(c):
                        if isand:
                            if last:
                                if not conds:
                                    return v
                                self.undecided(test)
                            continue
                        if not conds:
                            return v
                        self.undecided(test)
                        conds.append(TRUE)
                        continue
                    if c is FALSE or self.implied(tm.not_(c)):
                        if isand and not conds:
                            return v
                        if not isand:
                            if last:
                                self.undecided(test)
                            continue
                        self.undecided(test)
                        conds.append(FALSE)
                        continue
                    self.undecided(test)
                    conds.append(c)
                    self.ctx = self.ctx.extend(c if isand else tm.not_(c))
                    continue
                c = self.truth(v)
                if c is FALSE and isand:
                    return Sc(FALSE, "py") if conds else (v if isinstance(v, bool) else Sc(FALSE, "py"))
                if c is TRUE and not isand:
                    return Sc(TRUE, "py")
                if c is (TRUE if isand else FALSE) and k < len(e.values) - 1:
                    continue
                conds.append(c)
                self.ctx = self.ctx.extend(c if isand else tm.not_(c))
        finally:
            self.ctx = saved
        return Sc(tm.and_(*conds) if isand else tm.or_(*conds), "py")

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right)
            if out is None:
                out = v
            else:
                out = Sc(tm.and_(self.truth(out), self.truth(v)), "py")
            left = right
        return out

    def e_IfExp(self, e):
        c = self.test(e.test)
        try:
            return self.eval(e.body) if self.decide(c) else self.eval(e.orelse)
        except NeedFork:
            pass
        saved = self.ctx
        self.ctx = saved.extend(c)
        a = self.eval(e.body)
        self.ctx = saved.extend(tm.not_(c))
        b = self.eval(e.orelse)
        self.ctx = saved
        return self.merge_values(c, a, b)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        if self.oneshot(v):
            self.unsupported("an iterator kept in a variable")
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        if self.comp_depth:
            self.unsupported("function made in a comprehension")
        return Closure(e, self.frame, self.frame.glob, self.frame.cls, self.eval)

    def e_Starred(self, e):
        self.unsupported("starred")

    def e_Slice(self, e):
        g = lambda x: None if x is None else self.eval(x)  # noqa: E731
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval(e.slice))

    def e_Call(self, e):
        self.where = "line %d" % e.lineno if self.frame.fn is None else "%s line %d" % (self.frame.fn.__qualname__, e.lineno)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in self.frame.locals:
            fr = self.frame
            while fr is not None and fr.cls is None:
                fr = fr.parent
            if fr is None:
                self.unsupported("super() outside a class")
            return Super(fr.cls, fr.self_obj)
        f = self.eval(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.e_GeneratorExp(a))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, Ref) and isinstance(self.rec(v), DictRec) and self.rec(v).items is not None:
                    kwargs.update(self.rec(v).items)
                else:
                    self.unsupported("** call")
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(f, args, kwargs)

    # ---------------------------------------------------------------- comprehensions
    def comprehension(self, gens, elt):
        """Evaluate elt for all bindings; returns (axis or concrete list, maker)."""
        fr = self.frame
        saved = dict(fr.locals)
        ctx0 = self.ctx
        md = self.merge_depth
        self.comp_depth += 1
        try:
            it = None
            # fully concrete iteration
            if len(gens) == 1 and not gens[0].is_async:
                it = self.eval(gens[0].iter)
                items = self.try_concrete(it)
                if items is not None:
                    out = []
                    ok = True
                    for x in items:
                        self.assign(gens[0].target, x)
                        keep = True
                        for c in gens[0].ifs:
                            t = self.test(c)
                            if t is FALSE or self.implied(tm.not_(t)):
                                keep = False
                            elif not (t is TRUE or self.implied(t)):
                                ok = False
                        if not ok:
                            break
                        if keep:
                            out.append(self.eval(elt))
                    if ok:
                        return out, None, None
            binders, guard, plain = [], TRUE, None
            self.merge_depth += 1
            for k, g in enumerate(gens):
                if k or it is None:
                    it = self.eval(g.iter)
                axis, get = self.iterate(it)
                i, vs, gd = axis.fresh_index("q")
                binders.extend(vs)
                guard = tm.and_(guard, gd)
                plain = axis if (len(gens) == 1 and not g.ifs) else None
                self.ctx = self.ctx.extend(gd)
                self.assign(g.target, get(i))
                for c in g.ifs:
                    t = self.test(c)
                    guard = tm.and_(guard, t)
                    self.ctx = self.ctx.extend(t)
            v = self.eval(elt)
            if plain is not None:
                return plain, (i, vs), v
            return Filt(binders, guard), (tuple(binders), binders), v
        finally:
            fr.locals = saved
            self.ctx = ctx0
            self.merge_depth = md
            self.comp_depth -= 1

    def comp_value(self, axis, iv, v):
        """List value from a symbolic comprehension."""
        if axis.__class__ is list:
            return self.new_list(axis)
        i, vs = iv

        def inst(t, p):
            ps = p if isinstance(p, tuple) else (p,)
            return tm.subst(t, dict(zip(vs, ps)))
        if self.isnum(v):
            s = self.lift(v)
            t = s.t if s.t.isbool else self.num_t(v)
            return self.sym_list(axis, lambda p: inst(t, p), "sc", s.kind)
        if isinstance(v, Arr):
            rd = self.reader(v)
            for a in v.axes:
                if isinstance(a, Plain) and a.L.fv & frozenset(vs):
                    self.unsupported("list of arrays of varying shape")
                if isinstance(a, Filt) and a.guard.fv & frozenset(vs):
                    self.unsupported("list of arrays of varying shape")
            return self.sym_list(axis, lambda p, idx: inst(rd(idx), p), ("arr", list(v.axes), self.dtype(v)))
        if isinstance(v, Ref) and isinstance(self.rec(v), ListRec):
            ax, content, elem, kind = self.to_sym(self.rec(v))
            if elem == "sc" and isinstance(ax, Plain) and not (ax.L.fv & frozenset(vs)):
                return self.sym_list(axis, lambda p, idx: inst(content(idx[0]), p), ("arr", [ax], "?"))
        if isinstance(v, tuple) and all(self.isnum(x) for x in v):
            self.unsupported("list of tuples")
        self.unsupported("comprehension element")

    def e_ListComp(self, e):
        a, iv, v = self.comprehension(e.generators, e.elt)
        return self.comp_value(a, iv, v)

    def e_GeneratorExp(self, e):
        v = self.e_ListComp(e)
        if isinstance(v, Ref):
            self.generators.add(v.oid)
        return v

    def e_SetComp(self, e):
        self.unsupported("set comprehension")

    def e_DictComp(self, e):
        self.unsupported("dict comprehension")

    def try_concrete(self, it):
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, Foreign) and isinstance(it.obj, (list, dict)) and len(it.obj) <= 24:
            self.foreign_reads.add(it.what)
            return [self.wrap(x, it.what) for x in it.obj]
        if isinstance(it, Ref) and isinstance(self.rec(it), ListRec) and self.rec(it).items is not None:
            return list(self.rec(it).items)
        if isinstance(it, Rng):
            lo, hi = it.lo, it.hi
            n = self.simp(tm.sub(hi, lo))
            if n.op == "num" and n.args[0] <= 12 and it.step in (1, -1):
                n = max(0, int(n.args[0]) if it.step == 1 else -int(n.args[0]))
                return [Sc(tm.add(lo, num(p * it.step)), "py") for p in range(n)]
        if isinstance(it, Seq) and it.axis is None:
            return it.get
        if isinstance(it, Arr) and it.axes and isinstance(it.axes[0], Plain) and it.axes[0].L.op == "num" and it.axes[0].L.args[0] <= 12:
            return [self.getitem(it, p) for p in range(int(it.axes[0].L.args[0]))]
        return None

    def iterate(self, it):
        """(axis, get(index) -> value) of a symbolic iterable."""
        if isinstance(it, Rng):
            lo = it.lo
            if it.step == 1:
                n = self.simp(tm.sub(it.hi, lo))
                if not self.implied(tm.le(ZERO, n)):
                    n = tm.ite(tm.le(ZERO, n), n, ZERO)
                return Plain(n), lambda i: Sc(tm.add(i, lo), "py")
            if it.step == -1:
                n = self.simp(tm.sub(lo, it.hi))
                if not self.implied(tm.le(ZERO, n)):
                    n = tm.ite(tm.le(ZERO, n), n, ZERO)
                return Plain(n), lambda i: Sc(tm.sub(lo, i), "py")
            self.unsupported("range step")
        if isinstance(it, Seq):
            if it.axis is None:
                return self.iterate(self.new_list(it.get))
            return it.axis, it.get
        if isinstance(it, Ref):
            r = self.rec(it)
            if isinstance(r, ListRec):
                snap = ListRec(list(r.items) if r.items is not None else None, r.axis, r.content, r.elem, r.kind)
                axis = self.to_sym(snap)[0]
                return axis, lambda i: self.list_get(snap, i)
            if isinstance(r, ObjRec) and "@list" in r.attrs:
                return self.iterate(r.attrs["@list"])
        if isinstance(it, Arr) and it.axes:
            return it.axes[0], lambda i: self.index_first(it, i)
        if isinstance(it, tuple):
            return self.iterate(self.new_list(it))
        self.unsupported("iteration over %r" % (type(it),))

    def index_first(self, a, i):
        """a[i] for an axis index i (term, or tuple for a filtered axis): a view."""
        sel = []
        for s in a.sel:
            if s[0] == "fix":
                sel.append(s)
            elif s[1] == 0:
                sel.append(("fix", i if isinstance(i, tuple) or s[2] is ZERO else tm.add(i, s[2])))
            else:
                sel.append(("ax", s[1] - 1, s[2]))
        v = Arr(a.oid, a.axes[1:], sel)
        if not v.axes:
            return Sc(self.read(v, []), "np")
        return v

    # ================================================================ statements
    def exec_seq(self, stmts):
        """Execute a statement list; returns (status, value)."""
        stmts = list(stmts)
        while stmts:
            s = stmts.pop(0)
            self.steps += 1
            if hasattr(s, "lineno"):
                q = self.frame.fn.__qualname__ if self.frame.fn else "local function"
                self.where = "%s line %d" % (q, s.lineno)
            if isinstance(s, ast.If):
                c = self.test(s.test)
                try:
                    v = self.decide(c)
                except NeedFork:
                    if contains_control(s.body) or contains_control(s.orelse):
                        return self.merge_run(c, s.body + stmts, s.orelse + stmts)
                    self.merge_run(c, s.body, s.orelse)
                    continue
                stmts = (s.body if v else s.orelse) + stmts
                continue
            if isinstance(s, ast.Return):
                return "return", (None if s.value is None else self.eval(s.value))
            if isinstance(s, ast.Continue):
                return "continue", None
            if isinstance(s, ast.Break):
                return "break", None
            if isinstance(s, ast.Try):
                r = self.exec_try(s)
                if r[0] != "next":
                    return r
                continue
            if isinstance(s, ast.With):
                for item in s.items:
                    f = item.context_expr
                    v = self.eval(f)
                    if not (isinstance(v, Opaque) and v.what == "errstate"):
                        self.unsupported("with statement")
                    if item.optional_vars is not None:
                        self.unsupported("with ... as")
                stmts = s.body + stmts
                continue
            r = self.exec_stmt(s)
            if r is not None:
                return r
        return "next", None

    def exec_try(self, s):
        if self.merge_depth:
            self.unsupported("try inside a loop")
        if s.finalbody:
            self.unsupported("finally")
        try:
            r = self.exec_seq(s.body)
            if r[0] == "next" and s.orelse:
                r = self.exec_seq(s.orelse)
            return r
        except PyRaise as e:
            for h in s.handlers:
                ok = h.type is None
                if not ok:
                    t = self.eval(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(isinstance(x, type) and issubclass(e.cls, x) for x in ts)
                if ok:
                    if h.name:
                        self.frame.locals[h.name] = Opaque(e.cls)
                    return self.exec_seq(h.body)
            raise

    def merge_run(self, c, body, orelse):
        fr = self.frame
        heap0, loc0, ctx0 = self.st.snapshot(), dict(fr.locals), self.ctx
        self.ctx = ctx0.extend(c)
        ra = self.exec_seq(list(body))
        heapA, locA = self.st.heap, fr.locals
        self.st.heap, fr.locals = heap0, dict(loc0)
        self.ctx = ctx0.extend(tm.not_(c))
        rb = self.exec_seq(list(orelse))
        heapB, locB = self.st.heap, fr.locals
        self.ctx = ctx0
        self.st.heap = self.merge_heap(c, heapA, heapB)
        fr.locals = self.merge_dict(c, locA, locB)
        sa, sb = ra[0], rb[0]
        if sa == sb:
            return (sa, self.merge_values(c, ra[1], rb[1]) if sa == "return" else None)
        if {sa, sb} <= {"next", "continue"}:
            return "continue", None
        if {sa, sb} == {"next", "return"}:
            v = ra[1] if sa == "return" else rb[1]
            if v is None:
                return "return", None
        self.unsupported("break or return on one branch inside a loop")

    def merge_dict(self, c, a, b):
        out = {}
        for k in a:
            if k in b:
                out[k] = a[k] if a[k] is b[k] else self.merge_values(c, a[k], b[k])
            else:
                out[k] = Poison("a branch that may not assign it")
        for k in b:
            if k not in a:
                out[k] = Poison("a branch that may not assign it")
        return out

    def merge_heap(self, c, A, B):
        # merge_values may allocate: work in A extended by B's fresh objects
        out = {}
        allk = dict(B)
        allk.update(A)
        self.st.heap = allk
        for k in list(allk):
            if k in A and k in B:
                out[k] = A[k] if A[k] is B[k] else self.merge_rec(c, A[k], B[k])
            else:
                out[k] = allk[k]
        for k, r in self.st.heap.items():
            if k not in out:
                out[k] = r
        return out

    def merge_rec(self, c, a, b):
        if isinstance(a, Buf):
            if a.content is b.content:
                return a
            fa, fb = a.content, b.content
            return Buf(a.axes, lambda idx: tm.ite(c, fa(idx), fb(idx)), a.dtype if a.dtype == b.dtype else "?", a.ro or b.ro)
        if isinstance(a, ListRec):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListRec(items=[x if x is y else self.merge_values(c, x, y) for x, y in zip(a.items, b.items)])
            if a.items is None and b.items is None and a.content is b.content and a.axis is b.axis:
                return a
            xa, ca, ea, ka = self.to_sym(a)
            xb, cb, eb, kb = self.to_sym(b)
            if not (isinstance(xa, Plain) and isinstance(xb, Plain)):
                self.unsupported("merge of filtered lists")
            if ea != "sc" and eb == "sc" and xb.L is ZERO:
                eb, cb = ea, lambda i, idx: ZERO
            if eb != "sc" and ea == "sc" and xa.L is ZERO:
                ea, ca = eb, lambda i, idx: ZERO
            if (ea == "sc") != (eb == "sc"):
                self.unsupported("merge of lists")
            L = xa.L if xa.L is xb.L else tm.ite(c, xa.L, xb.L)
            return ListRec(axis=Plain(L), content=lambda *p: tm.ite(c, ca(*p), cb(*p)), elem=ea, kind=ka if ka == kb else "any")
        if isinstance(a, DictRec):
            if a.sym is b.sym and a.items == b.items:
                return a
            if a.sym is not None and b.sym is not None:
                x, y = a.sym, b.sym
                return DictRec(sym=SymMap(lambda l: tm.ite(c, x.has(l), y.has(l)), lambda l: tm.ite(c, x.val(l), y.val(l)), tm.ite(c, x.size, y.size)))
            self.unsupported("merge of dicts")
        return ObjRec(a.cls, self.merge_dict(c, a.attrs, b.attrs))

    def merge_values(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison("branches")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown("merge")
        if self.isnum(a) and self.isnum(b):
            x, y = self.lift(a), self.lift(b)
            if x.t is y.t and x.kind == y.kind:
                return a
            if x.t.isbool and y.t.isbool:
                return Sc(tm.ite(c, x.t, y.t), x.kind if x.kind == y.kind else "any")
            return Sc(tm.ite(c, self.num_t(a), self.num_t(b)), x.kind if x.kind == y.kind else "any")
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.oid == b.oid and a.sel == b.sel and a.axes == b.axes:
                return a
            if self.same_axes(a.axes, b.axes):
                ra, rb = self.reader(a), self.reader(b)
                return self.new_arr(a.axes, lambda idx: tm.ite(c, ra(idx), rb(idx)), self.dtype(a) if self.dtype(a) == self.dtype(b) else "?", ro=True)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return a
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, ListRec) and isinstance(rb, ListRec):
                return Ref(self.st.alloc(self.merge_rec(c, ra, rb)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_values(c, x, y) for x, y in zip(a, b))
        try:
            if a == b:
                return a
        except Exception:
            pass
        return Poison("branches with different values")

    def exec_stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(s).__name__)
        return m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.oneshot(v):
            if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or not self.used_next(s.targets[0].id, s):
                self.unsupported("an iterator kept in a variable (it can be consumed once only, and reads its source late)")
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.oneshot(v):
                self.unsupported("an iterator kept in a variable")
            self.assign(s.target, v)

    # ---------------------------------------------------------------- iterators: consumed once, evaluated when consumed
    def oneshot(self, v):
        return isinstance(v, Seq) or (isinstance(v, Ref) and v.oid in self.generators)

    def used_next(self, name, stmt):
        """The iterator bound by stmt is used exactly once, by the next statement, outside of anything that repeats or delays it."""
        fn = getattr(self.frame, "fn", None)
        if not isinstance(fn, types.FunctionType):
            return False
        root = function_ast(fn)
        uses = [n for n in ast.walk(root) if isinstance(n, ast.Name) and n.id == name]
        if len(uses) != 2:
            return False
        for n in ast.walk(root):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and any(x is stmt for x in b):
                    k = [x is stmt for x in b].index(True)
                    return k + 1 < len(b) and once(b[k + 1], name)
        return False

    def s_Global(self, s):
        self.frame.locals.setdefault("@global", set())
        self.unsupported("global statement")

    def s_Nonlocal(self, s):
        self.unsupported("nonlocal statement")

    def s_Import(self, s):
        self.unsupported("import inside a function")

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        if s.decorator_list:
            self.unsupported("decorated local function")
        self.frame.locals[s.name] = Closure(s, self.frame, self.frame.glob, self.frame.cls, self.eval)

    def s_Assert(self, s):
        c = self.test(s.test)
        if self.merge_depth:
            self.need("AssertionError", c)
            return
        if not self.decide(c):
            raise PyRaise(AssertionError)

    def s_Raise(self, s):
        if s.exc is None:
            self.unsupported("re-raise")
        v = self.eval(s.exc)
        if self.merge_depth:
            self.unsupported("raise inside a loop")
        if isinstance(v, Opaque) and isinstance(v.what, type):
            raise PyRaise(v.what)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v)
        self.unsupported("raise")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Ref) and isinstance(self.rec(o), ObjRec):
                    if t.attr not in self.rec(o).attrs:
                        raise PyRaise(AttributeError, t.attr)
                    del self.rec(o).attrs[t.attr]
                    self.written.add(o.oid)
                    continue
                raise ForeignWrite("del attribute")
            if isinstance(t, ast.Name):
                if t.id not in self.frame.locals:
                    raise PyRaise(NameError, t.id)
                del self.frame.locals[t.id]
                continue
            self.unsupported("del of a subscript")

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            self.assign(s.target, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value)
            ix = self.eval(s.target.slice)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.inplace(op, cur, self.eval(s.value)))
        else:
            self.unsupported("augmented assignment")

    def inplace(self, op, cur, val):
        if isinstance(cur, Arr) and cur.axes:
            r = self.binop2(op, cur, val)
            dt = self.dtype(cur)
            rdt = self.dtype(r)
            if dt != "f" and (op == "Div" or rdt != dt):
                if dt == "i" and rdt == "f":
                    raise PyRaise(TypeError, "in-place operation would cast float to int (%s)" % self.where)
                self.unsupported("in-place arithmetic on an array of uncertain dtype")
            self.store_full(cur, r)
            return cur
        if isinstance(cur, Ref) and isinstance(self.rec(cur), ListRec):
            if op == "Add":
                other = val if isinstance(val, Ref) else self.new_list(self.concrete_items(val))
                n = self.rec(self.list_concat(self.rec(cur), self.rec(other)))
                self.st.heap[cur.oid] = n
                self.written.add(cur.oid)
                return cur
        return self.binop2(op, cur, val)

    def store_full(self, a, v):
        axes, rd, dt = self.as_array(v)
        rd = self.broadcast_to(a.axes, axes, rd)
        self.write(a, lambda view: TRUE, lambda view: self.as_num(rd(view)) if self.dtype(a) != "b" else rd(view))

    def as_num(self, t):
        return tm.ite(t, ONE, ZERO) if t.isbool else t

    def broadcast_to(self, target, axes, rd):
        while len(axes) > len(target) and self.is_one(axes[0]):
            axes, rd = axes[1:], (lambda idx, rd=rd: rd([ZERO] + list(idx)))
        if len(axes) > len(target):
            raise PyRaise(ValueError, "could not broadcast (%s)" % self.where)
        off = len(target) - len(axes)
        how = []
        for j, c in enumerate(axes):
            m = target[off + j]
            if self.same_axis(c, m):
                how.append("same")
            elif self.is_one(c):
                how.append("zero")
            elif isinstance(m, Filt) and isinstance(c, Plain) and self.same_len(c.L, m.length()):
                how.append("const")
            else:
                if isinstance(c, Plain) and isinstance(m, Plain) and self.implied(tm.and_(tm.not_(tm.eq(c.L, m.L)), tm.not_(tm.eq(c.L, ONE)))):
                    raise PyRaise(ValueError, "could not broadcast (%s)" % self.where)
                self.unsupported("cannot show that shapes agree: %s vs %s" % (self.show_axis(c), self.show_axis(m)))
        if "const" in how:
            probe, vs = [], []
            for ax, h in zip(axes, how):
                i, v, g = ax.fresh_index("p")
                probe.append(i)
                if h == "const":
                    vs.extend(v)
            if rd(probe).fv & frozenset(vs):
                self.unsupported("filtered axis combined with a plain axis")
        return lambda idx: rd([idx[off + j] if h == "same" else ZERO for j, h in enumerate(how)])

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frame.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    self.unsupported("starred assignment")
                self.assign(x, y)
        else:
            self.unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, Ref) and isinstance(self.rec(v), ListRec) and self.rec(v).items is not None:
            items = list(self.rec(v).items)
        elif isinstance(v, Arr) and v.axes and isinstance(v.axes[0], Plain) and v.axes[0].L.op == "num":
            items = [self.getitem(v, p) for p in range(int(v.axes[0].L.args[0]))]
        else:
            self.unsupported("unpacking")
        if len(items) != n:
            raise PyRaise(ValueError, "unpack")
        return items

    # ================================================================ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        items = self.try_concrete(it)
        if items is not None and (len(items) <= 6 or any(not self.isnum(x) and not isinstance(x, Arr) for x in items)):
            for x in items:
                self.assign(s.target, x)
                st, v = self.exec_seq(list(s.body))
                if st == "return":
                    return st, v
                if st == "break":
                    return None
            if s.orelse:
                st, v = self.exec_seq(list(s.orelse))
                if st != "next":
                    return st, v
            return None
        if s.orelse:
            self.unsupported("for-else")
        axis, get = self.iterate(it)
        self.summarise(axis, lambda i: self.assign(s.target, get(i)), s.body, s.lineno, target_names(s.target))
        return None

    def s_While(self, s):
        """while with a unit-step induction variable: i = lo; while i < hi: ...; i += 1"""
        if s.orelse:
            self.unsupported("while-else")
        names = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)]
        for nm in names:
            v = self.frame.locals.get(nm)
            if not (isinstance(v, (int, Sc)) and not isinstance(v, bool)):
                continue
            lo = self.num_t(v)
            if not lo.isint:
                continue
            i = tm.fresh("w")
            saved = dict(self.frame.locals)
            heap, ctx, md = self.st.snapshot(), self.ctx, self.merge_depth
            # bound from the test
            try:
                self.merge_depth += 1
                self.frame.locals[nm] = Sc(tm.add(lo, i), "py")
                c = self.test(s.test)
                L = self.while_bound(c, i)
                step_ok = False
                if L is not None:
                    self.ctx = ctx.extend(tm.rng(i, L))
                    # probe the step
                    last = s.body[-1]
                    rest = s.body[:-1]
                    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == nm and isinstance(last.op, ast.Add) \
                            and isinstance(last.value, ast.Constant) and last.value.value == 1:
                        step_ok = True
                    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == nm:
                        val = self.eval(last.value)
                        step_ok = self.isnum(val) and self.simp(tm.sub(self.num_t(val), tm.add(lo, i))) is ONE
                    if any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store) for b in rest for n in ast.walk(b)):
                        step_ok = False
                    if any(isinstance(n, ast.Continue) for b in rest for n in ast.walk(b)):
                        step_ok = False
            finally:
                self.frame.locals = saved
                self.st.heap, self.ctx, self.merge_depth = heap, ctx, md
            if L is not None and step_ok:
                if not self.implied(tm.le(ZERO, L)):
                    L = tm.ite(tm.le(ZERO, L), L, ZERO)
                L = self.simp(L)

                def setter(p, nm=nm, lo=lo):
                    self.frame.locals[nm] = Sc(tm.add(lo, p), "py")
                self.summarise(Plain(L), setter, s.body[:-1], s.lineno, {nm})
                self.frame.locals[nm] = Sc(tm.add(lo, L), "py")
                return None
        self.unsupported("while loop")

    def while_bound(self, c, i):
        """c is i <= t (t free of i)  ->  number of iterations t+1."""
        c = self.simp(c)
        if c.op == "le":
            p = Norm(self.ctx).norm(tm.sub(c.args[0], c.args[1]))
            m = ((i, 1),)
            if p.get(m) == 1:
                rest = {k: v for k, v in p.items() if k != m}
                t = Norm(self.ctx).reify({k: -v for k, v in rest.items()})
                if i not in t.fv:
                    return tm.add(t, ONE)
        if c.op == "not" and c.args[0].op == "eq":
            p = Norm(self.ctx).norm(tm.sub(*c.args[0].args))
            m = ((i, 1),)
            if p.get(m) in (1, -1):
                sg = p[m]
                rest = {k: v for k, v in p.items() if k != m}
                t = Norm(self.ctx).reify({k: -v / sg for k, v in rest.items()})
                if i not in t.fv and self.implied(tm.le(ZERO, t)):
                    return t
        return None

    def summarise(self, axis, setter, body, line, targets):
        """Replace a loop by its closed form.  See DESIGN.md, 'Loops'."""
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Return, ast.Break)):
                    self.unsupported("return or break inside a loop over a symbolic range")
        fr = self.frame
        heap0 = self.st.snapshot()
        loc0 = dict(fr.locals)
        ctx0 = self.ctx
        md0 = self.merge_depth
        saf0 = len(self.safety)
        wr0 = set(self.written)
        idx, ivars, guard = axis.fresh_index("l")
        mod_heap, mod_loc, mod_attr, list_mode = set(), set(), set(), {}
        L = axis.length()
        for attempt in range(5):
            self.st.heap = clone_heap(heap0)
            fr.locals = dict(loc0)
            self.ctx = ctx0.extend(guard)
            self.merge_depth = md0 + 1
            del self.safety[saf0:]
            self.written = set()
            hv = self.havoc(idx, ivars, axis, mod_heap, mod_loc, mod_attr, list_mode, heap0, loc0)
            start_heap = clone_heap(self.st.heap)
            start_loc = dict(fr.locals)
            setter(idx)
            st, _ = self.exec_seq(list(body))
            if st not in ("next", "continue"):
                self.unsupported("loop control")
            # what changed?
            new = False
            for k, r in start_heap.items():
                q = self.st.heap.get(k)
                if isinstance(r, Buf):
                    if q.content is not r.content and k not in mod_heap:
                        mod_heap.add(k)
                        new = True
                elif isinstance(r, ListRec):
                    changed = (q.items is not None) != (r.items is not None) or (q.items is not None and (len(q.items) != len(r.items) or any(
                        x is not y for x, y in zip(q.items, r.items)))) or (q.items is None and (q.content is not r.content or q.axis is not r.axis))
                    if changed and k not in list_mode:
                        list_mode[k] = self.list_change(r, q)
                        new = True
                elif isinstance(r, DictRec):
                    if q.items != r.items or q.sym is not r.sym:
                        self.unsupported("dict modified in a loop")
                else:
                    for a in set(q.attrs) | set(r.attrs):
                        if q.attrs.get(a, 0) is not r.attrs.get(a, 0):
                            if a not in r.attrs:
                                self.unsupported("attribute created or deleted in a loop")
                            if a not in q.attrs:
                                self.unsupported("attribute deleted in a loop")
                            if (k, a) not in mod_attr:
                                mod_attr.add((k, a))
                                new = True
            for n in start_loc:
                if n in targets:
                    continue
                if fr.locals.get(n, 0) is not start_loc[n] and n not in mod_loc:
                    mod_loc.add(n)
                    new = True
            if not new:
                break
        else:
            self.unsupported("loop effects did not stabilise")
        end_heap, end_loc = self.st.heap, fr.locals
        body_ctx = self.ctx
        loop_safety = self.safety[saf0:]
        self.merge_depth = md0
        self.ctx = ctx0
        # closed forms
        sols = {}
        pending = dict(hv)
        saved_names = self._fname
        self._fname = {h[0]: name for name, h in hv.items()}
        for rnd in range(len(hv) + 1):
            prog = False
            for name, h in list(pending.items()):
                if self.close(name, h, axis, idx, ivars, guard, end_heap, end_loc, sols, set(pending), body_ctx):
                    del pending[name]
                    prog = True
            if not prog:
                break
        self._fname = saved_names
        # rebuild the state after the loop
        out_heap = clone_heap(heap0)
        for k, r in end_heap.items():
            if k not in out_heap:
                out_heap[k] = r      # allocated in the body: only reachable through poisoned names
        self.st.heap = out_heap
        fr.locals = dict(loc0)
        for n in end_loc:
            if n not in loc0 or n in targets:
                fr.locals[n] = self.last_value(end_loc[n], L, ivars, hv, n)
        for name, h in hv.items():
            if name in pending:
                val = Poison("a loop whose effect on it has no closed form (line %d)" % line)
                if name[0] == "buf" or name[0] == "list":
                    self.unsupported("no closed form for an array or list modified by the loop at line %d" % line)
                if name[0] == "loc":
                    fr.locals[name[1]] = val
                else:
                    out_heap[name[1]].attrs[name[2]] = val
                continue
            kind = name[0]
            sol = sols[name]
            if kind == "buf":
                b = heap0[name[1]]
                out_heap[name[1]] = Buf(b.axes, sol, b.dtype, b.ro)
            elif kind == "list":
                out_heap[name[1]] = sol
            elif kind == "loc":
                fr.locals[name[1]] = sol
            else:
                out_heap[name[1]].attrs[name[2]] = sol
        # safety conditions of the body: close havoc symbols, keep under the body's context
        del self.safety[saf0:]
        for k, goal, cx, wh in loop_safety:
            g = self.close_term(goal, sols, hv, idx, ivars)
            if g is None:
                g = goal
            self.safety.append((k, g, self.close_ctx(cx, ctx0, sols, hv), wh))
        self.written |= wr0
        self.loops.append({"line": line, "function": fr.fn.__qualname__ if fr.fn else "?", "modified": sorted(str(n[1:]) for n in hv),
                           "closed": len(sols), "havoc": len(hv)})

    def close_ctx(self, cx, ctx0, sols, hv):
        return cx

    def last_value(self, v, L, ivars, hv, name):
        """Value of a body-local variable after the loop (last iteration), if expressible."""
        if isinstance(v, Sc) and len(ivars) == 1 and not self.loop_hv(v.t, hv) and self.implied(tm.lt(ZERO, L)):
            return Sc(tm.subst(v.t, {ivars[0]: tm.sub(L, ONE)}), v.kind)
        if not isinstance(v, (Sc, Arr, Ref, tuple)):
            return v
        return Poison("the loop body")

    def loop_hv(self, t, hv):
        fs = {h[0] for h in hv.values()}
        return any(x.split("#")[0] in fs for x in hv_names(t))

    def list_change(self, r, q):
        a, b = self.list_len(r), self.list_len(q)
        d = self.simp(tm.sub(b, a))
        if d is ZERO:
            return "map"
        if d is ONE:
            return "append"
        return "filter"

    def havoc(self, idx, ivars, axis, mod_heap, mod_loc, mod_attr, list_mode, heap0, loc0):
        hv = {}
        iv = tuple(ivars)

        def hfun(tag):
            return "hv!%s!%d" % (tag, next(_hv))
        for k in mod_heap:
            b = self.st.heap[k]
            f = hfun("b%d" % k)
            isint = b.dtype in "ib"
            bo = b.dtype == "b"

            def content(ix, f=f, isint=isint, bo=bo):
                flat = flatten(ix)
                if bo:
                    return tm.bapp(f, *(iv + tuple(flat)))
                return tm.app(f, *(iv + tuple(flat)), isint=isint)
            self.st.heap[k] = Buf(b.axes, content, b.dtype, b.ro)
            hv[("buf", k)] = (f, content, heap0[k].content)
        for k, mode in list_mode.items():
            r = self.st.heap[k]
            f = hfun("l%d" % k)
            ax, c0, elem, kind = self.to_sym(r)
            if not isinstance(ax, Plain):
                self.unsupported("filtered list modified in a loop")
            if mode == "map":
                if r.items is not None and not all(self.isnum(x) for x in r.items):
                    self.unsupported("list of containers modified in a loop")
                probe = c0(tm.fresh("p")) if elem == "sc" else None
                isint = bool(probe is not None and probe.isint)
                isint = False
                if elem == "sc":
                    content = lambda p, f=f, isint=isint: tm.app(f, *(iv + tuple(flatten([p]))), isint=isint)  # noqa: E731
                else:
                    content = lambda p, ix, f=f: tm.app(f, *(iv + tuple(flatten([p] + list(ix)))))  # noqa: E731
                self.st.heap[k] = ListRec(axis=ax, content=content, elem=elem, kind="any")
                hv[("list", k)] = (f, ("map", ax, c0, elem, kind, content))
            elif mode == "append":
                if len(ivars) != 1:
                    self.unsupported("append in a loop over a filtered sequence")
                n = tm.add(ax.L, ivars[0])
                self.st.heap[k] = ListRec(axis=Plain(n), content=lambda *p, f=f: tm.app(f, *(iv + tuple(flatten([p[0]] + (list(p[1]) if len(p) > 1 else []))))), elem=elem, kind="any")
                hv[("list", k)] = (f, ("append", ax, c0, elem, kind, n))
            else:
                m = tm.app(f + "#len", *iv, isint=True)
                self.st.heap[k] = ListRec(axis=Plain(m), content=lambda *p, f=f: tm.app(f, *(iv + tuple(flatten([p[0]])))), elem=elem, kind="any")
                hv[("list", k)] = (f, ("filter", ax, c0, elem, kind, m))
        for n in mod_loc:
            self.frame.locals[n] = self.havoc_value(loc0[n], hfun(n), iv, hv, ("loc", n))
        for k, a in mod_attr:
            self.st.heap[k].attrs[a] = self.havoc_value(heap0[k].attrs[a], hfun(a), iv, hv, ("attr", k, a))
        return hv

    def havoc_value(self, v, f, iv, hv, name):
        if isinstance(v, (Poison, Unknown)):
            hv[name] = (f, None, v)
            return v
        if self.isnum(v):
            s = self.lift(v)
            if s.t.isbool:
                t = tm.bapp(f, *iv)
            else:
                t = tm.app(f, *iv, isint=False)
            hv[name] = (f, t, s)
            return Sc(t, "any")
        if isinstance(v, Arr):
            rd = self.reader(v)
            content = lambda ix, f=f: tm.app(f, *(iv + tuple(flatten(ix))))  # noqa: E731
            hv[name] = (f, ("arr", v.axes, rd), v)
            return self.new_arr(v.axes, content, "?" if self.dtype(v) != "f" else "f")
        hv[name] = (f, None, v)
        return Poison("loop")

    # -- closed forms -------------------------------------------------
    def close_term(self, t, sols, hv, idx, ivars):
        """Replace havoc symbols of solved entities by their closed form at the current iteration."""
        fmap = {}
        for name, h in hv.items():
            fmap[h[0]] = name
        bad = [False]

        def f(u):
            if u.op == "app" and u.args[0].startswith("hv!"):
                nm = fmap.get(u.args[0].split("#")[0])
                if nm is None:
                    return None            # belongs to an enclosing loop
                pre = sols.get(("prefix",) + nm)
                if pre is None:
                    bad[0] = True
                    return None
                n = len(ivars)
                its, rest = u.args[1:1 + n], u.args[1 + n:]
                r = pre(list(its), list(rest))
                if r is None:
                    bad[0] = True
                return r
            return None
        r = tm.replace(t, f)
        return None if bad[0] else r

    def close(self, name, h, axis, idx, ivars, guard, end_heap, end_loc, sols, pending, bctx):
        kind = name[0]
        if kind == "buf":
            return self.close_buf(name, h, axis, ivars, guard, end_heap[name[1]], sols, bctx)
        if kind == "list":
            return self.close_list(name, h, axis, ivars, guard, end_heap[name[1]], sols, bctx)
        if kind == "loc":
            v = end_loc.get(name[1])
        else:
            v = end_heap[name[1]].attrs.get(name[2])
        if h[1] is None:
            return False
        if isinstance(h[1], tuple):
            return self.close_arrvar(name, h, axis, ivars, guard, v, sols, end_heap)
        if not self.isnum(v):
            return False
        lv = self.lift(v)
        return self.close_scalar(name, h, axis, ivars, guard, lv, sols)

    def own(self, t, f):
        return any(u.op == "app" and u.args[0] == f for u in tm.walk(t))

    def cur_hv(self, t):
        """Havoc symbols of the loop being summarised that occur in t (those of enclosing loops are plain symbols)."""
        return {x for x in hv_names(t) if x.split("#")[0] in self._fname}

    def close_scalar(self, name, h, axis, ivars, guard, lv, sols):
        f, ht, init = h
        t = lv.t
        leaves = leaves_of(t)
        kind = init.kind if init.kind == lv.kind else "any"
        L = axis.length()
        # last value
        others = self.cur_hv(t) - {f}
        if others:
            t2 = self.subst_solved(t, sols, ivars, f)
            if t2 is None:
                return False
            t = t2
            leaves = leaves_of(t)
        if not self.own(t, f):
            if len(ivars) != 1:
                return False
            last = tm.subst(t, {ivars[0]: tm.sub(L, ONE)})
            z = last if self.implied(tm.lt(ZERO, L)) else tm.ite(tm.lt(ZERO, L), last, init.t if last.isbool == init.t.isbool else self.as_num(init.t))
            sols[name] = Sc(z, kind)

            def prefix(its, rest, t=t):
                it = its[0]
                return tm.ite(tm.lt(ZERO, it), tm.subst(t, {ivars[0]: tm.sub(it, ONE)}), init.t)
            sols[("prefix",) + name] = prefix
            return True
        if ht.isbool:
            return False
        init_t = self.as_num(init.t)
        # additive
        inc = []
        ok = True
        for c, leaf in leaves:
            d = sub_exact(leaf, ht)
            if d is None or self.own(d, f) or self.own(c, f):
                ok = False
                break
            inc.append((c, d))
        if ok:
            e = ZERO
            for c, d in inc:
                e = tm.add(e, tm.ite(c, d, ZERO)) if c is not TRUE else tm.add(e, d)
            nb = tuple(tm.fresh("s") for _ in ivars)
            m = dict(zip(ivars, nb))
            sols[name] = Sc(tm.add(init_t, tm.sum_(nb, tm.subst(guard, m), tm.subst(e, m))), kind)
            if len(ivars) == 1:
                def prefix(its, rest, e=e):
                    b = tm.fresh("s")
                    return tm.add(init_t, tm.sum_([b], tm.and_(tm.subst(guard, {ivars[0]: b}), tm.lt(b, its[0])), tm.subst(e, {ivars[0]: b})))
                sols[("prefix",) + name] = prefix
            return True
        # min / max folds:  every leaf is the accumulator or a candidate, chosen by comparing the two
        fold = fold_of(t, ht)
        if fold is not None:
            kd, g2, e = fold
            if self.own(e, f) or self.own(g2, f):
                return False
            nb = tuple(tm.fresh("s") for _ in ivars)
            m = dict(zip(ivars, nb))
            x = tm.ext(kd, nb, tm.subst(tm.and_(guard, g2), m), tm.subst(e, m))
            neutral = tm.INF if kd == "min" else tm.neg(tm.INF)
            nonempty = tm.exists(nb, tm.subst(tm.and_(guard, g2), m))
            sure = Norm(self.ctx)
            if self.ctx.nonempty(sure, list(nb), tm.subst(tm.and_(guard, g2), m)):
                if init_t is neutral:
                    sols[name] = Sc(x, kind)
                else:
                    sols[name] = Sc(tm.min2(init_t, x) if kd == "min" else tm.max2(init_t, x), kind)
            else:
                both = x if init_t is neutral else (tm.min2(init_t, x) if kd == "min" else tm.max2(init_t, x))
                sols[name] = Sc(tm.ite(nonempty, both, init_t), kind)
            return True
        return False

    def subst_solved(self, t, sols, ivars, own):
        """Replace the other havoc symbols of this loop by their already known closed form; None if one is unknown."""
        bad = [False]

        def f(u):
            if u.op == "app" and u.args[0].startswith("hv!") and u.args[0] != own:
                nm = self._fname.get(u.args[0].split("#")[0])
                if nm is None:
                    return None
                pre = sols.get(("prefix",) + nm)
                if pre is None:
                    bad[0] = True
                    return None
                n = len(ivars)
                return pre([self_subst(x) for x in u.args[1:1 + n]], [self_subst(x) for x in u.args[1 + n:]])
            return None

        def self_subst(x):
            return tm.replace(x, f)
        r = tm.replace(t, f)
        return None if bad[0] else r

    def close_indexed(self, f, content0, content1, axes, ivars, guard, sols):
        """Closed form of an indexed family A_i(idx) -> A_{i+1}(idx).  Returns (final(idx), prefix(its, idx)) or None."""
        probe, pv = [], []
        pguard = TRUE
        for a in axes:
            i, vs, g = a.fresh_index("x")
            probe.append(i)
            pv.extend(vs)
            pguard = tm.and_(pguard, g)
        t = content1(probe)
        if self.cur_hv(t) - {f}:
            t = self.subst_solved(t, sols, ivars, f)
            if t is None:
                return None
        hvt = hv_apps(t, f)
        self_app = None
        flat = flatten(probe)
        for u in hvt:
            if list(u.args[1 + len(ivars):]) == flat and list(u.args[1:1 + len(ivars)]) == list(ivars):
                self_app = u
        leaves = leaves_of(t)
        if all(l is self_app for _, l in leaves):
            return (lambda idx: content0(idx)), (lambda its, idx: content0(idx))
        layers, adds = [], []
        lctx = self.ctx.extend(guard, pguard)
        for c, leaf in leaves:
            if leaf is self_app:
                continue
            if lctx.inconsistent((c,)):
                continue
            if hv_apps(c, f):
                return None
            if self.cur_hv(leaf) - {f} or self.cur_hv(c) - {f}:
                return None
            if not hv_apps(leaf, f):
                pin = self.pin(c, ivars, frozenset(pv))
                if pin is None:
                    return None
                layers.append((c, leaf, pin))
                continue
            d = sub_exact(leaf, self_app) if self_app is not None else None
            if d is None or hv_apps(d, f):
                return None
            adds.append((c, d))
        if layers and adds:
            return None
        if adds:
            e = ZERO
            for c, d in adds:
                e = tm.add(e, tm.ite(c, d, ZERO))

            def final(idx):
                nb = tuple(tm.fresh("s") for _ in ivars)
                m = dict(zip(ivars, nb))
                m2 = dict(zip(pv, flatten(idx)))
                return tm.add(content0(idx), tm.sum_(nb, tm.subst(guard, m), tm.subst(tm.subst(e, m), m2)))

            def prefix(its, idx):
                b = tm.fresh("s")
                m2 = dict(zip(pv, flatten(idx)))
                return tm.add(content0(idx), tm.sum_([b], tm.and_(tm.subst(guard, {ivars[0]: b}), tm.lt(b, its[0])), tm.subst(tm.subst(e, {ivars[0]: b}), m2)))
            return final, (prefix if len(ivars) == 1 else None)
        # layers: distinct pins must be mutually exclusive (or ordered by iteration)
        ready = []
        for c, leaf, pin in layers:
            g = tm.subst(tm.and_(c, guard), pin)
            v = tm.subst(leaf, pin)
            ready.append((g, v, pin))
        for x in range(len(ready)):
            for y in range(x + 1, len(ready)):
                gx, gy = ready[x][0], ready[y][0]
                if not self.ctx.extend(pguard).inconsistent((gx, gy)):
                    if len(ivars) != 1:
                        return None
                    px, py = ready[x][2][ivars[0]], ready[y][2][ivars[0]]
                    if self.ctx.extend(pguard, gx, gy).implied(tm.le(py, px)):
                        continue                       # x is the later (or same) write: listed first, wins
                    if self.ctx.extend(pguard, gx, gy).implied(tm.le(px, py)):
                        ready[x], ready[y] = ready[y], ready[x]
                        continue
                    return None

        def final(idx):
            m2 = dict(zip(pv, flatten(idx)))
            out = content0(idx)
            for g, v, _ in reversed(ready):
                gg = tm.subst(g, m2)
                if gg is FALSE:
                    continue
                out = tm.ite(gg, tm.subst(v, m2), out)
            return out

        def prefix(its, idx):
            m2 = dict(zip(pv, flatten(idx)))
            out = content0(idx)
            for g, v, pin in reversed(ready):
                gg = tm.subst(tm.and_(g, tm.lt(pin[ivars[0]], tm.var("@it"))), m2)
                gg = tm.subst(gg, {tm.var("@it"): its[0]})
                out = tm.ite(gg, tm.subst(v, m2), out)
            return out
        return final, (prefix if len(ivars) == 1 else None)

    def pin(self, c, ivars, pv):
        """Solve the loop variables from the equations in c: {ivar: term over the probe indices}."""
        sol = {}
        lits = list(c.args) if c.op == "and" else [c]
        nm = Norm(self.ctx)
        for _ in range(len(ivars)):
            for l in lits:
                if l.op != "eq":
                    continue
                p = nm.norm(tm.subst(tm.sub(l.args[0], l.args[1]), sol))
                for x in ivars:
                    if x in sol:
                        continue
                    co = p.get(((x, 1),))
                    if co in (1, -1):
                        rest = {k: v for k, v in p.items() if k != ((x, 1),)}
                        t = nm.reify({k: -v / co for k, v in rest.items()})
                        if not (t.fv & frozenset(ivars)) and t.isint:
                            sol[x] = t
        return sol if len(sol) == len(ivars) else None

    def close_buf(self, name, h, axis, ivars, guard, end, sols, bctx):
        f, hcontent, orig = h
        b = end
        r = self.close_indexed(f, orig, b.content, b.axes, ivars, guard, sols)
        if r is None:
            return False
        sols[name] = r[0]
        if r[1] is not None:
            sols[("prefix",) + name] = lambda its, rest: r[1](its, unflatten(rest, b.axes))
        return True

    def close_list(self, name, h, axis, ivars, guard, end, sols, bctx):
        f, info = h
        mode, ax, c0, elem, kind = info[:5]
        L = axis.length()
        x1, c1, e1, k1 = self.to_sym(end)
        if mode == "map":
            if (e1 == "sc") != (elem == "sc"):
                return False
            axes = [ax] if elem == "sc" else [ax] + list(elem[1])
            w0 = (lambda idx: c0(idx[0])) if elem == "sc" else (lambda idx: c0(idx[0], idx[1:]))
            w1 = (lambda idx: c1(idx[0])) if elem == "sc" else (lambda idx: c1(idx[0], idx[1:]))
            r = self.close_indexed(f, w0, w1, axes, ivars, guard, sols)
            if r is None:
                return False
            nk = "any"
            if elem == "sc":
                sols[name] = ListRec(axis=ax, content=lambda p: r[0]([p]), elem="sc", kind=nk)
            else:
                sols[name] = ListRec(axis=ax, content=lambda p, ix: r[0]([p] + list(ix)), elem=elem, kind=nk)
            if r[1] is not None:
                sols[("prefix",) + name] = lambda its, rest: r[1](its, unflatten(rest, axes))
            return True
        if mode == "append":
            n = info[5]
            if ax.L is ZERO:
                elem = e1
            if e1 == "sc":
                v = c1(n)
                if self.cur_hv(v):
                    v = self.subst_solved(v, sols, ivars, f)
                    if v is None or self.cur_hv(v):
                        return False
                base = ax.L
                sols[name] = ListRec(axis=Plain(tm.add(base, L)), elem="sc", kind=k1 if ax.L is ZERO else "any",
                                     content=lambda p: tm.ite(tm.lt(p, base), c0(p), tm.subst(v, {ivars[0]: tm.sub(p, base)})) if base is not ZERO else tm.subst(v, {ivars[0]: p}))
                return True
            axs = e1[1]
            probe = [a.fresh_index("x")[0] for a in axs]
            pv = flatten(probe)
            v = c1(n, probe)
            if self.cur_hv(v):
                v = self.subst_solved(v, sols, ivars, f)
                if v is None or self.cur_hv(v):
                    return False
            if ax.L is not ZERO:
                return False
            for a in axs:
                if isinstance(a, Filt) or a.L.fv & frozenset(ivars):
                    return False
            sols[name] = ListRec(axis=Plain(L), elem=e1, kind="any",
                                 content=lambda p, ix: tm.subst(v, {**{ivars[0]: p}, **dict(zip(pv, flatten(ix)))}))
            return True
        # filter: empty list, conditional append
        m = info[5]
        if ax.L is not ZERO or e1 != "sc" or not isinstance(x1, Plain):
            return False
        ls = leaves_of(x1.L)
        cond = FALSE
        for c, leaf in ls:
            if leaf is m:
                continue
            if self.simp(tm.sub(leaf, m)) is ONE:
                cond = tm.or_(cond, c)
            else:
                return False
        v = leaf_under(c1(m), cond)
        if self.cur_hv(v) or self.cur_hv(cond):
            v2 = [l for c, l in leaves_of(c1(m)) if not self.cur_hv(l)]
            if len(v2) != 1 or self.cur_hv(cond):
                return False
            v = v2[0]
        nb = tuple(tm.fresh("s") for _ in ivars)
        mm = dict(zip(ivars, nb))
        sols[name] = ListRec(axis=Filt(nb, tm.subst(tm.and_(guard, cond), mm)), elem="sc", kind=k1,
                             content=lambda p: tm.subst(v, dict(zip(ivars, p if isinstance(p, tuple) else (p,)))))
        return True

    def close_arrvar(self, name, h, axis, ivars, guard, v, sols, end_heap):
        f, (_, axes, rd0), orig = h
        if not isinstance(v, Arr) or not self.same_axes(v.axes, axes):
            return False
        b = end_heap[v.oid]
        sel = v.sel

        def c1(idx):
            out = []
            for s in sel:
                if s[0] == "fix":
                    out.append(s[1])
                else:
                    x = idx[s[1]]
                    out.append(x if s[2] is ZERO or isinstance(x, tuple) else tm.add(x, s[2]))
            return b.content(out)
        probe = [a.fresh_index("x")[0] for a in axes]
        t = c1(probe)
        if not self.cur_hv(t):
            L = axis.length()
            if len(ivars) != 1 or not self.implied(tm.lt(ZERO, L)):
                return False
            pv = flatten(probe)
            m = {ivars[0]: tm.sub(L, ONE)}
            sols[name] = self.new_arr(axes, lambda idx: tm.subst(t, {**m, **dict(zip(pv, flatten(idx)))}), b.dtype)
            return True
        r = self.close_indexed(f, rd0, c1, axes, ivars, guard, sols)
        if r is None:
            return False
        sols[name] = self.new_arr(axes, r[0], b.dtype)
        return True


import itertools  # noqa: E402
_hv = itertools.count()


def once(stmt, name):
    """name occurs in the part of stmt that is evaluated exactly once (the iterable of a loop, not its body)."""
    if isinstance(stmt, (ast.For, ast.While)):
        return isinstance(stmt, ast.For) and once_expr(stmt.iter, name)
    if isinstance(stmt, (ast.If, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
        return isinstance(stmt, ast.If) and once_expr(stmt.test, name)
    return once_expr(stmt, name)


def once_expr(e, name):
    if isinstance(e, ast.Name):
        return e.id == name
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
        return once_expr(e.generators[0].iter, name)
    if isinstance(e, (ast.Lambda, ast.GeneratorExp)):
        return isinstance(e, ast.GeneratorExp) and once_expr(e.generators[0].iter, name)
    return any(once_expr(c, name) for c in ast.iter_child_nodes(e))


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def clone_heap(h):
    out = {}
    for k, r in h.items():
        if isinstance(r, Buf):
            out[k] = Buf(r.axes, r.content, r.dtype, r.ro)
        elif isinstance(r, ListRec):
            out[k] = ListRec(list(r.items) if r.items is not None else None, r.axis, r.content, r.elem, r.kind)
        elif isinstance(r, DictRec):
            out[k] = DictRec(dict(r.items) if r.items is not None else None, r.sym)
        else:
            out[k] = ObjRec(r.cls, dict(r.attrs))
    return out


def flatten(ix):
    out = []
    for x in ix:
        if isinstance(x, tuple):
            out.extend(x)
        else:
            out.append(x)
    return out


def unflatten(flat, axes):
    out, p = [], 0
    for a in axes:
        if isinstance(a, Filt):
            out.append(tuple(flat[p:p + len(a.bs)]))
            p += len(a.bs)
        else:
            out.append(flat[p])
            p += 1
    return out


def hv_apps(t, f):
    return [u for u in tm.walk(t) if u.op == "app" and u.args[0] == f]


def hv_names(t):
    return {u.args[0] for u in tm.walk(t) if u.op == "app" and u.args[0].startswith("hv!")}


def leaves_of(t, cond=TRUE, limit=64):
    if t.op == "ite" and not t.isbool:
        c = t.args[0]
        return leaves_of(t.args[1], tm.and_(cond, c)) + leaves_of(t.args[2], tm.and_(cond, tm.not_(c)))
    return [(cond, t)]


def leaf_under(t, cond):
    while t.op == "ite" and t.args[0] is cond:
        t = t.args[1]
    return t


def sub_exact(t, h):
    """t - h when h occurs as a plain summand of t."""
    if t is h:
        return ZERO
    if t.op == "add" and h in t.args:
        args = list(t.args)
        args.remove(h)
        return tm.add(*args) if args else ZERO
    return None


def fold_of(t, h):
    """t = min/max(h, e) possibly guarded: returns (kind, guard, e)."""
    if t.op != "ite":
        return None
    c, a, b = t.args
    # unguarded or-else guarded
    if a is h or b is h:
        e = b if a is h else a
        pick_e = tm.not_(c) if a is h else c
        if e.op == "ite":
            return None
        lits = list(pick_e.args) if pick_e.op == "and" else [pick_e]
        for l in lits:
            if l.op in ("lt", "le"):
                x, y = l.args
                rest = tm.and_(*[z for z in lits if z is not l])
                if x is e and y is h:
                    return "min", rest, e
                if x is h and y is e:
                    return "max", rest, e
        if e.op != "ite":
            return None
    # guard ? fold : h   (nested)
    if b is h and a.op == "ite":
        r = fold_of(a, h)
        return (r[0], tm.and_(c, r[1]), r[2]) if r else None
    if a is h and b.op == "ite":
        r = fold_of(b, h)
        return (r[0], tm.and_(tm.not_(c), r[1]), r[2]) if r else None
    return None
