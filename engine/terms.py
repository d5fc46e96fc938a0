"""Hash-consed first-order terms over mathematical integers and reals, with finite sums and extrema.

All functions are total: inv(0) = 0, sqrt of a negative number is an unspecified number, and an extremum over an
empty set is an unspecified number.  Whether an operation of the *code* is defined is a separate obligation.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "isint", "isbool", "id", "fv", "_key", "hasinf")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return key(self) < key(o)


def _mk(op, args, isint=False, isbool=False):
    k = (op, args, isint)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.isint, t.isbool = op, args, isint, isbool
    t.id = next(_ids)
    t._key = None
    fv = frozenset()
    if op == "var":
        fv = frozenset([t])
    else:
        for a in _subterms(op, args):
            fv = fv | a.fv
        if op in ("sum", "ext", "ex"):
            fv = fv - frozenset(args[1] if op == "ext" else args[0])
        elif op in ("det", "minv"):
            # binders scope over the body only
            inner = args[2].fv - frozenset(args[1])
            fv = inner | args[0].fv
            for a in args[3:]:
                fv = fv | a.fv
    t.fv = fv
    _table[k] = t
    return t


def _subterms(op, args):
    if op in ("num", "var"):
        return ()
    if op in ("app", "fn"):
        return args[1:]
    if op in ("sum", "ex"):
        return args[1:]
    if op == "ext":
        return args[2:]
    if op in ("det", "minv"):
        return (args[0],) + args[2:]
    return args


def num(x, isint=None):
    x = Fraction(x)
    return _mk("num", (x,), isint=(x.denominator == 1))


ZERO, ONE, TWO = num(0), num(1), num(2)
TRUE = _mk("true", (), isbool=True)
FALSE = _mk("false", (), isbool=True)
INF = _mk("var", ("+inf", ()), isint=False)
NINF = None
PI = _mk("var", ("pi", ()), isint=False)


def var(name, isint=True):
    return _mk("var", (name, ()), isint=isint)


_fresh = itertools.count()


def fresh(prefix="i", isint=True):
    return var("%s!%d" % (prefix, next(_fresh)), isint)


def app(f, *args, isint=False):
    return _mk("app", (f,) + tuple(args), isint=isint)


def add(*ts):
    out, c = [], Fraction(0)
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for a in t.args:
                if a.op == "num":
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return _mk("add", tuple(out), isint=all(a.isint for a in out))


def mul(*ts):
    out, c = [], Fraction(1)
    for t in ts:
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for a in t.args:
                if a.op == "num":
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return _mk("mul", tuple(out), isint=all(a.isint for a in out))


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return ZERO if a is b else add(a, neg(b))


def inv(t):
    if t.op == "num":
        return num(0) if t.args[0] == 0 else num(1 / t.args[0])
    return _mk("inv", (t,))


def div(a, b):
    return mul(a, inv(b))


def power(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(t, -n))
    return mul(*([t] * n))


def fn(name, *args):
    if name == "abs" and args[0].op == "num":
        return num(abs(args[0].args[0]))
    if name == "sqrt" and args[0].op == "num" and args[0].args[0] >= 0:
        v = args[0].args[0]
        import math
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return num(Fraction(a, b))
    if name == "exp" and args[0] is ZERO:
        return ONE
    return _mk("fn", (name,) + tuple(args), isint=(name in ("abs", "trunc", "floordiv", "mod") and all(a.isint for a in args)) or name == "trunc")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return or_(and_(c, a), and_(not_(c), b))
    return _mk("ite", (c, a, b), isint=a.isint and b.isint)


def _lin_const(t):
    return t.args[0] if t.op == "num" else None


def eq(a, b):
    if a is b:
        return TRUE
    if a.isbool or b.isbool:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    x, y = _lin_const(a), _lin_const(b)
    if x is not None and y is not None:
        return TRUE if x == y else FALSE
    d = _simple_diff(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    if key(b) < key(a):
        a, b = b, a
    return _mk("eq", (a, b), isbool=True)


def _offset(t):
    if t.op == "num":
        return None, t.args[0]
    if t.op == "add" and t.args[-1].op == "num":
        rest = t.args[:-1]
        return (rest[0] if len(rest) == 1 else _mk("add", rest, isint=all(a.isint for a in rest))), t.args[-1].args[0]
    return t, Fraction(0)


def _simple_diff(a, b):
    """a - b when it is syntactically a constant."""
    x, c = _offset(a)
    y, d = _offset(b)
    return c - d if x is y else None


def finite(t):
    """No infinity inside: only inputs and ghosts, not values a loop may have set to infinity."""
    return not any(u is INF or u.op == "ext" or u.op in ("var", "app") and not u.isint and "!" in str(u.args[0]) for u in walk(t))


def le(a, b):
    if b is INF or a is NINF:
        return TRUE
    if a is INF and finite(b) or b is NINF and finite(a):
        return FALSE
    d = _simple_diff(a, b)
    if d is not None:
        return TRUE if d <= 0 else FALSE
    return _mk("le", (a, b), isbool=True)


def lt(a, b):
    if a is INF or b is NINF:
        return FALSE
    if b is INF and finite(a) or a is NINF and finite(b):
        return TRUE
    d = _simple_diff(a, b)
    if d is not None:
        return TRUE if d < 0 else FALSE
    if a.isint and b.isint:
        return le(add(a, ONE), b)
    return _mk("lt", (a, b), isbool=True)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "le":
        return lt(c.args[1], c.args[0])
    if c.op == "lt":
        return le(c.args[1], c.args[0])
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    return _mk("not", (c,), isbool=True)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for a in (c.args if c.op == "and" else (c,)):
            if a not in out:
                out.append(a)
    for a in out:
        if a.op in ("eq", "not", "app", "ex") and not_(a) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), isbool=True)


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for a in (c.args if c.op == "or" else (c,)):
            if a not in out:
                out.append(a)
    for a in out:
        if a.op in ("eq", "not", "app", "ex") and not_(a) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), isbool=True)


def implies(a, b):
    return or_(not_(a), b)


def bapp(f, *args):
    return _mk("app", (f,) + tuple(args), isint=False, isbool=True)


def bvar(name):
    return _mk("app", (name,), isint=False, isbool=True)


def rng(v, hi, lo=ZERO):
    """lo <= v < hi"""
    return and_(le(lo, v), lt(v, hi))


def sum_(binders, guard, body):
    binders = tuple(binders)
    if not binders:
        return ite(guard, body, ZERO)
    if guard is FALSE or body is ZERO:
        return ZERO
    return _mk("sum", (binders, guard, body), isint=body.isint)


def ext(kind, binders, guard, body):
    binders = tuple(binders)
    return _mk("ext", (kind, binders, guard, body), isint=body.isint)


def exists(binders, body):
    binders = tuple(b for b in binders)
    if body is FALSE or body is TRUE and not binders:
        return body
    if not binders:
        return body
    return _mk("ex", (binders, body), isbool=True)


def det(n, f):
    i, j = fresh("r"), fresh("c")
    return _mk("det", (n, (i, j), f(i, j)))


def minv(n, f, a, b):
    i, j = fresh("r"), fresh("c")
    return _mk("minv", (n, (i, j), f(i, j), a, b))


def min2(a, b):
    if a is INF or b is INF:
        return b if a is INF else a
    return ite(le(a, b), a, b)


def max2(a, b):
    for p, q in ((a, b), (b, a)):
        if p is NINF:
            return q
    return ite(le(b, a), a, b)


NINF = neg(INF)


# --------------------------------------------------------------------- traversal

def subst(t, m):
    """Capture-avoiding (binders are globally fresh) substitution of variables."""
    if not m:
        return t
    ks = frozenset(m)
    memo = {}

    def go(t):
        if not (t.fv & ks):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild(t, go)
        return r
    # binder clash: refresh binders that collide with the range of the substitution
    rng_fv = frozenset().union(*[v.fv for v in m.values()]) if m else frozenset()

    def rebuild(t, go):
        if t.op == "var":
            return m.get(t, t)
        if t.op in ("sum", "ext", "ex", "det", "minv"):
            bs = t.args[1] if t.op in ("ext", "det", "minv") else t.args[0]
            if any(b in rng_fv or b in ks for b in bs):
                t = refresh(t)
        return map_sub(t, go)
    return go(t)


def map_sub(t, go):
    op, a = t.op, t.args
    if op in ("num", "var", "true", "false"):
        return t
    if op == "app":
        return _mk("app", (a[0],) + tuple(go(x) for x in a[1:]), isint=t.isint, isbool=t.isbool)
    if op == "fn":
        return fn(a[0], *[go(x) for x in a[1:]])
    if op == "add":
        return add(*[go(x) for x in a])
    if op == "mul":
        return mul(*[go(x) for x in a])
    if op == "inv":
        return inv(go(a[0]))
    if op == "ite":
        c = go(a[0])
        if c is TRUE:
            return go(a[1])
        if c is FALSE:
            return go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if op == "sum":
        return sum_(a[0], go(a[1]), go(a[2]))
    if op == "ext":
        return ext(a[0], a[1], go(a[2]), go(a[3]))
    if op == "ex":
        return exists(a[0], go(a[1]))
    if op == "det":
        return _mk("det", (go(a[0]), a[1], go(a[2])))
    if op == "minv":
        return _mk("minv", (go(a[0]), a[1], go(a[2]), go(a[3]), go(a[4])))
    if op == "eq":
        return eq(go(a[0]), go(a[1]))
    if op == "le":
        return le(go(a[0]), go(a[1]))
    if op == "lt":
        return lt(go(a[0]), go(a[1]))
    if op == "not":
        return not_(go(a[0]))
    if op == "and":
        return and_(*[go(x) for x in a])
    if op == "or":
        return or_(*[go(x) for x in a])
    raise TypeError(op)


def refresh(t):
    """Rename the outermost binders of t to fresh names."""
    if t.op in ("sum", "ex"):
        bs = t.args[0]
        nb = tuple(fresh("b", b.isint) for b in bs)
        m = dict(zip(bs, nb))
        if t.op == "sum":
            return _mk("sum", (nb, subst(t.args[1], m), subst(t.args[2], m)), isint=t.isint)
        return _mk("ex", (nb, subst(t.args[1], m)), isbool=True)
    if t.op == "ext":
        bs = t.args[1]
        nb = tuple(fresh("b", b.isint) for b in bs)
        m = dict(zip(bs, nb))
        return _mk("ext", (t.args[0], nb, subst(t.args[2], m), subst(t.args[3], m)), isint=t.isint)
    if t.op in ("det", "minv"):
        bs = t.args[1]
        nb = tuple(fresh("b", b.isint) for b in bs)
        m = dict(zip(bs, nb))
        return _mk(t.op, (t.args[0], nb, subst(t.args[2], m)) + t.args[3:])
    return t


def replace(t, f):
    """Bottom-up rewriting: f(node) returns a replacement or None.  Binders are kept."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            v = f(t)
            if v is None:
                u = map_sub(t, go)
                v = f(u) if u is not t else None
                v = u if v is None else v
            r = memo[t] = v
        return r
    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(_subterms(u.op, u.args))


def contains_fn(t, names):
    return any(u.op == "app" and u.args[0] in names for u in walk(t))


# --------------------------------------------------------------------- deterministic structural key

def key(t):
    if t._key is None:
        op, a = t.op, t.args
        if op == "num":
            s = "#%s" % a[0]
        elif op == "var":
            s = a[0]
        elif op in ("true", "false"):
            s = op
        elif op in ("app", "fn"):
            s = "%s(%s)" % (a[0], ",".join(key(x) for x in a[1:]))
        elif op in ("sum", "ex"):
            s = "%s[%s](%s)" % (op, ",".join(key(x) for x in a[0]), ";".join(key(x) for x in a[1:]))
        elif op == "ext":
            s = "%s[%s](%s)" % (a[0], ",".join(key(x) for x in a[1]), ";".join(key(x) for x in a[2:]))
        elif op in ("det", "minv"):
            s = "%s[%s](%s;%s)" % (op, ",".join(key(x) for x in a[1]), key(a[0]), ";".join(key(x) for x in a[2:]))
        else:
            s = "%s(%s)" % (op, ",".join(key(x) for x in a))
        if len(s) > 4000:
            import hashlib
            s = op + ":" + hashlib.sha1(s.encode()).hexdigest()
        t._key = s
    return t._key


def show(t):
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "var":
        return a[0]
    if op in ("true", "false"):
        return op
    if op in ("app", "fn"):
        return "%s(%s)" % (a[0], ",".join(map(show, a[1:])))
    if op == "add":
        return "(" + " + ".join(map(show, a)) + ")"
    if op == "mul":
        return "*".join(map(show, a))
    if op == "inv":
        return "1/(%s)" % show(a[0])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(map(show, a))
    if op == "sum":
        return "SUM{%s | %s} %s" % (",".join(map(show, a[0])), show(a[1]), show(a[2]))
    if op == "ext":
        return "%s{%s | %s} %s" % (a[0].upper(), ",".join(map(show, a[1])), show(a[2]), show(a[3]))
    if op == "ex":
        return "EX{%s} %s" % (",".join(map(show, a[0])), show(a[1]))
    if op in ("eq", "le", "lt"):
        return "(%s %s %s)" % (show(a[0]), {"eq": "=", "le": "<=", "lt": "<"}[op], show(a[1]))
    if op == "not":
        return "!" + show(a[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(map(show, a)) + ")"
    return "%s<%s>" % (op, ",".join(show(x) if isinstance(x, T) else str(x) for x in a))
