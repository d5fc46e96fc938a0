"""Contexts, the obligation prover (normaliser + case split + z3) and the random refuter."""
from fractions import Fraction
import math
import random
import time
import z3
import terms as tm
from terms import num, ONE, ZERO, TRUE, FALSE, key
from norm import Norm, Abort, padd, pscale, is_const, cval, pconst

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm_time": 0.0}
SMT_LOG = None          # list collecting (smt2 text) of discharged z3 queries, for the second solver


class ZTrans:
    """Terms to z3: linear integer/real structure kept, everything else opaque (keyed by identity)."""

    def __init__(self):
        self.memo = {}
        self.apps = []

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r

    def pair(self, a, b):
        x, y = self.tr(a), self.tr(b)
        if z3.is_int(x) != z3.is_int(y):
            x = z3.ToReal(x) if z3.is_int(x) else x
            y = z3.ToReal(y) if z3.is_int(y) else y
        return x, y

    def _tr(self, t):
        op, a = t.op, t.args
        if op == "num":
            v = a[0]
            return z3.IntVal(int(v)) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "eq":
            x, y = self.pair(*a)
            return x == y
        if op == "le":
            x, y = self.pair(*a)
            return x <= y
        if op == "lt":
            x, y = self.pair(*a)
            return x < y
        if op == "not":
            return z3.Not(self.tr(a[0]))
        if op == "and":
            return z3.And(*[self.tr(x) for x in a])
        if op == "or":
            return z3.Or(*[self.tr(x) for x in a])
        if op == "add":
            es = [self.tr(x) for x in a]
            if not all(z3.is_int(e) for e in es):
                es = [z3.ToReal(e) if z3.is_int(e) else e for e in es]
            return z3.Sum(*es)
        if op == "mul":
            es = [self.tr(x) for x in a]
            if not all(z3.is_int(e) for e in es):
                es = [z3.ToReal(e) if z3.is_int(e) else e for e in es]
            r = es[0]
            for e in es[1:]:
                r = r * e
            return r
        if op == "ite" and not t.isbool:
            x, y = self.pair(a[1], a[2])
            return z3.If(self.tr(a[0]), x, y)
        if op == "app":
            self.apps.append(t)
            if t.isbool:
                if len(a) == 1:
                    return z3.Bool(a[0])
                f = z3.Function(a[0], *([z3.IntSort()] * (len(a) - 1)), z3.BoolSort())
                return f(*[self.toint(x) for x in a[1:]])
            sort = z3.IntSort() if t.isint else z3.RealSort()
            if len(a) == 1:
                return z3.Const(a[0], sort)
            f = z3.Function(a[0], *([z3.IntSort()] * (len(a) - 1)), sort)
            return f(*[self.toint(x) for x in a[1:]])
        if op == "var":
            return z3.Int(a[0]) if t.isint else z3.Real(a[0])
        if t.isbool:
            return z3.Bool("opaque!%d" % t.id)
        return z3.Int("opaque!%d" % t.id) if t.isint else z3.Real("opaque!%d" % t.id)

    def toint(self, t):
        e = self.tr(t)
        return e if z3.is_int(e) else z3.ToInt(e)


class Ctx:
    """Assumptions under which obligations are proved."""

    def __init__(self, facts=(), posvars=(), posfuncs=(), nonneg=(), symmetric=(), diag0=(), hooks=None,
                 labelfn=None):
        self.facts = list(facts)
        self.posvars = set(posvars)          # integer/real variables known >= 1 / > 0
        self.posfuncs = set(posfuncs)        # function symbols whose values are >= 1 (int) or > 0 (real)
        self.nonneg = set(nonneg)            # function symbols / variables whose values are >= 0
        self.symmetric = set(symmetric)
        self.diag0 = set(diag0)              # f(i, i) = 0
        self.hooks = hooks or []
        self.posdef = []                     # matrix families (a, b, c) -> entry, positive definite for every cluster c
        self.zero_fns = set()
        self._imp = {}
        self._diff = None
        self.inst = []                       # terms at which universal facts (negated existentials) are instantiated
        self.schemas = []                    # functions app-term -> list of bool facts

    def extend(self, *facts):
        flat = []
        for f in facts:
            if f.op == "or" and any(u.op == "ex" for u in tm.walk(f)):
                f = tm.or_(*[x for x in f.args if not self.implied(tm.not_(x))])
            flat.extend(f.args if f.op == "and" else (f,))
        facts = flat
        c = Ctx.__new__(Ctx)
        c.__dict__.update(self.__dict__)
        c.facts = self.facts + [f for f in facts if f is not TRUE]
        c._imp = {}
        c._diff = None
        c.zero_fns = set(self.zero_fns)
        for f in facts:
            if f.op == "not" and f.args[0].op == "ex":
                z = ex_zero(f.args[0])
                if z:
                    c.zero_fns.add(z)
        return c

    # -- used by Norm
    def pos_atom(self, a):
        if a.op == "var":
            return a in self.posvars or a is tm.PI
        if a.op == "num":
            return a.args[0] > 0
        if a.op == "app":
            return a.args[0] in self.posfuncs
        if a.op == "fn":
            if a.args[0] == "exp":
                return True
            if a.args[0] == "rpow":
                return self.pos_term(a.args[1])
            if a.args[0] == "sqrt":
                return self.pos_term(a.args[1])
        if a.op == "inv":
            return self.pos_term(a.args[0])
        return False

    def nonneg_term(self, t):
        return nonneg(t, self)

    def det_pos(self, t):
        """The matrix is one of the positive definite family or the sum of two of them (lemma sigma_posDef)."""
        if not self.posdef:
            return False
        dim, (a, b), body = t.args
        cand = sorted((v for v in body.fv if v.isint and v not in (a, b) and "!" in v.args[0]), key=key)
        for u in tm.walk(body):
            if u.op == "app" and len(u.args) > 1 and u.args[0] in ("n", "s", "Q", "sigma", "u", "v"):
                c = u.args[1]
                if c.isint and a not in c.fv and b not in c.fv and c not in cand:
                    cand.append(c)
        for u in self.facts:
            for w in tm.walk(u):
                if w.op == "app" and w.args[0] == "slot" and w not in cand:
                    cand.append(w)
        for c in (tm.var("k"), ZERO):
            if c not in cand:
                cand.append(c)
        cand = cand[:6]
        cx = self.extend(tm.rng(a, dim), tm.rng(b, dim))
        for sg in self.posdef:
            for i, x in enumerate(cand):
                for y in [None] + cand[i:]:
                    want = sg(a, b, x) if y is None else tm.add(sg(a, b, x), sg(a, b, y))
                    if Prover(cx, 4.0).eq(body, want):
                        return True
        return False

    def pos_term(self, t):
        if t.op in ("mul",):
            return all(self.pos_term(x) for x in t.args)
        if t.op == "add":
            return all(self.pos_term(x) or (x.op == "num" and x.args[0] >= 0) for x in t.args) and any(self.pos_term(x) for x in t.args)
        return self.pos_atom(t)

    def pos_poly(self, nm, p):
        if not p or not all(c > 0 for c in p.values()):
            return False
        return all(all(self.pos_atom(a) for a, e in m) for m in p)

    def nonzero_atom(self, nm, a):
        if self.pos_atom(a):
            return True
        return False

    def nonzero_poly(self, nm, t):
        p = nm.norm(t)
        if self.pos_poly(nm, p) or self.pos_poly(nm, pscale(p, -1)):
            return True
        # integer linear: ask z3
        if all(len(m) <= 1 and all(e == 1 and a.isint for a, e in m) for m in p) and len(p) <= 4:
            return self.implied(tm.not_(tm.eq(t, ZERO)))
        return False

    def app_hook(self, nm, u):
        if u.args[0] in self.zero_fns:
            return ZERO
        if u.args[0] in self.diag0 and len(u.args) == 3 and u.args[1] is u.args[2]:
            return ZERO
        for h in self.hooks:
            r = h.app(nm, u) if hasattr(h, "app") else None
            if r is not None:
                return r
        return None

    def cond_hook(self, nm, c):
        for h in self.hooks:
            if hasattr(h, "cond"):
                r = h.cond(nm, c)
                if r is not None:
                    return r
        return c

    def sum_hook(self, nm, g, part):
        for h in self.hooks:
            if hasattr(h, "sum"):
                r = h.sum(nm, g, part)
                if r is not None:
                    return r
        return None

    @property
    def diff_facts(self):
        if self._diff is None:
            out = []
            for v in self.posvars:
                if v.isint:
                    out.append((None, v, Fraction(-1)))
            nm = Norm(self)
            self._diff = out
            extra = []
            for f in self.facts:
                if f.op in ("le", "eq") and all(x.isint for x in f.args) and not any(u.op in ("sum", "ext", "ite") for u in tm.walk(f)):
                    c = nm._cond(f)
                    for lit in ([c] if c.op == "le" else ([tm.le(*f.args), tm.le(f.args[1], f.args[0])] if f.op == "eq" else [])):
                        lit = nm.cond(lit)
                        if lit.op == "le":
                            b = nm.bound_of(tm._mk("ite", (lit, ONE, ZERO), isint=True))
                            if b:
                                extra.append(b)
            self._diff = out + extra
        return self._diff

    def solver(self, extra, timeout=2000):
        z = ZTrans()
        s = z3.Solver()
        s.set("timeout", timeout)
        for f in list(self.facts) + list(extra):
            s.add(z.tr(f))
            if f.op == "ex":
                # a positive existential: its body holds at some (fresh) witness
                s.add(z.tr(tm.subst(f.args[1], {b: tm.fresh("w", isint=True) for b in f.args[0]})))
            elif f.op == "not" and f.args[0].op == "ex" and len(f.args[0].args[0]) == 1:
                for w in self.inst:
                    s.add(z.tr(tm.not_(tm.subst(f.args[0].args[1], {f.args[0].args[0][0]: w}))))
        for v in self.posvars:
            s.add(z.tr(v) >= 1 if v.isint else z.tr(v) > 0)
        done = set()
        while len(done) < len(z.apps):
            for t in list(z.apps):
                if t in done:
                    continue
                done.add(t)
                if t.args[0] in self.posfuncs:
                    s.add(z.tr(t) >= 1 if t.isint else z.tr(t) > 0)
                if t.args[0] in self.nonneg:
                    s.add(z.tr(t) >= 0)
                for sc in self.schemas:
                    for f in sc(t):
                        s.add(z.tr(f))
        return s

    def implied(self, c, timeout=2000):
        if c is TRUE:
            return True
        if c is FALSE:
            return self.inconsistent()
        r = self._imp.get(c)
        if r is None:
            t0 = time.time()
            s = self.solver([tm.not_(c)], timeout)
            r = s.check() == z3.unsat
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t0
            if r and SMT_LOG is not None:
                SMT_LOG.append(s.to_smt2())
            self._imp[c] = r
        return r

    def inconsistent(self, extra=(), timeout=2000):
        k = ("inc",) + tuple(extra)
        r = self._imp.get(k)
        if r is None:
            t0 = time.time()
            s = self.solver(list(extra), timeout)
            r = s.check() == z3.unsat
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t0
            if r and SMT_LOG is not None:
                SMT_LOG.append(s.to_smt2())
            self._imp[k] = r
        return r

    def nonempty(self, nm, bs, guard):
        import itertools
        cands = [ZERO, ONE]
        fv = [v for v in guard.fv if v.isint and v not in bs]
        for v in sorted(fv, key=key)[:3]:
            cands.append(tm.ite(tm.eq(v, ZERO), ONE, ZERO))
            cands.append(v)
        for combo in itertools.product(cands, repeat=len(bs)):
            g = tm.subst(guard, dict(zip(bs, combo)))
            if self.implied(g):
                return True
        return False


# ------------------------------------------------------------------ sign analysis on raw terms

def nonneg(t, ctx):
    op, a = t.op, t.args
    if op == "num":
        return a[0] >= 0
    if op == "var":
        return t in ctx.posvars or t is tm.PI or t is tm.INF or t in ctx.nonneg or (t.isint and ctx.implied(tm.le(ZERO, t)))
    if op == "app":
        return a[0] in ctx.posfuncs or a[0] in ctx.nonneg
    if op == "add":
        return all(nonneg(x, ctx) for x in a) or (t.isint and ctx.implied(tm.le(ZERO, t)))
    if op == "mul":
        cnt = {}
        for x in a:
            cnt[x] = cnt.get(x, 0) + 1
        neg = 0
        for x, e in cnt.items():
            if e % 2 == 0 or nonneg(x, ctx):
                continue
            if x.op == "num" or (x.op == "add" and nonneg(tm.add(*[tm.neg(y) for y in x.args]), ctx)):
                neg += 1
                continue
            return False
        return neg % 2 == 0
    if op == "inv":
        return nonneg(a[0], ctx)
    if op == "ite":
        return nonneg(a[1], ctx.extend(a[0])) and nonneg(a[2], ctx.extend(tm.not_(a[0])))
    if op == "sum":
        u = tm.refresh(t)
        return scatter(u, ctx) or nonneg(u.args[2], ctx.extend(u.args[1]))
    if op == "ext":
        u = tm.refresh(t)
        return ctx.nonempty(None, list(u.args[1]), u.args[2]) and nonneg(u.args[3], ctx.extend(u.args[2]))
    if op == "fn":
        if a[0] in ("sqrt", "exp", "abs"):
            return True
        if a[0] == "rpow":
            return nonneg(a[1], ctx)
    return False


def scatter(t, ctx):
    """t is the within-cluster scatter sum_f Q(c,f,f) - s(c,f)^2/n(c) of a cluster of the data (lemma CP_nonneg)."""
    if len(t.args[0]) != 1 or "Q" not in ctx.symmetric:
        return False
    f = t.args[0][0]
    if t.args[1] not in (tm.and_(tm.le(ZERO, f), tm.lt(f, tm.var("d"))), tm.and_(tm.lt(f, tm.var("d")), tm.le(ZERO, f))):
        return False
    for c in {q.args[1] for q in tm.walk(t.args[2]) if q.op == "app" and q.args[0] == "Q" and q.args[2] is f and q.args[3] is f}:
        sc, n = tm.app("s", c, f), tm.app("n", c, isint=True)
        if t.args[2] is tm.sub(tm.app("Q", c, f, f), tm.div(tm.mul(sc, sc), n)) and ctx.implied(tm.le(ZERO, c)) and ctx.implied(tm.lt(c, tm.var("k"))):
            return True
    return False


def known_signs(t, ctx):
    """t with the comparisons of real numbers whose outcome follows from signs alone decided."""
    memo = {}

    def has(t):
        return any(u.op in ("le", "lt") and not (u.args[0].isint and u.args[1].isint) for u in tm.walk(t))

    def go(t, ctx, key):
        r = memo.get((t, key))
        if r is not None:
            return r
        if not has(t):
            r = t
        elif t.op == "ite":
            c = cond(t.args[0], ctx)
            if c is TRUE:
                r = go(t.args[1], ctx, key)
            elif c is tm.FALSE:
                r = go(t.args[2], ctx, key)
            else:
                r = tm.ite(c, go(t.args[1], ctx, key), go(t.args[2], ctx, key))
        elif t.op in ("sum", "ext"):
            u = tm.refresh(t)
            g = u.args[1] if t.op == "sum" else u.args[2]
            cx = ctx.extend(g)
            if t.op == "sum":
                r = tm.sum_(u.args[0], g, go(u.args[2], cx, key + (g,)))
            else:
                r = tm.ext(u.args[0], list(u.args[1]), g, go(u.args[3], cx, key + (g,)))
        elif t.op in ("det", "minv", "ex"):
            r = t
        else:
            r = tm.map_sub(t, lambda x: go(x, ctx, key))
        memo[(t, key)] = r
        return r

    def cond(c, ctx):
        if c.op in ("and", "or"):
            return (tm.and_ if c.op == "and" else tm.or_)(*[cond(x, ctx) for x in c.args])
        if c.op == "not":
            return tm.not_(cond(c.args[0], ctx))
        if c.op in ("le", "lt") and not (c.args[0].isint and c.args[1].isint):
            a, b = c.args
            if c.op == "le":
                if nonneg(tm.sub(b, a), ctx):
                    return TRUE
                if positive(tm.sub(a, b), ctx):
                    return tm.FALSE
            else:
                if positive(tm.sub(b, a), ctx):
                    return TRUE
                if nonneg(tm.sub(a, b), ctx):
                    return tm.FALSE
        return c
    return go(t, ctx, ())


def positive(t, ctx):
    """t > 0 (sufficient)."""
    op, a = t.op, t.args
    if op == "num":
        return a[0] > 0
    if ctx.pos_atom(t):
        return True
    if op == "add":
        return any(positive(x, ctx) for x in a) and all(nonneg(x, ctx) or positive(x, ctx) for x in a) or \
            (t.isint and ctx.implied(tm.le(ONE, t)))
    if op == "mul":
        return all(positive(x, ctx) for x in a)
    if op == "inv":
        return positive(a[0], ctx)
    if op == "ite":
        return all(c.inconsistent() or positive(x, c) for x, c in ((a[1], ctx.extend(a[0])), (a[2], ctx.extend(tm.not_(a[0])))))
    if op == "ext":
        u = tm.refresh(t)
        return ctx.nonempty(None, list(u.args[1]), u.args[2]) and positive(u.args[3], ctx.extend(u.args[2]))
    if op == "fn" and a[0] in ("sqrt", "abs"):
        return positive(a[1], ctx)
    return False


# ------------------------------------------------------------------ proving

class Result:
    def __init__(self, status, how="", detail=""):
        self.status = status          # proved / refuted / unknown
        self.how = how
        self.detail = detail

    def __bool__(self):
        return self.status == "proved"


def bound_vars(t):
    out = set()
    for u in tm.walk(t):
        if u.op in ("sum", "ex"):
            out.update(u.args[0])
        elif u.op in ("ext", "det", "minv"):
            out.update(u.args[1])
    return out


def free_conditions(t):
    """Atomic conditions occurring in t without bound variables."""
    bv = bound_vars(t)
    out = []
    for u in tm.walk(t):
        if u.op in ("eq", "le", "lt", "app", "ex") and u.isbool and not (u.fv & bv):
            out.append(u)
    return sorted(set(out), key=lambda c: (c.op != "eq", len(key(c)), key(c)))


def apply_fact(t, c, val):
    """Rewrite t under the assumption that condition c has truth value val."""
    sub = {c: TRUE if val else FALSE}
    nc = tm.not_(c)
    if nc.op != "not":
        sub[nc] = FALSE if val else TRUE

    def f(u):
        return sub.get(u)
    t = tm.replace(t, f)
    if val and c.op == "eq":
        m = solve_eq(c)
        if m:
            t = tm.subst(t, m)
    return t


def pin_apps(t, c, ctx):
    """Integer applications that the condition pins to a constant are replaced by it."""
    if c.op not in ("le", "eq"):
        return t
    for u in tm.walk(c):
        if u.op == "app" and u.isint and not u.isbool and len(u.args) > 1:
            consts = sorted({w.args[0] + e for w in tm.walk(c) if w.op == "num" for e in (-1, 0, 1)} | {Fraction(0), Fraction(1)})
            for b in consts[:12]:
                if b.denominator == 1 and ctx.implied(tm.eq(u, num(b))):
                    t = tm.replace(t, lambda x: num(b) if x is u else None)
                    break
    return t


def solve_eq(c):
    a, b = c.args
    d = tm.sub(a, b)
    parts = d.args if d.op == "add" else (d,)
    lin = {}
    for p in parts:
        if p.op == "num":
            continue
        if p.op == "var":
            lin[p] = lin.get(p, 0) + 1
        elif p.op == "mul" and len(p.args) == 2 and p.args[0].op == "num" and p.args[1].op == "var":
            lin[p.args[1]] = lin.get(p.args[1], 0) + p.args[0].args[0]
    for v in sorted(lin, key=key, reverse=True):
        co = lin[v]
        if co not in (1, -1):
            continue
        rest = [p for p in parts if not (p is v or (p.op == "mul" and len(p.args) == 2 and p.args[1] is v))]
        r = tm.add(*rest) if rest else ZERO
        if v in r.fv:
            continue
        sol = tm.mul(num(Fraction(-1) / co), r)
        if v.isint and not sol.isint:
            continue
        return {v: sol}
    return None


class Prover:
    def __init__(self, ctx, budget=25.0):
        self.ctx = ctx
        self.deadline = time.time() + budget
        self.how = set()
        self.trace = []

    def timeout(self):
        if time.time() > self.deadline:
            STATS["limits"] = STATS.get("limits", 0) + 1
            return True
        return False

    def eq(self, a, b, ctx=None, depth=0):
        ctx = ctx or self.ctx
        if a is b:
            self.how.add("syntactic")
            return True
        if self.timeout() or depth > 40:
            return False
        if ctx.inconsistent():
            self.how.add("z3")
            return True
        diff = tm.sub(a, b)
        t0 = time.time()
        try:
            nm = Norm(ctx)
            p = nm.norm(diff)
        except Abort:
            self.trace.append("normaliser limit")
            STATS["limits"] = STATS.get("limits", 0) + 1
            return False
        finally:
            STATS["norm_time"] += time.time() - t0
        if not p:
            self.how.add("normaliser")
            return True
        d = nm.reify(p)
        # case split on a condition free of bound variables
        for c in free_conditions(d):
            ok = True
            pos, ng = ctx.implied(c), False
            if not pos:
                ng = ctx.implied(tm.not_(c))
            vals = [True] if pos else ([False] if ng else [True, False])
            for v in vals:
                cc = ctx.extend(c if v else tm.not_(c))
                if c.op == "ex":
                    if not v:
                        z = ex_zero(c)
                        if z:
                            cc.zero_fns.add(z)
                if c.op == "eq" and v:
                    cc = subst_ctx(cc, c)
                if not self.eq(pin_apps(apply_fact(d, c, v), c, cc), ZERO, cc, depth + 1):
                    ok = False
                    self.trace.append("case %s=%s" % (tm.show(c)[:120], v))
                    break
            self.how.add("z3")
            return ok
        # index terms that the assumptions identify
        m = implied_equal(d, ctx)
        if m:
            self.how.add("z3")
            return self.eq(tm.replace(d, lambda x: m.get(x)), ZERO, ctx, depth + 1)
        # ranges that differ by a constant number of elements at the upper end
        q = self.peel(nm, p)
        if q is not None:
            return self.eq(q, ZERO, ctx, depth + 1)
        # sums over the same range, compared element by element
        r = self.pointwise(nm, p, ctx, depth)
        if r:
            return True
        # equalities of opaque atoms
        atoms = set()
        for m in p:
            for x, _ in m:
                for u in tm.walk(x):
                    if u.op in ("ext", "fn", "det", "minv") and not (u.fv & bound_vars(d)):
                        atoms.add(u)
        atoms = sorted(atoms, key=lambda u: (len(key(u)), key(u)))
        for i in range(len(atoms)):
            for j in range(i + 1, len(atoms)):
                u, v = atoms[i], atoms[j]
                if u.op != v.op or (u.op in ("ext", "fn") and u.args[0] != v.args[0]):
                    continue
                if self.same(u, v, ctx, depth):
                    self.how.add("congruence")
                    return self.eq(tm.replace(d, lambda x: u if x is v else None), ZERO, ctx, depth + 1)
        # clear denominators
        q = self.clear(nm, p, ctx)
        if q is not None:
            if not q:
                self.how.add("normaliser")
                return True
            d2 = nm.reify(q)
        else:
            d2 = d
        # nonlinear real arithmetic
        if len(p) <= 30:
            t0 = time.time()
            s = ctx.solver([tm.not_(tm.eq(d2, ZERO))], 3000)
            r = s.check()
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t0
            if r == z3.unsat:
                self.how.add("z3")
                if SMT_LOG is not None:
                    SMT_LOG.append(s.to_smt2())
                return True
        self.trace.append("residual %s" % tm.show(d2)[:600])
        return False

    def peel(self, nm, p):
        """SUM_{b <= w+c} f = SUM_{b <= w+c-1} f + f(w+c) where another sum over b has the smaller bound; None if there is none."""
        info, lows = {}, {}
        for m in p:
            for a, e in m:
                if a.op != "sum" or e != 1 or a in info:
                    continue
                body = nm.norm(a.args[2])
                if len(body) != 1:
                    continue
                (bm, _), = body.items()
                for b in a.args[0]:
                    up, lo = [], []
                    for x, _ in bm:
                        bo = nm.bound_of(x)
                        if bo and b in x.fv and len(x.fv & frozenset(a.args[0])) == 1:
                            (up if bo[0] is b else lo).append(bo)
                    if len(up) == 1 and lo:
                        sig = (up[0][1], frozenset((q[0], q[2]) for q in lo))
                        info[a] = (b, sig, up[0][2])
                        lows.setdefault(sig, set()).add(up[0][2])
                        break
        sub = {}
        for a, (b, sig, c) in info.items():
            least = min(lows[sig])
            if least < c <= least + 3 and c.denominator == 1:
                top = tm.add(sig[0], num(c)) if sig[0] is not None else num(c)
                u = tm.refresh(a)
                v = dict(zip(a.args[0], u.args[0]))[b]
                rest = [x for x in u.args[0] if x is not v]
                sub[a] = tm.add(tm.sum_(a.args[0], tm.le(b, tm.sub(top, ONE)), a.args[2]), tm.sum_(rest, TRUE, tm.subst(u.args[2], {v: top})))
        if not sub:
            self.split_diagonal(nm, p, sub)
        if not sub:
            return None
        self.how.add("sum splitting")
        return tm.add(*[tm.mul(num(c), *[tm.power(sub.get(a, a), e) for a, e in m]) for m, c in p.items()])

    @staticmethod
    def split_diagonal(nm, p, sub):
        """SUM_{u - v <= c} f = SUM_{u - v <= c-1} f + SUM_{u = v + c} f, both bound, where the sum with c-1 occurs too."""
        sums = {a for m in p for a, e in m if a.op == "sum" and e == 1}
        if len(sums) < 2:
            return
        for a in sums:
            body = nm.norm(a.args[2])
            if len(body) != 1:
                continue
            (bm, co), = body.items()
            bset = frozenset(a.args[0])
            for x, e in bm:
                bo = nm.bound_of(x)
                if not bo or bo[0] not in bset or bo[1] not in bset:
                    continue
                u, v, c = bo
                rest = nm.reify({tuple((y, f) for y, f in bm if y is not x): co})
                less = tm.sum_(a.args[0], tm.le(tm.sub(u, v), num(c - 1)), rest)
                q = nm.norm(less)
                if len(q) == 1 and all(len(m) == 1 and m[0][0] in sums for m in q):
                    sub[a] = tm.add(less, tm.sum_([b for b in a.args[0] if b is not u], TRUE, tm.subst(rest, {u: tm.add(v, num(c))})))
                    return

    def pointwise(self, nm, p, ctx, depth):
        """SUM_b [lo<=b<hi] f(b) = 0 because f(b) = 0 for every b in the range."""
        groups = {}
        rest = {}
        for m, c in p.items():
            sums = [(a, e) for a, e in m if a.op == "sum"]
            if len(sums) != 1 or sums[0][1] != 1:
                rest[m] = c
                continue
            a = sums[0][0]
            found = None
            body = nm.norm(a.args[2])
            if len(body) == 1:
                (bm, _), = body.items()
                for b in a.args[0]:
                    bnd = []
                    for x, e in bm:
                        bo = nm.bound_of(x)
                        if bo and b in x.fv and len(x.fv & frozenset(a.args[0])) == 1:
                            bnd.append(x)
                    if len(bnd) >= 2:
                        q = tm.var("%range")
                        k = tuple(sorted(key(nm.canon(tm.subst(x, {b: q}))) for x in bnd))
                        found = (k, b, bnd)
                        break
            if found is None:
                rest[m] = c
                continue
            groups.setdefault(found[0], []).append((m, c, a, found[1], found[2]))
        if rest or not groups:
            return False
        for k, ms in groups.items():
            f = tm.fresh("p")
            terms, facts = [], []
            for m, c, a, b, bnd in ms:
                u = tm.refresh(a)
                ren = dict(zip(a.args[0], u.args[0]))
                others = [x for x in u.args[0] if x is not ren[b]]
                inner = tm.subst(u.args[2], {ren[b]: f})
                facts = [tm.subst(x, {b: f}).args[0] for x in bnd]
                co = nm.reify({tuple((x, e) for x, e in m if x is not a): c})
                terms.append(tm.mul(co, tm.sum_(others, TRUE, inner) if others else inner))
            cc = ctx.extend(*facts)
            if not self.eq(tm.add(*terms), ZERO, cc, depth + 1):
                return False
        self.how.add("sum extensionality")
        return True

    def cond(self, c, ctx=None, depth=0):
        """ctx |= c."""
        ctx = ctx or self.ctx
        if c is TRUE or ctx.inconsistent():
            self.how.add("z3")
            return True
        if self.timeout() or depth > 12:
            return False
        if ctx.implied(c):
            self.how.add("z3")
            return True
        if c.op == "and":
            return all(self.cond(x, ctx, depth) for x in c.args)
        if c.op == "lt" and c.args[0] is ZERO and c.args[1].op == "det":
            if ctx.det_pos(c.args[1]):
                self.how.add("Lean lemma sigma_sum_det_pos")
                return True
            self.trace.append("positive determinant: " + tm.show(c)[:300])
            return False
        try:
            n = Norm(ctx).cond(c)
        except Abort:
            return False
        if n is TRUE or ctx.implied(n):
            self.how.add("z3")
            return True
        t = u = None
        if n.op == "not" and n.args[0].op == "eq":
            u = tm.sub(*n.args[0].args)
        elif n.op in ("le", "lt"):
            t = tm.sub(n.args[1], n.args[0])
        nm = Norm(ctx)

        def can(x):
            return nm.canon(x)
        if u is not None and (positive(can(u), ctx) or positive(can(tm.neg(u)), ctx)):
            self.how.add("sign analysis")
            return True
        if t is not None and (positive(can(t), ctx) or (n.op == "le" and nonneg(can(t), ctx))):
            self.how.add("sign analysis")
            return True
        for q in free_conditions(n):
            if q is n or (n.op == "not" and q is n.args[0]):
                continue
            ok = True
            for v in (True, False):
                lit = q if v else tm.not_(q)
                cc = ctx.extend(lit)
                if cc.inconsistent():
                    continue
                if not self.cond(apply_only(n, q, v), cc, depth + 1):
                    ok = False
                    break
            return ok
        if n.op == "or":
            return any(self.cond(x, ctx.extend(*[tm.not_(y) for y in n.args if y is not x]), depth + 1) for x in n.args)
        self.trace.append("residual condition %s" % tm.show(n)[:400])
        return False

    def clear(self, nm, p, ctx):
        out = p
        for _ in range(6):
            target = None
            for m in out:
                for a, e in m:
                    if a.op == "inv" and ctx.nonzero_poly(nm, a.args[0]):
                        target = a
            if target is None:
                return out if out is not p else None
            E = max((e for m in out for a, e in m if a is target))
            base = nm.norm(target.args[0])
            res = {}
            try:
                for m, c in out.items():
                    e = dict(m).get(target, 0)
                    rest = {tuple((a, x) for a, x in m if a is not target): c}
                    f = pconst(1)
                    for _ in range(E - e):
                        f = nm.pmul(f, base)
                    res = padd(res, nm.pmul(rest, f))
            except Abort:
                return None
            out = res
            if not out:
                return out
        return out

    def same(self, u, v, ctx, depth):
        """Are two opaque atoms equal because their arguments are?"""
        if self.timeout():
            return False
        sub = Prover(ctx, max(0.5, min(6.0, self.deadline - time.time())))
        if u.op == "fn":
            return len(u.args) == len(v.args) and all(sub.eq(x, y, ctx, depth + 1) for x, y in zip(u.args[1:], v.args[1:]))
        if u.op in ("det", "minv"):
            m = dict(zip(v.args[1], u.args[1]))
            f = [tm.fresh("m") for _ in u.args[1]]
            c2 = ctx.extend(*[tm.rng(x, u.args[0]) for x in f])
            b1 = tm.subst(u.args[2], dict(zip(u.args[1], f)))
            b2 = tm.subst(v.args[2], dict(zip(v.args[1], f)))
            if not ctx.implied(tm.eq(u.args[0], v.args[0])):
                return False
            if not all(ctx.implied(tm.eq(x, y)) for x, y in zip(u.args[3:], v.args[3:])):
                return False
            return sub.eq(b1, b2, c2, depth + 1)
        if u.op == "ext":
            return self.dominates(u, v, ctx, depth) and self.dominates(v, u, ctx, depth)
        return False

    def dominates(self, A, B, ctx, depth):
        """Every element of B is matched in A by one at least as extreme."""
        kind, bs, g, body = tm.refresh(B).args
        c2 = ctx.extend(g)
        return self.match(A, kind, list(bs), body, c2, depth)

    def match(self, A, kind, bs, body, ctx, depth):
        if self.timeout() or depth > 30:
            return False
        if ctx.inconsistent():
            return True
        _, ab, ag, abody = tm.refresh(A).args
        import itertools
        cands = list(bs) + [ZERO, ONE]
        for v in [x for x in A.fv if x.isint][:3]:
            cands.append(tm.ite(tm.eq(v, ZERO), ONE, ZERO))
        tried = 0
        for combo in itertools.product(cands, repeat=len(ab)):
            tried += 1
            if tried > 40:
                break
            m = dict(zip(ab, combo))
            if not ctx.implied(tm.subst(ag, m)):
                continue
            x = tm.subst(abody, m)
            ge = tm.sub(x, body) if kind == "max" else tm.sub(body, x)
            if nonneg(ge, ctx) or self.geq(ge, ctx):
                return True
        # split on a condition of the body
        for c in free_conditions(body):
            if ctx.implied(c) or ctx.implied(tm.not_(c)):
                v = ctx.implied(c)
                nb = apply_only(body, c, v)
                if nb is not body:
                    return self.match(A, kind, bs, nb, ctx, depth + 1)
                continue
            return all(self.match(A, kind, bs, apply_only(body, c, v), ctx.extend(c if v else tm.not_(c)), depth + 1) for v in (True, False))
        # ordering of the binders and free integers
        ints = [v for v in list(bs) + [x for x in A.fv | body.fv if x.isint and x not in ctx.posvars] ]
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                c = tm.eq(ints[i], ints[j])
                if c is TRUE or ctx.implied(c):
                    continue
                if ctx.implied(tm.not_(c)):
                    c = tm.lt(ints[i], ints[j])
                    if ctx.implied(c) or ctx.implied(tm.not_(c)):
                        continue
                return all(self.match(A, kind, bs, body, ctx.extend(c if v else tm.not_(c)), depth + 1) for v in (True, False))
        return False

    def geq(self, t, ctx):
        """t >= 0 by normal form / z3."""
        try:
            nm = Norm(ctx)
            p = nm.norm(t)
        except Abort:
            return False
        if not p:
            return True
        d = nm.reify(p)
        if nonneg(d, ctx):
            return True
        for c in free_conditions(d):
            if ctx.implied(c):
                return self.geq(apply_fact(d, c, True), subst_ctx(ctx, c) if c.op == "eq" else ctx)
            if ctx.implied(tm.not_(c)):
                return self.geq(apply_fact(d, c, False), ctx)
        return ctx.implied(tm.le(ZERO, d))


def implied_equal(t, ctx):
    """{v: w} for a pair of distinct free integer variables of t that the assumptions identify."""
    bv = bound_vars(t)
    vs = [v for v in t.fv if v.isint and v not in bv and v not in ctx.posvars]
    vs = sorted(vs, key=key)
    aps = sorted({u for u in tm.walk(t) if u.op == "app" and u.isint and not u.isbool and u.args[0] in ("slot", "z") and not (u.fv & bv)}, key=key)
    if len(vs) > 5 or not vs:
        return None
    for i, v in enumerate(vs):
        for w in vs[:i] + [x for x in aps if v not in x.fv] + [ZERO]:
            if ctx.implied(tm.eq(v, w)):
                return {v: w}
    return None


def apply_only(t, c, val):
    sub = {c: TRUE if val else FALSE}
    nc = tm.not_(c)
    if nc.op != "not":
        sub[nc] = FALSE if val else TRUE
    return tm.replace(t, lambda u: sub.get(u))


def subst_ctx(ctx, c):
    """Use a true equation to eliminate a variable from the other facts (keeps c itself)."""
    m = solve_eq(c)
    if not m:
        return ctx
    cc = ctx.extend()
    cc.facts = ctx.facts + [tm.subst(f, m) for f in ctx.facts if f.fv & frozenset(m)]
    return cc


def ex_zero(c):
    """not exists i,j: range & f(i,j) != 0  ->  f vanishes on its range."""
    b = c.args[1]
    lits = b.args if b.op == "and" else (b,)
    for l in lits:
        if l.op == "not" and l.args[0].op == "eq":
            x, y = l.args[0].args
            for u, w in ((x, y), (y, x)):
                if w is ZERO and u.op == "app" and set(u.args[1:]) == set(c.args[0]):
                    return u.args[0]
    return None


# ------------------------------------------------------------------ evaluation in concrete structures

class Struct:
    """A finite interpretation: integer/real variables, function tables, enumeration bound for binders."""

    def __init__(self, vals, funcs, bound):
        self.vals = vals
        self.funcs = funcs
        self.bound = bound
        self.memo = {}

    def ev(self, t, env=None):
        env = env or {}
        op, a = t.op, t.args
        if op == "num":
            v = a[0]
            return int(v) if v.denominator == 1 else float(v)
        if op == "var":
            if t in env:
                return env[t]
            if t in self.vals:
                return self.vals[t]
            if t is tm.PI:
                return math.pi
            if t is tm.INF:
                return math.inf
            raise KeyError("no value for %s" % a[0])
        ck = (t, tuple((v, env[v]) for v in sorted(t.fv & env.keys(), key=lambda x: x.id))) if op in ("sum", "ext", "det", "minv", "ex", "ite") else None
        if ck is not None and ck in self.memo:
            return self.memo[ck]
        r = self._ev(t, env)
        if ck is not None:
            if len(self.memo) > 200000:
                self.memo.clear()
            self.memo[ck] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.args
        ev = self.ev
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "app":
            return self.funcs[a[0]](*[ev(x, env) for x in a[1:]])
        if op == "add":
            return sum(ev(x, env) for x in a)
        if op == "mul":
            r = 1
            for x in a:
                v = ev(x, env)
                if v == 0:
                    return 0
                r = r * v
            return r
        if op == "inv":
            v = ev(a[0], env)
            return 0.0 if v == 0 else 1.0 / v
        if op == "ite":
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if op == "eq":
            x, y = ev(a[0], env), ev(a[1], env)
            return x == y if t.args[0].isint and t.args[1].isint or abs(x) == math.inf or abs(y) == math.inf else abs(x - y) <= 1e-12 * (abs(x) + abs(y))
        if op == "le":
            return ev(a[0], env) <= ev(a[1], env)
        if op == "lt":
            return ev(a[0], env) < ev(a[1], env)
        if op == "not":
            return not ev(a[0], env)
        if op == "and":
            return all(ev(x, env) for x in a)
        if op == "or":
            return any(ev(x, env) for x in a)
        if op == "sum":
            tot = 0
            for e in self.enum(a[0], a[1], env):
                tot += ev(a[2], e)
            return tot
        if op == "ext":
            vs = [ev(a[3], e) for e in self.enum(a[1], a[2], env)]
            if not vs:
                return math.nan
            return min(vs) if a[0] == "min" else max(vs)
        if op == "ex":
            return any(True for _ in self.enum(a[0], a[1], env))
        if op == "fn":
            xs = [ev(x, env) for x in a[1:]]
            n = a[0]
            if n == "sqrt":
                return math.sqrt(xs[0]) if xs[0] >= 0 else (0.0 if xs[0] > -1e-9 else math.nan)
            if n == "exp":
                return math.exp(min(xs[0], 700))
            if n == "abs":
                return abs(xs[0])
            if n == "rpow":
                return float(xs[0]) ** xs[1]
            if n == "log":
                return math.log(xs[0]) if xs[0] > 0 else math.nan
            if n == "trunc":
                return math.trunc(xs[0])
            if n == "floordiv":
                return xs[0] // xs[1] if xs[1] else 0
            if n == "mod":
                return xs[0] % xs[1] if xs[1] else 0
            raise KeyError(n)
        if op in ("det", "minv"):
            import numpy as np
            n = ev(a[0], env)
            M = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    e = dict(env)
                    e[a[1][0]], e[a[1][1]] = i, j
                    M[i, j] = ev(a[2], e)
            if op == "det":
                return float(np.linalg.det(M))
            try:
                return float(np.linalg.inv(M)[ev(a[3], env), ev(a[4], env)])
            except Exception:
                return math.nan
        raise TypeError(op)

    def enum(self, bs, guard, env):
        lits = guard.args if guard.op == "and" else (guard,)

        def rec(i, e, pend):
            if i == len(bs):
                if all(self.ev(l, e) for l in pend):
                    yield e
                return
            known = frozenset(bs[:i + 1])
            rest_b = frozenset(bs[i + 1:])
            now = [l for l in pend if not (l.fv & rest_b)]
            later = [l for l in pend if l.fv & rest_b]
            for v in range(0, self.bound + 1):
                e2 = dict(e)
                e2[bs[i]] = v
                if all(self.ev(l, e2) for l in now):
                    yield from rec(i + 1, e2, later)
        yield from rec(0, dict(env), list(lits))
