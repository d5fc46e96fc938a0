"""Sum-algebra normaliser: terms -> polynomials over canonical atoms.

Rules used (all valid over the reals with inv(0) = 0):
  distributivity; SUM linearity, Fubini, constant pull-out, SUM_j [j = t] f(j) = f(t), independent sums factor,
  [c]^2 = [c]; a*inv(a) = 1 for provably non-zero a; a*inv(a+r) = 1 - r*inv(a+r) and the partial fraction
  inv(p)*inv(p+c) = (inv(p) - inv(p+c))/c for provably non-zero p, p+c; exp(a)exp(b) = exp(a+b);
  sqrt(a)^2 = a, sqrt(a*b) = sqrt(a)*sqrt(b) for provably positive a.
"""
from fractions import Fraction
from itertools import permutations, product
import math
import terms as tm
from terms import T, num, ONE, ZERO, TRUE, FALSE, key, ite, add, mul


class Abort(Exception):
    """Normalisation exceeded its size limit."""


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), Fraction(0))


class Norm:
    def __init__(self, ctx):
        self.ctx = ctx                 # Ctx from prove.py: positivity, implied(), sum hook, symmetric functions
        self.memo = {}
        self.steps = 0
        self.limit = 400000

    # ---------------------------------------------------------------- terms from polynomials
    def reify_mono(self, m, c=Fraction(1)):
        fs = []
        for a, e in m:
            if e > 0:
                fs.extend([a] * e)
            else:
                fs.extend([tm._mk("inv", (a,))] * (-e))
        if c != 1 or not fs:
            fs.insert(0, num(c))
        if len(fs) == 1:
            return fs[0]
        return tm._mk("mul", tuple(fs), isint=all(f.isint for f in fs))

    def reify(self, p):
        if not p:
            return ZERO
        items = sorted(p.items(), key=lambda mc: [(key(a), e) for a, e in mc[0]])
        if items[0][0] == () and len(items) > 1:
            items = items[1:] + items[:1]
        ts = [self.reify_mono(m, c) for m, c in items]
        if len(ts) == 1:
            return ts[0]
        return tm._mk("add", tuple(ts), isint=all(t.isint for t in ts))

    def canon(self, t):
        if t.isbool:
            return self.cond(t)
        return self.reify(self.norm(t))

    # ---------------------------------------------------------------- monomials
    def mono(self, d):
        return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: key(x[0])))

    def simp(self, d, coef=Fraction(1)):
        """Polynomial of coef * prod a^e, applying the multiplicative rules."""
        self.steps += 1
        if self.steps > self.limit:
            raise Abort()
        exps = None
        for a, e in d.items():
            if a.op == "ite":
                if e != 1:
                    d[a] = 1
            elif a.op == "fn" and a.args[0] == "exp":
                exps = (exps or 0) + 1
                if e != 1:
                    exps += 1
        if exps and exps > 1:
            s = {}
            for a in [a for a in d if a.op == "fn" and a.args[0] == "exp"]:
                s = padd(s, self.norm(a.args[1]), d.pop(a))
            e = self.norm_exp(s)
            return self.pmul(self.simp(d, coef), e)
        for a in list(d):
            if a.op == "fn" and a.args[0] == "sqrt" and abs(d[a]) >= 2 and self.ctx.pos_atom(a):
                e = d.pop(a)
                h, r = divmod(abs(e), 2)
                sg = 1 if e > 0 else -1
                if r:
                    d[a] = sg
                inner = self.norm(a.args[1])
                f = inner if sg > 0 else self.pinv(inner)
                out = self.simp(d, coef)
                for _ in range(h):
                    out = self.pmul(out, f)
                return out
        # inverse-of-polynomial atoms
        invs = [a for a in d if a.op == "inv" and d[a] > 0 and self.inv_ok(a)]
        for a in invs:
            p = self.norm(a.args[0])
            lm = self.lead(p)
            if lm is None:
                continue
            if all(d.get(x, 0) >= e for x, e in lm):
                # lm * inv(p) = (1 - (p - c*lm) inv(p)) / c
                c = p[lm]
                dd = dict(d)
                for x, e in lm:
                    dd[x] -= e
                    if not dd[x]:
                        del dd[x]
                rest = dict(p)
                del rest[lm]
                base = dict(dd)
                base[a] -= 1
                if not base[a]:
                    del base[a]
                out = self.simp(base, coef / c)
                return padd(out, self.pmul(self.simp(dd, -coef / c), rest))
            # partial fractions against pure inverse powers of the single lead atom
            if len(lm) == 1 and lm[0][1] == 1 and len(p) == 2 and () in p:
                x = lm[0][0]
                if d.get(x, 0) < 0:
                    c, k = p[lm], p[()]
                    # 1/(x * (c x + k)) = (1/k) (1/x - c/(c x + k))
                    d1, d2 = dict(d), dict(d)
                    d1[a] -= 1
                    if not d1[a]:
                        del d1[a]
                    d2[x] += 1
                    if not d2[x]:
                        del d2[x]
                    return padd(self.simp(d1, coef / k), self.simp(d2, -coef * c / k))
        for i in range(len(invs)):
            for j in range(i + 1, len(invs)):
                a, b = invs[i], invs[j]
                diff = padd(self.norm(b.args[0]), self.norm(a.args[0]), -1)
                if is_const(diff) and cval(diff) != 0:
                    q = cval(diff)          # q_b - q_a : 1/(ab) = (1/a - 1/b)/(b-a)
                    d1, d2 = dict(d), dict(d)
                    for dd, kill in ((d1, b), (d2, a)):
                        dd[kill] -= 1
                        if not dd[kill]:
                            del dd[kill]
                    return padd(self.simp(d1, coef / q), self.simp(d2, -coef / q))
        return {self.mono(d): coef} if coef else {}

    def inv_ok(self, a):
        return self.ctx.nonzero_poly(self, a.args[0])

    def lead(self, p):
        ms = [m for m in p if m and all(e > 0 for _, e in m)]
        if not ms:
            return None
        ms.sort(key=lambda m: (sum(e for _, e in m), [(key(a), e) for a, e in m]))
        return ms[0] if len(ms) == 1 else min(ms, key=lambda m: (sum(e for _, e in m), [(key(a), e) for a, e in m]))

    def mmul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                del d[a]
        return d

    def needs_simp(self, d):
        for a, e in d.items():
            op = a.op
            if op == "ite":
                if e != 1:
                    return True
            elif op == "inv" or op == "fn":
                return True
        return False

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                self.steps += 1
                if self.steps > self.limit:
                    raise Abort()
                d = self.mmul(m1, m2)
                if self.needs_simp(d):
                    for m, c in self.simp(d, c1 * c2).items():
                        v = r.get(m, 0) + c
                        if v:
                            r[m] = v
                        else:
                            r.pop(m, None)
                else:
                    m = self.mono(d)
                    v = r.get(m, 0) + c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r

    def atom(self, t, e=1):
        return {((t, e),): Fraction(1)}

    def pinv(self, p):
        if is_const(p):
            c = cval(p)
            return pconst(1 / c) if c else {}
        if len(p) == 1:
            (m, c), = p.items()
            out = pconst(1 / c)
            for a, e in m:
                if a.op == "ite":
                    f = self.atom(a)
                elif self.ctx.nonzero_atom(self, a):
                    f = self.atom(a, -e)
                elif a.op == "inv" and e > 0:
                    f = self.pow_(self.norm(a.args[0]), e)
                else:
                    f = self.atom(tm._mk("inv", (a,)), abs(e)) if e > 0 else self.atom(a, -e)
                out = self.pmul(out, f)
            return out
        sp = self.split_ind(p)
        if sp:
            return self.pick_ind(sp, self.pinv)
        # pull out common powers of non-zero atoms and the leading coefficient
        common = None
        for m in p:
            dm = {a: e for a, e in m}
            if common is None:
                common = {a: e for a, e in dm.items() if a.op != "ite" and self.ctx.nonzero_atom(self, a)}
            else:
                for a in list(common):
                    e = min(common[a], dm.get(a, 0)) if dm.get(a, 0) * common[a] > 0 or common[a] < 0 or dm.get(a, 0) < 0 else 0
                    common[a] = e
                for a in set(dm) - set(common):
                    if a.op != "ite" and dm[a] < 0 and self.ctx.nonzero_atom(self, a):
                        common[a] = dm[a]
            common = {a: e for a, e in common.items() if e}
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    v = d.get(a, 0) - e
                    if v:
                        d[a] = v
                    else:
                        d.pop(a, None)
                q = padd(q, self.simp(d, c))
            f = {self.mono({a: -e for a, e in common.items()}): Fraction(1)}
            return self.pmul(f, self.pinv(q))
        lead = min(p, key=lambda m: [(key(a), e) for a, e in m] or [("~", 0)])
        c = p[lead]
        q = pscale(p, 1 / c)
        a = tm._mk("inv", (self.reify(q),))
        return {((a, 1),): 1 / c}

    def split_ind(self, p):
        """p = p0 + [c]*p1 for an indicator [c] occurring in p, or None."""
        best = None
        for m in p:
            for a, e in m:
                if a.op == "ite" and (best is None or key(a) < key(best)):
                    best = a
        if best is None:
            return None
        p0, p1 = {}, {}
        for m, c in p.items():
            mm = tuple(x for x in m if x[0] is not best)
            if len(mm) == len(m):
                p0[m] = c
            else:
                p1[mm] = p1.get(mm, 0) + c
        return best, p0, p1

    def pick_ind(self, sp, f):
        a, p0, p1 = sp
        x, y = f(p0), f(padd(p0, p1))
        return padd(x, self.pmul(self.atom(a), padd(y, x, -1)))

    def pow_(self, p, n):
        out = pconst(1)
        for _ in range(n):
            out = self.pmul(out, p)
        return out

    # ---------------------------------------------------------------- main recursion
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            self.memo[t] = r
        return r

    def _norm(self, t):
        op, a = t.op, t.args
        if op == "num":
            return pconst(a[0])
        if op == "var":
            return self.atom(t)
        if op == "app":
            args = [self.canon(x) for x in a[1:]]
            if a[0] in self.ctx.symmetric and len(args) >= 2 and key(args[-1]) < key(args[-2]):
                args = args[:-2] + [args[-1], args[-2]]
            u = tm._mk("app", (a[0],) + tuple(args), isint=t.isint)
            h = self.ctx.app_hook(self, u)
            return self.norm(h) if h is not None else self.atom(u)
        if op == "add":
            r = {}
            for x in a:
                r = padd(r, self.norm(x))
            return r
        if op == "mul":
            a = self.square_roots(a)
            r = pconst(1)
            for x in a:
                r = self.pmul(r, self.norm(x))
                if not r:
                    return r
            return r
        if op == "inv":
            return self.pinv(self.norm(a[0]))
        if op == "ite":
            c = self.cond(a[0])
            if c is TRUE:
                return self.norm(a[1])
            if c is FALSE:
                return self.norm(a[2])
            if a[1] is ONE and a[2] is ZERO:
                return self.ind(c)
            x, y = self.norm(a[1]), self.norm(a[2])
            if x == y:
                return x
            c, flip = self.orient(c)
            if flip:
                x, y = y, x
            d = padd(x, y, -1)
            if c.op == "lt":        # [q < 0] q = [q <= 0] q
                q = padd(self.norm(c.args[0]), self.norm(c.args[1]), -1)
                m = next(iter(q), None)
                if m is not None and m in d and padd(d, pscale(q, d[m] / q[m]), -1) == {}:
                    c = tm._mk("le", c.args, isbool=True)
            return padd(y, self.pmul(self.ind(c), d))
        if op == "sum":
            t = tm.refresh(t)
            bs, g, b = t.args
            # positive guard literals stay positive so that every sum keeps finite support
            return self.sum_poly(list(bs), self.pmul(self.ind(self.cond(g)), self.norm(b)))
        if op == "fn":
            return self.norm_fn(t)
        if op == "ext":
            return self.norm_ext(t)
        if op in ("det", "minv"):
            t = tm.refresh(t)
            n = self.canon(a[0])
            i, j = t.args[1]
            body = self.canon(t.args[2])
            h = self.height(body)
            x, y = tm.var("%%%d" % (h + 1)), tm.var("%%%d" % (h + 2))
            body = self.canon_subst(body, {i: x, j: y})
            rest = tuple(self.canon(z) for z in t.args[3:])
            if op == "minv" and key(rest[1]) < key(rest[0]):
                sw = self.canon_subst(body, {x: y, y: x})
                if sw is body:            # inverse of a symmetric matrix is symmetric
                    rest = (rest[1], rest[0])
            return self.atom(tm._mk(op, (n, (x, y), body) + rest))
        raise TypeError("norm " + op)

    def canon_subst(self, body, m):
        return self.canon(tm.subst(body, m))

    def square_roots(self, a):
        """sqrt(t) * sqrt(t) = t where t is evidently non-negative."""
        rs = [x for x in a if x.op == "fn" and x.args[0] == "sqrt"]
        if len(rs) < 2:
            return a
        a = list(a)
        for x in set(rs):
            while a.count(x) >= 2 and self.ctx.nonneg_term(x.args[1]):
                a.remove(x)
                a.remove(x)
                a.append(x.args[1])
        return a

    def norm_log(self, p):
        # a determinant under a logarithm: its positivity is an obligation of the call that took the logarithm
        if len(p) == 1 and all(c > 0 and all(a.op == "det" or self.ctx.pos_atom(a) for a, e in m) for m, c in p.items()):
            (m, c), = p.items()
            out = self.atom(tm._mk("fn", ("log", num(c)))) if c != 1 else {}
            for a, e in m:
                if a.op == "fn" and a.args[0] == "exp":
                    out = padd(out, self.norm(a.args[1]), e)
                elif a.op == "fn" and a.args[0] == "sqrt":
                    out = padd(out, self.norm_log(self.norm(a.args[1])), Fraction(e, 2))
                elif a.op == "fn" and a.args[0] == "rpow":
                    out = padd(out, self.pmul(self.norm(a.args[2]), self.norm_log(self.norm(a.args[1]))), e)
                elif a.op == "inv":
                    out = padd(out, self.norm_log(self.norm(a.args[0])), -e)
                else:
                    out = padd(out, self.atom(tm._mk("fn", ("log", a))), e)
            return out
        return self.atom(tm._mk("fn", ("log", self.reify(p))))

    def norm_exp(self, p):
        if not p:
            return pconst(1)
        for m, c in p.items():
            # exp(c log(t) + r) = t^c exp(r), t > 0
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "log" and (2 * c).denominator == 1 and abs(c) < 8:
                t = m[0][0].args[1]
                if t.op == "det" or self.ctx.pos_poly(self, self.norm(t)):
                    n = int(2 * c)
                    b = self.norm(tm.fn("sqrt", t)) if n % 2 else self.norm(t)
                    k = abs(n) if n % 2 else abs(n) // 2
                    f = self.pow_(b, k)
                    if n < 0:
                        f = self.pinv(f)
                    return self.pmul(f, self.norm_exp({q: x for q, x in p.items() if q != m}))
        return self.atom(tm._mk("fn", ("exp", self.reify(p))))

    def norm_fn(self, t):
        name = t.args[0]
        ps = [self.norm(x) for x in t.args[1:]]
        if name in ("sqrt", "exp", "abs", "log") and ps[0]:
            sp = self.split_ind(ps[0])
            if sp:
                return self.pick_ind(sp, lambda q: self.norm(tm.fn(name, self.reify(q))))
        if name == "exp":
            return self.norm_exp(ps[0])
        if name == "log":
            return self.norm_log(ps[0]) if ps[0] else self.atom(tm._mk("fn", ("log", ZERO)))
        if name == "sqrt":
            p = ps[0]
            if not p:
                return {}
            if len(p) == 1:
                (m, c), = p.items()
                if c > 0:
                    out = self.sqrt_const(c)
                    rest = {}
                    for a, e in m:
                        if a.op == "ite":
                            out = self.pmul(out, self.atom(a))
                        elif self.ctx.pos_atom(a):
                            h, r = divmod(e, 2)
                            if h:
                                out = self.pmul(out, self.atom(a, h))
                            if r and a.op == "fn" and a.args[0] == "rpow" and self.ctx.pos_term(a.args[1]):
                                out = self.pmul(out, self.norm(tm.fn("rpow", a.args[1], tm.mul(num(Fraction(1, 2)), a.args[2]))))
                            elif r:
                                out = self.pmul(out, self.atom(tm._mk("fn", ("sqrt", a))))
                        else:
                            rest[a] = e
                    if rest:
                        out = self.pmul(out, self.atom(tm._mk("fn", ("sqrt", self.reify_mono(self.mono(rest))))))
                    return out
            return self.atom(tm._mk("fn", ("sqrt", self.reify(p))))
        if name == "rpow":
            b, e = ps
            if is_const(e) and cval(e).denominator == 1:
                n = int(cval(e))
                return self.pow_(b, n) if n >= 0 else self.pinv(self.pow_(b, -n))
            if is_const(e) and cval(e).denominator == 2 and abs(cval(e)) < 8:
                s = self.norm(tm.fn("sqrt", self.reify(b)))
                n = int(2 * cval(e))
                return self.pow_(s, n) if n >= 0 else self.pinv(self.pow_(s, -n))
            if is_const(e) is False and len(e) >= 1 and all(c < 0 for c in e.values()) and self.ctx.pos_poly(self, b):
                return self.pinv(self.norm(tm.fn("rpow", self.reify(b), self.reify(pscale(e, -1)))))
        if name == "abs":
            p = ps[0]
            if is_const(p):
                return pconst(abs(cval(p)))
            if self.ctx.pos_poly(self, p):
                return p
            lead = min(p, key=lambda m: [(key(a), e) for a, e in m])
            if p[lead] < 0:
                p = pscale(p, -1)
            return self.atom(tm._mk("fn", ("abs", self.reify(p)), isint=t.isint))
        if name == "trunc":
            u = self.reify(ps[0])
            if u.isint:
                return ps[0]
        return self.atom(tm._mk("fn", (name,) + tuple(self.reify(p) for p in ps), isint=t.isint))

    def sqrt_const(self, c):
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return pconst(Fraction(a, b))
        return self.atom(tm._mk("fn", ("sqrt", num(c))))

    # ---------------------------------------------------------------- conditions
    def orient(self, c):
        """Canonical polarity of an ite condition: returns (condition, flipped)."""
        if c.op == "not":
            return c.args[0], True
        if c.op in ("le", "lt"):
            a = c.args[0]
            first = a.args[0] if a.op == "add" else a
            if first.op == "mul" and first.args[0].op == "num" and first.args[0].args[0] < 0:
                return self.cond(tm.not_(c)), True
        return c, False

    def cond(self, c):
        r = self.memo.get(c)
        if r is None:
            r = self.memo[c] = self._cond(c)
        return r

    def _cond(self, c):
        op, a = c.op, c.args
        if op in ("true", "false"):
            return c
        if op == "not":
            x = self.cond(a[0])
            return tm.not_(x)
        if op == "and":
            return tm.and_(*sorted([self.cond(x) for x in a], key=key))
        if op == "or":
            return tm.or_(*sorted([self.cond(x) for x in a], key=key))
        if op == "app":
            u = tm._mk("app", (a[0],) + tuple(self.canon(x) for x in a[1:]), isint=False, isbool=True)
            h = self.ctx.app_hook(self, u)
            return self.cond(h) if h is not None else u
        if op == "ex":
            c = tm.refresh(c)
            body = self.cond(c.args[1])
            return self.canon_binders("ex", list(c.args[0]), body)
        p = padd(self.norm(a[0]), self.norm(a[1]), -1)
        if is_const(p):
            v = cval(p)
            ok = v == 0 if op == "eq" else (v <= 0 if op == "le" else v < 0)
            return TRUE if ok else FALSE
        k = cval(p)
        q = dict(p)
        q.pop((), None)
        isint = all(e > 0 and at.isint and at.op != "inv" for m in q for at, e in m) and all(x.denominator == 1 for x in q.values())
        if op == "eq":
            lead = min(q, key=lambda m: [(key(x), e) for x, e in m])
            s = q[lead]
            if isint:
                g = math.gcd(*[int(x) for x in q.values()])
                s = g if s > 0 else -g
                if (k / s).denominator != 1:
                    return FALSE
            r = tm._mk("eq", (self.reify(pscale(q, 1 / Fraction(s))), num(-k / s)), isbool=True)
            return self.ctx.cond_hook(self, r)
        if isint:
            g = math.gcd(*[int(x) for x in q.values()])
            bound = -k / g
            bound = Fraction(math.floor(bound)) if op == "le" else Fraction(math.ceil(bound) - 1)
            return tm._mk("le", (self.reify(pscale(q, Fraction(1, g))), num(bound)), isbool=True)
        lead = min(q, key=lambda m: [(key(x), e) for x, e in m])
        s = abs(q[lead])
        return tm._mk(op, (self.reify(pscale(q, 1 / s)), num(-k / s)), isbool=True)

    def ind(self, c):
        if c is TRUE:
            return pconst(1)
        if c is FALSE:
            return {}
        if c.op == "and":
            r = pconst(1)
            for x in c.args:
                r = self.pmul(r, self.ind(x))
            return r
        if c.op == "or":
            r = pconst(1)
            for x in c.args:
                r = self.pmul(r, padd(pconst(1), self.ind(x), -1))
            return padd(pconst(1), r, -1)
        if c.op == "not":
            return padd(pconst(1), self.ind(c.args[0]), -1)
        return self.atom(tm._mk("ite", (c, ONE, ZERO), isint=True))

    # ---------------------------------------------------------------- sums
    def sum_poly(self, bs, p):
        r = {}
        for m, c in p.items():
            r = padd(r, self.sum_mono(list(bs), dict(m)), c)
        return r

    def sum_mono(self, bs, d):
        self.steps += 5
        if self.steps > self.limit:
            raise Abort()
        if not bs:
            return self.simp(d)
        bset = frozenset(bs)
        # flatten nested sums that depend on our binders
        for a in list(d):
            if a.op == "sum" and d[a] > 0 and (a.fv & bset):
                e = d.pop(a)
                out = self.simp(d)
                nb = list(bs)
                for _ in range(e):
                    u = tm.refresh(a)
                    nb.extend(u.args[0])
                    out = self.pmul(out, self.norm(u.args[2]))
                return self.sum_poly(nb, out)
        # Kronecker elimination
        for a in list(d):
            if a.op == "ite" and a.args[0].op == "eq":
                sol = self.solve(a.args[0], bs)
                if sol:
                    x, t = sol
                    dd = {b: e for b, e in d.items() if b is not a}
                    out = pconst(1)
                    for b, e in dd.items():
                        f = self.norm(tm.subst(b, {x: t})) if x in b.fv else self.atom(b)
                        if e > 0:
                            out = self.pmul(out, self.pow_(f, e))
                        else:
                            out = self.pmul(out, self.pow_(self.pinv(f), -e))
                    return self.sum_poly([b for b in bs if b is not x], out)
        # w + c <= x <= w + c
        bo = [(a, self.bound_of(a)) for a in d if a.op == "ite" and a.fv & bset]
        for a, b in bo:
            if b and b[0] in bset and b[2].denominator == 1:
                for a2, b2 in bo:
                    if b2 and b2[0] is b[1] and b2[1] is b[0] and b2[2] == -b[2]:
                        x, t = b[0], tm.add(b[1] if b[1] is not None else ZERO, num(b[2]))
                        out = pconst(1)
                        for q, e in d.items():
                            if q is a or q is a2:
                                continue
                            f = self.norm(tm.subst(q, {x: t})) if x in q.fv else self.atom(q)
                            out = self.pmul(out, self.pow_(f if e > 0 else self.pinv(f), abs(e)))
                        return self.sum_poly([q for q in bs if q is not x], out)
        # contradictory / redundant linear bounds
        red = self.reduce_bounds(d, bset)
        if red is None:
            return {}
        d = red
        # connected components
        comp = {b: b for b in bs}

        def find(x):
            while comp[x] is not x:
                x = comp[x]
            return x
        for a in d:
            vs = list(a.fv & bset)
            for v in vs[1:]:
                comp[find(v)] = find(vs[0])
        groups = {}
        for b in bs:
            groups.setdefault(find(b), []).append(b)
        out = self.simp({a: e for a, e in d.items() if not (a.fv & bset)})
        for root, g in groups.items():
            gs = frozenset(g)
            part = {a: e for a, e in d.items() if a.fv & gs}
            out = self.pmul(out, self.comp_sum(g, part))
        return out

    def solve(self, c, bs):
        """eq(P, c) with P linear and a binder of coefficient +-1 occurring nowhere else -> (x, t)."""
        p = padd(self.norm(c.args[0]), self.norm(c.args[1]), -1)
        for x in sorted(bs, key=key, reverse=True):
            m = ((x, 1),)
            co = p.get(m)
            if co in (1, -1):
                rest = {k: v for k, v in p.items() if k != m}
                t = self.reify(pscale(rest, -1 / co))
                if x not in t.fv and t.isint:
                    return x, t
        return None

    def bound_of(self, a):
        """ite(le(P,c),1,0) as difference constraint (u, v, c): u - v <= c; u/v atom or None."""
        if a.op != "ite" or a.args[0].op != "le":
            return None
        c = a.args[0]
        p = self.norm(c.args[0])
        if len(p) > 2 or not c.args[1].op == "num":
            return None
        u = v = None
        for m, co in p.items():
            if len(m) != 1 or m[0][1] != 1 or not m[0][0].isint:
                return None
            if co == 1 and u is None:
                u = m[0][0]
            elif co == -1 and v is None:
                v = m[0][0]
            else:
                return None
        return u, v, c.args[1].args[0]

    def reduce_bounds(self, d, bset):
        cons = []
        for a in d:
            if a.fv & bset:
                b = self.bound_of(a)
                if b:
                    cons.append((a, b))
        if len(cons) < 2:
            return d

        def implied(goal, use):
            # shortest path from v to u   (u - v <= c)
            u, v, c = goal
            edges = [(b[1], b[0], b[2]) for b in use]       # v -> u with weight c
            dist = {v: Fraction(0)}
            for _ in range(len(edges) + 1):
                ch = False
                for s, t_, w in edges:
                    if s in dist and (t_ not in dist or dist[s] + w < dist[t_]):
                        dist[t_] = dist[s] + w
                        ch = True
                if not ch:
                    break
            else:
                return "neg"
            return u in dist and dist[u] <= c
        facts = self.ctx.diff_facts
        alive = list(cons)
        for a, b in sorted(cons, key=lambda x: key(x[0])):
            r = implied(b, [bb for aa, bb in alive if aa is not a] + facts)
            if r == "neg":
                return None
            if r:
                alive = [(aa, bb) for aa, bb in alive if aa is not a]
        u = implied((None, None, Fraction(-1)), [bb for _, bb in alive] + facts)
        if u == "neg":
            return None
        keep = {a for a, _ in alive}
        dropped = {a for a, _ in cons} - keep
        return {a: e for a, e in d.items() if a not in dropped}

    def comp_sum(self, g, part):
        if len(g) == 1:
            x = g[0]
            lo = hi = None
            pure = True
            for a in part:
                b = self.bound_of(a)
                if b is None:
                    pure = False
                    break
                u, v, c = b
                if u is x and hi is None and (v is None or x not in v.fv):
                    hi = add(v if v is not None else ZERO, num(c + 1))
                elif v is x and lo is None and (u is None or x not in u.fv):
                    lo = add(u if u is not None else ZERO, num(-c))
                else:
                    pure = False
                    break
            if pure and lo is not None and hi is not None:
                if self.ctx.implied(tm.le(lo, hi)):
                    return self.norm(tm.sub(hi, lo))
                if self.ctx.implied(tm.le(hi, lo)):
                    return {}
        h = self.ctx.sum_hook(self, g, part)
        if h is not None:
            return h
        if len(g) > 1:
            # Fubini: sum out one binder first when its factors have a closed form
            for x in g:
                inner = {a: e for a, e in part.items() if x in a.fv}
                h = self.ctx.sum_hook(self, [x], inner)
                if h is not None:
                    rest = self.simp({a: e for a, e in part.items() if x not in a.fv})
                    return self.sum_poly([b for b in g if b is not x], self.pmul(rest, h))
        body = self.reify_mono(self.mono(part))
        m = self.shift(g, body)
        if m:
            return self.norm(tm.sum_(list(g), TRUE, tm.subst(body, m)))
        t = self.canon_binders("sum", g, body)
        return self.atom(t)

    def shift(self, g, body):
        """Translation x -> x - t of a binder that is only ever used as x + t (a loop that starts at t)."""
        for x in g:
            alone, offs = False, []
            for u in tm.walk(body):
                if u.op != "app" or x not in u.fv:
                    continue
                for a in u.args[1:]:
                    if a is x:
                        alone = True
                    elif hasattr(a, "fv") and x in a.fv and a.op != "app":
                        p = self.norm(a)
                        if p.get(((x, 1),)) == 1 and not any(x in v.fv for m in p if m != ((x, 1),) for v, _ in m):
                            offs.append(self.reify({m: c for m, c in p.items() if m != ((x, 1),)}))
            if not alone and offs:
                return {x: tm.sub(x, min(offs, key=key))}
        return None

    def height(self, t):
        h = 0
        for u in tm.walk(t):
            if u.op == "var" and u.args[0].startswith("%") and u.args[0][1:].isdigit():
                h = max(h, int(u.args[0][1:]))
            elif u.op in ("sum", "ext", "ex", "det", "minv"):
                for b in (u.args[1] if u.op in ("ext", "det", "minv") else u.args[0]):
                    if b.args[0].startswith("%") and b.args[0][1:].isdigit():
                        h = max(h, int(b.args[0][1:]))
        return h

    def canon_binders(self, op, g, body, guard=None, kind=None):
        """Rename the binders canonically (least structural key over the plausible permutations)."""
        whole = body if guard is None else tm._mk("pair", (guard, body)) if False else body
        h = max(self.height(body), self.height(guard) if guard is not None else 0)
        names = [tm.var("%%%d" % (h + 1 + i)) for i in range(len(g))]
        sig = {}
        for b in g:
            m = {x: tm.var("%*") for x in g if x is not b}
            m[b] = tm.var("%@")
            s = key(self.canon(tm.subst(body, m)))
            if guard is not None:
                s += "|" + key(self.canon(tm.subst(guard, m)))
            sig[b] = s
        order = sorted(g, key=lambda b: sig[b])
        classes = []
        for b in order:
            if classes and sig[classes[-1][0]] == sig[b]:
                classes[-1].append(b)
            else:
                classes.append([b])
        best = None
        cnt = 0
        for perm in product(*[permutations(c) for c in classes]):
            cnt += 1
            if cnt > 130:
                break
            seq = [b for c in perm for b in c]
            m = dict(zip(seq, names))
            nb = self.canon(tm.subst(body, m))
            ng = self.cond(tm.subst(guard, m)) if guard is not None else None
            k = (key(nb), key(ng) if ng is not None else "")
            if best is None or k < best[0]:
                best = (k, nb, ng)
        nb, ng = best[1], best[2]
        if op == "sum":
            return tm._mk("sum", (tuple(names), TRUE, nb), isint=nb.isint)
        if op == "ex":
            return tm._mk("ex", (tuple(names), nb), isbool=True)
        return tm._mk("ext", (kind, tuple(names), ng, nb), isint=nb.isint)

    # ---------------------------------------------------------------- extrema
    def norm_ext(self, t):
        t = tm.refresh(t)
        kind, bs, g, b = t.args
        guard = self.cond(g)
        if b.op == "ite":
            # elements at infinity never are the extremum of a set with other elements
            top = tm.INF if kind == "min" else tm.neg(tm.INF)
            for x, y, c in ((b.args[1], b.args[2], b.args[0]), (b.args[2], b.args[1], tm.not_(b.args[0]))):
                if x is top:
                    g2 = tm.and_(g, tm.not_(c))
                    if self.ctx.nonempty(self, list(bs), g2):
                        return self.norm(tm.ext(kind, list(bs), g2, y))
        body = self.canon(b)
        m = {}
        for c in (guard.args if guard.op == "and" else (guard,)):
            n = c.args[0] if c.op == "not" else c
            if n.op in ("le", "eq"):
                m[tm._mk("ite", (n, ONE, ZERO), isint=True)] = ZERO if c.op == "not" else ONE
        if any(u in m for u in tm.walk(body)):
            body = self.canon(tm.replace(body, m.get))
        bs = list(bs)
        # pinned binders
        lits = list(guard.args) if guard.op == "and" else [guard]
        for c in lits:
            if c.op == "eq":
                s = self.solve(c, bs)
                if s:
                    x, v = s
                    m = {x: v}
                    rest = tm.and_(*[tm.subst(l, m) for l in lits if l is not c])
                    nb = [y for y in bs if y is not x]
                    return self.norm(tm.ext(kind, nb, rest, tm.subst(body, m)))
        if not bs:
            return self.norm(body)
        if not (body.fv & frozenset(bs)) and self.ctx.nonempty(self, bs, guard):
            return self.norm(body)
        m = self.shift(bs, body)
        if m:
            return self.norm(tm.ext(kind, bs, tm.subst(guard, m), tm.subst(body, m)))
        # redundant bounds (for canonicity)
        guard = self.reduce_guard(guard, frozenset(bs))
        u = self.canon_binders("ext", bs, body, guard, kind)
        return self.atom(u)

    def reduce_guard(self, guard, bset):
        lits = list(guard.args) if guard.op == "and" else [guard]
        atoms = {}
        other = []
        for c in lits:
            a = tm._mk("ite", (c, ONE, ZERO), isint=True) if c.op == "le" else None
            if a is not None and self.bound_of(a):
                atoms[a] = 1
            else:
                other.append(c)
        red = self.reduce_bounds(atoms, bset)
        if red is None:
            return FALSE
        return tm.and_(*sorted([a.args[0] for a in red] + other, key=key))
