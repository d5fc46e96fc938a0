"""Prints the specification (spec.py: ghost statistics, index definitions, streaming step) as Lean definitions.

The contracts the verifier proves of the code and the lemmas Lean proves about the contracts therefore speak about the
same definitions: this file contains no mathematics of its own, it walks the terms spec.py builds.
Cluster indices 0 <= c < k become Fin k, feature indices Fin d; counts become reals; MIN / MAX become iInf / iSup over the
guarded finite index type.
"""
from fractions import Fraction
import terms as tm
from terms import ZERO
import spec
from spec import K, N, D


class Layer(spec.Ghost):
    """Derived statistics as calls of the printed definitions, so that every definition is printed once."""

    def v(self, c, f):
        return tm.app("v", c, f)

    def mu(self, f):
        return tm.app("mu", f)

    def CP(self, c):
        return tm.app("CP", c)

    def SEP(self, c):
        return tm.app("SEP", c)

    def D2(self, i, j):
        return tm.app("D2", i, j)

    def Ssil(self, j, i):
        return tm.app("Ssil", j, i)

    def D53(self, i, j):
        return tm.app("D53", i, j)

    def delta(self):
        return tm.app("delta")

    def const(self):
        return tm.app("cnst")

    def cov(self, a, b, c):
        return tm.app("cov", a, b, c)

    def sigma(self, a, b, c):
        return tm.app("sigma", a, b, c)

    def rD(self, i, j):
        return tm.app("rD", i, j)


BASE = {"n", "s", "Q", "tot"}
FIN = {id(K): "k", id(D): "d"}


class Printer:
    def __init__(self, nat=False):
        self.names = {}
        self.n = 0
        self.nat = nat            # index variables are naturals (streaming step) instead of Fin

    def name(self, v, pre="i"):
        if v not in self.names:
            self.names[v] = "%s%d" % (pre, self.n)
            self.n += 1
        return self.names[v]

    def bind(self, bs, guard):
        """-> (binder text, type text); the names of bs are set to projections"""
        lits = list(guard.args) if guard.op == "and" else ([] if guard is tm.TRUE else [guard])
        upper, rest = {}, []
        for l in lits:
            if l.op == "le" and l.args[0] is ZERO and l.args[1] in bs:
                continue
            if l.op == "le" and l.args[0].op == "add":
                a = [x for x in l.args[0].args if x is not tm.ONE]
                if len(a) == 1 and len(l.args[0].args) == 2 and a[0] in bs:
                    if l.args[1] is K or l.args[1] is D:
                        upper[a[0]] = FIN[id(l.args[1])]
                        continue
            rest.append(l)
        ty = None
        for b in bs:
            if b in upper:
                ty = upper[b]
        # an upper bound through another binder (i < j < k)
        for l in rest:
            if l.op != "le" and not (l.op == "not" and l.args[0].op == "eq"):
                raise ValueError("guard %s" % tm.show(guard))
        if ty is None or any(b not in upper and not any(self.lt(l) and self.lt(l)[0] is b for l in rest) for b in bs):
            raise ValueError("range of %s" % tm.show(guard))
        nm = "i%d" % self.n
        self.n += 1
        if len(bs) == 1:
            if not rest:
                self.names[bs[0]] = nm
                return nm, "Fin %s" % ty
            self.names[bs[0]] = nm
            g = " ∧ ".join(self.cond(l) for l in rest)
            self.names[bs[0]] = nm + ".1"
            return nm, "{%s : Fin %s // %s}" % (nm, ty, g)
        for x, p in zip(bs, ("1", "2")):
            self.names[x] = "%s.%s" % (nm, p)
        g = " ∧ ".join(self.cond(l) for l in rest)
        for x, p in zip(bs, ("1", "2")):
            self.names[x] = "%s.1.%s" % (nm, p)
        return nm, "{%s : Fin %s × Fin %s // %s}" % (nm, ty, ty, g)

    @staticmethod
    def lt(l):
        if l.op == "le" and l.args[0].op == "add" and len(l.args[0].args) == 2 and tm.ONE in l.args[0].args and l.args[1].op == "var":
            a = [x for x in l.args[0].args if x is not tm.ONE]
            if len(a) == 1 and a[0].op == "var":
                return a[0], l.args[1]
        return None

    def isindex(self, t):
        return t.op == "var" and t in self.names

    def cond(self, c):
        if c.op == "not":
            return "¬ %s" % self.cond(c.args[0])
        if c.op == "eq":
            if any(self.isindex(x) for x in c.args):
                return "(%s = %s)" % tuple(self.ix(x) for x in c.args)
            return "(%s = %s)" % (self.tr(c.args[0]), self.tr(c.args[1]))
        if c.op == "le":
            p = self.lt(c)
            if p and all(self.isindex(x) for x in p):
                return "(%s < %s)" % (self.ix(p[0]), self.ix(p[1]))
            return "(%s ≤ %s)" % (self.tr(c.args[0]), self.tr(c.args[1]))
        if c.op == "and":
            return "(%s)" % " ∧ ".join(self.cond(x) for x in c.args)
        raise ValueError(c.op)

    def ix(self, t):
        if t in self.names:
            return self.names[t]
        if self.nat and t is K:
            return "k"
        if self.nat and t.op == "app" and t.args[0] == "slot":
            return "c0"
        raise ValueError("index %s" % tm.show(t))

    def tr(self, t):
        op, a = t.op, t.args
        if t is N:
            return "S.N"
        if t is K:
            return "(k:ℝ)"
        if t is D:
            return "(d:ℝ)"
        if t is tm.PI:
            return "Real.pi"
        if op == "num":
            q = Fraction(a[0])
            s = "%d" % q.numerator if q.denominator == 1 else "%d/%d" % (q.numerator, q.denominator)
            return "(%s:ℝ)" % s
        if op == "app":
            if a[0] == "x":
                return "(x %s)" % self.ix(a[1])
            if a[0] in BASE:
                return "(S.%s %s)" % (a[0], " ".join(self.ix(x) for x in a[1:]))
            if a[0] in ("delta", "cnst"):
                return "(%s d)" % a[0]
            return "(%s S %s)" % (a[0], " ".join(self.ix(x) for x in a[1:]))
        if op == "add":
            return "(" + " + ".join(self.tr(x) for x in a) + ")"
        if op == "mul":
            return "(" + " * ".join(self.tr(x) for x in a) + ")"
        if op == "inv":
            return "(%s)⁻¹" % self.tr(a[0])
        if op == "ite":
            return "(if %s then %s else %s)" % (self.cond(a[0]), self.tr(a[1]), self.tr(a[2]))
        if op == "fn":
            if a[0] == "sqrt":
                return "(Real.sqrt %s)" % self.tr(a[1])
            if a[0] == "exp":
                return "(Real.exp %s)" % self.tr(a[1])
            if a[0] == "rpow":
                return "((%s) ^ (%s : ℝ))" % (self.tr(a[1]), self.tr(a[2]))
            raise ValueError(a[0])
        if op == "sum":
            nm, ty = self.bind(a[0], a[1])
            return "(∑ %s : %s, %s)" % (nm, ty, self.tr(a[2]))
        if op == "ext":
            nm, ty = self.bind(a[1], a[2])
            return "(%s %s : %s, %s)" % ("⨅" if a[0] == "min" else "⨆", nm, ty, self.tr(a[3]))
        if op in ("det", "minv"):
            if a[0] is not D:
                raise ValueError("matrix of another size")
            r, c = "r%d" % self.n, "c%d" % self.n
            self.n += 1
            self.names[a[1][0]], self.names[a[1][1]] = r, c
            m = "(Matrix.of fun (%s %s : Fin d) => %s)" % (r, c, self.tr(a[2]))
            return "(Matrix.det %s)" % m if op == "det" else "(%s⁻¹ %s %s)" % (m, self.ix(a[3]), self.ix(a[4]))
        raise ValueError(op)


HEAD = """import Mathlib
set_option linter.all false
set_option maxHeartbeats 1000000
open Classical
namespace CVI
noncomputable section

structure Stats (k d : ℕ) where
  N : ℝ
  n : Fin k → ℝ
  s : Fin k → Fin d → ℝ
  Q : Fin k → Fin d → Fin d → ℝ
  tot : Fin d → ℝ

@[ext] structure NStats where
  N : ℝ
  n : ℕ → ℝ
  s : ℕ → ℕ → ℝ
  Q : ℕ → ℕ → ℕ → ℝ
  tot : ℕ → ℝ

variable {k d : ℕ}
"""


def definitions():
    p = Layer()
    G = spec.Ghost
    c, i, j, f, a, b = [tm.fresh(x) for x in "cijfab"]
    out = [HEAD]

    def d(name, args, types, term):
        pr = Printer()
        for v, nm in args:
            pr.names[v] = nm
        bs = " ".join("(%s : %s)" % (nm, ty) for (v, nm), ty in zip(args, types))
        out.append("def %s (S : Stats k d) %s : ℝ :=\n  %s\n" % (name, bs, pr.tr(term)))
    out.append("def delta (d : ℕ) : ℝ :=\n  %s\n" % Printer().tr(G.delta(p)))
    out.append("def cnst (d : ℕ) : ℝ :=\n  %s\n" % Printer().tr(G.const(p)))
    d("v", [(c, "c"), (f, "f")], ["Fin k", "Fin d"], G.v(p, c, f))
    d("mu", [(f, "f")], ["Fin d"], G.mu(p, f))
    d("CP", [(c, "c")], ["Fin k"], G.CP(p, c))
    d("SEP", [(c, "c")], ["Fin k"], G.SEP(p, c))
    d("D2", [(i, "i"), (j, "j")], ["Fin k"] * 2, G.D2(p, i, j))
    d("Ssil", [(j, "j"), (i, "i")], ["Fin k"] * 2, G.Ssil(p, j, i))
    d("D53", [(i, "i"), (j, "j")], ["Fin k"] * 2, G.D53(p, i, j))
    d("cov", [(a, "a"), (b, "b"), (c, "c")], ["Fin d"] * 2 + ["Fin k"], G.cov(p, a, b, c))
    d("sigma", [(a, "a"), (b, "b"), (c, "c")], ["Fin d"] * 2 + ["Fin k"], G.sigma(p, a, b, c))
    d("rD", [(i, "i"), (j, "j")], ["Fin k"] * 2, G.rD(p, i, j))
    for x in spec.INDICES:
        pr = Printer()
        out.append("def val%s (S : Stats k d) : ℝ :=\n  %s\n" % (x, pr.tr(spec.value(x, p))))
    # streaming
    for new, nm in ((None, "first"), (True, "stepNew"), (False, "stepOld")):
        def dd(term, *args):
            pr = Printer(nat=True)
            for v, n_ in args:
                pr.names[v] = n_
            return "fun %s => %s" % (" ".join(n_ for _, n_ in args), pr.tr(term)) if args else pr.tr(term)
        g = spec.first("CH") if new is None else spec.step("CH", new)
        hd = {None: "(x : ℕ → ℝ)", True: "(S : NStats) (k : ℕ) (x : ℕ → ℝ)", False: "(S : NStats) (c0 : ℕ) (x : ℕ → ℝ)"}[new]
        out.append("def %s %s : NStats where\n  N := %s\n  n := %s\n  s := %s\n  Q := %s\n  tot := %s\n" % (
            nm, hd, dd(g.N), dd(g.n(c), (c, "c")), dd(g.s(c, f), (c, "c"), (f, "f")), dd(g.Q(c, f, a), (c, "c"), (f, "f"), (a, "a")),
            dd(g.tot(f), (f, "f"))))
    # the second moments of single-sample clusters as rCIP's contracts write them
    gs = spec.GhostSingle()
    pr = Printer()
    for v, nm in ((c, "c"), (f, "f"), (a, "a")):
        pr.names[v] = nm
    out.append("def single (S : Stats k d) : Stats k d := { S with Q := fun c f a => %s }\n" % pr.tr(gs.Q(c, f, a)))
    return "\n".join(out)


if __name__ == "__main__":
    print(definitions())
