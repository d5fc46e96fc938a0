"""Obligation runner: generates the obligations of one property from /repo's current source and discharges them."""
import argparse
import json
import multiprocessing as mp
import os
import re
import sys
import time

import numpy as np
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import warnings  # noqa: E402
warnings.simplefilter("ignore")
import terms as tm  # noqa: E402
import prove  # noqa: E402
import spec  # noqa: E402
import templates as tp  # noqa: E402

INDEX_OF = {"C01": "CH", "C02": "cSIL", "C03": "DB", "C04": "GD43", "C05": "GD53", "C06": "PS", "C07": "rCIP", "C08": "WB", "C09": "XB"}
# tags of the index obligations that directly are the property; everything else an all-index property uses is support
VALUE = {"state", "requires", "value", "ret", "zero", "safety", "dtype"}
DIRECT = {"C13": {"refuse"}, "C14": {"frame", "retain"}, "C15": {"foreign"}, "C16": {"safety", "returns", "ret", "zero"}, "C17": {"shape"},
          "C20": {"direct"}, "C10": set(), "C11": set(), "C12": set(), "C18": set(), "C19": set()}


class Cache:
    def __init__(self):
        self.d = {}

    @staticmethod
    def key(g):
        parts = [tm.show(t) if t is not None else "-" for t in (g.lhs, g.rhs, g.cond)] + sorted(tm.show(f) for f in g.ctx.facts)
        s = "|".join(parts)
        names = {}
        return re.sub(r"!(\d+)", lambda m: names.setdefault(m.group(1), "!v%d" % len(names)), s)


def discharge(g, budget, cache):
    """-> (proved?, backend, seconds, detail)"""
    t0 = time.time()
    if g.lhs is None and g.cond is None:
        return None, "", 0.0, g.note
    if g.cond is tm.FALSE and not g.ctx.facts:
        return False, "", 0.0, g.note
    k = None
    if g.lhs is not None and len(g.ctx.facts) < 40:
        k = Cache.key(g)
        if k in cache.d:
            return cache.d[k]
    P = prove.Prover(g.ctx, budget)
    lim = prove.STATS.get("limits", 0)
    try:
        ok = P.eq(g.lhs, g.rhs) if g.lhs is not None else P.cond(g.cond)
        if not ok and g.lhs is not None and prove.STATS.get("limits", 0) == lim:
            # comparisons decided by signs (clamping a sum of squares at zero, for example)
            l2, r2 = prove.known_signs(g.lhs, g.ctx), prove.known_signs(g.rhs, g.ctx)
            if l2 is not g.lhs or r2 is not g.rhs:
                P = prove.Prover(g.ctx, max(5.0, budget - (time.time() - t0)))
                ok = P.eq(l2, r2)
                k = None
        if not ok and g.defined is not None and prove.STATS.get("limits", 0) == lim:
            # without the side condition the goal is stronger than the property: retry where the index is defined
            cx = spec.defined_ctx(*g.defined, g.ctx)
            if cx is not None:
                P = prove.Prover(cx, max(5.0, budget - (time.time() - t0)))
                ok = P.eq(g.lhs, g.rhs)
                k = None
    except RecursionError:
        ok = False
        P.trace.append("recursion limit")
        lim = -1
    if not ok and prove.STATS.get("limits", 0) != lim:
        return None, "", round(time.time() - t0, 3), "resource limit: " + "; ".join([g.note] * bool(g.note) + P.trace[:3])[:1200]
    r = (bool(ok), "+".join(sorted(P.how)) or "syntactic", round(time.time() - t0, 3), "" if ok else "; ".join([g.note] * bool(g.note) + P.trace[:3])[:1500])
    if k is not None and ok:
        cache.d[k] = r
    return r


class IndexRun:
    def __init__(self, index, seed, deadline, tier):
        import contracts as C
        self.C = C
        self.index, self.seed, self.deadline, self.tier = index, seed, deadline, tier
        self.cache = Cache()
        self.V = C.IndexVerifier(index, seed)

    def results(self):
        V, C = self.V, self.C
        out = []
        if V.inv is None:
            return out
        modular = V.mid is not None and all(V.method(m) is not None for m in ("_param_inc", "_evaluate"))
        bmod = V.bmid is not None and all(V.method(m) is not None for m in ("_param_batch", "_evaluate"))
        V.passes_ints = set()
        calls, bcalls = [], []
        for ints in (False, True):
            for case in C.CASES:
                r = V.get_cvi(case, ints) if modular else None
                if r is None or getattr(r, "badcall", False):
                    calls += V.get_cvi_inline(case, ints)
                    V.passes_ints.add(False)
                else:
                    calls.append(r)
                    if r.error:
                        V.passes_ints.add(False)
            if V.binv is not None:
                r = V.get_cvi("batch", ints) if bmod else None
                if r is None or getattr(r, "badcall", False):
                    bcalls += V.get_cvi_inline("batch", ints)
                    V.passes_ints.add(True)
                else:
                    bcalls.append(r)
                    if r.error:
                        V.passes_ints.add(True)
        # the update methods are only obliged to cope with what get_cvi hands them
        iu, bu = [[False, True] if b in V.passes_ints else [False] for b in (False, True)]
        if modular:
            for ints in V.variants():
                V.set_variant(ints)
                for case in C.CASES:
                    if case == "first" and ints:
                        continue
                    out += [V.param_inc(case, q) for q in iu]
                out.append(V.evaluate("stream", "one"))
                out.append(V.evaluate("stream", "many"))
            V.set_variant(set())
        out += calls
        if V.binv is not None:
            if bmod:
                out += [V.param_batch(q) for q in bu]
                out.append(V.evaluate("batch", "many"))
            out += bcalls
            for w in V.REFUSALS:
                out.append(V.refusal(w))
        try:
            out += V.label_map()
        except Exception as e:      # representation without a LabelMap: its effect is inlined
            V.notes.append("label map contract: %s" % e)
        return out

    def retry_concrete(self, results):
        """_evaluate over abstract statistics that did not go through is retried over the base statistics."""
        return results

    def settle(self):
        """Fix the dtype flags, then generate."""
        V = self.V
        for _ in range(6):
            res = self.results()
            if not (V.find_alias(res) | V.flag_dtypes(res)):
                break
        return res

    def prove_all(self, res, budget):
        rows = []
        for r in res:
            if r.error:
                rows.append([r, None, (None, "", 0.0, "outside the verifier's reach: " + r.error)])
            for g in r.goals:
                left = self.deadline - time.time()
                if left < 3:
                    rows.append([r, g, (None, "", 0.0, "time budget exhausted")])
                    continue
                rows.append([r, g, discharge(g, min(budget, left), self.cache)])
        return rows

    def audits(self, rows):
        """Thorough tier: check the discharged obligations against sampled ghost structures and a second solver."""
        import selftest
        left = max(5.0, self.deadline - time.time())
        n, bad, hit, miss = selftest.audit(rows, self.seed, min(240.0, 0.4 * left))
        names = dict(bad)
        for row in rows:
            if row[1] is not None and row[1].name in names:
                row[2] = (None, "", row[2][2], "audit: discharged, but false on the sampled ghost structure %s" % json.dumps(names[row[1].name])[:400])
        two = selftest.second(prove.SMT_LOG or [], min(240.0, 0.4 * left))
        return {"goals_evaluated": n, "mismatches": [b[0] for b in bad], "contract_cases_exercised": len(hit), "contract_cases_not_exercised": sorted(miss), "second_solver": two}

    def run(self):
        V = self.V
        budget = 60 if self.tier == "quick" else 240
        if V.inv is None:
            return self.report([], V.sample_error or "sampling failed")
        if self.tier == "thorough":
            prove.SMT_LOG = []
        res = self.settle()
        rows = self.prove_all(res, budget)
        first = rows
        dropped = []
        other = {g.name for r, g, d in rows if g is not None and d[0] is False and not (g.tag in ("state", "requires") and g.attr and g.phase)}
        # weaken what the invariant says about attributes nothing depends on
        for rnd in range(10):
            bad = [(r, g) for r, g, d in rows if g is not None and not d[0] and g.tag in ("state", "requires") and g.attr and g.phase]
            if not bad or len({g.name for r, g, d in rows if g is not None and d[0] is False} - other) > len(bad):
                break
            ch = False
            for r, g in bad:
                if V.weaken(g.phase, g.attr):
                    ch = True
                    dropped.append(g.attr)
            if not ch:
                break
            rows = self.prove_all(self.settle(), budget)
        was = {(r.name, g.name if g is not None else None) for r, g, d in first if not d[0]}
        if rows is not first and any(not d[0] and (r.name, g.name if g is not None else None) not in was for r, g, d in rows):
            # the attribute mattered: go back to the inferred invariant and its failed obligations
            self.V = V = self.C.IndexVerifier(self.index, self.seed)
            self.settle()
            rows, dropped = first, []
        aud = self.audits(rows) if self.tier == "thorough" else None
        out = self.report(rows, V.sample_error, dropped)
        out["audit"] = aud
        for name, r in ((aud or {}).get("second_solver") or {}).items():
            if isinstance(r, dict) and r.get("sat"):
                out["error"] = "%s; %s finds %d queries satisfiable that z3 reported unsat" % (out.get("error") or "", name, r["sat"])
        return out

    def report(self, rows, error, dropped=()):
        import refute
        V = self.V
        obs, bounded = [], []
        n_ref = 0
        for r, g, (ok, how, sec, detail) in rows:
            if g is not None and ok is False and any(t is not None and self.C.mentions(t, ()) for t in [g.lhs, g.rhs, g.cond] + list(g.ctx.facts)):
                # the goal is about state the inferred invariant says nothing about: not evidence of a broken property
                ok, detail = None, "depends on an attribute without an inferred description: " + detail
            o = {"name": g.name if g is not None else r.name + ": within reach", "status": "proved" if ok else "unknown" if ok is None else "failed", "backend": how, "time": sec, "detail": detail,
                 "tag": g.tag if g is not None else "reach", "function": r.name, "index": self.index}
            if g is None or ok is None:
                bounded.append("%s (%s)" % (r.name, detail))
            if g is not None and ok is False:
                if self.deadline - time.time() > 5 and n_ref < 30:
                    n_ref += 1
                    o.update(self.refute(g))
                if o["status"] == "failed" and ", inlined]" in g.name:
                    o["status"] = "unknown"     # fallback contract over inlined callees: incomplete by design
            obs.append(o)
        if V.sample_error:
            obs.append({"name": "%s: a plain sampled history runs without an exception" % self.index, "status": "refuted" if V.sample_error.startswith("SampleError") else "unknown", "backend": "", "time": 0.0, "detail": V.sample_error, "tag": "returns",
                        "function": self.index, "index": self.index})
        funcs = set()
        loops = 0
        for r in {id(r): r for r, _, _ in rows}.values():
            funcs |= r.functions
            loops += len(r.loops)
        inv = {a: T.describe() for a, T in sorted((V.inv or {}).items())}
        return {"index": self.index, "obligations": obs, "functions": sorted(funcs), "bounded": sorted(set(bounded)), "error": error, "loops": loops, "notes": V.notes,
                "dropped": sorted(set(dropped)), "invariant": inv, "batch_state": {a: T.describe() for a, T in sorted((V.binv or {}).items())},
                "z3_time": prove.STATS["z3_time"], "z3_calls": prove.STATS["z3_calls"]}

    def refute(self, g):
        import refute
        V = self.V
        out = {}
        if g.tag in ("frame", "retain", "foreign", "refuse", "shape") and g.cond is tm.FALSE and (g.case or "").startswith("refuse"):
            return {"status": "refuted", "detail": g.note, "hints": []}
        r = refute.refute(V, g, 8.0 if self.tier == "quick" else 40.0, self.seed)
        if r is None:
            if g.tag in ("foreign", "retain", "frame", "shape") and g.cond is tm.FALSE:
                return {"status": "refuted", "detail": g.note, "hints": []}
            return out
        desc, hints = r
        out["hints"] = hints[:8]
        if g.tag in ("foreign", "retain", "frame", "shape") and g.cond is tm.FALSE:
            out.update(status="refuted", detail=(desc or "") + " " + g.note)
        elif desc:
            out.update(status="refuted", detail="counterexample " + desc, cex=desc)
        return out


def run_index(args):
    index, seed, budget, tier = args
    t0 = time.time()
    try:
        r = IndexRun(index, seed, time.time() + budget, tier).run()
    except Exception:
        r = {"index": index, "obligations": [], "functions": [], "bounded": [], "error": traceback.format_exc()[-1500:], "notes": []}
    if not r["error"] and any(v in ("raise", "call") for v in np.geterr().values()):
        r["error"] = "importing the package makes numpy raise on floating-point errors (np.seterr): every call is outside the verifier's reach"
    r["time"] = round(time.time() - t0, 2)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    out = decide(a)
    if a.out:
        json.dump(out, open(a.out, "w"))
    n = {}
    for o in out["obligations"]:
        n[o["status"]] = n.get(o["status"], 0) + 1
        if o["status"] != "proved":
            print(o["status"], o["name"], o.get("detail", "")[:400])
    print(a.prop, n, out.get("error"), "%.1fs" % out["wall"])


def pool_map(f, items):
    if len(items) == 1:
        return [f(items[0])]
    with mp.get_context("fork").Pool(min(8, len(items)), maxtasksperchild=1) as p:
        return p.map(f, items, chunksize=1)


def decide(a):
    t0 = time.time()
    import lemmas
    lrun = lemmas.start(a.prop)
    if a.prop in INDEX_OF:
        idx = [INDEX_OF[a.prop]]
    else:
        idx = ["rCIP"] + [i for i in spec.INDICES if i != "rCIP"]
    if a.prop == "C20":
        import compatc
        try:
            res = [compatc.run(a.budget, a.tier, discharge, Cache())]
        except Exception:
            res = [{"index": "compat", "obligations": [], "functions": [], "bounded": [], "error": traceback.format_exc()[-1500:]}]
    else:
        res = pool_map(run_index, [(i, a.seed, a.budget, a.tier) for i in idx])
    obs, funcs, bounded, errs = [], set(), [], []
    for r in res:
        for o in r["obligations"]:
            o["direct"] = o["tag"] in (VALUE if a.prop in INDEX_OF else DIRECT.get(a.prop, set()))
            obs.append(o)
        funcs |= set(r["functions"])
        bounded += r["bounded"]
        if r["error"]:
            errs.append("%s: %s" % (r["index"], r["error"]))
    extra = {}
    try:
        ls = lemmas.finish(lrun, max(60, a.budget - (time.time() - t0)))
        obs += ls["obligations"]
        extra["assumptions"] = ls.get("assumptions", [])
    except Exception:
        errs.append("lemmas: " + traceback.format_exc()[-1200:])
    backends = {}
    for o in obs:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    return {"obligations": obs, "functions": sorted(funcs), "bounded": sorted(set(bounded)), "error": "; ".join(errs) or None, "backends": backends,
            "solver_time": round(sum(o.get("time", 0) for o in obs), 2), "wall": time.time() - t0,
            "invariants": {r["index"]: r.get("invariant") for r in res}, "assumptions": extra.get("assumptions", []),
            "audit": {r["index"]: r["audit"] for r in res if r.get("audit")},
            "notes": [n for r in res for n in r.get("notes", [])]}


if __name__ == "__main__":
    main()
