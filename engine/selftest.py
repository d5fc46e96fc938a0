"""Audits of the verifier's own answers (thorough tier; also usable by hand: python3-vt selftest.py INDEX).

audit(...)     every discharged obligation is evaluated, both sides, on ghost structures of sampled histories that satisfy
               its assumptions; a mismatch means the prover accepted something false.
second(...)    the SMT queries z3 answered `unsat` are put to a second solver (cvc5) and to the other z3 release.
vacuity(...)   every contract case must have a feasible execution whose assumptions are satisfied by some sampled history."""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time


def audit(rows, seed, seconds):
    """rows of (result, goal, (ok, ...)).  -> (goals evaluated, mismatching goals, contract cases hit, cases not hit)"""
    import refute
    todo = [(r, g) for r, g, d in rows if g is not None and d[0] and (g.lhs is not None or g.cond is not None) and g.case and not g.case.startswith("refuse") and g.case != "compat"]
    random.Random(seed).shuffle(todo)
    end = time.time() + seconds
    n, bad, hit, miss = 0, [], set(), set()
    for r, g in todo:
        left = end - time.time()
        if left < 0.05:
            break
        st = {"hit": 0}
        for X, L in refute.find(g, seed + n, min(1.0, max(0.15, seconds / max(1, len(todo)))), 40, st):
            bad.append((g.name, {"X": [[float(v) for v in q] for q in X][:12], "labels": [int(v) for v in L][:12]}))
            break
        if st["hit"]:
            n += 1
            hit.add(r.name)
        else:
            miss.add(r.name)
    return n, bad, hit, miss - hit


def second(queries, seconds, jobs=2):
    """[(smt2 text)] -> {solver: {unsat, sat, other}}"""
    uniq = sorted(set(queries), key=len)
    random.Random(1).shuffle(uniq)
    out = {}
    for name, cmd in (("cvc5", ["cvc5", "--lang=smt2", "--tlimit-per=4000", "--incremental", "--nl-ext-tplanes"]), ("z3-new", ["z3-new", "-T:4", "-in"])):
        if not shutil.which(cmd[0]):
            out[name] = "not installed"
            continue
        res = {"unsat": 0, "sat": 0, "other": 0, "asked": 0}
        end = time.time() + seconds / 2
        for q in uniq:
            if time.time() > end:
                break
            try:
                p = subprocess.run(cmd, input=("(set-logic ALL)\n" if name == "cvc5" else "") + q, capture_output=True, text=True, timeout=8)
                a = p.stdout.split()
                a = a[0] if a else "other"
            except subprocess.TimeoutExpired:
                a = "other"
            res["asked"] += 1
            res[a if a in res else "other"] += 1
        out[name] = res
    out["distinct_queries"] = len(uniq)
    return out
