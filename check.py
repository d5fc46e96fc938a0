#!/usr/bin/env python3
"""check.py <property> : decides one property.  Exit 0 / 1 only.

1. the deductive verifier (engine/, run under python3-vt) extracts the functions from /repo's current
   source, generates the property's obligations and discharges them;
2. the run-time evaluation of the same contracts on the real code (bounded/falsify.py, run under the
   repository's own interpreter) concretises refuted obligations and stands in - labelled bounded - for
   the functions the verifier could not reach.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
RP = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else VT

TRUSTED = [
    "engine/*.py: interpreter of the Python subset, loop summariser, normaliser, SMT encoding (audited against sampled ghost structures and a second SMT solver in the thorough tier, engine/selftest.py; not verified)",
    "numpy functions: assumed contracts in engine/npmodel.py (exact real arithmetic, documented shapes); compared with numpy on 2,680 small programs x sampled data by engine/conform.py (thorough tier), not verified",
    "machine arithmetic is treated as real arithmetic; rounding, overflow and NaN are outside the proofs",
    "z3 (python3-vt z3-solver)",
    "Lean 4 kernel and Mathlib for the lemmas over the contracts (engine/lean/Lemmas.lean); engine/leanprint.py, which prints the definitions of engine/spec.py as Lean text",
]


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                parts = line.split()
                d = {"property": parts[1].split("=", 1)[1], "key": parts[2].split("=", 1)[1], "text": " ".join(parts[3:])}
                out.append(d)
    return out


def run(cmd, timeout, env):
    """Run in its own process group, always return (rc, tail of output)."""
    with tempfile.TemporaryFile() as fh:
        p = subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=HERE)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = -99
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        fh.seek(0)
        return rc, fh.read()[-6000:].decode("utf-8", "replace")


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    quick = tier == "quick"
    scratch = tempfile.mkdtemp(prefix="cvi-check-")
    env = dict(os.environ)
    env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"), "VERIF_REPO": REPO, "TMPDIR": scratch})
    env.pop("PYTHONPATH", None)
    try:
        code = decide(prop, tier, quick, seed, scratch, env, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, quick, seed, scratch, env, t0):
    # ---- deductive part
    vout = os.path.join(scratch, "verify.json")
    v_budget = 420 if quick else 1800
    rc, log = run([VT, os.path.join(HERE, "engine", "verify.py"), "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", vout,
                   "--budget", str(v_budget - 60)], v_budget, env)
    try:
        ver = json.load(open(vout))
    except Exception:  # noqa: BLE001
        ver = {"obligations": [], "functions": [], "error": "verifier ended with %s: %s" % (rc, log[-1500:]), "assumptions": []}
    obs = ver.get("obligations", [])
    bad = [o for o in obs if o["status"] in ("refuted", "failed")]
    unk = [o for o in obs if o["status"] not in ("proved", "refuted", "failed")]
    proved = [o for o in obs if o["status"] == "proved"]
    complete = bool(obs) and not bad and not unk and not ver.get("error") and not ver.get("incomplete")
    # ---- contracts evaluated on the real code
    hints = [h for o in bad for h in o.get("hints", [])]
    hp = os.path.join(scratch, "hints.json")
    json.dump(hints[:200], open(hp, "w"))
    budget = (25 if complete else 60 if not bad else 90) if quick else 600
    fout = os.path.join(scratch, "fals.json")
    rc, flog = run([RP, os.path.join(HERE, "bounded", "falsify.py"), "--prop", prop, "--seed", str(seed), "--budget", str(budget),
                    "--jobs", "8", "--hints", hp, "--out", fout], budget + 120, env)
    try:
        fal = json.load(open(fout))
    except Exception:  # noqa: BLE001
        fal = {"stats": {"evaluations": 0, "errors": [flog[-1500:]]}, "fail": None}
    fail, st = fal.get("fail"), fal.get("stats", {})
    findings = [k for k in known() if k["property"] == prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    conf = conformance(seed, env) if not quick else None
    if conf and conf.get("differs"):
        complete = False
        print("  conformance of the verifier with CPython and numpy: %d programs differ" % conf["differs"])

    report = [o for o in bad if o.get("direct", True)]
    violation = None
    if fail:
        violation = ("input", {"failing_input": fail, "failed_obligations": [brief(o) for o in bad + unk][:20]})
    elif report:
        violation = ("obligation", {"failed_obligations": [brief(o) for o in report], "verifier_output": log[-3000:],
                                    "note": "the verifier refuted (counterexample in the replay entry) or failed to discharge (the residual goal is given) these obligations, all of which it discharges on the pinned tree; no failing input was found within the budget"})
    level = "proof" if complete else "other"
    funcs = sorted(set(ver.get("functions", [])))
    cov = {
        "obligations": len(obs), "discharged": len(proved),
        "checker_cmd": "python3-vt engine/verify.py --prop %s" % prop,
        "trusted_base": TRUSTED,
        "functions_under_contract": funcs,
        "obligation_list": summary(obs),
        "backends": ver.get("backends", {}),
        "solver_time_s": ver.get("solver_time", 0),
        "bounded_functions": ver.get("bounded", []),
        "verifier_error": ver.get("error"),
        "state_invariants": ver.get("invariants"),
        "audit": ver.get("audit") or "thorough tier only",
        "conformance": conf or "thorough tier only",
        "bounded_stand_in": {"evaluations": st.get("evaluations", 0), "distinct_nontrivial": st.get("distinct_nontrivial", 0),
                             "max": st.get("max"), "skipped": st.get("skipped"), "errors": st.get("errors"),
                             "rule": "public-API executions of the real code on every label history (up to renaming) of length <= 6 plus random cases; non-trivial: at least two clusters"},
        "evaluations": st.get("evaluations", 0), "distinct_nontrivial": st.get("distinct_nontrivial", 0),
        "rule": "contracts evaluated on the real code; non-trivial: at least two clusters", "samples": st.get("samples", []),
        "explanation": "%d of %d obligations discharged by the verifier; functions not reached are covered by the bounded stand-in only" % (len(proved), len(obs)),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set(TRUSTED + ver.get("assumptions", []))),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    print("%s: %d obligations, %d proved, %d failed, %d undecided; bounded: %d evaluations; %.1fs"
          % (prop, len(obs), len(proved), len(bad), len(unk), st.get("evaluations", 0), time.time() - t0))
    for o in (bad + unk)[:12]:
        print("  %s: %s %s" % (o["status"], o["name"], o.get("detail", "")[:160]))
    if ver.get("error"):
        print("  verifier:", ver["error"][-400:])
    if violation:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        json.dump(dict(violation[1], property=prop, kind=violation[0]), open(rp, "w"), indent=1)
        tail = "" if violation[0] == "input" else " no-failing-input-found"
        if violation[0] == "input":
            print("  %s" % fail["what"])
            print("  replay with: %s bounded/falsify.py --replay %s" % (RP, rp))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    return 0


def conformance(seed, env):
    """The interpreter and the assumed numpy contracts against CPython and numpy (engine/conform.py)."""
    rc, log = run([VT, os.path.join(HERE, "engine", "conform.py"), str(seed), "16"], 400, env)
    for line in reversed(log.splitlines()):
        if line.startswith("{"):
            return dict(ast.literal_eval(line), programs_differing=log[:1500] if rc else "none")
    return {"error": "ended with %s: %s" % (rc, log[-500:])}


def summary(obs):
    """Every obligation by contract (text before ': ' / ' ensures'), clause list capped so that the file stays small; the ones not proved in full."""
    groups = {}
    for o in obs:
        head = o["name"].split(" ensures")[0].split(" requires")[0].split(": ")[0]
        g = groups.setdefault(head, {"contract": head, "obligations": 0, "proved": 0, "backends": {}, "time_s": 0.0, "clauses": []})
        g["obligations"] += 1
        g["proved"] += o["status"] == "proved"
        b = o.get("backend", "")
        g["backends"][b] = g["backends"].get(b, 0) + 1
        g["time_s"] = round(g["time_s"] + (o.get("time") or 0), 3)
        if len(obs) <= 1500:
            g["clauses"].append(o["name"][len(head):][:160])
    out = sorted(groups.values(), key=lambda g: g["contract"])
    for g in out:
        if not g["clauses"]:
            del g["clauses"]
    rest = [{"name": o["name"][:300], "status": o["status"], "detail": o.get("detail", "")[:300]} for o in obs if o["status"] != "proved"][:100]
    return out + ([{"not_proved": rest}] if rest else [])


def brief(o):
    return {"name": o["name"], "status": o["status"], "detail": o.get("detail", "")[:1500], "counterexample": o.get("cex")}


if __name__ == "__main__":
    main()
