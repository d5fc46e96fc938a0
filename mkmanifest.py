"""Writes MANIFEST.json from properties.jsonl."""
import json

NOTE = ("every obligation generated from /repo's current source is discharged for all inputs and histories in real arithmetic "
        "(labels and counts are unbounded integers); rounding, overflow and NaN are outside the proof and only exercised by the bounded run of the "
        "contracts on the real code; trusted: engine/*.py, the numpy contracts in engine/npmodel.py, z3%s")
LEAN = ", Lean 4 + Mathlib and engine/leanprint.py for the lemmas over the contracts"
EXTRA = {
    "C10": "streaming = batch follows from the nine value contracts by the Lean lemma stream_eq_batch",
    "C11": "from the value contracts by stream_rename and batch_rename",
    "C12": "from the value contracts by stream_order and batch_order",
    "C13": "eight refusal contracts per class: every path ends in ValueError and the state and arguments are unchanged",
    "C14": "frame conditions: no caller array is written or reachable from the object afterwards",
    "C15": "separation: no contract run reads or writes state outside the object; with the value contracts, values depend on its own history",
    "C16": "no path raises, results are a single number equal to criterion_value, 0 for one cluster",
    "C17": "the shapes and lengths in the proved state invariants mention only the cluster count and the dimension",
    "C18": "from the value contracts by *_translation and *_unit",
    "C19": "from the value contracts by *_range; 'never NaN' is a statement about machine arithmetic and only exercised by the bounded run",
    "C20": "fixed contracts of the legacy module (engine/compatc.py): Cluster, norm22, cluster_center_update, iCVI",
}


def main():
    props = [json.loads(l) for l in open("properties.jsonl")]
    checks = []
    for p in props:
        i = p["id"]
        note = NOTE % ("" if i == "C20" else LEAN)
        if i in EXTRA:
            note = EXTRA[i] + "; " + note
        elif i <= "C09":
            note = "postcondition criterion_value = definition of _evaluate/get_cvi over an inductive state invariant of _param_inc/_param_batch; " + note
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "contract-based deductive verification of the Python source extracted on every run (symbolic execution against contracts; obligations "
                         "discharged by an algebraic normaliser and z3%s); contracts evaluated on the real code to concretise counterexamples"
                         % ("" if i == "C20" else ", lemmas over the contracts by Lean"),
            "level": "proof", "level_note": note})
    json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
