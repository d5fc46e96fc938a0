"""Lemmas over the contracts, proved by Lean 4 (Mathlib).

The definitions are printed from spec.py by leanprint.py on every run (the same terms the verifier proves the code against);
the proofs are in lean/Lemmas.lean.  A lemma counts as discharged when Lean reports its axioms as the three standard ones.
"""
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
STANDARD = {"propext", "Classical.choice", "Quot.sound"}
INDICES = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
PROPS = {"C01": "CH", "C02": "cSIL", "C03": "DB", "C04": "GD43", "C05": "GD53", "C06": "PS", "C07": "rCIP", "C08": "WB", "C09": "XB"}

# facts the verifier's contexts assume of the ghost statistics (spec.py: stream_ctx, batch_ctx, abs_ctx)
CONTEXT = ["data_k_le", "data_n_pos", "data_n_card", "data_sum_n", "data_sum_s", "data_Q_symm", "CP_nonneg", "SEP_nonneg", "D2_nonneg",
           "Ssil_nonneg", "D2_symm", "D2_diag", "rD_symm", "rD_pos", "sigma_symm", "sigma_posDef", "sigma_sum_det_pos", "sigma_det_pos", "single_ofData"]
# the ghost steps of the streaming contracts and the batch ghost are the statistics of the samples
GHOST = ["reach_inv", "stream_represents", "batch_represents"]
TEXT = {"CH": ["CH_textbook", "CP_is_scatter", "SEP_is_weighted_dist", "v_is_mean", "mu_is_mean"],
        "WB": ["WB_textbook", "CP_is_scatter", "SEP_is_weighted_dist", "v_is_mean", "mu_is_mean"],
        "XB": ["XB_textbook", "CP_is_scatter", "D2_is_dist", "v_is_mean"],
        "DB": ["DB_textbook", "CP_is_scatter", "D2_is_dist", "v_is_mean"],
        "GD43": ["GD43_textbook", "CP_is_scatter", "D2_is_dist", "v_is_mean"],
        "GD53": ["GD53_textbook", "CP_is_scatter", "D53_is_pooled", "v_is_mean"],
        "PS": ["PS_textbook", "beta_textbook", "D2_is_dist", "v_is_mean"],
        "cSIL": ["cSIL_textbook", "Ssil_is_mean", "sil_eq", "v_is_mean"],
        "rCIP": ["rCIP_textbook", "cov_is_covariance", "v_is_mean"]}
NUMB = ["%s_numbering" % i for i in INDICES]


def names(prop):
    out = list(CONTEXT)
    if prop in PROPS:
        out += GHOST + TEXT[PROPS[prop]]
    elif prop == "C10":
        out += GHOST + ["value_of_partition", "stream_eq_batch"] + NUMB
    elif prop == "C11":
        out += GHOST + ["value_of_partition", "stream_rename", "batch_rename"] + NUMB
    elif prop == "C12":
        out += GHOST + ["value_of_partition", "stream_order", "batch_order"] + NUMB
    elif prop == "C18":
        out += GHOST + ["ofData_shift", "ofData_scale", "translation", "change_of_unit"] + NUMB + ["%s_translation" % i for i in INDICES] + [
            "%s_unit" % i for i in INDICES if i not in ("GD43", "rCIP")]
    elif prop == "C19":
        out += GHOST + ["%s_range" % i for i in INDICES]
    elif prop == "C20":
        return []
    return out


def theorem_names(text):
    return re.findall(r"^theorem (\w+)", text, re.M)


class Run:
    """Lean in the background."""

    def __init__(self, wanted):
        self.wanted = wanted
        self.t0 = time.time()
        self.p = None
        self.err = None
        self.dir = tempfile.mkdtemp(prefix="cvi-lean-")
        try:
            import leanprint
            body = open(os.path.join(HERE, "lean", "Lemmas.lean")).read()
            text = leanprint.definitions() + "\n" + body + "\nend\nend CVI\nset_option pp.fullNames true\n" + "".join("#print axioms CVI.%s\n" % n for n in wanted)
            fn = os.path.join(self.dir, "All.lean")
            open(fn, "w").write(text)
            exe = shutil.which("lean")
            if not exe:
                self.err = "lean is not installed"
            else:
                self.fh = open(os.path.join(self.dir, "out"), "w+")
                self.p = subprocess.Popen([exe, fn], stdout=self.fh, stderr=subprocess.STDOUT, cwd=self.dir)
        except Exception as e:      # noqa: BLE001
            self.err = "%s: %s" % (type(e).__name__, e)

    def finish(self, timeout):
        out = ""
        if self.p is not None:
            try:
                self.p.wait(max(5, timeout))
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.err = "lean did not finish in time"
            self.fh.seek(0)
            out = self.fh.read()
            self.fh.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        sec = round(time.time() - self.t0, 2)
        ax = {}
        for m in re.finditer(r"'CVI\.(\w+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out):
            ax[m.group(1)] = set(x.strip() for x in (m.group(3) or "").replace("\n", " ").split(",") if x.strip())
        obs = []
        for i, n in enumerate(self.wanted):
            ok = n in ax and ax[n] <= STANDARD
            obs.append({"name": "lemma %s" % n, "status": "proved" if ok else "unknown", "backend": "Lean 4 / Mathlib" if ok else "", "time": sec if i == 0 else 0.0,
                        "detail": "" if ok else (self.err or ("axioms %s" % sorted(ax[n]) if n in ax else out[:600])), "tag": "lemma", "function": "lemma", "direct": False})
        return obs


ASSUME = ["the Lean kernel and Mathlib; leanprint.py prints the specification terms faithfully (cluster and feature indices as Fin k, Fin d)",
          "np.unique returns the distinct labels in increasing order (the batch ghost numbers clusters that way)"]


def start(prop):
    w = names(prop)
    return Run(w) if w else None


def finish(run, timeout):
    return {"obligations": run.finish(timeout) if run else [], "assumptions": ASSUME if run else []}


if __name__ == "__main__":
    import sys
    for o in Run(names(sys.argv[1])).finish(300):
        print(o["status"], o["name"], o["detail"], o["time"])
