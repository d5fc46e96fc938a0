"""Conformance of the interpreter and of the assumed numpy contracts with CPython and numpy.

python3-vt engine/conform.py [SEED [HISTORIES]]

Small programs over a data matrix X (N x d) and a label vector L are executed symbolically, for all N, d and contents, exactly as
the functions of the repository are; the resulting term is evaluated on sampled data and compared with what CPython returns (or raises)
on the same data.  A program the interpreter refuses ("outside the verifier's reach") is only counted.  A difference means that
the interpreter or an assumed contract is wrong."""
import importlib.util
import itertools
import math
import multiprocessing
import os
import random
import signal
import sys
import tempfile

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as tm  # noqa: E402
import spec  # noqa: E402
import prove  # noqa: E402
import contracts as C  # noqa: E402
from symex import Sc, Plain, Ref, Arr, ListRec, Seq, Rng, Unknown  # noqa: E402
from npmodel import explore  # noqa: E402
from conform_cases import programs  # noqa: E402

CLASH = (KeyError, OverflowError, ZeroDivisionError)


class Skip(Exception):
    pass


def indices(st, ax):
    if isinstance(ax, Plain):
        return [tm.num(i) for i in range(int(st.ev(ax.L)))]
    out = []
    for vs in itertools.product(range(st.bound), repeat=len(ax.bs)):
        if st.ev(tm.subst(ax.guard, {b: tm.num(v) for b, v in zip(ax.bs, vs)})):
            out.append(tuple(tm.num(v) for v in vs))
    return out


def nested(st, axes, rd):
    if not axes:
        return num(st, rd([]))
    ids = [indices(st, a) for a in axes]
    a = np.empty([len(i) for i in ids])
    for pos in itertools.product(*[range(len(i)) for i in ids]):
        a[pos] = num(st, rd([ids[q][p] for q, p in enumerate(pos)]))
    return a


def num(st, t):
    v = st.ev(t)
    return float("nan") if isinstance(v, complex) else float(v)


def value(it, st, v):
    """The symbolic value on a structure: numbers, arrays (as arrays), lists and tuples (as lists)."""
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, int, float)):
        return float(v)
    if isinstance(v, Sc):
        return num(st, v.t)
    if isinstance(v, Arr):
        if not v.axes:
            return num(st, it.reader(v)([]))
        return nested(st, v.axes, it.reader(v))
    if isinstance(v, tuple):
        return [value(it, st, x) for x in v]
    if isinstance(v, Ref) and isinstance(it.rec(v), ListRec):
        r = it.rec(v)
        if r.items is not None:
            return [value(it, st, x) for x in r.items]
        ids = indices(st, r.axis)
        if r.elem == "sc":
            return [num(st, r.content(i)) for i in ids]
        return [nested(st, r.elem[1], (lambda i: (lambda idx: r.content(i, idx)))(i)) for i in ids]
    raise Skip("value of type %s" % type(v).__name__)


def same(a, b):
    """a: symbolic side, b: CPython side."""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or a == b
    if isinstance(b, (list, tuple)) and not isinstance(a, np.ndarray):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        raise Skip("dict")
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= 1e-7 * (1 + np.abs(a) + np.abs(b))) | ~np.isfinite(b) | ~np.isfinite(a)))


def load(progs):
    src = "import itertools, math\nimport numpy as np\n\n"
    for k, body in enumerate(progs):
        src += "\ndef p%d(X, L):\n%s\n" % (k, "\n".join("    " + line for line in body.splitlines()))
    d = tempfile.mkdtemp(prefix="conform")
    path = os.path.join(d, "conform_programs.py")
    with open(path, "w") as fh:
        fh.write(src)
    sp = importlib.util.spec_from_file_location("conform_programs", path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m, d


def run_one(fn, hists):
    """-> (status, text): same / differs / refused / unused"""
    envs = {}

    def make():
        it = C.machine(spec.batch_ctx([]))
        envs[id(it)] = C.batch_args(it)
        keep.append(it)
        return it
    keep = []
    errors = []
    try:
        paths = explore(make, lambda it: it.call_function(fn, list(envs[id(it)]), {}), 40, errors)
    except C.Unsupported as e:
        return "refused", str(e)
    except RecursionError:
        return "refused", "recursion"
    except (AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError) as e:   # counted like a refusal (contracts.run_case)
        return "refused", "not modelled: %s %s" % (type(e).__name__, e)
    if errors:
        return "refused", errors[0]
    used = 0
    for h in hists:
        st = h.struct()
        Xc, Lc = h.X.copy(), np.array(h.labels)
        try:
            with np.errstate(all="ignore"):
                want, exc = fn(Xc, Lc), None
        except Exception as e:  # noqa: BLE001
            want, exc = None, e
        for p in paths:
            it = p.it
            try:
                if not all(st.ev(f) for f in it.ctx.facts if not (f.fv - frozenset(st.vals) - frozenset([tm.PI, tm.INF]))):
                    continue
                if any(f.fv - frozenset(st.vals) - frozenset([tm.PI, tm.INF]) for f in it.ctx.facts):
                    continue
                safe = all(st.ev(g) for _, g, cx, _ in it.safety if not (g.fv - frozenset(st.vals) - frozenset([tm.PI, tm.INF])))
                used += 1
                where = "N=%d d=%d X=%s L=%s" % (h.N, h.d, h.X.round(3).tolist(), h.labels)
                if p.kind == "raise":
                    if exc is None:
                        return "differs", "model raises %s, CPython returns %r; %s" % (p.value, want, where)
                    if not isinstance(exc, p.value.cls):
                        return "differs", "model raises %s, CPython raises %r; %s" % (p.value, exc, where)
                    continue
                if p.kind == "foreign":
                    continue
                if not safe:
                    continue          # a safety obligation is false here: the property check reports it
                if exc is not None:
                    return "differs", "model returns with every safety condition true, CPython raises %r; %s" % (exc, where)
                try:
                    got = value(it, st, p.value)
                except CLASH:
                    continue
                if not same(got, want):
                    return "differs", "model %r, CPython %r; %s" % (got, want, where)
                for sym, real in zip(envs[id(it)], (Xc, Lc)):
                    if not same(nested(st, sym.axes, it.reader(sym)), real):
                        return "differs", "argument contents afterwards: CPython %r; %s" % (real, where)
            except Skip as e:
                return "refused", "result not comparable: %s" % e
            except CLASH:
                continue
    return ("same" if used else "unused"), ""


_JOB = None


def _one(k):
    signal.alarm(60)
    try:
        return run_one(getattr(_JOB[0], "p%d" % k), _JOB[1])
    except Late:
        return "refused", "time"
    finally:
        signal.alarm(0)


class Late(Exception):
    pass


def _late(*_):
    raise Late()


signal.signal(signal.SIGALRM, _late)


def main(seed=1, count=12, verbose=True, only=None, jobs=6):
    rnd = random.Random(seed)
    hists = []
    while len(hists) < count:
        h = spec.random_history(rnd)
        h = spec.History(h.X, h.labels, by="label")
        if h.N <= 8:
            hists.append(h)
    progs = programs()
    if only is not None:
        progs = [p for p in progs if only in p]
    m, d = load(progs)
    res = {"same": 0, "refused": 0, "unused": 0, "differs": 0}
    bad, refused = [], []
    global _JOB
    _JOB = (m, hists)
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        outs = pool.map(_one, range(len(progs)), chunksize=8)
    for body, (s, text) in zip(progs, outs):
        res[s] += 1
        if s == "differs":
            bad.append((body, text))
        elif s != "same":
            refused.append((body, s, text))
    import shutil
    shutil.rmtree(d)
    if verbose:
        for b, t in bad:
            print("DIFFERS\n    %s\n  %s" % (b.replace("\n", "\n    "), t[:400]))
        if "-v" in sys.argv:
            for b, s, t in refused:
                print("%s: %s   [%s]" % (s, b.replace("\n", "; ")[:110], t[:110]))
        print(res)
    return res, bad


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x.isdigit()]
    o = [x for x in sys.argv[1:] if not x.isdigit() and x != "-v"]
    r, b = main(int(a[0]) if a else 1, int(a[1]) if len(a) > 1 else 12, only=o[0] if o else None)
    sys.exit(1 if b else 0)
