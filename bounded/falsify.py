"""Run-time evaluation of the contracts on the real code in /repo/src.

Two uses: (1) replaying / concretising a refuted proof obligation, (2) the labelled *bounded*
stand-in for a function the verifier cannot reach.  Only the public API is used, so the
judgement does not depend on how the code is written.
"""
import argparse
import ast
import copy
import functools
import gc
import glob
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import types
import warnings
from collections.abc import Iterator

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vp-nopyc-%d" % os.getpid())
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402
import oracle  # noqa: E402

warnings.simplefilter("ignore")

NAMES = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
PROP_CLASSES = {"C01": ["CH"], "C02": ["cSIL"], "C03": ["DB"], "C04": ["GD43"], "C05": ["GD53"],
                "C06": ["PS"], "C07": ["rCIP"], "C08": ["WB"], "C09": ["XB"]}
SCALE_FREE = ["CH", "cSIL", "DB", "GD53", "PS", "WB", "XB"]
NONNEG = ["CH", "DB", "GD43", "GD53", "rCIP", "WB", "XB"]


def get_cls(name):
    import cvi
    return getattr(cvi, name)


# ------------------------------------------------------------------ cases

class Case:
    def __init__(self, X, labels, note=""):
        self.X = X
        self.labels = labels
        self.note = note

    def dump(self):
        return {"X": np.asarray(self.X).tolist(), "dtype": str(np.asarray(self.X).dtype),
                "labels": [int(l) for l in self.labels], "label_type": type(self.labels[0]).__name__,
                "note": self.note}

    @staticmethod
    def load(d):
        mk = {"int": int, "bool": bool}.get(d.get("label_type", "int"))
        if mk is None:
            mk = getattr(np, d["label_type"], int)
        return Case(np.array(d["X"], dtype=d.get("dtype", "float64")), [mk(l) for l in d["labels"]], d.get("note", ""))


# integer constants of the pinned tree; others are new and tried first
OLD_INTS = frozenset((10, 12))
OLD_FLOATS = frozenset()


def const_value(node):
    """Value of an expression built from integer literals only, else None."""
    if isinstance(node, ast.Constant) and type(node.value) is int:
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        v = const_value(node.operand)
        return None if v is None else -v
    if isinstance(node, ast.BinOp):
        x, y = const_value(node.left), const_value(node.right)
        if x is None or y is None:
            return None
        try:
            if isinstance(node.op, ast.Add):
                return x + y
            if isinstance(node.op, ast.Sub):
                return x - y
            if isinstance(node.op, ast.Mult):
                return x * y
            if isinstance(node.op, ast.FloorDiv):
                return x // y
            if isinstance(node.op, ast.Pow) and 0 <= y <= 64:
                return x ** y
            if isinstance(node.op, ast.LShift) and 0 <= y <= 64:
                return x << y
        except (ArithmeticError, ValueError):
            return None
    return None


WIDTHS = {"int8": 2 ** 7, "uint8": 2 ** 8, "byte": 2 ** 7, "ubyte": 2 ** 8, "int16": 2 ** 15, "uint16": 2 ** 16, "short": 2 ** 15, "ushort": 2 ** 16,
          "i1": 2 ** 7, "u1": 2 ** 8, "i2": 2 ** 15, "u2": 2 ** 16, "float16": 2 ** 11, "half": 2 ** 11, "f2": 2 ** 11}


def source_constants():
    ints, floats = set(), set()
    for p in glob.glob(os.path.join(REPO, "src", "cvi", "**", "*.py"), recursive=True):
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except (SyntaxError, OSError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) is float:
                floats.add(node.value)
                if node.value.is_integer() and abs(node.value) < 1e6:
                    ints.add(int(node.value))
            v = const_value(node)
            if v is not None:
                ints.add(v)
            w = node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else node.value if isinstance(node, ast.Constant) else None
            if isinstance(w, str) and w in WIDTHS:      # a narrow integer type: sizes past its largest value
                ints.add(WIDTHS[w])
    return (sorted(c for c in ints if abs(c) > 2 and c not in (43, 53)),
            sorted(c for c in floats if c not in (0.0, 12.0, 10.0, 0.5, -0.5, 1.0)))


def big_case(rng, what, c):
    """A history that goes past a size c in one respect: samples, cluster size, clusters or dimension."""
    d = int(rng.choice([1, 2, 3]))
    if what == "N":
        n = c + 6
        k = int(rng.choice([2, 3]))
        internal = [t % k for t in range(n)]
        if rng.random() < 0.4:                     # sorted by cluster, the first one past the size
            internal = [0] * (c + 3) + [1, 1] + ([2] if k == 3 else [1])
            n = len(internal)
        X = rng.normal(size=(n, d)) + 3.0 * np.array(internal)[:, None]
        X[n // 2:] += rng.normal(size=d) * 2       # the later samples come from somewhere else
        if rng.random() < 0.5:
            X[c:] += 4.0
    elif what == "n_i":
        n = c + 14
        internal = relabel_first([0, 1, 0, 1, 2, 1] + [0] * c + [int(x) for x in rng.integers(0, 3, size=8)])
        n = len(internal)
        X = rng.normal(size=(n, d)) + 3.0 * np.array(internal)[:, None]
        X[n // 2:] += 1.5
        X[c:] += 2.0
    elif what == "k":
        k = c + 3
        perm = rng.permutation(k) if rng.random() < 0.3 else np.arange(k)
        internal = [int(x) for x in perm] + [int(x) for x in rng.integers(0, k, size=6)] + [k - 1, k - 2, k - 1, k - 2, 0, k - 1]
        internal = relabel_first(internal)
        n = len(internal)
        X = rng.normal(size=(n, d)) * 0.3 + 7.0 * np.array(internal)[:, None]
        for t in range(n):                         # the last two clusters are each other's nearest
            if internal[t] == k - 1:
                X[t] -= 5.0
    else:
        d = c + 1
        n = int(rng.integers(8, 20))
        internal = rand_partition(rng, n, 3, "rand")
        X = rng.normal(size=(n, d)) + 2.0 * np.array(internal)[:, None]
    return Case(X, name_labels(internal, LABEL_STYLES[int(rng.integers(0, len(LABEL_STYLES)))], rng), "past %s=%d" % (what, c))


def big_cases(rng, ints, part, parts, light):
    """Large histories: sizes around the constants that are new in the source, then fixed ones."""
    new = [abs(c) for c in ints if c not in OLD_INTS]
    top = {"N": 3000 if light else 70000, "n_i": 3000 if light else 70000, "k": 150 if light else 400, "d": 60 if light else 150}
    todo = [(w, c) for c in sorted(set(new))[:12] for w in ("k", "N", "n_i", "d") if c <= top[w]]
    fixed = [("N", 1200 if light else 5000), ("k", 80), ("d", 40), ("n_i", 1100 if light else 2500), ("k", 300 if not light else 100), ("N", 700), ("d", 20), ("n_i", 300)]
    for q, (w, c) in enumerate(todo):
        if q % parts == part or len(todo) < parts:
            for r in range(2):
                yield big_case(rng, w, c)
    yield big_case(rng, *fixed[part % len(fixed)])
    for w, c in todo:
        yield big_case(rng, w, c)


LABEL_STYLES = ["zero", "np", "gap", "neg", "huge", "shuf", "np32", "wide", "mirror", "mixed"]


def name_labels(internal, style, rng, special=()):
    k = max(internal) + 1
    if style in ("zero", "np", "np32"):
        names = list(range(k))
        if rng.random() < 0.5:
            rng.shuffle(names)
    elif style == "gap":
        names = [int(x) for x in rng.choice(np.arange(1, 12 * k + 3), size=k, replace=False)]
    elif style == "neg":
        names = [int(x) for x in rng.choice(np.arange(-6 * k - 3, 6 * k + 3), size=k, replace=False)]
    elif style == "huge":
        names = [int(x) for x in rng.integers(10 ** 9, 10 ** 15, size=k)]
        if len(set(names)) < k:
            names = [10 ** 12 + i for i in range(k)]
    elif style == "mirror":
        m = int(rng.integers(1, 50))
        names = [(m + i // 2) * (1 if i % 2 else -1) for i in range(k)]
    elif style == "wide":
        # distinct labels that fall together when narrowed to a smaller integer or a float
        how = int(rng.integers(0, 5))
        step = (2 ** 32, 2 ** 16, 2 ** 8, 2 ** 48, 1)[how]
        b0 = int(rng.integers(-3, 4)) if how < 4 else (2 ** 53, -2 ** 53 - k, 2 ** 62, -2 ** 63, 2 ** 63 - k)[int(rng.integers(0, 5))]
        names = [b0 + step * i for i in range(k)]
        if how == 3 and k > 2 ** 14:
            names = [b0 + i for i in range(k)]
        rng.shuffle(names)
    else:
        names = list(range(1, k + 1))
        rng.shuffle(names)
    for s in special:
        if s not in names:
            names[int(rng.integers(0, k))] = int(s)
    if style == "mixed" and max(abs(x) for x in names) < 30000:       # the same label arrives as different integer types
        kinds = (int, np.int64, np.int32, int, np.int16)
        return [kinds[int(rng.integers(0, 5))](names[i]) for i in internal]
    mk = np.int64 if style == "np" else (np.int32 if style == "np32" else int)
    return [mk(names[i]) for i in internal]


def rand_partition(rng, n, k, style):
    k = min(k, n)
    if style == "runs":
        cuts = sorted(rng.choice(np.arange(1, n), size=k - 1, replace=False)) if k > 1 else []
        out, c = [], 0
        for t in range(n):
            if c < len(cuts) and t >= cuts[c]:
                c += 1
            out.append(c)
        return out
    if style == "first":
        return list(range(k)) + [int(x) for x in rng.integers(0, k, size=n - k)]
    if style == "one_big":
        out = [0] * n
        for c in range(1, k):
            out[int(rng.integers(0, n))] = c
        return relabel_first(out)
    if style == "last_single":
        out = [int(x) for x in rng.integers(0, max(1, k - 1), size=n)]
        out[-1] = k - 1
        return relabel_first(out)
    return relabel_first([int(x) for x in rng.integers(0, k, size=n)])


def relabel_first(seq):
    m = {}
    return [m.setdefault(s, len(m)) for s in seq]


def rand_data(rng, n, d, internal, style):
    if style == "int":
        X = rng.integers(-4, 5, size=(n, d)).astype(float)
    elif style == "int64":
        X = rng.integers(-9, 10, size=(n, d))
    elif style == "narrow":
        # integer types in which sums of squares overflow
        dt, lo, hi = [(np.uint8, 0, 256), (np.int8, -128, 128), (np.int16, -30000, 30001), (np.uint16, 0, 60000), (np.int32, -2 ** 31, 2 ** 31),
                      (np.int64, -2 ** 36, 2 ** 36), (np.uint8, 100, 140)][int(rng.integers(0, 7))]
        X = rng.integers(lo, hi, size=(n, d)).astype(dt)
    elif style == "single":
        # exactly representable in the narrow float type, whose precision is not enough for the statistics
        dt, off = [(np.float32, (0.0, 300.0, 2e4, 1e6)), (np.float16, (0.0, 40.0, 600.0))][int(rng.integers(0, 2))]
        X = (rng.normal(size=(n, d)) * 3 + rng.choice(off)).astype(dt)
    elif style == "offset":
        X = rng.normal(size=(n, d)) * 2 + rng.choice([-50.0, 7.0, 30.0, 300.0])
    elif style == "small":
        X = rng.normal(size=(n, d)) * 1e-3
    elif style == "large":
        X = rng.normal(size=(n, d)) * 1e4
    elif style == "clust":
        k = max(internal) + 1
        cen = rng.normal(size=(k, d)) * 5
        X = cen[internal] + rng.normal(size=(n, d)) * rng.choice([0.05, 0.5, 2.0])
    elif style == "zeros":
        X = rng.normal(size=(n, d))
        X[rng.random(n) < 0.4] = 0.0
        if d > 1 and rng.random() < 0.5:
            X[:, int(rng.integers(0, d))] = 0.0
    elif style == "dups":
        base = rng.normal(size=(max(2, n // 2), d)).round(1)
        X = base[rng.integers(0, len(base), size=n)]
    elif style == "coinc":
        # every point is followed by its mirror image in the same cluster; several clusters share one centre
        cen = rng.integers(-3, 4, size=(2, d)).astype(float)
        X = np.zeros((n, d))
        k = max(internal) + 1
        for c in range(k):
            idx = [t for t in range(n) if internal[t] == c]
            m = cen[c % 2 if rng.random() < 0.8 else 1]
            for q in range(0, len(idx), 2):
                u = rng.integers(0, 5, size=d).astype(float) if q + 1 < len(idx) else np.zeros(d)
                X[idx[q]] = m + u
                if q + 1 < len(idx):
                    X[idx[q + 1]] = m - u
    elif style == "giant":
        X = rng.normal(size=(n, d)) * 10.0 ** float(rng.integers(100, 306))
    elif style == "nearcoinc":
        # cluster means that differ only far behind the leading digits of the data
        X = np.zeros((n, d))
        off = rng.choice([0.7, 31.3, -250.9]) + rng.random(size=d)
        for c in range(max(internal) + 1):
            idx = [t for t in range(n) if internal[t] == c]
            m = off + rng.normal(size=d) * np.abs(off).max() * 10.0 ** -float(rng.integers(5, 10))
            for q in range(0, len(idx), 2):
                u = rng.normal(size=d) if q + 1 < len(idx) else np.zeros(d)
                X[idx[q]] = m + u
                if q + 1 < len(idx):
                    X[idx[q + 1]] = m - u
    elif style == "pos":
        X = rng.random(size=(n, d))
    elif style == "samecen":
        # two clusters with (nearly) equal size, one with tiny scatter
        X = rng.normal(size=(n, d)) * np.array([[0.01, 3.0][i % 2] for i in internal])[:, None]
    else:
        X = rng.normal(size=(n, d))
    layout = rng.random()
    if X.dtype == float and layout < 0.15:
        X = np.asfortranarray(X)
    elif X.dtype == float and layout < 0.3:
        Z = np.zeros((n, 2 * d))
        Z[:, ::2] = X
        X = Z[:, ::2]
    return X


DATA_STYLES = ["normal", "normal", "clust", "clust", "int", "int64", "offset", "small", "large", "zeros", "dups", "pos",
               "samecen", "coinc", "narrow", "single"]
PART_STYLES = ["rand", "rand", "runs", "first", "one_big", "last_single"]


def growth_strings(n):
    def rec(prefix, m):
        if len(prefix) == n:
            yield list(prefix)
            return
        for c in range(m + 1):
            yield from rec(prefix + [c], max(m, c + 1))
    yield from rec([0], 1)


def systematic(rng, part, parts):
    """Every label history (up to renaming) of length <= 6 over generic data, d in 1..3."""
    cnt = 0
    for n in (2, 3, 4, 5, 6):
        for g in growth_strings(n):
            for d in (1, 2, 3):
                if n == 6 and d != 2:
                    continue
                cnt += 1
                if cnt % parts != part:
                    continue
                X = rng.normal(size=(n, d)) * 2 + (3.0 if cnt % 2 else 0.0)
                yield Case(X, name_labels(g, LABEL_STYLES[cnt % len(LABEL_STYLES)], rng), "systematic")


def random_cases(rng, ints, floats, hints, styles=DATA_STYLES):
    sp_small = [c for c in ints if 1 <= abs(c) <= 48]
    turn = 0
    while True:
        turn += 1
        d = int(rng.choice([1, 2, 2, 3, 4, 5, 8, 13]))
        k = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 12]))
        n = int(rng.integers(max(2, k), max(2, k) + int(rng.choice([3, 8, 20, 40])) + 1))
        special_lab, big = (), None
        note = "random"
        soft = [h for h in hints if "X" not in h]
        if soft and turn % 3 == 1:
            h = soft[int(rng.integers(0, len(soft)))]
            d = int(min(max(h.get("d", d), 1), 64))
            k = int(min(max(h.get("k", k), 1), 60))
            n = int(min(max(h.get("N", n), k), 5000))
            big = h.get("n_i")
            if "label" in h:
                special_lab = (h["label"],)
            note = "hint"
        elif (ints or floats) and turn % 3 == 2:
            which = int(rng.integers(0, 6))
            c = abs(int(rng.choice(ints))) if ints else 3
            c2 = max(1, c + int(rng.integers(-1, 2)))
            note = "const%d:%d" % (which, c)
            if which == 0 and c2 <= 48:
                k = c2
                n = k + int(rng.integers(0, 12))
            elif which == 1 and c2 <= 48:
                d = c2
            elif which == 2 and c2 <= 4000:
                big = c2
            elif which == 3 and c2 <= 4000:
                n = max(n, c2 + 2)
            elif which == 4 and ints:
                special_lab = (int(rng.choice(ints)),)
            elif sp_small:
                k = min(20, max(2, k))
        internal = rand_partition(rng, n, k, PART_STYLES[int(rng.integers(0, len(PART_STYLES)))])
        if big is not None and 1 <= big <= 4000:
            extra = [0] * int(big)
            internal = relabel_first((internal[: min(len(internal), 12)] + extra + internal[:3])
                                     if rng.random() < 0.5 else (extra + internal[: min(len(internal), 12)]))
        style = LABEL_STYLES[int(rng.integers(0, len(LABEL_STYLES)))]
        labels = name_labels(internal, style, rng, special_lab)
        X = rand_data(rng, len(internal), d, internal, styles[int(rng.integers(0, len(styles)))])
        if floats and X.dtype == float and rng.random() < 0.25:
            X = np.array(X)
            m = rng.random(X.shape) < 0.2
            X[m] = float(rng.choice(floats)) * (1 if rng.random() < 0.5 else -1)
        mid = [c for c in floats if 1e-60 < abs(c) < 1e60 and c not in OLD_FLOATS]
        if mid and X.dtype == float and rng.random() < 0.3:
            c = abs(float(rng.choice(mid)))
            c = c if rng.random() < 0.5 else c ** 0.5         # lengths or squared lengths
            f = c / max(1e-30, float(np.quantile(np.abs(X), rng.random()))) * float(rng.choice([0.3, 1.0, 3.0, 30.0]))
            if 1e-40 < f < 1e40:
                X = np.array(X) * f
                note = "scaled"
        if ints and note != "scaled" and X.dtype in (float, np.int64) and rng.random() < 0.1:
            X = np.array(X)
            m = rng.random(X.shape) < 0.15
            X[m] = int(rng.choice(ints))
        yield Case(X, labels, note)


def hint_cases(rng, hints):
    """The histories of the verifier's counterexamples, as given and continued by further samples."""
    for h in hints:
        if "X" not in h:
            continue
        X = np.array(h["X"], dtype=float)
        L = [int(l) for l in h["labels"]]
        yield Case(X, L, "counterexample")
        d = X.shape[1]
        for r in range(4):
            m = int(rng.integers(1, 7))
            new = max(L) + 1
            pool = sorted(set(L)) + [new, new + 1]
            L2 = L + [int(rng.choice(pool)) for _ in range(m)]
            X2 = np.vstack([X, rng.normal(size=(m, d)) * (1 + np.abs(X).max() / 3)])
            yield Case(X2, L2, "counterexample+continuation")
            if r == 0 and len(L) > 1:
                p = rng.permutation(len(L2))
                yield Case(X2[p], [L2[int(t)] for t in p], "counterexample+permuted")


def prefixes(n, labels):
    if n <= 40:
        return list(range(1, n + 1))
    pts = {1, 2, 3, n, n - 1, n - 2, n - 3}
    pts.update(range(n - 14, n + 1))
    pts.update(int(x) for x in np.linspace(1, n, 12))
    return sorted(p for p in pts if 1 <= p <= n)


class Fail(Exception):
    def __init__(self, what, **kw):
        Exception.__init__(self, what)
        self.what = what
        self.kw = kw


def num(v):
    """A criterion value as a float; anything that is not a single number is itself a failure."""
    try:
        return float(v)
    except (TypeError, ValueError):
        raise Fail("a value is not a single number", got=repr(v)[:200])


def differs(a, b, tol):
    a, b = num(a), num(b)
    if np.isnan(a) or np.isnan(b) or np.isinf(a) or np.isinf(b):
        return not ((np.isnan(a) and np.isnan(b)) or a == b)
    return abs(a - b) > tol


def batch_value(name, X, labels, dtype=None):
    return get_cls(name)().get_cvi(X, np.array(labels) if dtype is None else np.array(labels, dtype=dtype))


def stream_values(name, X, labels):
    obj = get_cls(name)()
    return [obj.get_cvi(X[t], labels[t]) for t in range(len(labels))]


def guard(fn, what, **kw):
    try:
        return fn()
    except Fail:
        raise
    except np.linalg.LinAlgError as e:
        if SMALL[0] or (what.split()[0].rstrip(":") in NAMES and not what.startswith("rCIP")):
            raise Fail("%s raised LinAlgError: %s" % (what, str(e)[:200]), **kw)
        raise Skip()         # covariances singular to working precision: the known finding rcip-singular, and nothing else raises LinAlgError
    except Exception as e:  # noqa: BLE001 - any exception is an observable outcome
        raise Fail("%s raised %s: %s" % (what, type(e).__name__, str(e)[:200]), **kw)


class Skip(Exception):
    pass


class Late(BaseException):
    """A case took too much CPU time, or the budget of the worker is over."""


CASE_CPU_S = 20.0


def late(*_):
    raise Late()


SMALL = [False]      # the regularised covariances of the present case are invertible in double precision


def base(fn):
    """Reference run of a relational contract: if it raises there is nothing to compare with."""
    try:
        return fn()
    except Exception:  # noqa: BLE001
        raise Skip()


# ------------------------------------------------------------------ property contracts at run time

def check_definition(name, case, rng):
    X, labels = case.X, case.labels
    n = len(labels)
    vals = guard(lambda: stream_values(name, X, labels), "%s stream" % name)
    for p in prefixes(n, labels):
        want, tol = oracle.value(name, X[:p], labels[:p], perturb=2)
        if len(set(int(l) for l in labels[:p])) < 2:
            if differs(vals[p - 1], 0.0, 0.0):
                raise Fail("%s stream: one cluster so far, value must be 0" % name, prefix=p, got=float(vals[p - 1]))
            continue
        if np.isnan(want) or np.isinf(want):
            continue
        if differs(vals[p - 1], want, tol + 1e-300):
            raise Fail("%s stream value differs from its definition" % name, prefix=p, got=float(vals[p - 1]), want=want,
                       tol=tol)
    if len(set(int(l) for l in labels)) >= 2:
        got = guard(lambda: batch_value(name, X, labels), "%s batch" % name)
        want, tol = oracle.value(name, X, labels, perturb=3)
        if not (np.isnan(want) or np.isinf(want)) and differs(got, want, tol + 1e-300):
            raise Fail("%s batch value differs from its definition" % name, got=float(got), want=want, tol=tol)


def rel_tol(name, X, labels):
    v, tol = oracle.value(name, X, labels, perturb=3)
    return v, 2 * tol + 1e-300


def usable(name, X, labels):
    v, tol = rel_tol(name, X, labels)
    return (not np.isnan(v) and not np.isinf(v)), tol


def pair_tol(a, b, tol):
    a, b = num(a), num(b)
    if np.isfinite(a) and np.isfinite(b):
        return tol + 1e-8 * max(abs(a), abs(b))
    return tol


def check_equiv(name, case, rng):
    X, labels = case.X, case.labels
    n = len(labels)
    try:
        vals = guard(lambda: stream_values(name, X, labels), "%s stream" % name)
    except Fail:
        if len(set(int(l) for l in labels)) >= 2:
            base(lambda: batch_value(name, X, labels))
            raise
        raise Skip()
    pts = [p for p in prefixes(n, labels)]
    if len(pts) > 14:
        pts = sorted(set(pts[-6:]) | set(int(x) for x in rng.choice(pts, size=8)))
    for p in pts:
        if len(set(int(l) for l in labels[:p])) < 2:
            continue
        ok, tol = usable(name, X[:p], labels[:p])
        if not ok:
            continue
        got = guard(lambda: batch_value(name, X[:p], labels[:p]), "%s batch" % name)
        if differs(got, vals[p - 1], pair_tol(got, vals[p - 1], tol)):
            raise Fail("%s: streaming and batch values disagree" % name, prefix=p, stream=float(vals[p - 1]), batch=float(got))


def check_labels(name, case, rng):
    X, labels = case.X, case.labels
    internal = relabel_first([int(l) for l in labels])
    k = max(internal) + 1
    ren = name_labels(internal, LABEL_STYLES[int(rng.integers(0, len(LABEL_STYLES)))], rng)
    plain = [int(x) for x in internal]
    a = base(lambda: stream_values(name, X, plain))
    b = guard(lambda: stream_values(name, X, labels), "%s stream" % name)
    c = guard(lambda: stream_values(name, X, ren), "%s stream" % name)
    more = []
    if rng.random() < 0.2:
        big = [2 ** 70 + (2 ** 64 if i % 2 else 1) * i for i in internal]
        more.append((guard(lambda: stream_values(name, X, big), "%s stream" % name), big))
    for p in prefixes(len(labels), labels):
        ok, tol = usable(name, X[:p], labels[:p])
        if not ok:
            continue
        for other, nm in [(b, labels), (c, ren)] + more:
            if differs(a[p - 1], other[p - 1], pair_tol(a[p - 1], other[p - 1], tol)):
                raise Fail("%s: streaming value changes when labels are renamed" % name, prefix=p, a=float(a[p - 1]),
                           b=float(other[p - 1]), relabelled=[int(x) for x in nm])
    if k >= 2:
        ok, tol = usable(name, X, labels)
        if ok:
            va = base(lambda: batch_value(name, X, plain))
            for nm in (labels, ren):
                vb = guard(lambda: batch_value(name, X, nm), "%s batch" % name)
                if differs(va, vb, pair_tol(va, vb, tol)):
                    raise Fail("%s: batch value changes when labels are renamed" % name, a=float(va), b=float(vb),
                               relabelled=[int(x) for x in nm])


def check_order(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n = len(labels)
    ok, tol = usable(name, X, labels)
    if not ok or len(set(int(l) for l in labels)) < 2:
        return
    perms = [rng.permutation(n), np.arange(n)[::-1], np.argsort([int(l) for l in labels], kind="stable")]
    a = base(lambda: stream_values(name, X, labels))[-1]
    va = base(lambda: batch_value(name, X, labels))
    for p in perms:
        L2 = [labels[t] for t in p]
        b = guard(lambda: stream_values(name, X[p], L2), "%s stream" % name)[-1]
        if differs(a, b, pair_tol(a, b, tol)):
            raise Fail("%s: final streaming value depends on sample order" % name, a=float(a), b=float(b), order=[int(t) for t in p])
        vb = guard(lambda: batch_value(name, X[p], L2), "%s batch" % name)
        if differs(va, vb, pair_tol(va, vb, tol)):
            raise Fail("%s: batch value depends on sample order" % name, a=float(va), b=float(vb), order=[int(t) for t in p])


def deep(o, seen=None, depth=0):
    """A comparable snapshot of a value (public behaviour only needs equality of this)."""
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return ("dict", tuple(sorted((repr(k), deep(v)) for k, v in o.items())))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(deep(v) for v in o))
    if isinstance(o, set):
        return ("set", tuple(sorted(repr(v) for v in o)))
    if hasattr(o, "__dict__") and not callable(o):
        return ("obj", type(o).__name__, deep(vars(o)))
    return ("val", repr(o))


def check_refuse(name, case, rng):
    X, labels = np.asarray(case.X, dtype=float), case.labels
    n, d = X.shape
    two = len(set(int(l) for l in labels)) >= 2
    cls = get_cls(name)

    def must_refuse(obj, data, lab, what):
        before = deep(obj)
        try:
            r = obj.get_cvi(data, lab)
        except ValueError:
            pass
        except Exception as e:  # noqa: BLE001
            raise Fail("%s: %s raised %s instead of ValueError" % (name, what, type(e).__name__))
        else:
            raise Fail("%s: %s was accepted and returned %r" % (name, what, r))
        if deep(obj) != before:
            raise Fail("%s: %s was refused but the object changed" % (name, what))

    bad_rank = [(np.zeros((2,) * r), 0, "%d-dimensional data" % r) for r in (3, 4)] + [(np.array(1.5), 0, "0-dimensional data")]
    one = np.full(n, int(labels[0]))
    # fresh
    obj = cls()
    for data, lab, what in bad_rank:
        must_refuse(obj, data, lab, what + " on a fresh object")
    must_refuse(obj, X, one, "a batch with one unique label")
    must_refuse(obj, X[:1], np.array([int(labels[0])]), "a one-sample batch")
    # the refused calls must not have left traces
    ref = base(lambda: stream_values(name, X, labels))
    for t in range(n):
        v = guard(lambda: obj.get_cvi(X[t], labels[t]), "%s stream after refused calls" % name)
        if differs(v, ref[t], 0.0):
            raise Fail("%s: streaming after refused calls differs from a fresh object" % name, step=t)
        if t in (0, n // 2, n - 1):
            for data, lab, what in bad_rank:
                must_refuse(obj, data, lab, what + " in streaming mode")
            if two:
                must_refuse(obj, X, np.array(labels), "a batch on an object used for streaming")
    if two:
        obj = cls()
        must_refuse(obj, X, one, "a batch with one unique label")
        want = base(lambda: batch_value(name, X, labels))
        v0 = guard(lambda: obj.get_cvi(X, np.array(labels)), "%s batch" % name)
        if differs(v0, want, 0.0):
            raise Fail("%s: batch after a refused batch differs from a fresh object" % name)
        for data, lab, what in bad_rank:
            must_refuse(obj, data, lab, what + " in batch mode")
        must_refuse(obj, X, np.array(labels), "a second batch")
        must_refuse(obj, X[0], labels[0], "a single sample after a batch")
        must_refuse(obj, X[-1], int(max(int(l) for l in labels)) + 1, "a single new-label sample after a batch")


def check_inputs(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n, d = X.shape
    ref = base(lambda: stream_values(name, X.copy(), labels))
    # (a) arguments are not written: read-only views and copies
    ro = X.copy()
    ro.setflags(write=False)
    got = guard(lambda: stream_values(name, ro, labels), "%s stream on read-only samples" % name)
    for t in range(n):
        if differs(ref[t], got[t], 0.0):
            raise Fail("%s: value differs on read-only samples" % name, step=t)
    keep = X.copy()
    obj = get_cls(name)()
    buf = np.zeros(d, dtype=X.dtype)
    rows = [keep[t].copy() for t in range(n)]
    for t in range(n):
        buf[:] = keep[t]
        v = guard(lambda: obj.get_cvi(buf, labels[t]), "%s stream" % name)
        if not np.array_equal(buf, keep[t]):
            raise Fail("%s: the sample passed in was modified" % name, step=t)
        if differs(v, ref[t], 0.0):
            raise Fail("%s: reusing the sample buffer changes later values (argument retained)" % name, step=t, got=float(v),
                       want=float(ref[t]))
        buf[:] = np.array(-77).astype(buf.dtype)
    # (b) returned values: mutating every row after the call
    obj = get_cls(name)()
    for t in range(n):
        v = guard(lambda: obj.get_cvi(rows[t], labels[t]), "%s stream" % name)
        if differs(v, ref[t], 0.0):
            raise Fail("%s: modifying an earlier sample array changes later values" % name, step=t)
        rows[t][:] = np.array(1234).astype(X.dtype)
    if len(set(int(l) for l in labels)) >= 2:
        L = np.array(labels)
        XX, LL = X.copy(), L.copy()
        obj = get_cls(name)()
        base(lambda: batch_value(name, X, labels))
        v = guard(lambda: obj.get_cvi(XX, LL), "%s batch" % name)
        if not np.array_equal(XX, X) or not np.array_equal(LL, L):
            raise Fail("%s: batch arguments were modified" % name)
        XX[:] = 5
        LL[:] = 0
        try:
            crit = obj.criterion_value
        except AttributeError:
            crit = v
        if differs(crit, v, 0.0):
            raise Fail("%s: stored value changes when batch arguments are modified later" % name)


def forked(fn):
    """fn() in a child forked from this (object-free) process: nothing an earlier object did can leak in."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Skip:
                out = ("skip", None)
            except Fail as f:
                out = ("fail", (f.what, f.kw))
            except Exception as e:  # noqa: BLE001
                out = ("raise", repr(e)[:200])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    kind, val = pickle.loads(data) if data else ("skip", None)
    if kind == "ok":
        return val
    if kind == "fail":
        raise Fail(val[0], **val[1])
    raise Skip()


@functools.lru_cache(None)
def new_ints():
    """Integer constants of the current source that the pinned source does not have."""
    return sorted({abs(c) for c in source_constants()[0] if c not in OLD_INTS})[:12]


def check_isolation(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n, d = X.shape
    two = len(set(int(l) for l in labels)) >= 2
    ref, bref = forked(lambda: ([num(v) for v in stream_values(name, X, labels)], num(batch_value(name, X, labels)) if two else None))
    others = [name, NAMES[int(rng.integers(0, 9))]]
    Y = rng.normal(size=(n, d + 1)) * 3 + 1
    Z = rng.normal(size=(n, d)) * 2 - 1
    L2 = [int(x) for x in rng.integers(0, 4, size=n)]
    mode = int(rng.integers(0, 5))
    new = [c for c in new_ints() if 1 < c <= 3000]
    count = max(new) + 3 if new and rng.integers(0, 2) else int(rng.integers(8, 40))
    k3 = [t % 5 for t in range(n)]

    def scenario():
        cls = get_cls(name)
        if mode >= 3:       # many short-lived objects; then several at once, which may sit where those were
            for q in range(count):
                o = cls()
                for t in range(n if q % 8 == 0 else min(n, 2)):
                    base(lambda: o.get_cvi(Z[t], k3[t]))
                del o
            objs = [cls() for _ in range(6)]
            for t in range(n):
                for o in objs if mode == 3 else objs[:3]:
                    v = guard(lambda: o.get_cvi(X[t], labels[t]), "%s stream (after many others)" % name)
                    if differs(v, ref[t], 0.0):
                        raise Fail("%s: the activity of earlier, discarded objects changes this object's value" % name, step=t, got=float(v), want=float(ref[t]))
                if mode == 4 and t == n // 2:
                    del objs[4:]
            return
        if mode == 1:       # objects of the same class and dimension came and went before
            base(lambda: stream_values(name, Z, list(labels)[::-1]))
            base(lambda: stream_values(others[1], Y, L2))
        if mode == 2 and len(set(L2)) > 1:
            base(lambda: batch_value(name, Z, L2))
        a = cls()
        bs = [get_cls(o)() for o in others]
        for t in range(n):
            v = guard(lambda: a.get_cvi(X[t], labels[t]), "%s stream (interleaved)" % name)
            if differs(v, ref[t], 0.0):
                raise Fail("%s: another object's activity changes this object's value" % name, step=t, got=float(v), want=float(ref[t]))
            for o, b in zip(others, bs):
                base(lambda: b.get_cvi(Y[t] if mode else Z[t], L2[t]))
            if t == n // 2:
                fresh = cls()
                base(lambda: fresh.get_cvi(Y[t], L2[t]))
                if len(set(L2)) > 1:
                    base(lambda: cls().get_cvi(Y, np.array(L2)))
        again = guard(lambda: stream_values(name, X, labels), "%s stream" % name)
        for t in range(n):
            if differs(again[t], ref[t], 0.0):
                raise Fail("%s: a new object does not start from scratch" % name, step=t)
        if two:
            v2 = guard(lambda: batch_value(name, X, labels), "%s batch" % name)
            if differs(bref, v2, 0.0):
                raise Fail("%s: batch value depends on earlier objects" % name)
    forked(scenario)


def check_stream_ok(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n = len(labels)
    obj = get_cls(name)()
    seen = set()
    for t in range(n):
        seen.add(int(labels[t]))
        v = guard(lambda: obj.get_cvi(X[t], labels[t]), "%s stream, sample %d" % (name, t))
        f = num(v)
        if np.ndim(v) != 0 or isinstance(v, (str, bytes)):
            raise Fail("%s: the returned value is not a single number: %r" % (name, v), step=t)
        if len(seen) == 1 and not f == 0.0:
            raise Fail("%s: value must be 0 while there is one cluster" % name, step=t, got=f)
        c = obj.criterion_value
        if differs(c, f, 0.0):
            raise Fail("%s: returned value and criterion_value differ" % name, step=t)
    if len(seen) >= 2:
        obj = get_cls(name)()
        v = guard(lambda: obj.get_cvi(X, np.array(labels)), "%s batch" % name)
        if differs(obj.criterion_value, v, 0.0):
            raise Fail("%s: returned value and criterion_value differ (batch)" % name)


def count_cells(root):
    """Number of cells (numbers, 64-bit words of integers, characters, container slots) reachable from an object."""
    seen, todo, n = {}, [root], 0
    while todo:
        o = todo.pop()
        if isinstance(o, int) and not isinstance(o, bool):
            n += 1 + o.bit_length() // 64
            continue
        if isinstance(o, (float, complex, bool, type(None), np.generic)):
            n += 1
            continue
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, np.ndarray):
            b = o
            while isinstance(b.base, np.ndarray):
                b = b.base
            if b is not o:
                if id(b) in seen:
                    continue
                seen[id(b)] = b
            n += b.size
            if b.dtype == object:
                todo.extend(b.ravel().tolist())
        elif isinstance(o, dict):
            n += len(o)
            todo.extend(o.values())
            todo.extend(k for k in o.keys() if isinstance(k, (tuple, frozenset)))
        elif isinstance(o, (str, bytes, bytearray)):
            n += len(o)
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            todo.extend(o)
        elif isinstance(o, type) or isinstance(o, type(np)):
            continue
        elif isinstance(o, types.FunctionType):
            todo.extend(c.cell_contents for c in (o.__closure__ or ()) if c is not None and cell_set(c))
            todo.extend(o.__defaults__ or ())
        elif isinstance(o, types.MethodType):
            todo.append(o.__self__)
            todo.append(o.__func__)
        elif isinstance(o, functools.partial):
            todo.extend([o.func, o.args, o.keywords])
        else:
            n += 1
            if hasattr(o, "cache_info"):
                n += o.cache_info().currsize
            if hasattr(o, "__dict__"):
                todo.append(vars(o))
            for c in type(o).__mro__:
                for a in ([c.__dict__["__slots__"]] if isinstance(c.__dict__.get("__slots__"), str) else c.__dict__.get("__slots__", ())):
                    if a not in ("__dict__", "__weakref__") and hasattr(o, a):
                        todo.append(getattr(o, a))
            try:
                if hasattr(o, "__len__") and hasattr(o, "__iter__") and not hasattr(o, "read"):
                    n += len(o)
                    todo.extend(list(o))
                elif isinstance(o, Iterator):
                    todo.extend(gc.get_referents(o))
            except Exception:  # noqa: BLE001
                pass
    return n


def cell_set(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def package_state():
    """Containers held by the package's modules and classes."""
    out = []
    for mn, m in list(sys.modules.items()):
        if m is None or not (mn == "cvi" or mn.startswith("cvi.")):
            continue
        for v in list(vars(m).values()):
            if isinstance(v, (dict, list, set, np.ndarray, tuple)) and v is not vars(m).get("__builtins__"):
                out.append(v)
            elif isinstance(v, type) and str(getattr(v, "__module__", "")).startswith("cvi"):
                for x in list(vars(v).values()):
                    if isinstance(x, (dict, list, set, np.ndarray)) or hasattr(x, "cache_info"):
                        out.append(x)
                    elif isinstance(x, types.FunctionType):
                        out.append(x)
            elif hasattr(v, "cache_info") or isinstance(v, types.FunctionType):
                out.append(v)
            elif hasattr(v, "__dict__") and not isinstance(v, (type, types.ModuleType)) and str(getattr(type(v), "__module__", "")).startswith("cvi"):
                out.append(v)
    return out


def check_memory(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n = len(labels)
    obj = get_cls(name)()
    k, last, size_at = 0, None, {}
    seen = set()
    reps = 3 if n < 400 else 1
    steps = 0
    for r in range(reps):
        for t in range(n):
            seen.add(int(labels[t]))
            base(lambda: obj.get_cvi(X[t] + 0.01 * r, labels[t]))
            steps += 1
            c = count_cells([obj, package_state()]) if (n < 100 or t % 16 < 2 or t > n - 20) else None
            if c is None:
                continue
            key = (len(seen),)
            if key in size_at:
                if c != size_at[key][0] and steps - size_at[key][1] >= 1:
                    lo = size_at[key][0]
                    size_at.setdefault("var", []).append((steps, c - lo))
            else:
                size_at[key] = (c, steps)
    var = size_at.get("var", [])
    # a one-off change (first samples vs later) is not growth: demand growth at three distinct times
    incs = sorted(set(v for _, v in var))
    if len(incs) >= 3 and incs[-1] > incs[0] > 0:
        raise Fail("%s: retained state grows with the number of samples" % name, growth=incs[:10])


def check_invariance(name, case, rng):
    X, labels = np.asarray(case.X, dtype=float), case.labels
    n, d = X.shape
    if len(set(int(l) for l in labels)) < 2:
        return
    tau = (rng.normal(size=d) * 3).round(2)
    lam = float(rng.choice([0.5, 2.0, 3.0, 0.25]))
    trials = [("translation", X + tau)]
    if name in SCALE_FREE:
        trials.append(("change of unit", X * lam))
    ok, tol = usable(name, X, labels)
    if not ok:
        return
    a = base(lambda: stream_values(name, X, labels))[-1]
    va = base(lambda: batch_value(name, X, labels))
    for what, Y in trials:
        ok2, tol2 = usable(name, Y, labels)
        if not ok2:
            continue
        b = guard(lambda: stream_values(name, Y, labels), "%s stream" % name)[-1]
        if differs(a, b, pair_tol(a, b, 4 * (tol + tol2))):
            raise Fail("%s: streaming value changes under %s" % (name, what), a=float(a), b=float(b), tau=tau.tolist(), lam=lam)
        vb = guard(lambda: batch_value(name, Y, labels), "%s batch" % name)
        if differs(va, vb, pair_tol(va, vb, 4 * (tol + tol2))):
            raise Fail("%s: batch value changes under %s" % (name, what), a=float(va), b=float(vb), tau=tau.tolist(), lam=lam)


def check_range(name, case, rng):
    X, labels = np.asarray(case.X), case.labels
    n = len(labels)
    vals = base(lambda: stream_values(name, X, labels))
    items = [(p, vals[p - 1], "stream") for p in prefixes(n, labels)]
    if len(set(int(l) for l in labels)) >= 2:
        items.append((n, base(lambda: batch_value(name, X, labels)), "batch"))
    for p, v, mode in items:
        k = len(set(int(l) for l in labels[:p]))
        if k < 2:
            continue
        ok, tol = usable(name, X[:p], labels[:p])
        v = num(v)
        if not ok or (name == "cSIL" and not oracle.csil_conditioned(X[:p], labels[:p])):
            continue
        slack = tol + 1e-8
        if not np.isfinite(v):
            raise Fail("%s %s: value %r on a non-degenerate partition" % (name, mode, v), prefix=p)
        if name in NONNEG and v < -slack:
            raise Fail("%s %s: negative value" % (name, mode), prefix=p, got=v)
        if name == "cSIL" and not (-1 - slack <= v <= 1 + slack):
            raise Fail("%s %s: value outside [-1, 1]" % (name, mode), prefix=p, got=v)
        if name == "PS" and not (-k - slack <= v <= k + slack):
            raise Fail("%s %s: value outside [-k, k]" % (name, mode), prefix=p, got=v)


def dist_to(pts, x, q):
    df = np.abs(np.asarray(pts, dtype=float) - x)
    return df.sum(axis=1) if q == 1 else df.max(axis=1) if q == np.inf else np.sqrt((df ** 2).sum(axis=1))


def check_legacy(case, rng):
    from cvi import compat
    from cvi.compat import v0
    X, labels = np.asarray(case.X, dtype=float), [int(l) for l in case.labels]
    n, d = X.shape
    sc = 1 + np.abs(X).max()
    # running centre helper
    for lab in sorted(set(labels)):
        idx = [t for t in range(n) if labels[t] == lab]
        v, m = X[idx[0]].copy(), 1
        clu = guard(lambda: v0.Cluster(), "legacy cluster")
        with_index = bool(rng.integers(0, 2))
        seen, total = [], np.zeros(d, dtype=np.longdouble)
        for j, t in enumerate(idx):
            keep = X[t].copy()
            if with_index:
                guard(lambda: clu.add_point(X[t], t), "legacy cluster add")
            else:
                guard(lambda: clu.add_point(X[t]), "legacy cluster add")
            seen.append(keep)
            total = total + keep
            mean = np.asarray(total / len(seen), dtype=float)
            if clu.len != len(seen):
                raise Fail("legacy cluster: wrong size", step=j)
            if np.abs(clu.center - mean).max() > 1e-9 * sc:
                raise Fail("legacy cluster: centre is not the mean of its points", step=j)
            if j:
                v, m = guard(lambda: v0.cluster_center_update(X[t], v, m), "legacy centre update")
                if m != j + 1 or np.abs(v - mean).max() > 1e-9 * sc:
                    raise Fail("legacy centre update: not the running mean", step=j)
            if 60 < j < len(idx) - 2 and j % 211:
                continue     # the rest costs time in proportion to the size
            if list(clu.indicies) != (idx[: j + 1] if with_index else []):
                raise Fail("legacy cluster: member indices wrong", step=j)
            probe = rng.normal(size=d)
            if j % 3 == 1:
                probe = X[int(rng.integers(0, n))].copy()
            held = probe.copy()
            for got, want, what in ((clu.min_distance(probe), dist_to(seen, probe, 2).min(), "minimum"), (clu.avg_distance(probe), dist_to(seen, probe, 2).mean(), "average"),
                                    (clu.center_distance(probe), dist_to([mean], probe, 2)[0], "centre")):
                if not abs(got - want) <= 1e-9 * (sc + abs(want)) + 1e-9:
                    raise Fail("legacy cluster: wrong %s distance" % what, step=j, got=float(got), want=float(want))
            q = (2, 1, np.inf)[j % 3]
            for got, want, what in ((clu.min_distance(probe, q), dist_to(seen, probe, q).min(), "minimum"), (clu.avg_distance(probe, q), dist_to(seen, probe, q).mean(), "average"),
                                    (clu.center_distance(probe, q), dist_to([mean], probe, q)[0], "centre")):
                if not abs(got - want) <= 1e-9 * (sc + abs(want)) * d + 1e-9:
                    raise Fail("legacy cluster: wrong %s distance in norm %s" % (what, q), step=j, got=float(got), want=float(want))
            if not np.array_equal(held, probe):
                raise Fail("legacy cluster: modified a query vector")
            if not np.array_equal(keep, X[t]):
                raise Fail("legacy cluster: modified a point")
    if not abs(v0.norm22(X[0]) - (X[0] ** 2).sum()) <= 1e-9 * (1 + (X[0] ** 2).sum()):
        raise Fail("legacy squared norm wrong")
    for nm in ("iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB"):
        o = guard(lambda: compat.iCVI(nm), "legacy factory %s" % nm)
        if type(o) is not getattr(compat, nm):
            raise Fail("legacy factory %s returned %r" % (nm, type(o)))
        if guard(lambda: compat.iCVI(nm), "legacy factory") is o:
            raise Fail("legacy factory %s returned the same object twice" % nm)
    good = ("iDB", "iSIL", "iGD43", "iGD53", "iCH", "iPS", "iXB")
    near = [f(g) for g in good for f in (str.lower, str.upper, str.swapcase, str.title, lambda g: g + " ", lambda g: " " + g, lambda g: g + "\n", lambda g: g[1:],
                                         lambda g: g[:-1], lambda g: g + "x", lambda g: "x" + g, lambda g: g * 2, lambda g: "i" + g, lambda g: g.replace("i", "I", 1),
                                         lambda g: "r" + g[1:], lambda g: "cvi." + g, lambda g: (g,), lambda g: g.encode())]
    near = [b for b in near if b not in good]
    for bad in ["iWB", "CH", "", "idb", "irCIP", "icSIL", "iCVI", "Cluster", "CVI", "np", "iGD", "iGD33", "iC", None, 3, 0, -1, 2.5, ()] + near:
        try:
            compat.iCVI(bad)
        except ValueError:
            continue
        except Exception as e:  # noqa: BLE001
            raise Fail("legacy factory: %r raised %s" % (bad, type(e).__name__))
        raise Fail("legacy factory accepted %r" % (bad,))


PER_CLASS = {"C10": check_equiv, "C11": check_labels, "C12": check_order, "C13": check_refuse, "C14": check_inputs,
             "C15": check_isolation, "C16": check_stream_ok, "C17": check_memory, "C18": check_invariance, "C19": check_range}


def classes_of(prop):
    return PROP_CLASSES.get(prop, NAMES)


def check_case(prop, name, case, rng):
    X = np.asarray(case.X)
    # cond(C_i + C_j) <= 4 d max|x|^2 / (2 delta): beyond 1e13 the matrix may be singular to working precision (known_findings.txt, rcip-singular)
    dd = X.shape[1] if X.ndim == 2 else 1
    SMALL[0] = bool(X.size) and 4.0 * dd * np.square(np.abs(X.astype(float)).max()) / (2 * 10.0 ** (-12.0 / dd)) <= 1e13
    if prop == "C20":
        return check_legacy(case, rng)
    if prop in PROP_CLASSES:
        return check_definition(name, case, rng)
    return PER_CLASS[prop](name, case, rng)


def shrink(prop, name, case, seed, fail, budget=15.0):
    t0 = time.time()
    best, bf = case, fail
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        n = len(best.labels)
        cands = []
        step = max(1, n // 2)
        while step >= 1:
            for i in range(0, n, step):
                if n - step >= 1:
                    cands.append((i, step))
            step //= 2
        for i, s in cands[:120]:
            if time.time() - t0 > budget:
                break
            keep = [t for t in range(n) if not (i <= t < i + s)]
            if not keep:
                continue
            c = Case(np.asarray(best.X)[keep].copy(), [best.labels[t] for t in keep], best.note + "+shrunk")
            try:
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                check_case(prop, name, c, np.random.default_rng(seed))
            except Fail as f:
                best, bf, improved = c, f, True
                break
            except (Exception, Late):
                continue
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    return best, bf


def worker(args):
    prop, seed, part, parts, budget, hints, out = args
    t0 = time.time()
    rng = np.random.default_rng([seed, part, 77])
    signal.signal(signal.SIGPROF, late)
    signal.signal(signal.SIGALRM, late)
    ints, floats = source_constants()
    stats = {"evaluations": 0, "distinct": 0, "samples": [], "max": {"N": 0, "d": 0, "k": 0}, "skipped": 0}
    names = classes_of(prop) if prop != "C20" else ["compat"]

    def gen():
        yield from hint_cases(rng, [h for q, h in enumerate(hints) if q % parts == part])
        # nearly coincident means only where signs are at stake: values are too ill-conditioned to compare
        rand = random_cases(rng, ints, floats, hints, DATA_STYLES + (["nearcoinc"] * 2 if prop == "C19" else ["giant"] if prop == "C16" else []))
        large = big_cases(rng, ints, part, parts, prop in ("C13", "C14", "C15", "C17"))
        for q, c in enumerate(systematic(rng, part, parts)):
            yield c
            yield next(rand)
            if q % 8 == 3 and spent[0] < 0.5 * (time.time() - t0):
                yield from itertools.islice(large, 1)
        for c in rand:
            yield c
            if spent[0] < 0.5 * (time.time() - t0):
                yield from itertools.islice(large, 1)

    spent = [0.0]        # on large histories
    for case in gen():
        if time.time() - t0 > budget:
            break
        if len(case.labels) < 1:
            continue
        cs, tc = int(rng.integers(0, 2 ** 31)), time.time()
        if case.note.startswith("scaled") and np.abs(np.asarray(case.X)).max() > 1e4:
            usable = [x for x in names if x != "rCIP"] or names[:0]      # its covariances are singular to working precision there
        else:
            usable = names
        pick = usable if (len(names) <= 1 or len(case.labels) <= 12) else [usable[int(x)] for x in rng.permutation(len(usable))[:3]]
        for name in pick:
            if time.time() - t0 > budget:
                break
            stats["evaluations"] += 1
            try:
                try:
                    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                    signal.setitimer(signal.ITIMER_REAL, max(1.0, t0 + budget + 8 - time.time()))
                    check_case(prop, name, case, np.random.default_rng(cs))
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Late:
                stats["cut_short"] = stats.get("cut_short", 0) + 1
                if prop == "C16" and np.asarray(case.X).size <= 60 and time.time() - t0 < budget:
                    return stats, {"property": prop, "class": name, "what": "%s: calls on a few samples do not return within %g s of CPU time" % (name, CASE_CPU_S),
                                   "detail": {}, "case": case.dump(), "check_seed": cs}
            except Skip:
                stats["skipped"] += 1
            except Fail as f:
                c2, f2 = shrink(prop, name, case, cs, f)
                return stats, {"property": prop, "class": name, "what": f2.what, "detail": jsonable(f2.kw), "case": c2.dump(),
                               "check_seed": cs}
            except Exception:  # noqa: BLE001 - an error of the harness itself, reported in the evidence
                import traceback
                stats["error"] = traceback.format_exc()[-800:]
                stats["harness_errors"] = stats.get("harness_errors", 0) + 1
                if stats["harness_errors"] > 50:
                    return stats, None
        if len(case.labels) > 100:
            spent[0] += time.time() - tc
        if len(set(int(l) for l in case.labels)) >= 2:
            stats["distinct"] += 1
        m = stats["max"]
        m["N"] = max(m["N"], len(case.labels))
        m["d"] = max(m["d"], int(np.asarray(case.X).shape[1]))
        m["k"] = max(m["k"], len(set(int(l) for l in case.labels)))
        if len(stats["samples"]) < 2 and case.note != "systematic":
            stats["samples"].append({"labels": [int(l) for l in case.labels][:12], "shape": list(np.asarray(case.X).shape), "note": case.note})
    return stats, None


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.generic,)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return o


def safe_worker(a):
    try:
        return worker(a)
    except Exception as e:  # noqa: BLE001
        import traceback
        return {"evaluations": 0, "distinct": 0, "samples": [], "max": {}, "skipped": 0,
                "error": "%s\n%s" % (e, traceback.format_exc())}, None


def replay(path):
    d = json.load(open(path))
    f = d.get("failing_input") or d
    try:
        check_case(f["property"], f["class"], Case.load(f["case"]), np.random.default_rng(f["check_seed"]))
    except Fail as e:
        print("REPRODUCED %s: %s %s" % (f["property"], e.what, e.kw))
        return 1
    except Skip:
        pass
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--hints", default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    hints = json.load(open(a.hints)) if a.hints else []
    t0 = time.time()
    try:
        import cvi  # noqa: F401
        import cvi.compat  # noqa: F401
        for nm in NAMES:
            get_cls(nm)
    except Exception as e:  # noqa: BLE001
        res = {"fail": {"property": a.prop, "class": "cvi", "what": "package cannot be imported: %r" % (e,), "detail": {}, "case": None,
                        "check_seed": 0}, "stats": {"evaluations": 0}}
        json.dump(res, open(a.out, "w") if a.out else sys.stdout)
        return
    tasks = [(a.prop, a.seed, p, a.jobs, a.budget, hints, None) for p in range(a.jobs)]
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "samples": [], "max": {"N": 0, "d": 0, "k": 0}, "errors": []}
    fail = None
    with mp.Pool(a.jobs) as pool:
        for stats, f in pool.imap_unordered(safe_worker, tasks):
            tot["evaluations"] += stats["evaluations"]
            tot["cut_short"] = tot.get("cut_short", 0) + stats.get("cut_short", 0)
            tot["distinct_nontrivial"] += stats["distinct"]
            tot["skipped"] += stats.get("skipped", 0)
            tot["samples"] = (tot["samples"] + stats["samples"])[:4]
            for k, v in stats.get("max", {}).items():
                tot["max"][k] = max(tot["max"].get(k, 0), v)
            if stats.get("error"):
                tot["errors"].append(stats["error"])
            if f and fail is None:
                fail = f
                pool.terminate()
                break
    tot["wall_s"] = time.time() - t0
    res = {"stats": tot, "fail": fail}
    with (open(a.out, "w") if a.out else sys.stdout) as fh:
        json.dump(res, fh, indent=1)


if __name__ == "__main__":
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    main()
