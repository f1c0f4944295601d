"""C11: confusion matrices against independent counts."""
import numpy as np
from .. import gen as g, oracle as o
from . import c10

ID, LEVEL, QUICK_S = "C11", "exploration", 12
RULE = ("random targets and predictions as for C10 (ties, absent classes, values at the threshold, soft targets), arrays or files, batch sizes, both "
        "classes, mode from constructor or training; non-trivial: a confusion matrix was compared cell by cell and its sums conserved")
REQUIRE = ["classification matrices", "weighted matrices", "multi-label matrices", "file matrices", "absent classes", "incomplete last batches", "regression refused", "rows of equal values"]


def gen(rng, D):
    c = c10.gen(rng, D)
    if c["c"] > 60:       # the time grows with the squared number of classes, for every batch
        c["batch"] = 10000
    if c["c"] > 130:
        c["c"] = rng.randint(20, 130)
    c["mode"] = rng.choice(["c", "wc", "ml", "ml", "c", ""])
    c["odd"] = rng.choice([0, 0, 0, 1, 2, 3])
    return fix(c)


fix = c10.fix
DIRECTED = [dict(c10.B0, mode=md, batch=b, tfile=f, yfile=f, ds=b, absent=ab, yk=yk, c=c) for md in ("c", "wc", "ml") for b in (1, 4, 5, 22, 23, 24)
            for f in (False, True) for ab, yk, c in ((False, "near", 3), (True, "grid", 5), (False, "normal", 2))]
DIRECTED += [dict(c10.B0, mode=md, N=n, c=c, batch=b, tfile=f, yfile=f, ds=n + c) for md in ("c", "wc", "ml") for n, c, b in ((4097, 2, 1000), (8193, 2, 10000), (10001, 3, 5000), (300, 33, 100), (500, 65, 1000), (900, 129, 1000))
             for f in (False, True)]
DIRECTED += [dict(c10.B0, mode=md, N=n, c=c, batch=b, tfile=f, yfile=f, ds=n + c, tdt="u1") for md in ("c", "wc", "ml") for n, c, b, f in ((70001, 2, 1000, True), (70001, 3, 100000, False), (300001, 2, 20000, False))]
DIRECTED += [dict(c10.B0, mode=md, N=150, c=c, batch=1000, ds=c, yk="far") for md in ("c", "wc", "ml") for c in range(2, 48)]

DIRECTED += [dict(c10.B0, mode=md, odd=q, batch=b, tfile=f, yfile=f, ds=q + b) for md in ("c", "wc", "ml") for q in (1, 2, 3) for b in (5, 24) for f in (False, True)]


def run(case, mon, tmp):
    N, mode = case["N"], case["mode"]
    r = g.rs(case["ds"], 1)
    T = c10.targets(case, r)
    Y = c10.predictions(case, T, r)
    if case.get("odd"):      # some rows without a largest value: all zeros, or all the same (counted at the first class)
        v = [0, 1, 0.25 if T.dtype.kind == "f" else 1][case["odd"] - 1]
        T[r.rand(N) < 0.3] = v
        Y[r.rand(N) < 0.3] = [0, 1, 0.75 if Y.dtype.kind == "f" else 0][case["odd"] - 1]
        mon.hit("rows of equal values")
    aT = c10.put(case, T, case["tlay"], case["tfile"], case["t1d"], tmp, "t.h5", r)
    aY = c10.put(case, Y, case["ylay"], case["yfile"], case["y1d"], tmp, "y.h5", r)
    isfile = isinstance(aT, str) or isinstance(aY, str)
    if N % case["batch"]:
        mon.hit("incomplete last batches")
    for cl in ["HPELM"] if isfile else ["ELM", "HPELM"]:
        m, w = c10.model(case, cl, g.rs(case["ds"], 2))
        if mode == "":
            mon.ok(g.call(m.confusion, aT, aY)[1] is not None, "a regression model gives a confusion matrix")
            mon.hit("regression refused")
            continue
        C = np.asarray(m.confusion(aT, aY), dtype=float)
        R = o.confusion(mode, T, Y)
        mon.ok(C.shape == R.shape, "confusion matrix has shape %s for %d outputs", C.shape, case["c"])
        if mode != "ml":
            mon.ok(C.sum() == N, "cells of the confusion matrix sum to %g for %d rows", C.sum(), N)
            cnt = np.bincount(T.astype(float).argmax(1), minlength=case["c"])
            mon.ok(np.array_equal(C.sum(1), cnt), "rows of the confusion matrix sum to %s, class counts are %s", C.sum(1), cnt)
            if (cnt == 0).any():
                mon.hit("absent classes")
            e = o.error("c", T, Y)
            mon.ok(abs(1 - np.trace(C)/N - e) < 1e-12, "diagonal does not give the classification error")
        mon.ok(np.array_equal(C, R), "confusion matrix (%s, %s, batch %d) is %s, counts are %s", mode, cl, case["batch"], C.tolist(), R.tolist())
        mon.hit({"c": "classification", "wc": "weighted", "ml": "multi-label"}[mode] + " matrices")
        if isfile:
            mon.hit("file matrices")
