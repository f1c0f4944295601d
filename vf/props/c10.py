"""C10: reported errors against an independent implementation of the documented metrics."""
import os
import numpy as np
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C10", "exploration", 15
RULE = ("random targets and predictions (ties, values exactly at thresholds, absent classes, dtypes, layouts, one-dimensional), modes, weights from "
        "constructor or training, arrays or files, batch sizes, row ranges, both classes; non-trivial: a reported error was compared with the metric")
REQUIRE = ["regression errors", "classification errors", "weighted errors", "multi-label errors", "file errors", "range errors", "absent classes",
           "incomplete last batches", "errors of real predictions", "threshold ties"]


def gen(rng, D):
    mode = rng.choice(["", "", "c", "wc", "wc", "ml"])
    N = D.size(rng, 1, 150)
    if rng.random() < 0.05:
        N = rng.choice([1000, 999, 1001, 2000, rng.randint(150, 2500), g.huge_n(rng, D)])
    c = rng.choice([1, 1, 2, 3, D.size(rng, 1, 9)])
    if rng.random() < 0.04:
        c = rng.choice([D.size(rng, 9, 300), rng.randint(9, 50)])
    return dict(N=N, c=c, mode=mode, batch=g.gen_batch(rng, N), ds=rng.randrange(1 << 30),
                tdt=rng.choice(["f8", "f8", "f4", "i4", "u1", "b1", ">f8", "i8", "f2", "i1"]), ydt=rng.choice(["f8"]*6 + ["f4", "f4", ">f8", ">f8", "i1", "u1", "b1", "i4", "f2"]),
                tlay=rng.choice(g.LAYOUTS), ylay=rng.choice(g.LAYOUTS), t1d=rng.random() < 0.4, y1d=rng.random() < 0.4,
                tfile=rng.random() < 0.35, yfile=rng.random() < 0.35, absent=rng.random() < 0.3, soft=rng.random() < 0.2,
                tk=rng.choice(["normal", "int", "zeros", "const", "pos", "big"]), yk=rng.choice(["near", "near", "normal", "grid", "exact", "const", "far"]),
                wsrc=rng.choice(["ctor", "train", "auto"]), prec=rng.choice(g.PRECS), solver=rng.choice(["", "basic"]), up=rng.random() < 0.2,
                i=rng.choice([0, 0, 0, rng.randrange(N), N - 1]), n=rng.choice([-1, -1, -1, rng.randint(1, N), 1, N, 10*N]), real=rng.random() < 0.2)


def fix(c):
    if c["mode"]:
        c["c"] = max(2, c["c"])
    c["i"] = min(c["i"], c["N"] - 1)
    return c


B0 = dict(N=23, c=3, mode="", batch=5, ds=1, tdt="f8", ydt="f8", tlay="C", ylay="C", t1d=False, y1d=False, tfile=False, yfile=False, absent=False, soft=False,
          tk="normal", yk="near", wsrc="ctor", prec="double", solver="", up=False, i=0, n=-1, real=False)
DIRECTED = [dict(B0, mode=md, batch=b, tfile=f, yfile=f, i=i, n=n, ds=b, absent=ab, yk=yk) for md in ("", "c", "wc", "ml") for b in (1, 4, 5, 22, 23, 24)
            for f in (False, True) for i, n, ab, yk in ((0, -1, False, "near"), (6, 10, True, "grid"))]
# many samples, many classes
DIRECTED += [dict(B0, mode=md, N=n, c=c, batch=b, tfile=f, yfile=f, ds=n + c) for md in ("", "c", "wc", "ml") for n, c, b in ((4097, 2, 1000), (8193, 2, 10000), (10001, 3, 5000), (300, 33, 100), (500, 65, 1000), (700, 129, 64), (900, 257, 1000))
             for f in (False, True)]
DIRECTED += [dict(B0, mode=md, N=n, c=c, batch=b, tfile=f, yfile=f, ds=n + c, tdt="u1") for md in ("", "c", "wc", "ml") for n, c, b, f in ((70001, 2, 1000, True), (70001, 3, 100000, False), (300001, 2, 20000, False))]
DIRECTED += [dict(B0, mode=md, N=150, c=c, batch=1000, ds=c, yk="far") for md in ("c", "wc", "ml") for c in range(2, 48)]


def targets(case, r):
    N, c, mode = case["N"], case["c"], case["mode"]
    if mode in ("c", "wc"):
        T = np.zeros((N, c))
        T[np.arange(N), g.labels(N, c - 1 if case["absent"] else c, r, not case["absent"], True)] = 1
        if case["absent"] and r.rand() < 0.5:
            T = T[:, r.permutation(c)]
        if mode == "c" and case["soft"] and case["tdt"] in ("f8", "f4", ">f8"):
            T = r.rand(N, c)
    elif mode == "ml":
        T = (r.rand(N, c) < 0.4).astype(float)
        if case["soft"] and case["tdt"] in ("f8", "f4", ">f8"):
            T = np.round(r.rand(N, c)*4) / 4
    else:
        T = g.raw_t(case["tk"], N, c, r)
    return g.cast(T, case["tdt"])


def predictions(case, T, r):
    T = T.astype(float)
    k = case["yk"]
    if k == "near":
        Y = T + 0.4*r.randn(*T.shape)
    elif k == "grid":
        Y = np.round(r.rand(*T.shape)*4) / 4      # ties and values exactly at 0.5
    elif k == "exact":
        Y = T.copy()
    elif k == "const":
        Y = np.ones(T.shape) * 0.5
    elif k == "far":
        Y = T*1000 + 100*r.randn(*T.shape)
    else:
        Y = r.randn(*T.shape)
    return g.cast(Y, case["ydt"])


def put(case, A, lay, file, one, tmp, name, r):
    """(argument to pass, two-dimensional values)."""
    V = A
    A = g.layout(A, lay, r)
    if file:
        return g.h5(os.path.join(tmp, name), A)
    if one and A.shape[1] == 1:
        return A[:, 0]
    return A


def model(case, cl, r):
    mode = case["mode"]
    w = np.round(r.rand(case["c"])*4 + 0.25, 2)
    flag = mode.upper() if case["up"] else mode
    over = dict(batch=case["batch"], cls="" if case["wsrc"] == "train" else flag)
    if mode == "wc" and case["wsrc"] == "ctor":
        over["w"] = w
    m = g.new_model(dict(case, d=2), cl, **over)
    m.add_neurons(3, "tanh", r.randn(2, 3), r.randn(3))
    c = case["c"]
    if mode and (case["wsrc"] != "ctor" or mode == "wc" and case["wsrc"] == "auto"):
        y = np.concatenate([np.arange(c), r.randint(0, c, 9)])
        Tt = np.zeros((len(y), c))
        Tt[np.arange(len(y)), y] = 1
        Xt = r.randn(len(y), 2)
        if mode == "wc" and case["wsrc"] == "train":
            m.train(Xt, Tt, flag, w=w)
        elif mode == "wc":
            m.train(Xt, Tt, flag)
            w = o.auto_weights(Tt)
        else:
            m.train(Xt, Tt, flag)
    return m, w


def run(case, mon, tmp):
    N, mode = case["N"], case["mode"]
    r = g.rs(case["ds"], 1)
    T = targets(case, r)
    Y = predictions(case, T, r)
    lim = case["i"], N if case["n"] < 0 else min(N, case["i"] + case["n"])
    aT = put(case, T, case["tlay"], case["tfile"], case["t1d"], tmp, "t.h5", r)
    aY = put(case, Y, case["ylay"], case["yfile"], case["y1d"], tmp, "y.h5", r)
    isfile = isinstance(aT, str) or isinstance(aY, str)
    ranged = lim != (0, N)
    if (T.astype(float).sum(0) == 0).any() and mode == "wc":
        mon.hit("absent classes")
    if mode == "ml" and (Y.astype(float) == 0.5).any():
        mon.hit("threshold ties")
    classes = ["HPELM"] if isfile else ["ELM", "HPELM"]
    if N % case["batch"]:
        mon.hit("incomplete last batches")
    single = any(np.dtype(t).kind == "f" and np.dtype(t).itemsize < 8 for t in (case["tdt"], case["ydt"]))
    rt = 2e-5 if single and mode == "" else 2e-6 if mode == "wc" and case["wsrc"] == "auto" else 1e-10
    for cl in classes:
        m, w = model(case, cl, g.rs(case["ds"], 2))
        if mode == "wc":
            mon.ok(m.wc is not None, "weights were lost")
        for lo, hi in ([(0, N)] + ([lim] if ranged and cl == "HPELM" else [])):
            kw = {} if (lo, hi) == (0, N) else dict(istart=lo)
            if kw and case["n"] >= 0:
                kw["icount"] = case["n"]
            T1, Y1 = T[lo:hi].astype(float), Y[lo:hi].astype(float)
            ref = o.error(mode, T1, Y1, w)
            e = m.error(aT, aY, **kw)
            mon.ok(np.ndim(e) == 0, "error is not a number: %r", e)
            # scale: rounding of single-precision differences
            sc = float(np.mean(T1**2 + Y1**2)) if mode == "" else 1.0
            mon.ok(abs(float(e) - ref) <= rt*abs(ref) + (1e-12 if single and mode == "" else 1e-15)*sc + 1e-300,
                   "%s error of %s for rows %d..%d, batch %d is %r, the metric gives %r", mode or "regression", cl, lo, hi - 1, case["batch"], float(e), ref)
            mon.hit({"": "regression", "c": "classification", "wc": "weighted", "ml": "multi-label"}[mode] + " errors")
            if kw:
                mon.hit("range errors")
            if isfile:
                mon.hit("file errors")
        if case["real"]:       # the error of the model's own predictions
            X = g.rs(case["ds"], 8).randn(N, 2)
            if m.nnet.get_B() is None:
                m.nnet.set_B(g.rs(case["ds"], 9).randn(3, case["c"]))
            P = m.predict(X)
            ref = o.error(mode, T.astype(float), P, w)
            e = float(m.error(aT, P))
            mon.ok(abs(e - ref) <= 2e-5*abs(ref) + 1e-7*float(np.mean(T.astype(float)**2)) + 1e-12, "%s error of own predictions is %r, the metric gives %r", mode or "regression", e, ref)
            mon.hit("errors of real predictions")
