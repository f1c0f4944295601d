"""C25: element types of everything a model stores or writes, and single against double precision on well-conditioned problems."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C25", "exploration", 16
RULE = ("random models in every spelling of the precision, both classes, all solvers and neuron types; data of 16 element types as arrays or files; element types of weights, biases, solution, "
        "correlation matrices and created files are observed after each of 3-9 operations; the same network is trained in single and double precision on a well-conditioned problem; "
        "non-trivial: both models compared with each other and with the exact solution")
DT = ["f8", "f4", "f2", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "b1", ">f8", ">f4", ">i4", "g"]
OPS = ["train", "data", "wtrain", "neurons", "setB", "setcorr", "solvecorr", "load", "prune", "sel", "predfile", "projfile", "corrfile", "fsolve", "vcorr", "batchwise"]
REQUIRE = ["op " + k for k in OPS] + ["spelling " + k for k in ("double", "float64", "s64", "single", "float32", "s32")] + ["input type " + k for k in DT] + [
    "precision pairs compared", "tight comparisons", "file types observed", "op async", "GPU solver models", "loads of the other precision"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmax=80, dmax=6, cmax=4, pbig=0.01, nmin=4)
    c.update(g.gen_cfg(rng, c["N"]), solver=rng.choice(["", "", "basic", "GPU"]), neu=g.gen_neurons(rng, D, lmax=8, pbig=0.02), cl=rng.choice(["ELM", "HPELM"]),
             xdt=rng.choice(DT), tdt=rng.choice(DT), files=rng.random() < 0.3, ops=[[rng.choice(OPS) if rng.random() > 0.003 else "async", rng.randrange(1 << 30)] for _ in range(rng.randint(3, 9))],
             xk=rng.choice(["normal", "uniform", "int", "normal", rng.choice(g.XKINDS)]))
    return c


def fix(c):
    if any(op == "wtrain" for op, _ in c["ops"]):
        c["c"], c["tk"] = max(2, c["c"]), "onehot"
    c["N"] = max(4, c["N"])
    return c


B0 = dict(N=25, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.3, cl="ELM",
          neu=[["tanh", 4, "given", 3], ["lin", 2, "auto", 5], ["rbf_l2", 2, "auto", 5], ["np.sin", 2, "int", 3]], files=False, ops=[])
DIRECTED = [dict(B0, prec=p, xdt=DT[(i + j) % len(DT)], tdt=DT[(3*i + j + 1) % len(DT)], solver=s, cl=cl, files=fl, ds=i,
                 ops=[[op, j] for op in (OPS if j % 2 else OPS[::-1] + ["train", "prune", "data"])])
            for i, p in enumerate(("double", "float64", "s64", "single", "float32", "s32")) for j, (s, cl, fl) in enumerate([("", "ELM", False), ("basic", "ELM", False), ("GPU", "ELM", False),
                                                                                                                             ("", "HPELM", True), ("basic", "HPELM", False), ("GPU", "HPELM", True), ("", "HPELM", False)])]
DIRECTED += [dict(B0, xdt=t, tdt=t2, prec=p, solver=s, ops=[["train", 1], ["data", 2], ["neurons", 3], ["wtrain", 4]]) for t in DT for t2, s in (("f4", ""), ("i1", "basic"), ("g", "GPU")) for p in ("single", "double")]
DIRECTED += [dict(B0, cl=cl, prec=p, solver=s, ops=[["train", 1]]*t + [["load", i], ["load", i + 20], ["neurons", 3], ["train", 4], ["data", 5]]) for cl in ("ELM", "HPELM") for p in ("single", "double")
             for t in (0, 1) for i, s in enumerate(("", "basic", "GPU", ""))]
DIRECTED += [dict(B0, cl="HPELM", prec=p, ops=[["train", 1], ["async", 2]]) for p in ("single", "s64")]


def dtypes(m, mon, P, op):
    name = np.dtype(P).name
    for n, f, W, B in m.nnet.get_neurons():
        mon.ok(np.asarray(W).dtype == P and np.asarray(B).dtype == P, "after %s, weights of %s neurons are %s and biases %s in a model of %s", op, f, np.asarray(W).dtype, np.asarray(B).dtype, name)
    B = m.nnet.get_B()
    if B is not None:
        mon.ok(np.asarray(B).dtype == P, "after %s, output weights are %s in a model of %s", op, np.asarray(B).dtype, name)
    HH, HT = m.nnet.get_corr()
    if HH is not None:
        mon.ok(np.asarray(HH).dtype == P and np.asarray(HT).dtype == P, "after %s, correlation matrices are %s, %s in a model of %s", op, np.asarray(HH).dtype, np.asarray(HT).dtype, name)


def run(case, mon, tmp):
    N, d, c = case["N"], case["d"], case["c"]
    P, eps = g.prec_of(case["prec"]), g.eps_of(case["prec"])
    X, T = g.make_data(case)
    X2, T2 = g.mat(X), g.mat(T)
    mon.hit("input type " + case["xdt"])
    mon.hit("input type " + case["tdt"])
    mon.hit("spelling " + case["prec"])
    if case["solver"] == "GPU":
        mon.hit("GPU solver models")
    hp = case["cl"] == "HPELM"
    p = lambda n: os.path.join(tmp, n)
    m = g.add_all(g.new_model(case, case["cl"]), case["neu"], d)
    mon.ok(np.dtype(m.precision) == P, "precision %r gives %s", case["prec"], m.precision)
    dtypes(m, mon, P, "adding neurons")
    H = np.asarray(m.project(X2), float)
    if not np.isfinite(H).all() or np.abs(H).max(initial=0) > 1e6:
        return
    aX, aT = X, T
    if case["files"] and hp and not {"g", "b1", "f2"} & {case["xdt"], case["tdt"]}:
        aX, aT = g.h5(p("x.h5"), X), g.h5(p("t.h5"), T)

    def ftype(f, shape, what):
        A, k = g.read_h5(f)
        mon.ok(A is not None and k == 1 and A.dtype == P, "%s file has type %s in a model of %s", what, None if A is None else A.dtype, np.dtype(P).name)
        mon.ok(A.shape == shape, "%s file has shape %s, expected %s", what, A.shape, shape)
        mon.hit("file types observed")
    for op, seed in case["ops"]:
        q = g.rs(seed, 3)
        L = m.nnet.L
        if op in ("predfile", "vcorr", "async") and m.nnet.get_B() is None or op in ("predfile", "projfile", "corrfile", "fsolve", "vcorr", "async") and not hp:
            continue
        if op == "wtrain" and c < 2:
            continue
        if op == "train":
            m.train(aX, aT)
        elif op == "wtrain":
            m.train(aX, aT, "wc", w=q.randint(1, 5, c).astype(["f8", "f4", "u1", "i8", "f2"][q.randint(5)]))
        elif op == "data":
            m.add_data(aX, aT) if m.classification is None else None
        elif op == "batchwise":
            m.nnet.add_batch(X2.astype(case["xdt"] if case["xdt"] not in ("b1",) else "f8"), T2.astype(P), q.rand(N).astype(["f8", "f4"][q.randint(2)]))
            m.nnet.solve()
        elif op == "neurons":
            n, W, B = g.neuron_arrays(d, [["tanh", "lin", "rbf_l1", "np.cos", "sigm"][q.randint(5)], 1, "given", seed])
            t = ["f8", "f4", "g", "i4", ">f8"][q.randint(5)]
            m.add_neurons(n, g.func_of(["tanh", "sigm", "np.cos", "lin"][q.randint(4)]), W.astype(t), B.astype(t))
        elif op == "setB":
            m.nnet.set_B(q.randn(L, c).astype(["f8", "f4", "i4", ">f4"][q.randint(4)]))
        elif op in ("setcorr", "solvecorr"):
            A = q.randn(L + 4, L)
            t = ["f8", "f4", ">f8"][q.randint(3)]
            HH, HT = (A.T.dot(A) + np.eye(L)).astype(t), q.randn(L, c).astype(t)
            if op == "setcorr":
                m.nnet.set_corr(HH, HT)
                m.nnet.solve()
            else:
                B = np.asarray(m.nnet.solve_corr(HH.astype(P), HT.astype(P)))
                mon.ok(B.dtype == P, "solve_corr() of a model of %s gives %s", np.dtype(P).name, B.dtype)
        elif op == "load":
            blob = m.dumps()
            if q.randint(2):
                m = g.new_model(case, case["cl"])
            if q.randint(2):     # saved by a model of the other precision
                q2 = g.new_model(case, case["cl"], prec="double" if P == np.float32 else "single")
                q2.loads(blob)
                dtypes(q2, mon, np.float64 if P == np.float32 else np.float32, "loads()")
                blob = q2.dumps()
                if q.randint(2):
                    q2.save(p("m.pkl"))
                    m.load(p("m.pkl"))
                    dtypes(m, mon, P, "load()")
                mon.hit("loads of the other precision")
            m.loads(blob)
        elif op == "prune":
            m.nnet._prune(np.sort(q.permutation(L)[:max(1, L - 1)]))
        elif op == "sel":
            if hp or L < 2 or N < 9 or "g" in (case["xdt"], case["tdt"]):
                continue
            a, k = [(["V"], dict(Xv=X[:3], Tv=T[:3])), (["CV"], dict(k=3)), (["LOO"], {}), (["V", "OP"], dict(Xv=X[:3], Tv=T[:3]))][q.randint(4)]
            _, e = g.call(m.train, X, T, *a, **k)
            if e is not None:
                if isinstance(e, (np.linalg.LinAlgError, AssertionError)):
                    return
                raise e
        elif op == "predfile":
            m.predict(aX, p("y.h5"))
            ftype(p("y.h5"), (N, c), "predict() output")
        elif op == "projfile":
            m.project(aX, p("h.h5"))
            ftype(p("h.h5"), (N, L), "project() output")
        elif op in ("corrfile", "fsolve"):
            for f in ("HH.h5", "HT.h5"):
                if os.path.exists(p(f)):
                    os.unlink(p(f))
            if m.classification == "wc":
                continue
            m.add_data(aX, aT, fHH=p("HH.h5"), fHT=p("HT.h5"))
            ftype(p("HH.h5"), (L, L), "HH")
            ftype(p("HT.h5"), (L, c), "HT")
            if op == "fsolve":
                m.solve_corr(p("HH.h5"), p("HT.h5"))
        elif op == "vcorr":
            if L < 2 or m.classification == "wc":
                continue
            for f in ("HH.h5", "HT.h5"):
                if os.path.exists(p(f)):
                    os.unlink(p(f))
            m.add_data(aX, aT, fHH=p("HH.h5"), fHT=p("HT.h5"))
            m.validation_corr(p("HH.h5"), p("HT.h5"), aX, aT, steps=[max(1, L // 2), L])
        elif op == "async":
            fx, ft = g.h5(p("ax.h5"), X2), g.h5(p("at.h5"), T2)
            m.train_async(fx, ft)
            m.predict_async(fx, p("y.h5"))
            ftype(p("y.h5"), (N, c), "predict_async() output")
            for f in ("HH.h5", "HT.h5"):
                if os.path.exists(p(f)):
                    os.unlink(p(f))
            m.add_data_async(fx, ft, fHH=p("HH.h5"), fHT=p("HT.h5"))
            ftype(p("HH.h5"), (L, L), "HH")
        mon.hit("op " + op)
        dtypes(m, mon, P, op)
    # accuracy: the same network in both precisions
    norm = case["norm"] if case["norm"] and case["norm"] >= 0.05 else 0.3
    pair = {}
    neu = g.groups(m)
    Wb = [(f, np.asarray(W, "f4"), np.asarray(B, "f4")) for f, W, B in neu]
    if not all(np.isfinite(W).all() and np.isfinite(B).all() for _, W, B in Wb):
        return
    for pr in ("single", "double"):
        t = g.new_model(case, case["cl"], prec=pr, norm=norm)
        for f, W, B in Wb:
            t.add_neurons(W.shape[1], g.func_of(f), W, B)
        t.train(aX, aT)
        pair[pr] = t
    e1, e2 = float(np.finfo("f4").eps), float(np.finfo("f8").eps)
    H2, dH2 = g.h_of(pair["double"], X2, e2)
    R, dR = o.hidden(X2, Wb, e2)
    close(mon, H2, R, 2*dR, "hidden layer in double precision")
    _, dH1 = o.hidden(X2, Wb, e1)
    H1 = np.asarray(pair["single"].project(X2), float)
    close(mon, H1, R, 2*dH1, "hidden layer in single precision")
    if not np.isfinite(dH1).all():
        return
    B1, B2 = np.asarray(pair["single"].nnet.get_B(), float), np.asarray(pair["double"].nnet.get_B(), float)
    Rd, Rs = o.Ridge(H2, T2, norm, e2, None, dH2), o.Ridge(H2, T2, norm, e1, None, dH1)
    Rd.check(B2, mon, "double-precision training")
    Rs.check(B1, mon, "single-precision training")
    if Rs.strict and Rs.regular:
        mon.hit("precision pairs compared")
        Y1, Y2 = np.asarray(pair["single"].predict(aX), float), np.asarray(pair["double"].predict(aX), float)
        dev = float(np.linalg.norm(Y1 - Y2))
        tol = Rs.tol + 2*Rs.tolB*np.linalg.norm(B1) + float(np.linalg.norm(g.pred_tol(H1, dH1, B1, e1))) + 1e-12*np.linalg.norm(Y2)
        mon.ok(dev <= tol, "predictions in single and double precision differ by %g, rounding allows %g (|T|=%g)", dev, tol, Rs.nT)
        if tol < 1e-3*Rs.nT:
            mon.hit("tight comparisons")
    close(mon, np.asarray(pair["double"].predict(aX), float), H2.dot(B2), 2*g.pred_tol(H2, dH2, B2, e2), "predictions in double precision")
