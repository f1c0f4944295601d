"""C21: a training call on a model with a history against the same call on a fresh model with the same neurons."""
import os
import numpy as np
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C21", "exploration", 15
RULE = ("random histories of 1-8 operations (trainings in other modes and weights, selections, added data, solving from files, set solutions, failed calls, neuron changes) followed by a "
        "training call; non-trivial: the trained model was compared with a fresh one; then retraining and continued adding are compared too")
HIST = ["train", "c", "wc", "wcw", "ml", "r", "batch", "V", "CV", "LOO", "opk", "add", "adddata", "predict", "error", "neurons", "setB", "setcorr", "reset", "fail", "loads",
        "addf", "solvef", "vcorr", "range"]
FINAL = ["train", "c", "wc", "wcw", "ml", "r", "V", "CV", "opk", "range", "rep"]
REQUIRE = ["history " + k for k in HIST] + ["final " + k for k in FINAL] + ["fresh models compared", "retrained", "continued", "unused arguments"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmax=60, dmax=5, cmax=4, pbig=0.01, nmin=8)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=10, pbig=0.01), cl=rng.choice(["ELM", "HPELM"]), ctor=rng.choice(["", "", "", "c", "wc", "wcw", "ml"]),
             tk=rng.choice(["onehot", "onehot", "skew", c["tk"]]), hist=[[rng.choice(HIST), rng.randrange(1 << 30)] for _ in range(rng.randint(1, 8))], final=rng.choice(FINAL),
             fs=rng.randrange(1 << 30))
    if c["tk"] in ("onehot", "skew"):
        c["c"] = max(2, c["c"])
    return c


def fix(c):
    cl = {"c", "wc", "wcw", "ml"}
    if c["ctor"] or c["final"] in cl or any(h in cl for h, _ in c["hist"]):
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted"):
            c["tk"] = "onehot"
    c["N"] = max(8, c["N"])
    return c


B0 = dict(N=25, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.1,
          neu=[["tanh", 4, "given", 3], ["lin", 2, "given", 5], ["rbf_l2", 2, "given", 5]], cl="ELM", ctor="", hist=[], final="train", fs=1)
DIRECTED = [dict(B0, cl=cl, ctor=ct, hist=[[h, i + 3]], final=f, fs=i, ds=i, solver=sv) for i, (cl, ct, sv) in enumerate((("ELM", "", ""), ("HPELM", "", ""), ("ELM", "wcw", "basic"), ("HPELM", "wc", "")))
            for h in HIST for f in ("train", "wc", "r", "c", "CV" if cl == "ELM" else "range")] + \
           [dict(B0, hist=[["fail", i]], final="opk", fs=j, ds=i, solver=sv) for i in range(14) for j in range(3) for sv in ("", "basic")]


def flags(kind, c, seed):
    w = np.round(g.rs(seed, 8).rand(c)*3 + 0.3, 2)
    return {"train": ([], {}), "c": (["c"], {}), "wc": (["wc"], {}), "wcw": (["wc"], dict(w=w)), "ml": (["ml"], {}), "r": (["r"], {})}[kind]


def new(case):
    over = dict(cls=case["ctor"][:2])
    if case["ctor"] == "wcw":
        over["w"] = np.arange(1, case["c"] + 1) * 0.6
    return g.new_model(case, case["cl"], **over)


def step(case, m, op, seed, tmp, X, T, allc, mon):
    """One history operation; returns False if it does not apply."""
    r = g.rs(seed, 4)
    hp, c = case["cl"] == "HPELM", case["c"]
    p = lambda n: os.path.join(tmp, n)
    n = r.randint(5, len(X) + 1)
    ix = r.permutation(len(X))[:n]
    X, T = X[ix], T[ix]
    full = bool((T.sum(0) > 0).all()) if allc else False
    mode_ok = c > 1 and allc
    np.random.seed(seed % (1 << 31))
    L = m.nnet.L
    wcok = m.classification != "wc" or m.wc is not None
    auto = case["ctor"] == "wc"          # weights come from the data of the call
    if op in ("c", "wc", "wcw", "ml", "r", "train", "batch", "range"):
        if op in ("c", "wc", "wcw", "ml") and not mode_ok:
            return False
        if (op == "wc" or auto and op in ("train", "batch", "range")) and not full:
            return False
        a, k = flags(op if op not in ("batch", "range") else "train", c, seed)
        if op == "batch":
            k = dict(batch=int(r.randint(1, 9)))
        if op == "range":
            if not hp or auto:
                return False
            k = dict(istart=int(r.randint(0, 3)), icount=int(r.randint(1, 9)))
        if r.randint(2):      # arguments of other algorithms, not used by this one
            u = dict(kmax=1, k=3, Xv=X[:3], Tv=T[:3], w=np.arange(1.0, c + 1))
            ks = [("kmax", "k"), ("kmax",), ("Xv", "Tv"), ("w",), ("w", "kmax", "k", "Xv", "Tv")][r.randint(5)]
            k = dict({q: u[q] for q in ks}, **k)
            mon.hit("unused arguments")
        m.train(X, T, *a, **k)
    elif op in ("V", "CV", "LOO", "opk"):
        if hp or L < 2 or n < 8 or (auto and not full):
            return False
        a, k = {"V": (["V"], dict(Xv=X[:4], Tv=T[:4])), "CV": (["CV"], dict(k=3)), "LOO": (["LOO"], {}), "opk": (["V", "OP"], dict(kmax=1 + r.randint(L), Xv=X[:5], Tv=T[:5]))}[op]
        if mode_ok and r.randint(2):
            a = a + [["c", "ml"][r.randint(2)]]
        _, e = g.call(m.train, X, T, *a, **k)
        if e is not None and not isinstance(e, (np.linalg.LinAlgError, AssertionError)):
            raise e
    elif op in ("add", "adddata"):
        if not wcok:
            return False
        m.add_data(X, T)
        if op == "add":
            m.nnet.solve()
    elif op == "predict":
        if m.nnet.get_B() is None:
            m.project(X)
        else:
            m.predict(X)
    elif op == "error":
        if not wcok:
            return False
        m.error(T, T + 0.1*r.randn(*T.shape))
        if m.classification:
            m.confusion(T, T)
    elif op == "neurons":
        m.add_neurons(2, ["tanh", "sigm", "rbf_l1"][r.randint(3)], r.randn(case["d"], 2), np.abs(r.randn(2)) + 0.5)
    elif op == "setB":
        m.nnet.set_B(r.randn(L, c))
    elif op == "setcorr":
        A = r.randn(L + 2, L)
        m.nnet.set_corr(A.T.dot(A) + np.eye(L), r.randn(L, c))
        if r.randint(2):
            m.nnet.solve()
    elif op == "reset":
        m.nnet.reset()
    elif op == "fail":
        k = r.randint(11)
        f = [lambda: m.train(X, T, "c", "wc"), lambda: m.train(X, T[:-1]), lambda: m.train(X[:, :0], T), lambda: m.train(X, T, "wc", w=np.ones(c + 2)),
             lambda: m.train(X, T, "V") if not hp else m.add_data(X, T[:-1]), lambda: m.train(X, T, "CV", k=2) if not hp else m.predict(X[:, :0]),
             lambda: m.train(X.astype("U8"), T, "c"), lambda: m.train(X, T[:-1], "OP", "LOO", kmax=1), lambda: m.train(X, T, "c", "ml", "LOO", "OP", kmax=1),
             lambda: m.train(X, T, "CV", "OP", kmax=1) if not hp else m.project(X[:, :0]), lambda: m.train(X, T, "OP", "CV", kmax=1, k=2) if not hp else m.error(T, T[:, :0])][k]
        _, e = g.call(f)
        if e is None:
            raise AssertionError("unsuitable call %d was accepted" % k)
    elif op == "loads":
        m.loads(m.dumps())
    elif op in ("addf", "solvef", "vcorr"):
        if not hp or not wcok:
            return False
        for k in ("HH.h5", "HT.h5"):
            if os.path.exists(p(k)):
                os.unlink(p(k))
        m.add_data(X, T, fHH=p("HH.h5"), fHT=p("HT.h5"))
        if op == "solvef":
            m.solve_corr(p("HH.h5"), p("HT.h5"))
        elif op == "vcorr":
            m.validation_corr(p("HH.h5"), p("HT.h5"), X, T, steps=[max(1, L // 2), L])
    return True


def run(case, mon, tmp):
    N, c, hp = case["N"], case["c"], case["cl"] == "HPELM"
    X, T = g.make_data(case)
    X, T = g.mat(X), g.mat(T)
    allc = case["tk"] in ("onehot", "skew", "sorted")
    m = g.add_all(new(case), case["neu"], case["d"])
    if not np.isfinite(np.asarray(m.project(X), float)).all():
        return
    final = case["final"]
    kept = [np.asarray(v).tobytes() for q in m.nnet.get_neurons() for v in q[2:]]
    for op, seed in case["hist"]:
        if step(case, m, op, seed, tmp, X, T, allc, mon):
            mon.hit("history " + op)
    same = kept == [np.asarray(v).tobytes() for q in m.nnet.get_neurons() for v in q[2:]] and "loads" not in [h for h, _ in case["hist"]]
    f = g.copy_neurons(m, new(case)) if not same else g.add_all(new(case), case["neu"], case["d"])
    if not np.isfinite(np.asarray(m.project(X), float)).all():
        return
    f.batch = m.batch     # a batch size given to train() stays, by documentation; with it both computations are the same to the bit
    r = g.rs(case["fs"], 5)
    a, k = [], {}
    sel = False
    lo, hi = 0, N
    full = allc and bool((T.sum(0) > 0).all())
    if final in ("c", "wc", "wcw", "ml", "r", "train"):
        a, k = flags(final, c, case["fs"])
    elif final in ("V", "CV", "opk"):
        if hp or m.nnet.L < 2:
            final = "train"
        else:
            sel = True
            a, k = {"V": (["V"], dict(Xv=X[:4], Tv=T[:4])), "CV": (["CV"], dict(k=4)), "opk": (["V", "OP"], dict(Xv=X[:5], Tv=T[:5]))}[final]
            if r.randint(2):
                a = a + ["OP"]
    elif final == "range":
        if not hp:
            final = "train"
        else:
            lo = int(r.randint(0, N))
            hi = min(N, lo + int(r.randint(1, N + 1)))
            k = dict(istart=lo, icount=hi - lo)
            full = allc and bool((T[lo:hi].sum(0) > 0).all())
    mode = f.classification if final not in ("c", "wc", "wcw", "ml", "r") else {"c": "c", "wc": "wc", "wcw": "wc", "ml": "ml", "r": None}[final]
    if mode == "wc" and "w" not in k and case["ctor"] != "wcw" and not full:
        return
    out = []
    for q in (f, m):
        np.random.seed(case["fs"] % (1 << 31))
        e = None
        for _ in range(2 if final == "rep" and q is m else 1):
            v, e = g.call(q.train, X, T, *a, **k)
        if e is not None and not (sel and isinstance(e, (np.linalg.LinAlgError, AssertionError))):
            raise e
        out.append((v, None if e is None else type(e).__name__))
    mon.hit("final " + final)
    mon.ok(out[0][1] == out[1][1], "the same training call fails with %s on a model with history, with %s on a fresh one", out[1][1], out[0][1])
    if out[0][1]:
        return
    mon.ok(m.classification == f.classification == mode, "mode after training is %r, on a fresh model %r, expected %r", m.classification, f.classification, mode)
    if mode == "wc":
        mon.ok(m.wc is not None and f.wc is not None and np.allclose(m.wc, f.wc, rtol=1e-6), "class weights after training are %s, on a fresh model %s", m.wc, f.wc)
    eps = g.eps_of(case["prec"])
    if sel:
        mon.ok([(x[0], x[1].shape) for x in g.groups(m)] == [(x[0], x[1].shape) for x in g.groups(f)],
               "selection keeps %r on a model with history, %r on a fresh one", str(m), str(f))
        mon.ok(all(np.array_equal(x[1], y[1]) and np.array_equal(x[2], y[2]) for x, y in zip(g.groups(m), g.groups(f))), "selection keeps other neurons on a model with history")
        if out[0][0] is not None:
            mon.ok(np.isclose(out[0][0], out[1][0], rtol=1e-6), "training returns %s on a model with history, %s on a fresh one", out[1][0], out[0][0])
    mon.ok(m.nnet.L == f.nnet.L, "number of neurons differs")
    Xs, Ts = X[lo:hi], T[lo:hi]
    H, dH = g.h_of(f, Xs, eps)
    sw = o.class_weights(Ts, f.wc) if mode == "wc" else None
    R = o.Ridge(H, Ts, g.norm_of(case), eps, sw, dH)
    o.same_fit(R, m.nnet.get_B(), f.nnet.get_B(), mon, "training with history and fresh training")
    R.check(m.nnet.get_B(), mon, "training with history")
    P = Ts + 0.5*r.randn(*Ts.shape)
    e1, e2 = float(m.error(Ts, P)), float(f.error(Ts, P))
    mon.ok(abs(e1 - e2) <= 1e-9*abs(e1) + 1e-6*(mode == "wc"), "error() is %r on a model with history, %r on a fresh one", e1, e2)
    mon.hit("fresh models compared")
    # the same call again
    if not sel:
        B1 = np.array(m.nnet.get_B())
        m.train(X, T, *a, **k)
        o.same_fit(R, m.nnet.get_B(), B1, mon, "repeated training")
        mon.hit("retrained")
    # adding continues from the training data
    n2 = int(r.randint(1, N + 1))
    ix = r.permutation(N)[:n2]
    X2, T2 = X[ix], T[ix]
    m.add_data(X2, T2)
    m.nnet.solve()
    Ha, Ta = np.vstack((H, g.h_of(f, X2, eps)[0])), np.vstack((Ts, T2))
    dHa = np.vstack((dH, g.h_of(f, X2, eps)[1]))
    Ra = o.Ridge(Ha, Ta, g.norm_of(case), eps, o.class_weights(Ta, m.wc) if mode == "wc" else None, dHa)
    Ra.check(m.nnet.get_B(), mon, "data added after training")
    mon.hit("continued")
