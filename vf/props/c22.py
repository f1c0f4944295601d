"""C22: paired models with all solvers run the same operations; every observable part is compared with the reference and with each other."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o, select as sel, fakecuda
from . import c12, c13, c15

ID, LEVEL, QUICK_S = "C22", "exploration", 18
RULE = ("random sequences of 2-10 operations (adding data in batches with weights, solving, correlation matrices read / set back / exchanged between solvers, pruning, saving and loading "
        "across solvers, trainings, new neurons) on one model per solver (basic, default, GPU on a NumPy model of the documented CUDA library semantics); selections by the GPU solver "
        "are judged like in C12, C13, C15; non-trivial: all solvers compared after an operation")
OPS = ["add", "addw", "batchw", "solve", "read", "self", "cross", "given", "train", "trainc", "trainw", "prune", "save", "neurons", "solvecorr", "setB", "norm", "reset"]
REQUIRE = ["op " + k for k in OPS] + ["solutions compared", "predictions compared", "correlations compared", "GPU selections V", "GPU selections CV", "GPU selections LOO", "read in mid-training",
                                      "kernel launches", "single precision rank-k updates"]
ASSUMPTIONS = ["The GPU solver runs on a NumPy model of PyCUDA / scikit-cuda written from their documentation (memory order, operand types, raw-pointer BLAS); no device is present."]
SOLVERS = ["basic", "", "GPU"]


def gen(rng, D):
    if rng.random() < 0.12:
        c = sel.gen_case(rng, D, ops=("V", "CV", "LOO"), lmax=10)
        c.update(kind="sel", solver="GPU", judge=rng.choice(["c12", "c12", "c13", "c15"]), xk="normal")
        return c
    c = g.gen_data(rng, D, nmax=60, dmax=6, cmax=4, pbig=0.01)
    c.update(g.gen_cfg(rng, c["N"]), kind="ops", neu=g.gen_neurons(rng, D, lmax=10, pbig=0.03), cl=rng.choice(["ELM", "ELM", "HPELM"]),
             ops=[[rng.choice(OPS), rng.randrange(1 << 30)] for _ in range(rng.randint(2, 10))])
    if rng.random() < 0.5:
        c["tk"], c["c"] = rng.choice(["onehot", "skew"]), max(2, c["c"])
    return c


def fix(c):
    if c.get("kind") == "sel":
        for k, v in dict(c12.B0, judge="c12", solver="GPU").items():
            c.setdefault(k, v)
        c["neu"] = [[f, n, m if m in ("given", "f4", "F") else "given", e] for f, n, m, e in c["neu"]]
        c["solver"], c["N"], c["Nv"] = "GPU", min(70, max(10, c["N"])), max(2, c["Nv"])
        if c["judge"] == "c13" and c["op"] == "LOO":
            c["op"] = "V"
        if c["judge"] == "c15":
            c["op"], c["mode"], c["xk"], c["xdt"], c["N"] = "LOO", "", "normal", "f8", min(c["N"], 50)
            if c["tk"] in ("onehot", "skew", "sorted", "ml"):
                c["tk"] = "lincomb"
        return sel.fix(c)
    for k, v in dict(kind="ops", cl="ELM", ops=[["add", 1], ["solve", 1]]).items():
        c.setdefault(k, v)
    if any(op in ("trainc", "trainw", "addw") for op, _ in c["ops"]):
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted"):
            c["tk"] = "onehot"
    return c


B0 = dict(N=20, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.1,
          neu=[["tanh", 4, "given", 3], ["lin", 2, "F", 5], ["sigm", 3, "given", 4], ["rbf_l2", 2, "given", 5], ["np.sin", 2, "step", 5]], cl="ELM", kind="ops", ops=[])
DIRECTED = [dict(B0, cl=cl, prec=p, batch=b, norm=nm, xlay=lay, tlay=lay, ds=i, ops=[[op, j + i] for j, op in enumerate(ops)])
            for i, (cl, p, b, nm, lay) in enumerate((cl, p, b, nm, lay) for cl in ("ELM", "HPELM") for p in ("double", "single") for b, nm in ((7, 0.1), (1000, None), (1, 1.0))
                                                    for lay in ("C", "F", "rev"))
            for ops in (("add", "read", "addw", "solve", "cross", "add", "solve", "prune", "add", "solve", "save", "add", "solve"),
                        ("trainw", "read", "add", "self", "solve", "neurons", "trainc", "prune", "train", "solvecorr", "given", "solve", "setB", "norm", "train", "reset", "batchw", "solve"))]
DIRECTED += [dict(c12.B0, kind="sel", judge="c13" if op != "LOO" else j, op=op, opp=opp, kmax=km, mode=md, solver="GPU", prec=p, norm=nm) for op in ("V", "CV", "LOO") for opp, km in ((False, 0), (True, 3))
             for md in ("", "wc", "ml") for p, nm in (("double", 0.1), ("single", 0.3)) for j in ("c12", "c15")]


def run(case, mon, tmp):
    L0, S0 = fakecuda.STATS["launch"], fakecuda.STATS["syrk"]
    try:
        if case["kind"] == "sel":
            mod = dict(c12=c12, c13=c13, c15=c15)[case["judge"]]
            mod.run(case, mon, tmp)
            mon.hit("GPU selections " + case["op"])
        else:
            ops(case, mon, tmp)
    finally:
        mon.hit("kernel launches", fakecuda.STATS["launch"] - L0)
        mon.hit("single precision rank-k updates", fakecuda.STATS["syrk"] - S0)


def ops(case, mon, tmp):
    N, d, c = case["N"], case["d"], case["c"]
    eps = g.eps_of(case["prec"])
    P = g.prec_of(case["prec"])
    X, T = g.make_data(case)
    X2, T2 = g.mat(X), g.mat(T)
    Xp = g.mat(g.make_data(case, salt=4, N=max(1, min(N, 9)))[0])
    new = lambda s, **k: g.new_model(case, case["cl"], solver=s, **k)
    ms = {s: g.add_all(new(s), case["neu"], d) for s in SOLVERS}
    cuda = fakecuda.STATS["copies"]
    data = []            # what the correlation matrices hold: (X, T, weights)
    norm = g.norm_of(case)
    mode, solved = None, None
    fresh = lambda: [(X2[ix], T2[ix], None) for ix in [q.permutation(N)[:1 + q.randint(N)]]][0]

    def hidden(A):
        """Hidden layer by the basic solver, compared with the others."""
        H, dH = g.h_of(ms["basic"], A, eps)
        if not np.isfinite(H).all() or not np.isfinite(dH).all() or np.abs(H).max(initial=0) > 1e12:
            return None, None
        for s in SOLVERS[1:]:
            close(mon, np.asarray(ms[s].project(A)), H, 2*dH, "hidden layer of the %r solver" % s)
        return H, dH

    def ref():
        H, dH = hidden(np.vstack([a for a, _, _ in data]))
        Tt = np.vstack([t for _, t, _ in data])
        w = np.hstack([np.ones(len(a)) if v is None else v for a, _, v in data])
        return H, dH, Tt, w
    H, dH = hidden(X2)
    if H is None:
        return
    for op, seed in case["ops"]:
        q = g.rs(seed, 9)
        A, Tq, _ = fresh()
        L = ms[""].nnet.L
        if op == "addw" and mode != "wc":
            op = "add"
        if op in ("add", "addw"):
            w = None
            if mode == "wc":
                if (T2.sum(1) != 1).any():
                    continue
                w = o.class_weights(Tq, ms[""].wc)
            Xq, Tl = g.layout(A.astype(case["xdt"] if case["xdt"] != "b1" else "f8"), case["xlay"], q), g.layout(Tq, case["tlay"], q)
            for s in SOLVERS:
                ms[s].add_data(Xq, Tl)
            data.append((g.mat(Xq), Tq, w))
        elif op == "batchw":
            w = np.round(q.rand(len(A))*3 + 0.1, 2)
            for s in SOLVERS:
                ms[s].nnet.add_batch(A.astype(P), Tq.copy(), w)
            data.append((A, Tq, w))
        elif op == "reset":
            for s in SOLVERS:
                ms[s].nnet.reset()
            data = []
        elif op == "solve":
            if not data:
                continue
            for s in SOLVERS:
                ms[s].nnet.solve()
            solved = ref() + (norm,)
        elif op == "read":
            for s in SOLVERS:
                ms[s].nnet.get_corr()
            mon.hit("read in mid-training")
        elif op == "self":
            if not data:
                continue
            for s in SOLVERS:
                ms[s].nnet.set_corr(*ms[s].nnet.get_corr())
        elif op == "cross":
            if not data:
                continue
            corr = [ms[s].nnet.get_corr() for s in SOLVERS]
            k = 1 + q.randint(2)
            for i, s in enumerate(SOLVERS):
                ms[s].nnet.set_corr(*corr[(i + k) % 3])
        elif op == "given":
            H, dH = hidden(A)
            if H is None:
                return
            HH, HT = o.corr(H, Tq, norm)
            for s in SOLVERS:
                ms[s].nnet.set_corr(g.layout(HH, case["xlay"], q), g.layout(HT, case["tlay"], q))
            data = [(A, Tq, None)]
        elif op in ("train", "trainc", "trainw"):
            a, k = dict(train=([], {}), trainc=(["c"], {}), trainw=(["wc"], dict(w=np.round(q.rand(c)*3 + 0.2, 2))))[op]
            for s in SOLVERS:
                ms[s].train(X, T, *a, **k)
            mode = a[0] if a else None
            w = o.class_weights(T2, k["w"]) if mode == "wc" else None
            data = [(X2, T2, w)]
            solved = ref() + (norm,)
        elif op == "prune":
            keep = [int(v) for v in q.permutation(L)[:1 + q.randint(L)]]
            if q.randint(2):
                keep.sort()
            for s in SOLVERS:
                ms[s].nnet._prune(keep)
                mon.ok(ms[s].nnet.get_B() is None, "%r solver keeps its solution after pruning", s)
            data, solved = [], None
        elif op == "neurons":
            f = ["tanh", "rbf_l1", "lin", "sigm", "np.cos", "rbf_linf"][q.randint(6)]
            n, W, B = g.neuron_arrays(d, [f, 2, ["given", "F", "step", "f4"][q.randint(4)], seed])
            for s in SOLVERS:
                ms[s].add_neurons(n, g.func_of(f), W, B)
                mon.ok(ms[s].nnet.get_B() is None, "%r solver keeps its solution after adding neurons", s)
            data, solved = [], None
        elif op == "save":
            k = 1 + q.randint(2)
            blobs = []
            for i, s in enumerate(SOLVERS):
                ms[s].save(os.path.join(tmp, "m"))
                with open(os.path.join(tmp, "m"), "rb") as f:
                    blobs.append(f.read())
            for i, s in enumerate(SOLVERS):
                t = new(s)
                t.loads(blobs[(i + k) % 3])
                t.batch = ms[s].batch
                mon.ok(type(t.nnet) is type(ms[s].nnet), "solver type lost by loading")
                ms[s] = t
            data = []
        elif op == "norm":
            norm = float(np.round(0.05 + q.rand(), 3))
            for s in SOLVERS:
                ms[s].nnet.norm = norm
                ms[s].nnet.reset()
            data = []
        elif op == "setB":
            B = g.layout(q.randn(L, c), case["xlay"], q)
            for s in SOLVERS:
                ms[s].nnet.set_B(B)
                mon.ok(np.array_equal(ms[s].nnet.get_B(), B.astype(P)), "%r solver returns other weights than those set", s)
            solved = None
        elif op == "solvecorr":
            H, dH = hidden(A)
            if H is None:
                return
            nm = max(norm, 1e-3*(np.abs(H)**2).sum())
            HH, HT = o.corr(H, Tq, nm)
            R = o.Ridge(H, Tq, nm, eps, None, dH)
            HH, HT = g.layout(HH.astype(P), "F" if q.randint(2) else "C", q), HT.astype(P)
            Bs = [np.asarray(ms[s].nnet.solve_corr(HH, HT)) for s in SOLVERS]
            for s, B in zip(SOLVERS, Bs):
                R.check(B, mon, "%r solver, given matrices" % s)
        mon.hit("op " + op)
        # -- comparisons
        got = [ms[s].nnet.get_corr() for s in SOLVERS]
        if not data:
            mon.ok(all(HH is None and HT is None for HH, HT in got), "correlation matrices present without data: %s", [HH is not None for HH, _ in got])
        elif q.randint(3) or op in ("solve", "self", "cross", "given"):
            H, dH, Tt, w = ref()
            if H is None:
                return
            eA, eB = o.corr(H, Tt, norm, w)
            tA, tB = o.corr_tol(H, Tt, norm, eps, w, dH)
            for s, (HH, HT) in zip(SOLVERS, got):
                mon.ok(np.asarray(HH).dtype == P and np.asarray(HT).dtype == P, "%r solver returns correlation matrices of type %s, %s", s, np.asarray(HH).dtype, np.asarray(HT).dtype)
                close(mon, HH, eA, 2*tA, "HH of the %r solver after %s" % (s, op))
                close(mon, HT, eB, 2*tB, "HT of the %r solver after %s" % (s, op))
            mon.hit("correlations compared")
        for s in SOLVERS[1:]:
            mon.ok(str(ms[s]) == str(ms["basic"]), "string forms differ: %r, %r", str(ms[s]), str(ms["basic"]))
            mon.ok(ms[s].nnet.L == ms["basic"].nnet.L, "numbers of neurons differ: %s, %s", ms[s].nnet.L, ms["basic"].nnet.L)
            for (f1, W1, b1), (f2, W2, b2) in zip(g.groups(ms["basic"]), g.groups(ms[s])):
                mon.ok(f1 == f2 and W2.dtype == P and np.array_equal(W1, W2) and np.array_equal(b1, b2), "stored neurons of the %r solver differ", s)
        Bs = [ms[s].nnet.get_B() for s in SOLVERS]
        has = [B is not None for B in Bs]
        mon.ok(len(set(has)) == 1, "some solvers have a solution, some do not: %s", has)
        if has[0]:
            for s, B in zip(SOLVERS, Bs):
                mon.ok(np.asarray(B).dtype == P and B.shape == (ms[s].nnet.L, c), "solution of the %r solver is %s %s", s, np.asarray(B).dtype, np.shape(B))
            if solved is not None and solved[0] is not None and op in ("solve", "train", "trainc", "trainw", "save"):
                H, dH, Tt, w, nm = solved
                R = o.Ridge(H, Tt, nm, eps, w, dH)
                for s, B in zip(SOLVERS, Bs):
                    R.check(B, mon, "solution of the %r solver after %s" % (s, op))
                for s, B in zip(SOLVERS[1:], Bs[1:]):
                    o.same_fit(R, Bs[0], B, mon, "solutions of the basic and the %r solver" % s)
                mon.hit("solutions compared")
            Hp, dHp = hidden(Xp)
            if Hp is None:
                return
            for s, B in zip(SOLVERS, Bs):
                if np.isfinite(B).all():
                    Y = np.asarray(ms[s].predict(Xp))
                    close(mon, Y, Hp.dot(np.asarray(B, float)), g.pred_tol(Hp, dHp, B, eps), "predictions of the %r solver after %s" % (s, op))
            mon.hit("predictions compared")
        else:
            for s in SOLVERS:
                mon.ok(g.call(ms[s].predict, Xp)[1] is not None, "%r solver predicts without a solution", s)
