"""C01: hidden layer and predictions against the written formulas, row by row."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C01", "exploration", 15
RULE = ("random models (mixes and orders of neuron types, given or random parameters, both classes, solvers, precisions) and data "
        "(kinds, dtypes, layouts, non-finite other rows, arrays or files, ranges of batch sizes); non-trivial: at least one hidden "
        "layer or prediction was compared value by value with the reference formulas")
REQUIRE = ["hidden layers compared", "predictions compared", "values compared", "files projected", "row subsets compared", "reused buffers compared", "small and large scales"]


def gen(rng, D):
    c = g.gen_data(rng, D)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D), cl=rng.choice(["ELM", "HPELM"]), src=rng.choice(["arr", "file"]),
             bad=rng.choice(["", "", "", "nan", "inf"]), wts=rng.choice(["train", "set"]), out=rng.choice(["none", "arr", "file"]),
             batch2=g.gen_batch(rng, c["N"]), ws=rng.randrange(1 << 20), sm=rng.random() < 0.06, sc=rng.choice([0, 0, 0, rng.randint(-9, 5)]))
    return c


def fix(c):
    if c.get("sm"):
        c["neu"] = [[f, n, "small" if m in ("given", "F", "f4", "sat") else m, s] for f, n, m, s in c["neu"]]
    if c["src"] == "file":
        c["cl"] = "HPELM"
    if c["bad"] and np.dtype(c["xdt"]).kind != "f":
        c["bad"] = ""
    if np.dtype(c["xdt"]).kind != "f" or c["xdt"] == "f2":
        c["sc"] = 0
    if g.prec_of(c["prec"]) is np.float32 or "4" in c["xdt"]:
        c["sc"] = max(-5, min(4, c.get("sc", 0)))
    return c


DIRECTED = [dict(N=9, d=3, c=2, xk="normal", tk="normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=5, prec=p,
                 solver=s, batch=4, norm=None, neu=[[f, 5, "given", 3], ["lin", 2, "given", 8], [f, 2, "given", 4]], cl=cl, src="arr",
                 bad="nan", wts="set", out="none", batch2=2, ws=1)
            for p in ("double", "single") for s in ("", "basic") for cl in ("ELM", "HPELM") for f in g.FUNCS + ["np.sin"]]
DIRECTED += [dict(DIRECTED[0], sc=sc, bad="", ds=i, neu=[[f, 5, "given", 3], ["tanh", 3, "given", 8]], cl=cl) for i, sc in enumerate((-9, -6, -3, 3, 5)) for f in ("rbf_l1", "rbf_l2", "rbf_linf") for cl in ("ELM", "HPELM")]
# thousands of samples: below, at and above sizes that an implementation may cut at
DIRECTED += [dict(DIRECTED[0], N=n, d=2, solver=s, cl=cl, batch=b, batch2=n // 2 + 1, bad=bad, ds=n, neu=[["tanh", 4, "given", 3], ["lin", 1, "given", 8]], norm=0.5) for n in (4096, 4097, 8193, 10001, 16385)
             for s in ("", "basic") for cl, b in (("ELM", 1000), ("HPELM", 1000), ("HPELM", 5000), ("HPELM", 20000)) for bad in ("", "nan")]

DIRECTED += [dict(DIRECTED[0], prec=p, cl=cl, solver=s, bad="", wts="train" if k % 2 else "set", norm=0.5, ds=k, neu=[["lin", n, "spec%d" % k, k]] + ([["tanh", n, "spec%d" % k, k + 20]] if k % 3 else []))
             for k in range(10) for n in (3, 3, 2, 5) for p, cl, s in (("double", "ELM", ""), ("single", "HPELM", "basic"))]
# tiny values, many inputs
DIRECTED += [dict(DIRECTED[0], d=d, N=12, prec=p, cl=cl, solver=s, bad="", neu=[[f, 5, "small", d + k]], ds=d + k) for k, (p, cl, s) in enumerate((("double", "ELM", ""), ("double", "HPELM", "basic"), ("single", "ELM", "")))
             for d in (2, 60, 130) for f in ("tanh", "lin", "sigm")]


def groups_of(case, m, eps):
    """Adds the neurons; returns the expected columns [(func, W, B)] from the given parameters (stored ones where random)."""
    d = case["d"]
    order, parts = [], {}
    for spec in case["neu"]:
        n, W, B = g.neuron_arrays(d, spec)
        f = spec[0]
        if case.get("sc"):     # data and parameters of another scale
            rbf = f.startswith("rbf")
            if W is not None and W.dtype.kind == "f":
                W = W * W.dtype.type(10.0 ** (case["sc"] if rbf else -case["sc"]))
            if B is not None and B.dtype.kind == "f" and rbf:
                B = B * B.dtype.type(10.0 ** (2*case["sc"]))
        np.random.seed(spec[3] % (1 << 31))
        m.add_neurons(n, g.func_of(f), W, B)
        if W is None or B is None:
            st = [x for x in m.nnet.get_neurons() if x[1] is g.func_of(f) or x[1] == f][0]
            k = min(n, d) if (f == "lin" and W is None) else n
            W = np.array(st[2])[:, -k:] if W is None else W
            B = np.array(st[3])[-k:] if B is None else B
        if f not in parts:
            order.append(f)
            parts[f] = []
        p = g.prec_of(case["prec"])
        parts[f].append((np.asarray(W).astype(p), np.asarray(B).astype(p)))
    return [(f, np.hstack([w for w, _ in parts[f]]), np.hstack([b for _, b in parts[f]])) for f in order]


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    X, T = g.make_data(case)
    if case.get("sc"):
        X = X * X.dtype.type(10.0 ** case["sc"])
        mon.hit("small and large scales")
    m = g.new_model(case, case["cl"])
    grp = groups_of(case, m, eps)
    L = sum(w.shape[1] for _, w, _ in grp)
    N = case["N"]
    good = np.ones(N, bool)
    Xm = g.mat(X)
    r = g.rs(case["ds"], 11)
    if case["wts"] == "train" and not case["bad"]:
        m.train(X, T)
    else:
        m.nnet.set_B(r.randn(L, case["c"]))
    if case["bad"]:
        rows = r.permutation(N)[:max(1, N // 4)]
        Xm = Xm.copy()
        Xm[rows, r.randint(0, case["d"], len(rows))] = {"nan": np.nan, "inf": np.inf}[case["bad"]]
        X = Xm.astype(case["xdt"])
        good[rows] = False
        mon.hit("cases with non-finite rows")
    Xm = np.asarray(X, dtype=np.float64).reshape(N, case["d"])
    ref, tol = o.hidden(Xm[good], grp, eps)
    B = np.array(m.nnet.get_B(), dtype=np.float64)
    yref = ref.dot(B)
    ytol = tol.dot(np.abs(B)) + 4*(L + 4)*eps*np.abs(ref).dot(np.abs(B)) + (1e-290 if eps < 1e-10 else 1e-30)*(1 + np.abs(B).sum(0))
    src = X
    if case["src"] == "file":
        src = g.h5(os.path.join(tmp, "x.h5"), Xm if X.dtype.kind == "b" else np.asarray(X).reshape(N, case["d"]))
        mon.hit("files projected")
    hp = case["cl"] == "HPELM"

    def call(op, width, what):
        if not hp or case["out"] == "none":
            return op(src)
        if case["out"] == "arr":
            out = np.zeros((N, width), dtype=g.prec_of(case["prec"]))
            op(src, out)
            return out
        f = os.path.join(tmp, what + ".h5")
        op(src, f)
        return g.read_h5(f)[0]
    for b in (case["batch"], case["batch2"]):
        m.batch = b
        H = call(m.project, L, "h")
        mon.ok(H.shape == (N, L), "hidden layer has shape %s, expected %s", H.shape, (N, L))
        close(mon, H[good], ref, tol, "hidden layer")
        mon.hit("hidden layers compared")
        Y = call(m.predict, case["c"], "y")
        mon.ok(Y.shape == (N, case["c"]), "prediction has shape %s, expected %s", Y.shape, (N, case["c"]))
        close(mon, Y[good], yref, ytol, "prediction")
        mon.hit("predictions compared")
        if not hp:
            break
    # rows on their own: any subset in any order
    idx = np.flatnonzero(good)
    if len(idx):
        idx = idx[r.permutation(len(idx))[:r.randint(1, len(idx) + 1)]]
        pos = np.searchsorted(np.flatnonzero(good), idx)
        close(mon, m.project(Xm[idx]), ref[pos], 2*tol[pos], "hidden layer of a row subset")
        close(mon, m.predict(Xm[idx]), yref[pos], 2*ytol[pos], "prediction of a row subset")
        mon.hit("row subsets compared")
        # a reused buffer: the values at the time of the call count
        buf = Xm[idx].copy()
        for k in range(3):
            i2 = r.permutation(len(idx))
            buf[:] = Xm[idx[i2]]
            p2 = np.searchsorted(np.flatnonzero(good), idx[i2])
            if (case["ws"] + k) % 2:
                close(mon, m.project(buf), ref[p2], 2*tol[p2], "hidden layer of a reused buffer")
            else:
                close(mon, m.predict(buf), yref[p2], 2*ytol[p2], "prediction of a reused buffer")
        mon.hit("reused buffers compared")
