"""C02: trained weights against an exact solution of the regularised least-squares problem (SVD of the model's own H)."""
import os
import numpy as np
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C02", "exploration", 15
RULE = ("random training problems (data kinds, dtypes, neuron mixes incl. duplicates and more neurons than samples, norms None..1000, "
        "both solvers, precisions, classes, file or array); non-trivial: the solution was compared with the SVD solution within a "
        "rounding bound below 1% of |T|, or checked finite where the problem is numerically singular")
REQUIRE = ["targets of another scale", "strict least-squares comparisons", "rank-deficient problems", "single precision problems", "large norm problems"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmax=150)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D), cl=rng.choice(["ELM", "HPELM"]), src=rng.choice(["arr", "arr", "file"]))
    c["ts"] = rng.choice([0]*9 + [-14, -9, 6])
    if rng.random() < 0.15:   # exactly duplicated neurons
        c["neu"] = c["neu"] + [list(n) for n in c["neu"][:2] if n[2] not in ("auto", "W", "B")]
    return c


def fix(c):
    if c["src"] == "file":
        c["cl"] = "HPELM"
    if np.dtype(c["tdt"]).kind != "f" or c["tdt"][-2:] == "f2":
        c["ts"] = 0
    return c


DIRECTED = [dict(N=n, d=3, c=2, xk=xk, tk="normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=n, prec=p, solver=s,
                 batch=10, norm=nm, neu=[["tanh", 4, md, 3], ["lin", 2, "given", 8]], cl=cl, src="arr")
            for p in ("double", "single") for s in ("", "basic") for cl in ("ELM", "HPELM") for n, xk in ((40, "normal"), (3, "normal"), (20, "zeros"))
            for nm in (None, 2.0) for md in ("given", "dup")]
# thousands of samples: below, at and above sizes that an implementation may cut at
DIRECTED += [dict(DIRECTED[0], N=n, d=2, solver=s, cl=cl, batch=b, ds=n, neu=[["tanh", 4, "given", 3], ["lin", 1, "given", 8]], norm=0.5) for n in (4096, 4097, 8193, 10001, 16385)
             for s in ("", "basic") for cl, b in (("ELM", 1000), ("HPELM", 1000), ("HPELM", 5000), ("HPELM", 20000))]
DIRECTED += [dict(DIRECTED[0], N=n, d=2, solver=s, cl=cl, batch=b, ds=n, neu=[["tanh", 3, "given", 3]], norm=0.5) for n, cl, b in ((70001, "ELM", 1000), (70001, "HPELM", 70001)) for s in ("", "basic")]
# targets of a small scale
DIRECTED += [dict(c, ts=-14) for c in DIRECTED[:48] if c["neu"][0][2] == "dup" or c["norm"] is None]
DIRECTED += [dict(c, ts=ts, norm=nm, N=40, xk="normal", neu=[["tanh", 4, "dup", 3], ["lin", 1, "zero", 8]]) for c in DIRECTED[:48:12] for ts in (-14, 0) for nm in (0.0, 1e-30)]


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    X, T = g.make_data(case)
    if case.get("ts"):
        T = T * T.dtype.type(10.0**case["ts"])
        mon.hit("targets of another scale")
    m = g.add_all(g.new_model(case, case["cl"]), case["neu"], case["d"])
    if case["src"] == "file":
        fx = g.h5(os.path.join(tmp, "x.h5"), g.mat(X))
        ft = g.h5(os.path.join(tmp, "t.h5"), g.mat(T))
        m.train(fx, ft)
    else:
        m.train(X, T)
    H, dH = g.h_of(m, g.mat(X), eps)
    if not np.isfinite(H).all():
        return
    norm = case["norm"] if case["norm"] is not None else 50 * eps
    R = o.Ridge(H, g.mat(T), norm, eps, dH=dH)
    R.check(m.nnet.get_B(), mon, "training")
    if not R.regular or R.cond > 1e6 or H.shape[0] < H.shape[1]:
        mon.hit("rank-deficient problems")
    if eps > 1e-10:
        mon.hit("single precision problems")
    if norm > 0.1:
        mon.hit("large norm problems")
    if R.strict:
        mon.hit("bound below 1e-6 |T|", R.tol < 1e-6*R.nT)
    # the weights are those used for prediction
    Y = m.predict(g.mat(X))
    B = np.asarray(m.nnet.get_B(), dtype=np.float64)
    t = 8*(H.shape[1] + 8)*eps*np.abs(H).dot(np.abs(B)) + (1e-290 if eps < 1e-10 else 1e-30)*(1 + np.abs(B).sum(0))
    mon.ok(bool((np.abs(Y - H.dot(B)) <= t).all()), "predictions are not hidden layer times output weights")
