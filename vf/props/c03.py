"""C03: the accumulated correlation matrices and the solution against the exact sums over the whole training set, for any cut and order."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C03", "exploration", 15
RULE = ("random data, neurons and a random history of add-data calls (chunk sizes, order of samples, batch size per call, intermediate "
        "solves and predictions, arrays or ranges of a file, class weights); non-trivial: correlation matrices and solution compared "
        "with the exact sums over all samples")
REQUIRE = ["correlation matrices compared", "strict least-squares comparisons", "intermediate solves", "incomplete last batches", "range chunks", "reused buffers"]


def gen(rng, D):
    mode = rng.choice(["", "", "", "c", "wc", "ml"])
    c = g.gen_data(rng, D, nmin=2, cls=mode)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=16), cl=rng.choice(["ELM", "HPELM"]), mode=mode,
             chunks=rng.choice([1, 1, 2, 3, 5]), src=rng.choice(["arr", "arr", "file", "range"]), perm=rng.random() < 0.7,
             solves=rng.randrange(8), batches=[g.gen_batch(rng, c["N"]) for _ in range(5)], first=rng.choice(["add", "add", "train"]),
             ws=rng.randrange(1 << 20), buf=rng.random() < 0.5)
    if c["buf"]:      # parts of one size
        c["chunks"] = rng.choice([2, 3, 4, 5])
        c["src"] = "arr"
    return c


def fix(c):
    if c["src"] != "arr":
        c["cl"] = "HPELM"
    if c["mode"] in ("c", "wc", "ml"):
        c["c"] = max(2, c["c"])
        c["tk"] = {"c": "onehot", "wc": "onehot", "ml": "ml"}[c["mode"]] if c["tk"] not in ("onehot", "skew", "sorted", "ml") else c["tk"]
        if c["mode"] == "wc" and c["tk"] == "ml":
            c["tk"] = "skew"
    return c


DIRECTED = [dict(N=n, d=2, c=2, xk="normal", tk="onehot" if md else "normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=n,
                 prec="double", solver=s, batch=b, norm=0.5, neu=[["tanh", 5, "given", 3]], cl=cl, mode=md, chunks=1, src="arr", perm=False,
                 solves=0, batches=[b]*5, first="train", ws=5)
            for s in ("", "basic") for cl in ("ELM", "HPELM") for md in ("", "wc") for n in (7, 12) for b in (1, 2, 3, 5, 6, 7, 11, 12, 13)]
# thousands of samples: below, at and above sizes that an implementation may cut at
DIRECTED += [dict(DIRECTED[0], N=n, d=2, solver=s, cl=cl, batch=b, ds=n, neu=[["tanh", 4, "given", 3], ["lin", 1, "given", 8]], norm=0.5) for n in (4096, 4097, 8193, 10001, 16385)
             for s in ("", "basic") for cl, b in (("ELM", 1000), ("HPELM", 1000), ("HPELM", 5000), ("HPELM", 20000))]
DIRECTED += [dict(DIRECTED[0], N=n, d=2, solver=s, cl=cl, batch=b, ds=n, neu=[["tanh", 3, "given", 3]], norm=0.5) for n, cl, b in ((70001, "ELM", 1000), (70001, "HPELM", 70001)) for s in ("", "basic")]


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    X, T = g.make_data(case)
    X2, T2 = np.asarray(X).reshape(case["N"], -1), np.asarray(T).reshape(case["N"], -1)
    N = case["N"]
    r = g.rs(case["ds"], 3)
    wc = None
    over = {}
    if case["mode"]:
        over["cls"] = case["mode"]
    if case["mode"] == "wc":
        wc = np.round(g.rs(case["ws"]).rand(case["c"]) * 5 + 0.1, 3)
        over["w"] = wc
    m = g.add_all(g.new_model(case, case["cl"], **over), case["neu"], case["d"])
    order = r.permutation(N) if case["perm"] else np.arange(N)
    cuts = np.sort(r.randint(0, N + 1, case["chunks"] - 1)) if case["chunks"] > 1 else np.array([], int)
    parts = [p for p in np.split(order, cuts) if len(p)]
    if case.get("buf"):
        k = max(1, N // case["chunks"])
        parts = [p for p in np.split(order, range(k, N, k)) if len(p)]
    if case["src"] == "range":     # contiguous ranges of one file, visited in any order
        parts = [parts[i] for i in range(len(parts))]
        pos = np.concatenate([[0], np.cumsum([len(p) for p in parts])])
        fx = g.h5(os.path.join(tmp, "x.h5"), X2[order])
        ft = g.h5(os.path.join(tmp, "t.h5"), T2[order])
    H, dH = g.h_of(m, X2, eps)
    if not np.isfinite(H).all():
        return
    norm = case["norm"] if case["norm"] is not None else 50 * eps
    done, bufs = [], None
    seq = r.permutation(len(parts)) if case["perm"] else np.arange(len(parts))
    for step, i in enumerate(seq):
        p = parts[i]
        b = case["batches"][step % 5] if case["chunks"] > 1 else case["batch"]
        first = step == 0 and case["first"] == "train"
        if len(p) % b:
            mon.hit("incomplete last batches")
        kw = dict(batch=b) if first else {}
        m.batch = b
        if case["src"] == "range":
            kw.update(istart=int(pos[i]), icount=int(len(p)))
            a = (fx, ft)
            mon.hit("range chunks")
        elif case["src"] == "file":
            a = (g.h5(os.path.join(tmp, "x%d.h5" % i), X2[p]), g.h5(os.path.join(tmp, "t%d.h5" % i), T2[p]))
        else:
            Xp, Tp = X2[p], T2[p]
            if not case["perm"] and case["chunks"] == 1:
                Xp, Tp = X, T
            if Xp.ndim == 1 or Tp.ndim == 1:
                if first:
                    pass
                else:      # add_data of ELM takes matrices
                    Xp, Tp = X2[p], T2[p]
            if case.get("buf") and Xp.ndim == Tp.ndim == 2 and len(Xp):   # the caller reuses its buffers
                if bufs is None or bufs[0].shape != Xp.shape:
                    bufs = [np.empty_like(Xp), np.empty_like(Tp)]
                bufs[0][:], bufs[1][:] = Xp, Tp
                Xp, Tp = bufs
                mon.hit("reused buffers")
            a = (Xp, Tp)
        if first:
            m.train(*a, **kw)
        else:
            m.add_data(*a, **kw)
        done.append(p)
        last = step == len(seq) - 1
        if not last and (case["solves"] >> (step % 3)) & 1:
            m.nnet.solve()
            m.predict(X2[:2])
            idx = np.concatenate(done)
            o.Ridge(H[idx], g.mat(T2)[idx], norm, eps, None if wc is None else o.class_weights(T2[idx], wc), dH[idx]).check(
                m.nnet.get_B(), mon, "intermediate solution")
            mon.hit("intermediate solves")
    w = None if wc is None else o.class_weights(T2, wc)
    HH, HT = m.nnet.get_corr()
    rHH, rHT = o.corr(H, g.mat(T2), norm, w)
    tH, tT = o.corr_tol(H, g.mat(T2), norm, eps, w, dH)
    close(mon, HH, rHH, tH, "accumulated HH")
    close(mon, HT, rHT, tT, "accumulated HT")
    mon.hit("correlation matrices compared")
    m.nnet.solve()
    R = o.Ridge(H, g.mat(T2), norm, eps, w, dH)
    R.check(m.nnet.get_B(), mon, "solution after %d add-data calls" % len(parts))
