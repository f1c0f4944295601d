"""C16: validation with correlation files against recomputed errors of all sub-networks."""
import hashlib, os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o, select as s

ID, LEVEL, QUICK_S = "C16", "exploration", 15
RULE = ("random HPELM models with HH/HT files (one or several add-data calls), modes, weights, step counts or explicit vectors, batch sizes, validation "
        "data as files or arrays; non-trivial: an error, a confusion matrix or the installed network was compared with the recomputed one")
REQUIRE = ["errors compared", "confusion matrices compared", "installed networks compared", "log-spaced steps", "vector steps", "weighted validations", "files unchanged",
           "incomplete last batches", "proper subsets installed", "soft targets"]


def gen(rng, D):
    c = s.gen_case(rng, D, ops=("V",), modes=("", "", "c", "wc", "ml"), lmax=30)
    c.update(steps=rng.choice([10, 10, 2, 3, 5, 50, 1]), vec=rng.choice(["", "", "list", "array", "tuple", "one"]), adds=rng.choice([1, 1, 2, 3]), vb=g.gen_batch(rng, c["Nv"]),
             src=rng.choice(["file", "file", "arr"]), twice=rng.random() < 0.2, wide=rng.random() < 0.15)
    c["xk"] = rng.choice(["normal", "normal", "uniform", "shift", "int"])
    if rng.random() < 0.1:
        c["Nv"] = rng.choice([999, 1000, 1001, 1500])
    if c["wide"]:
        c["neu"] = [["tanh", D.size(rng, 20, 70), "given", rng.randrange(1 << 30)]]
    return c


fix = s.fix
from .c12 import B0   # noqa: E402
DIRECTED = [dict(B0, mode=md, solver=sv, neu=[["tanh", L, "given", 3], ["lin", 2, "given", 4]], steps=st, vec=v, adds=a, vb=vb, src=src, twice=False, wide=False, ds=L, prec=p, norm=nm,
                 Nv=23)
            for md in ("", "c", "wc", "ml") for sv in ("", "basic") for L, st, v, a, vb, src, p, nm in ((5, 10, "", 1, 1000, "file", "double", 0.1), (12, 4, "", 2, 7, "file", "double", 1e-3),
                                                                                       (8, 3, "array", 1, 1, "arr", "single", 1.0), (1, 10, "", 1, 22, "file", "double", 0.1), (9, 5, "list", 3, 23, "arr", "double", None))]


def digest(*names):
    return [hashlib.blake2b(open(f, "rb").read()).hexdigest() for f in names]


def run(case, mon, tmp):
    mode = case["mode"]
    N, Nv, c, eps = case["N"], case["Nv"], case["c"], g.eps_of(case["prec"])
    r = g.rs(case["rs"], 5)
    X, T = g.make_data(case, N=N + Nv)
    X, T = np.asarray(X).reshape(N + Nv, -1), np.asarray(T).reshape(N + Nv, -1)
    if case["noise"] and T.dtype.kind == "f" and not mode:
        T = (T + case["noise"]*r.randn(*T.shape)).astype(T.dtype)
    if case.get("soft") and mode in ("c", "ml"):
        T = g.soften(T, g.rs(case["rs"], 6)).astype(T.dtype if T.dtype.kind == "f" else float)
        mon.hit("soft targets")
    wc = np.round(r.rand(c)*4 + 0.5, 2) if mode == "wc" else None
    m = g.add_all(g.new_model(case, "HPELM", cls=mode, w=wc), case["neu"], case["d"])
    L = m.nnet.L
    fx, ft = g.h5(os.path.join(tmp, "x.h5"), X[:N]), g.h5(os.path.join(tmp, "t.h5"), T[:N])
    fv, fw = g.h5(os.path.join(tmp, "xv.h5"), X[N:]), g.h5(os.path.join(tmp, "tv.h5"), T[N:])
    fH, fT = os.path.join(tmp, "HH.h5"), os.path.join(tmp, "HT.h5")
    cuts = [0] + sorted(int(v) for v in r.randint(1, N, case["adds"] - 1)) + [N]
    for a, b in zip(cuts[:-1], cuts[1:]):
        if b > a:
            m.add_data(fx, ft, istart=a, icount=b - a, fHH=fH, fHT=fT)
    X2, T2 = g.mat(X), g.mat(T)
    H, dH = g.h_of(m, X2[:N], eps)
    Hv, dHv = g.h_of(m, X2[N:], eps)
    if not (np.isfinite(H).all() and np.isfinite(Hv).all()):
        return
    norm = g.norm_of(case)
    orig = s.columns(m)
    before = digest(fH, fT, fv, fw)
    steps, v = case["steps"], case["vec"]
    if v:
        want = sorted(set(int(i) for i in r.randint(1, L + 1, 1 if v == "one" else r.randint(1, 7))))
        steps = {"list": list(want), "array": np.array(want), "tuple": tuple(want), "one": np.array(want)}[v]
    m.batch = case["vb"]
    if Nv % case["vb"]:
        mon.hit("incomplete last batches")
    arg = (fv, fw) if case["src"] == "file" else (X[N:], T[N:])
    Ls, errs, confs = m.validation_corr(fH, fT, *arg, steps=steps)
    Ls, errs = [int(i) for i in Ls], np.asarray(errs, float)
    mon.ok(digest(fH, fT, fv, fw) == before, "validation changed its files")
    mon.hit("files unchanged")
    mon.ok(len(Ls) == len(errs) and len(set(Ls)) == len(Ls), "%d sizes and %d errors", len(Ls), len(errs))
    if v:
        mon.ok(sorted(Ls) == want, "tested numbers of neurons %s, given %s", Ls, want)
        mon.hit("vector steps")
    else:
        lo = min(3, L)
        ref = np.exp(np.linspace(np.log(3), np.log(L), case["steps"])) if case["steps"] > 1 else np.array([3.0])
        ref = np.minimum(ref, L)
        mon.ok(all(lo <= i <= L for i in Ls), "tested numbers of neurons %s of %d", Ls, L)
        mon.ok(lo in Ls and (L in Ls or case["steps"] == 1), "tested numbers %s do not include %d and %d", Ls, lo, L)
        mon.ok(len(Ls) <= case["steps"] and all(np.abs(ref - i).min() <= 1.001 for i in Ls) and all(min(abs(i - q) for i in Ls) <= 1.001 for q in ref),
               "tested numbers %s are not log-spaced from 3 to %d in %d steps", Ls, L, case["steps"])
        mon.hit("log-spaced steps")
    sw = o.class_weights(T2[:N], wc) if mode == "wc" else None
    tols = []
    for i, n in enumerate(Ls):
        e, t = s.fold_error(H[:, :n], T2[:N], norm, sw, Hv[:, :n], T2[N:], mode, wc, eps, dH[:, :n], dHv[:, :n])
        # the files were added up from parts
        t = 3*t + (1e-9 if eps < 1e-10 else 1e-5)*(abs(e) if mode == "" else (1e-3 if mode == "wc" else 0))
        tols.append(t)
        if np.isfinite(t):
            ok = abs(errs[i] - e) <= t + 1e-12*(1 + abs(e))
            (mon.ok if t <= 0.01*abs(e) or mode else mon.weak)(ok, "error of %d neurons (%s, batch %d) is %r, the sub-network has %r +- %.2g", n, mode or "regression", m.batch, errs[i], e, t)
            mon.hit("errors compared")
        if mode:
            C = np.asarray(confs[i], float)
            R = o.Ridge(H[:, :n], T2[:N], norm, eps, sw, dH[:, :n])
            M = o.confusion(mode, T2[N:], Hv[:, :n].dot(R.B))
            mon.ok(C.shape == (c, c), "confusion matrix of shape %s", C.shape)
            if mode != "ml":
                mon.ok(C.sum() == Nv, "confusion matrix of %d neurons counts %g of %d samples", n, C.sum(), Nv)
                if mode == "c":
                    mon.ok(abs(1 - np.trace(C)/Nv - errs[i]) < 1e-9, "error %r of %d neurons does not fit its confusion matrix", errs[i], n)
            if np.isfinite(t) and t <= (1e-2 if mode == "wc" else 1e-9):
                u = s.fold_error(H[:, :n], T2[:N], norm, sw, Hv[:, :n], T2[N:], mode, wc, eps, dH[:, :n], dHv[:, :n])[1]
                if u == 0:
                    mon.ok(np.array_equal(C, M), "confusion matrix of %d neurons is %s, of the sub-network %s", n, C.tolist(), M.tolist())
                    mon.hit("confusion matrices compared")
    if mode == "wc":
        mon.hit("weighted validations")
    if not mode:
        mon.ok(len(confs) == 0, "regression gives %d confusion matrices", len(confs))
    else:
        mon.ok(len(confs) == len(Ls), "%d confusion matrices for %d sizes", len(confs), len(Ls))
    # the model is left with the best one
    best = [n for n, e in zip(Ls, errs) if e == errs.min()]
    now = s.columns(m)
    mon.ok(len(now) in best, "model is left with %d neurons, smallest error has %s", len(now), best)
    n = len(now)
    mon.ok(now == orig[:n], "model is not left with its first %d neurons", n)
    mon.ok(m.nnet.L == n, "model says it has %s neurons, not %d", m.nnet.L, n)
    if n < L:
        mon.hit("proper subsets installed")
    mon.ok(m.classification == (mode or None) and float(m.nnet.norm) == norm, "mode or norm changed by validation")
    R = o.Ridge(H[:, :n], T2[:N], norm, eps, sw, dH[:, :n])
    R.check(m.nnet.get_B(), mon, "installed network")
    Y = np.asarray(m.predict(X2[N:]))
    close(mon, Y, Hv[:, :n].dot(np.asarray(m.nnet.get_B(), float)), g.pred_tol(Hv[:, :n], dHv[:, :n], m.nnet.get_B(), eps), "predictions of the installed network")
    mon.hit("installed networks compared")
    if case["twice"]:     # a new model gives the same
        q = g.add_all(g.new_model(case, "HPELM", cls=mode, w=wc), case["neu"], case["d"])
        q.batch = max(1, Nv // 2)
        L2, e2, _ = q.validation_corr(fH, fT, *arg, steps=steps)
        mon.ok([int(i) for i in L2] == Ls, "another run tests %s, not %s", list(L2), Ls)
        close(mon, e2, errs, np.array(tols) + 1e-9*(1 + np.abs(errs)), "errors with another batch size")
