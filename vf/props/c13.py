"""C13: the size kept by V and CV selection against recomputed validation errors of the observed ranking."""
import numpy as np
from .. import gen as g, oracle as o, select as s, hooks

ID, LEVEL, QUICK_S = "C13", "exploration", 18
RULE = ("random V / CV selections as for C12 with well-posed networks; the random ranking drawn by the run is observed, that of optimal pruning computed; "
        "validation errors of candidate sizes are recomputed with rounding bounds; non-trivial: the kept size was compared with a candidate "
        "whose penalised error is known to better than 0.5%")
REQUIRE = ["sizes between judged", "V sizes judged", "CV sizes judged", "all sizes judged", "pruned rankings", "random rankings observed", "returned CV errors compared", "kmax selections",
           "kept strictly between smallest and largest", "penalty decides"]


def gen(rng, D):
    c = s.gen_case(rng, D, ops=("V", "V", "CV"), lmax=rng.choice([24, 24, 48]))
    c["xk"] = rng.choice(["normal", "normal", "uniform", "shift"])
    c["xdt"] = "f8"
    return c


fix = s.fix
from .c12 import B0   # noqa: E402
DIRECTED = [dict(B0, op=op, opp=opp, kmax=km, mode=md, neu=[["tanh", L, "given", 3]], ds=7*L + n, noise=nz, rs=n, k=k, solver="basic" if n % 2 else "")
            for op, k in (("V", 3), ("CV", 3), ("CV", 4)) for L in (1, 2, 3, 4, 5, 6, 7, 9, 16) for opp, km in ((False, 0), (True, 0), (True, 4))
            for md, nz, n in (("", 0.3, 1), ("c", 0, 2), ("", 3.0, 3), ("wc", 0, 4))]


def rankings(case, S, parts, mon):
    """One ranking per part: observed for random ones, computed for optimal pruning (None: not known)."""
    out = []
    if case["opp"]:
        from hpelm.modules import mrsr, mrsr2
        f = mrsr if case["c"] < 10 else mrsr2
        for i, (Xp, Tp) in enumerate(parts):
            T = np.asarray(Tp)
            Hp = np.asarray(S.m0.project(Xp))
            a = [int(v) for v in f(Hp, T, S.kmax)]
            r = g.rs(case["rs"], 50 + i)
            # the order has to survive rounding: of the hidden layer, and of solutions with all chosen columns but the last
            Q = np.asarray(Hp[:, a[:-1]], dtype=float)
            cnd = np.linalg.cond(Q) if Q.size else 1.0
            good = len(set(a)) == len(a) == S.kmax and len(a) <= len(Hp) + 1 and cnd**2 < 1e10
            for amp in (30, 30 + cnd):
                good = good and a == [int(v) for v in f(Hp*(1 + amp*S.eps*r.randn(*Hp.shape)), T, S.kmax)]
            out.append(a if good else None)
        mon.hit("pruned rankings", sum(v is not None for v in out))
    else:
        seen = [v for v in hooks.shuffles if v is not None and sorted(v) == list(range(S.L))]
        if len(seen) == len(parts):
            out = seen
            mon.hit("random rankings observed", len(seen))
        else:
            out = [None]*len(parts)
            mon.hit("random rankings not observed")
    return out


def run(case, mon, tmp):
    S = s.Setup(case)
    if case["op"] == "CV" and case["N"] < 2*case["k"] and S.mode == "wc" and S.wc is None:
        return
    S.m0 = g.copy_neurons(S.m, S.model())
    eps = S.eps
    N = case["N"]
    H, dH = g.h_of(S.m0, S.X2, eps)
    if case["op"] == "V":
        Hv, dHv = g.h_of(S.m0, S.X2v, eps)
        folds = [(np.arange(N), (Hv, dHv, S.T2v), None)]
        parts = [(S.X2v, S.Tv.reshape(len(S.T2v), -1))]
        lo = 1
    else:
        k = case["k"]
        idx = [np.arange(N)[i::k] for i in range(k)]
        folds, parts = [], []
        for i in range(k):
            it = [(i + j) % k for j in range(k)]
            tr = np.hstack([idx[j] for j in it[:-2]])
            vl, ts = idx[it[-2]], idx[it[-1]]
            folds.append((tr, (H[vl], dH[vl], S.T2[vl]), (H[ts], dH[ts], S.T2[ts])))
            parts.append((S.X2[vl], S.T.reshape(N, -1)[vl]))
        lo = min(3, S.L, S.kmax)
    orig = s.columns(S.m)
    ret, exc = S.train(case["rs"])
    if exc is not None:
        reg = all(o.Ridge(H[tr], S.T2[tr], S.norm, eps, None if S.sw is None else S.sw[tr], dH[tr]).regular for tr, _, _ in folds)
        if reg and not (case["op"] == "CV" and N < 2*case["k"] and S.mode):
            raise exc
        return mon.hit("singular selections")
    kept = s.match(orig, s.columns(S.m))
    mon.ok(kept is not None, "kept neurons are not original ones")
    K, hi = len(kept), S.kmax
    mon.ok(lo <= K <= hi, "%d neurons kept, candidates are %d..%d", K, lo, hi)
    rk = rankings(case, S, parts, mon)
    if any(v is None for v in rk):
        return
    # ranking of the final network is the last one
    mon.ok(sorted(kept) == sorted(rk[-1][:K]), "kept neurons %s are not the first %d of the ranking %s that was validated", sorted(kept), K, rk[-1])

    def err(n, which):
        e = t = 0.0
        for (tr, va, te), rank in zip(folds, rk):
            c = rank[:n] if n else slice(None)
            V = va if which == "val" else te
            a, b = s.fold_error(H[tr][:, c], S.T2[tr], S.norm, None if S.sw is None else S.sw[tr], V[0][:, c], V[2], S.mode, S.wc, eps, dH[tr][:, c], V[1][:, c])
            e, t = e + a/len(folds), t + b/len(folds)
        return e, t
    full, tfull = err(0, "val")
    pen, tpen = 0.01*full/hi, 0.01*tfull/hi
    if case["kmax"] and case["opp"]:
        mon.hit("kmax selections")

    def J(n):
        e, t = err(n, "val")
        return e + n*pen, t + n*tpen + 1e-9*abs(e), e
    jk, tk, ek = J(K)
    if np.isfinite(tk):
        sizes = {lo, hi}
        if S.L <= (5 if case["op"] == "V" else 7) or hi <= (5 if case["op"] == "V" else 7):
            sizes = set(range(lo, hi + 1))
            mon.hit("all sizes judged")
        seen = s.visited(lo, hi, J, 0.0025*max(full, ek))
        mon.hit("sizes of an interval-halving search", len(seen))
        if set(seen) - sizes:
            mon.hit("sizes between judged")
        for n in sorted(sizes | set(seen)):
            jn, tn, en = seen[n] if n in seen else J(n)
            if not np.isfinite(tn):
                continue
            m = "%s selection keeps %d neurons with penalised error %.9g (error %.9g), but size %d has %.9g (error %.9g)"
            a = (case["op"], K, jk, ek, n, jn, en)
            if tk + tn <= 0.005*max(full, ek):
                mon.ok(jk <= jn + tk + tn, m, *a)
                if n != K:
                    mon.hit("comparisons of sizes")
                    if en < ek:
                        mon.hit("penalty decides")
            else:
                mon.weak(jk <= jn + tk + tn, m, *a)
        mon.hit(case["op"] + " sizes judged")
        if lo < K < hi:
            mon.hit("kept strictly between smallest and largest")
        if not (case["kmax"] and case["opp"]):
            mon.ok(ek <= 1.01*full + tk + tfull + 1e-12, "validation error %.9g is more than 1%% above that of the full network %.9g", ek, full)
    if case["op"] == "CV":
        e, t = err(K, "test")
        if np.isfinite(t):
            mon.ok(ret is not None and abs(float(ret) - e) <= t + 1e-6*abs(e)*(1 if eps > 1e-10 else 1e-3) + 1e-15, "CV returns error %r, test error averaged over the splits is %.9g +- %.2g", ret, e, t)
            if t <= 0.005*e:
                mon.hit("returned CV errors compared")
