"""C15: the size kept by LOO selection against brute-force leave-one-out retraining."""
import numpy as np
from .. import gen as g, oracle as o, select as s, hooks
from .c12 import B0
from .c13 import rankings

ID, LEVEL, QUICK_S = "C15", "exploration", 15
RULE = ("random LOO selections of well-posed networks; for regression, leave-one-out errors recomputed by N explicit retrainings per size; for classification, "
        "squared misclassifications over 1 - leverage from an SVD solution; non-trivial: "
        "the kept size was compared with a candidate size")
REQUIRE = ["sizes between judged", "classification sizes judged", "sizes judged", "all sizes judged", "pruned rankings", "random rankings observed", "kmax selections", "retrainings", "penalty decides",
           "kept strictly between smallest and largest"]


def gen(rng, D):
    c = s.gen_case(rng, D, ops=("LOO",), modes=("", "", "", "c", "wc", "wcauto", "ml"), lmax=rng.choice([20, 20, 40]))
    c["xk"] = rng.choice(["normal", "normal", "uniform", "shift", "lever"])
    c["xdt"] = "f8"
    c["N"] = min(c["N"], 50)
    if rng.random() < 0.01:     # many samples, few neurons
        c.update(N=rng.choice([300, 999, 1000, 1001, 1025, 2001, 4097]), batch=1000, xk=rng.choice(["normal", "lever", "lever"]), neu=[[rng.choice(["tanh", "lin", "lin"]), rng.randint(2, 6), "given", c["ds"]]], d=rng.randint(1, 4))
    return c


fix = s.fix
DIRECTED = [dict(B0, op="LOO", opp=opp, kmax=km, neu=[["tanh", L, "given", 3]], ds=7*L + n, noise=nz, rs=n, N=NN, norm=nm, solver="basic" if n % 2 else "")
            for L in (1, 2, 3, 4, 5, 6, 9, 16) for opp, km in ((False, 0), (True, 0), (True, 3)) for nz, n, NN, nm in ((0.3, 1, 30, 0.1), (3.0, 2, 40, 1e-6), (1.0, 3, 14, 1.0), (0.0, 4, 20, 10.0))]
DIRECTED += [dict(B0, op="LOO", opp=opp, kmax=0, neu=[["tanh", L, "given", 3]], ds=7*L + n, noise=0, rs=n, N=NN, norm=0.1, mode=md, c=c, tk="ml" if md == "ml" else "onehot")
             for md in ("c", "wc", "wcauto", "ml") for L in (2, 3, 5, 8, 16) for opp in (False, True) for n, NN, c in ((1, 30, 2), (2, 50, 3))]
# many samples, some with a high leverage
DIRECTED += [dict(B0, op="LOO", opp=opp, kmax=0, neu=[["tanh", 1, "given", 3], ["lin", 4, "given", 4 + n]], d=4, c=1, ds=n + N, noise=nz, rs=n, N=N, norm=0.01, xk="lever", tk=tk, solver="basic" if n % 2 else "")
             for N in (1001, 1200, 2500, 5000) for n in range(4) for opp, nz, tk in ((False, 3.0, "normal"), (n % 2 == 1, 1.0, "lincomb"))]


def loo(H, T, norm, eps, dH, mon):
    """(true leave-one-out mean squared error by N retrainings, uncertainty)."""
    N, L = H.shape
    A = H.T.dot(H) + norm*np.eye(L)
    C = H.T.dot(T)
    # explicit training sets without sample i
    As = A[None] - H[:, :, None]*H[:, None, :]
    Cs = C[None] - H[:, :, None]*T[:, None, :]
    ev = np.linalg.eigvalsh(As)
    k = float((ev[:, -1] / np.maximum(ev[:, 0], 1e-300)).max())
    if ev[:, 0].min() <= 0 or k*eps*L > 1e-5 or k*np.finfo(float).eps*L > 1e-8:
        return None, np.inf
    B = np.linalg.solve(As, Cs)
    E = np.einsum('ij,ijk->ik', H, B) - T
    e = float(np.mean(E**2))
    mon.hit("retrainings", N)
    nB = float(np.abs(B).max())
    dY = 100*k*eps*L*(np.linalg.norm(H, axis=1).max()*nB + np.abs(T).max()) + 10*float(np.abs(dH).max())*L*nB*np.sqrt(k)
    return e, float(np.mean(2*np.abs(E)*dY + dY**2))


def press(H, T, S, dH, mon):
    """(mean squared misclassification over 1 - leverage, per class and weighted for 'wc'; uncertainty)."""
    R = o.Ridge(H, T, S.norm, S.eps, S.sw, dH)
    k = R.cond
    if not (R.strict and R.regular) or k*S.eps*H.shape[1] > 1e-5 or k > 1e8:
        return None, np.inf
    Hs = H if S.sw is None else H*np.sqrt(S.sw)[:, None]
    P = np.linalg.inv(Hs.T.dot(Hs) + S.norm*np.eye(H.shape[1]))
    h = np.einsum("ij,jk,ik->i", H, P, H)
    nh = np.linalg.norm(H, axis=1)
    r = 1 - h
    dr = 1000*k*S.eps*H.shape[1]*(np.abs(h) + 1) + 2*np.linalg.norm(dH, axis=1)*nh*np.linalg.norm(P, 2)
    if not (np.abs(r) > 20*dr + 1e-6).all():
        return None, np.inf
    Y = H.dot(R.B)
    nB = np.linalg.norm(R.B)
    dB = R.tol / np.sqrt(max(R.lmax / k, 1e-300))
    dY = nh*dB + np.linalg.norm(dH, axis=1)*(nB + dB) + 8*(H.shape[1] + 8)*S.eps*nh*nB + 1e-30
    rel = float((2*dr/np.abs(r)).max()) + 1e-6*(S.eps > 1e-10)
    if S.mode == "ml":
        bad = (Y > 0.5) != (T > 0.5)
        unsure = np.abs(Y - 0.5) <= dY[:, None]
        r = r[:, None]
        e, u = float(np.mean((bad/r)**2)), float(np.mean((unsure/r)**2))
    else:
        t = T.argmax(1)
        bad = Y.argmax(1) != t
        q = np.sort(Y, axis=1)
        unsure = (q[:, -1] - q[:, -2]) <= 2*dY
        if S.mode == "c":
            e, u = float(np.mean((bad/r)**2)), float(np.mean((unsure/r)**2))
        else:
            e = u = 0.0
            for i in range(T.shape[1]):
                if (t == i).any():
                    e += S.wc[i]*float(np.mean((bad/r)[t == i]**2)) / T.shape[1]
                    u += S.wc[i]*float(np.mean((unsure/r)[t == i]**2)) / T.shape[1]
    mon.hit("classification errors")
    return e, u + rel*e


def run(case, mon, tmp):
    S = s.Setup(case)
    S.m0 = g.copy_neurons(S.m, S.model())
    H, dH = g.h_of(S.m0, S.X2, S.eps)

    def crit(cols):
        if S.mode:
            return press(H[:, cols], S.T2, S, dH[:, cols], mon)
        return loo(H[:, cols], S.T2, S.norm, S.eps, dH[:, cols], mon)
    full, tfull = crit(slice(None))
    orig = s.columns(S.m)
    _, exc = S.train(case["rs"])
    if exc is not None:
        if np.isfinite(tfull):
            raise exc
        return mon.hit("singular selections")
    kept = s.match(orig, s.columns(S.m))
    mon.ok(kept is not None, "kept neurons are not original ones")
    K, hi = len(kept), S.kmax
    mon.ok(1 <= K <= hi, "%d neurons kept, candidates are 1..%d", K, hi)
    rk = rankings(case, S, [(S.X2, S.T.reshape(case["N"], -1))], mon)[0]
    if rk is None or not np.isfinite(tfull):
        return
    mon.ok(sorted(kept) == sorted(rk[:K]), "kept neurons %s are not the first %d of the ranking %s that was validated", sorted(kept), K, rk)
    pen, tpen = 0.01*full/hi, 0.01*tfull/hi
    if case["kmax"] and case["opp"]:
        mon.hit("kmax selections")

    def J(n):
        e, t = crit(rk[:n])
        return (e + n*pen, t + n*tpen + 1e-9*e, e) if e is not None else (None, np.inf, None)
    jk, tk, ek = J(K)
    if not np.isfinite(tk):
        return
    sizes = {1, hi}
    if hi <= 5:
        sizes = set(range(1, hi + 1))
        mon.hit("all sizes judged")
    seen = s.visited(1, hi, J, 0.0025*max(full, ek))
    mon.hit("sizes of an interval-halving search", len(seen))
    if set(seen) - sizes:
        mon.hit("sizes between judged")
    for n in sorted(sizes | set(seen)):
        jn, tn, en = seen[n] if n in seen else J(n)
        if not np.isfinite(tn):
            continue
        m = "LOO selection keeps %d neurons with penalised error %.9g (error %.9g), but size %d has %.9g (error %.9g)"
        if tk + tn <= 0.005*max(full, ek):
            mon.ok(jk <= jn + tk + tn, m, K, jk, ek, n, jn, en)
            if n != K:
                mon.hit("comparisons of sizes")
                if en < ek:
                    mon.hit("penalty decides")
        else:
            mon.weak(jk <= jn + tk + tn, m, K, jk, ek, n, jn, en)
    mon.hit("sizes judged")
    if S.mode:
        mon.hit("classification sizes judged")
    if 1 < K < hi:
        mon.hit("kept strictly between smallest and largest")
