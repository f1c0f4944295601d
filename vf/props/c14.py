"""C14: both ranking algorithms against an independent path computation and metamorphic relations."""
import numpy as np
from .. import gen as g, oracle as o
from hpelm.modules import mrsr, mrsr2

ID, LEVEL, QUICK_S = "C14", "exploration", 15
RULE = ("random regressors and targets (kinds incl. zero, constant, duplicate, single columns, hidden layers, fewer rows than columns; layouts, dtypes), "
        "both algorithms (L1, L2 norm); every step of a well-posed ranking is compared with the first regressor that catches up on the path, found by "
        "bisection; non-trivial: at least one step, or the prefix / scaling / order relations compared")
REQUIRE = ["scales of regressors compared", "steps compared", "mrsr rankings", "mrsr2 rankings", "prefixes compared", "scalings compared", "reorderings compared", "degenerate problems", "first indices compared",
           "norm 1 rankings", "nine targets", "many regressors ranked", "integer regressors", "indices above 127"]


def gen(rng, D):
    m = D.size(rng, 1, 16) if rng.random() < 0.95 else rng.randint(17, 45)
    return dict(N=D.size(rng, 1, 60) if rng.random() < 0.3 else rng.randint(m + 1, m + 60), m=m, p=rng.choice([1, 1, 2, 2, 3, 4, 5, rng.randint(1, 8), rng.randint(1, 10)]),
                big=rng.random() < 0.1, pb=rng.randint(9, 20), xk=rng.choice(["normal"]*6 + ["hidden", "hidden", "center", "center"] + g.XKINDS), tk=rng.choice(["lincomb"]*3 + ["normal", "corr", "zeros", "const", "int", "onehot", "ml", "big", "sub"]),
                xlay=rng.choice(g.LAYOUTS), tlay=rng.choice(g.LAYOUTS), xdt=rng.choice(["f8"]*10 + ["f4", "f4", "i1", "u1", "i2", "b1", "f2"]), tdt=rng.choice(["f8"]*10 + ["f4", "f4", "i4", "i1", "u1", "b1", "f2"]), ds=rng.randrange(1 << 30),
                alg=rng.choice(["mrsr", "mrsr", "mrsr2", "mrsr2", "mrsr2n1"]), k=rng.choice([m, m, m, m + 1, m + 5, rng.randint(1, m), 1]), e=rng.randint(-20, 20), xe=rng.randint(-24, 20), neg=rng.random() < 0.3,
                ro=rng.random() < 0.5, wide=rng.random() < 0.01)


def fix(c):
    if c.pop("wide", 0):      # more regressors than small index types can number
        c.update(m=c["ds"] % 260 + 60, k=c["ds"] % 7 + 5, p=c["p"] % 3 + 1, big=False, alg=c["alg"][:5])
        c["N"] = c["m"] + 20 + c["ds"] % 50
    if c["big"] and c["alg"] != "mrsr":
        c["p"] = c["pb"]
    elif c["alg"] == "mrsr":
        c["p"] = min(c["p"], 10)
    if c["tk"] == "onehot":
        c["p"] = max(2, c["p"])
    return c


B0 = dict(N=40, m=8, p=2, big=False, pb=12, xk="normal", tk="lincomb", xlay="C", tlay="C", xdt="f8", tdt="f8", ds=1, alg="mrsr", k=8, e=3, neg=False, ro=True)
DIRECTED = [dict(B0, alg=a, xk=xk, tk=tk, ds=i, p=p, m=m, k=k, N=N) for a in ("mrsr", "mrsr2", "mrsr2n1") for i, (xk, tk, p, m, k, N) in enumerate(
    (("normal", "lincomb", 2, 8, 8, 40), ("hidden", "normal", 3, 8, 8, 40), ("zeros", "normal", 2, 4, 4, 9), ("dupcol", "normal", 2, 6, 6, 9), ("zcol", "lincomb", 1, 5, 5, 30),
     ("normal", "zeros", 2, 5, 5, 30), ("normal", "normal", 1, 1, 1, 5), ("normal", "normal", 3, 9, 9, 4), ("center", "sub", 1, 10, 12, 50), ("const", "const", 2, 4, 3, 8)))] + \
    [dict(B0, alg=a, xdt=x, tdt=t, ds=i) for i, (x, t) in enumerate((("i1", "f8"), ("i1", "i1"), ("u1", "u1"), ("b1", "b1"), ("i2", "i2"), ("f2", "f2"))) for a in ("mrsr", "mrsr2")]

DIRECTED += [dict(B0, alg=a, xk=xk, tk="sub", ds=i + 1, N=m + 60, m=m, p=p, k=k) for a in ("mrsr", "mrsr2") for i, (m, p, k, xk) in enumerate(((129, 1, 12, "normal"), (200, 2, 9, "center"), (257, 1, 12, "normal"), (300, 1, 8, "normal")))]
DIRECTED += [dict(B0, alg="mrsr", p=p, ds=i, tk=tk, xk=xk, N=50, m=12, k=12) for p in (9, 7, 10) for i, (tk, xk) in enumerate((("normal", "normal"), ("lincomb", "center"), ("normal", "hidden")))]
# many regressors, all of them ranked
DIRECTED += [dict(B0, alg=a, m=m, k=m, N=3*m, p=2, ds=m + i, xk=xk, tk=tk) for a in ("mrsr", "mrsr2") for m in (17, 24, 33, 48, 66) for i, (xk, tk) in enumerate((("center", "normal"), ("center", "lincomb")))]


def data(case):
    r = g.rs(case["ds"], 2)
    N, m, p = case["N"], case["m"], case["p"]
    if case["xk"] == "hidden":
        X = np.tanh(r.randn(N, 3).dot(r.randn(3, m)) + r.randn(m))
    elif case["xk"] == "center":
        X = r.randn(N, m).dot(np.eye(m) + 0.4*r.randn(m, m))
        X = (X - X.mean(0)) / np.where(X.std(0) > 0, X.std(0), 1)
    else:
        X = g.raw_x(case["xk"], N, m, r)
    if case["tk"] == "sub":       # few relevant regressors
        T = X[:, r.randint(0, m, 2)].dot(r.randn(2, p)) + 0.05*r.randn(N, p)
    else:
        T = g.raw_t(case["tk"], N, p, r, X)
    if case["xdt"][0] in "iu":
        X = np.round(X*30) + (40 if case["ds"] % 2 else 0)     # products do not fit small types
    if case["tdt"][0] in "iu" and case["tk"] not in ("onehot", "ml"):
        T = np.round(T*30)
    X, T = g.cast(X, case["xdt"]), g.cast(T, case["tdt"])
    return g.layout(X, case["xlay"], r), g.layout(T, case["tlay"], r)


def rank(case, X, T, k):
    if case["alg"] == "mrsr":
        return [int(v) for v in mrsr(X, T, k)]
    return [int(v) for v in mrsr2(X, T, k, **(dict(norm=1) if case["alg"] == "mrsr2n1" else {}))]


def crossing(p1, p2, c, nrm):
    """Smallest step in [0,1] at which |p1 - y p2| reaches (1-y) c; the difference is convex in y and not positive at 0."""
    f = lambda y: nrm(p1 - y*p2) - (1 - y)*c
    if f(0.0) >= 0:
        return 0.0
    lo, hi = 0.0, 1.0
    for _ in range(60):
        mid = (lo + hi) / 2
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    return hi


def run(case, mon, tmp):
    X, T = data(case)
    if case["ro"]:
        X.setflags(write=False)
        T.setflags(write=False)
    h = X.tobytes(), T.tobytes()
    m, N = case["m"], case["N"]
    k = case["k"]
    R = rank(case, X, T, k)
    mon.hit("mrsr rankings" if case["alg"] == "mrsr" else "mrsr2 rankings")
    if case["p"] == 9 and case["alg"] == "mrsr":
        mon.hit("nine targets")
    if len(R) > 32:
        mon.hit("many regressors ranked")
    if max(R) > 127:
        mon.hit("indices above 127")
    if case["alg"] == "mrsr2n1":
        mon.hit("norm 1 rankings")
    if np.dtype(case["xdt"]).kind in "iub":
        mon.hit("integer regressors")
    mon.ok(len(R) == min(k, m), "%d indices returned, %d of %d requested", len(R), k, m)
    mon.ok(len(set(R)) == len(R) and all(0 <= v < m for v in R), "indices are not distinct and valid: %s of %d", R, m)
    mon.ok((X.tobytes(), T.tobytes()) == h, "inputs were modified")
    Xd, Td = np.array(X, float), np.array(T, float)
    nrm = (lambda v: float(np.sqrt((v**2).sum()))) if case["alg"] == "mrsr2" else (lambda v: float(np.abs(v).sum()))
    eps = 1.2e-7 if case["xdt"] in ("f4", "f2") else 2.3e-16
    c0 = np.array([nrm(Td.T.dot(Xd[:, j])) for j in range(m)])
    u = 8*N*eps*np.array([nrm(np.abs(Td).T.dot(np.abs(Xd[:, j]))) for j in range(m)])
    j = R[0]
    mon.ok(c0[j] >= (c0 - u).max() - u[j], "first index %d has correlation %g, the largest is %g", j, c0[j], c0.max())
    mon.hit("first indices compared")
    # a shorter request is a prefix
    r = g.rs(case["ds"], 4)
    k2 = int(r.randint(1, m + 2))
    R2 = rank(case, X, T, k2)
    n = min(len(R), len(R2))
    mon.ok(R[:n] == R2[:n], "rankings of %d and %d indices are no prefixes: %s, %s", k, k2, R, R2)
    mon.hit("prefixes compared")
    # scaling by a power of two is exact
    sc = (-1.0 if case["neg"] else 1.0) * 2.0**case["e"]
    if case["xdt"] == "f8" and np.abs(Td).max() < 1e6:
        R3 = rank(case, X, Td*sc, k)
        R4 = rank(case, X, Td, k)
        mon.ok(R3 == R4, "scaling all targets by %g changes the ranking: %s, %s", sc, R4, R3)
        mon.hit("scalings compared")
    # the path
    sv = np.linalg.svd(Xd / np.maximum(np.linalg.norm(Xd, axis=0), 1e-300), compute_uv=False)
    cond = sv[0] / max(sv[-1], 1e-300) if N >= m else np.inf
    tol = 1e-4 if case["alg"] != "mrsr" else 1e-7
    if eps > 1e-10:
        tol = 1e-2
    lim = 30 if eps > 1e-10 else 1e4
    if not (cond < lim and c0.max() > 1e-6*np.linalg.norm(Td)*np.linalg.norm(Xd) and np.linalg.norm(Td) > 0):
        return mon.hit("degenerate problems")
    Y = np.zeros_like(Td)
    clear = (c0[j] - np.delete(c0, j)).min() > 1e-3*c0.max() if m > 1 else True
    done = 1
    for s in range(1, len(R)):
        act = R[:s]
        c = np.mean([nrm((Td - Y).T.dot(Xd[:, a])) for a in act])
        if c < 1e-7*c0.max():
            break
        B = np.linalg.lstsq(Xd[:, act], Td, rcond=None)[0]
        Yo = Xd[:, act].dot(B)
        rest = [a for a in range(m) if a not in act]
        ys = np.array([crossing((Td - Y).T.dot(Xd[:, a]), (Yo - Y).T.dot(Xd[:, a]), c, nrm) for a in rest])
        y0 = ys.min()
        yj = ys[rest.index(R[s])]
        # a residual that is nearly orthogonal already makes steps ambiguous
        t = tol * (1 + c0.max()/c * (1e-3 if case["alg"] == "mrsr" else 1e-2))
        if y0 <= 10*t:       # exactly tied regressors: the order is a matter of rounding
            clear = False
            mon.hit("ties")
            break
        mon.ok(yj <= y0 + t, "index %d (place %d) is as correlated as the active ones at %.6g of the step, but %d already at %.6g", R[s], s, yj, rest[int(ys.argmin())], y0)
        mon.hit("steps compared")
        done = s + 1
        o2 = np.sort(ys)
        if len(o2) > 1 and o2[1] - o2[0] < 30*t:
            clear = False
        Y = Y + yj*(Yo - Y)
    # the scale of the regressors does not matter (places decided above)
    if case["xdt"] == "f8" and 1e-6 < np.abs(Xd).max() < 1e6:
        s2 = 2.0**case.get("xe", -20)
        R6 = rank(case, Xd*s2, T, k)[:done]
        mon.ok(R6 == R[:done] or not clear, "scaling all regressors by %g changes the ranking: %s, %s", s2, R[:done], R6)
        mon.hit("scales of regressors compared")
    # without ties, reordered regressors give the reordered ranking
    if clear and eps < 1e-10:
        p = r.permutation(m)
        R5 = rank(case, Xd[:, p], T, k)
        mon.ok([int(p[v]) for v in R5] == R, "reordered regressors give another ranking: %s instead of %s", [int(p[v]) for v in R5], R)
        mon.hit("reorderings compared")
