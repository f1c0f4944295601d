"""C26: RBF parameters against the data they are computed from; the sampled distances are observed where they are computed."""
import os
import numpy as np
from scipy.special import gammaln
import tables
from .. import gen as g, hooks, oracle as o

ID, LEVEL, QUICK_S = "C26", "exploration", 12
RULE = ("random data with distinct rows (2-400 rows, 14 element types, layouts, lists, HDF5 files with arrays of any name and kind), k, metrics; returned centroids and widths compared with the data and with the "
        "observed distances; non-trivial: both compared")
KINDS = ["l1", "l2", "linf", "rbf_l1", "rbf_l2", "rbf_linf", "sqeuclidean", "", "inf"]
CPU_LIMIT = 60
REQUIRE = ["metric " + k for k in ("l1", "l2", "linf")] + ["arrays", "files", "lists", "used in neurons", "two rows", "more centroids than rows", "default metric", "centroid variety judged", "parts of the data judged", "a million rows"]


def gen(rng, D):
    N = rng.choice([2, 3, 4, 5, 11, 12, D.size(rng, 2, 400)])
    return dict(N=N, d=D.size(rng, 1, 12) if rng.random() < 0.9 else rng.choice([16, 20, 33, 64, 100, 130]), k=rng.choice([1, 2, 3, D.size(rng, 1, 40), N, N + 1, 2*N + 100]), kind=rng.choice(KINDS), src=rng.choice(["array", "array", "file", "list"]),
                dt=rng.choice(["f8", "f8", "f4", "i4", "i8", "u1", "u2", "i1", ">f8", ">f4", "i2", "f2", "b1"]), lay=rng.choice(g.LAYOUTS), xk=rng.choice(["normal", "normal", "uniform", "int", "big", "tiny", "scales", "shift", "far", "cluster"]),
                node=rng.choice(["data", "X", "array_1", "carray", "earray"]), np_rs=rng.randrange(1 << 30), ds=rng.randrange(1 << 30))


# few rows and many centroids, many rows and inputs: the draws are judged
VARIETY = [(5, 1, 400), (5, 3, 400), (2, 2, 200), (20, 1, 900), (200, 1, 120), (300, 4, 200), (150, 10, 150), (1000, 2, 100), (3000, 1, 200), (6000, 2, 300), (40000, 1, 400)]
B0 = dict(N=12, d=3, k=4, kind="l2", src="array", dt="f8", lay="C", xk="normal", node="data", np_rs=1, ds=2)
DIRECTED = [dict(B0, N=N, d=d, k=k, kind=kd, src=src, np_rs=i, dt=dt, node=nd) for i, (N, d, k) in enumerate([(2, 1, 1), (2, 3, 5), (3, 1, 1), (11, 2, 1), (12, 2, 1), (40, 4, 4), (300, 2, 3), (5, 1, 20)]) for kd in KINDS
            for src, dt, nd in (("array", "f8", "data"), ("file", "f4", "X"), ("list", "f8", ""), ("array", "u1", ""), ("file", "f8", "earray"))]
DIRECTED += [dict(B0, N=N, d=d, k=k, kind=kd, src=src, np_rs=N + k, dt="f8", node="data") for N, d, k in VARIETY for kd in ("l2", "linf") for src in ("array", "file")]

DIRECTED += [dict(B0, N=N, d=d, k=k, kind=kd, src=src, np_rs=N + k, dt=dt) for N, d, k in ((100, 30, 20), (60, 130, 10), (257, 64, 8), (2000, 3, 300)) for kd in ("l1", "l2", "linf") for src, dt in (("array", "f8"), ("file", "f8"), ("array", "f4"), ("list", "f8"))]
# a large part of many rows left out
DIRECTED += [dict(B0, N=N, d=1, k=400, kind="l1", src=src, np_rs=N, dt="f8") for N, src in ((1300000, "array"), (300000, "file"))]


def data(case, r):
    N, d, xk = case["N"], case["d"], case["xk"]
    if xk == "far":
        A = r.randn(N, d) + 1e5
    elif xk == "cluster":
        A = r.randn(N, d)*1e-4 + 10*r.randint(0, 2, (N, 1))
    else:
        A = g.raw_x(xk, N, d, r)
    A = g.cast(A, case["dt"])
    _, ix = np.unique(A.astype(float), axis=0, return_index=True)
    return A[np.sort(ix)]


def run(case, mon, tmp):
    r = g.rs(case["ds"], 1)
    A = data(case, r)
    N, d = A.shape
    if N < 2:
        return
    k = case["k"]
    V = A.astype(float)
    if case["src"] == "file":
        f = os.path.join(tmp, "a.h5")
        if A.dtype.kind == "f" and A.dtype.itemsize == 2:
            A = A.astype("f4")
        h = tables.open_file(f, "w")
        N0 = np.ascontiguousarray(A).astype(A.dtype.newbyteorder("="))
        if case["node"] == "carray":
            h.create_carray(h.root, "c", obj=N0)
        elif case["node"] == "earray":
            h.create_earray(h.root, "e1", obj=N0)
        else:
            h.create_array(h.root, case["node"] or "z", obj=N0)
        h.close()
        arg = f
        before = open(f, "rb").read()
        mon.hit("files")
    elif case["src"] == "list":
        arg = A.tolist()
        before = repr(arg)
        mon.hit("lists")
    else:
        arg = g.layout(A, case["lay"], r)
        before = arg.tobytes()
        mon.hit("arrays")
    from hpelm.modules import rbf_param
    kind = case["kind"]
    metric = "l1" if "l1" in kind else "linf" if "inf" in kind else "l2"
    mon.hit("metric " + metric)
    np.random.seed(case["np_rs"] % (1 << 31))
    rec = []
    hooks.set_dist(rec)
    try:
        W, B = rbf_param(arg, k, kind) if kind else rbf_param(arg, k)
    finally:
        hooks.set_dist(None)
    if not kind:
        mon.hit("default metric")
    mon.ok(not hooks.handles(), "files left open: %s", hooks.handles())
    after = open(arg, "rb").read() if case["src"] == "file" else repr(arg) if case["src"] == "list" else arg.tobytes()
    mon.ok(after == before, "the data was changed")
    W, B = np.asarray(W), np.asarray(B)
    mon.ok(W.shape == (d, k), "centroids have shape %s, expected (%d inputs, %d neurons)", W.shape, d, k)
    # drawn from all rows: m of N rows hold all k centroids with a probability of at most binom(N, m) (m/N)^k
    n1 = len(np.unique(W.T.astype(float) + 0.0, axis=0))
    if n1 < N:
        lp = gammaln(N + 1) - gammaln(n1 + 1) - gammaln(N - n1 + 1) + k*np.log(n1 / float(N))
        mon.ok(lp > -46, "only %d of %d rows are among %d random centroids (probability below exp(%.0f))", n1, N, k, lp)
        if gammaln(N + 1) - gammaln(max(1, N // 2) + 1) - gammaln(N - max(1, N // 2) + 1) + k*np.log(0.5) < -46:
            mon.hit("centroid variety judged")
    if k > 66 and N >= 64:      # ... and no large part of the rows is left out
        pos = {v.tobytes(): i for i, v in enumerate(V + 0.0)}
        ix = np.array([pos.get((W[:, i].astype(float) + 0.0).tobytes(), -1) for i in range(k)])
        for q in (2, 4, 8):
            for part, what in ((ix*q // N, "%d. of %d blocks"), (ix % q, "%d. of %d interleaved parts")):
                for j in range(q):
                    p = k*np.log(1 - 1.0/q + 1.0/N)
                    mon.ok(p > -46 or bool((part == j).any()), "no row of the " + what + " of the data is among %d random centroids (probability exp(%.0f))", j + 1, q, k, p)
        mon.hit("parts of the data judged")
        if N > 10**6:
            mon.hit("a million rows")
    if n1 == N and k > 40*N:
        mon.hit("every row is a centroid")
    mon.ok(B.shape == (k,), "widths have shape %s, expected (%d,)", B.shape, k)
    rows = {v.tobytes() for v in (V + 0.0)}
    for i in range(k):
        mon.ok((W[:, i].astype(float) + 0.0).tobytes() in rows, "centroid %d is not a row of the data: %s", i, W[:, i])
    mon.ok(bool(np.isfinite(B).all()) and bool((B > 0).all()), "widths are not positive: %s", B)
    # all pairwise distances
    if N <= 3000:
        D = np.abs(V[:, None] - V[None])
        D = D.sum(2) if metric == "l1" else D.max(2) if metric == "linf" else (D**2).sum(2)
        big = D.max()
    else:      # an upper bound
        D = V.max(0) - V.min(0)
        big = D.sum() if metric == "l1" else D.max() if metric == "linf" else (D**2).sum()
    mon.ok(bool((B <= 2*big*(1 + 1e-9)).all()), "width %g is above twice the largest %s distance %g", B.max(), metric, big)
    if N == 2:
        mon.hit("two rows")
        mon.ok(np.allclose(B, big, rtol=1e-6), "widths are %s, the only distance is %g", B, big)
    if k > N:
        mon.hit("more centroids than rows")
    dist = [v[2] for v in rec]
    if N <= 3000 and dist and all(np.shape(v) == (1, 1) for v in dist):
        dist = np.array([v[0, 0] for v in dist])
        flat = np.sort(D[np.triu_indices(N, 1)])
        j = np.searchsorted(flat, dist)
        near = np.minimum(np.abs(flat[np.minimum(j, len(flat) - 1)] - dist), np.abs(flat[np.maximum(j - 1, 0)] - dist))
        mon.ok(bool((near <= 1e-6*np.maximum(dist, 1e-300) + 1e-12*np.abs(V).max()**(2 if metric == "l2" else 1)).all()), "a sampled distance is not a %s distance between two rows of the data", metric)
        m, s = dist.mean(), dist.std()
        mon.ok(bool((np.abs(B - m) <= s*(1 + 1e-6) + 1e-9*m).all()), "widths %s are not within one standard deviation (%g) of the mean (%g) of the sampled distances", B, s, m)
        mon.hit("sampled distances observed", len(dist))
        if len(dist) >= 30:
            mon.hit("many distances")
    m = g.new_model(dict(d=d, c=1, norm=1e-3), "ELM")
    m.add_neurons(k, {"l1": "rbf_l1", "l2": "rbf_l2", "linf": "rbf_linf"}[metric], W, B)
    H = np.asarray(m.project(V[:1000]))
    if N <= 60:
        R, t = o.hidden(V, [({"l1": "rbf_l1", "l2": "rbf_l2", "linf": "rbf_linf"}[metric], W, B)], 2e-16)
        mon.ok(bool(np.all(np.abs(H - R) <= 2*t + 1e-12)), "hidden layer of the neurons is off")
    mon.hit("used in neurons")
