"""C18: normalised files against two-pass statistics of their data, for histories of normalisation calls."""
import os
import numpy as np
import tables
from .. import gen as g, hooks
from hpelm import normalize_hdf5

ID, LEVEL, QUICK_S = "C18", "exploration", 15
RULE = ("random files made by the toolbox (arrays, .npy, text, compression, double or single), column kinds (constant, zero, shifted, huge, tiny, two-valued, outlier), batch sizes, "
        "histories of calls with and without parameters; non-trivial: returned parameters and every stored value were compared with the oracle")
REQUIRE = ["computed parameters", "given parameters", "repeated calls", "constant columns", "zero deviations given", "incomplete last batches", "native batch size", "several chunks",
           "text sources", "single precision files", "wide files", "files used by a model"]
COLS = ["normal", "normal", "const", "zero", "shift", "huge", "tiny", "two", "outlier", "int", "uniform", "almost"]


def gen(rng, D):
    N = D.size(rng, 1, 120)
    d = D.size(rng, 1, 8)
    if rng.random() < 0.06:
        N, d = rng.choice([(20000, 2), (9001, 1), (3000, 5), (rng.randint(5000, 20000), rng.randint(1, 3))])
    wide = rng.choice([8191, 8192, 8193, 9000, 17000, rng.randint(8000, 20000)]) if rng.random() < 0.01 else 0
    return dict(N=N, wide=wide, cols=[rng.choice(COLS) for _ in range(d)], src=rng.choice(["array", "array", "npy", "txt", "csv.gz"]) if N < 500 else rng.choice(["array", "npy"]),
                dt=rng.choice(["f8", "f8", "f4"]), comp=rng.choice([0, 0, 4]), ds=rng.randrange(1 << 30),
                calls=[[rng.choice(["none", "none", "none", "given", "given"]), rng.choice([0, 0, 1, 2, 7, N, N + 1, max(1, N - 1), max(1, N // 2), max(1, N // 3), rng.randint(1, N)]),
                        rng.randrange(1 << 30), rng.random() < 0.5, rng.choice(["f8", "f8", "f4", "i8", "list"])] for _ in range(rng.choice([1, 2, 2, 3, 4]))],
                use=rng.random() < 0.1)


def fix(c):
    if c["wide"]:
        c["N"] = min(c["N"], 12)
    if c["src"] not in ("array", "npy"):
        c["N"] = min(c["N"], 500)
    if c["N"] > 500:
        for q in c["calls"]:
            if q[1] and q[1] < 100:
                q[1] = 100 + q[1]
    return c


B0 = dict(N=23, wide=0, cols=["normal", "const", "shift"], src="array", dt="f8", comp=0, ds=1, calls=[["none", 5, 1, True, "f8"], ["none", 7, 1, True, "f8"]], use=False)
DIRECTED = [dict(B0, N=N, dt=dt, src=src, calls=[[a, b, 3, True, "f8"], [a2, 0, 4, True, "f8"], ["none", 2, 5, True, "f8"]], ds=N + b, cols=cols, use=N == 23)
            for N, cols in ((1, ["normal"]), (23, ["normal", "const", "shift", "zero"]), (40, ["two"]), (41, ["const", "const", "const"])) for b in (0, 1, 5, 23, 40)
            for dt, src in (("f8", "array"), ("f4", "txt")) for a, a2 in (("none", "given"), ("given", "given"), ("none", "none"))] + \
    [dict(B0, N=20000, cols=["normal", "shift"], calls=[["none", b, 1, True, "f8"], ["none", 0, 1, True, "f8"]]) for b in (0, 3001)] + \
    [dict(B0, N=N, cols=["normal", "shift"], calls=[["none", b, 1, True, "f8"], ["none", 0, 1, True, "f8"]]) for N, b in ((65537, 0), (65537, 65536), (70001, 1000), (400001, 0))] + \
    [dict(B0, N=5, wide=9000, calls=[[a, 2, 1, True, "f8"], [b, 0, 2, True, "f8"], ["none", 0, 1, True, "f8"]]) for a, b in (("none", "none"), ("given", "none"), ("none", "given"), ("given", "given"))]


def column(kind, N, r):
    if kind == "const":
        return np.ones(N) * r.randn() * 10.0 ** r.randint(-4, 6)
    if kind == "zero":
        return np.zeros(N)
    if kind == "shift":
        return r.randn(N) + r.choice([10.0, -1000.0, 1e6])
    if kind == "huge":
        return r.randn(N) * 1e8
    if kind == "tiny":
        return r.randn(N) * 1e-8
    if kind == "two":
        return np.where(r.rand(N) < 0.5, 0.1, 7.3)
    if kind == "outlier":
        a = r.randn(N)
        a[r.randint(N)] = 1e4
        return a
    if kind == "int":
        return r.randint(-3, 4, N).astype(float)
    if kind == "uniform":
        return r.rand(N)
    if kind == "almost":   # one value differs
        a = np.ones(N) * r.randn()
        a[r.randint(N)] += 1
        return a
    return r.randn(N)


def peek(f):
    fh = tables.open_file(f, "r")
    try:
        nodes = [n for n in fh.walk_nodes() if isinstance(n, tables.Leaf)]
        return [n.read() for n in nodes], (nodes[0].filters.complevel, nodes[0].chunkshape)
    finally:
        fh.close()


def run(case, mon, tmp):
    r = g.rs(case["ds"], 4)
    N, d = case["N"], case["wide"] or len(case["cols"])
    A = np.stack([column(case["cols"][j % len(case["cols"])], N, r) for j in range(d)], 1)
    dt = np.dtype(case["dt"])
    eps = float(np.finfo(dt).eps)
    f = os.path.join(tmp, "data.h5")
    if case["src"] == "array":
        g.h5(f, A.astype(dt), comp_level=case["comp"])
    else:
        s = os.path.join(tmp, "src." + case["src"])
        if case["src"] == "npy":
            np.save(s, A)
        else:
            np.savetxt(s, A)
            mon.hit("text sources")
        g.make_hdf5(s, f, dtype=dt.type, comp_level=case["comp"])
    if dt == np.float32:
        mon.hit("single precision files")
    vals, attr = peek(f)
    mon.ok(len(vals) == 1 and vals[0].shape == (N, d), "source file is broken")
    V = vals[0]
    if attr[1] and attr[1][0] < N:
        mon.hit("several chunks")
    known = None
    if d > 8192:
        mon.hit("wide files")
    for kind, batch, seed, ro, vt in case["calls"]:
        kw = {}
        if batch:
            kw["batch"] = batch
            if N % batch:
                mon.hit("incomplete last batches")
        else:
            mon.hit("native batch size")
        r2 = g.rs(seed, 9)
        before = V.astype(np.float64)
        if kind == "given":
            mean, std = r2.randn(d)*3, np.abs(r2.randn(d)) + 0.2
            if vt == "i8":
                mean, std = np.round(mean), np.ceil(std)
            if r2.rand() < 0.5:
                std[r2.randint(d)] = 0
                mon.hit("zero deviations given")
            if vt == "list":
                amean, astd = list(mean), list(std)
            else:
                amean, astd = mean.astype(vt), std.astype(vt)
                mean, std = amean.astype(float), astd.astype(float)
                if ro:
                    amean.setflags(write=False)
                    astd.setflags(write=False)
            cm, cs = np.array(amean).tobytes(), np.array(astd).tobytes()
            m, s = normalize_hdf5(f, amean, astd, **kw) if seed % 2 else normalize_hdf5(f, mean=amean, std=astd, **kw)
            mon.ok(np.array(amean).tobytes() == cm and np.array(astd).tobytes() == cs, "given parameters were modified")
            std = np.where(std == 0, 1.0, std)
            mon.ok(np.array_equal(np.asarray(m, float), mean), "returned means %s are not the given ones %s", m, mean)
            s = np.asarray(s, float)
            mon.ok(np.array_equal(np.where(s == 0, 1.0, s), std), "returned deviations %s are not the given ones %s", s, std)
            mon.hit("given parameters")
        else:
            m, s = normalize_hdf5(f, **kw)
            m, s = np.array(m, dtype=float), np.array(s, dtype=float)
            if known is None:
                mean = before.mean(0)
                mean = mean + (before - mean).mean(0)
                const = (before == before[0]).all(0)
                std = np.sqrt(((before - mean)**2).mean(0))
                mean[const], std[const] = before[0][const], 1.0
                big = np.abs(before).max(0)
                mon.hit("constant columns", const.sum())
                mon.ok(m.shape == (d,) and s.shape == (d,), "parameters have shapes %s, %s", m.shape, s.shape)
                tol = 1e-8*std*~const + 200*2.3e-16*big
                mon.ok(bool((np.abs(m - mean) <= tol).all()), "returned means are %s, the data has %s", m[:9], mean[:9])
                mon.ok(bool((s[const] == 1).all()), "deviation of a constant column is %s, expected 1", s[const])
                mon.ok(bool((np.abs(s - std) <= 1e-8*std + 200*2.3e-16*big).all()), "returned deviations are %s, the data has %s", s, std)
                mean, std = m, s      # within rounding of the statistics: from here on the exact ones
                mon.hit("computed parameters")
            else:
                mon.ok(np.array_equal(m, known[0]), "a repeated call returns means %s, stored ones are %s", m, known[0])
                mon.ok(np.array_equal(np.where(s == 0, 1.0, s), known[1]), "a repeated call returns deviations %s, stored ones are %s", s, known[1])
                mon.hit("repeated calls")
        mon.ok(not hooks.handles(), "file left open: %s", hooks.handles())
        vals, attr2 = peek(f)
        mon.ok(len(vals) == 1 and attr2 == attr, "structure of the file changed: %s arrays, %s, was %s", len(vals), attr2, attr)
        V2 = vals[0]
        mon.ok(V2.shape == (N, d) and V2.dtype == dt, "stored array became %s %s", V2.shape, V2.dtype)
        if kind == "none" and known is not None:
            mon.ok(V2.tobytes() == V.tobytes(), "a repeated call changed the data")
        else:
            ref = (before - mean) / std
            tol = 2*eps*np.abs(ref) + 4*2.3e-16*(np.abs(before) + np.abs(mean))/std + 1e-30
            dev = np.abs(V2.astype(float) - ref)
            bad = ~(dev <= tol)
            if bad.any():
                i = tuple(int(v) for v in np.argwhere(bad)[0])
                mon.ok(False, "value at %s is %r, (x-mean)/std is %r (%d of %d values are wrong, batch %s)", i, float(V2[i]), float(ref[i]), int(bad.sum()), bad.size, batch)
            mon.deciding += 1
            mon.hit("values compared", ref.size)
            if kind == "none" and N > 1:
                c = ~const
                n2 = V2.astype(float)
                k = 1e-6 + 1e3*eps + 1e3*2.3e-16*np.abs(before).max(0)[c]/std[c]
                mon.ok(bool((np.abs(n2.mean(0)[c]) <= k).all() and (np.abs(n2.std(0)[c] - 1) <= k).all()), "normalised columns have means %s and deviations %s", n2.mean(0), n2.std(0))
                mon.ok(bool((np.abs(n2[:, const]) <= 1e-12*(1 + np.abs(before[0][const]))).all()), "normalised constant columns are not zero")
            known = (mean, std)
        V = V2
    if case["use"]:
        m = g.new_model(dict(d=d, c=1), "HPELM")
        m.add_neurons(2, "tanh")
        H = m.project(f)
        mon.ok(np.allclose(H, m.project(V.astype(float)), rtol=1e-4, atol=1e-5), "a model reads other data from the normalised file")
        mon.hit("files used by a model")
