"""C17: files made by make_hdf5 against their sources, read back independently."""
import bz2, gzip, hashlib, os
import numpy as np
import tables
from ..core import close
from .. import gen as g, hooks
from hpelm import make_hdf5

ID, LEVEL, QUICK_S = "C17", "exploration", 15
RULE = ("random sources (array of any dtype / layout / one or two dimensions, .npy, .txt, .csv, .gz, .bz2, shape), delimiters, headers, line ends, requested dtypes, "
        "compression levels, existing output files; non-trivial: the stored array was compared bit by bit with the source")
KINDS = ["array", "array", "npy", "txt", "csv", "txt.gz", "csv.gz", "txt.bz2", "csv.bz2", "shape"]
REQUIRE = ["source " + k for k in set(KINDS)] + ["one row", "one column", "compressed", "headers skipped", "dtype changed", "overwritten files", "read by a model", "special values", "large integers in text"]


def gen(rng, D):
    N = D.size(rng, 1, 60)
    if rng.random() < 0.04:
        N = rng.choice([1000, 1001, 3000, rng.randint(100, 20000)])
    return dict(N=N, d=D.size(rng, 1, 12) if N < 300 else rng.randint(1, 4), kind=rng.choice(KINDS), dt=rng.choice(["f8", "f8", "f4", "i4", "i8", "u1", "i2", ""]),
                sdt=rng.choice(["f8", "f8", "f4", "i4", "i8", "u1", "b1", ">f8", "i2", "f2", ">i4"]), lay=rng.choice(g.LAYOUTS), one=rng.random() < 0.3, ro=rng.random() < 0.5,
                comp=rng.choice([-1, 0, 1, 3, 9, rng.randint(0, 9)]), delim=rng.choice([" ", ",", ";", "\t", "|", ":", ""]), skip=rng.choice([0, 0, 1, 2, rng.randint(0, 6)]), crlf=rng.random() < 0.15,
                last=rng.random() < 0.8, vk=rng.choice(["normal", "int", "exp", "special", "zeros", "small"]), fmt=rng.choice(["repr", "%.3f", "%g", "%.18e"]), exist=rng.random() < 0.3,
                ds=rng.randrange(1 << 30), dtk=rng.choice(["type", "dtype"]), hdr=rng.randrange(4))


def fix(c):
    if c["kind"] not in ("array", "npy", "shape") and c["dt"] in ("i4", "i8", "u1", "i2"):
        c["fmt"] = "int"
    if c["kind"] in ("array", "npy") and c["dt"] in ("i4", "i8", "u1", "i2") and c["vk"] in ("exp", "special"):
        c["vk"] = "normal"
    return c


B0 = dict(N=7, d=3, kind="array", dt="f8", sdt="f8", lay="C", one=False, ro=True, comp=-1, delim=" ", skip=0, crlf=False, last=True, vk="normal", fmt="repr", exist=False, ds=1, dtk="type", hdr=0)
DIRECTED = [dict(B0, kind=k, N=N, d=d, skip=sk, delim=dl, comp=cm, dt=dt, ds=N) for k in sorted(set(KINDS)) for N, d in ((1, 1), (1, 4), (6, 1), (7, 3))
            for sk, dl, cm, dt in ((0, " ", -1, "f8"), (2, ",", 4, "f4"), (1, "\t", 0, "i4"))] + \
    [dict(B0, lay=l, sdt=s, one=o1, d=d) for l in sorted(set(g.LAYOUTS)) for s in ("f8", ">f8", "i4", "b1") for d, o1 in ((3, False), (1, True), (1, False))]

DIRECTED += [dict(B0, kind=k, N=N, d=1, ds=N, comp=cm) for k in ("array", "npy") for N, cm in ((4097, -1), (65537, -1), (100001, 1), (1048577, -1))]
DIRECTED += [dict(B0, kind=k, N=N, d=d, skip=i % 2, ds=N, last=i % 3 > 0) for i, (N, d) in enumerate(((1025, 2), (4097, 1), (8193, 2), (10001, 1), (16385, 1), (65537, 1), (100001, 1))) for k in ("txt", "csv")]


def run(case, mon, tmp):
    r = g.rs(case["ds"], 3)
    N, d, kind = case["N"], case["d"], case["kind"]
    vk = case["vk"]
    A = {"normal": lambda: r.randn(N, d)*10, "int": lambda: r.randint(-90, 100, (N, d)).astype(float), "exp": lambda: r.randn(N, d)*10.0**r.randint(-30, 30, (N, d)),
         "zeros": lambda: np.zeros((N, d)), "small": lambda: r.rand(N, d), "special": lambda: r.choice([0.0, -0.0, 1.5, -2.0, np.inf, -np.inf, np.nan, 1e-310, 1e300], size=(N, d))}[vk]()
    dt = np.dtype(case["dt"] or "f8")
    out = os.path.join(tmp, "out.h5")
    kw = {}
    if case["dt"]:
        kw["dtype"] = dt.type if case["dtk"] == "type" else dt
    if case["comp"] >= 0:
        kw["comp_level"] = case["comp"]
        if case["comp"]:
            mon.hit("compressed")
    if case["exist"]:
        g.h5(out, np.ones((N + 3, d + 2)), "i4")
        mon.hit("overwritten files")
    fsrc = None
    if kind in ("array", "npy"):
        sdt = np.dtype(case["sdt"])
        with np.errstate(all="ignore"):
            if sdt.kind in "fc" or sdt.kind in "iub":
                A = g.cast(A, sdt) if np.isfinite(A).all() and np.abs(A).max() < 1e4 else A.astype(sdt) if sdt.kind == "f" else A
            if dt.kind in "iu":
                A = np.clip(A.astype(float), 0 if dt.kind == "u" else -100, 100).astype(A.dtype)
            src = g.layout(A, case["lay"], r)
            ref = np.array(A).astype(dt)
        if case["one"] and d == 1:
            src = src[:, 0]
        if kind == "npy":
            fsrc = os.path.join(tmp, "src.npy")
            np.save(fsrc, src)
        elif case["ro"]:
            src.setflags(write=False)
        arg = fsrc or src
        h = src.tobytes()
    elif kind == "shape":
        arg, ref = (N, d), np.zeros((N, d), dt)
    else:
        if case["fmt"] == "int":
            if case["ds"] % 3 == 0 and dt.itemsize >= 4:      # all digits of large integers
                mon.hit("large integers in text")
                A = r.randint(-2**(8*dt.itemsize - 2), 2**(8*dt.itemsize - 2), (N, d))
                f = lambda v: str(int(v))
            else:
                f = lambda v: str(int(np.clip(v if np.isfinite(v) else 7, 0 if dt.kind == "u" else -100, 100)))
        elif case["fmt"] == "repr":
            f = lambda v: repr(float(v))
        else:
            f = lambda v: case["fmt"] % v
        txt = [[f(v) for v in row] for row in A]
        with np.errstate(all="ignore"):
            ref = np.array([[int(v) for v in row] for row in txt], dtype=dt) if dt.kind in "iu" else np.array([[float(v) for v in row] for row in txt]).astype(dt)
            ref = ref.reshape(N, d)
        dl = case["delim"] or " "
        nl = "\r\n" if case["crlf"] else "\n"
        heads = [["a header, with 1 2 3", "col1;col2", '"quoted', "", "x\ty", "# c"][int(i)] for i in r.randint(0, 6, case["skip"])]
        s = nl.join(heads + [dl.join(row) for row in txt]) + (nl if case["last"] else "")
        fsrc = os.path.join(tmp, "src." + kind)
        op = {"gz": gzip.open, "z2": bz2.open}.get(kind[-2:], open)
        with op(fsrc, "wb") as fh:
            fh.write(s.encode())
        if case["delim"]:
            kw["delimiter"] = dl
        if case["skip"]:
            kw["skiprows"] = case["skip"]
            mon.hit("headers skipped")
        arg = fsrc
    if fsrc:
        h0 = hashlib.blake2b(open(fsrc, "rb").read()).hexdigest()
    make_hdf5(arg, out, **kw)
    mon.ok(not hooks.handles(), "files left open: %s", hooks.handles())
    mon.hit("source " + kind)
    if N == 1:
        mon.hit("one row")
    if d == 1:
        mon.hit("one column")
    if case["dt"] and kind in ("array", "npy") and np.dtype(case["sdt"]) != dt:
        mon.hit("dtype changed")
    if vk == "special":
        mon.hit("special values")
    # independent reader
    fh = tables.open_file(out, "r")
    try:
        nodes = [n for n in fh.walk_nodes() if isinstance(n, tables.Leaf)]
        mon.ok(len(nodes) == 1, "file has %d arrays", len(nodes))
        V = nodes[0].read()
        comp = nodes[0].filters.complevel
    finally:
        fh.close()
    mon.ok(V.ndim == 2 and V.shape == (N, d), "stored shape is %s, source is %s", V.shape, (N, d))
    mon.ok(V.dtype == dt, "stored dtype is %s, requested %s", V.dtype, dt)
    mon.ok(comp == max(0, case["comp"]), "stored with compression %s, requested %s", comp, case["comp"])
    same = np.array_equal(V, ref, equal_nan=dt.kind == "f")
    if not same:
        bad = np.argwhere(~((V == ref) | ((V != V) & (ref != ref))))[0]
        mon.ok(False, "value at %s is %r, source has %r", [int(i) for i in bad], V[tuple(bad)], ref[tuple(bad)])
    mon.deciding += 1
    if kind == "array":
        mon.ok(src.tobytes() == h, "source array was modified")
    if fsrc:
        mon.ok(hashlib.blake2b(open(fsrc, "rb").read()).hexdigest() == h0, "source file was modified")
    left = sorted(f for f in os.listdir(tmp) if f not in ("out.h5", os.path.basename(fsrc or "")))
    mon.ok(not left, "other files were made: %s", left)
    if np.isfinite(ref.astype(float)).all() and np.abs(ref.astype(float)).max() < 1e3 and N < 300:
        m = g.HPELM(d, 2, batch=max(1, N // 2), tprint=g.tprint(case))
        m.add_neurons(3, "tanh", r.randn(d, 3)*0.1, r.randn(3))
        m.train(out, np.ones((N, 2)))
        Ha, Hf = m.project(ref.astype(float)), m.project(out)
        close(mon, Hf, Ha, 1e-5 if dt == np.float32 else 1e-12, "hidden layer of the made file")
        mon.hit("read by a model")
