"""C20: refused calls inside random histories: model, files and everything that follows must be as without them."""
import hashlib, os
import numpy as np
import tables
from ..core import Violation
from .. import gen as g, hooks
from hpelm import make_hdf5, normalize_hdf5

ID, LEVEL, QUICK_S = "C20", "exploration", 15
RULE = ("random histories of valid operations executed on twin models; one of them also gets refused calls (kind of unsuitable data x argument position x operation); model snapshots and "
        "digests of all files are compared around each refused call, and both twins after each valid one; non-trivial: a refused call was judged")
FILEBAD = ["missing", "garbage", "zero", "emptyh5", "h5feat", "h5rows", "h53d", "h5str", "trunc"]
ARRBAD = ["more", "less", "rows+", "rows-", "3d", "3d1", "str", "bytes", "object", "0d", "flat", "date", "struct"]
BOTH = ["trainX", "trainT", "addX", "addT", "selXv", "selTv", "predX", "predXf", "projX", "projXf", "errT", "errY", "confT", "confY"]
HP = ["addXf", "addTf", "badHH", "badHT", "scHH", "scHT", "vcHH", "vcHT", "vcX", "vcT", "asyX", "asyT", "asyadd", "asypred", "predY", "projH"]
FREE = ["load", "loads", "normmissing", "normgarbage", "normlen", "maketext", "makemissing", "make3d", "makestr", "noneurons", "untrained", "rbf3d"]
OPS = BOTH + HP + FREE
REQUIRE = ["refused " + k for k in OPS] + ["kind " + k for k in FILEBAD + ARRBAD] + ["valid operations", "existing outputs kept", "unsuitable output arrays", "arrays for asynchronous operations", "accumulated data kept"]


def gen(rng, D):
    c = dict(N=D.size(rng, 4, 40), d=rng.randint(1, 5), c=rng.choice([1, 2, 2, 3, 4]), xk="normal", tk="onehot", xdt=rng.choice(["f8", "f8", "f4"]), tdt=rng.choice(["f8", "f8", "f4", "i4"]), xlay="C",
             tlay="C", x1d=False, t1d=False, ds=rng.randrange(1 << 30))
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=6, pbig=0, ufunc=False), cl=rng.choice(["ELM", "HPELM", "HPELM"]), ctor=rng.choice(["", "", "c", "wc", "ml"]))
    c["ops"] = []
    for _ in range(rng.randint(2, 7)):
        if rng.random() < 0.35:
            c["ops"].append(["ok", rng.choice(["train", "train", "trainc", "trainw", "add", "addf", "pred", "predf"]), rng.randrange(1 << 30)])
        else:
            op = rng.choice(rng.choice([BOTH, HP, HP, FREE]) if c["cl"] == "HPELM" else rng.choice([BOTH, BOTH, FREE]))
            if op.startswith("asy") and rng.random() < 0.7:
                op = "addXf"
            c["ops"].append([op, rng.choice(FILEBAD + ARRBAD), rng.randrange(1 << 30)])
    return c


def fix(c):
    if c["c"] == 1:
        c["ctor"], c["tk"] = "", "normal"
        if c["tdt"] == "i4":
            c["tdt"] = "f8"
    else:
        c["tk"] = "onehot"
    return c


B0 = dict(N=17, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=4, norm=0.1,
          neu=[["tanh", 4, "given", 3], ["lin", 2, "given", 5]], cl="HPELM", ctor="", ops=[])
DIRECTED = [dict(B0, cl=cl, ctor=ct, ds=i, solver=sv, ops=[["ok", "trainc", 1]] + ([["ok", "addf", 1]] if cl == "HPELM" else [["ok", "add", 5]]) + [[op, b, 3 + i] for op in ops for b in bad] +
                 [["ok", "predf", 4], ["ok", "add", 2], ["ok", "train", 3]])
            for i, (cl, ct, sv) in enumerate((("ELM", "", ""), ("HPELM", "", ""), ("HPELM", "wc", "basic"), ("ELM", "wc", ""), ("ELM", "", "basic"), ("HPELM", "c", "")))
            for ops, bad in [([op], ARRBAD + FILEBAD) for op in BOTH] + ([([op], FILEBAD) for op in HP] if cl == "HPELM" else []) + [(FREE, ["missing", "more"])]]


def digest_dir(p):
    """Contents of all files: stored arrays of HDF5 files (their bytes hold times), bytes of others."""
    out = {}
    for f in sorted(os.listdir(p)):
        if f.endswith(".lock"):
            continue
        with open(os.path.join(p, f), "rb") as h:
            b = h.read()
        out[f] = hashlib.blake2b(b, digest_size=12).hexdigest()
        if b[:4] == b"\x89HDF":
            try:
                h = tables.open_file(os.path.join(p, f), "r")
            except Exception:
                continue
            try:
                out[f] = [(n._v_pathname, n.dtype.str, n.shape, hashlib.blake2b(n.read().tobytes()).hexdigest()) for n in h.walk_nodes() if isinstance(n, tables.Array)]
            finally:
                h.close()
    return out


def bad_file(kind, A, path, r):
    """Makes the unsuitable file (in advance) and returns its name."""
    A = g.mat(A)
    if os.path.exists(path):
        os.unlink(path)
    if kind == "missing":
        return path
    if kind in ("garbage", "zero"):
        with open(path, "wb") as f:
            f.write(b"" if kind == "zero" else r.bytes(r.randint(1, 5000)))
    elif kind == "emptyh5":
        tables.open_file(path, "w").close()
    elif kind == "h5feat":
        g.h5(path, np.hstack((A, A[:, :1])))
    elif kind == "h5rows":
        g.h5(path, A[:-1] if r.randint(2) else np.vstack((A, A[:2])))
    elif kind in ("h53d", "h5str"):
        h = tables.open_file(path, "w")
        h.create_array(h.root, "data", A[:, :, None] if kind == "h53d" else A.astype("S8"))
        h.close()
    elif kind == "trunc":
        g.h5(path, A)
        b = open(path, "rb").read()
        with open(path, "wb") as f:
            f.write(b[:r.randint(1, min(len(b), 700))])
    return path


def bad_array(kind, A, r):
    A = g.mat(A)
    n, d = A.shape
    if kind == "more":
        return np.hstack((A, A[:, :1]))
    if kind == "less":
        return A[:, :-1] if d > 1 else np.hstack((A, A, A))
    if kind == "rows+":
        return np.vstack((A, A[:r.randint(1, 4)]))
    if kind == "rows-":
        return A[:n - r.randint(1, max(2, n // 2))]
    if kind == "3d":
        return np.stack((A, A), 2)
    if kind == "3d1":
        return A[:, :, None]
    if kind == "str":
        return A.astype("U12")
    if kind == "bytes":
        return A.astype("S12")
    if kind == "object":
        return A.astype(object)
    if kind == "date":
        return np.round(A*100).astype("M8[D]")
    if kind == "struct":
        return A.astype([("a", "f8")])
    if kind == "0d":
        return np.array(1.5)
    return A[:, 0] if d > 1 else A.reshape(1, n) if n > 1 else np.ones((2, 3, 1))    # flat


class Twin(object):
    def __init__(self, case, path):
        os.mkdir(path)
        self.p = lambda f: os.path.join(path, f)
        self.path, self.case = path, case
        over = dict(cls=case["ctor"])
        if case["ctor"] == "wc":
            over["w"] = np.arange(1, case["c"] + 1) * 0.5
        self.m = g.add_all(g.new_model(case, case["cl"], **over), case["neu"], case["d"])
        self.X, self.T = g.make_data(case)
        self.hp = case["cl"] == "HPELM"
        if self.hp:
            g.h5(self.p("X.h5"), self.X)
            g.h5(self.p("T.h5"), self.T)

    def valid(self, op, seed):
        m, X, T = self.m, self.X, self.T
        c = self.case["c"]
        np.random.seed(seed % (1 << 31))
        file = self.hp and seed % 2
        if file:
            X, T = self.p("X.h5"), self.p("T.h5")
        out = None
        if op == "trainc" and c > 1:
            m.train(X, T, "c")
        elif op == "trainw" and c > 1:
            m.train(X, T, "wc", w=np.arange(c, 0, -1.0))
        elif op in ("train", "trainc", "trainw"):
            m.train(X, T)
        elif op == "add" and m.nnet.get_B() is not None:
            m.add_data(X, T)
            m.nnet.solve()
        elif op == "addf" and self.hp:
            m.add_data(X, T, fHH=self.p("HH.h5"), fHT=self.p("HT.h5"))
        elif op == "pred" and m.nnet.get_B() is not None:
            out = m.predict(X)
        elif op == "predf" and m.nnet.get_B() is not None and self.hp:
            m.predict(X, self.p("Y.h5"))
            m.project(X, self.p("H.h5"))
            out = g.read_h5(self.p("Y.h5"))[0]
        return None if out is None else np.asarray(out).tobytes()


def run(case, mon, tmp):
    A, B = Twin(case, os.path.join(tmp, "a")), Twin(case, os.path.join(tmp, "b"))
    if not np.isfinite(np.asarray(A.m.project(A.X), float)).all():
        return
    m = A.m
    for i, (op, kind, seed) in enumerate(case["ops"]):
        if op == "ok":
            a, b = A.valid(kind, seed), B.valid(kind, seed)
            mon.ok(a == b, "%s gives another result after refused calls", kind)
            df = g.diff(g.snap(A.m), g.snap(B.m))
            mon.ok(not df, "after %s the model with refused calls differs: %s", kind, df)
            fa, fb = digest_files(A.path), digest_files(B.path)
            mon.ok(fa == fb, "after %s the files differ from those without refused calls: %s", kind, sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k)))
            mon.hit("valid operations")
            continue
        refuse(case, A, op, kind, seed, mon)
    for op in ("train", "pred") + (("addf", "predf") if A.hp else ()):
        a, b = A.valid(op, 5), B.valid(op, 5)
        mon.ok(a == b and not g.diff(g.snap(A.m), g.snap(B.m)), "%s at the end: the model with refused calls differs: %s", op, g.diff(g.snap(A.m), g.snap(B.m)))
    mon.ok(digest_files(A.path) == digest_files(B.path), "files differ at the end")


def digest_files(path):
    """Contents of the data files (not bytes: HDF5 stores times)."""
    out = {}
    for f in sorted(os.listdir(path)):
        if f.endswith(".h5") and not f.startswith("bad"):
            V, n = g.read_h5(os.path.join(path, f))
            out[f] = (n, V.shape, V.dtype.str, V.tobytes())
    return out


def refuse(case, A, op, kind, seed, mon):
    m, X, T, p, hp, c, d = A.m, A.X, A.T, A.p, A.hp, case["c"], case["d"]
    r = g.rs(seed, 6)
    N, L = case["N"], m.nnet.L
    isfile = kind in FILEBAD
    if isfile and not hp and kind not in ("missing", "garbage"):
        kind = ARRBAD[seed % len(ARRBAD)]
        isfile = False
    if not isfile and (op in ("badHH", "badHT", "scHH", "scHT", "vcHH", "vcHT", "asyX", "asyT", "asyadd", "asypred")):
        kind = FILEBAD[seed % len(FILEBAD)]
        isfile = True
    rowkinds = ("rows+", "rows-", "h5rows")
    trained = m.nnet.get_B() is not None

    def bad(ref, rows=True):
        k = kind
        if k in rowkinds and not rows:
            k = "h5feat" if k == "h5rows" else "more"
        if k == "flat" and g.mat(ref).shape == (1, 1):
            k = "more"
        mon.hit("kind " + k)
        return bad_file(k, ref, p("bad.h5"), r) if isfile else bad_array(k, ref, r)
    fX, fT = (p("X.h5"), p("T.h5")) if isfile and hp else (X, T)
    wcok = m.classification != "wc" or m.wc is not None
    flags = [[], ["c"], ["ml"], ["r"]][r.randint(4)] if c > 1 else []
    P = r.randn(N, c)
    call = None
    keep = []        # output arrays of zeros that must stay so
    if op in ("trainX", "trainT"):
        a = (bad(X), fT) if op == "trainX" else (fX, bad(T))
        call = lambda: m.train(*a, *flags)
    elif op in ("addX", "addT"):
        a = (bad(X), fT) if op == "addX" else (fX, bad(T))
        call = lambda: m.add_data(*a)
    elif op in ("selXv", "selTv"):
        if hp:
            return
        Xv, Tv = X[:max(2, N // 2)], T[:max(2, N // 2)]
        a = (bad(Xv), Tv) if op == "selXv" else (Xv, bad(Tv))
        fl = flags + [["V"], ["v", "OP"]][r.randint(2)]
        call = lambda: m.train(X, T, *fl, Xv=a[0], Tv=a[1])
    elif op in ("predX", "projX"):
        if op == "predX" and not trained:
            return
        a = bad(X, False)
        call = lambda: (m.predict if op == "predX" else m.project)(a)
    elif op in ("predXf", "projXf"):
        if not hp or op == "predXf" and not trained:
            return
        a = bad(X, False)
        out = p("Y.h5" if op == "predXf" else "H.h5")
        if os.path.exists(out):
            mon.hit("existing outputs kept")
        call = lambda: (m.predict if op == "predXf" else m.project)(a, out)
    elif op in ("predY", "projH"):
        if op == "predY" and not trained:
            return
        w = c if op == "predY" else L
        a = np.zeros((N, w + 1) if seed % 3 == 0 or N == 1 else (N, 1 + r.randint(2)*(w > 2)) if seed % 3 == 1 and w > 1 else (r.randint(1, N), w))
        mon.hit("unsuitable output arrays")
        keep.append(a)
        call = lambda: (m.predict if op == "predY" else m.project)(fX, a)
    elif op in ("errT", "errY", "confT", "confY"):
        if op.startswith("conf") and not m.classification:
            return
        if not wcok:
            return
        a = (bad(T, False), P) if op.endswith("T") else (T, bad(P, False))
        call = lambda: (m.error if op.startswith("err") else m.confusion)(*a)
    elif op in ("addXf", "addTf"):
        if not wcok:
            return
        a = (bad(X), fT) if op == "addXf" else (fX, bad(T))
        call = lambda: m.add_data(*a, fHH=p("HH.h5"), fHT=p("HT.h5"))
    elif op in ("badHH", "badHT", "scHH", "scHT", "vcHH", "vcHT"):
        if not wcok:
            return
        HH, HT = np.eye(L), np.ones((L, c))
        fh, ft = p("bad2.h5"), p("bad3.h5")
        g.h5(fh, HH)
        g.h5(ft, HT)
        k = kind
        if op.startswith("bad") and k == "missing":
            k = "h5rows"      # a missing file is created
        if L == 1 and k == "h5rows":
            k = "h5feat"
        if k in ("h5str", "h53d"):
            k = "h5feat"      # these are not data files
        mon.hit("kind " + k)
        if op.endswith("HH"):
            fh = bad_file(k, HH, p("bad.h5"), r)
        else:
            ft = bad_file(k, HT, p("bad.h5"), r)
        if op.startswith("bad"):
            if m.nnet.HH is not None if hasattr(m.nnet, "HH") else True:
                mon.hit("accumulated data kept")
            if r.randint(2) and op == "badHT":
                os.unlink(fh)
            meth = m.add_data
            call = lambda: meth(fX, fT, fHH=fh, fHT=ft)
        elif op.startswith("sc"):
            call = lambda: m.solve_corr(fh, ft)
        else:
            call = lambda: m.validation_corr(fh, ft, fX, fT)
    elif op in ("vcX", "vcT"):
        if not wcok or L < 3:
            return
        fh, ft = g.h5(p("bad2.h5"), np.eye(L)), g.h5(p("bad3.h5"), np.ones((L, c)))
        a = (bad(X), fT) if op == "vcX" else (fX, bad(T))
        call = lambda: m.validation_corr(fh, ft, *a)
    elif op in ("asyX", "asyT", "asyadd"):
        if not wcok:
            return
        a = (bad(X), p("T.h5")) if op != "asyT" else (p("X.h5"), bad(T))
        if r.rand() < 0.3:     # suitable arrays, but asynchronous operations are for files
            a = [(X, p("T.h5")), (p("X.h5"), T), (X, T)][r.randint(3)]
            mon.hit("arrays for asynchronous operations")
        call = (lambda: m.add_data_async(*a, fHH=p("HH.h5"), fHT=p("HT.h5"))) if op == "asyadd" else (lambda: m.train_async(*a, *flags))
    elif op == "asypred":
        if not trained:
            return
        a = X if r.rand() < 0.2 else bad(X, False)
        call = lambda: m.predict_async(a, p("Y.h5"))
    elif op == "load":
        f = bad_file(["missing", "garbage", "zero"][seed % 3], X, p("bad.h5"), r)
        if seed % 4 == 3:
            b = m.dumps()
            open(f, "wb").write(b[:r.randint(1, len(b) - 2)])
        call = lambda: m.load(f)
    elif op == "loads":
        b = m.dumps()
        b = b[:r.randint(1, len(b) - 2)]
        call = lambda: m.loads(b)
    elif op in ("normmissing", "normgarbage"):
        f = bad_file("missing" if op == "normmissing" else ["garbage", "emptyh5"][seed % 2], X, p("bad.h5"), r)
        call = (lambda: normalize_hdf5(f)) if seed % 2 else (lambda: normalize_hdf5(f, np.zeros(d), np.ones(d)))
    elif op == "normlen":
        f = g.h5(p("bad.h5"), X)
        a = (np.zeros(d + 1), np.ones(d)) if seed % 2 else (np.zeros(d), np.ones(max(0, d - 1) or 2))
        call = lambda: normalize_hdf5(f, *a)
    elif op in ("maketext", "makemissing", "make3d", "makestr"):
        out = g.h5(p("bad2.h5"), X)
        mon.hit("existing outputs kept")
        s = p("bad.txt")
        if op == "maketext":
            rows = [["%g" % v for v in row] for row in g.mat(X)]
            i = r.randint(len(rows))
            w = seed % 3
            if w == 0:
                rows[i][r.randint(d)] = "abc"
            elif w == 1:
                rows[i] = rows[i] + ["1"] if i or len(rows) > 1 else ["x"]
            else:
                rows[i][r.randint(d)] = "1.2.3"
            if len(rows) == 1 and w == 1:
                rows[0][0] = "x"
            with open(s, "w") as f:
                f.write("\n".join(" ".join(x) for x in rows) + "\n")
            a = s
        elif op == "makemissing":
            a = p("bad" + [".npy", ".txt", ".csv", ".gz", ".xyz"][seed % 5])
        elif op == "make3d":
            a = np.ones((4, 3, 2))
        else:
            a = np.array([["1", "b"], ["2", "3"]])
            if seed % 2:
                np.save(p("bad.npy"), a)
                a = p("bad.npy")
        call = lambda: make_hdf5(a, out)
    elif op == "rbf3d":
        from hpelm.modules import rbf_param
        f = bad_file("missing", X, p("bad.h5"), r)
        a = np.ones((4, 3, 2)) if seed % 2 else f
        call = lambda: rbf_param(a, 2)
    elif op in ("noneurons", "untrained"):
        e = g.new_model(case, case["cl"])
        if op == "untrained":
            e.add_neurons(2, "tanh")
            calls = [lambda: e.predict(X)] + ([lambda: e.predict(p("X.h5"), p("Y.h5")), lambda: e.predict_async(p("X.h5"), p("Y.h5"))] if hp else [])
        else:
            calls = [lambda: e.train(X, T), lambda: e.add_data(X, T), lambda: e.predict(X)]
            calls += [lambda: e.train_async(p("X.h5"), p("T.h5")), lambda: e.add_data(X, T, fHH=p("bad.h5"), fHT=p("bad2.h5")), lambda: e.predict(p("X.h5"), p("Y.h5"))] if hp else \
                [lambda: e.train(X, T, "CV", k=3), lambda: e.train(X, T, "V", Xv=X, Tv=T), lambda: e.train(X, T, "LOO")]
        call = calls[seed % len(calls)]
    if call is None:
        return
    s0, f0 = g.snap(m), digest_dir(A.path)
    try:
        call()
    except Exception as e:
        if isinstance(e, Violation):
            raise
        mon.hit("refused " + op)
    else:
        mon.ok(False, "%s: unsuitable data (%s) is not refused", op, kind)
    mon.ok(not hooks.handles(), "%s: files left open by a refused call (%s): %s", op, kind, hooks.handles())
    df = g.diff(s0, g.snap(m))
    mon.ok(not df, "%s: a refused call (%s) changed the model: %s", op, kind, df)
    mon.ok(not any(a.any() for a in keep), "%s: a refused call wrote into the given output array", op)
    f1 = digest_dir(A.path)
    mon.ok(f0 == f1, "%s: a refused call (%s) changed files: %s", op, kind, sorted(k for k in set(f0) | set(f1) if f0.get(k) != f1.get(k)))
