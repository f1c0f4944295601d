"""C19: inputs keep their bytes, read-only operations keep the model and repeat bit-identically."""
import hashlib, os
import numpy as np
from .. import gen as g, hooks
from hpelm.modules import mrsr, mrsr2, rbf_param
from hpelm import make_hdf5, normalize_hdf5

ID, LEVEL, QUICK_S = "C19", "exploration", 15
RULE = ("random sequences of 3-12 operations on one model of either class; every array (values, padding of its memory, often write-protected) and file given as input is "
        "compared before/after each operation; read-only operations are repeated, after overwriting their first result; non-trivial: inputs of an operation compared")
RO = ["predict", "project", "error", "confusion", "str", "save", "dumps", "predfile", "predinto", "projfile", "projinto"]
RW = ["train", "train", "trainc", "trainw", "trainml", "select", "add", "addfile", "neurons", "setB", "setcorr", "solvecorr", "fsolve", "vcorr", "load"]
OTHER = ["mrsr", "rbf", "make", "norm"]
REQUIRE = ["op " + k for k in RO + RW + OTHER] + ["protected inputs", "file inputs", "non-contiguous inputs", "repeated bit by bit", "op async"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmax=60, dmax=6, cmax=4, pbig=0.01)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=10, pbig=0.01), cl=rng.choice(["ELM", "HPELM", "HPELM"]), ro=rng.random() < 0.6, files=rng.random() < 0.4,
             ctor=rng.choice(["", "", "c", "wc", "ml"]), tdt=rng.choice(["f8", "f8", "f8", "f4", "i4", ">f8", "b1", "i8", "f2"]),
             ops=[[rng.choice(rng.choice([RO, RO, RW, RW, OTHER])) if rng.random() > 0.004 else "async", rng.randrange(1 << 30)] for _ in range(rng.randint(3, 12))])
    return c


def fix(c):
    if c["ctor"] or any(o in ("trainc", "trainw", "trainml") for o, _ in c["ops"]):
        c["c"] = max(2, c["c"])
        c["tk"] = "onehot"
    return c


B0 = dict(N=20, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.1,
          neu=[["tanh", 4, "given", 3], ["lin", 2, "F", 5], ["rbf_l2", 2, "given", 5]], cl="HPELM", ro=True, files=False, ctor="", ops=[])
ALL = RW + RO + OTHER
DIRECTED = [dict(B0, cl=cl, solver=sv, prec=p, xlay=lay, tlay=lay, ro=ro, files=fl, ctor=ct, ds=i, ops=[["train", 1]] + [[o, j + i] for j, o in enumerate(ops)])
            for i, (cl, sv, p, lay, ro, fl, ct) in enumerate([(cl, sv, p, lay, ro, fl, ct) for cl in ("ELM", "HPELM") for sv, p in (("", "double"), ("basic", "single"))
                                                               for lay, ro in (("C", True), ("F", False), ("step", True)) for fl in (False, True) for ct in ("", "wc")])
            for ops in (RO, RW, RO[::-1] + OTHER)] + [dict(B0, ops=[["train", 1], ["async", i]], files=True, ds=i) for i in range(3)]


def digest(f):
    with open(f, "rb") as h:
        return hashlib.blake2b(h.read()).hexdigest()


class Guard(object):
    """Bytes of the inputs of one operation."""
    def __init__(self, mon, ro):
        self.mon, self.ro, self.a, self.f = mon, ro, [], []

    def arr(self, A, name):
        b = A
        while isinstance(b.base, np.ndarray):
            b = b.base
        if self.ro:
            A.setflags(write=False)
            self.mon.hit("protected inputs")
        if not A.flags.c_contiguous:
            self.mon.hit("non-contiguous inputs")
        self.a.append((A, b, b.tobytes(), name, (A.shape, A.strides, A.dtype.str, A.flags.writeable)))
        return A

    def file(self, p, name):
        self.mon.hit("file inputs")
        self.f.append((p, digest(p), name))
        return p

    def check(self, op):
        for A, b, t, name, hd in self.a:
            self.mon.ok(b.tobytes() == t, "%s modified its input %s", op, name)
            self.mon.ok((A.shape, A.strides, A.dtype.str, A.flags.writeable) == hd, "%s changed the header of its input %s: %s", op, name, hd)
        for p, h, name in self.f:
            self.mon.ok(os.path.exists(p) and digest(p) == h, "%s modified its input file %s", op, name)


def bits(r):
    if isinstance(r, np.ndarray):
        return (r.dtype.str, r.shape, r.tobytes())
    if isinstance(r, (tuple, list)):
        return tuple(bits(v) for v in r)
    if isinstance(r, float):
        return np.float64(r).tobytes()
    return r


def run(case, mon, tmp):
    d, c, N = case["d"], case["c"], case["N"]
    hp = case["cl"] == "HPELM"
    files = case["files"] and hp
    p = lambda n: os.path.join(tmp, n)
    wts = np.arange(1, c + 1) * 0.7
    over = dict(cls=case["ctor"])
    if case["ctor"] == "wc":
        over["w"] = wts
    m = g.new_model(case, case["cl"], **over)
    for spec in case["neu"]:
        n, W, B = g.neuron_arrays(d, spec)
        G = Guard(mon, case["ro"])
        W, B = (None if W is None else G.arr(W, "W")), (None if B is None else G.arr(B, "B"))
        m.add_neurons(n, g.func_of(spec[0]), W, B)
        G.check("add_neurons")
    # arguments: arrays and their files
    X, T = g.make_data(case)
    Xv, Tv = g.make_data(case, salt=5, N=max(2, N // 2))
    r = g.rs(case["ds"], 77)
    P = (g.mat(T) + 0.3*r.randn(N, c)).astype("f8")
    P = g.layout(P, case["tlay"], r)
    arrs = dict(X=X, T=T, Xv=Xv, Tv=Tv, P=P)
    fl = {k: g.h5(p(k + ".h5"), A, "f4" if A.dtype.itemsize == 2 and A.dtype.kind == "f" else None) for k, A in arrs.items()} if hp else {}
    G = Guard(mon, case["ro"])
    for k, A in arrs.items():
        G.arr(A, k)
    if not np.isfinite(np.asarray(m.project(X), float)).all() or not np.isfinite(np.asarray(m.project(Xv), float)).all():
        return
    use = lambda k: fl[k] if files else arrs[k]
    if files:
        for k in fl:
            G.file(fl[k], k + ".h5")
    HHf, HTf = p("HH.h5"), p("HT.h5")
    L0 = None
    done = 0
    for op, seed in case["ops"]:
        if op == "confusion" and not m.classification:
            continue
        if (op in ("addfile", "fsolve", "vcorr", "async", "predfile", "predinto", "projfile", "projinto")) and not hp:
            continue
        trained = m.nnet.get_B() is not None
        if op in ("predict", "predfile", "predinto", "setcorr", "solvecorr") and not trained:
            continue
        if op == "vcorr" and not (os.path.exists(HHf) and L0 == m.nnet.L and L0 >= 3):
            continue
        if op == "fsolve" and not (os.path.exists(HHf) and L0 == m.nnet.L):
            continue
        if op == "select" and (hp or N < 8 or m.nnet.L < 2):
            continue
        if op in ("add", "addfile", "error", "vcorr") and m.classification == "wc" and m.wc is None:
            continue
        q = g.rs(seed, 3)
        g2 = Guard(mon, case["ro"])
        Xa, Ta, Pa = use("X"), use("T"), use("P")
        f = None
        if op == "predict":
            f = lambda: m.predict(Xa)
        elif op == "project":
            f = lambda: m.project(Xa)
        elif op == "error":
            f = lambda: m.error(Ta, Pa)
        elif op == "confusion":
            f = lambda: m.confusion(Ta, Pa)
        elif op == "str":
            f = lambda: str(m)
        elif op == "dumps":
            f = m.dumps
        elif op == "save":
            f = lambda: (m.save(p("model")), open(p("model"), "rb").read())[1]
        elif op in ("predfile", "projfile"):
            meth = m.predict if op == "predfile" else m.project
            f = lambda: (meth(Xa, p("out.h5")), g.read_h5(p("out.h5"))[0])[1]
        elif op in ("predinto", "projinto"):
            meth = m.predict if op == "predinto" else m.project
            O = np.full((N, c if op == "predinto" else m.nnet.L), 7.5, dtype=m.precision)
            f = lambda: (meth(Xa, O), O.copy())[1]
        if f is not None:
            s0 = g.snap(m)
            a = f()
            G.check(op)
            df = g.diff(s0, g.snap(m))
            mon.ok(not df, "%s changed the model: %s", op, df)
            ba = bits(a)
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                a[...] = -3       # the result belongs to the caller
                G.check("overwriting the result of " + op)
                df = g.diff(s0, g.snap(m))
                mon.ok(not df, "overwriting the result of %s changed the model: %s", op, df)
            other = q.randint(0, 3)
            if other == 0 and trained:
                m.predict(use("Xv")) if not hp or files else m.predict(arrs["Xv"])
            elif other == 1:
                m.project(arrs["X"])
            b = f()
            mon.ok(bits(b) == ba, "%s repeated gives another result", op)
            mon.hit("repeated bit by bit")
            mon.ok(not g.diff(s0, g.snap(m)), "%s changed the model: %s", op, g.diff(s0, g.snap(m)))
        elif op in ("train", "trainc", "trainw", "trainml"):
            args, kw = {"train": ([], {}), "trainc": (["c"], {}), "trainw": (["wc"], dict(w=g2.arr(wts + q.randint(0, 3), "w"))), "trainml": (["ml"], {})}[op]
            if op == "train" and case["ctor"] == "wc" and not (g.mat(T).sum(0) > 0).all() and m.wc is None:
                continue
            m.train(Xa, Ta, *args, **kw)
        elif op == "select":
            kind = ["V", "CV", "LOO"][q.randint(3)]
            kw = dict(Xv=arrs["Xv"], Tv=arrs["Tv"]) if kind == "V" else dict(k=3) if kind == "CV" else {}
            a2 = [kind] + (["OP"] if q.randint(2) else [])
            if q.randint(2) and c > 1 and case["tk"] == "onehot":
                a2.append(["c", "ml"][q.randint(2)])
            _, e = g.call(m.train, Xa, Ta, *a2, **kw)
            if e is not None and (not isinstance(e, (np.linalg.LinAlgError, AssertionError))):
                raise e
            if m.nnet.get_B() is None:
                m.nnet.reset()
        elif op == "add":
            m.add_data(Xa, Ta)
            m.nnet.solve()
        elif op == "addfile":
            if L0 != m.nnet.L:
                for k in (HHf, HTf):
                    if os.path.exists(k):
                        os.unlink(k)
            L0 = m.nnet.L
            m.add_data(Xa, Ta, fHH=HHf, fHT=HTf)
        elif op == "neurons":
            n, W, B = g.neuron_arrays(d, ["tanh", 2, "given", seed])
            m.add_neurons(n, ["tanh", "lin", "rbf_l1"][q.randint(3)], g2.arr(g.layout(W, case["xlay"], q), "W"), g2.arr(np.abs(B) + 0.1, "B"))
        elif op == "setB":
            Bn = g2.arr(g.layout(q.randn(m.nnet.L, c), case["xlay"], q), "B")
            m.nnet.set_B(Bn)
            s0 = g.snap(m)
        elif op in ("setcorr", "solvecorr"):
            A = q.randn(m.nnet.L + 3, m.nnet.L)
            HH, HT = g2.arr(g.layout(A.T.dot(A) + np.eye(m.nnet.L), "F" if q.randint(2) else "C", q).astype(m.precision), "HH"), g2.arr(q.randn(m.nnet.L, c).astype(m.precision), "HT")
            if op == "setcorr":
                m.nnet.set_corr(HH, HT)
                m.nnet.solve()
                m.add_data(arrs["X"], arrs["T"]) if m.classification != "wc" else None
            else:
                B = m.nnet.solve_corr(HH, HT)
                m.nnet.set_B(B)
        elif op in ("fsolve", "vcorr"):
            g2.file(HHf, "HH.h5")
            g2.file(HTf, "HT.h5")
            if op == "fsolve":
                m.solve_corr(HHf, HTf)
            else:
                st = [3, g2.arr(np.array([1, m.nnet.L]), "steps")][q.randint(2)]
                m.validation_corr(HHf, HTf, use("Xv"), use("Tv"), steps=st)
        elif op == "load":
            blob = m.dumps()
            m.save(p("model2"))
            g2.file(p("model2"), "model2")
            if q.randint(2):
                m.load(p("model2"))
            else:
                m.loads(blob)
        elif op == "mrsr":
            A, Y = g2.arr(g.layout(q.randn(12, 4), case["xlay"], q), "X"), g2.arr(g.layout(q.randn(12, 2), case["tlay"], q), "T")
            (mrsr if q.randint(2) else mrsr2)(A, Y, 3)
        elif op == "rbf":
            A = g2.arr(g.layout(q.randn(12, d), case["xlay"], q), "data")
            rbf_param(A if q.randint(2) or not hp else g2.file(g.h5(p("r.h5"), A), "data"), 3, ["l1", "l2", "linf"][q.randint(3)])
        elif op == "make":
            A = g2.arr(g.layout(q.randn(12, d), case["xlay"], q), "data")
            if q.randint(2):
                np.save(p("s.npy"), A)
                A = g2.file(p("s.npy"), "s.npy")
            make_hdf5(A, p("mk.h5"))
        elif op == "norm":
            make_hdf5(q.randn(12, d), p("mk.h5"))
            sd = np.ones(d)
            sd[0] = 0
            normalize_hdf5(p("mk.h5"), g2.arr(q.randn(d), "mean"), g2.arr(sd, "std"))
        elif op == "async":
            if hp and (m.classification != "wc" or m.wc is not None):
                m.train_async(g2.file(fl["X"], "X.h5"), g2.file(fl["T"], "T.h5"))
                s0 = g.snap(m)
                m.predict_async(fl["X"], p("y.h5"))
                mon.ok(not g.diff(s0, g.snap(m)), "predict_async changed the model: %s", g.diff(s0, g.snap(m)))
        G.check(op)
        g2.check(op)
        mon.hit("op " + op)
        done += 1
