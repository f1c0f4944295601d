"""C09: weighted classification against exact weighted least squares, and against repeated samples."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C09", "exploration", 15
RULE = ("random one-hot problems, weights from the call / constructor / data / several of them, storage (array, file, range), batches, solvers, "
        "histories of add-data calls, structure selection; non-trivial: solution compared with the exact weighted ridge solution")
REQUIRE = ["strict least-squares comparisons", "weights from call", "weights from constructor", "automatic weights", "call overrides constructor",
           "repetition compared", "asynchronous trainings", "structure selections", "correlation matrices compared"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmin=4, nmax=100, cls="wc", dmax=6, cmax=6, pbig=0.02)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=10), cl=rng.choice(["ELM", "HPELM"]), src=rng.choice(["arr", "arr", "file", "range"]),
             wsrc=rng.choice(["call", "ctor", "auto", "both", "autoctor", "keep"]), wkind=rng.choice(["real", "int", "int", "ones", "zero", "big", "list"]),
             op=rng.choice(["train", "train", "train", "add", "V", "CV", "LOO"]), opp=rng.random() < 0.5, ws=rng.randrange(1 << 20), kb=rng.choice(["", "batch"]),
             pre=rng.choice(["", "", "train"]), asy=rng.random() < 0.25)
    return c


def fix(c):
    g.fix_mode(c, "wc")
    if c["op"] in ("V", "CV", "LOO"):
        c["cl"], c["src"] = "ELM", "arr"
        c["N"] = max(c["N"], 12)
    if c["src"] != "arr":
        c["cl"] = "HPELM"
    else:
        c["asy"] = False
    return c


DIRECTED = [dict(N=30, d=3, c=3, xk="normal", tk=tk, xdt="f8", tdt=td, xlay="C", tlay="C", x1d=False, t1d=False, ds=4, prec=p, solver=s, batch=b,
                 norm=nm, neu=[["tanh", 6, "given", 3]], cl=cl, src="arr", wsrc=w, wkind="int", op=op, opp=False, ws=5, kb="", pre="")
            for s, cl in (("", "ELM"), ("basic", "HPELM")) for p in ("double", "single") for w in ("call", "ctor", "auto", "autoctor")
            for tk, td, b, nm, op in (("skew", "f8", 7, 2.0, "train"), ("sorted", "u1", 10, None, "train"), ("sorted", "f8", 5, None, "add"))] + \
           [dict(N=40, d=3, c=3, xk="normal", tk="skew", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=4, prec="double", solver=s, batch=9,
                 norm=nm, neu=[["tanh", 8, "given", 3]], cl="ELM", src="arr", wsrc=w, wkind="real", op=op, opp=opp, ws=5, kb="", pre="")
            for s in ("", "basic") for op in ("V", "CV", "LOO") for opp in (False, True) for w in ("call", "auto", "ctor") for nm in (0.1,)] + \
           [dict(N=60, d=3, c=3, xk="normal", tk=tk, xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=4, prec="double", solver=s, batch=9,
                 norm=0.1, neu=[["tanh", 8, "given", 3]], cl="HPELM", src=src, wsrc=w, wkind="real", op="train", opp=False, ws=ws, kb="", pre="", asy=asy)
            for s in ("", "basic") for asy in (False, True) for src in ("range", "file") for w in ("auto", "autoctor") for tk in ("skew", "onehot") for ws in range(6)]
DIRECTED += [dict(DIRECTED[0], N=n, c=c, ds=n, prec="double", solver=s, cl=cl, batch=b, wsrc=w, src=src) for s in ("", "basic") for w in ("call", "auto") for n, c, cl, b, src in (
    (4097, 3, "ELM", 1000, "arr"), (4097, 3, "HPELM", 5000, "arr"), (10001, 2, "HPELM", 1000, "file"), (400, 40, "ELM", 100, "arr"), (700, 130, "HPELM", 300, "file"))]
DIRECTED += [dict(DIRECTED[0], N=6200, c=2, ds=3, prec="double", tdt="f2", xdt="f2", tk="sorted", solver=s, cl=cl, batch=b, wsrc=w, src=src) for s in ("", "basic") for w in ("auto", "autoctor")
             for cl, b, src in (("ELM", 1000, "arr"), ("ELM", 9000, "arr"), ("HPELM", 5000, "arr"), ("HPELM", 7000, "file"))]

DIRECTED += [dict(DIRECTED[0], N=6200, c=2, ds=3, prec="double", tdt="f2", xdt="f2", tk="sorted", solver=s, cl="ELM", batch=2000, wsrc=w, src="arr", op=op, neu=[["tanh", 3, "given", 3]]) for s in ("", "basic") for w in ("auto", "autoctor")
             for op in ("V", "CV", "LOO")]


def weights(case, c):
    r = g.rs(case["ws"], 5)
    k = case["wkind"]
    if k == "int" or k == "list":
        w = r.randint(1, 5, c).astype(float)
    elif k == "ones":
        w = np.ones(c)
    elif k == "zero":
        w = r.randint(0, 3, c).astype(float)
        w[r.randint(c)] = 2
    elif k == "big":
        w = 10.0 ** r.randint(-2, 4, c)
    else:
        w = np.round(r.rand(c)*5 + 0.1, 3)
    return w


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    X, T = g.make_data(case)
    N, c = case["N"], case["c"]
    X2, T2 = g.mat(X), g.mat(T)
    r = g.rs(case["ws"], 3)
    w1, w2 = weights(case, c), np.round(r.rand(c)*3 + 0.5, 2)
    ws, op = case["wsrc"], case["op"]
    as_arg = (lambda w: [int(v) if v == int(v) else float(v) for v in w]) if case["wkind"] == "list" else (lambda w: w)
    over, args, kw, expect = dict(cls=""), ["wc"], {}, None
    if ws == "call":
        kw["w"], expect = as_arg(w1), w1
    elif ws == "ctor":
        over, expect = dict(cls="wc", w=as_arg(w1)), w1
    elif ws == "keep":      # mode and weights of the constructor, nothing in the call
        over, expect, args = dict(cls="WC", w=as_arg(w1)), w1, []
    elif ws == "both":
        over, kw["w"], expect = dict(cls="wc", w=w2), as_arg(w1), w1
    elif ws == "autoctor":
        over = dict(cls="wc")
    rows = np.arange(N)
    if case["src"] == "range":
        i = int(r.randint(0, N))
        n = int(r.randint(1, N + 3))
        rows = np.arange(i, min(N, i + n))
        kw.update(istart=i, icount=n)
    if expect is None and not (T2[rows].sum(0) > 0).all():
        return mon.hit("class absent: outside the domain")
    if case["kb"]:
        kw["batch"] = case["batch"]
    m = g.add_all(g.new_model(case, case["cl"], **over), case["neu"], case["d"])
    H, dH = g.h_of(m, X2, eps)
    if not np.isfinite(H).all():
        return
    norm = g.norm_of(case)
    if case["src"] == "arr":
        a = (X, T) if op != "add" else (np.asarray(X).reshape(N, -1), np.asarray(T).reshape(N, -1))
    else:
        a = (g.h5(os.path.join(tmp, "x.h5"), np.asarray(X).reshape(N, -1)), g.h5(os.path.join(tmp, "t.h5"), np.asarray(T).reshape(N, -1)))
    if case["pre"]:        # earlier training with other weights leaves no trace
        m.train(X2, T2, "wc", w=w2 + 1)
    if op in ("V", "CV", "LOO"):
        return select(case, mon, m, X, T, X2, T2, args, kw, expect, r, eps, norm)
    if op == "add" and over["cls"] and expect is not None:
        kw.pop("w", None)
        kw.pop("batch", None)
        if case["pre"]:
            m = g.add_all(g.new_model(case, case["cl"], **over), case["neu"], case["d"])
        if ws == "both":
            expect = w2
        if case["src"] == "arr":
            cut = np.sort(r.randint(1, N, r.randint(1, 4)))
            for p in np.split(np.arange(N), cut):
                if len(p):
                    m.add_data(a[0][p], a[1][p])
        else:
            (m.add_data_async if case.get("asy") else m.add_data)(*a, **kw)
        m.nnet.solve()
    else:
        (m.train_async if case.get("asy") else m.train)(*a, *args, **kw)
        mon.hit("asynchronous trainings", bool(case.get("asy")))
    mon.hit({"call": "weights from call", "ctor": "weights from constructor", "keep": "weights from constructor", "auto": "automatic weights",
             "autoctor": "automatic weights", "both": "call overrides constructor"}[ws])
    judge(case, mon, m, H[rows], dH[rows], T2[rows], expect, eps, norm)
    # an integer weight is a repetition
    if expect is not None and (expect == np.round(expect)).all() and expect.max() <= 10 and (o.class_weights(T2[rows], expect) > 0).any():
        rep = np.repeat(rows, o.class_weights(T2[rows], expect).astype(int))
        q = g.copy_neurons(m, g.new_model(case, case["cl"], cls=""))
        q.train(X2[rep], T2[rep], "c")
        R = o.Ridge(H[rep], T2[rep], norm, eps, None, dH[rep])
        if o.same_fit(R, m.nnet.get_B(), q.nnet.get_B(), mon, "weighted training and training on repeated samples"):
            mon.hit("repetition compared")
        A, B = m.nnet.get_corr()
        A2, B2 = q.nnet.get_corr()
        tA, tB = o.corr_tol(H[rep], T2[rep], norm, eps, None, dH[rep])
        close(mon, A, A2, 2*tA, "HH of weighted training and of repeated samples")
        close(mon, B, B2, 2*tB, "HT of weighted training and of repeated samples")


def judge(case, mon, m, H, dH, T, expect, eps, norm):
    mon.ok(m.classification == "wc", "mode is %r after weighted training", m.classification)
    w = o.auto_weights(T) if expect is None else expect
    mon.ok(m.wc is not None and np.shape(m.wc) == w.shape and np.allclose(m.wc, w, rtol=max(1e-12, 4*eps), atol=0),
           "class weights are %s, expected %s", m.wc, w)
    sw = o.class_weights(T, w)
    A, B = m.nnet.get_corr()
    eA, eB = o.corr(H, T, norm, sw)
    tA, tB = o.corr_tol(H, T, norm, eps, sw, dH)
    close(mon, A, eA, tA, "weighted HH")
    close(mon, B, eB, tB, "weighted HT")
    mon.hit("correlation matrices compared")
    o.Ridge(H, T, norm, eps, sw, dH).check(m.nnet.get_B(), mon, "weighted training")


def select(case, mon, m, X, T, X2, T2, args, kw, expect, r, eps, norm):
    op = case["op"]
    if np.abs(X2).max() > 1e3 or (op == "CV" and not (T2.sum(0) >= 3).all() and expect is None):
        return
    flags = [op] + (["OP"] if case["opp"] else [])
    if case["opp"]:
        kw["kmax"] = 1 + int(r.randint(m.nnet.L + 2))
    np.random.seed(case["ws"] % 1000)
    if op == "V":
        r2 = g.rs(case["ws"], 77)
        ix = r2.permutation(len(T2))[:max(2, len(T2) // 3)]
        kw.update(Xv=X2[ix], Tv=T2[ix])
    elif op == "CV":
        kw["k"] = int(r.randint(3, 6))
    kw.pop("batch", None)
    H, dH = g.h_of(m, X2, eps)
    regular = o.Ridge(H, T2, norm, eps, None, dH).regular
    try:
        m.train(X, T, *(args + flags), **kw)
    except (np.linalg.LinAlgError, AssertionError):
        if regular and (op != "LOO" or H.shape[1] < len(T2)):
            raise
        return mon.hit("numerically singular network in structure selection")
    mon.hit("structure selections")
    H, dH = g.h_of(m, X2, eps)
    judge(case, mon, m, H, dH, T2, expect, eps, norm)
