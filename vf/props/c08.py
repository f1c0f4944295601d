"""C08: a saved model loaded into any object, against the original."""
import os, pickle
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C08", "exploration", 15
RULE = ("random source models (class, solver, precision, neurons incl. ufuncs and pruned, mode, weights, trained or not) saved to a file or "
        "bytes and loaded into random target objects (class, solver, precision, batch, sizes, earlier content), chained up to three times; "
        "non-trivial: neurons, weights, predictions, errors and further training of the loaded model compared with the original")
REQUIRE = ["models loaded", "predictions compared", "further trainings compared", "untrained models", "precision changed", "pruned models", "targets with content",
           "weighted models", "source unchanged", "more neurons compared"]


def gen(rng, D):
    mode = rng.choice(["", "", "c", "wc", "wcauto", "ml"])
    c = g.gen_data(rng, D, nmin=3, nmax=60, cls=mode.replace("auto", ""), dmax=6, cmax=5, pbig=0)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=8, pbig=0.02), mode=mode, cl=rng.choice(["ELM", "HPELM"]),
             ctor=rng.choice(["none", "same", "other"]), state=rng.choice(["trained", "trained", "untrained", "added", "pruned", "sel"]), ws=rng.randrange(1 << 20),
             hops=[[rng.choice(["ELM", "HPELM"]), rng.choice(g.PRECS), rng.choice(["", "basic"]), rng.choice([1000, 1, 3, 17]), rng.choice(["file", "bytes"]),
                    rng.choice(["empty", "empty", "neurons", "trained", "data", "cls", "wcls", "wtrained"]), rng.randint(1, 6), rng.randint(1, 4)] for _ in range(rng.choice([1, 1, 2, 3]))],
             again=rng.choice(["", "c", "wc", "wcw", "ml", "r", "none", "add"]))
    return c


def fix(c):
    g.fix_mode(c)
    if c["again"] in ("c", "wc", "wcw", "ml") or c["ctor"] == "other":
        g.fix_mode(c, "wc" if c["again"].startswith("wc") else "c")
    if c["state"] == "sel":
        c["cl"] = "ELM"
    return c


DIRECTED = [dict(N=21, d=2, c=2, xk="normal", tk="onehot" if md else "normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=4,
                 prec=p, solver=s, batch=1000, norm=nm, neu=[["tanh", 5, "given", 3], ["rbf_l2", 3, "given", 5]], cl=cl, mode=md, ctor=ct, state=st, ws=5,
                 hops=[[cl2, p2, s2, 7, how, cont, 5, 3]], again=ag)
            for cl, cl2, s, s2, how in (("ELM", "HPELM", "", "basic", "bytes"), ("HPELM", "ELM", "basic", "", "file"))
            for p, p2 in (("double", "single"), ("single", "double"), ("double", "double")) for md, ag in (("", "r"), ("wc", "wcw"), ("c", "add"))
            for st, ct, nm, cont in (("trained", "none", 2.0, "trained"), ("pruned", "same", None, "cls"), ("untrained", "same", 0.3, "data"), ("trained", "none", 0.1, "wcls"),
                                     ("untrained", "none", 0.1, "wtrained"))]


def pair(m, t, X, eps):
    H, dH = g.h_of(m, X, eps)
    H2, _ = g.h_of(t, X, eps)
    return H2, H, 2*np.where(np.isfinite(dH), dH, np.inf) + 1e-30


def run(case, mon, tmp):
    eps0 = g.eps_of(case["prec"])
    N = case["N"]
    X, T = g.make_data(case)
    X, T = g.mat(X), g.mat(T)
    r = g.rs(case["ws"], 3)
    wc = np.round(r.rand(case["c"])*4 + 0.5, 2)
    mode = case["mode"]
    if mode == "wcauto" and not (T.sum(0) > 0).all():
        mode = "wc"
    over = {}
    if case["ctor"] == "same" and mode:
        over = dict(cls=mode.replace("auto", ""))
        if mode == "wc":
            over["w"] = wc
    elif case["ctor"] == "other":
        over = dict(cls="c", w=None)
    args = [mode.replace("auto", "")] if mode else []
    kw = dict(w=wc) if mode == "wc" else {}
    m = g.add_all(g.new_model(case, case["cl"], **over), case["neu"], case["d"])
    st = case["state"]
    if not np.isfinite(np.asarray(m.project(X), float)).all():
        return
    if st == "sel":
        np.random.seed(case["ws"])
        if N >= 6 and m.nnet.L >= 2 and np.abs(X).max() < 1e4:
            m.train(X[:-2], T[:-2], "V", *args, Xv=X[-2:], Tv=T[-2:], **dict(kw, w=wc if mode.startswith("wc") else None) if mode.startswith("wc") else {})
        else:
            st = "trained"
    if st == "added":
        m.add_data(X, T) if m.classification != "wc" or m.wc is not None else None
    elif st in ("trained", "pruned"):
        m.train(X, T, *args, **kw)
        if st == "pruned":
            keep = np.sort(r.permutation(m.nnet.L)[:max(1, m.nnet.L // 2)])
            if case["ws"] % 4 == 1 and len(g.groups(m)) > 1:
                n0 = m.nnet.get_neurons()[0][0]
                keep = np.arange(n0, m.nnet.L)
            elif r.rand() < 0.5:
                keep = keep[keep < m.nnet.get_neurons()[0][0]] if (keep < m.nnet.get_neurons()[0][0]).any() else keep
            m.nnet._prune(keep)
            m.add_data(X, T)
            m.nnet.solve()
            mon.hit("pruned models")
    if m.nnet.get_B() is None:
        mon.hit("untrained models")
    if m.classification == "wc":
        mon.hit("weighted models")
    src, prev_prec = m, g.prec_of(case["prec"])
    for hop, (cl, prec, solver, batch, how, content, d2, c2) in enumerate(case["hops"]):
        before = g.snap(src)
        if how == "file":
            f = os.path.join(tmp, "m%d" % (hop % 2))
            src.save(f)
        else:
            blob = src.dumps()
            mon.ok(isinstance(blob, bytes), "dumps() returns %s", type(blob))
        mon.ok(not g.diff(before, g.snap(src)), "saving changed the saved model: %s", g.diff(before, g.snap(src)))
        mon.hit("source unchanged")
        t = g.new_model(dict(case, d=d2, c=c2), cl, prec=prec, solver=solver, batch=batch, norm=7.0, cls="c" if content == "cls" and c2 > 1 else "wc" if content == "wcls" and c2 > 1 else "",
                        w=np.arange(1, c2 + 1)*3.5 if content == "wcls" and c2 > 1 else None)
        if content == "wtrained" and c2 > 1:
            t.add_neurons(2, "tanh")
            t.train(r.randn(4*c2, d2), np.eye(c2)[np.arange(4*c2) % c2], "wc", w=np.arange(1, c2 + 1)*2.5)
            mon.hit("targets with content")
        if content in ("neurons", "trained", "data"):
            t.add_neurons(3, "sigm")
            t.add_neurons(1, "lin")
            if content == "trained":
                t.train(r.randn(9, d2), r.randn(9, c2))
            elif content == "data":
                t.add_data(r.randn(9, d2), r.randn(9, c2))
            mon.hit("targets with content")
        solver_type = type(t.nnet)
        if how == "file":
            t.load(f)
        else:
            t.loads(blob)
        mon.hit("models loaded")
        P = g.prec_of(prec)
        if np.dtype(P) != np.dtype(g.prec_of(case["prec"])):
            mon.hit("precision changed")
        # what is kept, what is restored
        mon.ok(type(t.nnet) is solver_type, "loading changed the solver from %s to %s", solver_type.__name__, type(t.nnet).__name__)
        mon.ok(np.dtype(t.precision) == P and t.batch == batch, "loading changed precision or batch: %s, %s", t.precision, t.batch)
        mon.ok((t.nnet.inputs, t.nnet.outputs) == (case["d"], case["c"]), "inputs, outputs are %s, saved %s", (t.nnet.inputs, t.nnet.outputs), (case["d"], case["c"]))
        mon.ok(t.classification == src.classification, "classification is %r, saved %r", t.classification, src.classification)
        mon.ok((t.wc is None) == (src.wc is None) and (t.wc is None or np.array_equal(t.wc, src.wc)), "class weights are %s, saved %s", t.wc, src.wc)
        mon.ok(float(t.nnet.norm) == float(src.nnet.norm), "norm is %r, saved %r", t.nnet.norm, src.nnet.norm)
        ga, gb = g.groups(src), g.groups(t)
        mon.ok([x[0] for x in ga] == [x[0] for x in gb], "neuron types are %s, saved %s", [x[0] for x in gb], [x[0] for x in ga])
        for (f1, W1, b1), (_, W2, b2) in zip(ga, gb):
            mon.ok(W2.dtype == P and b2.dtype == P, "loaded neurons are %s, %s in a model of %s", W2.dtype, b2.dtype, P)
            mon.ok(np.array_equal(W1.astype(P), W2) and np.array_equal(b1.astype(P), b2), "weights or biases of %s neurons differ after loading", f1)
        B0, B1 = src.nnet.get_B(), t.nnet.get_B()
        mon.ok((B0 is None) == (B1 is None), "output weights lost or made up by loading")
        if B0 is not None:
            mon.ok(B1.dtype == P and np.array_equal(np.asarray(B0).astype(P), B1), "output weights differ after loading (%s)", B1.dtype)
        mon.ok(t.nnet.L == src.nnet.L, "%s neurons after loading, saved %s", t.nnet.L, src.nnet.L)
        # behaviour
        e2 = max(float(np.finfo(P).eps), float(np.finfo(prev_prec).eps))
        H, dH = g.h_of(src, X, e2)
        H2, dH2 = g.h_of(t, X, e2)
        if not np.isfinite(dH).all():
            return
        close(mon, H2, H, 2*dH + 1e-30, "hidden layer of the loaded model")
        if B0 is None:
            mon.ok(g.call(t.predict, X)[1] is not None, "a loaded untrained model predicts")
        else:
            Y, Y2 = np.asarray(src.predict(X)), np.asarray(t.predict(X))
            close(mon, Y2, Y, 4*g.pred_tol(H, dH, B0, e2), "predictions of the loaded model")
            mon.hit("predictions compared")
        if case["c"] > 1 or not src.classification:
            Yr = np.round(r.rand(N, case["c"]), 3)
            if src.classification != "wc" or (src.wc is not None):
                ea, eb = float(src.error(T, Yr)), float(t.error(T, Yr))
                mon.ok(abs(ea - eb) <= 1e-12 + 1e-6*abs(ea), "error() of the loaded model is %r, of the original %r", eb, ea)
            if src.classification:
                mon.ok(np.array_equal(src.confusion(T, Yr), t.confusion(T, Yr)), "confusion matrices differ after loading")
        src, prev_prec = t, P
    if t is m:
        return
    # further training: last loaded model against the original
    ag = case["again"]
    X2, T2 = X[::-1], T[::-1]
    w2 = np.round(r.rand(case["c"])*3 + 1, 2)
    if ag == "wc" and not (T2.sum(0) > 0).all():
        ag = "wcw"
    a2, k2 = {"c": (["c"], {}), "wc": (["wc"], {}), "wcw": (["wc"], dict(w=w2)), "ml": (["ml"], {}), "r": (["r"], {}), "none": ([], {}), "": ([], {}), "add": None}[ag] or (None, None)
    if ag in ("", "none") and over.get("cls") == "wc" and over.get("w") is None and not (T2.sum(0) > 0).all():
        return
    if a2 is None:
        if m.classification == "wc" and m.wc is None:
            return
        for q in (m, t):
            q.nnet.reset()
            q.add_data(X2, T2)
            q.nnet.solve()
    else:
        m.train(X2, T2, *a2, **k2)
        t.train(X2, T2, *a2, **k2)
    mon.ok(m.classification == t.classification, "after the same training the loaded model is in mode %r, the original in %r", t.classification, m.classification)
    mon.ok((t.wc is None) == (m.wc is None) and (t.wc is None or np.allclose(t.wc, m.wc, rtol=1e-6)), "after the same training class weights are %s and %s", t.wc, m.wc)
    e2 = max(eps0, *[g.eps_of(h[1]) for h in case["hops"]])
    sw = o.class_weights(T2, m.wc) if m.classification == "wc" else None
    H, dH = g.h_of(m, X2, e2)
    R = o.Ridge(H, T2, float(m.nnet.norm), e2, sw, dH)
    R.check(t.nnet.get_B(), mon, "training of a loaded model")
    o.same_fit(R, m.nnet.get_B(), t.nnet.get_B(), mon, "training of the loaded model and of the original")
    mon.hit("further trainings compared")
    # more neurons, of old and new types (also of types that lost all their neurons)
    mon.ok(str(m) == str(t), "string forms are %r, of the original %r", str(t), str(m))
    fs = [f for f, _, _ in g.groups(m)]
    fs = [fs[int(i)] for i in r.permutation(len(fs))[:2]] + [["tanh", "lin", "rbf_l2"][r.randint(3)]]
    if st == "pruned":
        fs.append(g.func_of(case["neu"][-1][0]))
    P2 = min(np.dtype(m.precision).itemsize, np.dtype(t.precision).itemsize)
    for f in fs:
        W, b = r.randn(case["d"], 2).astype("f4"), (0.5 + r.rand(2)).astype("f4")
        for q in (m, t):
            q.add_neurons(2, g.func_of(f) if isinstance(f, str) else f, W, b)
    close(mon, *pair(m, t, X, 1.2e-7 if P2 == 4 else e2), "hidden layer after more neurons")
    mon.hit("more neurons compared")
