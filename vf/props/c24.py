"""C24: the mode and class weights in force against a reference state machine of constructor settings and training calls."""
import os
import numpy as np
from .. import gen as g, oracle as o, hooks

ID, LEVEL, QUICK_S = "C24", "exploration", 15
RULE = ("random constructor settings and sequences of 1-6 training calls (flags in any letter case and order, weights as list / tuple / array, selections, files and ranges, refused calls, "
        "loading in between) on both classes; after each call the mode, the weights, the solution, errors and confusion matrices are compared with those of the expected mode")
REQUIRE = ["mode " + k for k in ("None", "c", "wc", "ml")] + ["constructor mode applied", "constructor weights applied", "call overrides constructor", "'r' asked for", "'mc' given", "mixed letter case",
                                                              "refused: conflicting flags", "refused: conflicting selections", "refused: one output", "refused: number of weights", "auto weights", "call weights",
                                                              "weights from an earlier call not used", "confusion matrices compared", "selections", "file trainings", "reloaded", "refused constructor", "asynchronous trainings"]
FLAGS = ["", "", "c", "wc", "wc", "ml", "mc", "r"]
CONF = [["c", "wc"], ["c", "ml"], ["wc", "ml"], ["mc", "c"], ["mc", "wc"], ["c", "wc", "ml"]]
CONFS = [["V", "CV"], ["CV", "LOO"], ["V", "LOO"], ["V", "CV", "LOO"]]


def lettering(rng, s):
    return "".join(rng.choice([ch.lower(), ch.upper()]) for ch in s)


def gen(rng, D):
    c = rng.choice([1, 2, 2, 3, 3, 4, 5])
    calls = []
    for _ in range(rng.randint(1, 6)):
        kind = rng.choice(["train"]*8 + ["conf", "confs", "nw", "load", "nwctor"]) if rng.random() > 0.004 else "async"
        calls.append([kind, lettering(rng, rng.choice(FLAGS)), rng.choice(["none", "none", "list", "tuple", "array", "int", "f4", "u1", "f2"]), rng.choice(["", "", "", "V", "CV", "LOO", "OPV", "OPLOO"]), rng.randrange(1 << 30)])
    return dict(N=D.size(rng, 12, 50), d=rng.randint(1, 4), c=c, xk="normal", tk="onehot", xdt="f8", tdt=rng.choice(["f8", "f8", "f4", "i4", "u1", "b1", ">f8"]), xlay=rng.choice(g.LAYOUTS),
                tlay=rng.choice(g.LAYOUTS), x1d=False, t1d=False, ds=rng.randrange(1 << 30), prec=rng.choice(g.PRECS), solver=rng.choice(["", "", "basic"]), batch=rng.choice([1000, 7, 1, 3]), norm=0.1,
                neu=[["tanh", 1 + rng.randrange(6), "given", rng.randrange(1 << 20)]], cl=rng.choice(["ELM", "HPELM"]), ctor=lettering(rng, rng.choice(["", "", "c", "wc", "wc", "ml", "mc"])),
                cw=rng.choice(["none", "none", "list", "array", "tuple", "int", "f4", "u1"]), kind="normal", calls=calls, files=rng.random() < 0.3)


def fix(c):
    c["N"] = max(12, c["N"])
    c["tk"] = "onehot"
    return c


B0 = dict(N=20, d=2, c=3, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.1, neu=[["tanh", 5, "given", 3]], cl="ELM",
          ctor="", cw="none", kind="normal", calls=[], files=False)
DIRECTED = [dict(B0, cl=cl, ctor=ct, cw=cw, files=fl, ds=i, calls=[["train", f, w, s, 1], ["train", f2, "none", "", 2], ["train", "", "none", s, 3], ["load", "", "none", "", 4], ["train", "", "none", "", 5]])
            for i, (ct, cw) in enumerate((ct, cw) for ct in ("", "c", "WC", "Ml", "mC") for cw in ("none", "array")) for cl, fl in (("ELM", False), ("HPELM", True))
            for f, w, f2, s in (("", "none", "r", ""), ("c", "none", "wc", "V"), ("wc", "list", "wc", "CV"), ("wC", "tuple", "", "LOO"), ("MC", "none", "c", "OPV"), ("R", "none", "ml", ""), ("", "array", "", ""))]
DIRECTED += [dict(B0, cl=cl, ctor=ct, c=c, calls=[["train", "", "none", "", 1]] + [[k, f, "array", "", j] for j in range(8)] + [["train", "", "none", "", 3]])
             for cl in ("ELM", "HPELM") for ct in ("", "wc") for c in (1, 3) for k, f in (("conf", ""), ("confs", "C"), ("nw", "wc"), ("train", "c"), ("train", "ML"), ("train", "Wc"), ("nwctor", "wc"))]
DIRECTED += [dict(B0, cl="HPELM", ctor=ct, cw=cw, calls=[["async", f, w, "", 2], ["train", "", "none", "", 3]]) for ct, cw, f, w in (("wc", "array", "", "none"), ("", "none", "Wc", "list"), ("C", "none", "r", "none"))]


def weights(how, c, r):
    w = np.round(r.rand(c)*5 + 0.25, 2)
    if how in ("int", "u1", "f2"):
        w = r.randint(1, 9, c)
    if how in ("f4", "u1", "f2"):
        w = w.astype(how)
    return {"list": w.tolist(), "tuple": tuple(w.tolist()), "none": None}.get(how, w), np.asarray(w, dtype=float)


def run(case, mon, tmp):
    N, c, d = case["N"], case["c"], case["d"]
    hp = case["cl"] == "HPELM"
    X, T = g.make_data(case)
    if c == 1:
        T = T.astype("f8") + g.rs(case["ds"], 3).randn(N, 1) if T.dtype.kind == "f" else T
    X2, T2 = g.mat(X), g.mat(T)
    full = bool((T2.sum(0) > 0).all())
    eps = g.eps_of(case["prec"])
    r = g.rs(case["ds"], 2)
    cw, cwv = weights(case["cw"], c, r)
    cmode = case["ctor"].lower().replace("mc", "ml") or None
    # (mode given to the constructor of a model with one output is refused by training only)
    new = lambda: g.new_model(case, case["cl"], cls=case["ctor"], **({} if cw is None else dict(w=cw)))
    m = g.add_all(new(), case["neu"], d)
    mon.ok(m.classification == cmode, "constructor flag %r gives mode %r", case["ctor"], m.classification)
    if case["ctor"] not in (case["ctor"].lower(), case["ctor"].upper()):
        mon.hit("mixed letter case")
    fX, fT = None, None
    seen_w = False
    for kind, flag, wk, sel, seed in case["calls"]:
        q = g.rs(seed, 5)
        if kind == "load":
            blob = m.dumps()
            if q.randint(2):
                m.loads(blob)
            else:
                m.save(os.path.join(tmp, "m"))
                m = new()
                m.load(os.path.join(tmp, "m"))
            mon.hit("reloaded")
            continue
        w, wv = weights(wk, c, q)
        lf = flag.lower().replace("mc", "ml")
        if kind == "nwctor":
            _, e = g.call(g.new_model, case, case["cl"], cls="wc", w=np.ones(c + 1 + q.randint(2)) if q.randint(2) or c == 1 else np.ones(c - 1))
            mon.ok(e is not None, "constructor accepts a wrong number of class weights")
            mon.hit("refused constructor")
            continue
        if kind in ("conf", "confs", "nw") or (kind in ("train", "async") and c == 1 and lf in ("c", "wc", "ml")):
            kw = {}
            if kind == "conf":
                args, what = CONF[q.randint(len(CONF))], "conflicting flags"
                if c == 1:
                    continue
            elif kind == "confs":
                if hp:
                    continue
                args, what = CONFS[q.randint(len(CONFS))], "conflicting selections"
                kw = dict(k=3, Xv=X[:5], Tv=T[:5])
            elif kind == "nw":
                if c == 1:
                    continue
                args, what = ["wc"], "number of weights"
                bad = np.ones([c - 1, c + 1, 2*c, 1][q.randint(4)]) if c > 2 else np.ones(c + 1)
                kw = dict(w=bad if q.randint(2) else bad.tolist())
            else:
                args, what = [flag], "one output"
            args = [args[i] for i in q.permutation(len(args))]
            args = ["".join(ch.upper() if q.randint(2) else ch.lower() for ch in a) for a in args]
            if q.randint(3) == 0 and not hp and what not in ("conflicting selections",):
                args.append("LOO")
            _, e = g.call(m.train, X, T, *args, **kw)
            mon.ok(e is not None, "training with flags %s, weights %s is accepted for a model with %d outputs", args, kw.get("w"), c)
            mon.hit("refused: " + what)
            continue
        # a proper call
        exp = cmode if not lf else None if lf == "r" else lf
        args, kw = ([flag] if flag else []), {}
        if exp == "wc" and w is not None:
            kw["w"] = w
        if exp in ("c", "wc", "ml") and c == 1:
            continue
        auto = exp == "wc" and w is None and cw is None
        ew = wv if "w" in kw else cwv if exp == "wc" and cw is not None else o.auto_weights(T2) if auto and full else None
        if auto and not full:
            continue
        use = ""
        if sel and not hp and kind == "train":
            use = sel[-2:] if sel.endswith("CV") else sel.replace("OP", "")
            args.append("".join(ch.lower() if q.randint(3) == 0 else ch for ch in use))
            if sel.startswith("OP"):
                args.append("oP" if q.randint(2) else "OP")
            kw.update(dict(V=dict(Xv=X[:7], Tv=T[:7]), CV=dict(k=3), LOO={})[use])
            if auto and use == "CV":
                pass
        args = [args[i] for i in q.permutation(len(args))]
        a = X, T
        if hp and (case["files"] or kind == "async"):
            if fX is None:
                fX, fT = g.h5(os.path.join(tmp, "x.h5"), X), g.h5(os.path.join(tmp, "t.h5"), T)
            a = fX, fT
            mon.hit("file trainings")
        np.random.seed(seed % (1 << 31))
        if kind == "async" and hp:
            v, e = g.call(m.train_async, *a, *args, **kw)
            mon.hit("asynchronous trainings")
        else:
            v, e = g.call(m.train, *a, *args, **kw)
        if e is not None:
            if use and isinstance(e, (np.linalg.LinAlgError, AssertionError)) and "NaN" in repr(e) + "Singular":
                m = g.add_all(new(), case["neu"], d)
                continue
            raise e
        mon.ok(m.classification == exp, "after train(%s) of a model constructed with %r the mode is %r, expected %r", ", ".join(args), case["ctor"], m.classification, exp)
        mon.hit("mode %s" % exp)
        if exp == "wc":
            mon.ok(m.wc is not None and np.allclose(np.asarray(m.wc, float), ew, rtol=1e-12 if not auto else max(1e-12, 4*eps)), "class weights are %s, expected %s", m.wc, ew)
            mon.hit("auto weights" if auto else "call weights" if "w" in kw else "constructor weights applied")
            if seen_w and "w" not in kw:
                mon.hit("weights from an earlier call not used")
            seen_w = seen_w or "w" in kw
        if not flag and cmode:
            mon.hit("constructor mode applied")
        if flag and cmode and exp != cmode:
            mon.hit("call overrides constructor")
        if lf == "r":
            mon.hit("'r' asked for")
        if flag.lower() == "mc":
            mon.hit("'mc' given")
        if flag not in (flag.lower(), flag.upper()):
            mon.hit("mixed letter case")
        if use:
            mon.hit("selections")
        H, dH = g.h_of(m, X2, eps)
        R = o.Ridge(H, T2, 0.1, eps, o.class_weights(T2, ew) if exp == "wc" else None, dH)
        R.check(m.nnet.get_B(), mon, "training in mode %s" % exp)
        Y = g.rs(seed, 6).randn(N, c)*0.4 + T2
        e, er = float(m.error(T, Y)), o.error(exp or "", T2, Y, ew)
        mon.ok(abs(e - er) <= max(1e-9, 8*eps if auto else 0)*abs(er) + 1e-15, "error() after train(%s) is %r, in mode %s it is %r", ", ".join(args), e, exp, er)
        if exp:
            C = np.asarray(m.confusion(T, Y))
            mon.ok(np.array_equal(C, o.confusion(exp, T2, Y)), "confusion() after train(%s) is %s, in mode %s it is %s", ", ".join(args), C.tolist(), exp, o.confusion(exp, T2, Y).tolist())
            mon.hit("confusion matrices compared")
