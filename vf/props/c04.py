"""C04: every HPELM operation on files and ranges against the in-memory model on the same rows."""
import os
import numpy as np
import tables
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C04", "exploration", 18
RULE = ("random data files (dtype, compression, node name, plain / chunked / extendable array), ranges (open, cut off at the end, one row, "
        "batch-aligned or not), output forms (new file, existing file, larger given array, returned); non-trivial: results compared row by "
        "row with the in-memory model on exactly those rows")
REQUIRE = ["trained from files", "proper ranges", "ranges cut off at the end", "file outputs", "array outputs", "errors compared", "rows beyond the range untouched"]


def gen(rng, D):
    mode = rng.choice(["", "", "c", "wc", "wcauto", "ml"])
    c = g.gen_data(rng, D, nmin=2, cls=mode.replace("auto", ""))
    N = c["N"]
    c.update(g.gen_cfg(rng, N), neu=g.gen_neurons(rng, D, lmax=14), mode=mode)
    for k in ("tr", "pr", "pj", "er"):
        i0 = rng.choice([0, 0, rng.randrange(N), rng.randrange(N), N - 1])
        c["i_" + k] = i0
        c["n_" + k] = rng.choice([-1, -1, 1, rng.randint(1, N), rng.randint(1, N), N, N - i0, N - i0 + 1, 10*N, 1000])
    c.update(batch2=g.gen_batch(rng, N), fk=rng.choice(["carray", "comp", "earray", "array", "raw", "group"]), of=rng.choice(["file", "over", "arr", "none"]),
             oh=rng.choice(["file", "over", "arr", "none"]), extra=rng.choice([0, 0, 1, 5]), odt=rng.choice(["f8", "f4"]),
             olay=rng.choice(g.LAYOUTS), xsrc=rng.choice(["file", "file", "file", "arr"]))
    return c


def fix(c):
    m = c["mode"].replace("auto", "")
    if m:
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted", "ml"):
            c["tk"] = "onehot"
        if m == "wc" and c["tk"] == "ml":
            c["tk"] = "skew"
    for k in ("tr", "pr", "pj", "er"):
        c["i_" + k] = min(c["i_" + k], c["N"] - 1)
    return c


DIRECTED = [dict(N=n, d=2, c=2, xk="normal", tk="onehot" if md else "normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=n,
                 prec="double", solver="", batch=b, norm=0.5, neu=[["tanh", 5, "given", 3]], mode=md, i_tr=i, i_pr=i, i_pj=i, i_er=i, n_tr=k,
                 n_pr=k, n_pj=k, n_er=k, batch2=b, fk="carray", of=of, oh=of, extra=2, odt="f8", olay="C", xsrc="file")
            for md in ("", "c", "wc") for of in ("file", "arr", "none") for n, b, i, k in ((10, 4, 0, -1), (10, 4, 3, 5), (10, 4, 4, 4), (10, 4, 3, 8), (10, 4, 8, 40), (10, 5, 5, 5), (10, 1, 9, 1), (10, 20, 2, 100))]
DIRECTED += [dict(DIRECTED[0], fk=fk, of=of, oh=of, i_tr=2, i_pr=1, ds=7) for fk in ("comp", "earray", "array", "raw", "group") for of in ("file", "none")]
DIRECTED += [dict(DIRECTED[0], N=n, ds=n, mode=md, tk="onehot" if md else "normal", of=of, oh=of, batch=b, batch2=b2, i_tr=i, i_pr=i, i_pj=i, i_er=i, n_tr=k, n_pr=k, n_pj=k, n_er=k) for of in ("file", "arr")
             for md in ("", "wc") for n, b, b2, i, k in ((4097, 1000, 5000, 0, -1), (10001, 777, 20000, 0, -1), (9000, 1000, 4500, 4096, 4097), (12289, 5000, 3000, 1, 12288), (70001, 1000, 70001, 0, -1), (70001, 65000, 3000, 65530, 4000))]


def data_file(path, A, kind, r):
    A = np.ascontiguousarray(A)
    A = A.astype(A.dtype.newbyteorder("="))
    if kind == "carray":
        return g.h5(path, A)
    if kind == "comp":
        return g.h5(path, A, comp_level=int(r.randint(1, 10)))
    h = tables.open_file(path, "w")
    if kind == "earray":
        e = h.create_earray(h.root, "data", tables.Atom.from_dtype(A.dtype), (0, A.shape[1]))
        for part in np.array_split(A, 3):
            if len(part):
                e.append(part)
    elif kind == "array":
        h.create_array(h.root, "some_name", A)
    elif kind == "group":
        h.create_carray("/set/one", "a", obj=A, createparents=True)
    else:
        h.create_carray(h.root, "Xz", obj=A)
    h.close()
    return path


def rng_rows(N, i, n):
    return np.arange(i, N if n < 0 else min(i + n, N))


def kw(i, n, form):
    d = {}
    if i or form % 2:
        d["istart"] = i
    if n >= 0:
        d["icount"] = n
    return d


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    N, L = case["N"], None
    X, T = g.make_data(case)
    X2, T2 = np.asarray(X).reshape(N, -1), np.asarray(T).reshape(N, -1)
    r = g.rs(case["ds"], 9)
    fx = data_file(os.path.join(tmp, "x.h5"), X2, case["fk"], r)
    ft = data_file(os.path.join(tmp, "t.h5"), T2, case["fk"], r)
    sx, st = (fx, ft) if case["xsrc"] == "file" else (X2, T2)
    rows = rng_rows(N, case["i_tr"], case["n_tr"])
    if len(rows) < N:
        mon.hit("proper ranges")
    if case["n_tr"] > N - case["i_tr"]:
        mon.hit("ranges cut off at the end")
    mode, args, w = case["mode"], [], {}
    if mode == "wcauto" and not (np.asarray(T2, float)[rows].sum(0) > 0).all():
        mode = "wc"
    if mode:
        args = [mode.replace("auto", "")]
    if mode == "wc":
        w = dict(w=np.round(r.rand(case["c"])*4 + 0.5, 2))
    hp = g.add_all(g.new_model(case, "HPELM"), case["neu"], case["d"])
    mem = g.add_all(g.new_model(case, "ELM"), case["neu"], case["d"])
    H, dH = g.h_of(mem, X2, eps)
    if not np.isfinite(H).all():
        return
    hp.train(sx, st, *args, **dict(kw(case["i_tr"], case["n_tr"], 0), **w))
    mem.train(X2[rows], T2[rows], *args, **w)
    mon.hit("trained from files", case["xsrc"] == "file")
    norm = case["norm"] if case["norm"] is not None else 50 * eps
    cw = None
    if mode == "wc":
        cw = w["w"]
    elif mode == "wcauto":
        cw = o.auto_weights(T2[rows])
    R = o.Ridge(H[rows], g.mat(T2)[rows], norm, eps, None if cw is None else o.class_weights(T2[rows], cw), dH[rows])
    R.check(hp.nnet.get_B(), mon, "training on rows %d..%d of %d" % (rows[0], rows[-1], N))
    o.same_fit(R, hp.nnet.get_B(), mem.nnet.get_B(), mon, "training from file and in memory")
    # the same weights from here on, so that the next comparisons are tight
    B = np.array(mem.nnet.get_B(), dtype=np.float64)
    hp.nnet.set_B(B)
    Hm = np.asarray(mem.project(X2), dtype=np.float64)
    Ym = np.asarray(mem.predict(X2), dtype=np.float64)
    th = 32*eps*(1 + np.abs(Hm)) + (0 if eps < 1e-10 else 1e-5*(1 + np.abs(Hm)))
    th = np.maximum(th, proj_tol(case, mem, X2, eps))
    ty = th.dot(np.abs(B)) + 8*(Hm.shape[1] + 4)*eps*np.abs(Hm).dot(np.abs(B)) + 1e-30
    hp.batch = case["batch2"]
    for op, ref, tol, k, of in ((hp.predict, Ym, ty, "pr", case["of"]), (hp.project, Hm, th, "pj", case["oh"])):
        i, n = case["i_" + k], case["n_" + k]
        rr = rng_rows(N, i, n)
        name = op.__name__
        if of == "none":
            out = op(sx, **kw(i, n, 1))
        elif of == "arr":
            out = g.layout(np.full((len(rr) + case["extra"], ref.shape[1]), -7.25, dtype=case["odt"]), case["olay"], r)
            op(sx, out, **kw(i, n, 0))
            mon.ok(bool((out[len(rr):] == -7.25).all()), "%s wrote beyond the rows of the range", name)
            mon.hit("rows beyond the range untouched", case["extra"] > 0)
            out = out[:len(rr)]
            mon.hit("array outputs")
        else:
            f = os.path.join(tmp, name + ".h5")
            if of == "over":
                g.h5(f, r.randn(len(rr) + 3, ref.shape[1] + 1))
            op(sx, f, **kw(i, n, 1))
            out, cnt = g.read_h5(f)
            mon.ok(cnt == 1, "%s: output file holds %d arrays", name, cnt)
            mon.hit("file outputs")
        e4 = 0 if case["odt"] == "f8" or of != "arr" else 2e-7*np.abs(ref[rr]) + 1e-38
        close(mon, out, ref[rr], tol[rr] + e4, "%s of rows %d..%d of %d" % (name, rr[0], rr[-1], N))
    # errors on ranges; predictions of the in-memory model as file or array
    Yf = np.asarray(Ym, dtype=np.float64)
    fy = data_file(os.path.join(tmp, "ym.h5"), Yf, case["fk"], r)
    i, n = case["i_er"], case["n_er"]
    rr = rng_rows(N, i, n)
    md = mode.replace("auto", "")
    e = hp.error(st, fy if case["xsrc"] == "file" else Yf, **kw(i, n, 0))
    ref = o.error(md, T2[rr], Yf[rr], cw)
    tol = 64*(len(rr) + 8)*2.3e-16*(abs(ref) + (np.mean(Yf[rr]**2 + g.mat(T2)[rr]**2) if not md else 1)) + (16*eps if md == "wc" else 0)
    mon.ok(abs(e - ref) <= tol, "error of rows %d..%d is %r, in memory %r", rr[0], rr[-1], e, ref)
    if not md or md == "c":
        e2 = mem.error(T2[rr], Yf[rr])
        mon.ok(abs(e - e2) <= tol, "error of rows %d..%d from files is %r, in-memory model says %r", rr[0], rr[-1], e, e2)
    mon.hit("errors compared")


def proj_tol(case, m, X2, eps):
    grp = [(f if isinstance(f, str) else "np." + f.__name__, W, b) for _, f, W, b in m.nnet.get_neurons()]
    return 2*o.hidden(X2, grp, eps)[1]
