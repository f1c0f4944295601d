"""C06: processes adding parts into shared HH/HT files under controlled interleavings; conservation of the sums."""
import hashlib, os
import numpy as np
from ..core import close, Violation, Inconclusive
from .. import gen as g, oracle as o, sched

ID, LEVEL, QUICK_S = "C06", "exploration", 25
RULE = ("2-4 processes (each 1-3 parts, add_data or add_data_async, ranges of one file or own files, own batch sizes) on one HH/HT pair that "
        "exists or not, stopped at every file / lock operation and scheduled by random, sticky, round-robin, priority-change policies or run "
        "freely with jitter; non-trivial: the final files were compared with norm*I plus the exact sum of all parts")
REQUIRE = ["parallel runs compared", "schedule points", "lock contention events", "solved from files", "files unchanged by solving"]
CPU_LIMIT = 300


def gen(rng, D):
    mode = rng.choice(["", "", "", "c", "wc", "ml"])
    c = g.gen_data(rng, D, nmin=4, nmax=60, cls=mode, dmax=4, cmax=4, pbig=0)
    c.update(g.gen_cfg(rng, c["N"]), neu=g.gen_neurons(rng, D, lmax=7, pbig=0, modes=["given", "dup", "f4", "zero"], ufunc=False), mode=mode,
             k=rng.choice([2, 2, 2, 3, 3, 4]), parts=rng.choice([1, 1, 2, 3]), ss=rng.randrange(1 << 30),
             policy=rng.choice(["random", "random", "sticky", "rr", "pct", "pct", "pct", "free"]), exist=rng.choice([0, 0, 1]), asyn=rng.choice([0, 0, 0, 0, 1]),
             src=rng.choice(["own", "range"]), batches=[g.gen_batch(rng, c["N"]) for _ in range(4)], skew=rng.random() < 0.3, oldlock=rng.random() < 0.3)
    c["xk"] = rng.choice(["normal", "normal", "int", "uniform"])
    c["xdt"], c["tdt"] = "f8", "f8"
    return c


def fix(c):
    if c["mode"]:
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted", "ml"):
            c["tk"] = "onehot"
        if c["mode"] == "wc" and c["tk"] == "ml":
            c["tk"] = "skew"
    if c["asyn"]:
        c["batches"] = [max(b, 5) for b in c["batches"]]
    return c


DIRECTED = [dict(N=24, d=2, c=2, xk="normal", tk="normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=n, prec="double", solver="",
                 batch=5, norm=0.5, neu=[["tanh", 4, "given", 3]], mode="", k=k, parts=pt, ss=100 + n, policy=pol, exist=ex, asyn=0, src="range",
                 batches=[5, 7, 4, 100], skew=False)
            for n in range(6) for pol in ("pct", "random") for ex in (0, 1) for k, pt in ((2, 1), (3, 1), (2, 2))]
DIRECTED += [dict(DIRECTED[0], k=k, ss=500 + n, policy=pol, exist=ex, oldlock=True) for n in range(8) for k, pol, ex in ((2, "random", n % 2), (3, "pct", 0))]
# many neurons: the matrices take many blocks
DIRECTED += [dict(DIRECTED[0], k=2, parts=1, ss=300 + n, policy="random", exist=ex, neu=[["tanh", n, "given", 3]], c=c) for n, c, ex in ((101, 2, 1), (129, 3, 0), (65, 2, 1), (257, 1, 1), (128, 2, 1))]


def setup(case, tmp):
    eps = g.eps_of(case["prec"])
    N = case["N"]
    X, T = g.make_data(case)
    X, T = g.mat(X), g.mat(T)
    r = g.rs(case["ds"], 21)
    over = {}
    wc = None
    if case["mode"]:
        over["cls"] = case["mode"]
    if case["mode"] == "wc":
        wc = np.round(r.rand(case["c"])*4 + 0.5, 2)
        over["w"] = wc
    n = case["k"] * case["parts"] + (1 if case["exist"] else 0)
    cuts = np.sort(r.permutation(N - 1)[:n - 1] + 1) if N > n else np.arange(1, min(n, N))
    pos = [0] + [int(x) for x in cuts] + [N]
    ranges = [(a, b) for a, b in zip(pos[:-1], pos[1:]) if b > a]
    fx, ft = g.h5(os.path.join(tmp, "x.h5"), X), g.h5(os.path.join(tmp, "t.h5"), T)
    norm = case["norm"] if case["norm"] is not None else 50*eps

    def model(batch):
        return g.add_all(g.new_model(case, "HPELM", batch=batch, **over), case["neu"], case["d"])
    return eps, X, T, wc, ranges, fx, ft, norm, model


def job(case, tmp, model, i, mine, X, T, fx, ft, asyn):
    fHH, fHT = os.path.join(tmp, "HH.h5"), os.path.join(tmp, "HT.h5")
    own = os.path.join(tmp, "dir%d" % i)
    if (case["ss"] + i) % 3:     # processes work in folders of their own
        os.makedirs(own, exist_ok=True)
        if (case["ss"] + i) % 3 == 1:
            fHH, fHT = os.path.join("..", "HH.h5"), os.path.join("..", "HT.h5")

    def fn():
        if os.path.isdir(own):
            os.chdir(own)
        m = model(case["batches"][i % 4])
        for a, b in mine:
            op = m.add_data_async if asyn else m.add_data
            if case["src"] == "range":
                op(fx, ft, istart=a, icount=b - a, fHH=fHH, fHT=fHT)
            elif asyn:
                p = os.path.join(tmp, "p%d_%d" % (i, a))
                op(g.h5(p + "x.h5", X[a:b]), g.h5(p + "t.h5", T[a:b]), fHH=fHH, fHT=fHT)
            else:
                op(X[a:b], T[a:b], fHH=fHH, fHT=fHT)
    return fn


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def compare_files(mon, tmp, H, dH, T, idx, norm, eps, wc, what):
    """The files hold norm*I + sum over the rows idx."""
    w = None if wc is None else o.class_weights(T[idx], wc)
    rHH, rHT = o.corr(H[idx], T[idx], norm, w)
    tH, tT = o.corr_tol(H[idx], T[idx], norm, eps, w, dH[idx])
    A, na = g.read_h5(os.path.join(tmp, "HH.h5"))
    B, nb = g.read_h5(os.path.join(tmp, "HT.h5"))
    mon.ok(na == 1 and nb == 1, "%s: HH/HT files hold %d/%d arrays", what, na, nb)
    close(mon, A, rHH, 2*tH, what + ": HH file")
    close(mon, B, rHT, 2*tT, what + ": HT file")
    return w


def verdicts(ws, mon, what, skip=()):
    for i, w in enumerate(ws):
        if i in skip:
            continue
        if w.result and w.result[0] == "env":
            raise Inconclusive(w.result[1])
        mon.ok(w.result is not None and w.result[0] == "ok", "%s: worker %d failed: %s", what, i,
               w.result[1] if w.result else "process died (points: %s)" % w.trace[-3:])


def run(case, mon, tmp):
    eps, X, T, wc, ranges, fx, ft, norm, model = setup(case, tmp)
    fHH, fHT = os.path.join(tmp, "HH.h5"), os.path.join(tmp, "HT.h5")
    m0 = model(case["batch"])
    H, dH = g.h_of(m0, X, eps)
    rest = list(ranges)
    if case["exist"]:
        a, b = rest.pop(0)
        m0.add_data(fx, ft, istart=a, icount=b - a, fHH=fHH, fHT=fHT)
    if case.get("oldlock"):      # lock files of an earlier run
        for f in (fHH, fHT):
            open(f + ".lock", "ab").close()
            os.utime(f + ".lock", (1e9, 1e9))
        mon.hit("lock files of an earlier run")
    k = case["k"]
    mine = [rest[i::k] for i in range(k)]
    if case["skew"] and k > 1 and len(mine[-1]) > 1:
        mine[0] += mine[-1][1:]
        mine[-1] = mine[-1][:1]
    mine = [p for p in mine if p]
    free = case["policy"] == "free"
    R = sched.Run([job(case, tmp, model, i, p, X, T, fx, ft, case["asyn"] and i == 0) for i, p in enumerate(mine)], case["ss"], case["policy"], free=free)
    R.run()
    verdicts(R.ws, mon, "parallel add_data")
    mon.hit("schedule points", len(R.order))
    mon.hit("lock contention events", R.lockmiss)
    mon.hit("free parallel runs", free)
    mon.tag("interleavings", R.signature() + str(len(mine)))
    idx = np.arange(case["N"])
    w = compare_files(mon, tmp, H, dH, T, idx, norm, eps, wc, "%d processes, %d parts" % (len(mine), len(rest)))
    mon.hit("parallel runs compared")
    d0 = (digest(fHH), digest(fHT))
    s = model(case["batch"])
    s.solve_corr(fHH, fHT)
    rid = o.Ridge(H, T, norm, eps, w, dH)
    rid.check(s.nnet.get_B(), mon, "solution from the shared files")
    one = model(case["batch"])
    one.add_data(fx, ft)
    one.nnet.solve()
    o.same_fit(rid, s.nnet.get_B(), one.nnet.get_B(), mon, "solution from the shared files and from all data at once")
    mon.hit("solved from files")
    v = model(case["batch"])
    v.validation_corr(fHH, fHT, fx, ft, steps=3)
    mon.ok((digest(fHH), digest(fHT)) == d0, "solving or validating changed the HH/HT files")
    mon.hit("files unchanged by solving")
    # iterative training goes on from the same files
    if case["ss"] % 4 == 0:
        a, b = ranges[0]
        s.add_data(X[a:b], T[a:b], fHH=fHH, fHT=fHT)
        compare_files(mon, tmp, H, dH, T, np.concatenate([idx, idx[a:b]]), norm, eps, wc, "one more part after solving")
