"""C05: asynchronous operations under injected delays of the reader, the computation and the writer, against the synchronous ones."""
import os, time, random
import multiprocessing as mp
import multiprocessing.queues
import numpy as np
from ..core import close, tree
from .. import gen as g, oracle as o, hooks
from .c04 import data_file

ID, LEVEL, QUICK_S = "C05", "exploration", 28
RULE = ("random data files, ranges, batch sizes, modes; helper processes and main process delayed at every file access and queue operation by "
        "random profiles (slow reader / writer / computation / start); reads and writes of the processes logged; non-trivial: an "
        "asynchronous result was compared with the synchronous one. A process tree that sleeps for 20 s without using CPU is a deadlock.")
REQUIRE = ["asynchronous trainings compared", "asynchronous predictions compared", "helper reads observed", "helper writes observed", "refusals checked",
           "HH/HT files compared", "long stops of helpers"]


def gen(rng, D):
    mode = rng.choice(["", "", "c", "wc", "wcauto", "ml"])
    c = g.gen_data(rng, D, nmin=2, nmax=60, cls=mode.replace("auto", ""), dmax=5, cmax=4, pbig=0.05)
    N = c["N"]
    c.update(g.gen_cfg(rng, N), neu=g.gen_neurons(rng, D, lmax=8, pbig=0.01), mode=mode, op=rng.choice(["train", "train", "add", "predict", "predict", "refuse"]),
             i=rng.choice([0, 0, rng.randrange(N), N - 1]), n=rng.choice([-1, -1, rng.randint(1, N), 1, N, 10*N]),
             mstall=rng.choice([1.2, 2.2, 5.5]) if rng.random() < 0.005 else 0, slow=rng.choice(["none", "reader", "writer", "main", "start", "all", "readerX", "readerT", "queue", "queue"]), stall=rng.choice([1.2, 2.2, 3.3]) if rng.random() < 0.01 else 0, delay=rng.choice([0.001, 0.003, 0.01]),
             what=rng.choice(["arrX", "arrT", "arrXT", "missing", "wrongd", "rows", "arrP", "missP", "wrongP"]), hf=rng.random() < 0.6, ss=rng.randrange(1 << 20),
             twice=rng.random() < 0.3, fk=rng.choice(["carray", "carray", "comp", "earray", "array", "raw", "group"]))
    c["xdt"] = rng.choice(["f8", "f4", "i4", "u1"])
    c["tdt"] = rng.choice(["f8", "f4", "i4"])
    return c


def fix(c):
    m = c["mode"].replace("auto", "")
    if m:
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted", "ml"):
            c["tk"] = "onehot"
        if m == "wc" and c["tk"] == "ml":
            c["tk"] = "skew"
    c["i"] = min(c["i"], c["N"] - 1)
    n = c["N"] - c["i"] if c["n"] < 0 else min(c["n"], c["N"] - c["i"])
    c["batch"] = max(c["batch"], n // 15)   # at most about 15 batches
    return c


BASE = dict(N=23, d=2, c=2, xk="normal", tk="normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=4, prec="double", solver="",
            batch=5, norm=0.5, neu=[["tanh", 5, "given", 3]], mode="", op="train", i=0, n=-1, slow="none", stall=0, delay=0.003, what="arrX", hf=True, ss=3, twice=False)
DIRECTED = [dict(BASE, op="refuse", what=w) for w in ("arrX", "arrT", "arrXT", "missing", "wrongd", "rows", "arrP", "missP", "wrongP")] + \
    [dict(BASE, op=op, fk=fk) for op in ("train", "predict") for fk in ("comp", "earray", "array", "raw", "group")] + \
    [dict(BASE, op=op, slow=s, batch=b, i=i, n=n) for op in ("train", "add", "predict") for s in ("reader", "writer", "main", "all", "queue")
     for b, i, n in ((5, 0, -1), (5, 3, 20), (30, 0, -1), (1, 4, 6))] + \
    [dict(BASE, op=op, slow="all", stall=t, batch=b) for op in ("predict", "train", "add") for t, b in ((6.0, 5), (2.2, 30), (11.0, 12))]
DIRECTED += [dict(BASE, op=op, mstall=t, batch=b) for op, t, b in (("predict", 12.0, 5), ("train", 12.0, 5), ("add", 6.0, 3), ("predict", 5.5, 4), ("train", 16.0, 6), ("predict", 16.0, 6))]
# batches larger than the buffers of pipes
DIRECTED += [dict(BASE, op=op, N=n, c=c, batch=b, neu=[["tanh", 5, "given", 3]], hf=False, i=i) for op in ("predict", "train") for n, c, b, i in ((9000, 2, 8500, 0), (5000, 3, 4000, 7), (9000, 1, 10000, 0), (3000, 20, 1000, 1), (20000, 1, 9999, 0))]
# a last batch of one row, of one row less than a batch, and full batches
DIRECTED += [dict(BASE, op=op, N=n, batch=b, hf=False, i=i) for op in ("predict", "train") for n, b, i in ((17, 4, 0), (33, 8, 0), (33, 32, 0), (65, 16, 0), (65, 32, 0), (65, 64, 0), (64, 16, 0), (63, 8, 0), (101, 10, 0), (101, 100, 0),
             (101, 20, 0), (129, 64, 0), (129, 128, 1), (257, 64, 0), (257, 256, 0), (255, 32, 0), (513, 128, 0), (513, 256, 0), (1001, 100, 0), (1001, 500, 0), (1001, 1000, 0), (1025, 256, 0), (1025, 1024, 0), (2049, 512, 0))]


class Delays(object):
    """Sleeps at file accesses and queue operations by role; logs accesses of all processes to one file."""
    def __init__(self, case, log):
        self.case, self.main, self.fd = case, os.getpid(), os.open(log, os.O_CREAT | os.O_APPEND | os.O_WRONLY)
        self.r = None
        self.io_n = 0
        self.pid = None

    mstalled = False

    def rand(self):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            # same profile whatever the process numbers are
            self.r = random.Random(self.case["ss"] if self.pid == self.main else self.case["ss"] + 1)
        return self.r.random()

    def nap(self, roles):
        s = self.case["slow"]
        if s == "all" or s in roles:
            time.sleep(self.case["delay"] * self.rand())

    def stall(self, f):
        """One long stop of each helper process; at its last access if the seed is odd."""
        c = self.case
        if c["stall"]:
            n = c["N"] - c["i"] if c["n"] < 0 else min(c["n"], c["N"] - c["i"])
            nb = -(-n // c["batch"])
            self.io_n += 1
            if self.io_n == (nb if c["ss"] % 2 else 1 + c["ss"] % nb):
                os.write(self.fd, ("child stall %s 0 0\n" % f).encode())
                time.sleep(c["stall"])

    def point(self, name, *a):
        if name == "open" and os.getpid() != self.main:
            self.nap(("start",))

    def io(self, kind, node, key):
        child = os.getpid() != self.main
        f = os.path.basename(node._v_file.filename)
        who = "child" if child else "main"
        if isinstance(key, tuple) and key and all(k == slice(None) or k is Ellipsis for k in key[1:]):
            key = key[0]
        if isinstance(key, int):
            key = slice(key, key + 1 or None)
        lo, hi, st = key.indices(node.shape[0]) if isinstance(key, slice) else (0, 0, 0)
        if st != 1:      # not understood
            os.write(self.fd, ("%s odd %s 0 0\n" % (who, f)).encode())
        else:
            os.write(self.fd, ("%s %s %s %d %d\n" % (who, kind, f, lo, hi)).encode())
        if child:
            self.stall(f)
            self.nap(("reader", "readerX" if f.startswith("x") else "readerT") if kind == "read" else ("writer",))

    def events(self, kind, f, who=None):
        out = []
        with open(self.path) as fh:
            for line in fh:
                w, k, name, lo, hi = line.split()
                if k == "odd" and name == f and kind != "stall":
                    return []
                if k == kind and name == f and (who is None or w == who):
                    out.append((int(lo), int(hi)))
        return out

    def __enter__(self):
        hooks.set_point(self.point)
        hooks.set_io(self.io)
        Q = multiprocessing.queues.Queue
        self.get, self.put = Q.get, Q.put
        me = self

        self.gets = 0

        def get(q, *a, **k):
            if me.case.get("mstall") and os.getpid() == me.main:      # one long computation
                me.gets += 1
                if me.gets == 2:
                    time.sleep(me.case["mstall"])
                    me.mstalled = True
            me.nap(("main",) if os.getpid() == me.main else ())
            return me.get(q, *a, **k)

        def put(q, *a, **k):
            me.nap(("main",) if os.getpid() == me.main else ())
            return me.put(q, *a, **k)
        Q.get, Q.put = get, put
        # batches wait before the feeder thread serialises them
        P = self.pickler = multiprocessing.queues._ForkingPickler

        class Pickler(P):
            @classmethod
            def dumps(cls, obj, protocol=None):
                if me.case["slow"] in ("queue", "all"):
                    me.naps += 1
                    time.sleep(me.case["delay"] * me.qr.random())
                return P.dumps(obj, protocol)
        self.naps, self.qr = 0, random.Random(self.case["ss"] + 2)
        multiprocessing.queues._ForkingPickler = Pickler
        return self

    def __exit__(self, *a):
        Q = multiprocessing.queues.Queue
        Q.get, Q.put = self.get, self.put
        multiprocessing.queues._ForkingPickler = self.pickler
        hooks.set_point(None)
        hooks.set_io(None)
        os.close(self.fd)


def delays(case, tmp, name):
    d = Delays(case, os.path.join(tmp, name))
    d.path = os.path.join(tmp, name)
    return d


def once(ev, lo, hi, what, mon):
    """The slices cover lo..hi-1 exactly once."""
    seen = np.zeros(hi, int) if hi else np.zeros(0, int)
    for a, b in ev:
        mon.ok(b <= hi and (a >= lo or a >= b), "%s: rows %d..%d are outside the range %d..%d", what, a, b - 1, lo, hi - 1)
        seen[a:b] += 1
    mon.ok(bool((seen[lo:hi] == 1).all()), "%s: rows not touched exactly once: %s", what, [int(i) for i in np.flatnonzero(seen[lo:hi] != 1)[:10] + lo])


def no_helpers(mon, what, settle=0.0):
    """No helper process is left when the call has returned."""
    t = time.monotonic() + settle
    while True:
        left = [p for p in tree(os.getpid())[1:] if not zombie(p)]
        if not left or time.monotonic() > t:
            break
        time.sleep(0.02)
    mon.ok(not left, "%s returned, but %d helper processes still run", what, len(left))


def zombie(p):
    try:
        with open("/proc/%d/stat" % p) as f:
            return f.read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True


def run(case, mon, tmp):
    eps = g.eps_of(case["prec"])
    N = case["N"]
    X, T = g.make_data(case)
    X2, T2 = np.asarray(X).reshape(N, -1), np.asarray(T).reshape(N, -1)
    r = g.rs(case["ds"], 9)
    fx, ft = (data_file(os.path.join(tmp, n), A, case.get("fk", "carray"), g.rs(case["ds"], 8)) for n, A in (("x.h5", X2), ("t.h5", T2)))
    i, hi = case["i"], N if case["n"] < 0 else min(N, case["i"] + case["n"])
    kw = dict(istart=i)
    if case["n"] >= 0:
        kw["icount"] = case["n"]
    mode, args, w = case["mode"], [], {}
    if mode == "wcauto" and not (np.asarray(T2, float)[i:hi].sum(0) > 0).all():
        mode = "wc"
    if mode:
        args = [mode.replace("auto", "")]
    if mode == "wc":
        w = dict(w=np.round(r.rand(case["c"])*4 + 0.5, 2))

    def fresh():
        return g.add_all(g.new_model(case, "HPELM", cls=args[0] if args else "", w=w.get("w")), case["neu"], case["d"])
    a, s = fresh(), fresh()
    H, dH = g.h_of(s, X2, eps)
    if not np.isfinite(H).all():
        return
    norm = case["norm"] if case["norm"] is not None else 50 * eps
    rows = np.arange(i, hi)
    if case["op"] == "refuse":
        return refuse(case, mon, tmp, a, fx, ft, X2, T2)
    for rep in range(2 if case["twice"] else 1):
        with delays(case, tmp, "log%d" % rep) as dl:
            if case["op"] == "train":
                a.train_async(fx, ft, *args, **dict(kw, **w))
            elif case["op"] == "add":
                if rep == 0 and a.classification == "wc" and a.wc is None:
                    pass
                if case["hf"]:
                    a.add_data_async(fx, ft, fHH=os.path.join(tmp, "aHH.h5"), fHT=os.path.join(tmp, "aHT.h5"), **kw)
                else:
                    a.add_data_async(fx, ft, **kw)
            else:
                if rep == 0:
                    s.train(X2, T2, *(args if mode != "wcauto" or (np.asarray(T2, float).sum(0) > 0).all() else []), **w)
                    a.nnet.set_B(s.nnet.get_B())
                fy = os.path.join(tmp, "y.h5")
                a.predict_async(fx, fy, **kw)
        no_helpers(mon, case["op"] + "_async")
        mon.hit("long stops of helpers", len([1 for f in ("x.h5", "t.h5", "y.h5") for e in dl.events("stall", f)]))
        if dl.mstalled:
            mon.hit("long stops of the computation")
        if dl.naps:
            mon.hit("delays before sending a batch", dl.naps)
        rx = dl.events("read", "x.h5", "child") or dl.events("read", "x.h5")
        if rx:
            once([e for e in rx if e[0] < e[1]], i, hi, "reading inputs", mon)
            mon.hit("helper reads observed", len(rx))
        if case["op"] != "predict":
            rt = dl.events("read", "t.h5", "child")
            if rt:
                once([e for e in rt if e[0] < e[1]], i, hi, "reading targets", mon)
        else:
            wy = dl.events("write", "y.h5")
            if wy:
                once([e for e in wy if e[0] < e[1]], 0, hi - i, "writing outputs", mon)
                mon.hit("helper writes observed", len(wy))
            Y, cnt = g.read_h5(fy)
            f2 = os.path.join(tmp, "ys.h5")
            s.nnet.set_B(a.nnet.get_B())
            s.predict(fx, f2, **kw)
            Ys, _ = g.read_h5(f2)
            mon.ok(cnt == 1 and Y.dtype == Ys.dtype, "predict_async makes %d arrays of %s, predict of %s", cnt, Y.dtype, Ys.dtype)
            B = np.abs(np.asarray(a.nnet.get_B(), dtype=np.float64))
            close(mon, Y, Ys, 32*(H.shape[1] + 8)*eps*np.abs(H[rows]).dot(B) + 1e-30, "predict_async against predict")
            mon.hit("asynchronous predictions compared")
    if case["op"] == "predict":
        return
    reps = 2 if case["twice"] else 1
    if case["op"] == "train":
        s.train(fx, ft, *args, **dict(kw, **w))
        reps = 1
    else:
        for _ in range(reps):
            if case["hf"]:
                s.add_data(fx, ft, fHH=os.path.join(tmp, "sHH.h5"), fHT=os.path.join(tmp, "sHT.h5"), **kw)
            else:
                s.add_data(fx, ft, **kw)
    cw = {"wc": w.get("w"), "wcauto": o.auto_weights(T2[rows])}.get(mode)
    sw = None if cw is None else o.class_weights(T2[rows], cw)
    tH, tT = o.corr_tol(H[rows], T2[rows], norm, eps, sw, dH[rows])
    for (A1, A2), (S1, S2), k in ((a.nnet.get_corr(), s.nnet.get_corr(), 1 if case["hf"] and case["op"] == "add" else reps),):
        close(mon, A1, S1, 2*k*tH, "HH of the asynchronous version against the synchronous one")
        close(mon, A2, S2, 2*k*tT, "HT of the asynchronous version against the synchronous one")
        e1, e2 = o.corr(H[rows], T2[rows], 0, sw)
        close(mon, A1, k*e1 + norm*np.eye(len(e1)), 2*k*tH, "HH of the asynchronous version against the exact sum")
        close(mon, A2, k*e2, 2*k*tT, "HT of the asynchronous version against the exact sum")
    if case["op"] == "add" and case["hf"]:
        for f, t in (("HH", tH), ("HT", tT)):
            A, S = g.read_h5(os.path.join(tmp, "a%s.h5" % f))[0], g.read_h5(os.path.join(tmp, "s%s.h5" % f))[0]
            close(mon, A, S, 4*reps*t, "%s file of the asynchronous version" % f)
        mon.hit("HH/HT files compared")
    elif reps == 1:
        if case["op"] == "add":
            a.nnet.solve()
            s.nnet.solve()
        R = o.Ridge(H[rows], g.mat(T2)[rows], norm, eps, sw, dH[rows])
        o.same_fit(R, a.nnet.get_B(), s.nnet.get_B(), mon, "asynchronous and synchronous training")
    mon.hit("asynchronous trainings compared")


def refuse(case, mon, tmp, a, fx, ft, X2, T2):
    """Unsuitable data must raise, promptly and without leaving helper processes."""
    w = case["what"]
    bad = os.path.join(tmp, "missing.h5")
    wide = g.h5(os.path.join(tmp, "wide.h5"), np.hstack([X2, X2[:, :1]]))
    more = g.h5(os.path.join(tmp, "more.h5"), np.vstack([T2, T2[:1]]))
    fy = os.path.join(tmp, "y.h5")
    if w.endswith("P"):
        a.train(X2, T2)
        calls = {"arrP": lambda: a.predict_async(X2, fy), "missP": lambda: a.predict_async(bad, fy), "wrongP": lambda: a.predict_async(wide, fy)}
        todo = [calls[w]]
    else:
        d = {"arrX": (X2, ft), "arrT": (fx, T2), "arrXT": (X2, T2), "missing": (bad, ft), "wrongd": (wide, ft), "rows": (fx, more)}[w]
        todo = [lambda: a.train_async(*d), lambda: a.add_data_async(*d)]
    for f in todo:
        try:
            f()
        except Exception:
            mon.hit("refusals checked")
            mon.deciding += 1
        else:
            mon.ok(False, "unsuitable data (%s) was not refused by the asynchronous version", w)
        no_helpers(mon, "a refusing asynchronous call", settle=2.0)
