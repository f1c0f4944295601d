"""C28: sequences of operations over a few shared file names, in lock step with an array-based model of all files; open handles and descriptors are counted after every call."""
import hashlib, os, shutil
import numpy as np
import tables
from ..core import Inconclusive
from .. import gen as g, hooks, oracle as o
from hpelm import make_hdf5, normalize_hdf5

ID, LEVEL, QUICK_S = "C28", "exploration", 20
RULE = ("random sequences of file operations (make, train, add, add into HH/HT, solve, solve_corr, predict, project, error, validation_corr, normalise, rbf_param, save, load, asynchronous "
        "versions; valid and failing) of two models over 8 file names used in absolute and relative form; every file is re-read independently after every call and compared with what the sequence means; "
        "non-trivial: contents, handles and results were compared")
OPS = ["make", "train", "add", "addf", "solve", "sc", "pred", "proj", "err", "vc", "norm", "rbf", "save", "load", "predm", "asy", "asypred", "asyadd"]
REQUIRE = ["op " + k for k in OPS] + ["failing op " + k for k in ("make", "train", "addf", "sc", "pred", "proj", "err", "vc", "norm", "rbf", "load")] + \
    ["outputs overwritten", "outputs of another shape overwritten", "outputs read by a later call", "same file under two names", "one file as two arguments", "operations after a failed one",
     "appended to matrices of an earlier call", "normalised again after being overwritten", "results compared"]
CPU_LIMIT = 300
WEIGHT = dict(make=4, train=4, add=2, addf=4, solve=2, sc=3, pred=6, proj=4, err=4, vc=2, norm=4, rbf=1, save=1, load=1, predm=2)
BAG = [k for k in WEIGHT for _ in range(WEIGHT[k])]
NAMES = ["a.h5", "b.h5", "c.hdf5", "d", "e.dat", "f.h5", "g.h5", "h.h5"]


def gen(rng, D):
    d = rng.randint(1, 4)
    c = dict(d=d, c=[rng.choice([1, 2, d]), rng.choice([1, 2, d])], N=D.size(rng, 3, 30), ds=rng.randrange(1 << 30), chain=rng.random() < 0.5,
             neu=[g.gen_neurons(rng, D, lmax=3, pbig=0, ufunc=False, modes=["given"], funcs=["lin", "tanh", "sigm", "rbf_l2"])[:3] for _ in range(2)], prec=[rng.choice(["double", "double", "single"]) for _ in range(2)],
             solver=[rng.choice(["", "", "basic"]) for _ in range(2)], norm=[rng.choice([1e-3, 0.1, 1.0]) for _ in range(2)], batch=[rng.choice([1000, 1, 2, 3, 7, rng.randint(1, 30)]) for _ in range(2)],
             cls=[rng.choice(["", "", "", "c"]) for _ in range(2)], ops=[], nf=rng.choice([4, 5, 6, 8, 8]))
    if rng.random() < 0.8:
        for i in (0, 1) if rng.random() < 0.5 else (0,):
            c["ops"] += [["mkX", i, [2*i, 0, 0, 0], rng.randrange(1 << 30), False], ["mkT", i, [2*i + 1, 0, 0, 0], rng.randrange(1 << 30), False], ["train", i, [2*i, 2*i + 1, 0, 0], rng.randrange(1 << 30), False]]
    for _ in range(rng.randint(6, 28)):
        op = rng.choice(BAG)
        if rng.random() < 0.02:
            op = rng.choice(["asy", "asypred", "asyadd"])
        c["ops"].append([op, rng.randrange(2), [rng.randrange(8) for _ in range(4)], rng.randrange(1 << 30), rng.random() < 0.12])
    return c


def fix(c):
    for i in (0, 1):
        if c["chain"]:
            c["c"][i] = c["d"]      # outputs have as many columns as inputs: predictions can be inputs
        if c["c"][i] == 1:
            c["cls"][i] = ""
        if c["chain"] and c["d"] == 1:
            c["cls"][i] = ""
    return c


B0 = dict(d=2, c=[2, 2], N=9, ds=3, chain=True, neu=[[["tanh", 3, "given", 3], ["lin", 2, "given", 5]], [["sigm", 2, "given", 8]]], prec=["double", "single"], solver=["", ""], norm=[0.1, 0.1], batch=[4, 3], cls=["", ""],
          nf=6, ops=[])


def _dir():
    out = []
    for i, (m, s, b, ch) in enumerate(((0, "", 4, True), (1, "", 3, True), (0, "basic", 1, True), (0, "", 1000, False), (1, "basic", 2, False))):
        L = [["make", m, [0, 0, 0, 0], 1, 0], ["make", m, [1, 1, 1, 1], 2, 0], ["train", m, [0, 1, 0, 0], 3, 0], ["pred", m, [0, 2, 0, 0], 4, 0], ["err", m, [1, 2, 0, 0], 5, 0], ["pred", m, [0, 2, 0, 0], 6, 0],
             ["proj", m, [0, 2, 0, 0], 7, 0], ["addf", m, [0, 1, 3, 4], 8, 0], ["addf", m, [0, 1, 3, 4], 9, 0], ["sc", m, [3, 4, 0, 0], 10, 0], ["pred", m, [0, 5, 0, 0], 11, 0], ["err", m, [1, 5, 0, 0], 12, 0],
             ["vc", m, [3, 4, 0, 1], 13, 0], ["norm", m, [5, 0, 0, 0], 14, 0], ["norm", m, [5, 0, 0, 0], 15, 0], ["pred", m, [0, 5, 0, 0], 16, 0], ["norm", m, [5, 0, 0, 0], 17, 0], ["rbf", m, [0, 0, 0, 0], 18, 0],
             ["proj", m, [0, 3, 0, 0], 19, 0], ["save", m, [4, 0, 0, 0], 20, 0], ["load", m, [4, 0, 0, 0], 21, 0], ["pred", m, [0, 4, 0, 0], 22, 0], ["asypred", m, [0, 4, 0, 0], 23, 0], ["asy", m, [0, 1, 0, 0], 24, 0],
             ["asyadd", m, [0, 1, 0, 0], 25, 0], ["solve", m, [0, 0, 0, 0], 26, 0], ["predm", m, [0, 0, 0, 0], 27, 0], ["add", m, [0, 1, 0, 0], 28, 0], ["solve", m, [0, 0, 0, 0], 29, 0], ["pred", m, [0, 0, 0, 0], 30, 0]]
        fails = []
        for op in ("make", "train", "addf", "sc", "pred", "proj", "err", "vc", "norm", "rbf", "load"):
            for k in range(3):
                fails += [[op, m, [k, k + 1, k + 2, k + 3], 40 + 7*k, 1], ["pred", m, [0, 5, 0, 0], 41 + k, 0], ["train", m, [0, 1, 0, 0], 42, 0]]
        out += [dict(B0, ds=i, solver=[s, s], batch=[b, b], chain=ch, ops=L), dict(B0, ds=i, solver=[s, s], batch=[b, b], chain=ch, ops=L[:3] + fails)]
    return out


DIRECTED = _dir()


class File(object):
    """What a file holds. kind: data / HH / HT / model / text."""
    def __init__(self, kind, A=None, **k):
        self.kind, self.A, self.stats, self.uses, self.tag = kind, A, None, 0, None
        self.__dict__.update(k)


class World(object):
    def __init__(self, case, mon, tmp):
        self.case, self.mon, self.tmp = case, mon, tmp
        self.dir, self.peekdir = os.path.join(tmp, "w"), os.path.join(tmp, "p")
        os.mkdir(self.dir)
        os.mkdir(self.peekdir)
        os.chdir(self.dir)
        self.store, self.dig, self.forms = {}, {}, {}
        self.models, self.state = [], []
        for i in (0, 1):
            m = g.HPELM(case["d"], case["c"][i], batch=case["batch"][i], accelerator=g.accel(case["solver"][i]), precision=g.prec_arg(case["prec"][i]), norm=case["norm"][i], tprint=g.tprint(case),
                        **(dict(classification=case["cls"][i]) if case["cls"][i] else {}))
            g.add_all(m, case["neu"][i], case["d"])
            self.models.append(m)
            self.state.append(dict(acc=[], trained=False))

    # --- observations
    def eps(self, i):
        return g.eps_of(self.case["prec"][i])

    def digest(self):
        out = {}
        for f in os.listdir(self.dir):
            if f.endswith(".lock"):
                continue
            with open(os.path.join(self.dir, f), "rb") as h:
                out[f] = hashlib.blake2b(h.read(), digest_size=12).hexdigest()
        return out

    def closed(self, what):
        self.mon.ok(not hooks.handles(), "%s: HDF5 files left open: %s", what, hooks.handles())
        fds = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if p.startswith(self.tmp):
                fds.append(os.path.basename(p))
        self.mon.ok(not fds, "%s: file descriptors left open: %s", what, fds)

    def only(self, what, changed=()):
        """Nothing but the given files changed."""
        d = self.digest()
        diff = sorted(f for f in set(d) | set(self.dig) if d.get(f) != self.dig.get(f) and f not in changed)
        self.mon.ok(not diff, "%s: changed other files: %s", what, diff)
        self.dig = d

    def peek(self, name, what):
        """The arrays in a file, read from a copy of what is on the disk now."""
        c = os.path.join(self.peekdir, "copy.h5")
        src = os.path.join(self.dir, name)
        self.mon.ok(os.path.isfile(src), "%s: output file %s does not exist", what, name)
        shutil.copyfile(src, c)
        h, e = g.call(tables.open_file, c, "r")
        self.mon.ok(e is None, "%s: output file %s cannot be read when the call has returned: %s", what, name, str(e)[:200])
        try:
            nodes = [n for n in h.walk_nodes() if isinstance(n, tables.Leaf)]
            self.mon.ok(len(nodes) == 1, "%s: output file %s holds %d arrays", what, name, len(nodes))
            A = nodes[0].read()
            mean = getattr(nodes[0].attrs, "mean", None)
        finally:
            h.close()
        os.unlink(c)
        return A, mean

    def put(self, name, f, what):
        """Records an output."""
        old = self.store.get(name)
        if old is not None:
            self.mon.hit("outputs overwritten")
            if getattr(old.A, "shape", None) != getattr(f.A, "shape", None):
                self.mon.hit("outputs of another shape overwritten")
        if old is not None and old.stats is not None:
            f.tag = "renorm"
        self.store[name] = f

    def path(self, name, bit):
        if self.forms.setdefault(name, bit) != bit:
            self.mon.hit("same file under two names")
        self.forms[name] = bit
        return name if bit else os.path.join(self.dir, name)

    def use(self, *names):
        for n in names:
            if n in self.store:
                self.store[n].uses += 1
                if self.store[n].uses == 1 and self.store[n].kind != "text" and getattr(self.store[n], "made", 0) == 0:
                    self.mon.hit("outputs read by a later call")

    def fits(self, name, cols, kinds=("data",)):
        f = self.store.get(name)
        return f is not None and f.kind in kinds + ("HH", "HT") and f.A.shape[1] == cols

    def tame(self, *names):
        """Values small enough that rounding bounds stay meaningful."""
        for n in names:
            f = self.store.get(n)
            if f is not None and f.A is not None and f.A.size and not np.abs(f.A.astype(float)).max() < 200:
                return False
        return True


def hid(W, i, X):
    H, t = o.hidden(g.mat(X), g.groups(W.models[i]), W.eps(i))
    return H, 2*t + 2*W.eps(i)*np.abs(H)


def run(case, mon, tmp):
    W = World(case, mon, tmp)
    failed = False
    names = NAMES[:case["nf"]]
    for n, (op, i, files, seed, bad) in enumerate(case["ops"]):
        nm = [names[k % len(names)] for k in files]
        r = g.rs(seed, 3)
        what = "operation %d %s" % (n, op)
        st = step(W, case, op, i, nm, r, bool(bad), what)
        if st == "skip":
            mon.hit("operations skipped")
            continue
        mon.hit(("failing op " if st == "failed" else "op ") + ("make" if op in ("mkX", "mkT") else op))
        if st != "failed" and failed:
            mon.hit("operations after a failed one")
        failed = st == "failed"
        mon.tag("operation pairs", (case["ops"][n - 1][0] if n else "", op, st))


def expect(W, what, f, ok, *a, **k):
    """Calls; returns (result, failed). ok: whether the call must succeed."""
    R, e = g.call(f, *a, **k)
    msg, fatal = repr(e)[:300], None
    if e is not None:
        from ..core import env_failure
        if env_failure(e):
            raise Inconclusive(msg)
    e = None if e is None else True
    if ok:
        W.mon.ok(e is None, "%s: fails on valid files: %s", what, msg)
    else:
        W.mon.ok(e is not None, "%s: accepts unsuitable files", what)
    W.closed(what + (" (failed)" if e else ""))
    return R, bool(e)


def step(W, case, op, i, nm, r, bad, what):
    mon, S = W.mon, W.store
    m, st = W.models[i], W.state[i]
    eps = W.eps(i)
    d, c = case["d"], case["c"][i]
    L = int(m.nnet.L)
    prec = np.dtype(g.prec_of(case["prec"][i]))
    p = [W.path(nm[0], r.randint(2))]

    if op in ("make", "mkX", "mkT"):
        if bad:
            src = os.path.join(W.dir, "src.csv")
            with open(src, "w") as f:
                f.write("1 2 3\n4 5\n" if r.randint(2) else "a b c\n")
            W.dig = W.digest()
            expect(W, what, make_hdf5, False, src, p[0])
            W.only(what)
            os.unlink(src)
            W.dig = W.digest()
            return "failed"
        kind = ["data", "data", "data", "array", "csv", "npy", "text"][r.randint(7 if op == "make" else 6)]
        cols = d if op == "mkX" else c if op == "mkT" else [d, d, c, c, L][r.randint(5)]
        N = case["N"] if r.rand() < 0.8 or op != "make" else r.randint(1, 12)
        if case["cls"][i] and cols == c and r.randint(2):
            A = np.zeros((N, c))
            A[np.arange(N), r.randint(0, c, N)] = 1
        else:
            A = r.randn(N, cols)
        if kind == "text":   # not an HDF5 file
            with open(p[0], "w") as f:
                f.write("1 2 3\n")
            W.put(nm[0], File("text"), what)
            W.dig = W.digest()
            return "done"
        dt = np.dtype(["f8", "f4"][r.randint(2)])
        A = A.astype(dt)
        src = A
        if kind in ("csv", "npy"):
            src = os.path.join(W.dir, "src." + kind)
            if kind == "npy":
                np.save(src, A)
            else:
                with open(src, "w") as f:
                    f.write("\n".join(" ".join(repr(float(v)) for v in row) for row in A) + "\n")
        expect(W, what, make_hdf5, True, src, p[0], dtype=dt.type, comp_level=[0, 0, 3][r.randint(3)])
        W.only(what, (nm[0], "src.csv", "src.npy"))
        if kind in ("csv", "npy"):
            os.unlink(src)
            W.dig = W.digest()
        V, mean = W.peek(nm[0], what)
        mon.ok(V.shape == A.shape and V.dtype == dt and np.array_equal(V, A), "%s: the file does not hold the data", what)
        mon.ok(mean is None, "%s: a new file has normalisation parameters", what)
        W.put(nm[0], File("data", V, made=1), what)
        return "done"

    if op in ("train", "add", "addf", "asy", "asyadd"):
        fx, ft = nm[0], nm[1]
        good = W.fits(fx, d) and W.fits(ft, c) and S[fx].A.shape[0] == S[ft].A.shape[0]
        if good and (not W.tame(fx, ft)):
            return "skip"
        if good == bad:      # wanted the other kind
            alt = [(a, b) for a in S for b in S if W.fits(a, d) and W.fits(b, c) and S[a].A.shape[0] == S[b].A.shape[0] and W.tame(a, b)]
            alt = [q for q in alt if S[q[0]].kind == S[q[1]].kind == "data"] or alt
            if bad:
                fx = "nosuchfile"
                if fx in S:
                    return "skip"
                good = False
            elif alt:
                fx, ft = alt[r.randint(len(alt))]
                good = True
        if not good and not bad:
            return "skip"
        px, pt = W.path(fx, r.randint(2)), W.path(ft, r.randint(2))
        if fx == ft:
            mon.hit("one file as two arguments")
        arr = good and op in ("train", "add", "addf") and r.rand() < 0.15
        kw, out = {}, ()
        a, b = 0, S[fx].A.shape[0] if good else 1
        if good and r.rand() < 0.25:
            a = r.randint(0, b)
            kw["istart"] = a
            if r.randint(2):
                b = min(b, a + r.randint(1, b + 1))
                kw["icount"] = b - a
        if op == "addf" or (op == "asyadd" and r.randint(2)):
            hh, ht = nm[2], nm[3]
            pairs = mats_of(W, L, c, prec)
            if pairs and r.rand() < 0.7:
                hh, ht = pairs[r.randint(len(pairs))]
            elif r.rand() < 0.7:
                free = [x for x in NAMES if x not in S]
                if len(free) > 1:
                    hh, ht = free[-1], free[-2]
            if hh == ht or hh in (fx, ft) or ht in (fx, ft):
                return "skip"
            mats = True
            for x, kd, shape in ((hh, "HH", (L, L)), (ht, "HT", (L, c))):
                if x in S and (S[x].A is None or S[x].A.shape != shape):
                    mats = False
                elif x in S and (S[x].kind != kd or S[x].A.dtype != prec):
                    return "skip"     # a matrix of the right shape that is no HH / HT
                elif x in S and not np.abs(S[x].A).max() < 1e5:
                    return "skip"
            kw["fHH"], kw["fHT"] = W.path(hh, r.randint(2)), W.path(ht, r.randint(2))
            if good and mats and ((hh in S) or (ht in S)):
                mon.hit("appended to matrices of an earlier call")
            out = (hh, ht) if good and mats else ()
            ok = good and mats
        else:
            ok = good
        f = dict(train=m.train, add=m.add_data, addf=m.add_data, asy=m.train_async, asyadd=m.add_data_async)[op]
        if case["cls"][i] == "c" and op in ("train", "asy") and good and r.randint(2):
            kw["dummy"] = 1
            del kw["dummy"]
        nx = "missing" if not good and fx == "nosuchfile" else ""
        B0 = None if m.nnet.get_B() is None else np.array(m.nnet.get_B())
        if op in ("train", "asy"):
            _, fl = expect(W, what, f, ok, S[fx].A if arr else px, pt, **kw)
        else:
            _, fl = expect(W, what, f, ok, S[fx].A if arr else px, pt, **kw)
        W.only(what + nx, out)
        if fl:
            B1 = m.nnet.get_B()
            mon.ok((B0 is None) == (B1 is None) and (B0 is None or np.array_equal(B0, B1)), "%s: a failed call changed the output weights", what)
            return "failed"
        W.use(fx, ft)
        X, T = S[fx].A[a:b].astype(float), S[ft].A[a:b].astype(float)
        H, dH = hid(W, i, X)
        norm = case["norm"][i]
        dT = np.abs(T)*(eps if eps > 1e-10 else 0)
        if op in ("train", "asy"):
            st["acc"], st["trained"] = [(H, T, dH)], True
            check_B(W, i, what)
            return "done"
        if out:
            CH, CT = o.corr(H, T, 0.0)
            tH, tT = o.corr_tol(H, T, norm, eps, None, dH)
            tT = tT + np.abs(H).T.dot(dT)
            for x, kd, C, t in ((hh, "HH", CH, tH), (ht, "HT", CT, tT)):
                old = S[x].A.astype(float) if x in S else norm*np.eye(L) if kd == "HH" else np.zeros((L, c))
                V, mean = W.peek(x, what)
                mon.ok(V.shape == old.shape, "%s: %s has shape %s", what, kd, V.shape)
                mon.ok(V.dtype == prec, "%s: %s has type %s", what, kd, V.dtype)
                dev = np.abs(V - (old + C))
                tol = t + 8*eps*(np.abs(old) + np.abs(C)) + 8*eps*norm
                mon.ok(bool((dev <= tol).all()), "%s: %s is not the previous matrix plus the new part, off by %g", what, kd, (dev - tol).max())
                if x in S:
                    S[x].A, S[x].uses = V, 0
                else:
                    W.put(x, File(kd, V), what)
            st["acc"] = None      # what the model accumulates itself is not specified
            mon.hit("results compared")
            return "done"
        if st["acc"] is not None:
            st["acc"].append((H, T, dH))
        return "done"

    if op == "solve":
        if not st["acc"]:
            return "skip"
        expect(W, what, m.nnet.solve, True)
        W.only(what)
        st["trained"] = True
        check_B(W, i, what)
        return "done"

    if op == "sc":
        hh, ht = nm[0], nm[1]
        pairs = mats_of(W, L, c, prec)
        if not bad:
            if not pairs:
                return "skip"
            hh, ht = pairs[r.randint(len(pairs))]
        elif (hh in S and S[hh].A is not None and S[hh].A.shape == (L, L)) and (ht in S and S[ht].A is not None and S[ht].A.shape == (L, c)):
            return "skip"
        B0 = None if m.nnet.get_B() is None else np.array(m.nnet.get_B())
        _, fl = expect(W, what, m.solve_corr, not bad, W.path(hh, r.randint(2)), W.path(ht, r.randint(2)))
        W.only(what)
        if fl:
            B1 = m.nnet.get_B()
            mon.ok((B0 is None) == (B1 is None) and (B0 is None or np.array_equal(B0, B1)), "%s: a failed call changed the output weights", what)
            return "failed"
        W.use(hh, ht)
        st["trained"] = True
        residual(W, S[hh].A.astype(float), S[ht].A.astype(float), np.asarray(m.nnet.get_B(), float), eps, what)
        return "done"

    if op in ("pred", "proj", "asypred", "predm"):
        fx, fy = nm[0], nm[1]
        if not bad:
            alt = [a for a in S if W.fits(a, d) and W.tame(a)]
            if not (W.fits(fx, d) and W.tame(fx)):
                if not alt:
                    return "skip"
                fx = alt[r.randint(len(alt))]
            if op != "proj" and not st["trained"]:
                return "skip"
        elif W.fits(fx, d) and not (op != "proj" and not st["trained"]):
            fx = "nosuchfile"
        if fx == fy:
            return "skip"
        kw = {}
        a, b = 0, S[fx].A.shape[0] if not bad else 1
        if not bad and r.rand() < 0.3:
            a = r.randint(0, b)
            kw["istart"] = a
            if r.randint(2):
                b = min(b, a + r.randint(1, b + 1))
                kw["icount"] = b - a
        f = dict(pred=m.predict, predm=m.predict, proj=m.project, asypred=m.predict_async)[op]
        px, py = W.path(fx, r.randint(2)), W.path(fy, r.randint(2))
        if op == "predm":
            Y, fl = expect(W, what, f, not bad, px, **kw)
            W.only(what)
        else:
            Y, fl = expect(W, what, f, not bad, px, py, **kw)
            W.only(what, () if fl else (fy,))
        if fl:
            return "failed"
        W.use(fx)
        X = S[fx].A[a:b].astype(float)
        H, dH = hid(W, i, X)
        if op == "proj":
            R, t = H, dH
        else:
            B = np.asarray(m.nnet.get_B(), float)
            R, t = H.dot(B), g.pred_tol(H, dH, B, eps)
        if op != "predm":
            Y, mean = W.peek(fy, what)
            mon.ok(Y.dtype == prec, "%s: output has type %s, the model's precision is %s", what, Y.dtype, prec)
            mon.ok(mean is None, "%s: a new output has normalisation parameters of an old one", what)
        mon.ok(Y.shape == R.shape, "%s: output has shape %s, expected %s", what, Y.shape, R.shape)
        dev = np.abs(Y - R)
        mon.ok(bool((dev <= t + 4*eps*np.abs(R)).all()), "%s: output is off by %g, rounding allows %g", what, (dev - t).max(), t.max())
        mon.hit("results compared")
        if op != "predm":
            W.put(fy, File("data", Y), what)
        return "done"

    if op == "err":
        ft, fy = nm[0], nm[1]
        ok = W.fits(ft, c) and W.fits(fy, c)
        if not bad and not ok:
            alt = [(a, b) for a in S for b in S if W.fits(a, c) and W.fits(b, c) and S[a].A.shape[0] == S[b].A.shape[0]]
            if not alt:
                return "skip"
            ft, fy = alt[r.randint(len(alt))]
            ok = True
        if bad and ok:
            ft, ok = "nosuchfile", False
        if ok and S[ft].A.shape[0] != S[fy].A.shape[0]:
            return "skip"
        if ft == fy:
            mon.hit("one file as two arguments")
        e, fl = expect(W, what, m.error, ok, W.path(ft, r.randint(2)), W.path(fy, r.randint(2)))
        W.only(what)
        if fl:
            return "failed"
        W.use(ft, fy)
        T, Y = S[ft].A.astype(float), S[fy].A.astype(float)
        ref = o.error(case["cls"][i], T, Y)
        e32 = 1.2e-7 if S[ft].A.dtype.itemsize == 4 or S[fy].A.dtype.itemsize == 4 else 2.3e-16
        mon.ok(abs(e - ref) <= 1e-10*max(1, abs(ref)) + 200*e32*float(np.mean((np.abs(T) + np.abs(Y))**2)), "%s: error is %r, the files say %r", what, e, ref)
        mon.hit("results compared")
        return "done"

    if op == "vc":
        pairs = mats_of(W, L, c, prec)
        data = [(a, b) for a in S for b in S if W.fits(a, d) and W.fits(b, c) and S[a].A.shape[0] == S[b].A.shape[0] and W.tame(a, b)]
        if not pairs or not data:
            return "skip"
        hh, ht = pairs[r.randint(len(pairs))]
        fx, ft = data[r.randint(len(data))]
        if bad:
            k = r.randint(4)
            x = "nosuchfile"
            hh, ht, fx, ft = (x if k == 0 else hh), (x if k == 1 else ht), (x if k == 2 else fx), (x if k == 3 else ft)
        if len({hh, ht, fx, ft}) < 4:
            mon.hit("one file as two arguments")
        steps = [L] if r.rand() < 0.8 else sorted(set(int(v) for v in r.randint(1, L + 1, 3)))
        q = [W.path(x, r.randint(2)) for x in (hh, ht, fx, ft)]
        R, fl = expect(W, what, m.validation_corr, not bad, *q, **dict(steps=steps))
        W.only(what)
        if fl:
            mon.ok(int(m.nnet.L) == L, "%s: a failed call removed neurons", what)
            return "failed"
        W.use(hh, ht, fx, ft)
        Ls, errs, _ = R
        mon.ok([int(v) for v in Ls] == steps, "%s: numbers of neurons are %s, requested %s", what, Ls, steps)
        k = int(m.nnet.L)
        mon.ok(k in steps, "%s: the model has %d neurons, requested %s", what, k, steps)
        residual(W, S[hh].A[:k, :k].astype(float), S[ht].A[:k].astype(float), np.asarray(m.nnet.get_B(), float), eps, what)
        st["trained"], st["acc"] = True, None      # pruning drops accumulated data
        H, dH = hid(W, i, S[fx].A)
        B, T = np.asarray(m.nnet.get_B(), float), S[ft].A.astype(float)
        t = g.pred_tol(H, dH, B, eps)
        if not case["cls"][i]:
            Y = H.dot(B)
            ref, tol = o.error("", T, Y), float(np.mean(2*np.abs(T - Y)*t + t*t))
            mon.ok(abs(errs.min() - ref) <= tol + 200*eps*(1 + ref + float(np.mean(T**2))), "%s: validation error is %r, the files say %r", what, errs.min(), ref)
        mon.hit("results compared")
        return "done"

    if op == "norm":
        fx = nm[0]
        if bad:
            if fx in S and S[fx].kind != "text":
                fx = "nosuchfile"
        elif fx not in S or S[fx].kind != "data":
            alt = [a for a in S if S[a].kind == "data"]
            if not alt:
                return "skip"
            fx = alt[r.randint(len(alt))]
        if not bad and not W.tame(fx):
            return "skip"
        kw = dict(batch=int(r.randint(1, 40))) if r.randint(2) else {}
        R, fl = expect(W, what, normalize_hdf5, not bad, W.path(fx, r.randint(2)), **kw)
        W.only(what, () if fl else (fx,))
        if fl:
            return "failed"
        W.use(fx)
        f = S[fx]
        V, _ = W.peek(fx, what)
        mean, std = np.asarray(R[0], float), np.asarray(R[1], float)
        mon.ok(V.shape == f.A.shape and V.dtype == f.A.dtype, "%s: the array became %s %s", what, V.shape, V.dtype)
        if f.stats is None:
            A = f.A.astype(float)
            m0 = A.mean(0)
            s0 = A.std(0)
            const = (A == A[0]).all(0)
            s0[const] = 1
            big = 1e-12*(1 + np.abs(A).max(0))
            mon.ok(bool((np.abs(mean - m0) <= big).all()), "%s: means are %s, the file has %s", what, mean, m0)
            mon.ok(bool((np.abs(std - s0) <= big + 1e-9*s0).all()), "%s: deviations are %s, the file has %s", what, std, s0)
            ref = (A - mean)/std
            e = float(np.finfo(V.dtype).eps)
            mon.ok(bool((np.abs(V - ref) <= 2*e*np.abs(ref) + 1e-15*(np.abs(A) + np.abs(mean))/std).all()), "%s: values are not normalised", what)
            if f.tag == "renorm":
                mon.hit("normalised again after being overwritten")
        else:
            mon.ok(np.array_equal(mean, f.stats[0]) and np.array_equal(std, f.stats[1]), "%s: a repeated call returns other parameters", what)
            mon.ok(np.array_equal(V, f.A, equal_nan=True), "%s: a repeated call changed the data", what)
        f.A, f.stats = V, (mean, std)
        mon.hit("results compared")
        return "done"

    if op == "rbf":
        from hpelm.modules import rbf_param
        fx = nm[0]
        ok = fx in S and S[fx].kind == "data"
        if ok and not bad:
            A = S[fx].A.astype(float)
            if len(A) < 2 or len(np.unique(A, axis=0)) < len(A) or not np.isfinite(A).all():
                return "skip"
            D = np.abs(A[:, None] - A[None]).sum(2) + np.eye(len(A))
            if D.min() < 1e-6:
                return "skip"
        elif bad:
            fx = "nosuchfile" if ok else fx
            if fx in S and S[fx].kind != "text":
                return "skip"
        else:
            return "skip"
        np.random.seed(r.randint(1 << 30))
        R, fl = expect(W, what, rbf_param, not bad, W.path(fx, r.randint(2)), int(r.randint(1, 5)))
        W.only(what)
        if fl:
            return "failed"
        W.use(fx)
        rows = {tuple(v) for v in A}
        mon.ok(all(tuple(v) in rows for v in np.asarray(R[0], float).T), "%s: centroids are not rows of the file", what)
        mon.ok(bool((np.asarray(R[1]) > 0).all()), "%s: widths are not positive", what)
        mon.hit("results compared")
        return "done"

    if op == "save":
        expect(W, what, m.save, True, p[0])
        W.only(what, (nm[0],))
        B = m.nnet.get_B()
        W.put(nm[0], File("model", None, B=None if B is None else np.array(B, float), groups=g.groups(m), cls=m.classification, prec=case["prec"][i], src=i), what)
        return "done"

    if op == "load":
        f = S.get(nm[0])
        ok = f is not None and f.kind == "model"
        if not bad and not ok:
            alt = [a for a in S if S[a].kind == "model"]
            if not alt:
                return "skip"
            nm[0], ok = alt[r.randint(len(alt))], True
        if bad and ok:
            nm[0], ok = "nosuchfile", False
        f = S.get(nm[0])
        if ok:
            i2 = f.src
            new = g.HPELM(d, case["c"][i2], batch=case["batch"][i], precision=g.prec_arg(case["prec"][i2]), accelerator=g.accel(case["solver"][i]), tprint=g.tprint(case))
            _, fl = expect(W, what, new.load, True, W.path(nm[0], r.randint(2)))
            W.use(nm[0])
            W.only(what)
            B = new.nnet.get_B()
            mon.ok((B is None) == (f.B is None) and (B is None or np.array_equal(np.asarray(B, float), f.B)), "%s: loaded output weights are not the saved ones", what)
            G = g.groups(new)
            mon.ok(len(G) == len(f.groups) and all(a[0] == b[0] and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2]) for a, b in zip(G, f.groups)), "%s: loaded neurons are not the saved ones", what)
            W.models[i2] = new
            W.state[i2] = dict(acc=[] if B is None else None, trained=B is not None)
            mon.hit("results compared")
            return "done"
        B0 = None if m.nnet.get_B() is None else np.array(m.nnet.get_B())
        expect(W, what, m.load, False, W.path(nm[0], r.randint(2)))
        W.only(what)
        B1 = m.nnet.get_B()
        mon.ok((B0 is None) == (B1 is None) and (B0 is None or np.array_equal(B0, B1)), "%s: a failed call changed the output weights", what)
        return "failed"
    return "skip"


def mats_of(W, L, c, prec):
    """Pairs of files with matrices that fit a model."""
    S = W.store
    return [(a, b) for a in S for b in S if S[a].kind == "HH" and S[b].kind == "HT" and S[a].A.shape == (L, L) and S[b].A.shape == (L, c) and S[a].A.dtype == S[b].A.dtype == prec]


def residual(W, HH, HT, B, eps, what):
    """B solves HH B = HT."""
    k = 64*(len(HH) + 8)*eps
    R = HH.dot(B) - HT
    tol = k*(np.linalg.norm(HH)*np.linalg.norm(B) + np.linalg.norm(HT)) + 1e-30
    W.mon.ok(bool(np.isfinite(B).all()), "%s: solution is not finite", what)
    W.mon.ok(float(np.linalg.norm(R)) <= tol, "%s: solution does not solve the matrices in the files, residual %g, rounding allows %g", what, np.linalg.norm(R), tol)
    W.mon.hit("results compared")


def check_B(W, i, what):
    m, st = W.models[i], W.state[i]
    if st["acc"] is None:
        return
    H = np.vstack([a[0] for a in st["acc"]])
    T = np.vstack([a[1] for a in st["acc"]])
    dH = np.vstack([a[2] for a in st["acc"]])
    eps = W.eps(i)
    R = o.Ridge(H, T, W.case["norm"][i], eps, None, dH)
    R.check(m.nnet.get_B(), W.mon, what)
    W.mon.hit("results compared")
