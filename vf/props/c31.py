"""C31: faults in the middle of file operations (I/O errors, killed helper processes, failing computation, interrupts)."""
import errno, mmap, os, signal, struct, time
import multiprocessing as mp
import multiprocessing.process, multiprocessing.util
import numpy as np
import tables
from .. import gen as g, hooks
from .c05 import no_helpers
from hpelm import make_hdf5, normalize_hdf5
from hpelm.modules import rbf_param

ID, LEVEL, QUICK_S = "C31", "fault_enumeration", 30
RULE = ("one operation on files with one fault at a chosen access: an error (PyTables', operating system's) or an interrupt at the n-th read, write, creation or flush of a given file in the main or a helper process, "
        "a helper that dies there, a process that cannot be started, or a computation that fails at the n-th batch; non-trivial: the fault was reached. A process tree that sleeps for 20 s without using CPU is a hang.")
SYNC = ["train", "trainwc", "add", "addfile", "predict", "predictmem", "project", "error", "confusion", "validation", "solvecorr", "norm", "normgiven", "makearr", "maketext", "rbf"]
ASYNC = ["trainasync", "addasync", "addfileasync", "predictasync"]
FILES = dict(train="xt", trainwc="xt", add="xt", addfile="xtHK", predict="xy", predictmem="x", project="xy", error="tp", confusion="tp", validation="xtHK", solvecorr="HK", norm="z", normgiven="z", makearr="y", maketext="y", rbf="x",
             trainasync="xt", addasync="xt", addfileasync="xtHK", predictasync="xy")
COMP = ["train", "trainwc", "add", "addfile", "predict", "predictmem", "project", "validation"] + ASYNC
REQUIRE = ["op " + k for k in SYNC + ASYNC] + ["fault " + k for k in ("h5", "os", "int", "exit", "kill", "start", "compute")] + ["faults in helpers", "faults at writes", "outputs of calls that went on", "ends of the program", "operations repeated after the fault"]


def gen(rng, D):
    op = rng.choice(SYNC + ASYNC + ASYNC + ASYNC)
    a = op in ASYNC
    return dict(op=op, kind=rng.choice(["h5", "os", "int", "compute"] + (["exit", "kill", "start", "h5", "exit"] if a else [])), file=rng.choice(FILES[op]), acc=rng.choice(["", "", "read", "write", "create", "flush"]),
                k=rng.choice([0, 0, 1, 2, 3, 4, 5, rng.randint(0, 12)]), inmain=rng.random() < (0.3 if a else 1), N=rng.choice([3, 10, 17, 24]), batch=rng.choice([1, 2, 3, 5, 8, 30]), wide=a and rng.random() < 0.25,
                end=a and rng.random() < 0.3, ds=rng.randrange(1 << 20), solver=rng.choice(["", "basic"]), prec="double", d=3, c=2, norm=rng.choice([None, 0.1]), err=rng.randrange(11), old=rng.random() < 0.5, skip=rng.choice([0, 0, 2]))


def fix(c):
    if c["file"] not in FILES[c["op"]]:
        c["file"] = FILES[c["op"]][0]
    if c["kind"] == "compute" and c["op"] not in COMP:
        c["kind"] = "h5"
    if c["kind"] in ("exit", "kill", "start") and c["op"] not in ASYNC:
        c["kind"] = "os"
    if c["op"] not in ASYNC:
        c["inmain"], c["end"], c["wide"] = True, False, False
    if c["kind"] in ("exit", "kill"):
        c["inmain"] = False
    c["batch"] = max(c["batch"], -(-c["N"] // 12))
    return c


B0 = dict(acc="", k=0, inmain=True, N=10, batch=3, wide=False, end=False, ds=1, solver="", prec="double", d=3, c=2, norm=0.1, old=False, skip=0)
DIRECTED = [dict(B0, op=op, kind=kd, file=f, k=k, ds=k, old=k == 1) for op in SYNC for f in FILES[op] for kd, k in (("h5", 0), ("os", 1), ("int", 2))]
DIRECTED += [dict(B0, op=op, kind="compute", file=FILES[op][0], k=k, end=op in ASYNC and k == 1) for op in COMP for k in (0, 1, 3)]
DIRECTED += [dict(B0, op=op, kind="compute", file=FILES[op][0], k=k, err=e, batch=b) for op in COMP for e, k, b in ((1, 0, 3), (1, 1, 5), (2, 1, 3), (3, 0, 5), (4, 2, 3), (5, 1, 3), (1, 3, 3), (9, 1, 4))]
DIRECTED += [dict(B0, op=op, kind=kd, file=f, k=k, inmain=False, ds=k, end=(k + i) % 3 == 0, wide=w) for i, (op, f, kd) in enumerate((op, f, kd) for op in ASYNC for f in ("xt" if op != "predictasync" else "xy") for kd in ("h5", "exit", "kill"))
             for k, w in ((0, False), (1, True), (3, False))]
DIRECTED += [dict(B0, op=op, kind=kd, file=f, k=k, inmain=False, ds=9 + k, wide=True, batch=b) for op in ASYNC for f in ("xt" if op != "predictasync" else "xy") for kd in ("exit", "kill") for k, b in ((1, 3), (2, 3), (1, 5), (1, 4))]
DIRECTED += [dict(B0, op=op, kind="start", file="x", k=k) for op in ASYNC for k in (0, 1)]


ERRORS = [ArithmeticError, MemoryError, np.linalg.LinAlgError, RuntimeError, OSError, ValueError, KeyError, IndexError, TypeError, StopIteration, FloatingPointError]


class Fault(tables.HDF5ExtError):
    pass


class Stop(KeyboardInterrupt):
    pass


class Inject(object):
    """One fault; what happened is kept in memory shared with the helpers: reached, in a helper, at a write, accesses counted."""
    def __init__(self, case):
        self.case, self.main = case, os.getpid()
        self.mm = mmap.mmap(-1, 64)
        self.name = dict(x="x.h5", t="t.h5", y="y.h5", p="p.h5", z="z.h5", H="hh.h5", K="ht.h5")[case["file"]]
        self.n = 0
        self.on = True

    def get(self, i):
        return struct.unpack_from("q", self.mm, 8*i)[0]

    def set(self, i, v):
        struct.pack_into("q", self.mm, 8*i, v)

    def raised(self, i=0):
        self.set(0, 1)
        self.set(1, int(os.getpid() != self.main))

    def io(self, kind, name):
        c = self.case
        if not self.on or c["kind"] in ("compute", "start") or not name.startswith(self.name) or (c["acc"] and c["acc"] != kind) or (os.getpid() == self.main) != c["inmain"]:
            return
        i = 3 if os.getpid() == self.main else 4
        self.set(i, self.get(i) + 1)
        if self.get(i) != c["k"] + 1:
            return
        self.raised()
        self.set(2, int(kind == "write"))
        if c["kind"] == "exit":
            os._exit(1)
        if c["kind"] == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(10)
        raise {"h5": Fault("Problems accessing the data"), "os": OSError(errno.EIO, "Input/output error"), "int": Stop()}[c["kind"]]

    def neurons(self, per):
        """A kind of neurons (a custom ufunc) that fails at one of the batches; `per` computed values make up a batch."""
        def f(x):
            if self.on and self.case["kind"] == "compute":
                self.n += 1
                if self.n == self.case["k"]*per + 1:
                    self.raised()
                    e = ERRORS[self.case.get("err", 0)]
                    raise e() if e is MemoryError else e("computation fails")
            return np.tanh(x)
        return np.frompyfunc(f, 1, 1)

    def __enter__(self):
        hooks.set_fault(self.io)
        P = multiprocessing.process.BaseProcess
        self.start = P.start
        me, count = self, [0]

        def start(p):
            if me.on and me.case["kind"] == "start":
                count[0] += 1
                if count[0] == me.case["k"] + 1:
                    me.raised()
                    raise OSError(errno.EPERM, "Operation not permitted")
            return me.start(p)
        P.start = start
        return self

    def __exit__(self, *a):
        multiprocessing.process.BaseProcess.start = self.start
        hooks.set_fault(None)


def model(case, inj, wc, train=True):
    L = 4
    c = case["c"] if not case["wide"] else 3000
    m = g.HPELM(case["d"], c, batch=case["batch"], norm=case["norm"], accelerator=g.accel(case["solver"]), **(dict(classification=wc, w=np.arange(1, c + 1)) if wc == "wc" else dict(classification=wc) if wc else {}))
    r = g.rs(case["ds"], 4)
    m.add_neurons(L, "tanh", r.randn(case["d"], L), r.randn(L))
    m.add_neurons(2, inj.neurons(2*case["batch"]), r.randn(case["d"], 2), r.randn(2))
    m.nnet.set_B(r.randn(L + 2, c))
    return m


def operate(case, m, p):
    """Runs the operation; returns its results."""
    op, b = case["op"], dict(istart=case["skip"]) if case["skip"] else {}
    if op in ("train", "trainwc", "trainasync"):
        (m.train_async if op == "trainasync" else m.train)(p("x.h5"), p("t.h5"), **b)
        return [m.nnet.get_B()]
    if op in ("add", "addasync"):
        (m.add_data if op == "add" else m.add_data_async)(p("x.h5"), p("t.h5"), **b)
        m.nnet.solve()
        return [m.nnet.get_B()]
    if op in ("addfile", "addfileasync"):
        (m.add_data if op == "addfile" else m.add_data_async)(p("x.h5"), p("t.h5"), fHH=p("hh.h5"), fHT=p("ht.h5"), **b)
        return [g.read_h5(p("hh.h5"))[0], g.read_h5(p("ht.h5"))[0]]
    if op in ("predict", "predictasync", "project"):
        getattr(m, dict(predictasync="predict_async").get(op, op))(p("x.h5"), p("y.h5"), **b)
        return [g.read_h5(p("y.h5"))[0]]
    if op == "predictmem":
        return [m.predict(p("x.h5"), **b)]
    if op == "error":
        return [m.error(p("t.h5"), p("p.h5"), **b)]
    if op == "confusion":
        return [m.confusion(p("t.h5"), p("p.h5"))]
    if op == "validation":
        Ls, e, C = m.validation_corr(p("hh.h5"), p("ht.h5"), p("x.h5"), p("t.h5"), steps=3)
        return [Ls, e, m.nnet.get_B()]
    if op == "solvecorr":
        m.solve_corr(p("hh.h5"), p("ht.h5"))
        return [m.nnet.get_B()]
    if op in ("norm", "normgiven"):
        a = (np.arange(3.0), np.arange(1.0, 4.0)) if op == "normgiven" else ()
        ms = normalize_hdf5(p("z.h5"), *a, batch=case["batch"])
        return list(ms) + [g.read_h5(p("z.h5"))[0]]
    if op == "makearr":
        make_hdf5(np.arange(30.0).reshape(10, 3), p("y.h5"))
        return [g.read_h5(p("y.h5"))[0]]
    if op == "maketext":
        make_hdf5(p("t.txt"), p("y.h5"))
        return [g.read_h5(p("y.h5"))[0]]
    np.random.seed(4)
    return list(rbf_param(p("x.h5"), 3, "l2"))


WC = dict(trainwc="wc", confusion="c")


def files(case, tmp):
    r = g.rs(case["ds"], 1)
    c = case["c"] if not case["wide"] else 3000
    p = lambda n: os.path.join(tmp, n)
    X = r.randn(case["N"], case["d"])
    T = np.zeros((case["N"], c))
    T[np.arange(case["N"]), r.randint(0, c, case["N"])] = 1
    g.h5(p("x.h5"), X)
    g.h5(p("t.h5"), T)
    g.h5(p("p.h5"), r.rand(case["N"], c))
    g.h5(p("z.h5"), X)
    with open(p("t.txt"), "w") as f:
        f.write("1 2 3\n4 5 6\n7 8 9\n")
    if case["op"] in ("validation", "solvecorr") or case["old"]:
        H = r.randn(50, 6)
        g.h5(p("hh.h5"), H.T.dot(H))
        g.h5(p("ht.h5"), r.randn(6, c))
    if case["old"]:
        g.h5(p("y.h5"), r.randn(4, 2))
    return p


def raw(p, n):
    try:
        with open(p(n), "rb") as f:
            return f.read()
    except OSError:
        return None


def run(case, mon, tmp):
    op = case["op"]
    ref = os.path.join(tmp, "ref")
    os.mkdir(ref)
    # reference: no fault
    inj = Inject(case)
    inj.on = False
    p = files(case, ref)
    m = model(case, inj, WC.get(op, ""))
    want = [np.array(v, dtype=float) for v in operate(dict(case, op=op.replace("async", "") or op), m, p)]
    main = os.path.join(tmp, "f")
    os.mkdir(main)
    p = files(case, main)
    inj = Inject(case)
    m = model(case, inj, WC.get(op, ""))
    if case["end"]:
        return ends(case, mon, inj, m, p)
    keep = {n: raw(p, n) for n in os.listdir(main)}
    with inj:
        res, err = None, None
        try:
            res = operate(case, m, p)
        except (Exception, KeyboardInterrupt) as e:
            err = e
    inj.on = False
    if not inj.get(0):
        if err is not None:
            raise err
        mon.hit("faults not reached")
    what = "%s with a fault (%s at %s %s%s)" % (op, case["kind"], case["acc"] or "access", case["file"], " in a helper" if inj.get(1) else "")
    mon.ok(not hooks.handles(), "%s: HDF5 files stay open: %s", what, hooks.handles())
    no_helpers(mon, what, settle=3.0)
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            q = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if q.startswith(tmp):
            fds.append(os.path.basename(q))
    mon.ok(not fds, "%s: file descriptors stay open: %s", what, fds)
    if err is None:
        for a, b in zip(res, want):
            a = np.asarray(a, dtype=float)
            mon.ok(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9), "%s: the call returns without an error, but its result is not complete", what)
        mon.hit("outputs of calls that went on")
        if not inj.get(0):
            return
    inputs = {"x.h5", "t.h5", "p.h5", "t.txt"} | ({"z.h5"} if not op.startswith("norm") else set()) | ({"hh.h5", "ht.h5"} if op in ("validation", "solvecorr") else set()) | ({"y.h5"} if "y" not in FILES[op] else set())
    for n in inputs & set(keep):
        mon.ok(raw(p, n) == keep[n], "%s: input file %s has changed", what, n)
    if op.startswith("addfile"):
        # every file has the old or the new content
        old = files(case, ref)
        for n, w in (("hh.h5", want[0]), ("ht.h5", want[1])):
            if raw(p, n) is None:
                continue
            V = g.read_h5(p(n))[0]
            nrm = m.nnet.norm
            o = g.read_h5(old(n))[0] if case["old"] else np.eye(len(V))*nrm if n == "hh.h5" else np.zeros(V.shape)
            mon.ok(V.shape == w.shape and (np.allclose(V, w, rtol=1e-6, atol=1e-9) or np.allclose(V, o, rtol=1e-6, atol=1e-12)), "%s: %s holds neither the old nor the new matrix", what, n)
    mon.hit("op " + op)
    mon.hit("fault " + case["kind"])
    if inj.get(1):
        mon.hit("faults in helpers")
    if inj.get(2):
        mon.hit("faults at writes")
    mon.tag("faults", (op, case["kind"], case["file"], case["acc"], case["k"], inj.get(1)))
    # everything can be used again
    if op.startswith("norm") or op == "validation":
        return
    if op in ("add", "addasync"):
        case = dict(case, op="train" + op[3:])
    elif op.startswith("addfile"):
        return
    res = [np.array(v, dtype=float) for v in operate(case, m, p)]
    for a, b in zip(res, want):
        mon.ok(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9), "%s: the same operation afterwards gives another result", what)
    mon.hit("operations repeated after the fault")


def ends(case, mon, inj, m, p):
    """The program can end after the failure: a forked copy of it runs the operation and the end of multiprocessing."""
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            multiprocessing.util._finalizer_registry.clear()
            multiprocessing.process._children.clear()
            inj.main = os.getpid()
            with inj:
                try:
                    operate(case, m, p)
                    code = 0
                except (Exception, KeyboardInterrupt):
                    code = 1
            if not inj.get(0):
                code = 2 + code
            multiprocessing.util._exit_function()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    mon.ok(code in (0, 1, 2, 3), "%s: the program ends with code %d", case["op"], code)
    mon.ok(code != 3, "%s fails without a fault", case["op"])
    if code == 2:
        return mon.hit("faults not reached")
    if code == 0 and not case["op"].startswith("add"):
        mon.hit("outputs of calls that went on")
    mon.hit("ends of the program")
