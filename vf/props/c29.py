"""C29: memory needed by batched operations does not grow with the number of rows or of calls."""
import gc, mmap, os, resource, struct, time, tracemalloc
import multiprocessing.process, multiprocessing.queues
import numpy as np
from .. import gen as g, hooks

ID, LEVEL, QUICK_S = "C29", "exploration", 25
RULE = ("operations on files (and array training) with a batch size far below the number of rows, on two data sizes, traced by tracemalloc in this process and "
        "in the helper processes, optionally with slow helpers or slow computation; or the same call repeated; non-trivial: the growth of "
        "the peak (or of the retained memory) was compared with half of what one more array of rows would take")
# tracemalloc's table lock is not made for a fork while a thread of this process ends, so a blocked helper decides nothing here
# (whether operations come to an end is decided by C05, C07 and C31, without tracemalloc)
BLOCKED_INCONCLUSIVE = True
OPS = ["train", "trainw", "trainauto", "add", "addfile", "predict", "predictarr", "project", "projectarr", "errorr", "errorc", "errorwc", "errorml", "confc", "confml", "trainasync", "addasync", "addasyncauto", "predictasync",
       "validr", "validc", "validwc", "norm", "normgiven", "normdone", "text", "rbf", "elmtrain", "elmwc", "elmadd"]
PLAIN = ["train", "add", "addfile", "predict", "predictarr", "project", "projectarr", "errorr", "errorml", "trainasync", "addasync", "predictasync", "validr", "norm", "normgiven", "normdone", "rbf", "elmtrain", "elmadd"]
REQUIRE = ["resident memory compared", "peaks compared", "helper peaks compared", "retained memory compared", "many batches"] + ["op " + o for o in OPS]


def gen(rng, D):
    narrow = rng.random() < 0.35
    return dict(op=rng.choice(OPS), narrow=narrow, tdt=rng.choice(["", "", "u1", "f4"]), d=rng.randint(1, 3) if narrow else rng.randint(4, 24), c=rng.randint(1, 3) if narrow else rng.randint(4, 16), L=rng.randint(5, 30), batch=rng.choice([50, 100, 200, 333, 500]), solver=rng.choice(["", "basic"]),
                prec=rng.choice(["double", "double", "single"]), fdt=rng.choice(["f8", "f8", "f4"]), comp=rng.choice([0, 0, 1]), grow=rng.choice([1.0, 1.5, 2.5]), ds=rng.randrange(1 << 20),
                slow=rng.choice(["", "", "compute", "read", "write"]), part=rng.random() < 0.3, kb=rng.random() < 0.3, rep=rng.random() < 0.3, n=rng.randint(3, 7), norm=None)


def fix(c):
    if c["narrow"] and not c.get("many"):
        c["batch"] = max(c["batch"], 1000)
        if c["op"] == "text":
            c["narrow"], c["d"] = False, 8
    if c["c"] < 2 and not c["op"] in PLAIN:
        c["c"] = 2
    return c


B0 = dict(narrow=False, tdt="", d=12, c=8, L=10, batch=200, solver="", prec="double", fdt="f8", comp=0, grow=1.0, slow="", part=False, kb=False, rep=False, n=4, norm=None)
DIRECTED = [dict(B0, op=op, narrow=True, d=1 + i % 2, c=1 + (op not in PLAIN), batch=1000, tdt="u1", ds=i, grow=0.3) for i, op in enumerate(OPS) if op != "text"]
# hundreds of batches and a wide hidden layer: batches must not become a share of the data
MANY = ["elmtrain", "elmwc", "elmadd", "train", "trainw", "add", "addfile", "predict", "validr", "trainasync", "predictasync"]
DIRECTED += [dict(B0, op=op, narrow=True, d=2, c=2, L=58, batch=b, many=True, ds=i) for i, op in enumerate(MANY) for b in (200,)] + [dict(B0, op=op, narrow=True, d=2, c=2, L=58, batch=100, many=True, ds=5, kb=True) for op in ("elmtrain", "train")]
DIRECTED += [dict(B0, op=op, rep=rep, ds=i, slow=sl) for i, op in enumerate(OPS) for rep, sl in ((False, ""), (True, "")) + (((False, "compute"), (False, "read"), (False, "write")) if "async" in op else ())]
# memory that python does not see (buffers of libraries): resident memory of a process of its own, two files of different size
RSS = ["train", "trainauto", "addfile", "predict", "project", "errorr", "errorc", "errorml", "confc", "confml", "trainasync", "addasync", "predictasync", "validr", "norm", "normgiven", "rbf"]
DIRECTED += [dict(B0, op=op, rss=True, d=90, c=90, batch=200, ds=i) for i, op in enumerate(RSS)]


class Child(object):
    """Peak of traced memory in helper processes and the largest number of rows read or written at once."""
    def __init__(self, case):
        self.mm = mmap.mmap(-1, 16)
        self.case = case
        self.reset()

    def reset(self):
        self.mm[:] = b"\0"*16

    def upd(self, i, v):
        old = struct.unpack_from("q", self.mm, 8*i)[0]
        if v > old:
            struct.pack_into("q", self.mm, 8*i, int(v))

    def peak(self):
        return struct.unpack_from("q", self.mm, 0)[0]

    def __enter__(self):
        P = multiprocessing.process.BaseProcess
        Q = multiprocessing.queues.Queue
        self.run, self.get = P.run, Q.get
        me, main = self, os.getpid()

        def run(p):
            tracemalloc.reset_peak()
            base = tracemalloc.get_traced_memory()[0]
            try:
                me.run(p)
            finally:
                me.upd(0, tracemalloc.get_traced_memory()[1] - base)
        P.run = run

        def get(q, *a, **k):
            if me.case["slow"] == "compute" and os.getpid() == main:
                time.sleep(0.002)
            return me.get(q, *a, **k)
        Q.get = get

        def io(kind, node, key):
            if me.case["slow"] == kind and os.getpid() != main:
                time.sleep(0.005)
        hooks.set_io(io)
        return self

    def __exit__(self, *a):
        multiprocessing.process.BaseProcess.run = self.run
        multiprocessing.queues.Queue.get = self.get
        hooks.set_io(None)


class Job(object):
    """One operation on N rows: files made before, the model ready; call() is the measured part."""
    def __init__(self, case, N, tmp, tag):
        d, c, L = case["d"], case["c"], case["L"]
        op = case["op"]
        self.case, self.N, self.op = case, N, op
        r = g.rs(case["ds"], N)
        X = r.rand(N, d).astype(case["fdt"])
        T = np.zeros((N, c), case["tdt"] or case["fdt"])
        T[np.arange(N), np.arange(N) % c] = 1
        p = lambda n: os.path.join(tmp, "%s_%s.h5" % (tag, n))
        kw = dict(comp_level=case["comp"])
        mode = "wc" if ("wc" in op or "auto" in op or op == "trainw") else "c" if op in ("errorc", "confc", "validc") else "ml" if "ml" in op else ""
        w = np.arange(1.0, c + 1) if mode == "wc" and "auto" not in op else None
        self.mode = mode
        arr = op.startswith("elm")
        batch = case["batch"]
        kb = case["kb"] and op in ("train", "trainw", "trainauto", "elmtrain", "elmwc", "trainasync")
        self.trkw = dict(batch=batch) if kb else {}
        m = self.m = g.new_model(dict(case, cls=mode, w=w), "ELM" if arr else "HPELM", batch=10**6 if kb else batch)
        np.random.seed(3)
        m.add_neurons(L, "tanh")
        m.add_neurons(2, "lin", r.randn(d, 2), np.zeros(2))
        L += 2
        m.nnet.set_B(r.randn(L, c))
        if arr:
            self.X, self.T = X, T
        elif op == "text":
            self.X = p("t")[:-3] + ".txt"
            with open(self.X, "w") as f:
                for i in range(N):
                    f.write(" ".join(["%d.5" % (i % 10)]*d) + "\n")
        else:
            self.X, self.T = g.h5(p("x"), X, **kw), g.h5(p("y"), T, **kw)
        self.out = p("out")
        self.rng = dict(istart=7, icount=N - 11) if case["part"] and op in ("train", "add", "predict", "project", "errorr", "errorc", "errorml", "errorwc", "addasync", "predictasync", "trainasync") else {}
        if op in ("predictarr", "projectarr"):
            self.arr = np.zeros((N, c if op == "predictarr" else L), m.precision)
        if op.startswith("error") or op.startswith("conf"):
            self.Y = g.h5(p("p"), r.rand(N, c), **kw)
        if op.startswith("valid"):
            self.hh, self.ht = p("hh"), p("ht")
            g.h5(self.hh, np.eye(L)*N)
            g.h5(self.ht, r.randn(L, c))
        if op == "addfile":
            self.hh, self.ht = p("hh"), p("ht")
        self.mean, self.std = r.randn(d), 1 + r.rand(d)
        # bytes per row of the narrowest array of rows that could be kept
        fs, ps, ts = np.dtype(case["fdt"]).itemsize, np.dtype(m.precision).itemsize, np.dtype(case["tdt"] or case["fdt"]).itemsize
        t = min(d*fs, c*ts)
        self.row = {"e": L*ps, "t": t, "a": t, "p": min(d*fs, c*ps), "v": t, "n": d*fs, "r": d*fs, "c": c*ts}[op[0]]
        if op.startswith("error"):
            self.row = c*ts
        if op.startswith("project"):
            self.row = min(d*fs, L*ps)
        if op == "text":
            self.row = 8*d
        X = T = None

    def call(self):
        m, op = self.m, self.op
        if op.startswith("train"):
            (m.train_async if op == "trainasync" else m.train)(self.X, self.T, *(("wc",) if self.mode == "wc" else ()), **dict(self.rng, **self.trkw))
        elif op in ("add", "addasync", "addasyncauto", "addfile"):
            if op == "addasyncauto":
                m.wc = None
            if op == "addfile":
                m.add_data(self.X, self.T, fHH=self.hh, fHT=self.ht)
            else:
                (m.add_data if op == "add" else m.add_data_async)(self.X, self.T, **self.rng)
        elif op == "predict":
            m.predict(self.X, self.out, **self.rng)
        elif op == "predictasync":
            m.predict_async(self.X, self.out, **self.rng)
        elif op == "project":
            m.project(self.X, self.out, **self.rng)
        elif op == "predictarr":
            m.predict(self.X, self.arr)
        elif op == "projectarr":
            m.project(self.X, self.arr)
        elif op.startswith("error"):
            m.error(self.T, self.Y, **self.rng)
        elif op.startswith("conf"):
            m.confusion(self.T, self.Y)
        elif op.startswith("valid"):
            np.random.seed(3)
            m2 = g.new_model(dict(self.case, cls=self.mode, w=m.wc), "HPELM", batch=self.case["batch"])
            g.copy_neurons(m, m2)
            m2.validation_corr(self.hh, self.ht, self.X, self.T, steps=4)
        elif op in ("norm", "normgiven", "normdone"):
            if op == "normgiven":
                g.normalize_hdf5(self.X, self.mean, self.std, batch=self.case["batch"])
            else:
                g.normalize_hdf5(self.X, batch=self.case["batch"])
        elif op == "text":
            g.make_hdf5(self.X, self.out, comp_level=self.case["comp"])
        elif op == "rbf":
            from hpelm.modules import rbf_param
            np.random.seed(1)
            rbf_param(self.X, self.case["L"], "l2")
        elif op == "elmadd":
            m.add_data(self.X, self.T)
        else:
            m.train(self.X, self.T, *(("wc",) if op == "elmwc" else ()), **self.trkw)


def measure(job, ch, times=1):
    """(growth of the peak, growth of the retained memory, peak in helpers) of the calls."""
    gc.collect()
    ch.reset()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        for _ in range(times):
            job.call()
        peak = tracemalloc.get_traced_memory()[1] - base
        gc.collect()
        kept = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
    return peak, kept, ch.peak()


def resident(job):
    """Growth of the resident memory (bytes) of a process that runs the call, the largest of its helpers included."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b"fail"
        try:
            os.close(r)
            page = os.sysconf("SC_PAGE_SIZE")
            with open("/proc/self/statm") as f:
                start = int(f.read().split()[1]) * page
            job.call()
            peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss, resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
            out = b"%d %d" % (1024*peak[0] - start, 1024*peak[1] - start)
        except BaseException as e:
            out = repr(e)[:300].encode()
        finally:
            try:
                os.write(w, out)
            finally:
                os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1000)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        a, b = map(int, data.split())
    except ValueError:
        raise RuntimeError("the operation failed in a process of its own: %r" % data)
    return max(0, a), max(0, b)


def run_rss(case, mon, tmp):
    op = case["op"]
    n1, n2 = 20*case["batch"], 20*case["batch"] + 40000
    res = []
    for n, tag in ((n1, "a"), (n2, "b")):
        j = Job(case, n, tmp, tag)
        gc.collect()
        res.append(resident(j))
        del j
    more = (n2 - n1) * 8 * min(case["d"], case["c"])
    for k, who in enumerate(("", " in a helper process")):
        x = res[1][k] - res[0][k]
        mon.ok(x <= more // 2, "%s: the resident memory%s grows by %d bytes for %d more rows, with batches of %d rows (narrowest file: %d bytes more)", op, who, x, n2 - n1, case["batch"], more)
    mon.hit("resident memory compared")
    mon.hit("op " + op)


def run(case, mon, tmp):
    if case.get("rss"):
        return run_rss(case, mon, tmp)
    op = case["op"]
    N1 = case["n"]*case["batch"] + 13
    with Child(case) as ch:
        a = Job(case, N1, tmp, "a")
        measure(a, ch)       # imports, caches
        if case["rep"]:
            k = 12
            if op == "norm":
                op = case["op"] = "normdone"
            _, kept1, _ = measure(a, ch, 2)
            _, kept, _ = measure(a, ch, k)
            lim = 0.5*a.row*case["batch"]*(k - 2) + 40000
            mon.ok(kept - kept1 <= lim, "%s: %d calls keep %d bytes more than 2 calls (a batch of the narrowest rows has %d bytes)", op, k, kept - kept1, a.row*case["batch"])
            mon.hit("retained memory compared")
            mon.hit("op " + op)
            return
        more = int(case["grow"]*700000 / a.row)
        b = Job(case, N1 + more, tmp, "b")
        many = case.get("many")
        if many:
            more = 500*case["batch"]
            b = Job(case, N1 + more, tmp, "b2")
        if op == "normdone":
            b.call()
            a.call()
        elif op == "norm":    # the first file is normalized by now
            a = Job(case, N1, tmp, "a2")
        p1, k1, c1 = measure(a, ch)
        p2, k2, c2 = measure(b, ch)
    lim = 0.5*more*a.row + 200*more//case["batch"]
    if many:      # a few hundred bytes per batch (lists of views), some batches
        lim = 500*more//case["batch"] + 2*a.row*case["batch"] + 50000
        mon.hit("many batches")
    mon.ok(p2 - p1 <= lim, "%s: the peak of memory grows by %d bytes for %d more rows, with batches of %d rows (narrowest array of these rows: %d bytes)", op, p2 - p1, more, case["batch"], more*a.row)
    mon.hit("peaks compared")
    mon.hit("op " + op)
    if "async" in op:
        mon.ok(c2 > 0 or p2 > 0, "no memory observed")
        mon.ok(c2 - c1 <= lim, "%s: the peak of memory in a helper process grows by %d bytes for %d more rows, with batches of %d rows", op, c2 - c1, more, case["batch"])
        if c2 > 0:
            mon.hit("helper peaks compared")
    mon.tag("sizes", (op, case["batch"], case["d"], case["c"]))
