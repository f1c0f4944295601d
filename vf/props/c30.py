"""C30: progress reports: what is printed against the batches really done and the (shifted) clock; no effect on results."""
import io, os, re, sys, time
import multiprocessing.queues
import numpy as np
from .. import gen as g, hooks

ID, LEVEL, QUICK_S = "C30", "exploration", 12
RULE = ("operations on files with random batch sizes, ranges and reporting intervals, where every batch takes a random time of the clock that the library reads; "
        "non-trivial: the printed reports were compared with the batches done and the clock, the results with those of a silent run")
OPS = ["train", "trainwc", "add", "addfile", "predict", "predictmem", "project", "validation", "trainasync", "addasync", "predictasync"]
REQUIRE = ["op " + o for o in OPS] + ["reports compared", "silent runs", "results compared"]
LINE = re.compile(r"processing batch (-?\d+)/(-?\d+), eta (-?\d+):(-?\d+):(-?\d+)")


def gen(rng, D):
    N = D.size(rng, 1, 60)
    i = rng.choice([0, 0, 0, rng.randrange(N)])
    return dict(op=rng.choice(OPS), N=N, batch=rng.choice([1, 2, 3, 5, 7, N, N + 1, max(1, N // 2), max(1, N // 3)]), i=i, n=rng.choice([-1, -1, rng.randint(1, N), 10*N]),
                tp=rng.choice([-1, 0, 0, 1, 5, 5, 60, 1000, 3600, 1e9]), step=rng.choice([0, 0.3, 1, 2, 7, 100, 4000]), vary=rng.random() < 0.6, ds=rng.randrange(1 << 20),
                solver=rng.choice(["", "basic"]), prec="double", d=3, c=2, norm=None)


def fix(c):
    c["i"] = min(c["i"], c["N"] - 1)
    return c


B0 = dict(N=20, batch=3, i=0, n=-1, step=2, vary=False, solver="", prec="double", d=3, c=2, norm=None)
DIRECTED = [dict(B0, op=op, tp=tp, step=st, batch=b, ds=i, vary=st == 4000) for i, op in enumerate(OPS) for tp, st, b in ((0, 2, 3), (-1, 0, 1), (5, 2, 3), (5, 4000, 4), (1e9, 7, 2), (3, 10, 20), (60, 100, 1))]


class Clock(object):
    """Every batch takes a known time: the clock moves when a batch of X is read (or received from a helper)."""
    def __init__(self, case, fx):
        self.case, self.fx, self.r = case, fx, g.rs(case["ds"], 9)
        self.on = False
        self.steps = []      # (clock offset after the step)

    def step(self):
        dt = self.case["step"] * (self.r.rand()*2 if self.case["vary"] else 1)
        hooks._clock[0] += dt
        self.steps.append(hooks._clock[0])

    def __enter__(self):
        me, main = self, os.getpid()
        hooks._clock[0] = 0.0
        Q = multiprocessing.queues.Queue
        self.get = Q.get

        def get(q, *a, **k):
            r = me.get(q, *a, **k)
            if os.getpid() == main and isinstance(r, np.ndarray) and r.ndim == 2 and r.shape[1] == me.case["d"]:
                me.step()
            return r
        Q.get = get

        def rd(kind, node, key):
            if os.getpid() == main and kind == "read" and os.path.basename(node._v_file.filename) == me.fx:
                me.step()
        hooks.set_io(rd)
        return self

    def __exit__(self, *a):
        multiprocessing.queues.Queue.get = self.get
        hooks.set_io(None)


class Out(io.StringIO):
    """Standard output that records the clock of every text written."""
    def __init__(self):
        io.StringIO.__init__(self)
        self.at = []

    def write(self, s):
        self.at.append((len(self.getvalue()), hooks._clock[0], s))
        return io.StringIO.write(self, s)


def model(case, tp, wc):
    m = g.HPELM(case["d"], case["c"], batch=case["batch"], accelerator=g.accel(case["solver"]), tprint=tp, **(dict(classification="wc", w=[1, 2]) if wc else {}))
    r = g.rs(case["ds"], 4)
    m.add_neurons(4, "tanh", r.randn(case["d"], 4), r.randn(4))
    m.nnet.set_B(r.randn(4, case["c"]))
    return m


def execute(case, tp, tmp, tag):
    """Runs the operation; returns (result arrays, number of rows handled)."""
    op, N = case["op"], case["N"]
    p = lambda n: os.path.join(tmp, n)
    m = model(case, tp, op == "trainwc")
    kw = {} if (case["i"] == 0 and case["n"] < 0) or op == "validation" else dict(istart=case["i"], icount=case["n"] if case["n"] > 0 else N)
    n = min(kw.get("icount", N), N - kw.get("istart", 0))
    X, T = p("x.h5"), p("t.h5")
    res = []
    if op in ("train", "trainwc"):
        m.train(X, T, **kw)
    elif op == "trainasync":
        m.train_async(X, T, **kw)
    elif op == "add":
        m.add_data(X, T, **kw)
    elif op == "addasync":
        m.add_data_async(X, T, **kw)
    elif op == "addfile":
        m.add_data(X, T, fHH=p(tag + "hh"), fHT=p(tag + "ht"), **kw)
        res = [g.read_h5(p(tag + "hh"))[0], g.read_h5(p(tag + "ht"))[0]]
    elif op in ("predict", "project", "predictasync"):
        f = p(tag + "o.h5")
        {"predict": m.predict, "project": m.project, "predictasync": m.predict_async}[op](X, f, **kw)
        res = [g.read_h5(f)[0]]
    elif op == "predictmem":
        res = [m.predict(X, **kw)]
    else:
        Ls, e, _ = m.validation_corr(p("hh.h5"), p("ht.h5"), X, T, steps=3)
        res = [Ls, e]
    HH, HT = m.nnet.get_corr()
    res += [x for x in (HH, HT, m.nnet.get_B()) if x is not None]
    return [np.array(x) for x in res], n


def run(case, mon, tmp):
    op, N = case["op"], case["N"]
    r = g.rs(case["ds"], 1)
    X = r.randn(N, case["d"])
    T = np.eye(2)[r.randint(0, 2, N)]
    g.h5(os.path.join(tmp, "x.h5"), X)
    g.h5(os.path.join(tmp, "t.h5"), T)
    H = np.tanh(X.dot(r.randn(3, 4)))
    g.h5(os.path.join(tmp, "hh.h5"), H.T.dot(H) + np.eye(4))
    g.h5(os.path.join(tmp, "ht.h5"), H.T.dot(T))
    ref, n = execute(case, 1e9, tmp, "r")
    out, old = Out(), sys.stdout
    with Clock(case, "x.h5") as ck:
        c0 = hooks._clock[1]
        real = time.monotonic()
        sys.stdout = out
        try:
            got, _ = execute(case, case["tp"], tmp, "g")
        finally:
            sys.stdout = old
        used = hooks._clock[1] - c0
    slack = time.monotonic() - real + 0.01
    mon.ok(len(ref) == len(got) and all(a.tobytes() == b.tobytes() for a, b in zip(ref, got)), "%s: results differ from those of a run without reports", op)
    mon.hit("results compared")
    mon.hit("op " + op)
    nb = -(-n // case["batch"])
    # reports with the clock at the time of printing
    text, rep = out.getvalue(), []
    for mt in LINE.finditer(text):
        at = max((v for v in out.at if v[0] <= mt.start()), key=lambda v: v[0])[1]
        rep.append([int(v) for v in mt.groups()] + [at])
    if case["tp"] > 1e8:
        mon.ok(not rep, "%s: %d progress reports within the interval of %g s", op, len(rep), case["tp"])
        mon.hit("silent runs")
        return
    last = 0
    for b, total, h, mi, s, at in rep:
        mon.ok(total == nb, "%s: progress is reported as %d of %d batches, the data has %d", op, b, total, nb)
        mon.ok(last < b <= nb, "%s: batch %d of %d is reported after batch %d", op, b, nb, last)
        mon.ok(h >= 0 and 0 <= mi < 60 and 0 <= s < 60, "%s: remaining time is %d:%d:%d", op, h, mi, s)
        last = b
    mon.hit("reports compared", len(rep))
    if case["tp"] < 0 and used:
        mon.ok(len(rep) == nb, "%s: %d of %d batches are reported with a report after every batch", op, len(rep), nb)
    if not used or len(ck.steps) != nb:
        return mon.hit("clock not consulted")
    steps, t0 = ck.steps, 0.0                    # the clock after each batch
    for b, total, h, mi, s, at in rep:
        mon.ok(abs(at - steps[b - 1]) < 1e-6, "%s: batch %d is reported at %g s, it ended at %g s", op, b, at, steps[b - 1])
        el = at - t0
        e = el / b * (nb - b)
        got = h*3600 + mi*60 + s
        mon.ok(e - 1.01 <= got <= (el + slack) / b * (nb - b) + 1.01, "%s: remaining time after batch %d of %d (%g s) is %d s, expected %g s", op, b, nb, el, got, e)
        mon.hit("remaining times compared")
    # at most one report per interval, and one as soon as a batch ends after an interval without
    prev = t0
    said = {v[0] for v in rep}
    for b in range(1, nb + 1):
        gap = steps[b - 1] - prev
        if b in said:
            mon.ok(gap + slack > case["tp"], "%s: batch %d is reported %g s after the previous report, the interval is %g s", op, b, gap, case["tp"])
            prev = steps[b - 1]
        elif gap > case["tp"] + 1e-3 or case["tp"] < 0:
            mon.ok(False, "%s: batch %d is not reported %g s after the previous report, the interval is %g s", op, b, gap, case["tp"])
