"""C27: several models run interleaved, in threads and in forked processes, against each of them run alone."""
import gc, math, os, pickle, random, sys, threading, time
import numpy as np
from ..core import Inconclusive
from .. import gen as g
from .c19 import bits
from hpelm import ELM

ID, LEVEL, QUICK_S = "C27", "exploration", 18
RULE = ("2-4 models with random programs of 3-9 operations on shared data arrays, some loaded from one saved model; each program is run alone twice (bit-identical), then all together: interleaved at random in one "
        "thread, in threads under a line-level token schedule (every line of hpelm is a switching point), in free-running threads, or partly in forked children; after every operation the state of each model and "
        "every result is compared bit by bit with the run alone; non-trivial: an interleaved run compared")
OPS = ["train", "train", "trainc", "trainw", "trainml", "data", "predict", "predict", "project", "error", "confusion", "neurons", "setB", "prune", "solve", "str", "selV", "selOP", "selLOO", "selCV",
       "auto", "file", "saveload", "loads", "vcorr", "corrread", "norm", "reset"]
RANDOM = ("auto", "selV", "selLOO", "selCV")       # draw from numpy's global random state
FILES = ("file", "saveload", "vcorr")
REQUIRE = ["op " + k for k in sorted(set(OPS))] + ["schedule " + k for k in ("inter", "token", "free", "fork")] + ["runs alone repeated bit by bit", "thread switches", "models loaded from one saved model", "results compared",
                                                                                                               "states compared", "children compared", "GPU solver models", "models used in the middle of an operation"]


NEST_A = ["train", "train", "adddata", "predict", "project", "vcorr", "async", "predasync", "err"]
NEST_B = ["new", "predict", "train", "error", "fail", "save", "vcorr", "keep"]


def gen(rng, D):
    if rng.random() < 0.05:
        return dict(B0, N=rng.randint(4, 20), c=rng.randint(1, 3), tk="lincomb", ds=rng.randrange(1 << 30), ss=rng.randrange(1 << 30), kind="nest", a=[rng.choice(NEST_A) for _ in range(rng.randint(1, 4))],
                    b=[rng.choice(NEST_B) for _ in range(rng.randint(1, 4))], batch=rng.choice([1000, 1, 2, 3, 7]), batch2=rng.choice([1000, 1, 3]), solver=rng.choice(["", "basic"]), every=rng.choice([1, 5, 17, 40]))
    c = g.gen_data(rng, D, nmax=40, dmax=5, cmax=3, pbig=0)
    c["c"], c["tk"], c["xk"] = max(2, c["c"]), "onehot", rng.choice(["normal", "normal", "int", "uniform"])
    c.update(sched=rng.choice(["inter", "inter", "token", "token", "free", "fork"]), common=rng.random() < 0.4, ss=rng.randrange(1 << 30), ps=rng.choice([0.02, 0.1, 0.5]), ops=[], kind="x",
             models=[dict(cl=rng.choice(["ELM", "ELM", "HPELM"]), prec=rng.choice(["double", "double", "single"]), solver=rng.choice(["", "", "basic", "GPU"]), batch=rng.choice([1000, 7, 3, 1]), norm=rng.choice([None, 0.1, 1.0]),
                          cls=rng.choice(["", "", "c", "wc"]), neu=g.gen_neurons(rng, D, lmax=6, pbig=0, modes=["given", "given", "f4", "F"]), ops=[[rng.choice(OPS), rng.randrange(1 << 30)] for _ in range(rng.randint(3, 9))],
                          same=rng.random() < 0.4) for _ in range(rng.randint(2, 4))])
    if rng.random() < 0.3:        # the very same model several times
        for q in c["models"][1:]:
            q.update({k: c["models"][0][k] for k in ("cl", "prec", "solver", "batch", "norm", "cls", "neu")})
    return c


def fix(c):
    if c["kind"] == "nest" or not c["models"]:
        if not {"a", "b", "every", "solver", "batch", "batch2"} <= set(c):
            return dict(NEST0)
        return dict(c, kind="nest", N=min(c["N"], 20), models=[], xk="normal", tk="lincomb", xdt="f8", tdt="f8")
    c["c"], c["tk"], c["N"] = max(2, c["c"]), "onehot", max(9, c["N"])
    return c


M0 = dict(cl="ELM", prec="double", solver="", batch=7, norm=0.1, cls="", neu=[["tanh", 4, "given", 3], ["lin", 2, "given", 5], ["np.sin", 2, "given", 3]], ops=[], same=False)
B0 = dict(N=15, d=3, c=2, xk="normal", tk="onehot", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, sched="inter", common=False, ss=1, ps=0.1, ops=[], kind="x", models=[])
DIRECTED = [dict(B0, sched=sc, common=cm, ss=i, ds=i, models=[dict(M0, cl=cl, solver=sv, prec=pr, batch=[7, 3, 1000][j % 3], neu=[[f, 2 + j % 2, md, e] for f, _, md, e in M0["neu"]] if sm else [["tanh", 3 + j, "given", j], ["rbf_l2", 2, "given", j]],
                                                                   ops=[[op, i + n] for n, op in enumerate(OPS[(7*j + 3*i) % len(OPS):] + OPS[:(7*j + 3*i) % len(OPS)])]) for j in range(3)])
            for i, (sc, cm, sm, cl, sv, pr) in enumerate((sc, cm, sm, cl, sv, pr) for sc in ("inter", "token", "free", "fork") for cm in (False, True) for sm in (True, False)
                                                          for cl, sv, pr in (("ELM", "", "double"), ("HPELM", "basic", "single"), ("ELM", "GPU", "double")))]

NEST0 = dict(B0, N=9, c=2, tk="lincomb", kind="nest", a=["train"], b=["new"], batch=2, batch2=3, solver="", every=7)
DIRECTED += [dict(B0, N=9, c=2, tk="lincomb", kind="nest", a=[a], b=[b], batch=2, batch2=3, solver="", every=7) for a in sorted(set(NEST_A)) for b in NEST_B]


class Prog(object):
    """One model and its operations."""
    def __init__(self, case, i, env, tmp, threads):
        self.case, self.i, self.q, self.env, self.tmp, self.threads = case, i, case["models"][i], env, tmp, threads
        self.k = 0
        self.log = []
        os.makedirs(tmp, exist_ok=True)

    def new(self):
        q = self.q
        over = dict(prec=q["prec"], solver=q["solver"], batch=q["batch"], norm=q["norm"], cls=q["cls"])
        if q["cls"] == "wc":
            over["w"] = self.env["w"]         # shared by all models
        return g.new_model(self.case, q["cl"], **over)

    def start(self):
        self.m = self.new()
        if self.case["common"] and self.q["same"]:
            self.m.loads(self.env["blob"])
        else:
            for spec in self.q["neu"]:
                W, B = self.env["neu"][repr(spec)]         # shared by models with the same neurons
                self.m.add_neurons(W.shape[1], g.func_of(spec[0]), W, B)

    def step(self):
        op, seed = self.q["ops"][self.k]
        self.k += 1
        try:
            r = self.do(op, seed)
        except Inconclusive:
            raise
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, str(e)[:80].replace(self.tmp, ""))
        self.log.append((op, bits(r), g.snap(self.m)))
        return op

    def do(self, op, seed):
        m, E, c = self.m, self.env, self.case["c"]
        hp = self.q["cl"] == "HPELM"
        r = g.rs(seed, 3)
        if self.threads and (op in RANDOM or op in FILES):
            op = ["train", "predict", "data", "project"][r.randint(4)]
        if not self.threads:
            np.random.seed(seed % (1 << 31))
        X, T = (E["X"], E["T"]) if r.randint(3) else (E["X2"], E["T2"])
        tr = m.nnet.get_B() is not None
        L = m.nnet.L
        if op == "train":
            return m.train(X, T)
        if op == "trainc":
            return m.train(X, T, "c")
        if op == "trainw":
            return m.train(X, T, "wc", w=E["w"])
        if op == "trainml":
            return m.train(X, T, "ml")
        if op == "data":
            return m.add_data(X, T)
        if op == "solve":
            m.add_data(X, T)
            return m.nnet.solve()
        if op == "predict":
            return m.predict(X) if tr else None
        if op == "project":
            return m.project(X)
        if op == "error":
            return m.error(T, E["P"][:len(T)])
        if op == "confusion":
            return m.confusion(T, E["P"][:len(T)]) if m.classification else None
        if op == "neurons":
            return m.add_neurons(2, ["tanh", "sigm", "rbf_l1", "lin"][r.randint(4)], E["Wn"], E["Bn"])
        if op == "setB":
            return m.nnet.set_B(r.randn(L, c))
        if op == "prune":
            return m.nnet._prune(np.sort(r.permutation(L)[:max(1, L - 1)]))
        if op == "str":
            return str(m)
        if op == "corrread":
            return [v for v in m.nnet.get_corr() if v is not None]
        if op == "norm":
            m.nnet.norm = float(np.round(r.rand() + 0.1, 3))
            return m.nnet.reset()
        if op == "reset":
            return m.nnet.reset()
        if op.startswith("sel"):
            if hp or L < 2:
                return None
            a, k = dict(selV=(["V"], dict(Xv=E["X2"], Tv=E["T2"])), selOP=(["V", "OP"], dict(Xv=E["X2"], Tv=E["T2"], kmax=max(1, L - 1))), selLOO=(["LOO"], {}), selCV=(["CV"], dict(k=3)))[op]
            return m.train(E["X"], E["T"], *a, **k)
        if op == "auto":
            return m.add_neurons(2, ["tanh", "lin", "rbf_l2", "sigm"][r.randint(4)])
        if op == "loads":
            b = m.dumps()
            m.loads(b)
            return b
        if op == "saveload":
            f = os.path.join(self.tmp, "m")
            m.save(f)
            self.m = self.new()
            self.m.load(f)
            with open(f, "rb") as h:
                return h.read()
        if op == "file":
            if not hp or not tr:
                return None
            f = os.path.join(self.tmp, "y.h5")
            m.predict(E["fX"], f)
            m.project(E["fX"], f + "p")
            m.train(E["fX"], E["fT"])
            return [g.read_h5(f)[0], g.read_h5(f + "p")[0]]
        if op == "vcorr":
            if not hp or L < 3 or m.classification == "wc" and m.wc is None:
                return None
            f = [os.path.join(self.tmp, n) for n in ("HH.h5", "HT.h5")]
            for n in f:
                if os.path.exists(n):
                    os.unlink(n)
            m.add_data(E["fX"], E["fT"], fHH=f[0], fHT=f[1])
            return [np.asarray(v) for v in m.validation_corr(f[0], f[1], X, T, steps=[1, L])[:2]]


class Token(object):
    """Lets one thread run at a time; every line of the library is a point at which another one may be chosen."""
    def __init__(self, n, seed, p):
        self.c = threading.Condition()
        self.rng = random.Random(seed)
        self.p, self.turn, self.alive, self.free, self.trace, self.n = p, 0, list(range(n)), False, [], 0

    def pick(self, i):
        self.turn = self.rng.choice(self.alive)
        if self.turn != i:
            self.n += 1
            self.trace.append(self.turn)
            self.c.notify_all()

    def wait(self, i):
        while self.turn != i and not self.free:
            before = self.n
            if not self.c.wait(5) and self.n == before and self.turn != i:
                self.free = True          # the running thread is blocked by something else
                self.c.notify_all()

    def point(self, i):
        if self.free:
            return
        with self.c:
            if self.rng.random() < self.p:
                self.pick(i)
                self.wait(i)

    def enter(self, i):
        with self.c:
            self.wait(i)

    def leave(self, i):
        with self.c:
            self.alive.remove(i)
            if self.alive and self.turn == i:
                self.pick(i)


def threads(case, progs, mon):
    tok = case["sched"] == "token"
    T = Token(len(progs), case["ss"], case["ps"]) if tok else None
    err = []
    import hpelm
    base = os.path.dirname(hpelm.__file__) + os.sep

    def body(i):
        try:
            if tok:
                def line(frame, event, arg):
                    if event == "line":
                        T.point(i)
                    return line

                def trace(frame, event, arg):
                    return line if frame.f_code.co_filename.startswith(base) else None
                T.enter(i)
                sys.settrace(trace)
            try:
                for _ in progs[i].q["ops"]:
                    progs[i].step()
            finally:
                sys.settrace(None)
                if tok:
                    T.leave(i)
        except BaseException as e:
            err.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if not tok else 0.005)
    try:
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(progs))]
        for t in th:
            t.start()
        for t in th:
            t.join(120)
        if any(t.is_alive() for t in th):
            raise Inconclusive("threads did not end")
    finally:
        sys.setswitchinterval(old)
    if err:
        raise err[0]
    if tok:
        mon.hit("thread switches", T.n)
        mon.tag("thread schedules", T.trace)


def compare(mon, ref, got, i, how):
    mon.ok(len(ref.log) == len(got.log), "model %d ran %d operations alone, %d %s", i, len(ref.log), len(got.log), how)
    for k, (a, b) in enumerate(zip(ref.log, got.log)):
        mon.ok(a[1] == b[1], "model %d, operation %d (%s): the result %s is not that of the same operations alone (%s)", i, k, a[0], how, "%s / %s" % (str(b[1])[:80], str(a[1])[:80]))
        d = g.diff(a[2], b[2])
        mon.ok(not d, "model %d, after operation %d (%s): %s differ %s from the same operations alone", i, k, a[0], d, how)
        mon.hit("states compared")
        mon.hit("results compared")


def nest(case, mon, tmp):
    """A custom neuron function is called in the middle of an operation of a model, and uses other models meanwhile."""
    N, d, c = case["N"], case["d"], case["c"]
    r = g.rs(case["ds"], 4)
    X, T, W, Bi = r.randn(N, d), r.randn(N, c), r.randn(d, 2), r.randn(2)
    P = lambda *n: os.path.join(tmp, *n)
    fX, fT = g.h5(P("X.h5"), X), g.h5(P("T.h5"), T)
    gX, gT = g.h5(P("X2.h5"), r.randn(5, d)), g.h5(P("T2.h5"), r.randn(5, c))
    S = dict(on=False, n=0, busy=False, kept=[], k=0)

    def other():
        m = g.new_model(case, "HPELM", batch=case["batch2"], solver="", norm=0.1, cls="")
        m.add_neurons(3, "tanh", np.ones((d, 3)), np.arange(3.0))
        m.nnet.set_B(np.ones((3, c)))
        return m

    def meanwhile():
        for b in case["b"]:
            m = other()
            S["k"] += 1
            if b == "keep":
                S["kept"].append(m)
                m.predict(gX)
                if len(S["kept"]) > 2:
                    S["kept"].clear()
            elif b == "predict":
                m.predict(gX, P("o%d.h5" % (S["k"] % 3)))
            elif b == "train":
                m.train(gX, gT)
            elif b == "error":
                m.error(gT, gT)
            elif b == "fail":
                for f, a in ((m.train, (gX, P("none.h5"))), (m.predict, (P("none.h5"), P("o.h5"))), (m.error, (gT, gX) if c != d else (gT, P("none.h5")))):
                    mon.ok(g.call(f, *a)[1] is not None, "an unsuitable file is accepted")
            elif b == "save":
                m.save(P("m.pkl"))
                m.load(P("m.pkl"))
            elif b == "vcorr":
                for f in ("H2.h5", "T3.h5"):
                    if os.path.exists(P(f)):
                        os.unlink(P(f))
                m.add_data(gX, gT, fHH=P("H2.h5"), fHT=P("T3.h5"))
                m.validation_corr(P("H2.h5"), P("T3.h5"), gX, gT, steps=[1, 3])
            del m
            gc.collect()

    def fun(v):
        if S["on"] and not S["busy"]:
            S["n"] += 1
            if S["n"] % case["every"] == 1 % case["every"]:
                S["busy"] = True
                try:
                    meanwhile()
                finally:
                    S["busy"] = False
        return math.sin(v)
    F = np.frompyfunc(fun, 1, 1)

    def program(tag, on):
        m = g.new_model(case, "HPELM", batch=case["batch"], solver=case["solver"], norm=0.1, cls="")
        m.add_neurons(2, F, W, Bi)
        m.add_neurons(2, "tanh", W, Bi)
        m.nnet.set_B(np.ones((4, c)))
        S.update(on=on, n=0)
        out = []
        os.mkdir(P(tag))
        try:
            for k, a in enumerate(case["a"]):
                y = P(tag, "y%d.h5" % k)
                if a == "train":
                    v, e = g.call(m.train, fX, fT)
                elif a == "adddata":
                    v, e = g.call(m.add_data, fX, fT, fHH=P(tag, "HH.h5"), fHT=P(tag, "HT.h5"))
                elif a == "predict":
                    v, e = g.call(m.predict, fX, y)
                elif a == "project":
                    v, e = g.call(m.project, fX, y)
                elif a == "async":
                    v, e = g.call(m.train_async, fX, fT)
                elif a == "predasync":
                    v, e = g.call(m.predict_async, fX, y)
                elif a == "err":
                    v, e = g.call(lambda: m.error(T, m.predict(fX)))
                elif a == "vcorr":
                    if not os.path.exists(P(tag, "HH.h5")):
                        m.add_data(fX, fT, fHH=P(tag, "HH.h5"), fHT=P(tag, "HT.h5"))
                    if m.nnet.L < 4:
                        continue
                    v, e = g.call(lambda: [np.asarray(q) for q in m.validation_corr(P(tag, "HH.h5"), P(tag, "HT.h5"), fX, fT, steps=[2, 4])[:2]])
                if e is not None:
                    from ..core import env_failure
                    if env_failure(e):
                        raise Inconclusive(repr(e)[:200])
                mon.ok(e is None, "%s fails%s: %s", a, " when other models are used meanwhile" if on else "", repr(e)[:300])
                out.append((a, bits(v), bits(g.read_h5(y)[0]) if os.path.exists(y) else None, bits(m.nnet.get_B()), bits([q for q in m.nnet.get_corr() if q is not None])))
        finally:
            S["on"] = False
        return out
    ref = program("a", False)
    got = program("b", True)
    for k, (p, q) in enumerate(zip(ref, got)):
        mon.ok(p == q, "operation %d (%s): results change when other models are used in the middle of it", k, p[0])
    mon.hit("models used in the middle of an operation", S["k"])
    mon.hit("results compared")


def run(case, mon, tmp):
    if case["kind"] == "nest":
        return nest(case, mon, tmp)
    X, T = g.make_data(case)
    X2, T2 = g.make_data(case, salt=2, N=6)
    r = g.rs(case["ds"], 9)
    env = dict(X=X, T=T, X2=X2, T2=T2, P=g.mat(T) + 0.4*r.randn(len(T), case["c"]), w=np.arange(1, case["c"] + 1) * 0.7, Wn=r.randn(case["d"], 2), Bn=r.rand(2) + 0.5)
    env["neu"] = {repr(s): [v if v is not None else r.rand(s[1]) + 0.5 for v in g.neuron_arrays(case["d"], s)[1:]] for q in case["models"] for s in q["neu"]}
    env["fX"], env["fT"] = g.h5(os.path.join(tmp, "X.h5"), g.mat(X)), g.h5(os.path.join(tmp, "T.h5"), g.mat(T))
    src = g.new_model(case, "ELM", norm=0.3)
    src.add_neurons(3, "tanh", r.randn(case["d"], 3), r.randn(3))
    src.train(g.mat(X), g.mat(T), "wc", w=env["w"])
    env["blob"] = src.dumps()
    s0 = g.snap(src)
    if case["common"] and sum(q["same"] for q in case["models"]) > 1:
        mon.hit("models loaded from one saved model")
    n = len(case["models"])
    sched = case["sched"]
    thr = sched in ("token", "free")

    def alone(tag):
        out = []
        for i in range(n):
            p = Prog(case, i, env, os.path.join(tmp, tag + str(i)), thr)
            p.start()
            for _ in p.q["ops"]:
                p.step()
            out.append(p)
        return out
    ref = alone("a")
    for q in case["models"]:
        for op, _ in q["ops"]:
            mon.hit("op " + op)
        if q["solver"] == "GPU":
            mon.hit("GPU solver models")
    again = alone("b")
    for i in range(n):
        compare(mon, ref[i], again[i], i, "repeated")
    mon.hit("runs alone repeated bit by bit")
    progs = [Prog(case, i, env, os.path.join(tmp, "c%d" % i), thr) for i in range(n)]
    for p in progs:
        p.start()
    mon.hit("schedule " + sched)
    rng = random.Random(case["ss"])
    if thr:
        threads(case, progs, mon)
    else:
        todo = [i for i in range(n) for _ in case["models"][i]["ops"]]
        rng.shuffle(todo)
        mon.tag("interleavings", todo)
        cut = rng.randrange(len(todo)) if sched == "fork" else -1
        snaps = [g.snap(p.m) for p in progs]
        pids = []
        for j, i in enumerate(todo):
            if j == cut:
                for c in range(2):
                    out = os.path.join(tmp, "child%d" % c)
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            rest = list(todo[j:])
                            random.Random(case["ss"] + 1 + c).shuffle(rest)
                            for p in progs:
                                p.tmp = os.path.join(tmp, "f%d_%d" % (c, p.i))
                                os.makedirs(p.tmp, exist_ok=True)
                            for k in rest:
                                progs[k].step()
                            with open(out, "wb") as f:
                                pickle.dump([p.log for p in progs], f)
                            code = 0
                        finally:
                            os._exit(code)
                    pids.append((pid, out))
                if rng.random() < 0.5:
                    for pid, _ in pids:
                        os.waitpid(pid, 0)
                    pids = [(0, o) for _, o in pids]
            progs[i].step()
            for k, p in enumerate(progs):
                if k != i:
                    d = g.diff(snaps[k], g.snap(p.m))
                    mon.ok(not d, "operation %r on model %d changed model %d: %s", progs[i].log[-1][0], i, k, d)
            snaps[i] = g.snap(progs[i].m)
        for pid, out in pids:
            if pid:
                os.waitpid(pid, 0)
            if not os.path.exists(out):
                raise Inconclusive("no result from a child process")
            with open(out, "rb") as f:
                logs = pickle.load(f)
            for i, p in enumerate(progs):
                q = Prog(case, i, env, p.tmp, thr)
                q.log = logs[i]
                compare(mon, ref[i], q, i, "in a forked process")
            mon.hit("children compared")
    for i in range(n):
        compare(mon, ref[i], progs[i], i, dict(inter="interleaved with other models", token="in threads", free="in threads", fork="interleaved, with forked children")[sched])
    d = g.diff(s0, g.snap(src))
    mon.ok(not d, "operations on models loaded from a saved model changed its source: %s", d)
