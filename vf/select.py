"""Oracles for model structure selection (C12, C13, C15)."""
import numpy as np
from . import gen as g, oracle as o, hooks


def gen_case(rng, D, ops=("V", "CV", "LOO"), modes=("", "", "c", "wc", "wcauto", "ml"), lmax=20):
    mode = rng.choice(modes)
    N = D.size(rng, 10, 70)
    c = rng.choice([1, 1, 2, 2, 3, 4])
    if rng.random() < 0.06 and mode == "":
        c = rng.choice([9, 10, 11])
    tk = rng.choice(["lincomb", "lincomb", "lincomb", "normal", "corr", "pos"])
    if mode in ("c", "wc", "wcauto"):
        c, tk = max(2, c), rng.choice(["onehot", "skew", "sorted"])
    elif mode == "ml":
        c, tk = max(2, c), "ml"
    L = rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 8, rng.randint(1, lmax), rng.randint(5, lmax)])
    neu, left = [], L
    while left > 0:
        n = rng.randint(1, left) if rng.random() < 0.5 else left
        f = rng.choice(["tanh", "tanh", "sigm", "lin", "rbf_l2", "rbf_l1", "rbf_linf", "np.sin"])
        neu.append([f, n, rng.choice(["given", "given", "given", "f4", "F"]), rng.randrange(1 << 30)])
        left -= n
    return dict(N=N, Nv=rng.choice([2, 5, 10, rng.randint(2, 60)]), d=D.size(rng, 1, 6), c=c, xk=rng.choice(["normal", "normal", "normal", "uniform", "int", "shift", "sparse"]), tk=tk,
                xdt=rng.choice(["f8", "f8", "f8", "f4", "i4"]), tdt=rng.choice(["f8", "f8", "f8", "f4"]) if not mode else rng.choice(["f8", "u1", "i4", "f4"]),
                xlay=rng.choice(g.LAYOUTS), tlay=rng.choice(g.LAYOUTS), x1d=rng.random() < 0.3, t1d=rng.random() < 0.4, ds=rng.randrange(1 << 30),
                prec=rng.choice(["double"]*5 + ["single", "s32", "float64"]), solver=rng.choice(["", "", "basic"]), batch=rng.choice([1000, 1000, 7, 1, N, N - 1]),
                norm=rng.choice([None, 1e-6, 1e-3, 0.1, 0.1, 1.0, 10.0]), neu=neu, mode=mode, op=rng.choice(ops), opp=rng.random() < 0.5,
                kmax=rng.choice([0, 0, 1, 2, 3, 4, 5, rng.randint(1, L + 2)]), k=rng.choice([3, 3, 4, 5, rng.randint(3, 10), N]), ctor=rng.random() < 0.3, up=rng.random() < 0.2,
                noise=rng.choice([0.0, 0.3, 1.0, 3.0]), order=rng.randrange(3), rs=rng.randrange(1 << 20), soft=rng.random() < 0.2, flip=rng.random() < 0.1)


def fix(c):
    g.fix_mode(c)
    if c["mode"] == "ml":
        c["tk"] = "ml"
    c["k"] = min(c["k"], c["N"])
    if c["k"] > 12:
        c["k"] = c["N"] if c["N"] <= 25 else 12
    if c["op"] == "CV" and c["k"] > c["N"] // 2:
        c["k"] = max(3, min(c["k"], c["N"]))
    return c


class Setup(object):
    """Model, data, arguments of one selection run."""
    def __init__(self, case):
        r = g.rs(case["rs"], 5)
        self.r = r
        N, Nv, c = case["N"], case["Nv"], case["c"]
        Xa, Ta = g.make_data(case, N=N + Nv)
        if case["noise"] and Ta.dtype.kind == "f" and not case["mode"]:
            Ta = (Ta + case["noise"]*r.randn(*Ta.shape)).astype(Ta.dtype)
        if case.get("soft") and case["mode"] in ("c", "ml"):
            Ta = g.soften(Ta, g.rs(case["rs"], 6)).astype(Ta.dtype if Ta.dtype.kind == "f" else float)
        self.X, self.T, self.Xv, self.Tv = Xa[:N], Ta[:N], Xa[N:], Ta[N:]
        self.X2, self.T2, self.X2v, self.T2v = map(g.mat, (self.X, self.T, self.Xv, self.Tv))
        self.eps = g.eps_of(case["prec"])
        self.norm = g.norm_of(case)
        mode = case["mode"]
        if mode == "wcauto" and not (self.T2.sum(0) > 0).all():
            mode = "wc"
        self.mode = mode.replace("auto", "")
        self.wc = None
        w = np.round(r.rand(c)*4 + 0.5, 2)
        over, args, self.kw = dict(cls=""), [], {}
        if self.mode:
            flag = self.mode.upper() if case["up"] else self.mode
            if case["ctor"]:
                over["cls"] = flag
                if mode == "wc":
                    over["w"] = w
            else:
                args.append(flag)
                if mode == "wc":
                    self.kw["w"] = w
        if mode == "wc":
            self.wc = w
        elif mode == "wcauto":
            self.wc = o.auto_weights(self.T2)
        self.base = list(args), dict(self.kw), over
        self.model = lambda: g.new_model(case, "ELM", **over)
        self.m = g.add_all(self.model(), case["neu"], case["d"])
        self.L = self.m.nnet.L
        flags = args + [case["op"].lower() if case["up"] else case["op"]]
        self.kmax = self.L
        if case["opp"]:
            flags.append("op" if case["flip"] else "OP")
            if case["kmax"]:
                self.kw["kmax"] = case["kmax"]
                self.kmax = min(self.L, case["kmax"])
        if case["op"] == "V":
            self.kw.update(Xv=self.Xv, Tv=self.Tv)
        elif case["op"] == "CV":
            self.kw["k"] = case["k"]
        self.flags = [flags[i] for i in (r.permutation(len(flags)) if case["order"] else range(len(flags)))]
        self.sw = o.class_weights(self.T2, self.wc) if self.mode == "wc" else None

    def train(self, seed):
        """Runs the selection; (returned value, None) or (None, exception)."""
        np.random.seed(seed % (1 << 31))
        del hooks.shuffles[:]
        return g.call(self.m.train, self.X, self.T, *self.flags, **self.kw)


def columns(m):
    """[(func, W column bytes, b bytes)] for every neuron, in column order."""
    out = []
    for f, W, b in g.groups(m):
        for j in range(W.shape[1]):
            out.append((f, np.ascontiguousarray(W[:, j]).tobytes(), np.asarray(b[j]).tobytes()))
    return out


def match(orig, kept):
    """Indices of the kept neurons among the original ones, each used at most once (None: not a subset)."""
    free = {}
    for i, k in enumerate(orig):
        free.setdefault(k, []).append(i)
    out = []
    for k in kept:
        if not free.get(k):
            return None
        out.append(free[k].pop(0))
    return out


def fold_error(H, T, norm, sw, Hv, Tv, mode, wc, eps, dH, dHv):
    """(error, uncertainty) of the ridge solution on a validation part; uncertainty is inf if the problem is too singular."""
    R = o.Ridge(H, T, norm, eps, sw, dH)
    Y = Hv.dot(R.B)
    if not (R.strict and R.regular):
        return o.error(mode, Tv, Y, wc), np.inf
    dB = R.tol / np.sqrt(max(R.lmax / R.cond, 1e-300))
    nB = np.linalg.norm(R.B)
    dY = np.linalg.norm(Hv, axis=1)*dB + np.linalg.norm(dHv, axis=1)*(nB + dB) + 8*(H.shape[1] + 8)*eps*np.linalg.norm(Hv, axis=1)*nB + 1e-30
    return o.error(mode, Tv, Y, wc), error_tol(mode, Tv, Y, wc, dY)


def error_tol(mode, T, Y, wc, dY):
    """How much the error can change when each predicted row moves by dY."""
    if mode == "":
        d = dY[:, None]
        return float(np.mean(2*np.abs(Y - T)*d + d**2))
    if mode == "ml":
        return float(np.mean(np.abs(Y - 0.5) <= dY[:, None]))
    s = np.sort(Y, axis=1)
    u = (s[:, -1] - s[:, -2]) <= 2*dY
    if mode == "c":
        return float(np.mean(u))
    t, e = T.argmax(1), 0.0
    for i in range(T.shape[1]):
        if (t == i).any():
            e += wc[i]*float(np.mean(u[t == i]))
    return e / float(np.sum(wc))


def visited(lo, hi, J, limit):
    """Sizes that a search by interval halving compares, as far as its decisions are not left to rounding.

    J(n): (penalised error, uncertainty, ...). Yields the quarter points of [lo, hi], then those of the half around the best one, and so on."""
    val = {}
    A, E = lo, hi
    B, C, D = A + (E - A)//4, A + (E - A)//2, A + 3*(E - A)//4
    while True:
        for n in (A, B, C, D, E):
            if n not in val:
                val[n] = J(n)
        v = [val[n] for n in (A, B, C, D, E)]
        if any(not np.isfinite(x[1]) or x[1] > limit for x in v):
            break
        best = min(range(5), key=lambda i: v[i][0])
        n0 = (A, B, C, D, E)[best]
        # the decision has to be clear against all other sizes
        if any(n != n0 and x[0] - x[1] <= v[best][0] + v[best][1] for n, x in zip((A, B, C, D, E), v)):
            break
        if n0 in (A, B):
            E, C = C, B
        elif n0 in (D, E):
            A, C = C, D
        else:
            A, E = B, D
        if E - A <= 2:
            break
        B, D = A + (E - A)//4, A + 3*(E - A)//4
    return val
