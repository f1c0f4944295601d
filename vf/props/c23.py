"""C23: the neurons of a model against a list kept beside it."""
import os, re
import numpy as np
from ..core import close
from .. import gen as g, oracle as o

ID, LEVEL, QUICK_S = "C23", "exploration", 15
RULE = ("random sequences of 2-12 operations (additions of all types incl. ufuncs with given / partly given / no parameters in any dtype and layout, trainings, added data, solutions, pruning, "
        "loading, refused additions) on one model of each class and solver; a reference list of neurons is kept; non-trivial: stored neurons compared after an operation")
OPS = ["add"]*6 + ["train", "train", "data", "prune", "load", "fail", "setB", "sel"]
REQUIRE = ["op " + k for k in sorted(set(OPS))] + ["merged additions", "generated lin", "generated rbf", "generated others", "generated biases only", "generated weights only",
                                                   "refused predictions after a change", "hidden layers compared", "lin limited to inputs", "biases of too many linear neurons", "ufunc neurons", "caller's arrays overwritten"]


def gen(rng, D):
    c = g.gen_data(rng, D, nmax=30, dmax=12, cmax=4, pbig=0)
    c.update(g.gen_cfg(rng, c["N"]), solver=rng.choice(["", "", "basic", "GPU"]), cl=rng.choice(["ELM", "HPELM"]),
             ops=[[rng.choice(OPS)] + g.gen_neurons(rng, D, lmax=14, pbig=0.02)[0] for _ in range(rng.randint(2, 12))])
    c["ops"][0][0] = "add"
    return c


B0 = dict(N=12, d=3, c=2, xk="normal", tk="normal", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=7, norm=0.1, cl="ELM", ops=[])
DIRECTED = [dict(B0, cl=cl, solver=s, prec=p, d=d, ops=[["add", f, n, md, 1], ["train", f, 1, md, 1], ["add", f2, 3, md2, 2], ["data", f, 1, md, 2], ["add", f, n, md2, 3], ["setB", f, 1, md, 3], ["add", f, 1, md, 4], ["fail", f, 3, md, 5], ["prune", f, 3, md, 6],
                                                        ["add", f2, 2, md, 7], ["load", f, 2, md, 3], ["add", f, 1, md, 9], ["train", f, 1, md, 3], ["sel", f, 1, md, 4], ["add", f, 2, md, 4]])
            for cl in ("ELM", "HPELM") for s in ("", "basic", "GPU") for p in ("double", "single") for d, n in ((1, 1), (3, 5), (9, 4))
            for f, f2 in (("lin", "tanh"), ("rbf_l1", "lin"), ("sigm", "np.sin"), ("np.absolute", "rbf_linf")) for md, md2 in (("auto", "given"), ("given", "auto"), ("W", "B"), ("int", "W"))]


def fname(f):
    return f if isinstance(f, str) else "np." + f.__name__


class Ref(object):
    def __init__(self, P):
        self.P, self.g = P, []          # [name, W, B] per type, in order of first addition

    def add(self, f, W, B):
        W, B = W.astype(self.P), B.astype(self.P)
        for e in self.g:
            if e[0] == f:
                e[1], e[2] = np.hstack((e[1], W)), np.hstack((e[2], B))
                return True
        self.g.append([f, W, B])
        return False

    @property
    def L(self):
        return sum(e[1].shape[1] for e in self.g)


def stored(m, f):
    for n, f2, W, B in m.nnet.get_neurons():
        if fname(f2) == f:
            return np.array(W), np.array(B)
    return None, None


def check(m, ref, mon, op):
    q = m.nnet.get_neurons()
    mon.ok([fname(e[1]) for e in q] == [e[0] for e in ref.g], "after %s neuron types are %s, expected %s", op, [fname(e[1]) for e in q], [e[0] for e in ref.g])
    for (n, f, W, B), (name, W0, B0) in zip(q, ref.g):
        W, B = np.asarray(W), np.asarray(B)
        mon.ok(n == W0.shape[1], "after %s there are %s %s neurons, expected %d", op, n, name, W0.shape[1])
        mon.ok(W.dtype == ref.P and B.dtype == ref.P, "after %s parameters of %s neurons are %s, %s in a model of %s", op, name, W.dtype, B.dtype, np.dtype(ref.P))
        mon.ok(W.shape == W0.shape and B.shape == B0.shape, "after %s parameters of %s neurons have shapes %s, %s, expected %s, %s", op, name, W.shape, B.shape, W0.shape, B0.shape)
        mon.ok(np.array_equal(W, W0), "after %s weights of %s neurons are not those given", op, name)
        mon.ok(np.array_equal(B, B0), "after %s biases of %s neurons are not those given", op, name)
    mon.ok(m.nnet.L == ref.L, "after %s the model says %s neurons, expected %d", op, m.nnet.L, ref.L)
    s, pos = str(m), 0
    for name, W0, _ in ref.g:
        a = re.compile(r"(?<!\d)%d\b[^\d]*?%s" % (W0.shape[1], re.escape(name.replace("np.", "")))).search(s, pos)
        mon.ok(a is not None, "string form %r after %s does not name %d %s neurons", s, op, W0.shape[1], name)
        pos = a.end()
    mon.ok(re.search(r"\b%d inputs\b.*\b%d outputs\b" % (m.nnet.inputs, m.nnet.outputs), s) is not None, "string form %r does not name inputs and outputs", s)


def run(case, mon, tmp):
    d, c, N = case["d"], case["c"], case["N"]
    P = g.prec_of(case["prec"])
    eps = g.eps_of(case["prec"])
    X, T = g.make_data(case)
    X2, T2 = g.mat(X), g.mat(T)
    m = g.new_model(case, case["cl"])
    ref = Ref(P)
    trained = False
    for op, f, n, mode, seed in case["ops"]:
        q = g.rs(seed, 11)
        if op == "add":
            fn = f
            n2, W, B = g.neuron_arrays(d, [f, n, mode, seed])
            if f == "lin" and mode == "B" and n > d and seed % 2 == 0:      # biases for more linear neurons than there are inputs
                _, e = g.call(m.add_neurons, n, "lin", None, q.randn(n))
                Ls = stored(m, f)[0]
                k0 = sum(e2[1].shape[1] for e2 in ref.g if e2[0] == f)
                mon.ok(e is not None or Ls.shape[1] - k0 <= d, "%s linear neurons in a model of %d inputs", n, d)
                mon.hit("biases of too many linear neurons")
                if e is None:
                    return
            if f == "lin" and W is None and n2 > d:
                mon.hit("lin limited to inputs")
            Wg = None if W is None else W.copy(order="K")
            Bg = None if B is None else B.copy()
            old = stored(m, f)[0]
            k0 = 0 if old is None else old.shape[1]
            m.add_neurons(n2, g.func_of(f), W, B)
            Ws, Bs = stored(m, f)
            mon.ok(Ws is not None, "no %s neurons after adding %d", f, n2)
            mon.ok(Ws.ndim == 2 and Ws.shape[0] == d and Bs.shape == Ws.shape[1:], "added %s neurons have weights %s and biases %s", f, Ws.shape, Bs.shape)
            nw = min(n2, d) if f == "lin" and Wg is None else n2
            mon.ok(Ws.shape[1] - k0 == nw, "%d %s neurons added by asking for %d (%s inputs)", Ws.shape[1] - k0, f, n2, d)
            Wn, Bn = Ws[:, k0:], Bs[k0:]      # behind the existing ones (the existing ones are compared below)
            if Wg is None:
                if f == "lin":
                    mon.ok(np.array_equal(Wn, np.eye(d, nw)), "generated linear neurons do not copy the leading inputs: %s", Wn)
                    mon.hit("generated lin")
                else:
                    mon.ok(bool(np.isfinite(Wn).all()), "generated weights are not finite")
                    mon.ok(2*len(np.unique(Wn)) > Wn.size, "generated weights of %s neurons repeat", f)
                    mon.ok(k0 == 0 or Wn.size < 3 or not np.isin(Wn, Ws[:, :k0]).all(), "generated weights of %s neurons are those of the existing ones", f)
                    mon.hit("generated rbf" if f.startswith("rbf") else "generated others")
                    if Bg is not None:
                        mon.hit("generated weights only")
                Wg = Wn
            if Bg is None:
                if f == "lin":
                    mon.ok(not Bn.any(), "generated biases of linear neurons are %s, expected zeros", Bn)
                else:
                    mon.ok(bool(np.isfinite(Bn).all()) and 2*len(np.unique(Bn)) > Bn.size, "generated biases of %s neurons are %s", f, Bn)
                    if f.startswith("rbf"):
                        mon.ok(bool((Bn > 0).all()), "generated widths of %s neurons are not positive: %s", f, Bn)
                if W is not None:
                    mon.hit("generated biases only")
                Bg = Bn
            if ref.add(f, Wg, Bg):
                mon.hit("merged additions")
            if f.startswith("np."):
                mon.hit("ufunc neurons")
            for A in (W, B):                  # given arrays belong to the caller
                if A is not None:
                    A[...] = 3
                    mon.hit("caller's arrays overwritten")
            if trained:
                mon.hit("refused predictions after a change")
            trained = False
        elif not ref.g:
            continue
        elif op in ("train", "data", "sel"):
            H = np.asarray(m.project(X2), float)
            if not np.isfinite(H).all() or np.abs(H).max(initial=0) > 1e15:
                continue
            if op == "train":
                m.train(X, T)
                trained = True
            elif op == "data":
                m.add_data(X, T)
                if q.randint(2):
                    m.nnet.solve()
                    trained = True
            elif case["cl"] == "ELM" and N >= 6 and ref.L > 2:
                np.random.seed(seed % (1 << 31))
                _, e = g.call(m.train, X[:-2], T[:-2], "V", Xv=X[-2:], Tv=T[-2:])
                if e is not None:
                    if isinstance(e, (np.linalg.LinAlgError, AssertionError)):
                        return
                    raise e
                trained = True
                new = []
                for nn, f2, W, B in m.nnet.get_neurons():    # kept neurons are judged by C12
                    new.append([fname(f2), np.array(W), np.array(B)])
                ref.g = new
            else:
                continue
        elif op == "prune":
            keep = np.sort(q.permutation(ref.L)[:1 + q.randint(ref.L)])
            m.nnet._prune(keep)
            k0 = 0
            for e in ref.g:
                k = e[1].shape[1]
                ix = [i - k0 for i in keep if k0 <= i < k0 + k]
                e[1], e[2] = e[1][:, ix], e[2][ix]
                k0 += k
            q2 = [fname(e[1]) for e in m.nnet.get_neurons()]
            ref.g = [e for e in ref.g if e[1].shape[1] or e[0] in q2]     # empty groups may be kept or not
            trained = False
        elif op == "load":
            blob = m.dumps()
            m = g.new_model(case, case["cl"])
            if q.randint(2):
                m.add_neurons(2, "tanh")
            m.loads(blob)
        elif op == "setB":
            m.nnet.set_B(q.randn(ref.L, c))
            trained = True
        elif op == "fail":
            bad = [(n + 0.5, "tanh", None, None), (n, "tan", None, None), (n, "tanh", q.randn(d, n + 1), None), (n, "sigm", q.randn(d + 1, n), None),
                   (n, "rbf_l1", None, q.rand(n + 1) + 1), (n, "lin", q.randn(d, n), q.rand(n, 1)), (n, "tanh", [[1.0]*n]*d, None), (n, max, None, None), ("3", "tanh", None, None)][q.randint(9)]
            _, e = g.call(m.add_neurons, *bad)
            mon.ok(e is not None, "unsuitable neurons were accepted: %s", bad)
        check(m, ref, mon, op)
        mon.hit("op " + op)
        Y, e = g.call(m.predict, X)
        H = np.asarray(m.project(X2), float)
        if trained:
            if e is not None and np.isfinite(H).all():
                raise e
        else:
            mon.ok(e is not None, "a model predicts after %s without training", op)
            mon.ok(m.nnet.get_B() is None, "a model has output weights after %s without training", op)
        if not trained and op == "add":
            mon.ok(m.nnet.HH is None if not hasattr(m.nnet, "get_corr") else m.nnet.get_corr()[0] is None, "correlation matrices of the old neurons are kept when neurons are added")
        R, tR = o.hidden(X2, [(e[0], e[1], e[2]) for e in ref.g if e[1].shape[1]], eps)
        close(mon, H, R, np.where(np.isfinite(tR), 2*tR, np.inf), "hidden layer after " + op)
        mon.hit("hidden layers compared")
