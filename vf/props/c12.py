"""C12: the network left by structure selection against plain training of exactly its neurons."""
from math import comb
import numpy as np
from ..core import close
from .. import gen as g, oracle as o, select as s

ID, LEVEL, QUICK_S = "C12", "exploration", 15
RULE = ("random selections (V / CV / LOO, with and without optimal pruning and kmax, all modes, weights from call / constructor / data, 1-20 neurons of "
        "mixed types, data kinds, solvers, precisions); non-trivial: kept neurons matched to the original ones and the solution compared "
        "with plain training of these neurons and with the exact one")
REQUIRE = ["V selections", "CV selections", "LOO selections", "pruned selections", "kmax selections", "strict least-squares comparisons", "weighted selections",
           "proper subsets", "plain trainings compared", "random choices of neurons"]


def gen(rng, D):
    c = s.gen_case(rng, D)
    if rng.random() < 0.02:
        return dict(B0, op=rng.choice(["V", "CV", "LOO"]), mode=c["mode"], neu=[["tanh", rng.randint(8, 20), "given", rng.randrange(1 << 20)]], noise=rng.choice([0.3, 2.0]), ds=c["ds"], rs=c["rs"],
                    c=c["c"], solver=c["solver"], prec=c["prec"], ctor=c["ctor"], chain=True)
    if rng.random() < 0.25:
        c.update(xk=rng.choice(g.XKINDS), neu=g.gen_neurons(rng, D, lmax=8, pbig=0.02))
    return c


fix = s.fix
B0 = dict(N=30, Nv=12, d=3, c=2, xk="normal", tk="lincomb", xdt="f8", tdt="f8", xlay="C", tlay="C", x1d=False, t1d=False, ds=3, prec="double", solver="", batch=1000,
          norm=0.1, neu=[["tanh", 5, "given", 3], ["lin", 2, "given", 5]], mode="", op="V", opp=False, kmax=0, k=3, ctor=False, up=False, noise=0.3, order=0, rs=4, flip=False)
DIRECTED = [dict(B0, op=op, opp=opp, kmax=km, mode=md, ctor=ct, solver=sv, ds=i) for i, op in enumerate(("V", "CV", "LOO")) for opp, km in ((False, 0), (True, 0), (True, 3), (True, 1))
            for md, ct in (("", False), ("c", True), ("wc", False), ("wc", True), ("wcauto", False), ("ml", False)) for sv in ("", "basic")]
DIRECTED += [dict(B0, op=op, mode=md, neu=[["tanh", 11, "given", 3], ["lin", 2, "given", 5]], noise=2.0, ds=i + 7*j, chain=True) for i, op in enumerate(("V", "CV", "LOO")) for j, md in enumerate(("", "c", "wc", "ml"))]


def chain(case, mon):
    """Without 'OP' the neurons to keep are chosen at random: kept sets of many runs are not parts of one fixed order."""
    sets, L = [], None
    for i in range(24):
        S = s.Setup(dict(case, opp=False, kmax=0, solver=case["solver"]))
        L = S.L
        orig = s.columns(S.m)
        if len(set(orig)) < L:
            return
        _, exc = S.train(case["rs"] + 1000*i)
        if exc is not None:
            return
        ix = s.match(orig, s.columns(S.m))
        mon.ok(ix is not None, "kept neurons are not a subset of the original ones")
        sets.append(frozenset(ix))
    sets.sort(key=len)
    p, nested = 1.0, True
    for a, b in zip(sets, sets[1:]):
        nested = nested and a <= b
        p *= comb(len(b), len(a)) / comb(L, len(a))     # of a random set of this size to lie in the next one
    if p < 1e-9:
        mon.ok(not nested, "%s selection without 'OP' keeps neurons in the same order in %d runs with different seeds of the random generator (sizes %s of %d)",
               case["op"], len(sets), sorted(set(map(len, sets))), L)
        mon.hit("random choices of neurons")


def run(case, mon, tmp):
    if case.get("chain"):
        return chain(case, mon)
    S = s.Setup(case)
    m = S.m
    H0, dH0 = g.h_of(m, S.X2, S.eps)
    Hv = np.asarray(m.project(S.X2v), float)
    if not (np.isfinite(H0).all() and np.isfinite(Hv).all()):
        return
    orig = s.columns(m)
    regular = o.Ridge(H0, S.T2, S.norm, S.eps, S.sw, dH0).regular
    before = g.snap(m)
    _, exc = S.train(case["rs"])
    if exc is not None:
        loo1 = case["op"] == "LOO" and S.L >= case["N"]
        if isinstance(exc, (np.linalg.LinAlgError, AssertionError)) and (not regular or loo1):
            return mon.hit("numerically singular selections")
        raise exc
    kept = s.columns(m)
    ix = s.match(orig, kept)
    mon.ok(ix is not None, "kept neurons are not a subset of the original ones (%d of %d)", len(kept), len(orig))
    mon.ok(len(kept) >= 1, "no neurons are left")
    mon.ok(m.nnet.L == len(kept), "the network has %s neurons, but says %s", len(kept), m.nnet.L)
    if case["opp"]:
        mon.hit("pruned selections")
        if case["kmax"]:
            mon.hit("kmax selections")
            mon.ok(len(kept) <= case["kmax"], "%d neurons kept, kmax is %d", len(kept), case["kmax"])
    mon.hit(case["op"] + " selections")
    if len(kept) < len(orig):
        mon.hit("proper subsets")
    mon.ok(m.classification == (S.mode or None), "mode is %r after selection in mode %r", m.classification, S.mode)
    mon.ok(float(m.nnet.norm) == before["norm"] and type(m.nnet).__name__ == before["nnet"], "norm or solver changed by selection")
    if S.mode == "wc":
        mon.hit("weighted selections")
        mon.ok(m.wc is not None and np.allclose(m.wc, S.wc, rtol=max(1e-12, 4*S.eps)), "class weights are %s after selection, expected %s", m.wc, S.wc)
    # hidden layer is that of the kept neurons
    H, dH = g.h_of(m, S.X2, S.eps)
    close(mon, H, H0[:, ix], 2*dH0[:, ix] + 1e-30, "hidden layer of the kept neurons")
    R = o.Ridge(H, S.T2, S.norm, S.eps, S.sw, dH)
    R.check(m.nnet.get_B(), mon, "network left by selection")
    A, B = m.nnet.get_corr()
    eA, eB = o.corr(H, S.T2, S.norm, S.sw)
    tA, tB = o.corr_tol(H, S.T2, S.norm, S.eps, S.sw, dH)
    close(mon, A, eA, tA, "HH after selection")
    close(mon, B, eB, tB, "HT after selection")
    args, kw, _ = S.base
    p = S.model()
    for f, W, b in g.groups(m):
        p.add_neurons(W.shape[1], g.func_of(f), W, b)
    p.train(S.X, S.T, *args, **kw)
    o.same_fit(R, m.nnet.get_B(), p.nnet.get_B(), mon, "selection and plain training of the kept neurons")
    mon.hit("plain trainings compared")
    Y = np.asarray(m.predict(S.Xv))
    Hv2, dHv = g.h_of(m, S.X2v, S.eps)
    close(mon, Y, Hv2.dot(np.asarray(m.nnet.get_B(), float)), g.pred_tol(Hv2, dHv, m.nnet.get_B(), S.eps), "predictions after selection")
