"""Generators: cases are flat dicts; arrays and models are deterministic functions of them."""
import numpy as np
from . import hooks
hooks.install()
from hpelm import ELM, HPELM, make_hdf5, normalize_hdf5   # noqa: E402

FUNCS = ["lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"]
UFUNCS = ["np.sin", "np.arctan", "np.cos", "np.tanh", "np.arcsinh", "np.square", "np.absolute", "np.negative", "np.positive"]
XKINDS = ["normal", "uniform", "int", "zeros", "const", "onehot", "big", "tiny", "dup", "scales", "sparse", "shift", "zcol", "dupcol"]
DTYPES = ["f8", "f8", "f8", "f4", "i4", "i8", "u1", "b1", ">f8", "i2", "f2", ">f4", "i1", "u2"]
LAYOUTS = ["C", "C", "F", "step", "rev", "cols", "sub"]
PRECS = ["double", "double", "double", "float64", "s64", "single", "float32", "s32"]
NORMS = [None, None, None, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.5, 1.0, 1.0, 3.0, 10.0, 100.0, 1000.0]


def rs(*seed):
    return np.random.RandomState([int(s) % (1 << 32) for s in seed])


def func_of(name):
    return getattr(np, name[3:]) if name.startswith("np.") else name


def prec_arg(p):
    return {"double": "double", "float64": np.float64, "s64": "64", "single": "single", "float32": np.float32,
            "s32": "32"}[p]


def prec_of(p):
    return np.float32 if p in ("single", "float32", "s32") else np.float64


def eps_of(p):
    return float(np.finfo(prec_of(p)).eps)


def accel(s):
    if s == "basic":
        return "basic"
    if s == "GPU":
        from . import fakecuda
        fakecuda.install()
        return "GPU"
    return None


def layout(A, how, r):
    """The same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(A)
    if how == "step":
        B = np.empty((2*A.shape[0] + 1,) + A.shape[1:], A.dtype)
        B[:] = 77 if A.dtype.kind != "b" else True
        B[1::2] = A
        return B[1::2]
    if how == "rev":
        return np.ascontiguousarray(A[::-1])[::-1]
    if how == "cols" and A.ndim == 2:
        B = np.empty((A.shape[0], 2*A.shape[1]), A.dtype)
        B[:] = 55 if A.dtype.kind != "b" else True
        B[:, ::2] = A
        return B[:, ::2]
    if how == "sub" and A.ndim == 2:
        B = np.zeros((A.shape[0] + 3, A.shape[1] + 2), A.dtype)
        B[1:-2, 1:-1] = A
        return B[1:-2, 1:-1]
    return np.ascontiguousarray(A)


def cast(A, dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return A > 0.5
    if dt.kind == "u":
        return np.clip(np.round(np.abs(A)), 0, 200).astype(dt)
    if dt.kind == "i":
        return np.clip(np.round(A), -100, 100).astype(dt)
    if dt.itemsize == 2:
        return np.clip(A, -6e4, 6e4).astype(dt)
    return A.astype(dt)


def raw_x(kind, N, d, r, scale=1.0):
    if kind == "uniform":
        A = r.rand(N, d)
    elif kind == "int":
        A = r.randint(-3, 4, (N, d)).astype(float)
    elif kind == "zeros":
        A = np.zeros((N, d))
    elif kind == "const":
        A = np.ones((N, d)) * r.randn(1, d)
    elif kind == "onehot":
        A = np.zeros((N, d))
        A[np.arange(N), r.randint(0, d, N)] = 1
    elif kind == "big":
        A = r.randn(N, d) * 1000
    elif kind == "tiny":
        A = r.randn(N, d) * 1e-3
    elif kind == "dup":
        A = r.randn(max(1, N // 4), d)[r.randint(0, max(1, N // 4), N)]
    elif kind == "scales":
        A = r.randn(N, d) * 10.0 ** r.randint(-2, 3, d)
    elif kind == "sparse":
        A = r.randn(N, d) * (r.rand(N, d) < 0.2)
    elif kind == "shift":
        A = r.randn(N, d) + 5
    elif kind == "lever":     # a few samples far away
        A = r.randn(N, d)
        k = max(1, N // 400)
        A[:k] *= 10 + 20*r.rand(k, 1)
    elif kind == "zcol":
        A = r.randn(N, d)
        A[:, r.randint(0, d)] = 0
    elif kind == "dupcol":
        A = r.randn(N, d)
        A[:, r.randint(0, d)] = A[:, 0]
    else:
        A = r.randn(N, d)
    return A * scale


def labels(N, c, r, allc=True, skew=False):
    if skew:
        p = np.arange(1, c + 1) ** 2.0
        y = r.choice(c, N, p=p / p.sum())
    else:
        y = r.randint(0, c, N)
    if allc and N >= c:
        y[r.permutation(N)[:c]] = np.arange(c)
    return y


def raw_t(kind, N, c, r, X=None, allc=True):
    if kind == "onehot" or kind == "skew":
        T = np.zeros((N, c))
        T[np.arange(N), labels(N, c, r, allc, kind == "skew")] = 1
    elif kind == "sorted":    # blocks of one class
        T = np.zeros((N, c))
        T[np.arange(N), np.sort(labels(N, c, r, allc))] = 1
    elif kind == "ml":
        T = (r.rand(N, c) < 0.4).astype(float)
    elif kind == "lincomb" and X is not None:
        T = np.tanh(X.astype(float).dot(r.randn(X.shape[1], c)) / 2) + 0.1*r.randn(N, c)
    elif kind == "int":
        T = r.randint(-4, 5, (N, c)).astype(float)
    elif kind == "zeros":
        T = np.zeros((N, c))
    elif kind == "const":
        T = np.ones((N, c)) * (1 + np.arange(c))
    elif kind == "pos":
        T = r.rand(N, c)
    elif kind == "corr":
        T = r.randn(N, 1) * r.randn(1, c) + 0.01*r.randn(N, c)
    elif kind == "big":
        T = 1000*r.randn(N, c) + 500
    else:
        T = r.randn(N, c)
    return T


HUGE = [2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 10000, 10001, 12289, 16384, 16385, 20001]


def huge_n(rng, D):
    """Thousands of samples: around powers of two, round numbers and the constants of the code."""
    c = [k*v + e for v in D.ints if v > 50 for k in (1, 2, 3) for e in (-1, 0, 1) if 2000 < k*v + e <= 20001]
    return rng.choice(c if c and rng.random() < 0.5 else HUGE + [rng.randint(2000, 12000)])


def gen_data(rng, D, nmax=120, dmax=12, cmax=6, nmin=1, cls=None, pbig=0.03, nbig=2300, phuge=None):
    """Data fields of a case."""
    N = D.size(rng, nmin, nmax)
    p = rng.random()
    if p < pbig:
        N = rng.choice([999, 1000, 1001, 1999, 2000, 2001, 1024, 1025, rng.randint(nmax, nbig)])
    elif p > 1 - (pbig / 4 if phuge is None else phuge):
        N = huge_n(rng, D)
        dmax = cmax = 2
    c = rng.choice([1, 1, 2, 2, 3, rng.randint(1, cmax)])
    d = D.size(rng, 1, dmax)
    if pbig and rng.random() < 0.02:      # many outputs or inputs
        if rng.random() < 0.5:
            c = D.size(rng, cmax, 140 if N < 500 else 10)
        else:
            d = D.size(rng, dmax, 300 if N < 500 else 20)
    tk = rng.choice(["normal", "normal", "lincomb", "lincomb", "int", "zeros", "const", "pos", "corr", "big"])
    if cls in ("c", "wc"):
        c, tk = max(2, c), rng.choice(["onehot", "onehot", "skew", "sorted"])
    elif cls == "ml":
        c, tk = max(2, c), rng.choice(["ml", "ml", "onehot"])
    return dict(N=N, d=d, c=c, xk=rng.choice(XKINDS + ["normal"]*8), tk=tk,
                xdt=rng.choice(DTYPES), tdt=rng.choice(["f8", "f8", "f8", "f4", "i4", "u1", "b1", ">f8", "i8", "f2"]),
                xlay=rng.choice(LAYOUTS), tlay=rng.choice(LAYOUTS), x1d=rng.random() < 0.3, t1d=rng.random() < 0.4,
                ds=rng.randrange(1 << 30))


def make_data(case, N=None, salt=0):
    """(X, T) as the caller passes them: dtype, layout, possibly one-dimensional."""
    r = rs(case["ds"], salt)
    N = case["N"] if N is None else N
    X = cast(raw_x(case["xk"], N, case["d"], r), case["xdt"])
    T = cast(raw_t(case["tk"], N, case["c"], r, X), case["tdt"])
    X, T = layout(X, case["xlay"], r), layout(T, case["tlay"], r)
    if case.get("x1d") and case["d"] == 1:
        X = X[:, 0]
    if case.get("t1d") and case["c"] == 1:
        T = T[:, 0]
    return X, T


def mat(A):
    """Two-dimensional double copy."""
    A = np.array(A, dtype=np.float64)
    return A.reshape(-1, 1) if A.ndim == 1 else A


WMODES = ["auto", "auto", "given", "given", "W", "B", "dup", "zero", "sat", "f4", "F", "step", "int", "spec"]


def gen_neurons(rng, D, lmax=24, ufunc=True, modes=None, funcs=None, pbig=0.05, lbig=130):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4, 6])):
        f = rng.choice(funcs or FUNCS + ["tanh", "sigm", "lin"] + ([rng.choice(UFUNCS)] if ufunc else []))
        n = D.size(rng, 1, lmax)
        out.append([f, n, rng.choice(modes or WMODES), rng.randrange(1 << 30)])
    if rng.random() < pbig:
        out[rng.randrange(len(out))][1] = rng.choice([64, 65, 100, 128, 129, rng.randint(lmax, lbig)])
    return out


def special_weights(d, n, r, kind):
    """Matrices that resemble simple ones: a shortcut for identities, diagonals, equal columns, ... must not take them for those."""
    W = np.eye(d, n)
    k = min(d, n)
    off = r.permutation(n)[:2]
    if kind == 0 or k < 2:        # identity (selects inputs)
        pass
    elif kind == 1:      # other inputs, or another order
        W = W[r.permutation(d)]
    elif kind == 2:      # trace and sum of an identity
        W[0, 1], W[1, 0] = 0.5, -0.5
    elif kind == 3:      # ... and squares of the columns
        W[:2, :2] = [[1, 1], [-1, 1]]
    elif kind == 4:      # diagonal, other values
        W[0, 0], W[1, 1] = 2, 0
    elif kind == 5:      # a single value outside the diagonal
        W[d - 1, off[0]] += 1e-3
    elif kind == 6:
        W = np.ones((d, n))
        W[r.randint(d), off[0]] = 1 + 1e-3
    elif kind == 7:      # every column has sum zero
        W = np.round(r.randn(d, n)*2)
        W[0] -= W.sum(0)
    elif kind == 8:      # zero but for one value
        W = np.zeros((d, n))
        W[r.randint(d), off[0]] = 1
    else:                # triangular
        W = np.triu(np.round(r.randn(d, n)*2))
        W[np.arange(k), np.arange(k)] = 1
    return W


def neuron_arrays(d, spec):
    """(number, W or None, B or None) to call add_neurons with."""
    f, n, mode, seed = spec
    r = rs(seed, 7)
    if f == "lin" and mode in ("auto", "B") and n > d:
        if mode == "B":
            n = d   # W is reduced to the number of inputs, B has to fit
    W = r.randn(d, n)
    if f.startswith("rbf"):
        B = (0.2 + np.abs(r.randn(n))) * d
    else:
        B = r.randn(n)
    if mode == "dup":
        W[:, 1::2] = W[:, :W[:, 1::2].shape[1] * 2:2][:, :W[:, 1::2].shape[1]]
        B[1::2] = B[:len(B[1::2]) * 2:2][:len(B[1::2])]
    elif mode == "zero":
        W = np.zeros((d, n))
    elif mode == "sat":
        W = W * 20
    elif mode == "small":     # function values near zero
        W = W * 10.0**-r.randint(3, 12)
        if not f.startswith("rbf"):
            B = np.zeros(n)
    elif mode == "f4":
        W, B = W.astype("f4"), B.astype("f4")
    elif mode == "F":
        W = np.asfortranarray(W)
    elif mode == "step":
        W2, B2 = np.zeros((d, 2*n)), np.zeros(2*n)
        W2[:, ::2], B2[::2] = W, B
        W, B = W2[:, ::2], B2[::2]
    elif mode == "int":
        W = np.round(2*W).astype(int)
        B = np.maximum(np.round(2*B), 1 if f.startswith("rbf") else -9).astype(int)
    elif mode.startswith("spec"):
        W = special_weights(d, n, r, int(mode[4:] or r.randint(10)))
        if r.randint(3) == 0:
            B = np.ones(n) if f.startswith("rbf") or r.randint(2) else np.zeros(n)
    if mode in ("auto", "B"):
        W = None
    if mode in ("auto", "W"):
        B = None
    return n, W, B


def add_all(model, neurons, d):
    for spec in neurons:
        n, W, B = neuron_arrays(d, spec)
        np.random.seed(spec[3] % (1 << 31))
        model.add_neurons(n, func_of(spec[0]), W, B)
    return model


def tprint(case):
    """Interval of the progress reports: never, always, the default."""
    return (1e9, 0, -1, 5, 1e-4)[case.get("ds", case.get("ss", 0)) % 5]


def new_model(case, klass="ELM", **over):
    p = dict(d=case["d"], c=case["c"], prec=case.get("prec", "double"), solver=case.get("solver", ""),
             batch=case.get("batch", 1000), norm=case.get("norm"), cls=case.get("cls", ""), w=case.get("w"))
    p.update(over)
    kw = {}
    if p["cls"]:
        kw["classification"] = p["cls"]
    if p["w"] is not None:
        kw["w"] = p["w"]
    M = {"ELM": ELM, "HPELM": HPELM}[klass]
    return M(p["d"], p["c"], batch=p["batch"], accelerator=accel(p["solver"]), precision=prec_arg(p["prec"]),
             norm=p["norm"], tprint=tprint(case), **kw)


def gen_batch(rng, N):
    if N > 2000:
        return rng.choice([1000, 1000, 777, 2048, N, N + 1, N - 1, N // 2, (N + 1) // 2, N // 3, rng.randint(500, N + 1)])
    return rng.choice([1000, 1000, 1, 2, 3, 7, max(1, N), N + 1, max(1, N - 1), max(1, N // 2), max(1, N // 3), rng.randint(1, N + 1),
                       max(1, (N + 1) // 2)])


def gen_cfg(rng, N):
    return dict(prec=rng.choice(PRECS), solver=rng.choice(["", "", "basic"]), batch=gen_batch(rng, N), norm=rng.choice(NORMS))


def copy_neurons(src, dst):
    """Gives dst the very neurons of src (through the documented interface)."""
    for n, f, W, B in src.nnet.get_neurons():
        if n:
            dst.add_neurons(int(n), f, np.array(W, dtype=np.float64), np.array(B, dtype=np.float64))
    return dst


def h5(path, A, dtype=None, node="data", **kw):
    """Data file written by the toolbox."""
    A = np.asarray(A)
    make_hdf5(A, path, dtype=np.dtype(dtype or A.dtype).newbyteorder("="), **kw)
    return path


def read_h5(path):
    """Independent reader: (values, dtype, number of nodes, shape)."""
    import tables
    h = tables.open_file(path, "r")
    try:
        arrs = [n for n in h.walk_nodes() if isinstance(n, tables.Array)]
        return (arrs[0].read() if arrs else None), len(arrs)
    finally:
        h.close()


def h_of(model, X, eps):
    """(H, dH): the model's own hidden layer of the data, and its elementwise rounding uncertainty."""
    from . import oracle as o
    X = mat(X)
    H = np.asarray(model.project(X), dtype=np.float64)
    grp = [(f if isinstance(f, str) else "np." + f.__name__, W, b) for n, f, W, b in model.nnet.get_neurons() if n]
    t = o.hidden(X, grp, eps)[1]
    return H, np.where(np.isfinite(t), 2*t, 0) + 2*eps*np.abs(H)


def soften(T, r):
    """Class memberships in place of 0 and 1, the same classes."""
    return np.where(np.asarray(T) > 0.5, 0.55 + 0.45*r.rand(*T.shape), 0.45*r.rand(*T.shape))


def fix_mode(c, mode=None):
    """Targets that fit a classification mode."""
    m = (c["mode"] if mode is None else mode).replace("auto", "")
    if m:
        c["c"] = max(2, c["c"])
        if c["tk"] not in ("onehot", "skew", "sorted", "ml"):
            c["tk"] = "onehot"
        if m == "wc" and c["tk"] == "ml":
            c["tk"] = "skew"
        if m == "c" and c["tk"] == "ml":
            c["tk"] = "onehot"
    return c


def snap(m, corr=True):
    """Observable state of a model: {name: value}, arrays as (dtype, shape, bytes)."""
    def a(x):
        if x is None:
            return None
        x = np.asarray(x)
        return (str(x.dtype), x.shape, x.tobytes())
    s = dict(inputs=m.nnet.inputs, outputs=m.nnet.outputs, norm=float(m.nnet.norm), cls=m.classification, wc=a(m.wc), batch=m.batch,
             B=a(m.nnet.get_B()), text=str(m), prec=str(np.dtype(m.precision)), nnet=type(m.nnet).__name__,
             neurons=[(int(n), f if isinstance(f, str) else f.__name__, a(W), a(b)) for n, f, W, b in m.nnet.get_neurons()])
    if corr:
        try:
            HH, HT = m.nnet.get_corr()
            s["corr"] = (a(HH), a(HT))
        except Exception:
            s["corr"] = None
    return s


def diff(a, b):
    """Names of the parts in which two snapshots differ."""
    return [k for k in a if a[k] != b.get(k)]


def groups(m, full=False):
    """[(func name, W, B)] of the non-empty neuron groups of a model."""
    return [(f if isinstance(f, str) else "np." + f.__name__, np.asarray(W), np.asarray(b)) for n, f, W, b in m.nnet.get_neurons() if n]


def pred_tol(H, dH, B, eps):
    """Rounding bound of predictions H.B computed in either way."""
    B = np.abs(np.asarray(B, dtype=np.float64))
    return 8*(H.shape[1] + 8)*eps*np.abs(H).dot(B) + dH.dot(B) + (1e-290 if eps < 1e-10 else 1e-30)*(1 + B.sum(0))


def norm_of(case):
    return case["norm"] if case["norm"] is not None else 50 * eps_of(case["prec"])


def call(f, *a, **k):
    """(result, None) or (None, exception)."""
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e
