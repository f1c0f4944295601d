"""A NumPy model of the part of PyCUDA / scikit-cuda that a solver can use, by their documentation: device arrays keep the memory
order of what was copied to them, BLAS calls refuse mixed orders, raw-pointer calls see memory, kernels run over memory."""
import re, sys, types
import numpy as np

STATS = dict(launch=0, gemm=0, syrk=0, copies=0)


class Ptr(object):
    def __init__(self, owner):
        self.owner = owner

    def mem(self):
        """The memory behind the pointer, one-dimensional, in memory order."""
        a = self.owner.a
        return a.reshape(-1) if a.flags.c_contiguous else a.T.reshape(-1)


class GPUArray(object):
    _block = (32, 1, 1)

    def __init__(self, shape=None, dtype=np.float64, a=None, order="C"):
        self.a = np.full(shape, np.nan, dtype=dtype, order=order) if a is None else a

    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)
    flags = property(lambda s: s.a.flags)
    size = property(lambda s: s.a.size)
    strides = property(lambda s: s.a.strides)
    ndim = property(lambda s: s.a.ndim)
    ptr = property(lambda s: Ptr(s))
    gpudata = property(lambda s: Ptr(s))

    def get(self):
        STATS["copies"] += 1
        return self.a.copy(order="K")

    def set(self, v):
        self.a[...] = v

    def fill(self, v):
        self.a[...] = v
        return self

    def copy(self):
        return GPUArray(a=self.a.copy(order="K"))

    def reshape(self, *s):
        return GPUArray(a=self.a.reshape(*s))

    def astype(self, t):
        return GPUArray(a=self.a.astype(t))

    def __len__(self):
        return len(self.a)

    def __getitem__(self, k):
        return GPUArray(a=self.a[k])

    def __setitem__(self, k, v):
        if isinstance(v, GPUArray):
            d = self.a[k]
            if v.dtype != self.dtype:
                raise ValueError("src and dst must have same dtype")
            if v.shape != d.shape:
                raise ValueError("src and dst must have same shape")
            v = v.a
        self.a[k] = v

    def _bin(self, o, f):
        if isinstance(o, GPUArray):
            if o.shape != self.shape:
                raise ValueError("shapes differ")
            o = o.a
        elif np.ndim(o):
            raise TypeError("host array in device arithmetic")
        else:
            o = self.dtype.type(o)
        return GPUArray(a=f(self.a, o))

    def __add__(self, o): return self._bin(o, np.add)
    def __sub__(self, o): return self._bin(o, np.subtract)
    def __mul__(self, o): return self._bin(o, np.multiply)
    def __truediv__(self, o): return self._bin(o, np.divide)
    __radd__, __rmul__ = __add__, __mul__
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return GPUArray(a=-self.a)

    def _inp(self, r):
        self.a[...] = r.a
        return self
    def __iadd__(self, o): return self._inp(self + o)
    def __isub__(self, o): return self._inp(self - o)
    def __imul__(self, o): return self._inp(self * o)
    def __itruediv__(self, o): return self._inp(self / o)


def _dev(*xs):
    for x in xs:
        if not isinstance(x, GPUArray):
            raise TypeError("%s is not a device array" % type(x).__name__)


def to_gpu(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("to_gpu needs a NumPy array")
    STATS["copies"] += 1
    return GPUArray(a=a.copy(order="F" if a.flags.f_contiguous and not a.flags.c_contiguous else "C"))


def empty(shape, dtype=np.float32, order="C", **k):
    return GPUArray(shape, dtype, order=order)


def zeros(shape, dtype=np.float32, order="C", **k):
    return GPUArray(a=np.zeros(shape, dtype=dtype, order=order))


def _forder(x):
    return x.a.ndim == 2 and x.a.strides[1] > x.a.strides[0]


def _op(x, t):
    t = t.upper()
    if t not in "NTC":
        raise ValueError("invalid value for trans")
    return x.a.T if t in "TC" else x.a


def add_dot(a, b, c, transa="N", transb="N", alpha=1.0, beta=1.0, handle=None):
    _dev(a, b, c)
    if not (a.dtype == b.dtype == c.dtype):
        raise ValueError("unsupported combination of input types")
    thin = lambda x: 1 in x.shape
    if _forder(a) != _forder(b) and not (thin(a) or thin(b)):
        raise ValueError("unsupported combination of input order")
    if _forder(b) != _forder(c) and not (thin(b) or thin(c)):
        raise ValueError("invalid order for c_gpu")
    A, B = _op(a, transa), _op(b, transb)
    if A.shape[1] != B.shape[0]:
        raise ValueError("objects are not aligned")
    if c.shape != (A.shape[0], B.shape[1]):
        raise ValueError("invalid shape for c_gpu")
    STATS["gemm"] += 1
    c.a[...] = (alpha*np.dot(A, B) + beta*c.a if beta else alpha*np.dot(A, B)).astype(c.dtype)
    return c


def dot(a, b, transa="N", transb="N", handle=None, out=None):
    _dev(a, b)
    c = GPUArray((_op(a, transa).shape[0], _op(b, transb).shape[1]), a.dtype, order="F" if _forder(a) and _forder(b) else "C") if out is None else out
    return add_dot(a, b, c, transa, transb, 1.0, 0.0)


def eye(N, dtype=np.float32, **k):
    return GPUArray(a=np.eye(N, dtype=dtype))


def _matvec(f):
    def op(x, a, axis=None, out=None, stream=None):
        _dev(x, a)
        n, m = x.shape
        v = a.a.reshape(-1)
        if axis is None:
            axis = 0 if a.ndim == 2 and a.shape[1] == 1 else 1
        if len(v) != (n if axis == 0 else m):
            raise ValueError("vector does not fit the matrix")
        if a.dtype != x.dtype:
            raise ValueError("types differ")
        r = f(x.a, v[:, None] if axis == 0 else v[None, :])
        if out is None:
            return GPUArray(a=np.array(r, order="F" if _forder(x) else "C"))
        out.a[...] = r
        return out
    return op


def _math(f):
    def g(x, out=None, stream=None):
        _dev(x)
        with np.errstate(all="ignore"):
            r = f(x.a)
        if out is None:
            return GPUArray(a=r)
        out.a[...] = r
        return out
    return g


class Function(object):
    def __init__(self, ctype, expr, var):
        self.t = {"double": np.float64, "float": np.float32}[ctype]
        self.expr, self.var = expr, var

    def prepare(self, s, *a, **k):
        pass

    def prepared_call(self, grid, block, ptr, *a, **k):
        STATS["launch"] += 1
        mem = ptr.mem()
        n = grid[0] * block[0]
        v = mem.view(self.t)[:n]       # threads see memory as the type of the kernel
        with np.errstate(all="ignore"):
            v[...] = eval(self.expr, dict(exp=np.exp, expf=np.exp, tanh=np.tanh, sqrt=np.sqrt, a_idx=v.copy())).astype(self.t)


class SourceModule(object):
    def __init__(self, src, **k):
        self.src = src

    def get_function(self, name):
        m = re.search(r"__global__\s+void\s+%s\s*\(\s*(\w+)\s*\*\s*(\w+)\s*\)\s*\{(.*?)\}" % name, self.src, re.S)
        if not m:
            raise RuntimeError("no kernel " + name)
        ctype, var, body = m.groups()
        e = re.search(r"%s\s*\[\s*(\w+)\s*\]\s*=\s*(.*?);" % var, body, re.S)
        expr = re.sub(r"%s\s*\[\s*%s\s*\]" % (var, e.group(1)), "a_idx", e.group(2))
        return Function(ctype, " ".join(expr.split()), var)


def cublasSsyrk(handle, uplo, trans, n, k, alpha, A, lda, beta, C, ldc):
    STATS["syrk"] += 1
    a, c = A.mem(), C.mem()
    if a.dtype != np.float32 or c.dtype != np.float32:
        raise ValueError("single precision routine on other data")
    rows, cols = (n, k) if trans.upper() == "N" else (k, n)
    M = a[:lda*cols].reshape(cols, lda).T[:rows]           # column-major
    if trans.upper() != "N":
        M = M.T
    R = alpha * np.dot(M, M.T)
    Cm = c[:ldc*n].reshape(n, ldc).T[:n]
    mask = np.tril(np.ones((n, n), bool)) if uplo.upper() == "L" else np.triu(np.ones((n, n), bool))
    Cm[mask] = (R + beta*Cm)[mask].astype(np.float32)


def install():
    if "pycuda" in sys.modules:
        return
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        sys.modules[name] = m
        return m
    ga = mod("pycuda.gpuarray", to_gpu=to_gpu, empty=empty, zeros=zeros, GPUArray=GPUArray,
             empty_like=lambda x: GPUArray(x.shape, x.dtype), zeros_like=lambda x: zeros(x.shape, x.dtype))
    cm = mod("pycuda.cumath", **{k: _math(getattr(np, k)) for k in ("tanh", "exp", "log", "sqrt", "sin", "cos", "fabs")})
    ai = mod("pycuda.autoinit")
    co = mod("pycuda.compiler", SourceModule=SourceModule)
    mod("pycuda", gpuarray=ga, cumath=cm, autoinit=ai, compiler=co)
    li = mod("skcuda.linalg", init=lambda *a, **k: None, dot=dot, add_dot=add_dot, eye=eye)
    mi = mod("skcuda.misc", add_matvec=_matvec(np.add), mult_matvec=_matvec(np.multiply), div_matvec=_matvec(np.divide), zeros=zeros, ones=lambda s, dtype=np.float32, **k: GPUArray(a=np.ones(s, dtype)))
    cb = mod("skcuda.cublas", cublasCreate=lambda: 1, cublasDestroy=lambda h: None, cublasSsyrk=cublasSsyrk)
    mod("skcuda", linalg=li, misc=mi, cublas=cb)
