"""Instrumentation of the libraries hpelm calls (never of hpelm itself): HDF5 files and nodes, file locks, the random
ranking. Wrappers are put into `tables`, `fasteners` and `numpy.random` before hpelm is imported."""
import os, threading

H5 = dict(opened=0, closed=0)   # open / close events of the current case
shuffles = []                   # results of numpy.random.shuffle / permutation calls of the current case
_point = None                   # schedule-point callback (C05-C07)
_io = None                      # HDF5 node access callback (C05)
_dist = None                    # recorded distance computations (C26)
_fault = None                   # fault injection callback (C31): may raise before an operation on a file
_clock = [0.0, 0]               # offset of time.time() in seconds, number of its calls (C30)
_installed = False


def set_dist(lst):
    global _dist
    _dist = lst


def set_point(f):
    global _point
    _point = f


def set_io(f):
    global _io
    _io = f


def set_fault(f):
    global _fault
    _fault = f


def fault(kind, h):
    if _fault is not None:
        _fault(kind, os.path.basename(str(h.filename)))


def point(name, *args):
    f = _point
    if f is not None:
        f(name, *args)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy as np
    import tables
    import tables.file, tables.array

    import sys, time, timeit
    from .core import REPO

    def clock(f, unit):
        def now():
            if not sys._getframe(1).f_code.co_filename.startswith(REPO):
                return f()
            _clock[1] += 1
            return f() + type(unit)(_clock[0]*unit)
        return now
    for name in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(time, name, clock(getattr(time, name), 1.0))
        setattr(time, name + "_ns", clock(getattr(time, name + "_ns"), 10**9))
    timeit.default_timer = time.perf_counter

    orig_open = tables.file.open_file

    def open_file(filename, *a, **k):
        mode = a[0] if a else k.get("mode", "r")
        point("open", str(filename), mode)
        h = orig_open(filename, *a, **k)
        H5["opened"] += 1
        point("opened", str(filename), mode)
        return h
    tables.open_file = open_file
    tables.file.open_file = open_file

    orig_close = tables.File.close

    def close(self):
        if self.isopen:
            name, mode = self.filename, self.mode
            point("close", name, mode)
            r = orig_close(self)
            H5["closed"] += 1
            point("closed", name, mode)
            return r
        return orig_close(self)
    tables.File.close = close

    A = tables.array.Array
    og, os_, orr = A.__getitem__, A.__setitem__, A.read

    def getitem(self, key):
        if _io is not None:
            _io("read", self, key)
        fault("read", self._v_file)
        point("get", self._v_file.filename, self._v_file.mode)
        r = og(self, key)
        point("got", self._v_file.filename, self._v_file.mode)
        return r

    def setitem(self, key, value):
        if _io is not None:
            _io("write", self, key)
        fault("write", self._v_file)
        point("set", self._v_file.filename, self._v_file.mode)
        r = os_(self, key, value)
        point("did", self._v_file.filename, self._v_file.mode)
        return r

    def read(self, start=None, stop=None, step=None, out=None):
        if _io is not None:
            _io("read", self, slice(start, stop, step))
        fault("read", self._v_file)
        point("get", self._v_file.filename, self._v_file.mode)
        return orr(self, start, stop, step, out)
    A.__getitem__, A.__setitem__, A.read = getitem, setitem, read

    import tables.earray
    E = tables.earray.EArray
    append, flush, ca, ea = E.append, tables.File.flush, tables.File.create_carray, tables.File.create_earray

    def append_(self, x):
        fault("write", self._v_file)
        return append(self, x)

    def flush_(self):
        if self.isopen:
            fault("flush", self)
        return flush(self)

    def carray(self, *a, **k):
        fault("create", self)
        return ca(self, *a, **k)

    def earray(self, *a, **k):
        fault("create", self)
        return ea(self, *a, **k)
    E.append, tables.File.flush, tables.File.create_carray, tables.File.create_earray = append_, flush_, carray, earray

    sh, pe = np.random.shuffle, np.random.permutation

    def shuffle(x):
        sh(x)
        shuffles.append([int(v) for v in x] if len(np.shape(x)) == 1 and np.asarray(x).dtype.kind in "iu" else None)

    def permutation(x):
        r = pe(x)
        shuffles.append([int(v) for v in r] if r.ndim == 1 and r.dtype.kind in "iu" else None)
        return r
    np.random.shuffle, np.random.permutation = shuffle, permutation

    import scipy.spatial.distance as ssd
    cd = ssd.cdist

    def cdist(*a, **k):
        r = cd(*a, **k)
        if _dist is not None:
            _dist.append((a, k, r))
        return r
    ssd.cdist = cdist

    oi = os.path.isfile
    oe = os.path.exists

    def isfile(p):
        if _point is not None:
            point("isfile", str(p))
        return oi(p)

    def exists(p):
        if _point is not None:
            point("exists", str(p))
        return oe(p)
    os.path.isfile, os.path.exists = isfile, exists

    def pointed(f, name):
        def g(p, *a, **k):
            if _point is not None:
                point(name, str(p))
            return f(p, *a, **k)
        return g
    os.path.getmtime = pointed(os.path.getmtime, "exists")
    for name in ("remove", "unlink", "rename", "replace"):
        setattr(os, name, pointed(getattr(os, name), "rename"))


def handles():
    """HDF5 files that are open now in this process: list of (name, mode)."""
    import tables
    out = []
    for h in list(tables.file._open_files.handlers):
        out.append((h.filename, h.mode))
    return out


def close_all():
    import tables
    for h in list(tables.file._open_files.handlers):
        h.close()


def case_begin():
    H5["opened"] = H5["closed"] = 0
    del shuffles[:]
    set_point(None)
    set_io(None)
    set_fault(None)
    _clock[0] = 0.0


def case_end():
    set_point(None)
    set_dist(None)
    set_io(None)
    set_fault(None)
    _clock[0] = 0.0
    close_all()
