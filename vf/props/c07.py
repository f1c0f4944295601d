"""C07: SIGKILL of a worker at every schedule point outside its update of the shared files."""
import os
import numpy as np
from ..core import close
from .. import gen as g, oracle as o, sched
from . import c06

ID, LEVEL, QUICK_S = "C07", "fault_enumeration", 25
RULE = ("scenarios of 2-3 processes adding parts into shared HH/HT files; the victim is killed with SIGKILL at each of its file / lock operations "
        "in turn (all points except between its first write into an existing file and the close of the second file), under scheduled "
        "interleavings; then files are compared with the exact sum of the parts that count, other workers must succeed, and the part is repeated; "
        "non-trivial: the files were compared after a kill")
REQUIRE = ["kills before the update", "kills after the update", "kills while files were being created", "kills holding a lock", "parts repeated", "solved after a kill"]
CPU_LIMIT = 600
gen0 = c06.gen


def gen(rng, D):
    c = c06.gen(rng, D)
    c.update(k=rng.choice([2, 2, 3]), parts=1, asyn=0, policy=rng.choice(["random", "sticky", "pct"]), skew=False, norm=rng.choice([None, 0.5, 1.0, 3.0]), kills=12)
    return c


fix = c06.fix
DIRECTED = [dict(d, k=2, parts=1, policy=pol, exist=ex, kills=1000, ss=d["ss"] + 7*j) for j, (d, pol, ex) in enumerate(
    (d, p, e) for d in c06.DIRECTED[:2] for p in ("random", "pct", "sticky") for e in (0, 1))]


def window(trace):
    """Indices of points of the victim that lie inside its update: (first write into an existing file, last close of such a file)."""
    first = last = None
    for i, p in enumerate(trace):
        if len(p) > 2 and p[1] in ("HH.h5", "HT.h5") and p[2] != "w" and p[2] != "r":
            if p[0] == "set" and first is None:
                first = i
            if p[0] == "closed" and first is not None:
                last = i
    return first, last


def run(case, mon, tmp):
    eps, X, T, wc, ranges, fx, ft, norm, model = c06.setup(case, tmp)
    fHH, fHT = os.path.join(tmp, "HH.h5"), os.path.join(tmp, "HT.h5")
    H, dH = g.h_of(model(case["batch"]), X, eps)
    rest = list(ranges)
    pre = [rest.pop(0)] if case["exist"] else []
    k = min(case["k"], len(rest))
    if k < 2:
        return
    rest = rest[:k]
    r = g.rs(case["ss"], 5)

    def start():
        for f in os.listdir(tmp):
            if f.startswith("H"):
                os.unlink(os.path.join(tmp, f))
        for a, b in pre:
            model(case["batch"]).add_data(fx, ft, istart=a, icount=b - a, fHH=fHH, fHT=fHT)

    def jobs():
        return [c06.job(case, tmp, model, i, [p], X, T, fx, ft, False) for i, p in enumerate(rest)]
    start()
    R = sched.Run(jobs(), case["ss"], case["policy"]).run()
    c06.verdicts(R.ws, mon, "run without kills")
    n = len(R.ws[0].trace)
    points = list(range(n))
    if n > case["kills"]:
        points = sorted(int(x) for x in r.permutation(n)[:case["kills"]])
    for p in points:
        start()
        # the schedule up to the kill may differ from the first run, so the point's meaning is judged by this run's own trace
        R = sched.Run(jobs(), case["ss"] + (p if case["policy"] == "random" else 0), case["policy"], kill=(0, p)).run()
        v = R.ws[0]
        c06.verdicts(R.ws, mon, "other workers after a kill at %s" % (v.trace[-1],), skip=(0,))
        first, last = window(v.trace)
        if not v.killed:      # ended before reaching that many points
            first, last, done = None, None, True
        else:
            at = len(v.trace) - 1
            wrote = sum(1 for q in v.trace[:-1] if q[0] == "did" and q[1] == "HT.h5" and q[2] not in ("w", "r"))
            closed = [q for q in v.trace if q[0] == "closed" and q[1] == "HT.h5" and q[2] not in ("w", "r")]
            hh = [q for q in v.trace if q[0] == "closed" and q[1] == "HH.h5" and q[2] not in ("w", "r")]
            if first is None or at <= first:
                done = False
            elif wrote and closed and hh:
                done = True
            else:
                mon.hit("points inside the update (not judged)")
                continue
        if v.killed:
            mon.hit("kills after the update" if done else "kills before the update")
            if any(q[0] in ("opened", "set", "did", "close") and len(q) > 2 and q[2] == "w" for q in v.trace[-1:]):
                mon.hit("kills while files were being created")
            held = [q[1] for q in v.trace if q[0] == "locked"]
            for q in v.trace:
                if q[0] == "unlocked" and q[1] in held:
                    held.remove(q[1])
            if held:
                mon.hit("kills holding a lock")
            mon.tag("kill points", v.trace[-1])
        where = "killed at %s (point %d)" % (" ".join(v.trace[-1]), len(v.trace) - 1)
        parts = pre + rest[1:] + ([rest[0]] if done else [])
        idx = np.concatenate([np.arange(a, b) for a, b in parts])
        w = c06.compare_files(mon, tmp, H, dH, T, idx, norm, eps, wc, where)
        if p % 2 == 0:      # others can solve from the files
            d0 = c06.digest(fHH), c06.digest(fHT)
            s = model(case["batch"])
            try:
                s.solve_corr(fHH, fHT)
                v = model(case["batch"])
                v.validation_corr(fHH, fHT, fx, ft, steps=3)
            except Exception as e:
                mon.ok(False, "%s: the files cannot be solved by others: %r", where, e)
            o.Ridge(H[idx], T[idx], norm, eps, w, dH[idx]).check(s.nnet.get_B(), mon, where + ", solution from the files")
            mon.ok((c06.digest(fHH), c06.digest(fHT)) == d0, "%s: solving changed the HH/HT files", where)
            mon.hit("solved after a kill")
        if not done:
            a, b = rest[0]
            model(case["batch"]).add_data(X[a:b], T[a:b], fHH=fHH, fHT=fHT)
            idx = np.concatenate([np.arange(x, y) for x, y in pre + rest])
            c06.compare_files(mon, tmp, H, dH, T, idx, norm, eps, wc, where + ", part repeated")
            mon.hit("parts repeated")
