"""Runs functions in forked processes under a controlled schedule: every process stops at each schedule point (file existence
tests, HDF5 open / close / node access, lock acquire / release - all patched at library level) until it is given the next step.
Optionally kills one process with SIGKILL at a chosen point."""
import os, random, select, signal, time, traceback
from . import hooks
from .core import Violation, Inconclusive, kill_tree, tree, tree_state, env_failure


class W(object):
    pass


def _patch_locks(pt):
    import fasteners
    P = fasteners.InterProcessLock
    acq, rel = P.acquire, P.release
    me = os.getpid()

    def acquire(self, blocking=True, delay=0.01, max_delay=0.1, timeout=None, *a, **k):
        if os.getpid() != me or not blocking:
            return acq(self, blocking, delay, max_delay, timeout, *a, **k)
        path = str(self.path.decode() if isinstance(self.path, bytes) else self.path)
        pt("lock", path)
        while not acq(self, False):
            pt("lockwait", path)
            if timeout is not None and timeout <= 600 and not acq(self, False):     # the holder may be that slow
                return False
            elif timeout is not None and self.acquired:
                break
        pt("locked", path)
        return True

    def release(self):
        path = str(self.path.decode() if isinstance(self.path, bytes) else self.path)
        rel(self)
        if os.getpid() == me:
            pt("unlocked", path)
    P.acquire, P.release = acquire, release


def spawn(fn, free=False, jitter=None):
    """Forks a process that runs fn(); points are announced on a pipe."""
    w = W()
    er, ew = os.pipe()
    gr, gw = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(er)
            os.close(gw)
            me = os.getpid()

            def pt(name, *a):
                if os.getpid() != me:
                    return
                if name in ("isfile", "exists", "open", "opened", "close", "closed", "get", "got", "set", "did", "lock", "lockwait", "rename",
                            "locked", "unlocked"):
                    if free:
                        if name == "lockwait":
                            time.sleep(0.001)
                        elif jitter is not None and jitter.random() < 0.3:
                            time.sleep(jitter.random() * 0.003)
                        return
                    args = [os.path.basename(str(x)) for x in a]
                    os.write(ew, ("P %s %s\n" % (name, " ".join(args))).encode())
                    if not os.read(gr, 1):
                        os._exit(7)
            _patch_locks(pt)
            hooks.set_point(pt)
            pt("open", "start")
            try:
                r = fn()
                hooks.set_point(None)
                msg = "R ok %s" % (r if r is not None else "")
            except Exception as e:
                hooks.set_point(None)
                msg = "R %s %s" % ("env" if env_failure(e) else "fail", (type(e).__name__ + ": " + str(e)[:200] + " || " +
                                   traceback.format_exc()[-500:]).replace("\n", "\\n"))
            os.write(ew, (msg + "\n").encode())
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(ew)
    os.close(gr)
    w.pid, w.er, w.gw, w.buf = pid, er, gw, b""
    w.state, w.at, w.result, w.trace, w.dead, w.killed = "running", None, None, [], False, False
    return w


def spins(w, n):
    """Whether the last n points of a worker are a few ones repeated: it waits for something by polling."""
    return len(w.trace) >= n and len(set(w.trace[-n:])) <= 3


class Run(object):
    """Drives the workers; `choose(ready, step)` picks who goes next; kill=(worker index, point number) kills at that point."""
    def __init__(self, fns, seed, policy="random", kill=None, free=False):
        self.rng = random.Random(seed)
        self.policy, self.kill = policy, kill
        self.free = free
        self.ws = [spawn(f, free, random.Random("%s/%d" % (seed, i)) if free else None) for i, f in enumerate(fns)]
        self.order = []          # (worker, point) in the order given
        self.lockmiss = 0
        self.prio = list(range(len(self.ws)))
        self.rng.shuffle(self.prio)
        self.changes = sorted(self.rng.randrange(1, 150) for _ in range(self.rng.choice([1, 2, 3, 5])))

    def pump(self, w, timeout):
        """Reads one event of a worker. False on timeout."""
        t = time.monotonic() + timeout
        while b"\n" not in w.buf:
            left = t - time.monotonic()
            if left <= 0:
                return False
            r, _, _ = select.select([w.er], [], [], left)
            if not r:
                return False
            d = os.read(w.er, 65536)
            if not d:
                w.state = "done"
                if w.result is None:
                    w.dead = True
                return True
            w.buf += d
        line, w.buf = w.buf.split(b"\n", 1)
        f = line.decode().split(" ")
        if f[0] == "R":
            w.result = (f[1], " ".join(f[2:]))
            w.state = "done"
        else:
            w.at = tuple(f[1:])
            w.trace.append(w.at)
            w.state = "wait" if f[1] == "lockwait" else "ready"
            if f[1] == "lockwait":
                self.lockmiss += 1
        return True

    def pick(self, ready):
        if self.policy == "random" or self.policy == "kill":
            return self.rng.choice(ready)
        if self.policy == "sticky":
            if self.order and self.ws[self.order[-1][0]] in ready and self.rng.random() < 0.85:
                return self.ws[self.order[-1][0]]
            return self.rng.choice(ready)
        if self.policy == "rr":
            last = self.order[-1][0] if self.order else -1
            for k in range(1, len(self.ws) + 1):
                w = self.ws[(last + k) % len(self.ws)]
                if w in ready:
                    return w
        # pct: strict priorities with a few change points
        if self.changes and len(self.order) >= self.changes[0]:
            self.changes.pop(0)
            i = self.prio.index(max(self.prio[self.ws.index(w)] for w in ready))
            self.prio[i] = min(self.prio) - 1
        return max(ready, key=lambda w: self.prio[self.ws.index(w)])

    def go(self, w):
        i = self.ws.index(w)
        if self.kill and self.kill[0] == i and len(w.trace) - 1 == self.kill[1]:
            os.kill(w.pid, signal.SIGKILL)
            try:
                os.waitid(os.P_PID, w.pid, os.WEXITED | os.WNOWAIT)      # its locks are released when it is gone
            except ChildProcessError:
                pass
            w.killed = True
            w.state = "done"
            self.order.append((i, ("KILL",)))
            for x in self.ws:
                if x.state == "wait":
                    x.state = "ready"
            return
        self.order.append((i, w.at))
        if w.at and w.at[0] == "unlocked":
            for x in self.ws:
                if x.state == "wait":
                    x.state = "ready"
        w.state = "running"
        os.write(w.gw, b"g")

    def settle(self, w):
        """Waits until a running worker reaches its next point, ends, or is blocked outside the instrumented points."""
        t0, last, idle = time.monotonic(), None, 0
        while w.state in ("running", "blocked"):
            if self.pump(w, 0.5):
                continue
            asleep, ticks = tree_state(w.pid)
            if asleep and ticks == last:
                idle += 1
            else:
                idle = 0
            last = ticks
            if idle >= 4:
                w.state = "blocked"
                return
            if time.monotonic() - t0 > 200:
                raise Inconclusive("worker does not reach a schedule point")

    def run(self):
        try:
            if self.free:
                for w in self.ws:
                    while w.state != "done":
                        if not self.pump(w, 0.5):
                            self._free_watch()
                return self
            idle, poll = 0, None
            while True:
                for w in self.ws:
                    if w.state == "running":
                        self.settle(w)
                    elif w.state == "blocked":
                        self.pump(w, 0.01)
                if all(w.state == "done" for w in self.ws):
                    return self
                ready = [w for w in self.ws if w.state == "ready"]
                if ready:
                    idle = 0
                    free = [w for w in ready if not spins(w, 60)]
                    if free or not all(spins(w, 300) for w in ready):
                        poll = None
                    elif poll is None:
                        poll = time.monotonic()
                    elif time.monotonic() - poll > 45:
                        raise Violation("endless waiting: %s" % "; ".join("worker %d %s at %s" % (i, w.state, w.at) for i, w in enumerate(self.ws) if w.state != "done"))
                    self.go(self.pick(free or ready))
                    continue
                # nobody can go: retry the lock waiters once, then it is a deadlock
                idle += 1
                if idle > 3:
                    time.sleep(0.05 * idle)
                if idle > 12:
                    raise Violation("deadlock: %s" % "; ".join("worker %d %s at %s" % (i, w.state, w.at) for i, w in enumerate(self.ws) if w.state != "done"))
                for w in self.ws:
                    if w.state == "wait":
                        w.state = "running"
                        os.write(w.gw, b"g")
                        self.settle(w)
                    elif w.state == "blocked":
                        w.state = "running"
                        self.settle(w)
        finally:
            self.stop()

    def _free_watch(self):
        """In a free run: every unfinished worker asleep without using CPU for long is a deadlock."""
        now = time.monotonic()
        st = [tree_state(w.pid) for w in self.ws if w.state != "done"]
        sig = tuple(t for _, t in st)
        if not all(a for a, _ in st) or sig != getattr(self, "_sig", None):
            self._sig, self._t = sig, now
        elif now - self._t > 40:
            raise Violation("deadlock: unfinished workers sleep without progress")

    def stop(self):
        for w in self.ws:
            if w.state != "done" or w.killed or True:
                try:
                    if w.state != "done":
                        kill_tree(w.pid)
                except OSError:
                    pass
        for w in self.ws:
            try:
                os.waitpid(w.pid, 0)
            except OSError:
                pass
            for fd in (w.er, w.gw):
                try:
                    os.close(fd)
                except OSError:
                    pass

    def signature(self):
        return ";".join("%d%s" % (i, ".".join(a)) for i, a in self.order if a)
