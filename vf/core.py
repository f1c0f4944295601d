"""Runner for runtime-monitoring checks of hpelm: workers, verdicts, watchdog, coverage, evidence, replays.

A property module (vf/props/cNN.py) defines
  ID, LEVEL, RULE        identifiers for the evidence
  gen(rng, D) -> dict    one random case: flat, JSON-able, executions are a function of it
  DIRECTED               list of cases run first, always
  fix(case)              (optional) makes a mutated case consistent
  run(case, mon, tmp)    drives the real code and raises Violation
  REQUIRE                counters that must be positive for a "held" verdict
"""
import collections, errno, faulthandler, hashlib, importlib, json, os, random, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class Inconclusive(Exception):
    """The environment failed (disk, memory, processes): no verdict."""


class Mon(object):
    """Collects what the monitors of one case observed."""
    def __init__(self):
        self.n = collections.Counter()
        self.deciding = 0
        self.tags = set()

    def tag(self, kind, value):
        """Records a distinct state / interleaving / value seen (counted per kind over the run)."""
        self.tags.add(kind + "\0" + hashlib.blake2b(str(value).encode(), digest_size=6).hexdigest())

    def hit(self, name, k=1):
        self.n[name] += int(k)

    def ok(self, cond, msg, *args, **kw):
        """A deciding comparison."""
        self.deciding += 1
        if not cond:
            raise Violation(msg % args if args else msg, kw.get("key"))

    def weak(self, cond, msg, *args):
        """A comparison that is too weak to make a case count as non-trivial."""
        self.n["weak comparisons"] += 1
        if not cond:
            raise Violation(msg % args if args else msg)


class Dict(object):
    """Constants of the current source: biases generated sizes and values towards the code's own thresholds."""
    def __init__(self):
        import ast
        ints, floats, strs = set(), set(), set()
        for root, dirs, files in os.walk(os.path.join(REPO, "hpelm")):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                try:
                    with open(os.path.join(root, f), "rb") as fh:
                        tree = ast.parse(fh.read())
                except SyntaxError:
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.Constant):
                        v = node.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int) and 0 <= v <= 100000:
                            ints.add(v)
                        elif isinstance(v, float) and 0 < abs(v) < 1e9:
                            floats.add(v)
                            if v == int(v):
                                ints.add(int(abs(v)))
                        elif isinstance(v, str) and 0 < len(v) < 20:
                            strs.add(v)
        self.ints, self.floats, self.strs = sorted(ints), sorted(floats), sorted(strs)

    def size(self, rng, lo, hi, pconst=0.25):
        """An integer in lo..hi: a code constant (or a neighbour or multiple), log-uniform, or uniform and small."""
        r = rng.random()
        if r < pconst:
            c = [v + e for v in self.ints for e in (-1, 0, 1) if lo <= v + e <= hi]
            c += [2*v + e for v in self.ints for e in (-1, 0, 1) if lo <= 2*v + e <= hi]
            if c:
                return rng.choice(c)
        if r < 0.6 or hi <= lo + 8:
            return rng.randint(lo, min(hi, lo + 12))
        return int(round(lo - 1 + (hi - lo + 1) ** rng.random()))


class LineCov(object):
    """First execution of every source line of hpelm (sys.monitoring), reported in evidence and guiding generation."""
    def __init__(self):
        self.lines = set()
        self.new = 0
        m = sys.monitoring
        self.tool = m.COVERAGE_ID
        try:
            m.use_tool_id(self.tool, "vf")
        except ValueError:
            self.tool = 4
            m.use_tool_id(self.tool, "vf")
        base = os.path.join(REPO, "hpelm") + os.sep

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(base):
                self.lines.add((fn[len(base):], line))
                self.new += 1
            return m.DISABLE
        m.register_callback(self.tool, m.events.LINE, on_line)
        m.set_events(self.tool, m.events.LINE)


def total_lines():
    """Executable lines of the library per file (from compiled code objects)."""
    out = {}

    def walk(code, acc):
        for _, _, ln in code.co_lines():
            if ln:
                acc.add(ln)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, acc)
    for root, dirs, files in os.walk(os.path.join(REPO, "hpelm")):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                acc = set()
                try:
                    with open(p, "rb") as fh:
                        walk(compile(fh.read(), p, "exec"), acc)
                except SyntaxError:
                    continue
                out[os.path.relpath(p, os.path.join(REPO, "hpelm"))] = len(acc)
    return out


ENV_ERRNO = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EROFS)


def env_failure(e):
    while e is not None:
        if isinstance(e, MemoryError):
            return True
        if isinstance(e, OSError) and e.errno in ENV_ERRNO:
            return True
        if isinstance(e, BlockingIOError):
            return False
        e = e.__cause__ or e.__context__
    return False


def cleardir(d):
    """Removes everything inside the scratch directory d (which the check made itself)."""
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


def run_case(mod, case, mon, tmp):
    """Runs one case; returns None or a violation dict; Skip / Inconclusive pass through."""
    from . import hooks
    hooks.case_begin()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)       # files with relative names stay in the scratch directory
        mod.run(case, mon, tmp)
        return None
    except (Skip, Inconclusive):
        raise
    except Violation as e:
        return dict(msg=str(e), key=e.key, trace=traceback.format_exc())
    except Exception as e:
        if env_failure(e):
            raise Inconclusive(repr(e))
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        loc = "%s:%s" % (os.path.relpath(where[-1].filename, REPO), where[-1].name) if where else "harness"
        return dict(msg="unexpected %s at %s: %s" % (type(e).__name__, loc, str(e)[:300]), key=None,
                    trace=traceback.format_exc())
    finally:
        os.chdir(cwd)
        hooks.case_end()
        cleardir(tmp)


def mutate(rng, a, b):
    """Field-wise crossover of a corpus case with a fresh one."""
    c = dict(a)
    keys = sorted(b)
    for k in rng.sample(keys, min(len(keys), rng.choice([1, 1, 2, 3, 5]))):
        c[k] = b[k]
    return c


def worker(pid, seed, w, nw, t_end, scratch, tier, offset=0):
    out = os.path.join(scratch, "w%d.json" % w)
    cur = os.path.join(scratch, "cur%d.json" % w)
    tmp = os.path.join(scratch, "t%d" % w)
    os.mkdir(tmp)
    # the library reports progress on stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    log = os.open(os.path.join(scratch, "err%d.txt" % w), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(log, 2)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    # a case found blocked is asked for the Python stacks of all its threads and processes
    faulthandler.register(signal.SIGUSR1, file=2, all_threads=True)
    cov = LineCov()
    from . import hooks
    hooks.install()
    mod = importlib.import_module("vf.props." + pid.lower())
    D = Dict()
    rng = random.Random("%s/%s/%s" % (seed, pid, w))
    res = dict(evaluations=0, skipped=0, inconclusive=[], violations=[], counters={}, samples=[], sigs=[], tags=[])
    counters = collections.Counter()
    sigs = set()
    tags = set()
    corpus = []
    directed = list(getattr(mod, "DIRECTED", []))
    todo = directed[w::nw]
    fix = getattr(mod, "fix", lambda c: c)
    mod.TIER = tier
    last = 0.0

    def dump():
        res["counters"] = dict(counters)
        res["sigs"] = sorted(sigs)
        res["tags"] = sorted(tags)
        res["lines"] = sorted(cov.lines)
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    known = known_keys(pid)
    while True:
        is_directed = bool(todo)
        if is_directed:
            case = fix(dict(todo.pop(0)))
        else:
            if time.monotonic() > t_end or len(res["inconclusive"]) > 20:
                break
            if corpus and rng.random() < 0.35:
                case = fix(mutate(rng, rng.choice(corpus), mod.gen(rng, D)))
            else:
                case = fix(mod.gen(rng, D))
        # cases are pure data: what is run is exactly what a replay file would hold
        blob = json.dumps(case, sort_keys=True)
        case = json.loads(blob)
        with open(cur + ".tmp", "w") as f:
            f.write(json.dumps(dict(case=case, t=time.monotonic())))
        os.replace(cur + ".tmp", cur)
        mon = Mon()
        n0 = cov.new
        try:
            v = run_case(mod, case, mon, tmp)
        except Skip:
            res["skipped"] += 1
            counters.update(mon.n)
            if is_directed:
                counters["directed cases skipped"] += 1
            continue
        except Inconclusive as e:
            res["inconclusive"].append(str(e)[:300])
            continue
        res["evaluations"] += 1
        counters.update(mon.n)
        counters["deciding comparisons"] += mon.deciding
        tags |= mon.tags
        if is_directed:
            counters["directed cases"] += 1
        if mon.deciding:
            sigs.add(hashlib.blake2b(blob.encode(), digest_size=8).hexdigest())
            if len(res["samples"]) < 2 or (len(res["samples"]) < 4 and rng.random() < 0.02):
                res["samples"].append(dict(case=case, observed=dict(mon.n), deciding=mon.deciding))
        if cov.new > n0 and not is_directed and len(corpus) < 200:
            corpus.append(case)
        if v is not None:
            v["case"] = case
            if v.get("key") and v["key"] in known:
                counters["known finding: " + v["key"]] += 1
                res.setdefault("known", {})[v["key"]] = v["msg"]
            else:
                res["violations"].append(v)
                dump()
                break
        if time.monotonic() - last > 2:
            last = time.monotonic()
            dump()
    dump()
    try:
        os.unlink(cur)
    except OSError:
        pass


def known_keys(pid):
    """Keys of recorded (unrepaired) findings of a property: lines 'finding: property=<id> key=<key> <text>'."""
    keys = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                k = [f for f in line.split() if f.startswith("key=")]
                if k:
                    keys[k[0][4:]] = line.strip()
    return keys


def tree(pid):
    """A process and its descendants."""
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, t)) as f:
                    todo += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return out


def tree_state(pid):
    """(all tasks sleeping, total cpu ticks of the tree including reaped children)."""
    ticks, asleep = 0, True
    for p in tree(pid):
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    s = f.read().rsplit(")", 1)[1].split()
                if s[0] not in ("S", "Z", "X"):
                    asleep = False
            with open("/proc/%d/stat" % p) as f:
                s = f.read().rsplit(")", 1)[1].split()
            ticks += sum(int(x) for x in s[11:15])
        except (OSError, IndexError, ValueError):
            pass
    return asleep, ticks


def ask_stacks(pid, err):
    try:
        n = os.path.getsize(err)
        for p in tree(pid):
            with open(err, "a") as f:
                f.write("--- stacks of process %d\n" % p)
            os.kill(p, signal.SIGUSR1)
            time.sleep(0.3)
        with open(err) as f:
            f.seek(n)
            return f.read()[:20000]
    except (OSError, ValueError):
        return ""


def kill_tree(pid):
    for p in reversed(tree(pid)):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def check(pid, tier, seed, budget, nw):
    t0 = time.monotonic()
    mod = importlib.import_module("vf.props." + pid.lower())
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=scratch_base())
    hard = t0 + (800 if tier == "quick" else 870)   # a case that never ends is judged by its CPU time before
    t_end = t0 + budget
    pids = {}
    crashed, hung = [], []
    res = []
    early = False
    tick = os.sysconf("SC_CLK_TCK")
    try:
        for w in range(nw):
            p = os.fork()
            if p == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    worker(pid, seed, w, nw, t_end, scratch, tier)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            pids[p] = dict(w=w, asleep=None, ticks=None, case_t=None, ticks0=0)
        while pids:
            time.sleep(0.1)
            for p in list(pids):
                r, st = os.waitpid(p, os.WNOHANG)
                if r:
                    i = pids.pop(p)
                    if st != 0:
                        crashed.append((i["w"], st))
            now = time.monotonic()
            for w in range(nw):
                f = os.path.join(scratch, "w%d.json" % w)
                if os.path.exists(f):
                    try:
                        with open(f) as fh:
                            if '"violations": []' not in fh.read(4000) and json.load(open(f))["violations"]:
                                early = True
                    except ValueError:
                        pass
            if early or now > hard:
                for p in pids:
                    kill_tree(p)
                for p in pids:
                    os.waitpid(p, 0)
                if now > hard and not early:
                    hung.append("hard time limit")
                pids = {}
                break
            # a case that goes on long: is it blocked (nothing runnable, no CPU used), or does it burn CPU forever?
            for p in list(pids):
                i = pids[p]
                try:
                    c = json.load(open(os.path.join(scratch, "cur%d.json" % i["w"])))
                except (OSError, ValueError):
                    i["case_t"] = None
                    continue
                if i["case_t"] != c["t"]:
                    i.update(case_t=c["t"], asleep=None, ticks0=None, next=now + 5)
                    continue
                if now < i["next"]:
                    continue
                i["next"] = now + 1
                asleep, ticks = tree_state(p)
                if i["ticks0"] is None:
                    i["ticks0"] = ticks
                if asleep and ticks == i["ticks"]:
                    i["asleep"] = i["asleep"] or now
                else:
                    i["asleep"] = None
                i["ticks"] = ticks
                blocked = i["asleep"] and now - i["asleep"] > 20
                burning = (ticks - i["ticks0"]) / tick > getattr(mod, "CPU_LIMIT", 150)
                if blocked or burning:
                    stacks = ask_stacks(p, os.path.join(scratch, "err%d.txt" % i["w"]))
                    kill_tree(p)
                    os.waitpid(p, 0)
                    del pids[p]
                    what = "blocked forever: every process and thread of the case sleeps and uses no CPU" if blocked \
                        else "does not finish: more than %d s of CPU time in one case" % getattr(mod, "CPU_LIMIT", 150)
                    if blocked and getattr(mod, "BLOCKED_INCONCLUSIVE", False):
                        print("  one case without an answer: %s\n%s\n%s" % (what, json.dumps(c["case"]), stacks))
                        res.append(dict(evaluations=0, skipped=0, inconclusive=[what], counters={}, samples=[], sigs=[], lines=[], violations=[]))
                        continue
                    res.append(dict(evaluations=1, skipped=0, inconclusive=[], counters={}, samples=[], sigs=[], lines=[],
                                    violations=[dict(msg=what, key=None, trace=stacks, case=c["case"])]))
                    early = True
        for w in range(nw):
            f = os.path.join(scratch, "w%d.json" % w)
            if os.path.exists(f):
                res.append(json.load(open(f)))
        errtxt = ""
        for w, st in crashed:
            e = os.path.join(scratch, "err%d.txt" % w)
            sig = st & 0x7f
            errtxt += "worker %d ended with status %s: %s\n" % (w, st, open(e).read()[-1500:] if os.path.exists(e) else "")
            curf = os.path.join(scratch, "cur%d.json" % w)
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and os.path.exists(curf):
                res.append(dict(evaluations=1, skipped=0, inconclusive=[], counters={}, samples=[], sigs=[], lines=[],
                                violations=[dict(msg="the process was killed by signal %d during the case" % sig, key=None,
                                                 trace=errtxt, case=json.load(open(curf))["case"])]))
    finally:
        for p in pids:
            kill_tree(p)
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, mod, tier, seed, res, crashed, hung, errtxt, time.monotonic() - t0)


SOFT = ["random rankings observed", "lock contention events", "kills while files were being created", "kills holding a lock", "kills before the update",
        "kills after the update", "helper reads observed", "helper writes observed", "long stops of helpers", "helper peaks compared", "kernel launches",
        "faults in helpers", "fault start", "fault kill", "fault exit", "generated biases only", "thread switches"]


def report(pid, mod, tier, seed, res, crashed, hung, errtxt, wall):
    counters = collections.Counter()
    sigs, lines, tags = set(), set(), set()
    viol, samples, inc, known = [], [], [], {}
    ev = sk = 0
    for r in res:
        counters.update(r["counters"])
        sigs.update(r["sigs"])
        lines.update(map(tuple, r.get("lines", [])))
        tags.update(r.get("tags", []))
        viol += r["violations"]
        samples += r["samples"]
        inc += r["inconclusive"]
        known.update(r.get("known", {}))
        ev += r["evaluations"]
        sk += r["skipped"]
    for k, v in collections.Counter(t.split("\0")[0] for t in tags).items():
        counters["distinct " + k] = v
    if os.environ.get("VF_LINES"):    # for tools/mutate.py
        with open(os.path.join(os.environ["VF_LINES"], pid + ".json"), "w") as f:
            json.dump(sorted(lines), f)
    tot = total_lines()
    cov = collections.Counter(f for f, _ in lines)
    level = mod.LEVEL
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[:6],
                      skipped_outside_domain=sk, observed=dict(sorted(counters.items())),
                      inconclusive_cases=len(inc),
                      lines_executed={f: "%d of %d" % (cov[f], tot[f]) for f in sorted(tot) if cov[f]}),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d deciding comparisons, %d outside the domain, %.1f s"
          % (pid, tier, seed, ev, len(sigs), counters["deciding comparisons"], sk, wall))
    for k, text in sorted(known_keys(pid).items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in viol[:3]:
            h = hashlib.blake2b(json.dumps(v["case"], sort_keys=True).encode(), digest_size=6).hexdigest()
            rp = os.path.join(VERIF, "replays", "%s_%s.json" % (pid, h))
            with open(rp, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=v["case"], msg=v["msg"], trace=v["trace"]), f, indent=1)
                f.write("\n")
            print("  what: %s" % v["msg"][:1000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if crashed or hung:
        print("INCONCLUSIVE: %s %s" % (hung, errtxt))
        return 2
    if inc:
        print("  %d inconclusive cases, e.g. %s" % (len(inc), inc[0]))
        if len(inc) > max(3, ev // 20):
            return 2
    missing = [c for c in getattr(mod, "REQUIRE", []) if not counters.get(c)]
    # monitors that need the library to be built in a particular way (helper processes, file locks, numpy's shuffle): a rewriting
    # that does without them leaves less to observe, which is told but is no reason to withhold what was decided
    soft = [c for c in missing if c in SOFT]
    missing = [c for c in missing if c not in SOFT]
    if soft:
        print("  note: monitors never reached: %s" % soft)
    if not sigs or missing:
        print("INCONCLUSIVE: nothing decided, or monitors never reached: %s" % missing)
        return 2
    return 0


def replay(path):
    from . import hooks
    d = json.load(open(path))
    hooks.install()
    mod = importlib.import_module("vf.props." + d["property"].lower())
    mod.TIER = d.get("tier", "quick")
    tmp = tempfile.mkdtemp(prefix="vf_replay_", dir=scratch_base())
    mon = Mon()
    try:
        v = run_case(mod, d["case"], mon, tmp)
    except (Skip, Inconclusive) as e:
        print("no verdict: %r" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("observed: %s" % dict(mon.n))
    if v:
        print(v["trace"])
        print("  what: %s" % v["msg"])
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
        return 1
    print("held on this case")
    return 0


def close(mon, A, ref, tol, what):
    """Elementwise |A-ref| <= tol where the reference is finite."""
    import numpy as np
    A = np.asarray(A, dtype=np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    mon.ok(A.shape == ref.shape, "%s: shape %s, expected %s", what, A.shape, ref.shape)
    tol = np.broadcast_to(tol, ref.shape)
    m = np.isfinite(ref) & np.isfinite(tol)
    mon.hit("values compared", int(m.sum()))
    if not m.any():
        return
    with np.errstate(all="ignore"):
        d = np.where(m, np.abs(A - ref), 0)
        bad = m & ~(d <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation("%s: %d of %d values wrong, e.g. at %s: %r, expected %r +- %g"
                        % (what, int(bad.sum()), bad.size, i, float(A[i]), float(ref[i]), float(tol[i])))
    mon.deciding += 1
