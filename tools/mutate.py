"""Self-assessment (not a check): small syntactic mutants of the library, run against the checks whose workloads execute the changed line.

usage: mutate.py list                         print the number of mutants per file
       mutate.py run OUT [STREAM NSTREAMS]    run them in scratch copies of /repo; OUT gets one JSON line per mutant
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
FILES = ["elm.py", "hp_elm.py", "mss_cv.py", "mss_loo.py", "mss_v.py", "modules/hdf5_tools.py", "modules/mrsr.py", "modules/mrsr2.py",
         "modules/rbf_param.py", "nnets/slfn.py", "nnets/slfn_python.py", "nnets/slfn_skcuda.py"]
SLOW = ["C05", "C06", "C07", "C28", "C29", "C31"]
MOST = 11      # checks per mutant
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//"}


def mutants(src):
    """(line, start, end, replacement, kind): character offsets."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    # ast columns are utf-8 bytes; the sources are ASCII
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, a, b, new, kind):
        if src[a:b] != new:
            out.append((n.lineno, a, b, new, kind))

    def text(n):
        a, b = pos(n)
        return src[a:b]
    doc = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print" or isinstance(n, ast.Raise):
            for k in ast.walk(n):
                skip.add(k)
        if isinstance(n, ast.Assert) and n.msg is not None:
            for k in ast.walk(n.msg):
                skip.add(k)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "").startswith("msg"):
            for k in ast.walk(n):
                skip.add(k)
    for n in ast.walk(tree):
        if n in doc or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, b = pos(l)[1], pos(r)[0]
            for new in CMP[type(n.ops[0])]:
                mid = src[a:b]
                s = SYM[type(n.ops[0])]
                i = mid.find(s)
                if i >= 0:
                    add(n, a + i, a + i + len(s), new, "compare")
        elif isinstance(n, (ast.BinOp,)) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            a, b = pos(n.left)[1], pos(n.right)[0]
            mid = src[a:b]
            s = {"-": "+", "+": "-", "/": "//" if isinstance(n.op, ast.FloorDiv) else "*", "*": "**" if isinstance(n.op, ast.Pow) else "/", "//": "%"}[BIN[type(n.op)]]
            i = mid.find(s)
            if i >= 0 and isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, a + i, a + i + len(s), BIN[type(n.op)], "arithmetic")
            a, b = pos(n)
            add(n, a, b, "(" + text(n.left) + ")", "operand")
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            s = "and" if isinstance(n.op, ast.And) else "or"
            i = src[a:b].find(s)
            add(n, a + i, a + i + len(s), "or" if s == "and" else "and", "boolean")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = pos(n)
            add(n, a, b, "(" + text(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant):
            a, b = pos(n)
            if n.value is True or n.value is False:
                add(n, a, b, str(not n.value), "constant")
            elif isinstance(n.value, int):
                add(n, a, b, str(n.value + 1), "constant")
            elif isinstance(n.value, float):
                add(n, a, b, repr(n.value*2 + (n.value == 0)), "constant")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            a, b = pos(n)
            add(n, a, b, "pass", "statement")
            if isinstance(n, ast.AugAssign):
                i = src[a:b].find("=")
                add(n, a + i - 1, a + i + 1, "=", "augmented")
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, b = pos(n)
            add(n, a, b, "pass", "statement")
        elif isinstance(n, ast.Assert):
            a, b = pos(n)
            add(n, a, b, "pass", "assert")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = pos(n.test)
            if isinstance(n, ast.While):
                continue
            add(n, a, b, "True", "condition")
            add(n, a, b, "False", "condition")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k)
                    # with the comma before it
                    i = a
                    while src[i - 1] in " \n":
                        i -= 1
                    if src[i - 1] == ",":
                        add(n, i - 1, b, "", "keyword")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "astype", "reshape", "ravel"):
                a, b = pos(n)
                add(n, a, b, text(n.func.value), "method")
            elif isinstance(n.func, ast.Attribute) and len(n.args) == 1 and n.func.attr in ("array", "asarray", "ascontiguousarray", "abs", "int", "float", "ceil", "sqrt", "sort"):
                a, b = pos(n)
                add(n, a, b, "(" + text(n.args[0]) + ")", "function")
            elif isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2:
                a, b = pos(n)
                for x in n.args:
                    add(n, a, b, "(" + text(x) + ")", "minmax")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                a, b = pos(n)
                add(n, a, b, text(n.lower) + ":", "slice")
                add(n, a, b, ":" + text(n.upper), "slice")
    good, seen = [], set()
    for m in out:
        line, a, b, new, kind = m
        t = src[:a] + new + src[b:]
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, "x", "exec")
        except SyntaxError:
            continue
        good.append(m)
    return sorted(set(good))


def allmut():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, "hpelm", f)).read()
        out += [(f,) + m for m in mutants(src)]
    return out


def lines_map(path):
    """{file: {line: [checks]}} from the checks' line coverage (VF_LINES)."""
    out = {}
    for fn in sorted(os.listdir(path)):
        for f, l in json.load(open(os.path.join(path, fn))):
            out.setdefault(f, {}).setdefault(l, []).append(fn[:3])
    return out


def run(outp, stream, ns, linesdir, budget, workers):
    muts = allmut()
    random.Random(5).shuffle(muts)
    cover = lines_map(linesdir)
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["i"] for l in open(outp)}
    kills = {}
    for fn in os.listdir(os.path.dirname(outp)):
        if fn.endswith(".jsonl"):
            for l in open(os.path.join(os.path.dirname(outp), fn)):
                r = json.loads(l)
                c = r["killed"]
                if c:
                    for k in ((r["file"], r["line"] // 25), c), (r["file"], c), ("", c):
                        kills[k] = kills.get(k, 0) + 1
    cp = tempfile.mkdtemp(prefix="mut%d_" % stream, dir="/dev/shm")
    shutil.copytree(os.path.join(REPO, "hpelm"), cp + "/hpelm")
    env = dict(os.environ, VERIF_REPO=cp)
    for i, (f, line, a, b, new, kind) in enumerate(muts):
        if i % ns != stream or i in done:
            continue
        p = os.path.join(cp, "hpelm", f)
        src = open(os.path.join(REPO, "hpelm", f)).read()
        with open(p, "w") as fh:
            fh.write(src[:a] + new + src[b:])
        last = src[:b].count("\n") + 1
        ck = []
        for l in range(line, last + 1):
            for c in cover.get(f, {}).get(l, []):
                if c not in ck:
                    ck.append(c)
        if not ck and src.split("\n")[line - 1].lstrip().startswith("def "):    # default of an argument
            for l in range(line, line + 80):
                if cover.get(f, {}).get(l):
                    ck = list(cover[f][l])
                    break
        if not ck:    # runs in helper processes, where lines are not recorded
            ck = ["C05", "C31", "C28", "C30", "C04", "C07"] if f in ("hp_elm.py", "modules/hdf5_tools.py") else []
        fun = (f, line // 25)
        ck.sort(key=lambda c: (-kills.get((fun, c), 0), -kills.get((f, c), 0), c in SLOW, -kills.get(("", c), 0)))
        ck = ck[:MOST]
        rec = dict(i=i, file=f, line=line, old=src[a:b][:200], new=new[:200], kind=kind, src=src.split("\n")[line - 1].strip()[:160], checks=len(ck), killed=None, odd=[])
        for c in ck:
            r = subprocess.run([PY, os.path.join(HERE, "run.py"), c, "--tier", "quick", "--budget", str(budget), "--workers", str(workers)],
                               env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["killed"] = c
                kills[fun, c] = kills.get((fun, c), 0) + 1
                kills[f, c] = kills.get((f, c), 0) + 1
                kills["", c] = kills.get(("", c), 0) + 1
                break
            if r.returncode != 0:
                rec["odd"].append((c, r.returncode))
                if r.returncode == 1 and "Error" in r.stderr:   # does not even import
                    rec["killed"] = "import"
                    break
        with open(p, "w") as fh:
            fh.write(src)
        with open(outp, "a") as fh:
            fh.write(json.dumps(rec) + "\n")
    shutil.rmtree(cp)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        import collections
        m = allmut()
        print(len(m), collections.Counter(x[0] for x in m), collections.Counter(x[-1] for x in m))
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], float(sys.argv[6]), int(sys.argv[7]))
