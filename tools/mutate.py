#!/usr/bin/env python3
"""mutate.py OUT.jsonl PER_FILE SEED [path-substring...]: mutation trial of the checks.

Applies small random changes, one at a time, to copies of the code under test and runs the checks of the properties
anchored at the changed file (one process each, stop at first violation).  Writes one line per mutant.  Survivors are
read by hand: equivalent, outside every stated property, or a gap in a check."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool, current_process
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PR", "/repo")
SKIP = ("__repr__",)


def mutants(path):
    src = open(path).read()
    b = src.encode()
    lines = b.split(b"\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln - 1] + c
    out = []

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def put(n, a, e, new, kind):
        out.append((n.lineno, a, e, new.encode(), kind))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP:
                return
            for s in n.body:
                visit(s, n)
            return
        if fn is not None:
            a, e = (seg(n) if hasattr(n, "lineno") else (0, 0))
            txt = b[a:e].decode()
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) or isinstance(n, (ast.Import, ast.ImportFrom)):
                return
            if isinstance(n, ast.BinOp):
                l, r = seg(n.left)[1], seg(n.right)[0]
                mid = b[l:r].decode()
                for o, w in (("**", "*"), ("//", "*"), ("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("&", "|"), ("|", "&"), ("%", "*")):
                    if o in mid:
                        put(n, l, r, mid.replace(o, w, 1), "binop %s %s" % (o, w))
                        break
            elif isinstance(n, ast.AugAssign):
                l, r = seg(n.target)[1], seg(n.value)[0]
                mid = b[l:r].decode()
                for o, w in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")):
                    if o in mid:
                        put(n, l, r, mid.replace(o, w), "aug")
                if n.lineno == n.end_lineno:
                    put(n, a, e, "pass", "del")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left)[1], seg(n.comparators[0])[0]
                mid = b[l:r].decode()
                for o, w in (("<=", ">"), (">=", "<"), ("==", "!="), ("!=", "=="), ("<", ">="), (">", "<="), ("is not", "is"), ("not in", "in")):
                    if o in mid:
                        put(n, l, r, mid.replace(o, w), "cmp")
                        break
                for o, w in (("<=", "<"), (">=", ">"), ("<", "<="), (">", ">=")):
                    if o in mid:
                        put(n, l, r, mid.replace(o, w), "boundary")
                        break
            elif isinstance(n, ast.BoolOp):
                l, r = seg(n.values[0])[1], seg(n.values[1])[0]
                mid = b[l:r].decode()
                put(n, l, r, mid.replace("and", "or") if "and" in mid else mid.replace("or", "and"), "bool")
                put(n, *seg(n), seg_txt(n.values[0]), "dropterm")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
                put(n, a, e, seg_txt(n.operand), "unary")
            elif isinstance(n, ast.If):
                x, y = seg(n.test)
                put(n, x, y, "(not (%s))" % seg_txt(n.test), "negif")
                put(n, x, y, "False", "iffalse")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v = n.value
                put(n, a, e, repr(v + 1) if isinstance(v, int) else ("1." if v == 0. else repr(v * 1.5)), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                put(n, a, e, repr(not n.value), "boolconst")
            elif isinstance(n, ast.Attribute) and n.attr in SW:
                put(n, e - len(n.attr), e, SW[n.attr], "attr")
            elif isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
                put(n, a, e, SW[n.id], "name")
            elif isinstance(n, ast.Assign) and n.lineno == n.end_lineno and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, a, e, "pass", "del")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and n.lineno == n.end_lineno:
                put(n, a, e, "pass", "del")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, a, e, seg_txt(n.func.value), "nocopy")
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args
                put(n, seg(x)[0], seg(y)[1], seg_txt(y) + ", " + seg_txt(x), "swapargs")
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                pass
        walk(n, fn)

    def seg_txt(n):
        a, e = seg(n)
        return b[a:e].decode()

    SW = {"x": "y", "y": "z", "z": "x", "u": "v", "v": "u", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "min": "max", "max": "min",
          "minimum": "maximum", "maximum": "minimum", "mint": "maxt", "maxt": "mint", "w2o": "o2w", "o2w": "w2o", "dpdu": "dpdv", "dpdv": "dpdu",
          "pMin": "pMax", "pMax": "pMin", "m": "m_inv", "m_inv": "m", "dudx": "dudy", "dvdx": "dudx", "fabs": "negative", "sqrt": "square"}
    visit(ast.parse(src), None)
    return b, out


def init(tmp):
    global REPO
    REPO = os.path.join(tmp, "r%s" % current_process()._identity[0])
    subprocess.run(["cp", "-a", R, REPO], check=True)


def trial(job):
    path, ln, a, e, new, kind, pids = job
    f = os.path.join(REPO, path)
    keep = open(f, "rb").read()
    mut = keep[:a] + new + keep[e:]
    old_l = keep.split(b"\n")[ln - 1].decode().strip()
    new_l = mut.split(b"\n")[ln - 1].decode().strip()
    res = dict(path=path, line=ln, kind=kind, old=old_l, new=new_l, seg=[keep[a:e].decode(), new.decode()], t={})
    try:
        ast.parse(mut)
        open(f, "wb").write(mut)
        for p in pids:
            t0 = time.time()
            ev = tempfile.mkdtemp(prefix="ev", dir=os.path.dirname(REPO))
            env = dict(os.environ, VERIF_REPO=REPO, VERIF_PROCS="1", VERIF_FAILFAST="1", VERIF_EV=ev, VERIF_CASE_LIMIT="60", VERIF_QLIMIT="700")
            try:
                q = subprocess.run([V + "/run.sh", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, universal_newlines=True)
                rc, out = q.returncode, q.stdout
            except subprocess.TimeoutExpired:
                rc, out = 99, ""
            shutil.rmtree(ev, ignore_errors=True)
            res["t"][p] = [rc, round(time.time() - t0, 1)]
            if rc == 1:
                res["killed"] = p
                res["by"] = [l for l in out.splitlines() if l.startswith("  ")][:1]
                res["by"] = res["by"][0][:200] if res["by"] else ""
                break
            if rc not in (0, 1):
                res["odd"] = out[-400:]
    except SyntaxError as x:
        res["syntax"] = str(x)
    finally:
        open(f, "wb").write(keep)
    return res


def main():
    outp, per, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    subs = sys.argv[4:]
    by = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            by.setdefault(f, []).append(d["id"])
    extra = json.load(open(V + "/tools/mutmap.json")) if os.path.exists(V + "/tools/mutmap.json") else {}
    jobs = []
    r = random.Random(seed)
    for dp, _, fs in os.walk(R + "/pytracer"):
        for fn in sorted(fs):
            if not fn.endswith(".py"):
                continue
            p = os.path.relpath(os.path.join(dp, fn), R)
            if subs and not any(s in p for s in subs):
                continue
            pids = by.get(p, []) + [x for x in extra.get(p, []) if x not in by.get(p, [])]
            if not pids:
                if fn != "__init__.py":
                    print("no property anchored at", p)
                continue
            b, ms = mutants(os.path.join(dp, fn))
            k = min(len(ms), int(per) if per >= 1 else max(1, int(per * len(ms))))
            for m in r.sample(ms, k):
                jobs.append((p,) + m + (pids,))
    r.shuffle(jobs)
    if os.path.exists(outp):  # go on where an earlier run stopped
        done = set((x["path"], x["line"], x["kind"], x["seg"][1]) for x in map(json.loads, open(outp)))
        jobs = [j for j in jobs if (j[0], j[1], j[5], j[4].decode()) not in done]
    print(len(jobs), "mutants")
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    n = k = 0
    try:
        with Pool(int(os.environ.get("MUT_PROCS", "8")), init, (tmp,)) as pool, open(outp, "a") as o:
            for x in pool.imap_unordered(trial, jobs):
                o.write(json.dumps(x) + "\n")
                o.flush()
                n += 1
                k += "killed" in x
                if n % 20 == 0:
                    print(n, "done", k, "killed", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(n, "mutants", k, "killed")


main()
