#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: confirm planted bugs in a scratch copy of /repo and keep them in /verif/seeded.
SPEC.py defines BUGS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)]."""
import os, sys, json, shutil, subprocess, tempfile
V = os.environ.get("PV", "/verif")
R = os.environ.get("PR", "/repo")
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def run(cmd, cwd=None, t=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, universal_newlines=True, env=env)
    return p.returncode, p.stdout


base = run("git log --format=%H --max-parents=0", R)[1].strip()
for b in spec["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        run("cp -a %s %s/repo" % (R, d))
        rp = d + "/repo"
        bad = None
        for path, old, new in b["edits"]:
            s = open(rp + "/" + path).read()
            if s.count(old) != 1:
                bad = "edit %r matches %d times" % (old, s.count(old))
                break
            # lines removed must be original lines
            start = s[:s.index(old)].count("\n") + 1
            end = start + old.rstrip("\n").count("\n")
            o, n = old.split("\n"), new.split("\n")
            bl = run("git blame -s -l -L%d,%d %s %s" % (start, end, "HEAD", path), R)[1].splitlines()
            olds = s.split("\n")[start - 1:end]
            news = set((s[:s.index(old)].split("\n")[-1] + new + s[s.index(old) + len(old):].split("\n")[0]).split("\n"))
            for l, line in zip(bl, olds):
                if line not in news and not l.lstrip("^").startswith(base[:38]):
                    bad = "edits a line of a fix: " + line
            open(rp + "/" + path, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "REJECT", bad)
            continue
        diff = run("git diff", rp)[1]
        out = V + "/seeded/" + b["id"]
        dd = d + "/demo"
        os.makedirs(dd)
        open(dd + "/demo.sh", "w").write(SH)
        os.chmod(dd + "/demo.sh", 0o755)
        open(dd + "/demo.py", "w").write(b["demo"].lstrip())
        open(dd + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dd + "/meta.json", "w"), indent=1)
        c0, o0 = run("bash %s/demo.sh" % dd, R, 300)
        c1, o1 = run("bash %s/demo.sh" % dd, rp, 300)
        if c0 != 0 or c1 == 0:
            print(b["id"], "REJECT demo unchanged=%d patched=%d" % (c0, c1), (o0 if c0 else o1)[-900:])
            continue
        # stable tests in the copy
        ct, ot = run("PYTHONPATH=%s %s -m pytest -q -x -p no:cacheprovider %s 2>&1 | tail -3" % (rp, "/opt/venv/bin/python", " ".join(spec.get("TESTS", ["tests"]))), rp)
        tests_ok = " failed" not in ot and "passed" in ot
        env = dict(os.environ, VERIF_REPO=rp)
        ck, ok = run("./run.sh " + b["prop"], V, 900, env)
        print(b["id"], b["prop"], "demo ok;", "tests", ot.strip().splitlines()[-1] if ot.strip() else "?", "| check exit", ck, "| CAUGHT" if ck == 1 and "VIOLATION property=" + b["prop"] in ok else "| MISSED " + ok[-300:])
        for l in ok.splitlines()[:6]:
            if l.startswith("  "):
                print("     ", l[:160])
        if tests_ok:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(dd, out)
        else:
            print("   TESTS BROKEN, not kept", ot)
    finally:
        shutil.rmtree(d, ignore_errors=True)
