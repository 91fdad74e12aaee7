#!/usr/bin/env python3
"""recheck.py [bug-id...]: apply each seeded change to a scratch copy of the repository, run its property's quick check,
record which monitor reported it in tools/caught.json.  PR = repository to copy (default /repo)."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = os.environ.get("PR", "/repo")
C = os.path.join(R, "tools/caught.json")
caught = json.load(open(C)) if os.path.exists(C) else {}
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(os.path.join(R, "seeded/*")))
for i in ids:
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    d = tempfile.mkdtemp(prefix="recheck-")
    try:
        shutil.copytree(PR, d + "/repo", symlinks=True)
        if subprocess.call(["git", "-C", d + "/repo", "apply", os.path.join(R, "seeded", i, "patch.diff")]):
            print(i, "DOES NOT APPLY", flush=True)
            caught[i] = "does not apply"
            continue
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EV=d + "/ev")
        q = subprocess.run([os.path.join(R, "run.sh"), m["property"]], env=env, stdout=subprocess.PIPE, universal_newlines=True)
        mech = re.findall(r"^  (\S+) x\d+:", q.stdout, re.M)
        caught[i] = ", ".join(mech[:3]) if q.returncode == 1 else "MISSED (exit %d)" % q.returncode
        print(i, m["property"], caught[i], flush=True)
    finally:
        shutil.rmtree(d)
    json.dump(caught, open(C, "w"), indent=0, sort_keys=True)
