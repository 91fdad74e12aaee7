#!/usr/bin/env python3
"""Regenerates the tables at the end of DESIGN.md (planted changes, repaired defects) from seeded/*/meta.json and
tools/fixes.txt: `python3 tools/design_tail.py`.  tools/caught.json holds the mechanism that reported each planted
change when it was last tried (written by tools/recheck.py)."""
import glob
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design_tail.py from here -->"


def esc(s):
    return s.replace("|", "\\|").replace("\n", " ")


def main():
    p = os.path.join(R, "DESIGN.md")
    head = open(p).read().split(MARK)[0]
    try:
        caught = json.load(open(os.path.join(R, "tools/caught.json")))
    except Exception:
        caught = {}
    out = [MARK, "", "## Planted changes", "",
           "Every change below compiles, passes the 6836 existing tests and fails its own demonstration.", "",
           "| change | property | needs | reported by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))):
        m = json.load(open(f))
        i = f.split(os.sep)[-2]
        out.append("| %s | %s | %s | %s |" % (i, m["property"], esc(m["needs"]), esc(caught.get(i, "not re-tried yet"))))
    out += ["", "## Repaired defects", "", "| property | commit | what failed |", "|---|---|---|"]
    for l in open(os.path.join(R, "tools/fixes.txt")):
        l = l.strip()
        if l:
            out.append("| %s | %s | %s |" % tuple(esc(x) for x in l.split("|", 2)))
    open(p, "w").write(head + "\n".join(out) + "\n")


main()
