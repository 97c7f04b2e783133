#!/usr/bin/env python3
"""stage_hunks.py file i,j,.. : stage only the given hunks (0-based, of git diff -U1) of a file of /repo."""
import subprocess, sys
f, idx = sys.argv[1], [int(x) for x in sys.argv[2].split(",")]
d = subprocess.run(["git", "-C", "/repo", "diff", "-U1", "--", f], capture_output=True, text=True).stdout
head, *h = d.split("\n@@ ")
p = head + "".join("\n@@ " + x for i, x in enumerate(h) if i in idx)
if not p.endswith("\n"):
    p += "\n"
r = subprocess.run(["git", "-C", "/repo", "apply", "--cached", "--unidiff-zero", "--recount", "-"], input=p, text=True)
sys.exit(r.returncode)
