#!/usr/bin/env python3
"""mut.py CHECKID file 'old' 'new' : does the check notice this textual change?  (quick triage; not evidence)"""
import subprocess, sys
cid, f, a, b = sys.argv[1:5]
p = "/repo/" + f
s = open(p).read()
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
n = s.count(a)
if n < 1:
    print("NOT FOUND", a); sys.exit(3)
try:
    open(p, "w").write(s.replace(a, b, 1))
    for c in cid.split(","):
        r = subprocess.run(["python3", "/verif/analysis/check.py", c], capture_output=True, text=True)
        ls = r.stdout.strip().split("\n")
        print(c, "rc", r.returncode, "|", ls[0][:60], "|", "; ".join(l.strip()[:100] for l in ls[1:4]))
finally:
    open(p, "w").write(s)
