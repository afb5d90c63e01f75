#!/usr/bin/env python3
"""mut.py LIST.py [pattern]: apply small edits to /repo one at a time, run the named checks, undo.
LIST.py: MUTS = [(name, [checks], file, old, new)]"""
import subprocess, sys, runpy, time

muts = runpy.run_path(sys.argv[1])["MUTS"]
pat = sys.argv[2] if len(sys.argv) > 2 else ""
for name, checks, f, old, new in muts:
    if pat not in name:
        continue
    p = "/repo/" + f
    s = open(p).read()
    if s.count(old) < 1:
        print(name, "NOT FOUND"); continue
    try:
        open(p, "w").write(s.replace(old, new, 1))
        for c in checks:
            t = time.time()
            r = subprocess.run(["python3", "/verif/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/verif")
            lines = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
            print("%-34s %s rc=%d %3ds %s" % (name, c, r.returncode, time.time() - t, " | ".join(lines)[:150]), flush=True)
    finally:
        open(p, "w").write(s)
