#!/usr/bin/env python3
"""pmut.py [-j N] LIST.py|seeded [pattern]: like mut.py, but on private copies of /verif and /repo, N at a time.
An entry of MUTS is (name, checks, file, old, new) or (name, checks, [(file, old, new), ...]); checks "*" means all.
With "seeded", the planted bugs are run with their own property's check."""
import glob, json, os, queue, shutil, subprocess, sys, runpy, time, threading

args = sys.argv[1:]
N = 5
if args[0] == "-j":
    N = int(args[1]); args = args[2:]
ALL = ["C01", "C11", "C07", "C10", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C12", "C13", "C14", "C16"]
jobs = []
if args[0] == "seeded":
    for d in sorted(glob.glob("/verif/seeded/*/")):
        m = json.load(open(d + "meta.json"))
        jobs.append((os.path.basename(d[:-1]), [m["property"]], d + "patch.diff"))
else:
    for m in runpy.run_path(args[0])["MUTS"]:
        ed = m[2] if isinstance(m[2], list) else [tuple(m[2:5])]
        jobs.append((m[0], ALL if m[1] == "*" else m[1], ed))
if len(args) > 1:
    jobs = [j for j in jobs if args[1] in j[0]]
q = queue.Queue()
for j in jobs:
    q.put(j)
lock = threading.Lock()


def say(x):
    with lock:
        print(x, flush=True)


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def work(k):
    top = "/tmp/pm%d-%d" % (os.getpid(), k)
    rp, vf = top + "/repo", top + "/verif"
    os.makedirs(top)
    try:
        sh("git clone -q /repo %s; cp -n /repo/Cargo.lock %s/ ; mkdir %s; cd /verif; cp -r check.py engine checks driver probe known_findings.txt %s/" % (rp, rp, vf, vf))
        sh("mkdir -p %s/build %s/evidence; cp /verif/build/mirx-* %s/build/" % (vf, vf, vf))
        sh("sed -i 's,\"/repo,\"%s,' %s/probe/Cargo.toml %s/engine/export.py" % (rp, vf, vf))
        while True:
            try:
                name, checks, ed = q.get_nowait()
            except queue.Empty:
                return
            sh("git checkout -q -- . ", rp)
            ok = True
            if isinstance(ed, str):
                ok = sh("git apply " + ed, rp).returncode == 0
            else:
                for f, a, b in ed:
                    s = open(rp + "/" + f).read()
                    if a not in s:
                        ok = False
                        break
                    open(rp + "/" + f, "w").write(s.replace(a, b, 1))
            if not ok:
                say("%s: edit does not apply" % name)
                continue
            quiet = []
            for c in checks:
                t = time.time()
                r = sh("timeout 900 python3 check.py %s" % c, vf)
                lines = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
                if r.returncode == 0 and len(checks) > 1 and (" 0 undetermined" in r.stdout or c == "C11" and " 1 undetermined" in r.stdout):
                    quiet.append(c)
                    continue
                ev = {}
                try:
                    ev = json.load(open(vf + "/evidence/%s.json" % c))
                except Exception:
                    pass
                und = ev.get("coverage", {}).get("undetermined_list")
                if und and r.returncode == 0:
                    lines.append(str(und)[:500])
                say("%-30s %s rc=%d %3ds %s" % (name, c, r.returncode, time.time() - t, " | ".join(lines)[:170 if r.returncode else 800]))
            if len(checks) > 1:
                say("%-30s done" % name)
    finally:
        shutil.rmtree(top, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(min(N, len(jobs)))]
for t in ts: t.start()
for t in ts: t.join()
