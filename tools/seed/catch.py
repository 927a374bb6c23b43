#!/usr/bin/env python3
"""catch.py [ID...|refactor dirs]: runs the check of each seed's property (or, for a patch without meta.json, of all
properties given with -p) on a scratch copy with the patch applied; prints verdicts.  -j N parallel."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(os.path.dirname(HERE))
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("-j", type=int, default=2)
ap.add_argument("-d", default=VER + "/seeded"); ap.add_argument("-p", default="")
A = ap.parse_args()
def one(job):
    i, prop = job
    d = os.path.join(A.d, i)
    with tempfile.TemporaryDirectory(prefix="catch-") as t:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = os.path.join(d, "patch.diff") if os.path.isdir(d) else d
        if subprocess.run(["git", "apply", p], cwd=r).returncode: return i, prop, "patch does not apply", 0
        env = dict(os.environ, DC_REPO=r, DC_WORK=os.path.join(t, "work"), DC_EVID=os.path.join(t, "evid"), VERIF_TIER="quick", VERIF_SEED="1")
        os.makedirs(os.path.join(t, "work"))
        t0 = time.time()
        c = subprocess.run([VER + "/check.py", prop], cwd=VER, env=env, capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "KNOWN"))]
        o = [l for l in (c.stdout + c.stderr).splitlines() if l.strip()][-1:]
        return i, prop, "exit %d %s" % (c.returncode, " ".join(v) or " ".join(o)), time.time() - t0
jobs = []
for i in sorted(os.listdir(A.d)) if not A.ids else A.ids:
    if A.p: jobs += [(i, p) for p in (["C%02d" % n for n in range(1, 15)] if A.p == "all" else A.p.split(","))]
    else: jobs.append((i, json.load(open(os.path.join(A.d, i, "meta.json")))["property"]))
with concurrent.futures.ThreadPoolExecutor(A.j) as ex:
    for i, p, m, s in ex.map(one, jobs): print("%-16s %s %5.0fs %s" % (i, p, s, m), flush=True)
