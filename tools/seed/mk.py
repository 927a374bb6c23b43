#!/usr/bin/env python3
"""mk.py [ID...]: (re)makes /verif/seeded/ID from defs*.py and confirms it in a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile, glob, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
S = []
for f in sorted(glob.glob(HERE + "/defs*.py")):
    g = {}
    exec(open(f).read(), g)
    S += g["SEEDS"]

def sh(c, cwd, env=None, timeout=900):
    return subprocess.run(c, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)

def one(s):
    out = os.path.join(VER, "seeded", s["id"])
    with tempfile.TemporaryDirectory(prefix="seed-") as t:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run("cp -a /repo/Cargo.lock %s/ 2>/dev/null; cp -a /repo/.cargo %s/ 2>/dev/null; true" % (r, r), shell=True)
        d = os.path.join(t, "demo"); os.makedirs(d)
        for f in ("run.py", "demo.sh"): shutil.copy(os.path.join(HERE, f), d)
        shutil.copy(os.path.join(VER, "harness/src/refimpl.rs"), d)
        open(os.path.join(d, "demo.rs"), "w").write(
            "#![allow(warnings)]\nmod refimpl;\nuse refimpl::*;\n" + s["demo"])
        a = sh(["sh", d + "/demo.sh"], r)
        if a.returncode != 0: return s["id"], "demo fails on the unchanged tree\n" + a.stdout + a.stderr
        for (f, old, new) in s["edits"]:
            p = os.path.join(r, f); x = open(p).read()
            if x.count(old) != 1: return s["id"], "%d matches of %r in %s" % (x.count(old), old, f)
            open(p, "w").write(x.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        b = sh(["sh", d + "/demo.sh"], r, dict(os.environ, RUST_BACKTRACE="0"))
        if b.returncode == 0: return s["id"], "demo passes with the change"
        if "error" in b.stderr and "panicked" not in b.stderr: return s["id"], "demo does not build\n" + b.stderr[-1500:]
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(t, "target"))
        c = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], r, env)
        if c.returncode != 0: return s["id"], "tests fail\n" + c.stdout[-1500:] + c.stderr[-1500:]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return s["id"], "ok (demo: %s)" % (b.stdout + b.stderr).strip()[:160].replace("\n", " | ")

sel = [s for s in S if not sys.argv[1:] or s["id"] in sys.argv[1:]]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, sel): print(i, m, flush=True)
