#!/usr/bin/env python3
"""mk.py OUTDIR [ID...]: writes the patches of defs.py (behaviour-preserving edits) after building and testing each"""
import os, re, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__)); g = {}
for d in ("defs.py", "defs2.py", "defs3.py", "defs4.py"): exec(open(HERE + "/" + d).read(), g)
OUT = sys.argv[1]; os.makedirs(OUT, exist_ok=True)
def one(x):
    i, props, edits = x
    with tempfile.TemporaryDirectory(prefix="refac-") as t:
        r = t + "/repo"; subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run("cp -a /repo/Cargo.lock %s/ 2>/dev/null; true" % r, shell=True)
        for f, o, n in edits:
            s = open(r + "/" + f).read()
            if o.startswith("word:"):
                open(r + "/" + f, "w").write(re.sub(r"\b%s\b" % o[5:], n, s)); continue
            if s.count(o) != 1: return i, "%d matches of %r" % (s.count(o), o[:60])
            open(r + "/" + f, "w").write(s.replace(o, n))
        c = subprocess.run(["cargo", "test", "--lib", "--release", "--offline", "--no-fail-fast"], cwd=r, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=t + "/target", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true"))
        if c.returncode: return i, "tests fail\n" + c.stdout[-800:] + c.stderr[-1500:]
        open(OUT + "/" + i + ".diff", "w").write(subprocess.run(["git", "diff", "--", "src"], cwd=r, capture_output=True, text=True).stdout)
        open(OUT + "/" + i + ".props", "w").write(props)
        return i, "ok"
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, [x for x in g["R"] + g["R2"] + g["R3"] + g["R4"] if not sys.argv[2:] or x[0] in sys.argv[2:]]):
        if m != "ok": print(i, m, flush=True)
