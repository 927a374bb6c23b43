#!/usr/bin/env python3
# builds the crate in the current directory and demo.rs beside this file, runs the demo
import os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as t:
    lib = os.path.join(t, "libdumb_crypto.rlib")
    opt = ["--edition", "2021", "-O", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "--cap-lints", "allow"]
    subprocess.run(["rustc", "--crate-type", "rlib", "--crate-name", "dumb_crypto"] + opt[2:] + ["--edition", "2018", "-o", lib, "src/lib.rs"], check=True)
    exe = os.path.join(t, "demo")
    subprocess.run(["rustc"] + opt + ["--extern", "dumb_crypto=" + lib, "-o", exe, os.path.join(here, "demo.rs")], check=True)
    try:
        r = subprocess.run([exe], timeout=200)
    except subprocess.TimeoutExpired:
        print("demo did not return")
        sys.exit(1)
    sys.exit(0 if r.returncode == 0 else 1)
