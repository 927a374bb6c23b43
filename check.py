#!/usr/bin/env python3
"""check.py PROPERTY          decide one property on /repo's current working tree
   check.py --setup           build the tools
   check.py --baseline        rewrite specs/shapes.json and specs/literals.json

Environment: VERIF_TIER (quick|thorough), VERIF_SEED, DC_REPO (default /repo; only for
trying changes in a scratch copy), DC_WORK (default /verif/work), DC_EVID (default /verif/evidence).

Order of business (see DESIGN.md):
  1. the typer and the weaver turn the current source into one Verus file, the contracts woven in
  2. Verus discharges the obligations, function by function
  3. all discharged: a short concrete run as a cross-check of the trusted base, exit 0
     otherwise: a long concrete search on the real crate.  A failing input is a violation.
     Without one: a hard obligation of this property that failed in a function whose outline is
     the committed one is reported as a violation with no-failing-input-found; anything else is
     undecided by proof and falls back to the (bounded) search, exit 0.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DC_REPO", "/repo")
WORK = os.environ.get("DC_WORK", os.path.join(HERE, "work"))
EVID = os.environ.get("DC_EVID", os.path.join(HERE, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = max(1, min(8, len(os.sched_getaffinity(0)) if hasattr(os, "sched_getaffinity") else 8))
NSHARDS = 8
GUIDED = 3  # of them coverage-guided in a deep search

sys.path.insert(0, os.path.join(HERE, "tools"))
import props  # noqa: E402


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


class Broken(Exception):
    """the check itself cannot give an answer"""


# ------------------------------------------------------------------ tools
def cargo(dir_, target, args, env=None, timeout=600):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    return run(["cargo"] + args, timeout, cwd=dir_, env=e)


def newest(d):
    t = 0
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != "target"]
        for f in files:
            t = max(t, os.stat(os.path.join(root, f)).st_mtime)
    return t


def build_tools():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for name, pre in (("typer", ["+nightly"]), ("weaver", [])):
            t = os.path.join(WORK, name)
            b = os.path.join(t, "release", name)
            if os.path.exists(b) and os.stat(b).st_mtime >= newest(os.path.join(HERE, name)):
                continue
            rc, o, e = cargo(os.path.join(HERE, name), t, pre + ["build", "--release", "--offline"])
            if rc != 0:
                raise Broken("building %s failed\n%s" % (name, e[-3000:]))
            os.utime(b)


def sysroot():
    rc, o, e = run(["rustc", "+nightly", "--print", "sysroot"], 60)
    if rc != 0:
        raise Broken("no nightly toolchain: " + e)
    return o.strip()


def build_harness(rundir):
    """-> path or (None, why)"""
    h = os.path.join(HERE, "harness")
    target = os.path.join(WORK, "harness")
    if REPO != "/repo":
        h2 = os.path.join(rundir, "harness")
        shutil.rmtree(h2, ignore_errors=True)
        shutil.copytree(h, h2, ignore=shutil.ignore_patterns("target"))
        c = open(os.path.join(h2, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
        open(os.path.join(h2, "Cargo.toml"), "w").write(c)
        h = h2
    rc, o, e = cargo(h, target, ["build", "--release", "--offline"])
    if rc != 0:
        return None, e[-4000:]
    b = os.path.join(target, "release", "harness")
    rc, o, e = run([b, "selftest"], 60)
    if rc != 0:
        raise Broken("the reference implementation fails its known answers: " + o + e)
    # a copy, so that a later build does not change it under a running search
    c = os.path.join(rundir, "harness.bin")
    shutil.copy2(b, c)
    return c, o.strip()


def build_guided(rundir):
    """the same program over an instrumented build of the crate, for the coverage-guided part of a deep search; None if
    it cannot be had (the plain search does not need it)"""
    h = os.path.join(HERE if REPO == "/repo" else rundir, "harness")
    target = os.path.join(WORK, "harness-cov")
    rc, o, e = cargo(h, target, ["build", "--release", "--offline", "--features", "cov"], env={"RUSTC_WRAPPER": os.path.join(h, "cov-rustc.sh")})
    if rc != 0:
        return None
    c = os.path.join(rundir, "harness-cov.bin")
    shutil.copy2(os.path.join(target, "release", "harness"), c)
    rc, o, e = run([c, "selftest"], 60)
    rc2, o2, e2 = run([c, "instrumented"], 60)
    return c if rc == 0 and rc2 == 0 and o2.strip() == "true" else None


# ------------------------------------------------------------------ literals of the source
def strip_source(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    k = t.find("#[cfg(test)]")
    return t if k < 0 else t[:k]


def literals(repo):
    ints, strs = set(), set()
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            t = strip_source(open(os.path.join(root, f), errors="replace").read())
            for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t):
                s = m.group(1)
                try:
                    b = s.encode("utf-8").decode("unicode_escape").encode("latin-1")
                except (UnicodeError, ValueError):
                    continue
                if 0 < len(b) <= 256:
                    strs.add(b.hex())
            t2 = re.sub(r'b?"((?:[^"\\]|\\.)*)"', '""', t)
            for m in re.finditer(r"b?'(\\x[0-9a-fA-F]{2}|\\.|[^'\\])'", t2):
                s = m.group(1)
                try:
                    v = s.encode().decode("unicode_escape")
                    ints.add(ord(v))
                except (UnicodeError, ValueError, TypeError):
                    pass
            for m in re.finditer(r"(?<![A-Za-z0-9_])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?", t2):
                try:
                    v = int(m.group(1).replace("_", ""), 0) if not re.fullmatch(r"0[0-9_]+", m.group(1)) else int(m.group(1).replace("_", ""))
                except ValueError:
                    continue
                if v < 1 << 64:
                    ints.add(v)
            # arrays of small literals are byte strings worth trying
            for m in re.finditer(r"\[([^\[\]]{1,2000})\]", t2):
                v = [x.strip() for x in m.group(1).split(",") if x.strip()]
                if 2 <= len(v) <= 64 and all(re.fullmatch(r"(0x[0-9a-fA-F]{1,2}|[0-9]{1,3})(u8)?", x) for x in v):
                    b = [int(x.replace("u8", ""), 0) if not re.fullmatch(r"0\d+", x) else int(x) for x in v]
                    if all(x < 256 for x in b):
                        strs.add(bytes(b).hex())
    return ints, strs


def dictionary(path):
    base = json.load(open(os.path.join(HERE, "specs", "literals.json")))
    ints, strs = literals(REPO)
    bi, bs = set(base["ints"]), set(base["strs"])
    with open(path, "w") as f:
        for v in sorted(ints):
            f.write("%s %d\n" % ("i" if v in bi else "n", v))
        for s in sorted(strs):
            f.write("s %s\n" % s)
    return len(ints - bi), len(strs - bs)


# ------------------------------------------------------------------ proof
class Unit:
    """one function of the crate (or one spec unit) as the verifier left it"""

    def __init__(self, name):
        self.name = name
        self.fails = []       # (kind, message, text, label lines)
        self.rlimit = False
        self.unsupported = []
        self.lost = []
        self.opaque = False


KINDS = [
    ("arithmetic underflow/overflow", "safety"),
    ("possible division by zero", "safety"),
    ("bit shift", "safety"),
    ("precondition not satisfied", "precondition"),
    ("postcondition not satisfied", "post"),
    ("invariant not satisfied", "invariant"),
    ("decreases not satisfied", "termination"),
    ("could not prove termination", "termination"),
    ("assertion failed", "assert"),
    ("loop must have a decreases clause", "termination"),
]


def classify(msg):
    for k, v in KINDS:
        if k in msg:
            return v
    if "esource limit" in msg or "rlimit" in msg:
        return "rlimit"
    return None


class Weave:
    def __init__(self, rundir, tag, modules, probe=False):
        self.dir = os.path.join(rundir, tag)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.modules = modules
        self.probe = probe
        self.facts = True
        self.rs = os.path.join(self.dir, "woven.rs")
        self.js = os.path.join(self.dir, "woven.json")
        self.info = None
        self.diags = []
        self.out = None
        self.secs = 0.0
        self.cmd = ""

    def weave(self, types, opaque=()):
        w = os.path.join(WORK, "weaver", "release", "weaver")
        c = [w, os.path.join(REPO, "src"), types, os.path.join(HERE, "specs"), self.rs, self.js]
        if self.modules:
            c += ["--modules", ",".join(self.modules)]
        if opaque:
            c += ["--opaque", ",".join(sorted(opaque))]
        if self.probe:
            c += ["--probe", "1"]
        if not self.facts:
            c += ["--facts", "0"]
        rc, o, e = run(c, 120)
        if rc != 0:
            return "weaver: " + e[-1500:]
        self.info = json.load(open(self.js))
        self.text = open(self.rs).read().split("\n")
        return None

    def verus(self, extra=(), timeout=300):
        c = ["verus", "woven.rs", "--crate-type", "lib", "--triggers-mode", "silent", "--output-json",
             "--time-expanded", "--error-format=json", "--num-threads", str(NCPU)] + list(extra)
        self.cmd = " ".join(c)
        t = time.time()
        rc, o, e = run(c, timeout, cwd=self.dir)
        self.secs += time.time() - t
        self.rc = rc
        self.diags = []
        self.noise = ""
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    self.diags.append(json.loads(l))
                    continue
                except ValueError:
                    pass
            if l.strip():
                self.noise += l + "\n"
        k = o.find("{")
        try:
            self.out = json.loads(o[k:]) if k >= 0 else None
        except ValueError:
            self.out = None
        return rc

    # which unit does a line of the woven file belong to
    def unit_at(self, line):
        for f in self.info["functions"]:
            if f["from"] <= line <= f["to"]:
                return f["fn"], None
        for r in self.info["regions"]:
            if r["kind"] == "prelude" and r["from"] <= line <= r["to"]:
                for k in range(min(line, len(self.text)) - 1, r["from"] - 2, -1):
                    m = re.search(r"\bfn\s+(\w+)", self.text[k])
                    if m:
                        return None, m.group(1)
                return None, "prelude"
        return None, None

    def kind_at(self, line):
        best = ""
        for r in self.info["regions"]:
            if r["fn"] and r["from"] <= line <= r["to"]:
                best = r["kind"]
        return best

    def breakdown(self):
        fb = []
        try:
            for m in self.out["times-ms"]["smt"]["smt-run-module-times"]:
                fb += m.get("function-breakdown", [])
        except (KeyError, TypeError):
            pass
        return fb


def render(d):
    s = [d.get("message", "")]
    for sp in d.get("spans", []):
        txt = " ".join(x["text"].strip() for x in sp.get("text", []))[:200]
        s.append("  at woven.rs:%d %s| %s" % (sp["line_start"], (sp.get("label") or "") + " ", txt))
    return "\n".join(s)


def collect(w, units):
    """sorts the diagnostics of a finished run into the units; returns the hard errors that are not
    proof failures (what the verifier could not read), per function"""
    unreadable = []
    for d in w.diags:
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        kind = classify(msg)
        fn = lemma = None
        spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
        for sp in spans:
            f, l = w.unit_at(sp["line_start"])
            # a precondition belongs to the caller, whichever span comes first
            if f or l:
                fn, lemma = f, l
                break
        if kind == "precondition":
            for sp in spans:
                if "precondition" not in (sp.get("label") or ""):
                    f, l = w.unit_at(sp["line_start"])
                    if f or l:
                        fn, lemma = f, l
                        break
        name = fn or ("lemma " + lemma if lemma else "?")
        u = units.setdefault(name, Unit(name))
        if kind == "rlimit":
            u.rlimit = True
        elif kind:
            u.fails.append((kind, msg, render(d), w.kind_at(spans[0]["line_start"]) if spans else ""))
        else:
            u.unsupported.append(render(d))
            unreadable.append((name, fn, d))
    return unreadable


def prove(rundir, modules, types, tag="proof", thorough=False, deadline=None, probe=False):
    """-> (Weave, units, notes) after as many rounds as it takes to get a readable file"""
    w = Weave(rundir, tag, modules, probe)
    opaque = set()
    notes = []
    units = {}
    reasons = {}
    for rnd in range(9):
        err = w.weave(types, opaque)
        if err:
            return w, None, [err]
        units = {}
        extra = ["--multiple-errors", "20"]
        left = 300 if deadline is None else max(20, min(300, deadline - time.time()))
        w.verus(extra, timeout=left)
        if w.rc is None:
            return w, None, ["verifier timed out after %d s" % left]
        unreadable = collect(w, units)
        # equations woven in for respelled expressions (weaver/src/facts.rs) are hints only: without them where one
        # of them is what fails
        woven = {f["fn"] for f in w.info["functions"] if f.get("facts")}
        if w.facts and woven and (any(fn in woven for _, fn, _ in unreadable)
                                  or any(x[3] == "fact" for u in units.values() for x in u.fails)):
            w.facts = False
            notes.append("without the equations for respelled expressions")
            continue
        vr = (w.out or {}).get("verification-results", {})
        if not unreadable and w.out is not None and not vr.get("encountered-vir-error"):
            break
        new = set()
        for name, fn, d in unreadable:
            if fn and fn not in opaque:
                new.add(fn)
                reasons.setdefault(fn, render(d)[:600])
        if not new:
            return w, None, ["verifier cannot read the woven file: " + "; ".join(render(d)[:400] for _, _, d in unreadable[:3])
                             + w.noise[-400:]]
        opaque |= new
    else:
        return w, None, ["no readable program after 9 rounds"]
    # a query that ran out of resources gets a second, longer try
    if any(u.rlimit for u in units.values()) and (deadline is None or deadline - time.time() > 60):
        left = 280 if deadline is None else min(280, deadline - time.time())
        keep = (w.diags, w.out)
        w.verus(["--multiple-errors", "20", "--rlimit", "60"], timeout=left)
        if w.rc is not None and w.out is not None:
            units = {}
            collect(w, units)
            notes.append("second run with a larger resource limit")
        else:
            w.diags, w.out = keep
    for f in w.info["functions"]:
        if f["opaque"] or f["lost"] or f["errors"] or not f["contract"]:
            u = units.setdefault(f["fn"], Unit(f["fn"]))
            u.opaque = f["opaque"]
            u.lost = f["lost"]
            if f["opaque"]:
                u.unsupported.append(reasons.get(f["fn"]) or "; ".join(f["errors"]) or "not translatable")
    return w, units, notes


# ------------------------------------------------------------------ the lowered text, run
RFLAGS = ["-C", "opt-level=3", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]


class Lowered(threading.Thread):
    """Compiles the woven text of the whole crate (ghost code erased) and runs the search program over it instead of the
    crate: a lowering that misrepresents the code shows up as a difference to the reference, which the crate agrees with.
    It never raises an alarm; where it disagrees the proof is not counted."""

    def __init__(self, rundir, prop, types, w, secs, dict_):
        super().__init__(daemon=True)
        self.a = (rundir, prop, types, w, secs, dict_)
        self.res = {"ran": False, "why": "not finished"}
        self.start()

    def run(self):
        try:
            self.res = self.go(*self.a)
        except Exception as e:  # never decides anything by itself
            self.res = {"ran": False, "why": repr(e)[:300]}

    def go(self, rundir, prop, types, w, secs, dict_):
        fw = Weave(rundir, "lowered", None)
        fw.facts = w.facts
        err = fw.weave(types, ())
        if err:
            return {"ran": False, "why": err[-300:]}
        norm = lambda x, f: re.sub(r"\s+", " ", " ".join(x.text[f["from"] - 1:f["to"]]))
        mine = {f["fn"]: norm(fw, f) for f in fw.info["functions"]}
        odd = [f["fn"] for f in w.info["functions"] if mine.get(f["fn"]) != norm(w, f)]
        if odd:
            return {"ran": False, "why": "the whole crate is lowered differently: " + ", ".join(odd)[:300]}
        lib, b = os.path.join(fw.dir, "libwoven.rlib"), os.path.join(fw.dir, "run.bin")
        rc, o, e = run(["verus", "woven.rs", "--crate-type", "lib", "--no-verify", "--compile"] + RFLAGS + ["-o", lib], 120, cwd=fw.dir)
        if rc != 0:
            return {"ran": False, "why": "the woven text does not compile: " + e[-300:]}
        rc, o, e = run(["verus", os.path.join(HERE, "harness/src/main.rs"), "--crate-type", "bin", "--edition", "2021", "--no-verify", "--compile",
                        "--cfg", "woven", "--extern", "dumb_crypto=" + lib] + RFLAGS + ["-o", b], 120, cwd=fw.dir)
        if rc != 0:
            return {"ran": False, "why": "the search program does not build against the woven text: " + e[-300:]}
        found, st = Search(b, prop, "smoke", secs, fw.dir, dict_).wait(secs + 120)
        return {"ran": True, "evaluations": st["evaluations"], "secs": st["secs"], "disagrees": found["why"][:300] if found else None,
                "cases": found["cases"][:2] if found else [], "functions_compiled": len(mine)}


# ------------------------------------------------------------------ outline of the functions
def reshaped(fn, now, base):
    """does the outline differ from the committed one: other loops, new names, new calls"""
    b = base.get(fn)
    if b is None:
        return ["new function"]
    r = []
    if b["loops"] != now["loops"]:
        r.append("loops %s -> %s" % (b["loops"], now["loops"]))
    for k in ("names", "calls"):
        add = [x for x in now[k] if x not in b[k]]
        if add:
            r.append("new %s %s" % (k, ",".join(add)))
    return r


# ------------------------------------------------------------------ concrete search
class Search:
    def __init__(self, binary, prop, mode, secs, rundir, dict_, guided=None):
        self.p = []
        self.prop, self.bin, self.dir = prop, binary, os.path.join(rundir, "l3-" + mode)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.mode, self.secs = mode, secs
        ng = GUIDED if guided else 0
        plain = NSHARDS - ng
        for s in range(NSHARDS):
            cur = os.path.join(self.dir, "cur%d" % s)
            out = os.path.join(self.dir, "out%d" % s)
            self.p.append((subprocess.Popen(
                [binary, "run", prop, mode, str(secs), str(SEED), str(s), str(plain), dict_, cur, out] if s < plain else
                [guided, "run", prop, "guided", str(secs), str(SEED), str(s), str(NSHARDS), dict_, cur, out],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True), cur, out))

    def stop(self):
        for p, _, _ in self.p:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        for p, _, _ in self.p:
            p.wait()

    def wait(self, limit):
        """-> (result, stats); result None or dict(cases, why)"""
        res = None
        end = time.time() + limit
        pend = list(self.p)
        stats = {"evaluations": 0, "classes": 0, "samples": [], "systematic": 0, "systematic_complete": True, "unfinished_shards": 0}
        while pend and time.time() < end:
            for x in list(pend):
                p, cur, out = x
                rc = p.poll()
                if rc is None:
                    continue
                pend.remove(x)
                if rc == 0:
                    for l in open(out):
                        t = l.split(None, 1)
                        if t[0] == "evaluations":
                            stats["evaluations"] += int(t[1])
                        elif t[0] == "systematic":
                            a, b = t[1].split()
                            stats["systematic"] = max(stats["systematic"], int(a))
                            if b != "true":
                                stats["systematic_complete"] = False
                        elif t[0] == "guided":
                            v = [int(x) for x in t[1].split()]
                            g = stats.setdefault("guided", {"evaluations": 0, "kept": 0, "branches": 0, "of": v[3]})
                            g["evaluations"] += v[0]
                            g["kept"] += v[1]
                            g["branches"] = max(g["branches"], v[2])
                        elif t[0] == "distinct":
                            stats["classes"] += int(t[1])
                        elif t[0] == "sample" and len(stats["samples"]) < 4:
                            stats["samples"].append(t[1].strip()[:200])
                    continue
                cand = self.candidate(rc, cur, out)
                if cand:
                    res = cand
                    pend = []
                    break
                stats["unfinished_shards"] += 1
            if pend:
                time.sleep(0.05)
        stats["unfinished_shards"] += len(pend)
        self.stop()
        stats["secs"] = round(time.time() - self.t0, 1)
        return res, stats

    def candidate(self, rc, cur, out):
        cases, why = [], ""
        if rc == 1 and os.path.exists(out):
            for l in open(out):
                if l.startswith("case "):
                    cases.append(l.rstrip("\n"))
                elif l.startswith("why "):
                    why = l[4:].strip()
        elif os.path.exists(cur):
            t = open(cur, errors="replace").read().split("\n")[0]
            if t.strip():
                cases = ["case " + t]
            why = "does not return within the watchdog limit" if rc == 4 else "process ended with status %s" % rc
            if rc == -9:
                return None  # out of memory or stopped from outside: not a verdict
        if not cases:
            return None
        # confirm, with as little history as reproduces it
        for n in (1, 10, 200, 2000, 4000):
            sub = cases[-n:]
            f = os.path.join(self.dir, "candidate")
            with open(f, "w") as g:
                g.write("property %s\n%s\nwhy %s\n" % (self.prop, "\n".join(sub), why))
            rc2, o, e = run([self.bin, "replay", f], 300)
            if rc2 == 1 or rc2 is None or (rc2 < 0 and rc2 != -9):
                return {"cases": sub, "why": why, "replay": (o or "")[-2000:]}
            if n >= len(cases):
                break
        return None


# ------------------------------------------------------------------ main
def evidence(prop, ev):
    d = EVID
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def scan_trusted(w):
    """mechanical scan for anything assumed in the file the verifier accepted"""
    t = "\n".join(w.text)
    t = re.sub(r"//[^\n]*", "", t)
    r = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\n]+?)\s*\]\s*\(", t):
        r.append("assumed specification of " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"external_body\][^\n]*\n?[^\n]*?\bfn\s+(\w+)", t):
        r.append("body not verified: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        r.append("%s in line %d" % (m.group(1), t[:m.start()].count("\n") + 1))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)|external_type_specification|external_trait_specification", t):
        r.append("axiom " + (m.group(1) or m.group(0)))
    if "global size_of usize" in t:
        r.append("usize is 8 bytes")
    return sorted(set(r))


def check(prop):
    t0 = time.time()
    cfg = props.PROPS[prop]
    thorough = TIER == "thorough"
    rundir = os.path.join(WORK, "run", prop)
    os.makedirs(rundir, exist_ok=True)
    replay = os.path.join(EVID, "replay-%s.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    build_tools()
    sr = sysroot()
    # ---- concrete side starts first, it needs no proof
    dict_ = os.path.join(rundir, "dict")
    new_lits = dictionary(dict_)
    harness, hmsg = build_harness(rundir)
    smoke_secs = 4 if not thorough else 20
    # ---- proof
    types = os.path.join(rundir, "types.txt")
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sr + "/lib:" + env.get("LD_LIBRARY_PATH", "")
    rc, o, e = run([os.path.join(WORK, "typer", "release", "typer"), types, os.path.join(REPO, "src", "lib.rs"),
                    "--crate-type", "lib", "--edition", "2018", "--sysroot", sr, "--crate-name", "dumb_crypto", "--cap-lints", "allow"],
                   120, env=env)
    if rc != 0:
        raise Broken("the crate does not compile: " + e[-2000:])
    notes = []
    modules = cfg["modules"]
    deadline = t0 + 420
    w, units, n1 = prove(rundir, modules, types, "proof", thorough, deadline)
    notes += n1
    if units is None and modules:
        # functions moved between modules, say: try the whole crate
        w2, units2, n2 = prove(rundir, None, types, "proof-all", thorough, deadline)
        notes += n2
        if units2 is not None:
            w, units = w2, units2
    shapes = json.load(open(os.path.join(HERE, "specs", "shapes.json")))
    fb = w.breakdown() if units is not None else []
    discharged = sum(1 for f in fb if f["success"])
    undecided, failed, whole = [], [], []
    if units is None:
        undecided.append("whole program: " + "; ".join(notes)[:1500])
    else:
        fnames = {f["fn"]: f for f in w.info["functions"]}
        for u in list(units.values()):
            tag = []
            if u.rlimit:
                tag.append("resource limit")
            if u.unsupported:
                tag.append("not readable by the verifier: " + u.unsupported[0][:300])
            firm = [x for x in u.lost if x.startswith(("contract", "parameter", "arity"))]
            if firm or (u.lost and u.fails):
                tag.append("contract text without a referent: " + ", ".join(u.lost)[:200])
            if u.name in fnames:
                rs = reshaped(u.name, fnames[u.name]["shape"], shapes)
                if rs and u.fails:
                    tag.append("outline differs from the one the hints are written for: " + "; ".join(rs)[:200])
                if not fnames[u.name]["contract"] and u.fails:
                    tag.append("no contract")
                if not tag and not u.fails:
                    # hints that found nothing to refer to, and were not needed
                    del units[u.name]
                    continue
            if u.fails and not tag:
                failed.append(u)
            elif u.fails or tag:
                undecided.append("%s: %s" % (u.name, "; ".join(tag) or "?"))
        if not fb or discharged == 0:
            whole.append("the verifier generated no obligations")
        vr = w.out["verification-results"]
        if not units and (not vr.get("success") or vr.get("errors")):
            whole.append("the verifier did not accept the file: %s %s" % (vr, w.noise[-300:]))
        # every function under contract must still have been there
        names = {f["function"].replace("woven::", "", 1) for f in fb}
        lack = [t for t in cfg["theorems"] if " " not in t and t not in names]
        if lack:
            whole.append("the verifier did not check " + ", ".join(lack))
        whole += ["not translated: " + x for x in w.info["dropped"] if "impl Drop " in x]
        # what concerns the run as a whole
        undecided += whole
        gone = [k for k in w.info["missing"] if cfg["modules"] is None or k.split("::")[0] in cfg["modules"]]
        if gone:
            notes.append("contracts without a function: " + ", ".join(gone))
    # a failure is this property's when it is in one of its hard functions, of the right kind
    hard = []
    soft = []
    for u in failed:
        mine = [f for f in u.fails if props.is_hard(prop, u.name, f)]
        (hard if mine else soft).append((u, mine))
    tainted = bool(undecided)
    proved = units is not None and not undecided and not failed
    # failures that by themselves do not touch the property leave its proof in place only when
    # nothing the property depends on failed; props.irrelevant() says which do not matter
    if not proved and units is not None and not whole:
        rel = [u for u in units.values() if props.relevant(prop, u)]
        if not rel:
            proved = True
            notes.append("obligations outside this property failed: " + ", ".join(sorted(units)))

    # ---- concrete side
    l3 = {}
    found = None
    if harness:
        mode = "smoke" if proved and not thorough else "deep"
        s = Search(harness, prop, mode, smoke_secs if proved else (120 if thorough else props.DEEP_SECS), rundir, dict_,
                   build_guided(rundir) if mode == "deep" else None)
        found, l3 = s.wait(60 + (smoke_secs if proved else 400))
        if found is None and proved and thorough:
            pass
    elif not proved:
        notes.append("the search program does not build against this tree: " + hmsg[-600:])
    # ---- the woven text itself, compiled and run
    low = Lowered(rundir, prop, types, w, 30 if thorough else 3, dict_) if units is not None and proved and not found else None
    # ---- vacuity probes
    probes = None
    if units is not None and proved and (thorough or cfg.get("probe", True)):
        pw = Weave(rundir, "probe", w.modules, True)
        if pw.weave(types, ()) is None:
            pw.verus(["--multiple-errors", "100"], timeout=240)
            want = sum(f["probes"] for f in pw.info["functions"])
            lines = set()
            for i, l in enumerate(pw.text):
                if "sp_probe(" in l and "uninterp" not in l:
                    lines.add(i + 1)
            hit = set()
            rl = set()
            for d in pw.diags:
                for sp in d.get("spans", []):
                    if sp["line_start"] in lines and d.get("level") == "error":
                        hit.add(sp["line_start"])
                if d.get("level") == "error" and classify(d.get("message", "")) == "rlimit":
                    for sp in d.get("spans", []):
                        rl.add(pw.unit_at(sp["line_start"])[0])
            silent = [l for l in sorted(lines - hit) if pw.unit_at(l)[0] not in rl]
            probes = {"probes": want, "reachable": len(hit), "resource_limit_functions": sorted(x for x in rl if x),
                      "unreachable": ["%s (line %d)" % (pw.unit_at(l)[0], l) for l in silent]}
            if pw.rc is None:
                probes["unreachable"] = []
                probes["timeout"] = True
            if silent and pw.rc is not None:
                # a proof behind an unreachable point proves nothing
                proved = False
                undecided.append("vacuous: " + "; ".join(probes["unreachable"])[:500])

    lowered = None
    if low:
        low.join(400)
        lowered = low.res
        if lowered.get("disagrees"):
            proved = False
            undecided.append("the lowered text does not behave like the crate: " + lowered["disagrees"])

    # ---- verdict
    known = known_findings(prop)
    verdict, line = 0, None
    if found:
        with open(replay, "w") as f:
            f.write("property %s\n# replay: work/run/%s/harness.bin replay <this file>   (or: check.py --replay <this file>)\n" % (prop, prop))
            f.write("\n".join(found["cases"]) + "\nwhy %s\n" % found["why"])
            for u, m in hard + soft:
                for k in (m or u.fails)[:3]:
                    f.write("# failed obligation in %s: %s\n" % (u.name, k[2].replace("\n", "\n#   ")))
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, replay)
    elif hard and not tainted:
        with open(replay, "w") as f:
            f.write("property %s\n# no failing input found; the obligations below were discharged on the committed tree and are not now\n" % prop)
            for u, m in hard:
                for k in m[:6]:
                    f.write("obligation %s [%s] %s\n%s\n" % (u.name, k[0], k[3], k[2]))
            f.write("# verifier: %s\n# %s\n" % (w.cmd, json.dumps(w.out["verification-results"])))
        verdict, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)

    # ---- evidence
    fns = []
    if w.info:
        bd = {}
        for f in fb:
            bd.setdefault(f["function"].replace("woven::", ""), f)
        for f in w.info["functions"]:
            u = (units or {}).get(f["fn"])
            st = "discharged" if units is not None and u is None else "not decided"
            if u is not None:
                st = "failed" if u in failed else "bounded search only"
            fns.append({"fn": f["fn"], "contract": f["contract"], "loops": f["loops"], "status": st})
    # labels, notes
    status = "violated" if verdict else ("proved" if proved else "bounded (not proved on this tree)")
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "status": status,
            "obligations": len(fb),
            "discharged": discharged,
            "obligation_unit": "one SMT query of the verifier: a function body against its contract, a recommendation-free spec unit or a lemma",
            "checker_cmd": "cd %s && %s" % (w.dir, w.cmd),
            "backend": "Verus 0.2026.09.13 / Z3 (one query per function), compute_only by Verus's interpreter",
            "solver_seconds": round(sum(f.get("time", 0) for f in fb) / 1000.0, 2),
            "verifier_wall_s": round(w.secs, 1),
            "functions": fns,
            "functions_under_contract": sum(1 for f in fns if f["contract"]),
            "functions_discharged": sum(1 for f in fns if f["status"] == "discharged" and f["contract"]),
            "theorems": cfg["theorems"],
            "failed": [{"unit": u.name, "obligation": [k[2] for k in u.fails[:4]]} for u in failed],
            "undecided": undecided,
            "not_verified_items": [x for x in (w.info or {}).get("dropped", []) if not x.startswith("use ")],
            "probes": probes,
            "trusted_base": props.TRUSTED + (scan_trusted(w) if w.info else []),
            "cross_check": dict(l3, rule="systematic boundary cases, then random cases; judged by an independent reference implementation "
                                "against the compiled crate (overflow checks on); classes = distinct (operation, size class) shapes per shard",
                                kind="bounded, not counted as proof", new_literals=list(new_lits)) if l3 else {"note": hmsg[-500:]},
            "lowered_text_run": dict(lowered or {"ran": False, "why": "only after a proof"},
                                     rule="the text the verifier accepted, compiled with ghost code erased and judged like the crate; bounded, not counted as proof"),
            "notes": notes,
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if verdict else 0,
    }
    evidence(prop, ev)
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    log("%s: %s; %d of %d obligations discharged, %.1f s verifier; search: %s evaluations (%s); %.1f s" % (
        prop, status, discharged, len(fb), w.secs, l3.get("evaluations", "no"), "smoke" if proved else "deep", time.time() - t0))
    for x in undecided[:6]:
        log("  undecided: " + x[:500])
    for u, m in hard + soft:
        for k in u.fails[:3]:
            log("  failed in %s: %s" % (u.name, k[2].replace("\n", "\n    ")[:600]))
    if line:
        log(line)
    return verdict


def baseline():
    build_tools()
    rundir = os.path.join(WORK, "run", "baseline")
    os.makedirs(rundir, exist_ok=True)
    sr = sysroot()
    types = os.path.join(rundir, "types.txt")
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sr + "/lib"
    rc, o, e = run([os.path.join(WORK, "typer", "release", "typer"), types, os.path.join(REPO, "src", "lib.rs"),
                    "--crate-type", "lib", "--edition", "2018", "--sysroot", sr, "--crate-name", "dumb_crypto"], 120, env=env)
    w = Weave(rundir, "base", None)
    err = w.weave(types)
    if rc != 0 or err:
        raise Broken(e + str(err))
    sh = {f["fn"]: f["shape"] for f in w.info["functions"]}
    json.dump(sh, open(os.path.join(HERE, "specs", "shapes.json"), "w"), indent=1, sort_keys=True)
    bi = {f["fn"]: f["binds"] for f in w.info["functions"] if f["contract"]}
    json.dump(bi, open(os.path.join(HERE, "specs", "binds.json"), "w"), indent=0, sort_keys=True)
    lo = {f["fn"]: f["heads"] for f in w.info["functions"] if f["contract"] and f["heads"]}
    json.dump(lo, open(os.path.join(HERE, "specs", "loops.json"), "w"), indent=0, sort_keys=True)
    ex = {f["fn"]: f["exprs"] for f in w.info["functions"]}
    json.dump(ex, open(os.path.join(HERE, "specs", "exprs.json"), "w"), indent=0, sort_keys=True)
    i, s = literals(REPO)
    json.dump({"ints": sorted(i), "strs": sorted(s)}, open(os.path.join(HERE, "specs", "literals.json"), "w"), indent=0)
    log("%d functions, %d literals" % (len(sh), len(i)))


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build_tools()
            rd = os.path.join(WORK, "run", "setup")
            os.makedirs(rd, exist_ok=True)
            b, m = build_harness(rd)
            g = build_guided(rd) if b else None
            log("tools built;", m[-300:], "" if g else "(no instrumented build)")
            return 0
        if a[:1] == ["--baseline"]:
            baseline()
            return 0
        if a[:1] == ["--replay"]:
            rd = os.path.join(WORK, "run", "replay")
            os.makedirs(rd, exist_ok=True)
            build_tools()
            b, m = build_harness(rd)
            rc, o, e = run([b, "replay", a[1]], 600)
            log(o)
            return rc if rc is not None else 2
        return check(a[0])
    except Broken as e:
        log("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
