#!/usr/bin/env python3
"""Decide one property of cafebabe by symbolic execution of its compiled code.

  check.py PROPERTY [quick|thorough]     run the check (exit 0, or 1 with a VIOLATION line)
  check.py --replay FILE                 replay a recorded counterexample on the real code
  check.py --build                       build everything the checks need

The engine (engine/) executes the LLVM IR that rustc produces from /repo's current sources
together with the scenarios of harness/.  What it finds is replayed on ordinary native builds
of the same sources before it is reported.
"""
import hashlib
import json
import os
import re
import select
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
import plan  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class BuildError(Exception):
    pass


# ----------------------------------------------------------------------------------- building


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dirs, fs in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


SOURCES = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "src"),
           os.path.join(VERIF, "harness", "data"), os.path.join(VERIF, "harness", "Cargo.toml")]


def cargo(crate, sub, args, env=None, sources=None):
    """run cargo with a target directory of its own; never trust time stamps across source changes"""
    tdir = os.path.join(TARGET, sub)
    os.makedirs(tdir, exist_ok=True)
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    cwd = os.path.join(VERIF, crate)
    stamp = os.path.join(tdir, ".sources")
    if sources:
        h = tree_hash(sources)
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != h:
            if old is not None:
                for prof in ([], ["--release"], ["--profile", "plain"]):
                    subprocess.run(["cargo", "clean", "--offline", "-p", "cafebabe", "-p", "harness"] + prof, cwd=cwd, env=e,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.remove(stamp)
    for a in args:
        r = subprocess.run(["cargo"] + a, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cargo %s in %s failed:\n%s" % (" ".join(a), crate, r.stdout[-4000:]))
    if sources:
        with open(stamp, "w") as f:
            f.write(h)
    return tdir


IRFLAGS = ("-C symbol-mangling-version=v0 -C no-vectorize-loops -C no-vectorize-slp "
           "-C link-arg=-Wl,--unresolved-symbols=ignore-all")


def build_engine():
    return os.path.join(cargo("engine", "engine", [["build", "--offline", "--release"]],
                              sources=[os.path.join(VERIF, "engine", "src")]), "release", "symex")


def build_ir(threadsafe):
    feat = ["--features", "threadsafe,nosync"] if threadsafe else []
    d = cargo("harness", "irt" if threadsafe else "ir",
              [["--offline", "rustc", "--release"] + feat + ["--", "--emit=llvm-ir,link"]],
              env={"RUSTFLAGS": IRFLAGS}, sources=SOURCES)
    deps = os.path.join(d, "release", "deps")
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if not lls:
        raise BuildError("no IR file in " + deps)
    return max(lls, key=os.path.getmtime)


def build_native(threadsafe, profile):
    feat = ["--features", "native,threadsafe,nosync" if threadsafe else "native"]
    prof = ["--profile", "plain"] if profile == "plain" else []
    sub = "native-%s%s" % (profile, "-ts" if threadsafe else "")
    d = cargo("harness", sub, [["build", "--offline"] + feat + prof], sources=SOURCES)
    return os.path.join(d, "plain" if profile == "plain" else "debug", "harness")


def sharing_refused():
    """the compiler's answer if it does not let parsed classes be shared between threads (the build itself is known to work)"""
    try:
        cargo("harness", "sync", [["check", "--offline", "--features", "native,threadsafe"]], sources=SOURCES)
        return None
    except BuildError as e:
        return str(e)


class Built:
    pass


def build(threadsafe=False):
    with ThreadPoolExecutor(4) as ex:
        f = [ex.submit(build_engine), ex.submit(build_ir, threadsafe), ex.submit(build_native, threadsafe, "plain"),
             ex.submit(build_native, threadsafe, "dev")]
        b = Built()
        b.engine, b.ir, b.plain, b.dev = [x.result() for x in f]
    b.threadsafe = threadsafe
    b.templates = {}
    for line in subprocess.check_output([b.plain, "list"], text=True).splitlines():
        t = json.loads(line)
        t["bytes"] = bytes.fromhex(t["bytes"])
        b.templates[t["id"]] = t
    return b


# ----------------------------------------------------------------------------- native replays


def native(binary, runs, per_run=20.0, rounds=None, first_hang_only=False):
    """run scenarios on a native build; a list of (outcome, largest allocation, notes)"""
    out = []
    env = dict(os.environ)
    env.pop("VERIF_ROUNDS", None)
    if rounds:
        env["VERIF_ROUNDS"] = str(rounds)
    while len(out) < len(runs):
        part = runs[len(out):len(out) + 400]
        with tempfile.TemporaryFile() as inp:
            inp.write("".join("%d %d %d %s\n" % (r[0], r[1], r[2], r[3]) for r in part).encode())
            inp.seek(0)
            p = subprocess.Popen([binary], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        buf, n, open_run, died = b"", 0, False, None
        end = time.time() + per_run
        while True:
            ready, _, _ = select.select([p.stdout], [], [], max(0.0, end - time.time()))
            if not ready:
                p.kill()
                died = "hang"
                break
            got = os.read(p.stdout.fileno(), 1 << 16)
            if not got:
                break
            buf += got
            *lines, buf = buf.split(b"\n")
            for line in lines:
                line = line.decode(errors="replace")
                if line == "begin":
                    open_run = True
                    continue
                f = line.split("\t")
                if open_run and len(f) == 3:
                    out.append((f[0], int(f[1]), [int(x) for x in f[2].split(",") if x]))
                    open_run = False
                    n += 1
                    end = time.time() + per_run
        p.stdout.close()
        p.wait()
        if n < len(part):
            out.append((died or "crash %d" % p.returncode, 0, []))
            if died and first_hang_only:
                out += [None] * (len(runs) - len(out))
    return out


def interpreted(run, threadsafe, seeds=8):
    """the same run under the Miri interpreter, which tells data races and deadlocks, with several schedules"""
    d = os.path.join(TARGET, "miri")
    for seed in range(seeds):
        e = dict(os.environ)
        e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE="true", VERIF_ROUNDS="2",
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-preemption-rate=0.2 -Zmiri-seed=%d" % seed)
        feat = "native,threadsafe,nosync" if threadsafe else "native"
        try:
            p = subprocess.run(["cargo", "miri", "run", "--offline", "--features", feat], cwd=os.path.join(VERIF, "harness"), env=e,
                               input="%d %d %d %s\n" % run, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except (subprocess.TimeoutExpired, OSError):
            return None
        for text, what in (("Data race detected", "crash: data race"), ("deadlocked", "hang: deadlock")):
            if text in p.stdout:
                return what + " (Miri, seed %d)" % seed
        m = re.search(r"^(fail \d+|panic [^\t]*)\t", p.stdout, re.M)
        if m:
            return m.group(1)
        if "begin" not in p.stdout:
            return None
    return None


# ------------------------------------------------------------------------------- symbolic runs


class Explorer:
    """runs batches of jobs on the engine and accumulates what they covered"""

    def __init__(self, built, prop):
        self.b = built
        self.prop = prop
        self.results = []
        self.functions = set()
        self.wall = 0.0
        self.work = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.n = 0

    def run(self, jobs, secs, query_ms=10000, threads=8, samples=6):
        if not jobs:
            return []
        self.n += 1
        jf = os.path.join(self.work, "jobs%d" % self.n)
        of = os.path.join(self.work, "out%d" % self.n)
        with open(jf, "w") as f:
            for j in jobs:
                f.write("%s %d %d %d %g %d %d %d %d\n" % (j["name"], j["a"], j["b"], j["c"], j.get("secs", 30), j.get("paths", 1 << 40),
                                                          j.get("insts", 100000000), j.get("lo", 0), j.get("hi", 255)))
        t = time.time()
        cmd = [self.b.engine, "--ir", self.b.ir, "--jobs", jf, "--out", of, "--threads", str(threads), "--secs", "%g" % secs,
               "--query-ms", str(query_ms), "--samples", str(samples)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(of + ".err", "w"), cwd=VERIF)
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        self.wall += time.time() - t
        res = []
        summary = False
        if os.path.exists(of):
            for line in open(of):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get("summary"):
                    self.functions |= set(r["functions"])
                    summary = True
                else:
                    res.append(r)
        if not summary:
            log("the engine did not finish its batch: exit", p.returncode, open(of + ".err").read()[-400:])
        done = {(r["job"], tuple(r["args"]), tuple(r["first"])) for r in res}
        for j in jobs:
            k = (j["name"], (j["a"], j["b"], j["c"]), (j.get("lo", 0), j.get("hi", 255)))
            if k not in done:
                res.append({"job": j["name"], "args": [j["a"], j["b"], j["c"]], "first": list(k[2]), "complete": False, "secs": 0, "paths": 0,
                            "forks": 0, "insts": 0, "symbranches": 0, "cache_hits": 0, "queries": 0, "unsat": 0, "sat": 0, "unknown": 0,
                            "solver_s": 0, "nvars": 0, "covers": {}, "counts": {"engine lost": 1}, "ends": []})
        self.results += res
        return res

    def close(self):
        for f in os.listdir(self.work):
            os.remove(os.path.join(self.work, f))
        os.rmdir(self.work)


CRASH = ("panic", "crash", "hang")


def code_of(outcome):
    m = re.match(r"fail (\d+)$", outcome)
    return int(m.group(1)) if m else None


def prop_of(code):
    """the property a failure code of the scenarios speaks about (30000: not known)"""
    if code is None or code >= 30000:
        return None
    if code >= 20000:
        code -= 20000
    return code // 100


class Judge:
    """turns symbolic findings into confirmed violations"""

    def __init__(self, built, prop):
        self.b = built
        self.prop = prop
        self.num = int(prop[1:])
        self.base = {}
        self.seen = {}
        self.violations = []
        self.other = {}
        self.unconfirmed = []
        self.validated = 0
        self.mismatches = []

    def base_outcome(self, args):
        """what the same scenario does on the unmodified template"""
        kind = args[0] & 0xff
        if kind in (2, 3, 8):
            return None
        key = (args[0], kind)
        if key not in self.base:
            t = self.b.templates[args[0] >> 16]
            a, b, c = args[0], 0, 0
            inp = b""
            if kind == 1:
                b = len(t["bytes"]) | len(t["bytes"]) << 32
                inp = len(t["bytes"]).to_bytes(2, "big") if len(t["bytes"]) < 65536 else b"\xff\xff"
            self.base[key] = native(self.b.plain, [(a, b, c, inp.hex())])[0][0]
        return self.base[key]

    def counts_for(self, outcome, big, args, expected_kind):
        """does this confirmed native outcome break our property?"""
        n = self.num
        crash = outcome.startswith(CRASH)
        code = code_of(outcome)
        if n == 1:
            return crash
        if n == 3:
            return outcome.startswith(("crash", "hang")) or code == 301 or big > 32 << 20
        if crash:
            return True
        if code is None:
            return False
        p = prop_of(code)
        if p == 3:
            return False
        if p == n or (p is not None and p in plan.RELATED.get(n, ())):
            return True
        return self.base_outcome(args) != outcome

    def judge(self, res):
        cand, samples = [], []
        for r in res:
            for e in r["ends"]:
                item = (r, e)
                if e["stop"] == "done":
                    samples.append(item)
                elif e["stop"] in ("fail", "panic", "bigalloc", "depth", "budget", "deadlock", "race"):
                    k = (e["stop"], e["msg"], tuple(e["stack"][:2]))
                    if e["stop"] == "budget":
                        k = k + (r["job"],)
                    self.seen[k] = self.seen.get(k, 0) + 1
                    if self.seen[k] <= 6 and len(cand) < 300:
                        cand.append(item)
        line = lambda r, e: (r["args"][0], r["args"][1], r["args"][2], e["input"])
        # a bounded number of sampled paths is replayed to confirm that the executor agrees
        samples = samples[:plan.MAX_REPLAY]
        for (r, e), o in zip(samples, native(self.b.plain, [line(*x) for x in samples], first_hang_only=True)):
            if o is None:
                continue
            self.validated += 1
            if o[0] == "done" and o[2] == e["notes"]:
                continue
            if o[0] == "done":
                self.mismatches.append({"job": r["job"], "args": r["args"], "input": e["input"], "engine": e["notes"], "native": o[2]})
            else:
                self.report(r, e, "plain", o)
        todo = list(cand)
        for which in ("dev", "plain"):
            left = []
            for (r, e), o in zip(todo, native(getattr(self.b, which), [line(*x) for x in todo], rounds=20000, first_hang_only=True)):
                if o is None:
                    continue
                hit = o[0] != "done" and o[0] != "assume"
                if e["stop"] == "bigalloc" and o[1] > 32 << 20:
                    hit = True
                if hit:
                    self.report(r, e, which, o)
                else:
                    left.append((r, e))
            todo = left
        tried = 0
        for r, e in list(todo):
            if r["args"][0] & 0xff in plan.KIND_THREADS and tried < 2 and not self.violations:
                tried += 1
                o = interpreted(line(r, e), self.b.threadsafe)
                if o:
                    self.report(r, e, "dev", (o, 0, []))
                    todo.remove((r, e))
        for r, e in todo:
            if e["stop"] != "budget":
                self.unconfirmed.append({"job": r["job"], "args": r["args"], "input": e["input"], "engine": e["stop"] + " " + e["msg"]})
        return self.violations

    def report(self, r, e, which, o):
        outcome, big, _ = o
        if self.counts_for(outcome, big, r["args"], e["stop"]):
            key = (outcome if outcome != "done" else "large allocation",)
            if sum(1 for v in self.violations if v["key"] == list(key)) < 3:
                self.violations.append({"key": list(key), "job": r["job"], "args": r["args"], "input": e["input"], "engine": (e["stop"] + " " + e["msg"]).strip(),
                                        "native": outcome, "build": which, "largest_allocation": big, "stack": e["stack"]})
        else:
            self.other[outcome] = self.other.get(outcome, 0) + 1


# ---------------------------------------------------------------------------------- reporting


def describe(outcome):
    c = code_of(outcome)
    if c is None:
        return outcome
    return "%s (%s)" % (outcome, plan.explain(c))


def write_replay(built, prop, k, v):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, k))
    v = dict(v)
    v["property"] = prop
    v["threadsafe"] = built.threadsafe
    v["meaning"] = describe(v["native"])
    v["how"] = "python3 /verif/check.py --replay " + path
    if v["args"][0] & 0xff not in (2, 3):
        try:
            cls = subprocess.run([built.plain, "dump"] + [str(x) for x in v["args"]] + [v["input"]], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, timeout=30).stdout
            if cls:
                cp = os.path.join(d, "%s-%d.class" % (prop, k))
                with open(cp, "wb") as f:
                    f.write(cls)
                v["class_file"] = cp
        except (subprocess.TimeoutExpired, OSError):
            pass
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def replay(path):
    v = json.load(open(path))
    if v["job"] == "sharing":
        why = sharing_refused()
        print(why or "parsed classes can be shared between threads")
        return 1 if why else 0
    built = build(v.get("threadsafe", False))
    a = v["args"]
    bad = False
    for which in ("dev", "plain"):
        o = native(getattr(built, which), [(a[0], a[1], a[2], v["input"])])[0]
        print("%-6s %s, largest allocation %d" % (which, describe(o[0]), o[1]))
        bad |= o[0] not in ("done", "assume") or o[1] > 32 << 20
    return 1 if bad else 0


def known_findings(prop):
    """(fixed entries, findings still open) of this property"""
    fixed, still = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        (fixed if line.startswith("fixed:") else still).append(line)
    tag = "property=" + prop
    has = lambda s: tag in s.split() or tag in s.replace(",", " ").split()
    return [s for s in fixed if has(s)], [s for s in still if has(s)]


def demangle_ok(f):
    return re.search(r"8cafebabe", f) is not None


def short(f):
    """a readable form of a v0-mangled name"""
    parts = re.findall(r"(?:s[0-9a-zA-Z]*_)?(\d+)(?=[A-Za-z_])", f)
    out, i = [], 0
    while i < len(f):
        m = re.match(r"(\d+)_?", f[i:])
        if m and i > 1:
            n = int(m.group(1))
            s = f[i + len(m.group(0)):i + len(m.group(0)) + n]
            if len(s) == n and re.match(r"[A-Za-z_][A-Za-z0-9_]*$", s):
                out.append(s)
                i += len(m.group(0)) + n
                continue
        i += 1
    return "::".join(out) if out else f


def evidence(prop, tier, built, ex, jd, plan_info, violations):
    rs = ex.results
    tot = lambda k: sum(r[k] for r in rs)
    incomplete = [r for r in rs if not r["complete"] or r["unknown"] or any(k.split()[0] in ("engine", "budget") for k in r["counts"])]
    kinds = {}
    for r in rs:
        for k, n in r["counts"].items():
            k = " ".join(k.split()[:2]) if k.startswith("fail") else k.split()[0]
            kinds[k] = kinds.get(k, 0) + n
    eng = {}
    for r in rs:
        for k, n in r["counts"].items():
            if k.startswith("engine"):
                eng[k] = eng.get(k, 0) + n
    covers = {}
    for r in rs:
        for k in r["covers"]:
            covers[int(k)] = covers.get(int(k), 0) + 1
    fns = sorted({short(f) for f in ex.functions if demangle_ok(f)})
    samples = []
    for r in rs:
        for e in r["ends"]:
            if e["stop"] == "done" and len(samples) < 12 and len(samples) <= len(rs):
                samples.append({"job": r["job"], "args": r["args"], "input": e["input"], "observed": e["notes"], "instructions": e["insts"]})
                break
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": max(1, tot("paths")),
            "transitions": max(1, tot("forks")),
            "traces_validated_against_impl": jd.validated,
            "samples": samples,
            "what_states_are": "complete symbolic paths, each standing for every input that satisfies its path condition; transitions: solver-decided forks",
            "jobs": len(rs),
            "jobs_fully_decided": len(rs) - len(incomplete),
            "jobs_not_fully_decided": [{"job": r["job"], "args": r["args"], "first": r["first"], "paths_decided": r["paths"],
                                        "why": "unknown solver answers" if r["unknown"] else
                                        (", ".join(k for k in r["counts"] if k.split()[0] in ("engine", "budget")) or "time limit")}
                                       for r in incomplete[:200]],
            "path_ends": kinds,
            "engine_limits_hit": eng,
            "instructions_executed": tot("insts"),
            "symbolic_branches": tot("symbranches"),
            "queries": {"total": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"), "answered_from_cache": tot("cache_hits"),
                        "solver_seconds": round(tot("solver_s"), 3), "solver": "Z3 4.8.12 (C API), bit-vectors"},
            "largest_number_of_symbolic_bytes": max([r["nvars"] for r in rs] or [0]),
            "functions_encoded": fns,
            "functions_encoded_total": len(ex.functions),
            "bounds": plan_info,
            "distinct_coverage_points": len(covers),
            "rejection_reasons_reached": sorted(k - 10000 for k in covers if k > 10000),
            "opcodes_reached": sum(1 for k in covers if 2000 <= k < 2300),
            "replay_disagreements": jd.mismatches[:20],
            "unconfirmed_findings": jd.unconfirmed[:20],
            "findings_of_other_properties": jd.other,
        },
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": violations,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        build()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    num = int(prop[1:])
    try:
        built = build(threadsafe=num in plan.THREADSAFE)
    except BuildError as e:
        print(e)
        print("check error: could not build")
        return 2
    log("built")
    ex, jd = Explorer(built, prop), Judge(built, prop)
    info = []
    if num == 2:
        why = sharing_refused()
        if why:
            jd.violations.append({"key": ["sharing"], "job": "sharing", "args": [2, 0, 0], "input": "", "engine": "", "build": "threadsafe",
                                  "native": "the compiler does not let parsed classes be shared between threads", "largest_allocation": 0, "stack": [], "compiler": why})
    try:
        for name, jobs, secs, bound in plan.passes(num, tier, built.templates, ex):
            t = time.time()
            res = ex.run(jobs, secs)
            jd.judge(res)
            full = sum(1 for r in res if r["complete"] and not r["unknown"])
            info.append({"pass": name, "what": bound, "jobs": len(jobs), "jobs_complete": full, "seconds": round(time.time() - t, 1)})
            log("%-28s %4d jobs, %4d complete, %8d paths, %.1f s" % (name, len(jobs), full, sum(r["paths"] for r in res), time.time() - t))
            if jd.violations:
                break
    finally:
        ex.close()
    if not any(r["paths"] for r in ex.results):
        print("check error: nothing was explored")
        return 2
    lines = []
    for k, v in enumerate(jd.violations[:5]):
        path = write_replay(built, prop, k, v)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %s on the %s build (%s)" % (v["job"], describe(v["native"]), v["build"], v["engine"]))
    for m in jd.mismatches[:5]:
        print("note: replay disagrees with the executor:", json.dumps(m))
    for m in jd.unconfirmed[:5]:
        print("note: not confirmed by replay, not reported:", json.dumps(m))
    for k, n in jd.other.items():
        print("note: seen, but not a matter of this property: %s (%d)" % (describe(k), n))
    evidence(prop, tier, built, ex, jd, info, len(jd.violations))
    for s in known_findings(prop)[1]:
        print("KNOWN-FINDING: " + s)
    for s in lines:
        print(s)
    log("%s %s: %s" % (prop, tier, "VIOLATED" if lines else "held on everything explored"))
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
