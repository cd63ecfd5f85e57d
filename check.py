#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough]

Builds the symbolic executor and the harness from the current sources, explores
every rung of the property's plan, replays what it finds on the compiled code,
and writes evidence/<property>.json.
"""
import fcntl
import hashlib
import json
import os
import re
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan  # noqa: E402

BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
# The harness programs, and whether they need the hook
PROGRAMS = {"harness": False, "unescape": True, "converter": False, "tokens": False}
# The program of the repository that a harness program runs when replaying
RUNS = {"converter": "hmlconvert"}
REPLAY_S = 20
# Memory after which the compiled code counts as crashed
REPLAY_BYTES = 4 << 30


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    with open(q, "rb") as g:
                        h.update(g.read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as g:
                h.update(g.read())
    return h.hexdigest()


def stamp(name, value=None):
    p = os.path.join(BUILD, name + ".stamp")
    if value is None:
        try:
            with open(p) as f:
                return f.read()
        except OSError:
            return ""
    with open(p, "w") as f:
        f.write(value)


def cargo_env(target, flags):
    return {
        "RUSTUP_TOOLCHAIN": TOOLCHAIN,
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": target,
        "RUSTFLAGS": flags,
        "CARGO_TERM_COLOR": "never",
    }


def build_engine():
    d = os.path.join(HERE, "engine")
    exe = os.path.join(BUILD, "engine", "release", "symx")
    want = digest([os.path.join(d, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs")])
    if stamp("engine") != want or not os.path.exists(exe):
        r = sh(["cargo", "build", "--release", "--offline"], cargo_env(os.path.join(BUILD, "engine"), ""), d)
        if r.returncode != 0:
            raise Broken("the executor does not build\n" + r.stdout[-4000:])
        stamp("engine", want)
    return exe


def sources(program):
    h = os.path.join(HERE, "harness")
    return digest(
        [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo")]
        + [os.path.join(h, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs")]
        + [os.path.join(HERE, "check.py")]
    )


def build_harness(program):
    """The IR and the native program, rebuilt if any source has changed"""
    h = os.path.join(HERE, "harness")
    hook = PROGRAMS[program]
    ll = os.path.join(BUILD, program + ".ll")
    exe = os.path.join(BUILD, program + ".native")
    files = [ll, exe] + ([os.path.join(BUILD, RUNS[program] + ".native")] if program in RUNS else [])
    want = sources(program)
    if stamp(program) == want and all(os.path.exists(f) for f in files):
        return files
    stamp(program, "")
    cfg = "--cfg hml_verif " if hook else ""
    suffix = "-hook" if hook else ""
    t = os.path.join(BUILD, "sym" + suffix)
    env = cargo_env(t, cfg + "--emit=llvm-ir -C link-arg=-Wl,--unresolved-symbols=ignore-all")
    # never rely on file times to notice a change
    sh(["cargo", "clean", "--offline", "--profile", "sym", "-p", "hml-rs", "-p", "harness"], env, h)
    deps = os.path.join(t, "sym", "deps")
    pat = re.compile("^" + program + "-[0-9a-f]+\\.ll$")
    for f in os.listdir(deps) if os.path.isdir(deps) else []:
        if pat.match(f):
            os.remove(os.path.join(deps, f))
    r = sh(["cargo", "build", "--offline", "--profile", "sym", "--bin", program], env, h)
    if r.returncode != 0:
        raise Broken("the harness does not build\n" + r.stdout[-4000:])
    lls = [f for f in os.listdir(deps) if pat.match(f)]
    if len(lls) != 1:
        raise Broken("no IR was emitted")
    os.replace(os.path.join(deps, lls[0]), ll)
    t = os.path.join(BUILD, "native" + suffix)
    env = cargo_env(t, cfg.strip())
    sh(["cargo", "clean", "--offline", "-p", "hml-rs", "-p", "harness"], env, h)
    bins = [program] + ([RUNS[program]] if program in RUNS else [])
    r = sh(["cargo", "build", "--offline", "--features", "native"] + [x for b in bins for x in ("--bin", b)], env, h)
    if r.returncode != 0:
        raise Broken("the native harness does not build\n" + r.stdout[-4000:])
    for b, exe in zip(bins, files[1:]):
        with open(os.path.join(t, "debug", b), "rb") as f, open(exe + ".tmp", "wb") as g:
            g.write(f.read())
        os.chmod(exe + ".tmp", 0o755)
        os.replace(exe + ".tmp", exe)
    if sources(program) != want:
        raise Broken("the sources changed during the build")
    stamp(program, want)
    return files


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def setup():
    with Lock():
        build_engine()
        for p in PROGRAMS:
            try:
                build_harness(p)
            except Broken as e:
                # the check that needs it will say so
                print("%s: %s" % (p, e))


def limited():
    resource.setrlimit(resource.RLIMIT_AS, (REPLAY_BYTES, REPLAY_BYTES))


def replay(exes, rung, rows, stuck=False):
    """The outcome of each list of inputs on the compiled code"""
    out = []
    i = 0
    f = os.path.join(BUILD, "replay-%d.txt" % os.getpid())
    try:
        while i < len(rows):
            with open(f, "w") as g:
                g.write("".join(",".join(map(str, r)) + "\n" for r in rows[i:]))
            env = dict(os.environ)
            env.pop("HARNESS_STUCK", None)
            if stuck:
                env["HARNESS_STUCK"] = "1"
            if len(exes) > 1:
                env["HMLCONVERT"] = exes[1]
            cmd = [exes[0], rung.entry, ",".join(map(str, rung.params)), f]
            late = False
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True, errors="replace", env=env, preexec_fn=limited)
            try:
                o, _ = p.communicate(timeout=REPLAY_S + 0.05 * (len(rows) - i))
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                late = True
            got = []
            obs = None
            for line in (o or "").splitlines():
                if line.startswith("@OBS "):
                    obs = line[5:]
                elif line.startswith("@RESULT "):
                    got.append((line[8:], obs))
            out += got
            i += len(got)
            if i < len(rows):
                out.append(("STUCK" if late else "CRASH", ""))
                i += 1
                if late and len([x for x in out if x[0] == "STUCK"]) >= 2:
                    break
    finally:
        if os.path.exists(f):
            os.remove(f)
    return out


def printable(inputs):
    return bytes(x & 255 for x in inputs).decode("utf-8", "backslashreplace")


def place(x):
    f, _, rest = x.partition(":")
    return f, int(rest.split(" ")[0]), rest


def ranges(lines):
    """Lines of each file, as text"""
    out = {}
    for f, n, _ in sorted(map(place, lines)):
        r = out.setdefault(f, [])
        if r and r[-1][1] + 1 >= n:
            r[-1][1] = n
        else:
            r.append([n, n])
    return {f: ",".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in r) for f, r in out.items()}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rungs = []
        self.violations = []
        self.notes = []
        self.validated = 0
        self.samples = []
        self.functions = set()
        self.own = set()
        self.lines = set()
        self.reach = {}

    def run(self):
        t0 = time.time()
        rungs = [r for r in plan.PLAN[self.prop] if r.tier == plan.QUICK or self.tier == plan.THOROUGH]
        with Lock():
            engine = build_engine()
            built = {p: build_harness(p) for p in {plan.PROGRAM.get(r.entry, "harness") for r in rungs}}
            # a private name, so that a later rebuild does not change it under us
            self.files = {}
            for p, files in built.items():
                mine = []
                for f in files:
                    m = os.path.join(BUILD, "%d-%s" % (os.getpid(), os.path.basename(f)))
                    os.link(f, m)
                    mine.append(m)
                self.files[p] = mine
        try:
            build_s = time.time() - t0
            budget = 420 if self.tier == plan.QUICK else 6000
            for r in rungs:
                left = budget - (time.time() - t0 - build_s)
                if left < 5:
                    self.notes.append("not run for lack of time: " + r.what)
                    self.rungs.append({"rung": r.what, "complete": False, "not_run": True})
                    continue
                self.rung(engine, r, min(r.limit, left))
                if self.violations and self.tier == plan.QUICK:
                    break
        finally:
            for fs in self.files.values():
                for f in fs:
                    if os.path.exists(f):
                        os.remove(f)
        return self.report(t0, build_s)

    def rung(self, engine, r, limit):
        ll, *exe = self.files[plan.PROGRAM.get(r.entry, "harness")]
        out = os.path.join(BUILD, "out-%d.json" % os.getpid())
        cmd = [engine, "--ll", ll, "--entry", r.entry, "--params", ",".join(map(str, r.params)), "--threads", str(min(8, os.cpu_count() or 8)),
               "--time", str(limit), "--grace", "4", "--hash-key", str(self.seed), "--max-steps", str(r.steps), "--samples", "12", "--out", out,
               "--panic-fails", "1" if self.prop in plan.PANIC_FAILS else "0", "--print", "1" if self.prop in plan.PRINTS else "0", "--dir", REPO,
               # the copy that the harness includes has the same lines
               "--also", "/out/program.rs=src/bin/hmlconvert.rs"]
        try:
            p = sh(cmd, timeout=limit + 300)
        except subprocess.TimeoutExpired:
            raise Broken("the executor does not stop: " + r.what)
        if p.returncode != 0 or not os.path.exists(out):
            raise Broken("the executor failed on: %s\n%s" % (r.what, p.stdout[-3000:]))
        with open(out) as f:
            d = json.load(f)
        os.remove(out)
        self.functions.update(d["functions"])
        self.own.update(d["own"])
        self.lines.update(d["lines"])
        for k, v in d["reach"].items():
            self.reach[int(k)] = self.reach.get(int(k), 0) + v
        errors = sum(d["errors"].values())
        row = {"rung": r.what, "entry": r.entry, "params": r.params}
        for k in ("complete", "unexplored", "paths", "pruned", "forks", "instructions", "queries", "sat", "unsat", "unknown", "solver_s", "wall_s"):
            row[k] = d[k]
        row["complete"] = d["complete"] and errors == 0 and d["unknown"] == 0
        if errors:
            row["not_encoded"] = d["errors"]
            self.errors(exe, r, d)
            if errors > d["paths"] and not d["violations"]:
                raise Broken("most paths of '%s' could not be encoded: %s" % (r.what, json.dumps(d["errors"])[:2000]))
        self.rungs.append(row)
        # the recorded paths must behave the same on the compiled code
        s = d["samples"]
        res = replay(exe, r, [x["inputs"] for x in s])
        for x, (got, obs) in zip(s, res):
            want = ",".join(map(str, x["obs"]))
            if got != "OK" or obs != want:
                raise Broken("a path of '%s' differs on the compiled code: inputs %s: %s, observed %s, expected %s" % (r.what, x["inputs"], got, obs, want))
            self.validated += 1
        if s:
            x = s[len(s) // 2]
            self.samples.append({"rung": r.what, "inputs": x["inputs"], "as_text": printable(x["inputs"]), "observed": x["obs"]})
        for v in d["violations"]:
            self.violation(exe, r, v, row)

    def errors(self, exe, r, d):
        """Inputs of paths that could not be followed to their end are replayed"""
        rows = d.get("error_inputs", [])[:64]
        for x, (got, _) in zip(rows, replay(exe, r, rows)):
            if got.startswith("FAIL") or got == "CRASH" or got == "PANIC":
                self.found(r, "Fail", got, x, got, 1, [])
                return
        self.notes.append("some paths of '%s' were not followed to their end" % r.what)

    def violation(self, exe, r, v, row):
        rows = [v["inputs"]] + [x for x in v["examples"] if x != v["inputs"]][:60]
        if v["kind"] == "Steps":
            rows = rows[:4]
        first = res = replay(exe, r, rows)
        if res and all(g == "EXHAUSTED" for g, _ in res):
            # found before all the inputs were asked for: the rest may be anything
            rows = [x + [0] * 64 for x in rows]
            first = res = replay(exe, r, rows)
        if any(g == "STUCK" for g, _ in res) and self.prop not in plan.PANIC_FAILS:
            # the reading hangs: does what the property says fail for it?
            res = replay(exe, r, rows, stuck=True)
        good = None
        for x, (got, _) in zip(rows, res):
            if got.startswith("FAIL") or got in ("PANIC", "CRASH", "STUCK"):
                good = (x, got)
                break
        if good:
            self.found(r, v["kind"], v["msg"], good[0], good[1], v["count"], v["stack"][:8])
        elif v["kind"] == "Steps" and not any(g == "STUCK" for g, _ in first):
            row["complete"] = False
            self.notes.append("%d path(s) of '%s' were not followed beyond %d instructions" % (v["count"], r.what, r.steps))
        elif v["kind"] == "Fail":
            raise Broken("a violation found in '%s' does not show on the compiled code: %s %s %s" % (r.what, v["msg"], rows[0], res[:1]))
        elif v["kind"] == "Ub":
            raise Broken("an invalid memory access found in '%s' does not show on the compiled code: %s %s" % (r.what, v["msg"], rows[0]))
        elif self.prop in plan.PANIC_FAILS:
            raise Broken("a panic found in '%s' does not show on the compiled code: %s %s %s" % (r.what, v["msg"], rows[0], res[:1]))
        else:
            # the code panics or hangs, but not where this property says anything
            self.notes.append("%d path(s) of '%s' end in '%s', which is not about this property" % (v["count"], r.what, v["msg"]))

    def found(self, r, kind, msg, inputs, got, count, stack):
        self.violations.append({
            "rung": r.what, "entry": r.entry, "params": r.params, "kind": kind, "message": msg, "inputs": inputs,
            "as_text": printable(inputs), "replay": got, "paths": count, "stack": stack,
        })

    def report(self, t0, build_s):
        os.makedirs(EVIDENCE, exist_ok=True)
        known = known_findings()
        new, old = [], []
        for v in self.violations:
            (old if any(k["property"] == self.prop and k["entry"] == v["entry"] and k["message"] == v["message"] and k["inputs"] == v["inputs"] for k in known) else new).append(v)
        missing = [k for k in plan.REACH.get(self.prop, []) if not self.reach.get(k)]
        if missing and not self.violations:
            raise Broken("vacuous: never reached %s" % missing)

        def total(k):
            return sum(x.get(k, 0) for x in self.rungs)

        done = [x for x in self.rungs if x["complete"]]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "wall_s": round(time.time() - t0, 3),
            "coverage": {
                "states": total("paths"),
                "transitions": total("forks"),
                "traces_validated_against_impl": self.validated,
                "samples": self.samples,
                "instructions_executed_symbolically": total("instructions"),
                "infeasible_paths_pruned": total("pruned"),
                "queries": total("queries"),
                "queries_sat": total("sat"),
                "queries_unsat": total("unsat"),
                "queries_unknown": total("unknown"),
                "solver_s": round(total("solver_s"), 3),
                "build_s": round(build_s, 3),
                "functions_encoded": sorted(self.own, key=place),
                "instantiations_and_library_functions_encoded": len(self.functions),
                "lines_encoded": ranges(self.lines),
                "bounds": self.rungs,
                "bounds_complete": len(done),
                "bounds_incomplete": [x["rung"] for x in self.rungs if not x["complete"]],
                "reached": {str(k): v for k, v in sorted(self.reach.items())},
            },
            "assumptions": [
                "states are symbolic paths, each decided for all the values of its inputs by Z3; transitions are forks of paths on conditions both of whose outcomes are feasible",
                "nothing is said about texts outside the bounds listed",
                "the IR is that of rustc for the current sources with overflow checks and debug assertions on; allocation never fails",
                "text keys of hash maps share one hash value; other keys have the real hash for one random seed",
                "printing is executed too; reading, writing and opening files are modelled" if self.prop in plan.PRINTS else "printing is ignored",
            ] + self.notes,
            "violations": self.violations,
        }
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        print("%s %s: %d paths, %d queries, %.1f s in the solver, %d of %d bounds complete, %d replays agree, %.1f s" % (
            self.prop, self.tier, total("paths"), total("queries"), total("solver_s"), len(done), len(self.rungs), self.validated, time.time() - t0))
        for n in self.notes:
            print("note: " + n)
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v["message"]))
        if new:
            v = new[0]
            rp = os.path.join(EVIDENCE, self.prop + "-replay.txt")
            with open(rp, "w") as f:
                f.write("property %s is violated: %s\n" % (self.prop, v["message"]))
                f.write("found in: %s (%s %s)\n" % (v["rung"], v["entry"], v["params"]))
                f.write("outcome on the compiled code: %s\n" % v["replay"])
                f.write("values of the symbolic inputs, in the order they are drawn: %s\n" % v["inputs"])
                f.write("as text: %r\n" % v["as_text"])
                f.write("stack: %s\n" % " < ".join(v["stack"]))
                f.write("to replay: python3 check.py %s --replay %s %s %s\n" % (self.prop, v["entry"], ",".join(map(str, v["params"])), ",".join(map(str, v["inputs"]))))
            print("%s: %s (inputs %s, text %r)" % (self.prop, v["message"], v["inputs"], v["as_text"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def known_findings():
    """Lines 'known: {json}'; 'fixed:' lines are a record only"""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: "):
                out.append(json.loads(line[7:]))
    return out


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        setup()
        return 0
    prop = a[0]
    if "--replay" in a:
        i = a.index("--replay")
        with Lock():
            _, *exe = build_harness(plan.PROGRAM.get(a[i + 1], "harness"))
        nums = [[int(x) for x in s.split(",") if x] for s in a[i + 2 : i + 4]]
        r = plan.Rung(a[i + 1], nums[0], 0)
        print(replay(exe, r, [nums[1]])[0][0])
        return 0
    tier = os.environ.get("VERIF_TIER", plan.QUICK)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return Check(prop, tier, seed).run()
    except Broken as e:
        print("%s: error: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
