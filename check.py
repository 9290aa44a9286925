#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its code: `check.py C01` (see DESIGN.md).

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken, with an input that was
replayed against the natively compiled code. Exit 2: no answer (build failure, bound exceeded, solver gave up, ...).
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
T0 = time.time()

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan  # noqa: E402


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building


def digest(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, dirs, names in os.walk(top):
                dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", ".build"))
                files += [os.path.join(d, n) for n in names]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                c = x.read()
            h.update(str(len(c)).encode() + b"\0" + c)
    return h.hexdigest()[:16]


def repo_inputs():
    out = []
    for d, dirs, names in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "tests", "examples", "benches"))
        out += [os.path.join(d, n) for n in names if n.endswith(".rs") or n in ("Cargo.toml", "Cargo.lock")]
    return out


def env(toolchain=None, flags=None):
    e = dict(os.environ)
    for k in list(e):
        if k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS") or k.startswith("CARGO_PROFILE_"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = toolchain or STABLE
    if flags:
        e["RUSTFLAGS"] = flags
    return e


def run_build(what, cmd, cwd, e):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise NoAnswer("building %s failed:\n%s" % (what, (r.stderr or r.stdout)[-3000:]))
    log("built %s in %.1f s" % (what, time.time() - t))


def artefact(name, key, make):
    """The file .build/NAME-KEY, made by make(tmpdir) if it is not there."""
    path = os.path.join(BUILD, "%s-%s" % (name, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(path):
            os.utime(path)
            return path
        tmp = os.path.join(BUILD, "tmp-%s-%s-%d" % (name, key, os.getpid()))
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            out = make(tmp)
            os.replace(out, path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        old = sorted((f for f in os.listdir(BUILD) if re.fullmatch(name + r"-[0-9a-f]{16}", f)), key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
        for f in old[:-6]:
            os.remove(os.path.join(BUILD, f))
    return path


def engine():
    src = os.path.join(HERE, "symx")

    def make(tmp):
        run_build("engine", ["cargo", "build", "--release", "--offline", "--target-dir", tmp], src, env())
        return os.path.join(tmp, "release", "symx")

    return artefact("symx", digest([os.path.join(src, "src"), os.path.join(src, "Cargo.toml")]), make)


IR_FLAGS = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"


class Crate:
    """A crate of harnesses: "" (/verif/harness), "port" (/verif/port/harness) or "cli", and what is made of it."""

    def __init__(self, name):
        self.suffix = name
        self.top = os.path.join(HERE, name) if name else HERE
        inputs = [os.path.join(HERE, d) for d in ("harness", "replay")] + [os.path.join(HERE, d) for d in {"": [], "port": ["port"], "cli": ["port", "cli"]}[name]]
        self.key = digest(repo_inputs() + inputs)

    def ir(self):
        def make(tmp):
            cmd = ["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--target-dir", tmp]
            run_build("LLVM IR", cmd, os.path.join(self.top, "harness"), env(flags=IR_FLAGS))
            return os.path.join(tmp, "debug", "deps", "harness.ll")

        return artefact("ir" + self.suffix, self.key, make)

    def replay(self):
        def make(tmp):
            run_build("native replay", ["cargo", "build", "--offline", "--target-dir", tmp], os.path.join(self.top, "replay"), env())
            return os.path.join(tmp, "debug", "replay")

        return artefact("replay" + self.suffix, self.key, make)

    def asan(self):
        """The native replay with AddressSanitizer: for violations that are undefined behaviour."""

        def make(tmp):
            t = "x86_64-unknown-linux-gnu"
            run_build(
                "native replay with AddressSanitizer",
                ["cargo", "build", "--offline", "--target", t, "--target-dir", tmp],
                os.path.join(self.top, "replay"),
                env(NIGHTLY, "-Zsanitizer=address"),
            )
            return os.path.join(tmp, t, "debug", "replay")

        return artefact("asan" + self.suffix, self.key, make)


# ---------------------------------------------------------------- running


def replay(binary, entry, params, hexin, limit=60):
    """(outcome, obs, detail) of one native run."""
    cmd = [binary, entry, hexin or "-"] + [str(x) for x in params]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        return "hang", None, "no end within %d s" % limit
    out = dict(l.split(" ", 1) for l in r.stdout.splitlines() if l.split(" ", 1)[0] in ("outcome", "obs", "detail") and " " in l)
    if "outcome" in out and r.returncode in (0, 1, 3, 4, 101):
        return out["outcome"], out.get("obs", ""), out.get("detail", "")
    m = re.search(r"ERROR: AddressSanitizer: [^\n]*", r.stderr)
    return "crash", None, m.group(0) if m else "exit status %d: %s" % (r.returncode, r.stderr[-300:])


class Engine:
    """The engine, with the IR loaded; runs many harness instances, each in a process of its own."""

    def __init__(self, sx, irf):
        self.dir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        self.n = 0
        self.lock = threading.Lock()
        self.p = subprocess.Popen([sx, "--serve", irf], stdin=subprocess.PIPE, stderr=open(os.path.join(self.dir, "err"), "w"), text=True)

    def ask(self, cmd, end):
        with self.lock:
            self.n += 1
            out = os.path.join(self.dir, str(self.n))
            try:
                self.p.stdin.write(" ".join([out] + cmd) + "\n")
                self.p.stdin.flush()
            except OSError:
                return "the engine ended: " + open(os.path.join(self.dir, "err")).read()
        pause = 0.005
        while not os.path.exists(out):
            if stop.is_set() or time.time() > end:
                return None
            if self.p.poll() is not None:
                return "the engine ended: " + open(os.path.join(self.dir, "err")).read()
            time.sleep(pause)
            pause = min(pause * 1.3, 0.2)
        return open(out).read()

    def close(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Job:
    def __init__(self, item):
        self.entry, self.params, self.opt = item
        self.crate = self.opt.get("crate", "")
        self.id = " ".join([self.entry] + [str(x) for x in self.params])
        self.d = None
        self.problem = None


stop = threading.Event()


def run_job(job, sx, seed, samples, limit):
    if stop.is_set():
        return job
    left = limit - (time.time() - T0)
    if left < 5:
        job.problem = "not run: out of time"
        return job
    cmd = [job.entry, "--threads", str(job.opt.get("threads", 2)), "--seed", str(seed), "--samples", str(samples)]
    cmd += ["--max-steps", str(job.opt.get("steps", 3_000_000)), "--timeout", str(int(left))]
    for x in job.params:
        cmd += ["--param", str(x)]
    out = sx.ask(cmd, time.time() + left + 20)
    if out is None:
        if not stop.is_set():
            job.problem = "stopped: out of time"
        return job
    try:
        job.d = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        job.problem = "engine failed: %s" % out[-500:]
        return job
    if os.environ.get("VERIF_TIMES"):
        print("%8.1f s %7d paths  %s %s" % (job.d["wall_s"], job.d["paths"], job.entry, " ".join(map(str, job.params))), file=sys.stderr)
    if job.d["errors"]:
        job.problem = "engine: " + "; ".join(str(e) for e in job.d["errors"][:3])
    return job


def confirm(job, v, crate):
    """Replay one violation natively; (confirmed, text)."""
    o, _, detail = replay(crate.replay(), job.entry, job.params, v["inputs"])
    if o in ("assert", "panic", "hang", "crash"):
        return True, "%s: %s" % (o, detail)
    if v["kind"] == "ub":
        o, _, detail = replay(crate.asan(), job.entry, job.params, v["inputs"], 120)
        if o in ("assert", "panic", "hang", "crash"):
            return True, "%s: %s" % (o, detail)
    return False, "native replay: %s %s" % (o, detail)


def known(pid):
    """Known findings of the property that are not repaired: [(entry, kind, params or None, text)]."""
    out = []
    try:
        lines = open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r"known: property=(\S+) entry=(\S+) kind=\"([^\"]*)\" params=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), None if m.group(4) == "*" else [int(x) for x in m.group(4).split(",")], m.group(5)))
    return out


def check(pid, tier, seed):
    if pid not in plan.PLAN:
        raise NoAnswer("no such property: " + pid)
    items = list(plan.PLAN[pid]["quick"])
    if tier == "thorough":
        items += plan.PLAN[pid]["thorough"]
    limit = 780 if tier == "quick" else 6 * 3600
    crates = {c: Crate(c) for c in sorted({i[2].get("crate", "") for i in items})}
    with cf.ThreadPoolExecutor(5) as ex:
        sx = ex.submit(engine)
        irs = {c: ex.submit(x.ir) for c, x in crates.items()}
        nats = {c: ex.submit(x.replay) for c, x in crates.items()}
        sx = sx.result()
        irs = {c: f.result() for c, f in irs.items()}
        nats = {c: f.result() for c, f in nats.items()}
    built = time.time() - T0
    covers = json.load(open(os.path.join(HERE, "covers.json")))
    jobs = [Job(i) for i in items]
    jobs.sort(key=lambda j: -j.opt.get("weight", 1))
    found, unconfirmed, kn = [], [], []
    listed = known(pid)
    samples = 2 if tier == "quick" else 4
    en = {c: Engine(sx, f) for c, f in irs.items()}
    with cf.ThreadPoolExecutor(6) as ex:
        for f in cf.as_completed([ex.submit(run_job, j, en[j.crate], seed, samples, limit) for j in jobs]):
            j = f.result()
            for v in (j.d or {}).get("violations", []):
                if stop.is_set():
                    break
                hit = next((x for x in listed if x[0] == j.entry and x[1] == v["kind"] and x[2] in (None, j.params)), None)
                if hit:
                    kn.append(hit[3])
                    continue
                ok, text = confirm(j, v, crates[j.crate])
                if ok:
                    found.append((j, v, text))
                    stop.set()
                else:
                    unconfirmed.append((j, v, text))
    for e in en.values():
        e.close()
    # translation check: the engine's samples against the natively compiled code
    validated, mismatches, shown = 0, [], []
    if not found:
        work = [(j, s) for j in jobs if j.d and not j.d["violations"] for s in j.d["samples"]]
        with cf.ThreadPoolExecutor(8) as ex:
            for (j, s), (o, obs, detail) in zip(work, ex.map(lambda w: replay(nats[w[0].crate], w[0].entry, w[0].params, w[1]["inputs"], 120), work)):
                want = ",".join(str(x) for x in s["obs"])
                same = (o == "done" and s["outcome"] == "done" and obs == want) or (o == "panic-allowed" and s["outcome"] != "done" and (obs or "") == want)
                if same:
                    validated += 1
                    if len(shown) < 8 and (len(work) < 8 or validated % (len(work) // 8) == 1):
                        shown.append({"harness": j.id, "inputs": s["inputs"], "outcome": o, "observed": (obs or "")[:200]})
                else:
                    mismatches.append("%s on %s: engine %s [%s], native %s [%s] %s" % (j.id, s["inputs"], s["outcome"], want[:200], o, (obs or "")[:200], detail))
    missing = []
    for j in jobs:
        if j.d and not j.problem:
            want = covers.get(j.id)
            if want is None:
                missing.append(j.id + ": no entry in covers.json")
            else:
                gone = [c for c in want if str(c) not in j.d["covers"]]
                if gone and not j.d["violations"]:
                    missing.append("%s: situations %s never reached" % (j.id, gone))
    problems = ["%s: %s" % (j.id, j.problem) for j in jobs if j.problem]
    problems += ["%s: violation (%s: %s, inputs %s) not reproduced: %s" % (j.id, v["kind"], v["msg"], v["inputs"], t) for j, v, t in unconfirmed]
    problems += mismatches + missing
    evidence(pid, tier, seed, jobs, validated, shown, built, len(found), problems, kn)
    for k in sorted(set(kn)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if found:
        j, v, text = found[0]
        path = os.path.join(EVID, "%s.violation.json" % pid)
        json.dump(
            {
                "property": pid,
                "harness": j.entry,
                "params": j.params,
                "crate": j.crate,
                "inputs": v["inputs"],
                "kind": v["kind"],
                "message": v["msg"],
                "location": v["loc"],
                "native": text,
                "replay": "python3 /verif/check.py --replay %s" % path,
            },
            open(path, "w"),
            indent=1,
        )
        print("%s (%s): %s at %s; native replay: %s" % (j.id, v["inputs"], v["kind"], v["loc"], text))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if problems:
        for p in problems[:20]:
            log("NO ANSWER:", p)
        return 2
    d = [j.d for j in jobs]
    print(
        "%s held: %d harness instances, %d paths, %d solver queries (%.1f s), %d native replays agree, %.1f s"
        % (pid, len(jobs), sum(x["paths"] for x in d), sum(x["queries"] for x in d), sum(x["solver_s"] for x in d), validated, time.time() - T0)
    )
    return 0


WORLD = {
    "": ["the serial port behaves as in /verif/harness/src/world.rs: delivers what was sent to it in order, in any allowed pieces, or fails"],
    "port": [
        "the crate serial2 is replaced by /verif/port/serial2: its interface, over a port that delivers what was sent to it in order, in any allowed pieces, or fails",
        "std is replaced by /verif/port/std: its own core and alloc, with a clock that only the port advances",
    ],
}
WORLD["cli"] = WORLD["port"] + ["the crates clap, clap_complete, env_logger and log are replaced by those in /verif/cli and /verif/port: parsing of the command line, beyond the conversion of the values, is not covered"]


def evidence(pid, tier, seed, jobs, validated, shown, built, violations, problems, kn):
    os.makedirs(EVID, exist_ok=True)
    done = [j for j in jobs if j.d]
    tot = lambda k: sum(j.d[k] for j in done)  # noqa: E731
    funcs = {}
    for j in done:
        for f in j.d["functions"]:
            if f["file"].startswith(REPO + "/"):
                k = "%s:%d %s" % (f["file"][len(REPO) + 1 :], f["at"], re.sub(r"<.*", "", f["func"]))
                funcs.setdefault(k, set()).update(f["lines"])
    asserts = [x for j in done for x in j.d["asserts"].values()]
    inst = {}
    for j in done:
        inst.setdefault(j.entry, []).append(j.params)
    longest = max([j.d.get("max_inputs", 0) for j in done] or [0])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": shown,
            "states_meaning": "symbolic paths explored to their end (each covers all inputs that take it)",
            "transitions_meaning": "LLVM instructions executed symbolically",
            "harness_instances": inst,
            "instances_completed": sum(1 for j in done if not j.problem),
            "symbolic_input_bytes_max": longest,
            "branch_forks": tot("forks"),
            "assertions_evaluated": sum(a[0] for a in asserts),
            "assertions_decided_by_simplification": sum(a[1] for a in asserts),
            "assertions_decided_by_solver": sum(a[2] for a in asserts),
            "solver_queries": tot("queries"),
            "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"),
            "solver_s": round(tot("solver_s"), 2),
            "solver": sorted({j.d["solver"] for j in done}),
            "paths_ending_in_documented_panic": tot("panics_allowed"),
            "longest_path_instructions": max([j.d["max_steps"] for j in done] or [0]),
            "functions_encoded": {k: len(v) for k, v in sorted(funcs.items())},
            "build_s": round(built, 1),
            "problems": problems[:20],
            "known_findings_met": sorted(set(kn)),
        },
        "assumptions": [
            "bounds: the harness instances listed (parameters as documented in /verif/harness/src); nothing is claimed outside them",
            *WORLD[max(j.crate for j in jobs)],
            "the code is compiled as the harness compiles it (LLVM IR of rustc, overflow checks and debug assertions on)",
            "the executor /verif/symx and the solver are trusted; sampled paths are compared with native runs",
        ],
        "violations": violations,
        "wall_s": round(time.time() - T0, 2),
    }
    tmp = os.path.join(EVID, "%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % pid))


def record(pids):
    """Write covers.json: what every harness instance reaches on the current tree."""
    sx = engine()
    path = os.path.join(HERE, "covers.json")
    all_ = {}
    old = json.load(open(path)) if os.path.exists(path) else {}
    items = {}
    for pid in plan.PLAN:
        for t in ("quick", "thorough"):
            for i in plan.PLAN[pid][t]:
                j = Job(i)
                if j.id in old and (pids == ["missing"] or pids and pid not in pids):
                    all_[j.id] = old[j.id]
                else:
                    items[j.id] = j
    en = {c: Engine(sx, Crate(c).ir()) for c in {j.crate for j in items.values()}}
    with cf.ThreadPoolExecutor(5) as ex:
        for j in ex.map(lambda j: run_job(j, en[j.crate], 1, 0, time.time() - T0 + 1200), items.values()):
            if j.problem or not j.d or j.d["violations"]:
                print("BAD", j.id, j.problem, j.d and j.d["violations"][:2])
                continue
            if not j.d["covers"]:
                print("VACUOUS", j.id)
            if j.d["wall_s"] > 5:
                print("%6.1f s  %s (%d paths)" % (j.d["wall_s"], j.id, j.d["paths"]), flush=True)
            all_[j.id] = sorted(int(c) for c in j.d["covers"])
    for e in en.values():
        e.close()
    with open(path, "w") as f:
        f.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(all_[k])) for k in sorted(all_)) + "\n}\n")


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            engine()
            Crate("").ir()
            Crate("").replay()
            for name in ("port", "cli"):
                try:
                    Crate(name).ir()
                    Crate(name).replay()
                except NoAnswer as e:
                    log(e)
            return 0
        if a and a[0] == "--record":
            record(a[1:])
            return 0
        if a and a[0] == "--replay":
            v = json.load(open(a[1]))
            o, obs, detail = replay(Crate(v.get("crate", "")).replay(), v["harness"], v["params"], v["inputs"])
            print(o, detail)
            return 0 if o in ("done", "panic-allowed", "infeasible") else 1
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(a) > 1:
            tier = a[1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a[0], tier if tier == "thorough" else "quick", seed)
    except NoAnswer as e:
        log("NO ANSWER:", e)
        return 2
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
