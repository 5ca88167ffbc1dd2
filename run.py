#!/usr/bin/env python3
"""Driver of the checks:  run.py PROPERTY TIER   |   run.py replay FILE

For each property a list of jobs (checks.py) is run against /repo's working tree:
  gen    TLC explores a specification module exhaustively within the given
         constants, checks its invariants and emits every transition; the
         harness replays each transition on the real library and compares.
  trace  the harness drives the real library with random operations and
         records what it did; TLC decides whether the recording is a behaviour
         of the specification.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: tool error.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
JAVA = ["java", "-XX:+UseParallelGC"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4
HANG = 120          # seconds without progress
MEM = 6 << 30       # address space of a harness process
PROFILES = {"debug": ["--profile", "dev"], "rel": ["--profile", "rel"]}


KNOWN = {}          # recorded findings of the property: key -> description
FOUND = set()       # those met in this run


def known_findings(prop):
    """finding: property=ID key=KEY what fails"""
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            KNOWN[m.group(2)] = m.group(3).strip()


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, record):
        super().__init__(what)
        self.record = record


def build(bins):
    """Builds the harness binaries against /repo's working tree, both profiles."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    env["RUSTFLAGS"] = "-Awarnings"
    env.pop("CARGO_BUILD_TARGET", None)

    def one(args):
        cmd = ["cargo", "build", "--offline", "--locked"] + args
        for b in bins:
            cmd += ["--bin", b]
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    # cargo's lock serialises the two builds of one target directory: separate directories
    with ThreadPoolExecutor(2) as ex:
        fs = []
        for name, args in PROFILES.items():
            fs.append(ex.submit(one, args + ["--target-dir", os.path.join(BUILD, "target-" + name)]))
        for f in fs:
            f.result()


def binpath(b, profile):
    return os.path.join(BUILD, "target-" + profile, profile, b)


def tlc_cmd(cfg, module, workers, meta, extra=()):
    return JAVA + ["-Xmx6g", "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
                   "-noGenerateSpecTE", "-config", cfg, *extra, module]


def tla(x):
    """Python value as a TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(y) for y in x)) + "}"
    raise TypeError(x)


def prepare(dir, job):
    """Model directory with the specification and a generated MC module."""
    os.makedirs(dir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), dir)
    m = ["---- MODULE MC ----", "EXTENDS " + job["module"]]
    c = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    if job.get("consts"):
        c.append("CONSTANTS")
    for k, x in job.get("consts", {}).items():
        m.append("c_%s == %s" % (k, tla(x)))
        c.append("  %s <- c_%s" % (k, k))
    m.append("====")
    for k in ("INVARIANT", "PROPERTY", "CONSTRAINT", "VIEW", "POSTCONDITION"):
        if job.get(k):
            c.append(k + " " + job[k])
    open(os.path.join(dir, "MC.tla"), "w").write("\n".join(m) + "\n")
    open(os.path.join(dir, "MC.cfg"), "w").write("\n".join(c) + "\n")


def generate(dir, job, workers):
    """Runs TLC; writes the emitted transitions to cases.ndjson."""
    prepare(dir, job)
    extra = []
    if job.get("simulate"):
        extra = ["-simulate", "num=%d" % job["simulate"], "-depth", str(job.get("depth", 20)), "-seed", str(job.get("seed", 1))]
    p = subprocess.Popen(tlc_cmd("MC.cfg", "MC.tla", workers, os.path.join(dir, "st"), extra), cwd=dir,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = 0
    log = []
    cases = os.path.join(dir, "cases.ndjson")
    limit = job.get("timeout", 3000)
    timer = threading.Timer(limit, p.kill)
    timer.start()
    seen = set()
    with open(cases, "w") as out:
        for line in p.stdout:
            if line.startswith('"EDGE '):
                c = json.loads(line)[5:]
                if job.get("simulate"):
                    if c in seen:
                        continue
                    seen.add(c)
                out.write(c + "\n")
                n += 1
            else:
                log.append(line)
    p.wait()
    timer.cancel()
    log = "".join(log)
    open(os.path.join(dir, "tlc.log"), "w").write(log)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", log)
    if job.get("simulate"):
        m = m or [(re.findall(r"The number of states generated: (\d+)", log) or ["0"])[-1:] * 2]
    if p.returncode or not m or n == 0:
        raise ToolError("TLC (%s) failed with %s after %d cases:\n%s" % (job["name"], p.returncode, n, log[-3000:]))
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    return {"cases": cases, "n": n, "states": dist, "transitions": gen}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def read_mark(path):
    try:
        b = open(path, "rb").read(8)
        return int.from_bytes(b, "little") if len(b) == 8 else 0
    except OSError:
        return 0


def run_marked(cmd, progress, env, err):
    """Runs a harness process; returns (status, last mark). status: 'ok', 'crash ..', 'hang'."""
    e = open(err, "w")
    p = subprocess.Popen(cmd, env=env, stdout=e, stderr=e, preexec_fn=limits)
    last, t = -1, time.time()
    while True:
        try:
            rc = p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            m = read_mark(progress)
            if m != last:
                last, t = m, time.time()
            elif time.time() - t > HANG:
                p.kill()
                p.wait()
                return "hang", read_mark(progress)
    m = read_mark(progress)
    if rc == 0 and m == (1 << 64) - 1:
        return "ok", m
    if rc < 0:
        return "crash with signal %s" % signal.Signals(-rc).name, m
    return "exit %d" % rc, m


def nth_line(path, n):
    with open(path) as f:
        for i, line in enumerate(f):
            if i == n:
                return line
    return None


def replay_cases(dir, job, cases, seed, profile):
    """Replays the cases in parallel shards."""
    env = dict(os.environ, RUST_BACKTRACE="0", **job.get("env", {}))
    tot = {"cases": 0, "execs": 0}
    found = FOUND

    def shard(k):
        tag = "%s.%s.%d" % (job["name"], profile, k)
        out, prog, err = (os.path.join(dir, tag + x) for x in (".out", ".prog", ".err"))
        cmd = [binpath(job["bin"], profile), job["mode"], cases, out, prog, str(k), str(NPROC), str(seed)]
        st, mark = run_marked(cmd, prog, env, err)
        res = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
        bad = []
        for r in res:
            if "mismatch" not in r:
                continue
            m = re.match(r"\[known:([^\]]+)\] *", r["mismatch"])
            if m and m.group(1) in KNOWN:
                found.add(m.group(1))
            else:
                bad.append(r)
        if bad:
            return ("bad", bad)
        if st == "ok":
            d = [r for r in res if r.get("done")]
            if d:
                return ("ok", d[0])
        if 0 < mark < (1 << 64) - 1:
            line = mark - 1
            case = nth_line(cases, line)
            return ("bad", [{"line": line, "mismatch": "process %s while executing this case; %s" % (st, open(err).read()[-500:]),
                             "case": json.loads(case) if case else None}])
        return ("tool", "%s: %s (mark %d) %s" % (tag, st, mark, open(err).read()[-2000:]))

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(shard, range(NPROC)))
    for kind, x in res:
        if kind == "bad":
            b = sorted(x, key=lambda r: len(json.dumps(r["case"])))[0]
            raise Violation(b["mismatch"], {"kind": "replay", "bin": job["bin"], "mode": job["mode"], "env": job.get("env", {}),
                                            "profile": profile, "seed": seed, **b})
    for kind, x in res:
        if kind == "tool":
            raise ToolError(x)
        tot["cases"] += x["cases"]
        tot["execs"] += x["execs"]
    if tot["execs"] == 0:
        raise ToolError("no case of %s was executed" % job["name"])
    return tot


def trace_one(dir, job, k, seed, profile):
    tag = "%s.%s.%d" % (job["name"], profile, k)
    d = os.path.join(dir, tag)
    os.makedirs(d, exist_ok=True)
    log, prog, err = (os.path.join(d, x) for x in ("trace.ndjson", "prog", "err"))
    env = dict(os.environ, RUST_BACKTRACE="0", **job.get("env", {}))
    s = seed * 1000 + k
    cmd = [binpath(job["bin"], profile), job["mode"], log, str(s)] + [str(a) for a in job["args"]] + [prog]
    st, mark = run_marked(cmd, prog, env, err)
    rec = {"kind": "trace", "bin": job["bin"], "cmd": cmd[1:], "profile": profile, "module": job["module"]}
    if st != "ok":
        if mark == 0:
            raise ToolError("%s: %s %s" % (tag, st, open(err).read()[-2000:]))
        tail = open(log).read().splitlines()[-30:] if os.path.exists(log) else []
        raise Violation("recorded run: process %s at step %d; %s" % (st, mark, open(err).read()[-500:]), dict(rec, tail=tail))
    prepare(d, job)
    p = subprocess.run(tlc_cmd("MC.cfg", "MC.tla", 1, os.path.join(d, "st")), cwd=d, env=dict(os.environ, TRACE=log),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r'"REACHED (\d+) OF (\d+)"', p.stdout)
    if not m:
        raise ToolError("TLC (%s) failed with %s:\n%s" % (job["name"], p.returncode, p.stdout[-3000:]))
    got, want = int(m.group(1)), int(m.group(2))
    lines = open(log).read().splitlines()
    if got < want:
        # the event that no transition of the specification explains, with its history
        start = got - 1
        while start > 0 and json.loads(lines[start]).get("e") != job.get("start", "base"):
            start -= 1
        raise Violation("recorded call is not a transition of %s: %s" % (job["module"], lines[got - 1][:600]),
                        dict(rec, event=got, history=[json.loads(x) for x in lines[start:got]]))
    if p.returncode:
        raise ToolError("TLC (%s) failed with %s:\n%s" % (job["name"], p.returncode, p.stdout[-3000:]))
    chains = sum(1 for x in lines if '"e":"%s"' % job.get("start", "base") in x)
    return {"events": len(lines), "chains": chains, "sample": lines[:4]}


def variants(job):
    """(binary, mode) pairs that execute a job's cases"""
    return job.get("replays") or [(job["bin"], job["mode"])]


def check(prop, tier):
    import checks
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known_findings(prop)
    jobs = checks.jobs(prop, tier)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    dir = tempfile.mkdtemp(prefix="%s-%s-" % (prop, tier), dir=BUILD)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0,
           "recorded_events_validated": 0, "jobs": [], "samples": []}
    viol = None
    phases = {}
    try:
        gens = [j for j in jobs if j["type"] == "gen"]
        traces = [j for j in jobs if j["type"] == "trace"]
        with ThreadPoolExecutor(4) as ex:
            b = ex.submit(build, sorted({b for j in jobs for b, _ in variants(j)}))
            w = max(2, NPROC // max(1, min(len(gens), 2)))
            gs = []
            # at most two TLC processes at a time next to the build
            sem = threading.Semaphore(2)

            def g(j):
                with sem:
                    return generate(os.path.join(dir, j["name"]), j, w)
            gs = [(j, ex.submit(g, j)) for j in gens]
            b.result()
            phases["build"] = round(time.time() - t0, 1)
            gs = [(j, f.result()) for j, f in gs]
        phases["tlc"] = round(time.time() - t0, 1)
        for j, r in gs:
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["samples"] += [json.loads(nth_line(r["cases"], r["n"] * q // 3)) for q in range(2)]
            for bin, mode in variants(j):
                for profile in j.get("profiles", PROFILES):
                    t = replay_cases(dir, dict(j, bin=bin, mode=mode), r["cases"], seed, profile)
                    cov["executions"] += t["execs"]
            cov["traces_validated_against_impl"] += t["cases"]
            cov["jobs"].append({"name": j["name"], "module": j["module"], "constants": {k: tla(x) for k, x in j.get("consts", {}).items()},
                                "invariants": j.get("INVARIANT", ""), "states": r["states"], "transitions_replayed": t["cases"]})
        phases["replay"] = round(time.time() - t0, 1)
        work = [(j, k, p) for j in traces for k in range(j.get("runs", 4)) for p in [list(PROFILES)[k % 2]]]
        with ThreadPoolExecutor(max(1, NPROC // 2)) as ex:
            fs = [(j, ex.submit(trace_one, dir, j, k, seed, p)) for j, k, p in work]
            for j, f in fs:
                t = f.result()
                cov["traces_validated_against_impl"] += t["chains"]
                cov["recorded_events_validated"] += t["events"]
                if len(cov["samples"]) < 12:
                    cov["samples"].append([json.loads(x) for x in t["sample"]])
        for j in traces:
            cov["jobs"].append({"name": j["name"], "module": j["module"], "recordings": j.get("runs", 4)})
        phases["trace"] = round(time.time() - t0, 1)
    except Violation as v:
        viol = v
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", dir)
        else:
            shutil.rmtree(dir, ignore_errors=True)
    cov["phases_s"] = phases
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": checks.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        path = os.path.join(HERE, "evidence", "replay", "%s-%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(dict(viol.record, property=prop, what=str(viol)), f, indent=1)
        print(str(viol)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for k in sorted(FOUND):
        print("KNOWN-FINDING: property=%s %s" % (prop, KNOWN[k]))
    print("%s %s: held; %d states, %d transitions, %d traces, %d executions, %d recorded events, %.1f s" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["executions"],
        cov["recorded_events_validated"], ev["wall_s"]))
    return 0


def replay(path):
    r = json.load(open(path))
    build([r["bin"]])
    if r["kind"] != "replay":
        print(json.dumps(r, indent=1))
        return 0
    d = tempfile.mkdtemp(dir=BUILD)
    open(d + "/c", "w").write("\n" * 0 + json.dumps(r["case"]) + "\n")
    p = subprocess.run([binpath(r["bin"], r["profile"]), r["mode"], d + "/c", d + "/o", d + "/p", "0", "1", str(r["seed"])],
                       env=dict(os.environ, **r["env"]))
    print("exit", p.returncode)
    print(open(d + "/o").read())
    shutil.rmtree(d)
    return 0


def main():
    try:
        if sys.argv[1] == "build":
            import checks
            build(checks.BINS)
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2])
    except ToolError as e:
        print("TOOL ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
