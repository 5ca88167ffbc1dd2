#!/usr/bin/env python3
"""Screening of the checks with small mechanical changes of the library.
  mutate.py list  OUT.json [SEED]           enumerates candidate changes of /repo/src
  mutate.py tests IN.json OUT.json [N]      keeps those that compile and pass the existing tests
  mutate.py cases DIR                       generates the quick tier's cases once (TLC)
  mutate.py run   IN.json DIR LOG [N]       replays the cases against each change; LOG gets one line per change
Everything happens in copies under /tmp/mut; nothing here is part of a check."""
import json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run, checks
ROOT = "/tmp/mut"

SUBS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" += "]),
    (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.rev\(\)", [""]), (r"\.\.=", [".."]),
    (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"is_some\(\)", ["is_none()"]), (r"is_none\(\)", ["is_some()"]),
    (r"\bindex\b", ["0", "(index + 1)"]), (r"\boffset\b", ["0"]), (r"\bcount\b", ["0"]), (r"\bmin_size\b", ["old_size", "new_size"]),
    (r"\bself\.index\b", ["0"]), (r"\bself\.offset\b", ["0"]), (r"inner_stride\(\)", ["stride(0)"]), (r"\bdims\b", ["src"]), (r"\bsrc\b", ["dims"]),
    (r"\bX\b", ["Y"]), (r"\bY\b", ["X"]), (r"\bZ\b", ["Y"]), (r"\$yz\b", ["X"]), (r"if (?!let)([^{]+) \{", ["if true {", "if false {"]),
    (r"if !", ["if "]), (r"!self\.", ["self."]), (r"debug_assert!\(", ["assert!(false && "]),
]


def skip_lines(text):
    """lines of comments, attributes and nightly-only items"""
    L = text.split("\n")
    skip = set()
    i = 0
    while i < len(L):
        s = L[i].strip()
        if s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod")):
            skip.add(i)
        if s == '#[cfg(feature = "nightly")]':
            depth, j, opened = 0, i + 1, False
            item = re.match(r"\s*(pub\b|unsafe |fn |impl|macro_rules|struct|enum|trait)", L[j]) and not L[j].rstrip().endswith((";", ","))
            while j < len(L):
                skip.add(j)
                for ch in L[j]:
                    if ch in "{([":
                        depth += 1
                        opened = opened or ch == "{"
                    elif ch in "})]":
                        depth -= 1
                if depth <= 0 and (opened if item else L[j].rstrip().endswith(("}", ";", ",", ")"))):
                    break
                j += 1
            i = j
        i += 1
    return L, skip


def enum_all():
    out = []
    base = "/repo/src"
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, "/repo")
            if rel in ("src/lib.rs", "src/layout.rs"):
                continue
            L, skip = skip_lines(open(p).read())
            for i, line in enumerate(L):
                if i in skip or not line.strip():
                    continue
                code = line.split("//")[0]
                seen = set()
                for pat, reps in SUBS:
                    for m in re.finditer(pat, code):
                        for r in reps:
                            new = code[:m.start()] + r + code[m.end():]
                            if new != code and new not in seen:
                                seen.add(new)
                                out.append({"file": rel, "line": i, "old": line, "new": new})
                s = code.strip()
                if s.endswith(";") and re.match(r"(assert|_ =|[\w:.*]+\(|[\w.*\[\]()]+ [-+*]?= |mem::|self\.|\*|ptr::)", s) and not s.startswith(("let ", "type ", "const ")):
                    out.append({"file": rel, "line": i, "old": line, "new": ""})
    return out


def apply(root, m):
    p = os.path.join(root, m["file"])
    L = open(p).read().split("\n")
    assert L[m["line"]] == m["old"], (m, L[m["line"]])
    L[m["line"]] = m["new"]
    open(p, "w").write("\n".join(L))
    return p


def restore(root, m):
    shutil.copy(os.path.join(ROOT, "base", m["file"]), os.path.join(root, m["file"]))


def worker(k):
    w = "%s/w%d" % (ROOT, k)
    if not os.path.exists(w + "/repo"):
        os.makedirs(w, exist_ok=True)
        shutil.copytree("/repo", w + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
    else:
        shutil.rmtree(w + "/repo/src")
        shutil.copytree(ROOT + "/base/src", w + "/repo/src")
    shutil.rmtree(w + "/harness", ignore_errors=True)
    shutil.copytree(HERE + "/harness", w + "/harness", ignore=shutil.ignore_patterns("target"))
    t = open(w + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % w)
    open(w + "/harness/Cargo.toml", "w").write(t)
    return w


def sh(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **env))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def tests(inp, outp, n):
    ms = json.load(open(inp))
    q = list(enumerate(ms))
    good, lock, done = [], threading.Lock(), [0]

    def work(k):
        w = worker(k)
        env = dict(RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=w + "/tt", CARGO_INCREMENTAL="1")
        while True:
            with lock:
                if not q:
                    return
                i, m = q.pop()
            apply(w + "/repo", m)
            ok = False
            rc, o = sh(["cargo", "build", "--offline", "--features", "serde", "-q"], w + "/repo", 60, **env)
            if rc == 0:
                rc, o = sh(["cargo", "test", "--offline", "--features", "serde", "-q", "--", "--test-threads", "2"], w + "/repo", 90, **env)
                ok = rc == 0
            restore(w + "/repo", m)
            with lock:
                done[0] += 1
                if ok:
                    good.append((i, m))
                if done[0] % 50 == 0:
                    print(done[0], len(good), flush=True)
                    json.dump([m for _, m in sorted(good, key=lambda x: x[0])], open(outp, "w"), indent=0)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump([m for _, m in sorted(good, key=lambda x: x[0])], open(outp, "w"), indent=0)
    print("survive:", len(good), "of", len(ms))


def cases(dir):
    seen = {}
    for p in ["C%02d" % i for i in range(1, 18)]:
        for j in checks.jobs(p, "quick"):
            if j["type"] != "gen":
                continue
            key = json.dumps([j["module"], {k: run.tla(v) for k, v in sorted(j["consts"].items())}])
            for b, mode in run.variants(j):
                seen.setdefault(key, (j, []))[1].append({"prop": p, "bin": b, "mode": mode, "env": j.get("env", {})})
    jobs = []
    os.makedirs(dir, exist_ok=True)

    def one(x):
        i, (j, reps) = x
        d = os.path.join(dir, "g%d" % i)
        r = run.generate(d, j, 4)
        uniq = {json.dumps([r["bin"], r["mode"], r["env"]]): r for r in reps}
        return {"cases": r["cases"], "n": r["n"], "name": j["name"], "module": j["module"], "reps": list(uniq.values())}
    with ThreadPoolExecutor(2) as ex:
        jobs = list(ex.map(one, enumerate(seen.values())))
    json.dump(jobs, open(os.path.join(dir, "jobs.json"), "w"), indent=1)
    print(len(jobs), "jobs", sum(j["n"] for j in jobs), "cases")


PREF = {"src/array.rs": "ocpz", "src/dim.rs": "kvcsn", "src/macros.rs": "c", "src/mapping.rs": "kvixz", "src/ops.rs": "pe", "src/raw_slice.rs": "vco",
        "src/raw_tensor.rs": "on", "src/serde.rs": "s", "src/shape.rs": "kvncz", "src/slice.rs": "vxezc", "src/tensor.rs": "oncp", "src/traits.rs": "c",
        "src/view.rs": "vixc", "src/expr/adapters.rs": "zpx", "src/expr/buffer.rs": "o", "src/expr/expression.rs": "ziox", "src/expr/into_expr.rs": "oz",
        "src/expr/iter.rs": "izx", "src/expr/sources.rs": "xzin", "src/index/axis.rs": "kxv", "src/index/mod.rs": "vo", "src/index/permutation.rs": "kv",
        "src/index/slice.rs": "v", "src/index/view.rs": "v"}


def runall(inp, dir, logp, n):
    ms = json.load(open(inp))
    jobs = json.load(open(os.path.join(dir, "jobs.json")))
    done = set()
    if os.path.exists(logp):
        done = {json.dumps(json.loads(x)["m"]) for x in open(logp)}
    q = [m for m in ms if json.dumps(m) not in done]
    q.reverse()
    lock = threading.Lock()
    part = int(os.environ.get("PART", "12"))       # one in PART cases is replayed

    def check(w, b, profile, m):
        for j in jobs:
            for r in j["reps"]:
                if r["bin"] != b:
                    continue
                procs = []
                for k in [hash(json.dumps(m)) % part]:
                    tag = "%s/o.%d" % (w, k)
                    cmd = ["%s/t-%s/%s/%s" % (w, profile, profile, b), r["mode"], j["cases"], tag, tag + ".p", str(k), str(part), "1"]
                    if os.path.exists(tag):
                        os.remove(tag)
                    procs.append((tag, subprocess.Popen(cmd, env=dict(os.environ, **r["env"]), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=run.limits)))
                bad = None
                for tag, p in procs:
                    try:
                        rc = p.wait(timeout=600)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        rc = "hang"
                    if rc != 0:
                        bad = bad or "exit %s" % rc
                    for line in open(tag) if os.path.exists(tag) else []:
                        try:
                            x = json.loads(line)
                        except ValueError:
                            continue
                        if "mismatch" in x and not x["mismatch"].startswith("[known:"):
                            bad = x["mismatch"][:200]
                if bad:
                    return "%s/%s %s %s %s: %s" % (b, r["mode"], profile, j["name"], r["prop"], bad)
        return None

    def work(k):
        w = worker(k)
        while True:
            with lock:
                if not q:
                    return
                m = q.pop()
            t0 = time.time()
            apply(w + "/repo", m)
            res = "MISSED"
            order = PREF.get(m["file"], "")
            order = list(order)
            if os.environ.get("ALL"):
                order += [b for b in checks.BINS if b not in order]
            for profile in os.environ.get("PROF", "debug rel").split():
                for b in order:
                    rc, o = sh(["cargo", "build", "--offline", "--locked", "-q"] + run.PROFILES[profile] + ["--bin", b, "--target-dir", "%s/t-%s" % (w, profile)],
                               w + "/harness", 600, RUSTFLAGS="-Awarnings")
                    if rc:
                        res = "NOBUILD " + b + " " + o[-300:]
                        break
                    x = check(w, b, profile, m)
                    if x:
                        res = x
                        break
                if res != "MISSED":
                    break
            restore(w + "/repo", m)
            with lock:
                with open(logp, "a") as f:
                    f.write(json.dumps({"m": m, "res": res, "s": round(time.time() - t0)}) + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def main():
    a = sys.argv[1:]
    if a[0] == "list":
        ms = enum_all()
        random.Random(int(a[2]) if len(a) > 2 else 1).shuffle(ms)
        json.dump(ms, open(a[1], "w"), indent=0)
        print(len(ms))
    elif a[0] == "tests":
        tests(a[1], a[2], int(a[3]) if len(a) > 3 else 4)
    elif a[0] == "cases":
        cases(a[1])
    elif a[0] == "run":
        runall(a[1], a[2], a[3], int(a[4]) if len(a) > 4 else 2)


main()
