#!/usr/bin/env python3
"""Driver of the property checks:  check.py <property> [quick|thorough] | check.py --replay <file>

Builds the test binary from /repo's current tree, runs the saved regression
cases and the generated search, turns process crashes and hangs into violations
only after they reproduce in fresh processes, and writes evidence/<id>.json.
Exit 0: held; 1: VIOLATION; 2: error of the check itself."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")

# property -> (package, build tags)
PKG = {}
for pkg, tags, ids in [
    ("mp", "", "C01 C02 C03 C04 C05 C06 C07 C40 C41"),
    ("fr", "", "C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C32"),
    ("rxp", "", "C20 C21 C22 C23"),
    ("rs", "", "C24 C25 C26 C27 C28 C38 C42 C45"),
    ("wasm", "verif", "C29 C30 C31 C35 C36 C37 C46 C47"),
    ("uid", "", "C33 C34 C39"),
    ("comp", "", "C43"),
    ("cli", "", "C44"),
]:
    for i in ids.split():
        PKG[i] = (pkg, tags)

# Other builds that run the same search with a part of the cases: on a 32-bit
# platform, as guests compiled by TinyGo are, and with the files that are compiled
# into WebAssembly guests. (name, GOARCH, more build tags, percent of the cases)
X86 = ("32-bit", "386", "", 25)
GUEST = ("guest", "386", "wasi", 40)
BUILDS = {i: [X86] for i in PKG}
for i in "C20 C21 C22".split():
    BUILDS[i] = [X86, GUEST]
BUILDS["C44"] = []  # the commands are built for the machine

SHARDS = 6  # parallel processes of a thorough run
ERR = 2


def log(*a):
    print(*a, flush=True)


def env_base():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VP_") and k not in ("VP_PART", "VP_CHECKS"):
            del e[k]
    e.update(GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local",
             GOSUMDB="off", CGO_ENABLED=e.get("CGO_ENABLED", "0"))
    e["VP_KNOWN"] = ";".join(k["id"] for k in (load(os.path.join(VERIF, "known_findings.json")) or {}).get("open", []))
    e.pop("GODEBUG", None)
    e.pop("GOGC", None)
    return e


def runs386(tmp):
    """Whether the machine runs 32-bit programs."""
    src, out = os.path.join(tmp, "hello.go"), os.path.join(tmp, "hello")
    with open(src, "w") as f:
        f.write("package main\nfunc main() {}\n")
    e = env_base()
    e["GOARCH"] = "386"
    e["CGO_ENABLED"] = "0"
    try:
        return subprocess.run(["go", "build", "-o", out, src], cwd=tmp, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 and \
            subprocess.run([out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


def build(pid, tmp, variant=None):
    pkg, tags = PKG[pid]
    e = env_base()
    out = os.path.join(tmp, pkg + (variant[0] if variant else "") + ".test")
    if variant:
        e["GOARCH"], e["CGO_ENABLED"] = variant[1], "0"
        tags = ",".join(t for t in (tags, variant[2]) if t)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./" + pkg)
    for attempt in (1, 2):
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out
        if attempt == 1 and not re.search(r"signal: killed|cannot allocate|resource temporarily", p.stdout):
            break
        time.sleep(2)
    log("BUILD FAILED\n" + p.stdout[-6000:])
    return None


def start(binary, pid, outdir, seed, tier, extra=None):
    os.makedirs(outdir, exist_ok=True)
    e = env_base()
    e.update(VP_OUT=outdir, VP_SEED=str(seed), VP_TIER=tier, GOTRACEBACK="all",
             VP_CORPUS=os.path.join(VERIF, "corpus", pid), TMPDIR=outdir,
             VP_PART_BUDGET="90" if tier == "quick" else "900")
    e.update(extra or {})
    logf = open(os.path.join(outdir, "log.txt"), "wb")
    cmd = ["prlimit", "--as=%d" % (24 << 30), binary] if shutil.which("prlimit") else [binary]
    cmd += ["-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.count", "1"]
    return subprocess.Popen(cmd, cwd=outdir, env=e, stdout=logf, stderr=subprocess.STDOUT)


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def tail(outdir, n=3500):
    try:
        s = open(os.path.join(outdir, "log.txt"), errors="replace").read()
    except OSError:
        return ""
    return s if len(s) <= 2 * n else s[:n] + "\n...\n" + s[-n:]


def run_one(binary, pid, outdir, seed, tier, extra=None, timeout=None):
    p = start(binary, pid, outdir, seed, tier, extra)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = -9
    return rc


def outcome(outdir, rc):
    """-> ('ok'|'fail'|'harness'|'crash'|'hang'|'killed', detail)"""
    res = load(os.path.join(outdir, "result.json"))
    if res and res.get("complete"):
        if res.get("harness_error"):
            return "harness", res["harness_error"]
        if res.get("failed"):
            return "fail", None
        return ("ok", None) if rc == 0 else ("harness", "test failed without a recorded case")
    if rc == 97:
        return "hang", None
    if rc < 0:
        return "killed", "signal %d" % -rc
    return "crash", None


CRASH = re.compile(r"^(panic: |fatal error: |runtime: |SIGSEGV|unexpected fault|WARNING: DATA RACE)", re.M)


def save_replay(pid, case):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, re.sub(r"[^\w.-]", "_", case.get("part", "x"))))
    with open(path, "w") as f:
        json.dump(case, f, indent=1)
    return path


def confirm_crash(binary, pid, case, tmp, tag):
    """Replays a crashing or hanging case in fresh processes; returns description or None."""
    path = os.path.join(tmp, "crash-%s.json" % tag)
    with open(path, "w") as f:
        json.dump(case, f)
    for i in range(6):
        od = os.path.join(tmp, "confirm-%s-%d" % (tag, i))
        rc = run_one(binary, pid, od, 1, "quick", {"VP_REPLAY": path, "VP_CASE_LIMIT": "60"}, timeout=150)
        kind, det = outcome(od, rc)
        if kind == "fail":
            return "case fails", load(os.path.join(od, "fail.json"))
        if kind == "crash" and CRASH.search(tail(od)):
            return "process crashed:\n" + tail(od, 1500), None
        if kind == "hang":
            return "case did not finish within 60 s\n" + open(os.path.join(od, "hang.txt"), errors="replace").read()[:3000], None
        if kind == "harness":
            log("replay: harness error:", det)
            return None
    return None


def handle_bad(binary, pid, outdir, rc, kind, seed, tier, tmp):
    """Returns exit code."""
    if kind == "fail":
        case = load(os.path.join(outdir, "fail.json"))
        if not case:
            log("failed without fail.json\n" + tail(outdir))
            return ERR, None
        return 1, case
    if kind == "harness":
        log("HARNESS ERROR\n" + tail(outdir))
        return ERR, None
    case = load(os.path.join(outdir, "current.json"))
    log("test process ended abnormally: %s (rc %d)\n%s" % (kind, rc, tail(outdir)))
    if not case:
        return ERR, None
    desc = confirm_crash(binary, pid, case, tmp, "first")
    if not desc:
        log("the last case does not reproduce the abnormal end: no verdict")
        if kind == "crash" and CRASH.search(tail(outdir, 100000)) and "out of memory" not in tail(outdir, 100000):
            # A Go panic or fatal error inside the code under test is real even when
            # it depends on scheduling; try the whole search once more to confirm.
            od = os.path.join(tmp, "again")
            rc2 = run_one(binary, pid, od, seed, tier, {}, timeout=600)
            k2, _ = outcome(od, rc2)
            if k2 == "fail":
                return 1, load(os.path.join(od, "fail.json"))
            if k2 == "crash" and CRASH.search(tail(od, 100000)):
                c2 = load(os.path.join(od, "current.json")) or case
                c2["error"] = "process crashed (schedule dependent):\n" + tail(od)
                return 1, c2
        return ERR, None
    case["error"] = desc[0]
    if desc[1]:
        case = desc[1]
    # Shrink in isolation: every evaluation in its own process.
    od = os.path.join(tmp, "isolate")
    n = case.pop("n", 0) if isinstance(case, dict) else 0
    if n and kind == "crash":
        run_one(binary, pid, od, seed, tier,
                {"VP_ISOLATE": case["part"], "VP_SKIP": str(n), "VP_CORPUS": "", "VP_CASE_LIMIT": "600"}, timeout=120)
        small = load(os.path.join(od, "fail.json"))
        if small:
            case = small
    return 1, case


def merge(results):
    parts = {}
    for res in results:
        for p in res.get("parts") or []:
            q = parts.setdefault(p["name"], {"name": p["name"], "rule": p["rule"], "evaluations": 0, "distinct_nontrivial": 0,
                                             "labels": {}, "samples": [], "wall_s": 0})
            q["evaluations"] += p["evaluations"]
            q["distinct_nontrivial"] += p["distinct_nontrivial"]
            q["wall_s"] = max(q["wall_s"], p["wall_s"])
            if p.get("time_budget_hit"):
                q["time_budget_hit"] = True
            for k, v in (p.get("labels") or {}).items():
                q["labels"][k] = q["labels"].get(k, 0) + v
            if len(q["samples"]) < 3:
                q["samples"] += (p.get("samples") or [])[: 3 - len(q["samples"])]
    return list(parts.values())


def evidence(pid, tier, seed, parts, builds, wall, violations):
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts),
        "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
        "rule": "; ".join("%s: %s" % (p["name"], p["rule"]) for p in parts) or "none ran",
        "samples": [{"part": p["name"], "case": s} for p in parts for s in p["samples"][:2]],
        "evaluations_per_build": builds,
        "parts": [{k: v for k, v in p.items() if k not in ("samples", "rule")} for p in parts],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "wall_s": round(wall, 3), "violations": violations}, f, indent=1)


def known(pid):
    d = load(os.path.join(VERIF, "known_findings.json")) or {}
    return [k for k in d.get("open", []) if k["property"] == pid]


def main():
    args = sys.argv[1:]
    t0 = time.time()
    if args and args[0] == "--setup":
        # Nothing is kept between runs; this only shows early that everything builds.
        with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
            bad = [p for p, i in {PKG[i][0]: i for i in PKG if os.path.isdir(os.path.join(HARNESS, PKG[i][0]))}.items() if not build(i, tmp)]
        return ERR if bad else 0
    if args and args[0] == "--replay":
        case = load(args[1])
        pid, tier = case["property"], "quick"
        variant = next((v for v in BUILDS[pid] if v[0] == case.get("build")), None)
        with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
            b = build(pid, tmp, variant)
            if not b:
                return ERR
            od = os.path.join(tmp, "r")
            rc = run_one(b, pid, od, 1, "quick", {"VP_REPLAY": os.path.abspath(args[1])}, timeout=300)
            kind, det = outcome(od, rc)
            log(tail(od))
            log("replay:", kind, det or "")
            return 0 if kind == "ok" else 1 if kind in ("fail", "crash", "hang") else ERR
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
        variants = [None]
        if runs386(tmp):
            variants += BUILDS[pid]
        else:
            log("no 32-bit programs here: only the native build is checked")
        with concurrent.futures.ThreadPoolExecutor() as pool:
            bins = list(pool.map(lambda v: build(pid, tmp, v), variants))
        if not all(bins):
            return ERR
        tb = time.time() - t0
        limit = 800 - tb if tier == "quick" else 7200
        procs = []
        for b, v in zip(bins, variants):
            for i in range(1 if tier == "quick" or v else SHARDS):
                od = os.path.join(tmp, "out%d" % len(procs))
                s = seed if not procs else seed * 1000003 + len(procs)
                procs.append((start(b, pid, od, s, tier, {"VP_PERCENT": str(v[3])} if v else None), od, s, b, v))
        results, bad, builds = [], None, {}
        for p, od, s, b, v in procs:
            try:
                rc = p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                log("time limit of the whole check reached: no verdict")
                rc = -9
            kind, det = outcome(od, rc)
            res = load(os.path.join(od, "result.json"))
            if res:
                results.append(res)
                name = v[0] if v else "native"
                builds[name] = builds.get(name, 0) + sum(q["evaluations"] for q in res.get("parts") or [])
            if kind != "ok":
                if bad is None or (kind != "killed" and bad[2] == "killed"):
                    bad = (od, rc, kind, s, b, v)
                log("shard%s: %s %s" % (" (%s)" % v[0] if v else "", kind, det or ""))
        parts = merge(results)
        for p in parts:
            log("part %-28s %7d cases, %7d distinct non-trivial, %.1f s %s" % (
                p["name"], p["evaluations"], p["distinct_nontrivial"], p["wall_s"], json.dumps(p["labels"]) if p["labels"] else ""))
        code, violations = 0, []
        if bad:
            od, rc, kind, s, b, v = bad
            if kind == "killed":
                log("test process was killed (%d): no verdict\n%s" % (rc, tail(od)))
                code = ERR
            else:
                code, case = handle_bad(b, pid, od, rc, kind, s, tier, tmp)
                if code == 1:
                    if v:
                        case["build"] = v[0]
                    path = save_replay(pid, case)
                    log("--- part %s%s\n%s" % (case.get("part"), " (%s build)" % v[0] if v else "", case.get("error", "")))
                    log("case: " + json.dumps(case.get("case"))[:3000])
                    violations.append({"replay": path, "part": case.get("part"), "error": case.get("error", "")[:2000]})
                    log("VIOLATION property=%s replay=%s" % (pid, path))
        if code != ERR:
            evidence(pid, tier, seed, parts, builds, time.time() - t0, violations)
            if code == 0:
                for k in known(pid):
                    log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                log("OK property=%s %d cases, build %.1f s, total %.1f s" % (
                    pid, sum(p["evaluations"] for p in parts), tb, time.time() - t0))
        return code


if __name__ == "__main__":
    sys.exit(main())
