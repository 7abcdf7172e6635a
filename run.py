#!/usr/bin/env python3
"""Runs the check of one property: run.py C01 quick|thorough, or run.py --replay FILE.

Builds the test binary from /repo's working tree, runs the parts of the property, writes the
evidence file and maps the outcome: 0 held, 1 violated (with a VIOLATION line), 3 no verdict.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
LIB = "github.com/voltbras/go-ocpp"
RACE = {"C19", "C23"}
LEVEL = "exploration"

ASSUME = [
    "loopback TCP, the Go runtime, net/http, encoding/json, encoding/xml and gorilla/websocket behave as documented",
    "generated inputs sample the quantified domain; absence of a failure is not a proof",
]


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GO111MODULE="on", GOWORK="off")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        if not os.access(cache, os.W_OK):
            raise OSError
    except OSError:
        cache = os.path.join(tempfile.gettempdir(), "go-build-verif")
    e["GOCACHE"] = cache
    for k in ("GODEBUG", "GOEXPERIMENT", "GOGC", "GOMAXPROCS", "GORACE", "GOMEMLIMIT", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        e.pop(k, None)
    return e


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(3)


def build(out, race):
    args = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        args.append("-race")
    r = subprocess.run(args + ["./props"], cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=800)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        die("the harness does not build against /repo")


def execute(binary, prop, scratch, args, limit, extra_env=None):
    """Runs the test binary; returns (returncode or None on timeout, output)."""
    os.makedirs(scratch, exist_ok=True)
    log = os.path.join(scratch, "log.txt")
    e = env()
    e.update(extra_env or {})
    if prop in RACE:
        # reports go to a file, the check reads them; the same report comes again when a case is repeated
        e["VERIF_RACELOG"] = os.path.join(scratch, "race")
        e["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0" % e["VERIF_RACELOG"]
    with open(log, "wb") as f:
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-hx.out", scratch] + args,
                             cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(timeout=10)
            except Exception:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        p.wait()
    with open(log, "rb") as f:
        data = f.read()
    if len(data) > 4000000:
        data = data[:2000000] + b"\n...\n" + data[-2000000:]
    return rc, data.decode(errors="replace")


CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV)", re.M)


def library_crash(out):
    """The crash report, if the process died inside the library."""
    m = CRASH.search(out)
    if not m:
        return None
    rest = out[m.start():]
    if rest.startswith("panic: test timed out"):
        return None
    blocks = re.split(r"\n\n(?=goroutine )", rest)
    # the first goroutine listed is the one that crashed
    head = blocks[0] + ("\n" + blocks[1] if len(blocks) > 1 and not re.search(r"^goroutine ", blocks[0], re.M) else "")
    if (LIB + "/") in head or (LIB + ".") in head:
        return head[:3000]
    if rest.startswith("fatal error: concurrent map") and LIB in rest:
        return rest[:3000]
    return None


def crash_again(binary, prop, tmp, rec, tries=2):
    f = os.path.join(tmp, "cand.json")
    for _ in range(tries):
        d = os.path.join(tmp, "cand")
        shutil.rmtree(d, ignore_errors=True)
        with open(f, "w") as g:
            json.dump(rec, g)
        rc, out = execute(binary, prop, d, ["-hx.replay", f], 60)
        if rc not in (0, None) and library_crash(out):
            return True
    return False


def variants(v):
    """Smaller versions of a JSON value, coarse ones first."""
    if isinstance(v, list):
        n = len(v)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i in range(n):
            for w in variants(v[i]):
                yield v[:i] + [w] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for w in variants(v[k]):
                d = dict(v)
                d[k] = w
                yield d
    elif isinstance(v, str) and len(v) > 1:
        yield v[:len(v) // 2]
        yield v[len(v) // 2:]
        yield v[1:]
        yield v[:-1]


def shrink_crash(binary, prop, tmp, rec, budget):
    end = time.time() + budget
    if not crash_again(binary, prop, tmp, rec, 3):
        return rec
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in variants(rec["case"]):
            if time.time() > end:
                break
            r = dict(rec)
            r["case"] = cand
            if crash_again(binary, prop, tmp, r, 1):
                rec, progress = r, True
                break
    return rec


def load(path):
    with open(path) as f:
        return json.load(f)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return load(p)["findings"] if os.path.exists(p) else []


def store_replay(prop, part, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, part))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(os.path.join(tmp, "a"), False)
            build(os.path.join(tmp, "b"), True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    if args[:1] == ["--replay"]:
        path = os.path.abspath(args[1])
        rec = load(path)
        prop = rec["property"]
        tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        try:
            b = os.path.join(tmp, "props.test")
            build(b, prop in RACE)
            rc, out = execute(b, prop, os.path.join(tmp, "out"), ["-hx.replay", path, "-hx.replayn", "3"] , 600)
            sys.stdout.write(out[-6000:])
            if rc == 0:
                print("the case passes")
                return 0
            if os.path.exists(os.path.join(tmp, "out", "failure-%s.json" % rec["part"])) or library_crash(out):
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 3
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop, tier = args[0], (args[1] if len(args) > 1 else "quick")
    extra = args[2:]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    seed = abs(seed) or 1000003  # 0 would mean random to the generators
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, tmp, start, extra)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, tmp, start, extra):
    binary = os.path.join(tmp, "props.test")
    build(binary, prop in RACE)
    limit = 780 if tier == "quick" else 7200
    out_dir = os.path.join(tmp, "out")
    rc, out = execute(binary, prop, out_dir, ["-hx.tier", tier, "-hx.seed", str(seed)] + extra, limit)

    files = os.listdir(out_dir)
    stats = [load(os.path.join(out_dir, f)) for f in sorted(files) if f.startswith("stats-")]
    failures = [f[len("failure-"):-len(".json")] for f in sorted(files) if f.startswith("failure-")]
    violations = []
    for part in failures:
        rec = load(os.path.join(out_dir, "failure-%s.json" % part))
        first = os.path.join(out_dir, "first-%s.json" % part)
        p = store_replay(prop, part, rec)
        if os.path.exists(first):
            d = os.path.join(tmp, "confirm")
            shutil.rmtree(d, ignore_errors=True)
            crc, _ = execute(binary, prop, d, ["-hx.tier", tier, "-hx.replay", p, "-hx.replayn", "2"], 150)
            if crc == 0:  # the shrunk case depends on the history of the process
                rec = load(first)
                rec["note"] = "first failing case; the shrunk one did not fail again in a fresh process"
                store_replay(prop, part, rec)
        violations.append((part, p, rec.get("error", "")))
    if rc != 0 and not violations:
        crash = library_crash(out)
        flight = [f for f in files if f.startswith("inflight-")]
        if crash and flight:
            newest = max(flight, key=lambda f: os.path.getmtime(os.path.join(out_dir, f)))
            rec = load(os.path.join(out_dir, newest))
            part = rec["part"]
            rec = shrink_crash(binary, prop, tmp, rec, 45)
            rec["error"] = "the process crashed inside the library:\n" + crash
            p = store_replay(prop, part, rec)
            violations.append((part, p, rec["error"]))
    no_verdict = None
    if rc == 1 and prop in RACE and not violations and stats and not any(s.get("failed") for s in stats) \
            and "race detected during execution of test" in out:
        rc = 0  # the library takes no part in any of the reports: the parts have looked at them
    if not violations:
        if rc is None:
            no_verdict = "time limit of the check exceeded"
        elif rc != 0:
            no_verdict = "the test process ended with %s" % rc
        elif not stats:
            no_verdict = "nothing was executed"
        if no_verdict:
            sys.stdout.write(out[-6000:] + "\n")

    known = {k["id"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    seen_known = []
    for f in sorted(files):
        if f.startswith("known-"):
            k = load(os.path.join(out_dir, f))
            if k["id"] in known:
                seen_known.append(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, known[k["id"]]["what"]))
            else:
                p = store_replay(prop, k["part"], k)
                violations.append((k["part"], p, k["error"]))

    samples = []
    for s in stats:
        samples += [{"part": s["part"], "case": c} for c in (s["samples"] or [])[:3]]
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
        "rule": " | ".join("%s: %s" % (s["part"], s["rule"]) for s in stats),
        "samples": samples[:12],
        "parts": [{k: s.get(k) for k in ("part", "evaluations", "nontrivial", "distinct_nontrivial", "requested",
                                         "truncated", "classes", "wall_s", "max_stall_ms", "notes")} for s in stats],
        "known_findings_seen": seen_known,
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": LEVEL,
          "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - start, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")

    for part, p, err in violations:
        print("--- %s/%s: %s" % (prop, part, err[:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if violations:
        return 1
    if no_verdict:
        die(no_verdict)
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (
        prop, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as e:
        die(str(e))
