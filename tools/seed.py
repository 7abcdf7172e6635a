#!/usr/bin/env python3
"""Checks planted bugs: seed.py ID... (patch applies, builds, stable tests pass, demo passes without
and fails with it, changes original lines). Works in a copy of /repo.
seed.py --run ID... also runs the property's quick check against /repo with the patch applied."""
import json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/ocpp-seed-work"
BASE = "3e08462"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


def sh(args, cwd, timeout=400):
    r = subprocess.run(args, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def tests(cwd):
    _, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-cpu", "1", "-timeout", "2m", "./..."], cwd)
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return ok


def original(patch):
    """How many of the removed lines are of the base commit."""
    old = new = 0
    f, blame, line = None, None, 0
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            _, out = sh(["git", "blame", "-s", "-l", f], "/repo")
            blame = out.splitlines()
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if blame[line - 1].startswith("^"):
                old += 1
            else:
                new += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return old, new


def main():
    args = sys.argv[1:]
    run = "--run" in args
    only = "--only" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("stable") or stable.get("passed") or stable
    for i in ids:
        d = os.path.join(V, "seeded", i)
        patch = os.path.join(d, "patch.diff")
        meta = json.load(open(os.path.join(d, "meta.json")))
        msg = []
        if not only:
            shutil.rmtree(W, ignore_errors=True)
            shutil.copytree("/repo", W, symlinks=True)
            old, new = original(patch)
            msg.append("original lines %d, other %d" % (old, new))
            if not old or new:
                msg.append("LINES!")
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], W)
            msg.append("demo clean %d" % rc + (" BAD " + out[-600:] if rc else ""))
            rc, out = sh(["git", "apply", patch], W)
            if rc:
                print(i, "DOES NOT APPLY", out); continue
            rc, out = sh(["go", "build", "./..."], W)
            if rc:
                print(i, "DOES NOT BUILD", out); continue
            missing = [t for t in stable if t not in tests(W)]
            if missing:
                msg.append("TESTS FAIL %s" % missing)
            t0 = time.time()
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], W)
            msg.append("demo bug %d in %.0f s: %s" % (rc, time.time() - t0, out.strip().splitlines()[0][:150] if out.strip() else ""))
            if not rc:
                msg.append("DEMO PASSES")
            shutil.rmtree(W, ignore_errors=True)
        if run or only:
            rc, out = sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"], "/repo")
            if out.strip():
                sys.exit("/repo is not clean")
            sh(["git", "-C", "/repo", "apply", patch], "/repo")
            try:
                t0 = time.time()
                rc, out = sh(["python3", "run.py", meta["property"], "quick"], V, 900)
                hit = rc == 1 and ("VIOLATION property=%s " % meta["property"]) in out
                msg.append(("CAUGHT" if hit else "MISSED rc=%d" % rc) + " in %.0f s: " % (time.time() - t0) +
                           " / ".join(l[:200] for l in out.splitlines() if l.startswith("---")))
            finally:
                sh(["git", "-C", "/repo", "checkout", "--", "."], "/repo")
        print(i, meta["property"], "; ".join(msg), flush=True)


main()
