#!/usr/bin/env python3
"""tools/seedtest.py [--checks-only] [--no-tests] ID...: validate planted bugs in bind-mounted copies of /repo
(needs the right to unshare mounts; a development tool, not used by any check)."""
import json, os, subprocess, sys, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks_only = "--checks-only" in args
no_checks = "--no-checks" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))

def sh(cmd, cwd=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def one(i):
    sd = V + "/seeded/" + i
    meta = json.load(open(sd + "/meta.json"))
    base = tempfile.mkdtemp(prefix="seed-%s-" % i, dir="/tmp")
    r = base + "/repo"
    res = {}
    try:
        sh("cp -a /repo %s && mkdir %s/demo && cp -a %s/. %s/demo/ && rm -f %s/demo/*.diff %s/demo/meta.json" % (r, base, sd, base, base, base))
        def ns(cmd, timeout=1500):
            return sh("unshare -m bash -c 'mount --bind %s /repo && mkdir -p %s/tmp && cd /repo && TMPDIR=%s/tmp %s'" % (r, base, base, cmd), timeout=timeout)
        if not checks_only:
            ns("bash /opt/vp/build.sh")
            rc, o = ns("bash %s/demo/demo.sh" % base)
            res["demo_clean"] = rc
            if rc: print(o[-1500:])
        rc, o = sh("git -C %s apply %s/patch.diff" % (r, sd))
        if rc:
            print("APPLY FAILED", o); return i, {"apply": rc}
        if not checks_only:
            rc, o = ns("bash /opt/vp/build.sh")
            res["build"] = rc
            if rc: print(o[-1500:])
            rc, o = ns("bash %s/demo/demo.sh" % base)
            res["demo_bug"] = rc
            rc, o = ns("bash /opt/vp/test.sh %s/t.json" % base)
            t = json.load(open(base + "/t.json"))
            res["failed"] = t["failed"]; res["passed"] = len(t["passed"])
        if not no_checks:
            t0 = time.time()
            rc, o = ns("bash -c \"cd %s && python3 run.py %s\"" % (V, meta["property"]))
            res["check"] = rc
            res["check_s"] = round(time.time() - t0)
            res["out"] = [l for l in o.splitlines() if l.strip()][-6:]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return i, res

for i in ids:
    i, res = one(i)
    out = res.pop("out", [])
    ok = res.get("demo_clean", 0) == 0 and res.get("demo_bug", 1) != 0 and not res.get("failed") and res.get("build", 0) == 0
    print(i, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 else "missed", json.dumps(res))
    for l in out: print("    ", l[:300])
    sys.stdout.flush()
