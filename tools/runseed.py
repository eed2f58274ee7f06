#!/usr/bin/env python3
"""runseed.py ID...: validates planted bugs (builds, stable tests pass, demo 0/nonzero) and runs the property's check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd="/repo", **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
quick = "--check-only" in sys.argv
assert sh(["git", "status", "--short"]).stdout.strip() == "", "/repo is not clean"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    res = {}
    if not quick:
        r = sh(["bash", d + "/demo.sh"])
        res["demo clean"] = r.returncode
        if r.returncode:
            print(i, "DEMO FAILS ON CLEAN", r.stdout[-3000:])
            continue
    a = sh(["git", "apply", d + "/patch.diff"])
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout)
        continue
    try:
        if not quick:
            b = sh(["bash", "/opt/vp/build.sh"])
            res["build"] = b.returncode
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-3000:]); continue
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-test.json"])
            o = json.load(open("/tmp/seed-test.json"))
            passed = set(o.get("passed", []))
            res["tests lost"] = sorted(stable - passed)
            r = sh(["bash", d + "/demo.sh"])
            res["demo patched"] = r.returncode
            if r.returncode == 0 or "does not build" in r.stdout:
                print(i, "DEMO DOES NOT SHOW IT", r.stdout[-3000:])
        checks = [a[2:] for a in sys.argv if a.startswith("+")] or [meta["property"]]
        for c in checks:
            r = sh(["python3", "run.py", c], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res[c] = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else f"missed (exit {r.returncode})"
            if r.returncode == 1:
                res["how"] = next(l for l in r.stdout.strip().splitlines() if not l.startswith("KNOWN"))[:200]
    finally:
        sh(["git", "checkout", "--", "."])
    print(i, meta["property"], res, flush=True)
