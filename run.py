#!/usr/bin/env python3
"""Runs one check: builds the monitored view of /repo's working tree, runs the workload, writes evidence.

usage: run.py ID          (VERIF_SEED, VERIF_TIER from the environment)
       run.py --setup     (builds everything once)
exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (build error, crash of the harness, inconclusive)
"""
import json, os, subprocess, sys, time, shutil, resource

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
INC = os.path.join(HERE, "harness", "incrate")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    e["CARGO_TERM_COLOR"] = "never"
    e["VERIF_KNOWN"] = KNOWN
    e["RUST_BACKTRACE"] = "0"
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e

def build(id, quiet=False):
    c = CHECKS[id]
    name = c["bin"]
    view = os.path.join(BUILD, "views", name)
    files = [os.path.join(INC, f) for f in c["files"]]
    e = env()
    e["VERIF_DEPS"] = c.get("deps", "")
    subprocess.run([sys.executable, os.path.join(HERE, "harness", "gen.py"), c["mode"], name, view] + files, check=True, env=e)
    if "wrapper" in c:
        e["RUSTC_WRAPPER"] = os.path.join(HERE, "harness", c["wrapper"])
    e["RUSTFLAGS"] = "--cfg verif_hooks -Awarnings"
    e["SYNEDRION_VERIF_HOOKS"] = os.path.join(view, "hooks.rs")
    prof = c.get("profile", "dev")
    cmd = ["cargo", "build", "--offline", "--profile", prof, "--features", c.get("features", "k256,bip32,dev"), "--bin", name]
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=view, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
        if "Cargo.lock" in r.stdout or "lock file" in r.stdout:
            try: os.remove(os.path.join(view, "Cargo.lock"))
            except OSError: pass
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"BUILD FAILED for {id}: no verdict")
        return None
    d = "debug" if prof == "dev" else prof
    return os.path.join(BUILD, "target", d, name)

def run(id):
    t0 = time.time()
    c = CHECKS[id]
    exe = build(id)
    if exe is None:
        return 2
    e = env()
    tier = e["VERIF_TIER"]
    tb = time.time() - t0
    # leave room for the build within 900 s
    budget = c.get("budget", (45, 600))[0 if tier == "quick" else 1]
    e.setdefault("VERIF_BUDGET_S", str(budget))
    e["VERIF_WORK"] = os.path.join(BUILD, "work", id)
    os.makedirs(e["VERIF_WORK"], exist_ok=True)
    cmd = [exe] + c.get("args", [])
    results = []
    if "driver" in c:
        import importlib
        mod = importlib.import_module(c["driver"])
        out, rc = mod.run(exe, e, c, tier)
    else:
        watchdog = budget * 2 + 120
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=watchdog)
            out, rc = p.stdout, p.returncode
            if rc != 0:
                print(p.stderr[-3000:])
        except subprocess.TimeoutExpired:
            print("watchdog fired: inconclusive")
            return 2
    res = None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            res = json.loads(line[7:])
    if res is None:
        print(out[-3000:])
        print(f"no result from the harness of {id} (exit {rc}): no verdict")
        return 2
    wall = time.time() - t0
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct"],
        "rule": res["rule"],
        "samples": res["samples"],
        "per_kind": res["counts"],
        "notes": res["notes"],
        "known_findings_observed": res["known"],
        "build_s": round(tb, 1),
    }
    ev = {
        "property": id, "tier": tier, "seed": int(e["VERIF_SEED"]), "level": c["level"],
        "coverage": cov, "assumptions": res["assumptions"], "wall_s": round(wall, 2),
        "violations": len(res["violations"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    known_txt = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % id):
                rest = l[len("known: property=%s " % id):]
                sig, _, what = rest.partition(" :: ")
                known_txt[sig.strip()] = what.strip()
    for sig, what in known_txt.items():
        print(f"KNOWN-FINDING: property={id} {sig}: {what} (observed {res['known'].get(sig, 0)} times in this run)")
    if res["violations"]:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        n = 0
        for v in res["violations"]:
            if v["sig"] in seen:
                continue
            seen.add(v["sig"])
            path = os.path.join(rdir, f"{id}-{n}.json")
            n += 1
            with open(path, "w") as f:
                json.dump({"property": id, "seed": int(e["VERIF_SEED"]), "tier": tier, "violation": v,
                           "reproduce": f"cd /verif && VERIF_SEED={e['VERIF_SEED']} VERIF_TIER={tier} python3 run.py {id}"}, f, indent=1)
            print(f"  {v['kind']}: {v['detail'][:600]}")
            print(f"VIOLATION property={id} replay={path}")
        return 1
    if res["inconclusive"]:
        for x in res["inconclusive"]:
            print("INCONCLUSIVE:", x)
        return 2
    if res["evaluations"] == 0:
        print("the monitor observed nothing: no verdict")
        return 2
    print(f"property={id} held on {res['evaluations']} evaluations, {res['distinct']} distinct non-trivial; build {tb:.0f}s, total {wall:.0f}s")
    return 0

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        ok = True
        for i in CHECKS:
            ok = (build(i) is not None) and ok
        sys.exit(0 if ok else 1)
    sys.exit(run(sys.argv[1]))
