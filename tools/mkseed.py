#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec (a python file defining S = dict(id, property, needs,
what_it_breaks, edits=[(file, old, new)...], demo='rust', full=bool)). Then run tools/runseed.py ID."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main(spec):
    g = {}
    exec(open(spec).read(), g)
    s = g["S"]
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in s["edits"]:
            p = f"{w}/r/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{f}: {t.count(old)} occurrences of {old!r}")
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip())
    for f in ("demo.sh", "run_demo.py"):
        shutil.copy(f"{V}/tools/seedkit/{f}", d)
    if s.get("full"):
        shutil.copytree(V + "/manul-shim", d + "/manul-shim", dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
    if s.get("opt0"):
        open(d + "/opt0", "w").write("an unoptimised build\n")
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)

main(sys.argv[1])
