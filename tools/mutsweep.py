#!/usr/bin/env python3
"""Validates the monitors: plants small textual faults one at a time in a scratch copy of /repo and reports which checks
notice. Not a registered check.  usage: mutsweep.py OUT.jsonl CHECK,CHECK,... FILE[:OPS]...   (files relative to /repo/src)"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
out, checks, files = sys.argv[1], sys.argv[2].split(","), sys.argv[3:]
SCR = "/tmp/mutsweep.%d" % os.getpid()
REPO = SCR + "/repo"
os.makedirs(SCR)
subprocess.run(["cp", "-a", "/repo/src", "/repo/Cargo.toml", "/repo/Cargo.lock", "/repo/README.md", SCR + "/"], check=True)
os.makedirs(REPO)
for x in ("src", "Cargo.toml", "Cargo.lock", "README.md"):
    shutil.move(SCR + "/" + x, REPO + "/" + x)
INC = HERE + "/harness/incrate"
mode = CHECKS[checks[0]]["mode"]
union = []
for c in checks:
    for f in CHECKS[c]["files"]:
        if f not in union:
            union.append(f)
bundle = SCR + "/bundle.rs"
with open(bundle, "w") as f:
    f.write("use std::prelude::rust_2021::*;\npub fn main() -> i32 { match std::env::var(\"BUNDLE\").unwrap().as_str() {\n")
    for c in checks:
        f.write(f'"{c}" => super::{CHECKS[c]["bin"]}::main(),\n')
    f.write("_ => 9 } }\n")
view = SCR + "/view"
env = dict(os.environ, VERIF_REPO=REPO, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=os.environ.get("SWEEP_TARGET", HERE + "/build/target-mut"), RUSTFLAGS="--cfg verif_hooks -Awarnings",
           SYNEDRION_VERIF_HOOKS=view + "/hooks.rs", RUST_BACKTRACE="0", VERIF_SEED="1", VERIF_TIER="quick", VERIF_WORK=SCR + "/work")
os.makedirs(SCR + "/work")

def build():
    subprocess.run([sys.executable, HERE + "/harness/gen.py", mode, "bundle", view] + [INC + "/" + f for f in union] + [bundle], check=True, env=env)
    r = subprocess.run(["cargo", "build", "--offline", "--features", "k256,bip32,dev", "--bin", "bundle"], cwd=view, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

def run(c):
    e = dict(env, BUNDLE=c, VERIF_BUDGET_S=os.environ.get("SWEEP_BUDGET", "60"), VERIF_KNOWN=HERE + "/known_findings.txt")
    try:
        p = subprocess.run([env["CARGO_TARGET_DIR"] + "/debug/bundle"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return "timeout", []
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "):
            r = json.loads(l[7:])
            if r["violations"]:
                return "VIOLATION", sorted({v["sig"] for v in r["violations"]})
            if r["inconclusive"]:
                return "inconclusive", r["inconclusive"]
            return "quiet", []
    return f"crash rc={p.returncode}", [p.stderr[-300:]]

def mutants(path, ops):
    src = open("/repo/src/" + path).read()
    body = re.split(r"(?m)^#\[cfg\(test\)\]", src)[0]
    lines = body.split("\n")
    tail = src[len(body):]
    def mk(i, new, what):
        l = list(lines)
        l[i] = new
        return (f"{path}:{i+1}: {what}: {lines[i].strip()}", "\n".join(l) + tail)
    vstart = next((i for i, l in enumerate(lines) if "pub fn verify" in l), 0) if "zk" in ops else 0
    if "zk" in ops:
        idx = {}
        for i, l in enumerate(lines):
            t = l.strip()
            if re.match(r"\.chain(_\w+)?\(.*\)$", t):
                idx.setdefault(t.replace("self.", ""), []).append(i)
        for k, v in idx.items():
            l = list(lines)
            for i in v:
                l[i] = ""
            yield (f"{path}: deleted everywhere: {k} ({len(v)}x)", "\n".join(l) + tail)
    for i, l in enumerate(lines):
        if i < vstart:
            continue
        t = l.strip()
        if t.startswith("//") or not t:
            continue
        if "false" in ops and t == "return false;":
            yield mk(i, "{}", "deleted")
        if "chain" in ops and re.match(r"\.chain(_\w+)?\(.*\)$", t):
            yield mk(i, "", "deleted")
        if "cond" in ops and re.match(r"(if .*)?(\|\||&&) ", t) and not t.startswith("if"):
            yield mk(i, "", "operand deleted")
        if "bound" in ops:
            for a, b in (("P::EPS_BOUND", "2 * P::EPS_BOUND"), ("P::L_BOUND", "P::LP_BOUND"), ("P::LP_BOUND", "(P::LP_BOUND + 7)"), ("P::SECURITY_PARAMETER", "(P::SECURITY_PARAMETER - 1)"), ("P::SECURITY_BITS", "(P::SECURITY_BITS - 1)")):
                if a in t and not t.startswith("use"):
                    yield mk(i, l.replace(a, b, 1), b)
        if "ops" in ops and not t.startswith(("use ", "#[", "fn ", "pub fn", "impl", "where", "pub trait", "type ")):
            for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" + ", " - "), (" - ", " + "), (" && ", " || "), (" || ", " && "), (" & ", " | "), (" | ", " & "), (" << ", " >> "), (" >> ", " << "), ("true", "false"), ("false", "true"), ("!self", "self"), (" * ", " + "), ("::zero()", "::one()"), ("::ZERO", "::ONE"), ("::ONE", "::ZERO"), ("+ 1", "+ 2"), ("- 1", "- 0"), ("-self", "self"), (".neg()", ".clone()"), ("is_some()", "is_none()"), ("1 <<", "2 <<"), (" += ", " -= "), (" -= ", " += "), ("&self.", "&rhs."), ("&rhs", "&self"), ("max(", "min("), (".square()", ".clone()"), ("wrapping_add", "wrapping_sub"), ("wrapping_sub", "wrapping_add"), ("checked_add", "checked_sub"), ("BITS", "(BITS-1)")):
                k = 0
                start = 0
                while True:
                    j = l.find(a, start)
                    if j < 0 or k > 2:
                        break
                    yield mk(i, l[:j] + b + l[j + len(a):], f"{a.strip()}->{b.strip()}")
                    start = j + len(a)
                    k += 1
        if "stmt" in ops and t.endswith(";") and not t.startswith(("let ", "use ", "return", "type ", "const ", "pub ", "}", "fn ", "mod ")) and "(" in t:
            yield mk(i, "", "statement deleted")
        if "err" in ops and re.match(r"return Err\(.*\);$", t):
            yield mk(i, "{}", "deleted")

ok, log = build()
assert ok, log[-3000:]
if os.environ.get("SWEEP_BASE"):
    for c in checks:
        print("base", c, run(c), flush=True)
res = open(out, "a")
limit = int(os.environ.get("SWEEP_MAX", "100000"))
skip = float(os.environ.get("SWEEP_SKIP", "0"))
import random
random.seed(int(os.environ.get("SWEEP_SEED", "1")))
try:
    for spec in files:
        path, _, o = spec.partition(":")
        ops = set((o or "zk,false,cond,bound").split(","))
        orig = open(REPO + "/src/" + path).read()
        ms = list(mutants(path, ops))
        if len(ms) > limit:
            ms = random.sample(ms, limit)
        for what, text in ms:
            open(REPO + "/src/" + path, "w").write(text)
            b, log = build()
            if not b:
                res.write(json.dumps({"mut": what, "res": "nobuild"}) + "\n"); res.flush()
                continue
            r = {}
            for c in checks:
                v = run(c)
                r[c] = v
                if v[0] == "VIOLATION" and not os.environ.get("SWEEP_ALL"):
                    break
            caught = any(v[0] == "VIOLATION" for v in r.values())
            res.write(json.dumps({"mut": what, "caught": caught, "res": r}) + "\n"); res.flush()
            print("caught" if caught else "MISSED", what, {k: v[0] for k, v in r.items()}, flush=True)
        open(REPO + "/src/" + path, "w").write(orig)
finally:
    shutil.rmtree(SCR)
