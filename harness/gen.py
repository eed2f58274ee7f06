#!/usr/bin/env python3
"""Generates a cargo package ("view") of /repo's working tree for one check.

usage: gen.py MODE NAME VIEWDIR HARNESS_FILE...
MODE prim: the part of /repo which does not need `manul` (as the official build does).
MODE full: everything, with `manul` replaced by the stand-in in /verif/manul-shim.
The sources are symlinks into /repo/src; nothing of /repo is copied or changed, except that for `prim`
the module declarations of the left-out modules are cut from lib.rs and tools.rs.
"""
import hashlib, os, re, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

DROP_LIB = ["entities", "protocols", "tests"]
DROP_TOOLS = ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"]
ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"

def read(path):
    with open(os.path.join(REPO, path)) as f:
        return f.read()

def drop(text, names):
    for name in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
    return text

def main():
    mode, name, out = sys.argv[1:4]
    files = [os.path.abspath(f) for f in sys.argv[4:]]

    def write(path, text):
        path = os.path.join(out, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.exists(path) and not os.path.islink(path) and open(path).read() == text:
            return
        if os.path.lexists(path):
            os.remove(path)
        with open(path, "w") as f:
            f.write(text)

    def link(target, path):
        path = os.path.join(out, path)
        if os.path.islink(path) and os.readlink(path) == target:
            return
        if os.path.lexists(path):
            os.remove(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.symlink(target, path)

    os.makedirs(out + "/src", exist_ok=True)
    lib, tools = read("src/lib.rs"), read("src/tools.rs")
    skip = {"lib.rs", "tools.rs"}
    if mode == "prim":
        lib, tools = drop(lib, DROP_LIB), drop(tools, DROP_TOOLS)
        skip |= {"tests.rs", "tests", "protocols.rs", "protocols", "entities.rs", "entities"}
    write("src/lib.rs", lib)
    write("src/tools.rs", tools)
    want = {x for x in os.listdir(REPO + "/src") if x not in skip}
    for old in os.listdir(out + "/src"):
        if os.path.islink(f"{out}/src/{old}") and old not in want:
            os.remove(f"{out}/src/{old}")
    for x in want:
        link(f"{REPO}/src/{x}", f"src/{x}")
    link(f"{REPO}/README.md", "README.md")

    toml = read("Cargo.toml")
    # no targets and no dev-dependencies of the original
    parts = re.split(r"(?m)^(?=\[)", toml)
    keep = []
    for part in parts:
        head = part.split("\n", 1)[0].strip()
        if head in ("[[bench]]", "[[example]]", "[[test]]", "[[bin]]", "[dev-dependencies]") or head.startswith("[profile") or head.startswith("[package.metadata") or head.startswith("[workspace"):
            continue
        keep.append(part)
    toml = "".join(keep)
    manul = "" if mode == "prim" else 'manul = { path = "%s/../manul-shim" }\n' % HERE
    toml = re.sub(r"^manul[ \t]*=.*\n", lambda m: manul, toml, flags=re.M)
    extra = 'serde_json = { version = "1", default-features = false, features = ["alloc"] }\nciborium = "0.2"\n'
    for dep in os.environ.get("VERIF_DEPS", "").split():
        extra += '%s = { path = "%s/%s" }\n' % (dep, HERE, dep)
    toml = toml.replace("[dependencies]\n", "[dependencies]\n" + extra, 1)
    toml = re.sub(r'(?m)^name = "synedrion"$', 'name = "synedrion"\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false', toml, count=1)
    toml += f'''
[[bin]]
name = "{name}"
path = "main.rs"

[workspace]

[lib]
test = false
doctest = false

[profile.dev]
opt-level = 2
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 16

[profile.dev.package."*"]
opt-level = 3
debug-assertions = false
overflow-checks = false

[profile.ct]
inherits = "release"
opt-level = 0
debug = 1

[profile.ct.build-override]
opt-level = 0
'''
    if "covrt" in os.environ.get("VERIF_DEPS", ""):
        toml += "\n[profile.ct.package.covrt]\nopt-level = 3\n"
    write("Cargo.toml", toml)
    lock = read("Cargo.lock")
    blocks = re.split(r"\n(?=\[\[package\]\]\n)", lock)
    blocks = [b for b in blocks if 'name = "manul"' not in b]
    lock = "\n".join(blocks)
    if mode == "prim":
        lock = lock.replace(' "manul",\n', "")
    if not os.path.exists(out + "/Cargo.lock"):
        write("Cargo.lock", lock)
    # content hash of everything compiled: cargo's mtime-based freshness must not miss a change
    h = hashlib.sha256()
    for root in [REPO + "/src"] + ([HERE + "/../manul-shim"] if mode == "full" else []):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    for f in files:
        h.update(open(f, "rb").read())
    hooks = "// sources %s\n" % h.hexdigest()
    for f in files:
        mod = os.path.basename(f)[:-3]
        hooks += 'pub mod %s { include!("%s"); }\n' % (mod, f)
    write("hooks.rs", hooks)
    main = os.path.basename(files[-1])[:-3]
    alloc = ""
    write("main.rs", 'fn main() { std::process::exit(synedrion::verif_hooks::%s::main()); }\n' % main)

if __name__ == "__main__":
    main()
