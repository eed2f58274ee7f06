import os, re, shutil, subprocess, sys, tempfile

HERE, REPO = sys.argv[1], os.getcwd()
FULL = os.path.isdir(HERE + "/manul-shim")

def read(p):
    return open(os.path.join(REPO, p)).read()

ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"

def drop(text, names):
    for n in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + n + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + n + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
    return text

out = tempfile.mkdtemp(prefix="demo-")
try:
    shutil.copytree(REPO + "/src", out + "/src")
    shutil.copy(REPO + "/README.md", out + "/README.md")
    if not FULL:
        for f, names in [("lib.rs", ["entities", "protocols", "tests"]), ("tools.rs", ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"])]:
            t = drop(read("src/" + f), names)
            open(out + "/src/" + f, "w").write(t)
    keep = []
    for part in re.split(r"(?m)^(?=\[)", read("Cargo.toml")):
        head = part.split("\n", 1)[0].strip()
        if head in ("[[bench]]", "[[example]]", "[[test]]", "[[bin]]", "[dev-dependencies]") or head.startswith(("[profile", "[package.metadata", "[workspace")):
            continue
        keep.append(part)
    toml = "".join(keep)
    manul = 'manul = { path = "%s/manul-shim" }\n' % HERE if FULL else ""
    toml = re.sub(r"^manul[ \t]*=.*\n", lambda m: manul, toml, flags=re.M)
    toml = toml.replace("[dependencies]\n", '[dependencies]\nserde_json = { version = "1", default-features = false, features = ["alloc"] }\n', 1)
    toml = re.sub(r'(?m)^name = "synedrion"$', 'name = "synedrion"\nautobins = false\nautobenches = false\nautoexamples = false\nautotests = false', toml, count=1)
    toml += """
[[bin]]
name = "demo"
path = "main.rs"
[workspace]
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
[profile.dev.package."*"]
opt-level = 2
debug-assertions = false
"""
    if os.path.exists(HERE + "/opt0"):
        toml = toml.replace("opt-level = 1", "opt-level = 0").replace("opt-level = 2", "opt-level = 0")
    open(out + "/Cargo.toml", "w").write(toml)
    blocks = [b for b in re.split(r"\n(?=\[\[package\]\]\n)", read("Cargo.lock")) if 'name = "manul"' not in b]
    lock = "\n".join(blocks)
    if not FULL:
        lock = lock.replace(' "manul",\n', "")
    open(out + "/Cargo.lock", "w").write(lock)
    open(out + "/hooks.rs", "w").write('pub mod demo { include!("%s/demo.rs"); }\n' % HERE)
    open(out + "/main.rs", "w").write("fn main() { std::process::exit(synedrion::verif_hooks::demo::main()); }\n")
    env = dict(os.environ, SYNEDRION_VERIF_HOOKS=out + "/hooks.rs", CARGO_TARGET_DIR=out + "/target",
               RUSTFLAGS="--cfg verif_hooks --cap-lints allow", CARGO_NET_OFFLINE="true")
    b = subprocess.run(["cargo", "build", "--offline", "--features", "dev,k256,bip32", "--bin", "demo"], cwd=out, env=env)
    if b.returncode != 0:
        print("the demonstration does not build")
        sys.exit(2)
    r = subprocess.run([out + "/target/debug/demo"], cwd=out)
    print("exit code", r.returncode)
    sys.exit(0 if r.returncode == 0 else 1)
finally:
    shutil.rmtree(out, ignore_errors=True)
