#!/usr/bin/env python3
"""Generate, from /repo's current tree, the wasm module that the symbolic executor runs.

 BUILD/ws/ledger    the library crate, /repo/cycles-ledger/src without main.rs (manifest derived from /repo's)
 BUILD/ws/harness   cdylib: /repo/cycles-ledger/src/main.rs + `mod verif` (the harnesses)
Nothing of the implementation is edited."""
import glob, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "1.91.1"


def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()


def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.isfile(p) or read(p) != t:
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)


def sync(src, dst, skip=()):
    """copy a tree, touching only what differs (keeps rebuilds incremental)"""
    os.makedirs(dst, exist_ok=True)
    want = set()
    for n in os.listdir(src):
        if n in skip or n == "target":
            continue
        want.add(n)
        s, d = os.path.join(src, n), os.path.join(dst, n)
        if os.path.isdir(s):
            sync(s, d)
        else:
            with open(s, "rb") as f:
                data = f.read()
            if not os.path.isfile(d) or open(d, "rb").read() != data:
                with open(d, "wb") as f:
                    f.write(data)
    for n in os.listdir(dst):
        if n not in want and n not in skip and n != "Cargo.toml":
            p = os.path.join(dst, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def sections(toml):
    out, cur = {}, None
    for line in toml.splitlines():
        m = re.match(r"\s*\[([^\]]+)\]\s*$", line)
        if m:
            cur = m.group(1).strip()
            out.setdefault(cur, [])
        elif cur:
            out[cur].append(line)
    return {k: "\n".join(v) + "\n" for k, v in out.items()}


def generate(build, members=("ledger",)):
    ws = f"{build}/ws"
    os.makedirs(ws, exist_ok=True)
    root = sections(read(f"{REPO}/Cargo.toml"))
    led = sections(read(f"{REPO}/cycles-ledger/Cargo.toml"))
    write(f"{ws}/Cargo.toml", f"""[workspace]
resolver = "2"
members = ["ledger", "harness"]
[workspace.package]
{root['workspace.package']}
[workspace.dependencies]
{root['workspace.dependencies']}
[patch.crates-io]
sha2 = {{ path = "{VERIF}/models/sha2" }}
candid = {{ path = "{VERIF}/models/candid" }}
[profile.release]
lto = true
opt-level = 2
panic = "abort"
debug = false
strip = "none"
codegen-units = 16
[profile.release.package.harness]
opt-level = 1
""")
    deps = re.sub(r"(?m)^ic-canisters-http-types\s*=.*$", f'ic-canisters-http-types = {{ path = "{VERIF}/models/ic-canisters-http-types" }}', led["dependencies"])
    pkg = lambda n: f'[package]\nname = "{n}"\nversion.workspace = true\nedition.workspace = true\n'
    feats = "[features]\n" + led.get("features", "")
    write(f"{ws}/ledger/Cargo.toml", pkg("cycles-ledger") + "[lib]\npath = \"src/lib.rs\"\n[dependencies]\n" + deps + feats)
    sync(f"{REPO}/cycles-ledger/src", f"{ws}/ledger/src", skip=("main.rs",))
    for f in os.listdir(f"{REPO}/cycles-ledger"):
        p = f"{REPO}/cycles-ledger/{f}"
        if os.path.isfile(p) and f != "Cargo.toml":
            shutil.copy(p, f"{ws}/ledger/{f}")
    if os.path.isdir(f"{REPO}/assets"):
        sync(f"{REPO}/assets", f"{ws}/assets")
    write(f"{ws}/harness/Cargo.toml", pkg("harness") + '[lib]\ncrate-type = ["cdylib"]\npath = "src/lib.rs"\n[dependencies]\ncycles-ledger = { path = "../ledger" }\n' + deps + '\n' + "sha2 = \"0.10\"\n" + feats)
    sync(f"{VERIF}/harness/verif", f"{ws}/harness/src/verif")
    sync(f"{REPO}/cycles-ledger/src", f"{ws}/harness/src", skip=("main.rs", "lib.rs", "verif"))  # modules main.rs may come to use
    main = read(f"{REPO}/cycles-ledger/src/main.rs")
    write(f"{ws}/harness/src/lib.rs", "#![allow(dead_code)]\n" + main + "\n#[path = \"verif/mod.rs\"]\nmod verif;\n")
    # lock file: /repo's, without the git source (cargo drops what is unused)
    lock = read(f"{REPO}/Cargo.lock")
    blocks = lock.split("\n\n")
    blocks = [b for b in blocks if 'name = "ic-canisters-http-types"' not in b]
    if not os.path.isfile(f"{ws}/Cargo.lock"):
        write(f"{ws}/Cargo.lock", "\n\n".join(blocks).replace(' "ic-canisters-http-types",\n', ""))
    return ws


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def module(build):
    """-> (path of the wasm module, seconds)"""
    t = time.time()
    ws = generate(build)
    e = env()
    e["CARGO_TARGET_DIR"] = f"{build}/target"
    e["RUSTFLAGS"] = "-C link-arg=-zstack-size=4194304 -A warnings"
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--target", "wasm32-unknown-unknown", "-p", "harness"], cwd=ws, env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("building the module failed:\n" + r.stderr[-6000:])
    return f"{build}/target/wasm32-unknown-unknown/release/harness.wasm", time.time() - t


def engine(build):
    t = time.time()
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = f"{build}/engine"
    # the newest Z3 library around, else the system's
    lib = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so"))
    e["RUSTFLAGS"] = f"-L native={os.path.dirname(lib[-1])} -C link-arg=-Wl,-rpath,{os.path.dirname(lib[-1])}" if lib else ""
    r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=f"{VERIF}/engine", env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("building the engine failed:\n" + r.stderr[-4000:])
    return f"{build}/engine/release/wsx", time.time() - t


if __name__ == "__main__":
    b = sys.argv[1] if len(sys.argv) > 1 else f"{VERIF}/.build"
    print(engine(b))
    print(module(b))
