#!/bin/bash
# Compiles the canister (main.rs and the ledger library as they are in the current directory) together with
# demo.rs into one wasm module in a scratch directory, and runs the scenario in node.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/ledger" "$tmp/app/src/demo" "$tmp/http/src"
cp -r "$repo/cycles-ledger/src" "$tmp/ledger/src"
rm "$tmp/ledger/src/main.rs"
for f in "$repo"/cycles-ledger/*; do [ -f "$f" ] && [ "$(basename "$f")" != Cargo.toml ] && cp "$f" "$tmp/ledger/"; done
[ -d "$repo/assets" ] && cp -r "$repo/assets" "$tmp/assets"
cp -r "$repo/cycles-ledger/src/." "$tmp/app/src/"; rm "$tmp/app/src/main.rs" "$tmp/app/src/lib.rs"
cp "$here/http_types.rs" "$tmp/http/src/lib.rs"
cp "$here/demo.rs" "$tmp/app/src/demo/mod.rs"
cp "$here/ic.rs" "$tmp/app/src/demo/ic.rs"
python3 - "$repo" "$tmp" <<'P'
import re, sys
repo, tmp = sys.argv[1:]
read = lambda p: open(p, encoding="utf-8").read()
def sections(t):
    out, cur = {}, None
    for l in t.splitlines():
        m = re.match(r"\s*\[([^\]]+)\]\s*$", l)
        if m: cur = m.group(1).strip(); out.setdefault(cur, [])
        elif cur: out[cur].append(l)
    return {k: "\n".join(v) + "\n" for k, v in out.items()}
root, led = sections(read(f"{repo}/Cargo.toml")), sections(read(f"{repo}/cycles-ledger/Cargo.toml"))
deps = re.sub(r"(?m)^ic-canisters-http-types\s*=.*$", 'ic-canisters-http-types = { path = "../http" }', led["dependencies"])
pkg = lambda n: f'[package]\nname = "{n}"\nversion.workspace = true\nedition.workspace = true\n'
open(f"{tmp}/Cargo.toml", "w").write('[workspace]\nresolver = "2"\nmembers = ["ledger", "app", "http"]\n[workspace.package]\n' + root["workspace.package"] + "[workspace.dependencies]\n" + root["workspace.dependencies"] + '[profile.release]\nopt-level = 1\ndebug = false\npanic = "abort"\n')
open(f"{tmp}/ledger/Cargo.toml", "w").write(pkg("cycles-ledger") + "[dependencies]\n" + deps + "[features]\n" + led.get("features", ""))
open(f"{tmp}/http/Cargo.toml", "w").write('[package]\nname = "ic-canisters-http-types"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncandid = "0.10"\nserde = { version = "1", features = ["derive"] }\nserde_bytes = "0.11"\n')
open(f"{tmp}/app/Cargo.toml", "w").write(pkg("app") + '[lib]\ncrate-type = ["cdylib"]\n[dependencies]\ncycles-ledger = { path = "../ledger" }\n' + deps + "sha2 = \"0.10\"\n[features]\n" + led.get("features", ""))
open(f"{tmp}/app/src/lib.rs", "w").write("#![allow(dead_code)]\n" + read(f"{repo}/cycles-ledger/src/main.rs") + "\nmod demo;\n")
lock = [b for b in read(f"{repo}/Cargo.lock").split("\n\n") if 'name = "ic-canisters-http-types"' not in b]
open(f"{tmp}/Cargo.lock", "w").write("\n\n".join(lock).replace(' "ic-canisters-http-types",\n', ""))
P
cd "$tmp"
export RUSTUP_TOOLCHAIN=1.91.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" CARGO_INCREMENTAL=0 RUSTFLAGS="-A warnings"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS || true
cargo build --offline --release --target wasm32-unknown-unknown -p app >"$tmp/log" 2>&1 || { tail -40 "$tmp/log"; exit 3; }
node "$here/run.mjs" "$tmp/target/wasm32-unknown-unknown/release/app.wasm"
