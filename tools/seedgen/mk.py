#!/usr/bin/env python3
"""mk.py: creates /verif/seeded/<id>/ from a description (development aid).
usage: mk.py ID PROPERTY NEEDS BREAKS MAIN_RS [ENV assignments / extra]; the current diff of /repo becomes patch.diff and is undone."""
import sys,os,subprocess,json
id,prop,needs,breaks,main=sys.argv[1:6]
env=sys.argv[6:]
d=f'/verif/seeded/{id}'
os.makedirs(d,exist_ok=True)
p=subprocess.run(['git','-C',os.environ.get('SEEDREPO','/tmp/sw/repo'),'diff'],capture_output=True,text=True).stdout
assert p.strip(),'no diff in /repo'
open(f'{d}/patch.diff','w').write(p)
subprocess.run(['git','-C',os.environ.get('SEEDREPO','/tmp/sw/repo'),'checkout','-q','--','.'],check=True)
json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{d}/meta.json','w'),indent=1)
if main!='-':
    open(f'{d}/main.rs','w').write(open(main).read())
    target=next((e[7:] for e in env if e.startswith('TARGET=')),'')
    flags=next((e[6:] for e in env if e.startswith('FLAGS=')),'')
    secs=next((e[5:] for e in env if e.startswith('SECS=')),"250")
    t=f'''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
atomic-maybe-uninit = {{ path = "$repo" }}
[workspace]
[profile.release]
debug-assertions = false
T
cd "$t" || exit 0
export RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTC_WRAPPER=
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTFLAGS
export RUSTFLAGS="{flags}"
cargo build --release --offline {"--target "+target if target else ""} >"$t/log" 2>&1 || {{ cat "$t/log"; echo "demo does not build"; exit 3; }}
timeout {secs} "$t/target/{target+'/' if target else ''}release/demo"
'''
    open(f'{d}/demo.sh','w').write(t)
    os.chmod(f'{d}/demo.sh',0o755)
print('created',d)
