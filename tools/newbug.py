#!/usr/bin/env python3
"""newbug.py ID PROP KIND <<spec : spec is python assigning FILE, OLD, NEW (or EDITS list of (file,old,new)), NEEDS, BREAKS, MAIN (rust demo source) or DEMO (shell body).
Writes seeded/ID/{patch.diff,demo.sh,meta.json,main.rs}."""
import sys, os, json, subprocess, shutil
ID, PROP = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
d = f'/verif/seeded/{ID}'
os.makedirs(d, exist_ok=True)
import tempfile, difflib
files = {}
for f, o, n in edits:
    if f not in files:
        t = subprocess.run(['git','-C','/repo','show','HEAD:'+f],capture_output=True,text=True,check=True).stdout
        files[f] = [t, t]
    assert files[f][1].count(o) == 1, (f, files[f][1].count(o), o)
    files[f][1] = files[f][1].replace(o, n)
diff = ''
for f, (a, b) in files.items():
    diff += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/'+f, 'b/'+f))
subprocess.run(['git','-C','/repo','apply','--check','-'],input=diff,text=True,check=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': PROP, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
HEAD = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
'''
if 'MAIN' in ns:
    open(d + '/main.rs', 'w').write(ns['MAIN'])
    deps = ns.get('DEPS', {'dreammaker': 'crates/dreammaker'})
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 0\ndebug = false\n[dependencies]\n'
    for k, v in deps.items():
        v, _, feats = v.partition('+')  # path+feature+feature
        more = (', features = ' + repr(feats.split('+')).replace("'", '"')) if feats else ''
        toml += f'{k} = {{ path = "$repo/{v}"{more} }}\n' if not v.startswith('=') else f'{k} = "{v[1:]}"\n'
    body = HEAD + f'''mkdir -p "$work/src" && cp "$here/main.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOT
{toml}EOT
cd "$work" && cargo build -q --offline 2>&1 || exit 98
cd "$work" && timeout 60 ./target/debug/demo
'''
elif 'BIN' in ns:
    # BIN: dmm-tools | dreamchecker | dm-langserver | dmdoc, compiled from the repository; DEMO: shell body using $bin and $work
    SRC = {'dmm-tools': 'dmm-tools-cli'}.get(ns['BIN'], ns['BIN'])
    COMMON = ['serde = "1.0.213"', 'serde_json = "1.0.132"', 'serde_derive = "1.0.213"', 'foldhash = "0.2.0"', 'dreammaker = { path = "$repo/crates/dreammaker" }']
    DEP = {'dmm-tools': ['clap = { version = "4.5.20", features = ["derive"] }', 'rayon = "1.10.0"', 'dmm-tools = { path = "$repo/crates/dmm-tools", features = ["png"] }'],
        'dreamchecker': ['dreamchecker = { path = "$repo/crates/dreamchecker" }'],
        'dmdoc': ['pulldown-cmark = "0.9.6"', 'walkdir = "2.5.0"', 'git2 = { version = "0.21.0", default-features = false }', 'maud = "0.27.0"'],
        'dm-langserver': ['url = "2.5.2"', 'bincode = "1.3.3"', 'jsonrpc-core = "18.0.0"', 'lsp-types = "0.93.2"', 'libc = "0.2.161"', 'regex = "1.11.1"', 'lazy_static = "1.5"'] + [f'{c} = {{ path = "$repo/crates/{c}" }}' for c in ['dap-types', 'dreamchecker', 'interval-tree']]}[ns['BIN']]
    nl = chr(10)
    body = HEAD + f'''mkdir -p "$work/src" && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/build.rs" <<'EOT'
fn main() {{
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    std::fs::write(out.join("build-info.txt"), "commit: demo").unwrap();
}}
EOT
''' + ('ln -s "$repo/crates/dmdoc/src/template" "$work/src/template"\n' if ns['BIN'] == 'dmdoc' else '') + f'''cat > "$work/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
build = "build.rs"
[workspace]
[[bin]]
name = "{ns['BIN']}"
path = "$repo/crates/{SRC}/src/main.rs"
[profile.dev]
opt-level = 0
debug = false
[lints.rust]
unexpected_cfgs = {{ level = "allow" }}
[dependencies]
{nl.join(COMMON + DEP)}
EOT
cd "$work" && cargo build -q --offline 2>"$work/build.log" || {{ tail -5 "$work/build.log"; exit 98; }}
bin="$work/target/debug/{ns['BIN']}"
mkdir -p "$work/d" && cd "$work/d" || exit 97
''' + ns['DEMO']
else:
    body = HEAD + ns['DEMO']
open(d + '/demo.sh', 'w').write(body)
os.chmod(d + '/demo.sh', 0o755)
for f, c in ns.get('EXTRA', {}).items():
    open(f'{d}/{f}', 'w').write(c)
print(diff)
