#!/bin/bash
# dev helper: build harness and run one check with args
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true VERIF_ROOT=/verif
cd /verif && cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target --bin vh 2>&1 | grep -E "^(warning: unused|error)" -A 12
