#!/bin/bash
# plant.sh ID [nochecks]: confirm a planted bug in a scratch copy (/tmp/plant), then run its property's check against it in /repo.
id=$1; d=/verif/seeded/$id
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
[ -d /tmp/plant ] || cp -a /repo /tmp/plant
cd /tmp/plant || exit 1
git fetch -q /repo HEAD 2>/dev/null; git checkout -q -f --detach FETCH_HEAD
build() { cargo test --workspace --exclude dm-langserver --no-run --offline >/tmp/plant-build.log 2>&1 || { echo "BUILD FAILED"; grep -A8 '^error' /tmp/plant-build.log | head -40; exit 1; }; }
build
( timeout 300 bash "$d/demo.sh" ) >/tmp/plant-demo0.log 2>&1; echo "demo unchanged: $?"; 
git apply "$d/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
git diff --stat | tail -1
build
cargo test --workspace --exclude dm-langserver --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|^test result: F" | head
( timeout 300 bash "$d/demo.sh" ) >/tmp/plant-demo1.log 2>&1; echo "demo patched: $?"; tail -2 /tmp/plant-demo1.log
git checkout -q -- .
[ "$2" = nochecks ] && exit
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply "$d/patch.diff" && ( cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash check.sh "$prop" 2>&1 | grep -E "VIOLATION|BUILD|^error" | head -3; echo "check $prop: ${PIPESTATUS[0]}" )
git -C /repo checkout -- .
