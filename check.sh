#!/bin/bash
# check.sh ID [--replay FILE]: builds the harness from /repo's current working tree and runs one check.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR TEST_DME
export VERIF_ROOT=/verif
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
id=$1
tsan=""
case "$id" in
  C23) bins="--bin dmm-tools --bin racer" tsan="--bin dmm-tools --bin racer" ;;
  C25|C26) bins="--bin dmm-tools" ;;
  C15|C31) bins="--bin dreamchecker" ;;
  C35) bins="--bin dmdoc" ;;
  C36|C37|C38|C39|C41|C44|C45) bins="--bin dm-langserver" ;;
  all) bins="--bins" tsan="--bin dmm-tools --bin racer" ;;
  *) bins="" ;;
esac
mkdir -p /verif/target
log=/verif/target/build-$$.log
if ! cargo build --offline --locked --manifest-path /verif/harness/Cargo.toml --target-dir /verif/target --bin vh $bins >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "BUILD FAILED"
  exit 2
fi
if [ -n "$tsan" ]; then
  # the same programs with ThreadSanitizer, the standard library included
  if ! RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=thread" cargo build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path /verif/harness/Cargo.toml --target-dir /verif/target/tsan $tsan >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "BUILD FAILED (ThreadSanitizer)"
    exit 2
  fi
fi
runner=/verif/target/debug/vh
case "$id" in
  C40|C42|all)
    # the map editor's own modules, with stand-ins for the window and the user interface toolkit
    if ! cargo build --offline --locked --manifest-path /verif/editor/Cargo.toml --target-dir /verif/target >"$log" 2>&1; then
      if [ "$id" = all ]; then
        echo "the editor's checks do not build:"; cat "$log"
      else
        cat "$log"; rm -f "$log"
        echo "BUILD FAILED"
        exit 2
      fi
    fi
    [ "$id" = all ] || runner=/verif/target/debug/editor ;;
esac
rm -f "$log"
[ "$id" = all ] && exit 0
if [ -x "/verif/checks/$id.sh" ] && [ "$2" != --replay ]; then
  exec "/verif/checks/$id.sh"
fi
if [ "$2" = --replay ]; then
  exec "$runner" replay "$id" "$3"
fi
exec "$runner" run "$id"
