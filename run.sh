#!/bin/bash
# run.sh PROP: rebuild the simulator (and, for the CLI checks, wadec-cli) from
# /repo's current working tree, then run one property's check.
# run.sh build: build only.   run.sh replay FILE: re-execute a replay file.
cd "$(dirname "$0")" || exit 2
export WSIM_ROOT=$PWD CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
unset RUSTFLAGS RUSTC_WRAPPER RUST_BACKTRACE RUST_LIB_BACKTRACE
wsim=target/release/wsim
log=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path sim/Cargo.toml >"$log" 2>&1; then
  grep -v '^warning' "$log" | tail -40 >&2
  echo "run.sh: the simulator does not build against /repo" >&2
  rm -f "$log"; exit 2
fi
# C06 runs against a build in which every edge can be a scheduling point
if [ "$1" = C06 ] || [ "$1" = build ] || { [ "$1" = replay ] && grep -q '^prop C06' "$2"; }; then
  if ! RUSTC_WRAPPER=$PWD/sim/edges.sh cargo build --release --offline --locked --target-dir target/edges --manifest-path sim/Cargo.toml >"$log" 2>&1; then
    grep -v '^warning' "$log" | tail -40 >&2; rm -f "$log"; exit 2
  fi
  [ "$1" = build ] || wsim=target/edges/release/wsim
fi
case "$1" in
  C16|C17|build|replay)
    if ! cargo build --release --offline --locked --manifest-path /repo/wadec-cli/Cargo.toml >"$log" 2>&1; then
      tail -40 "$log" >&2; rm -f "$log"; exit 2
    fi
    mkdir -p target/shim
    if [ shim/shim.c -nt target/shim/shim.so ]; then
      gcc -O1 -fPIC -shared -o target/shim/shim.so shim/shim.c -ldl || exit 2
    fi ;;
esac
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) exec "$wsim" replay "$2" ;;
  *) exec "$wsim" check "$1" ;;
esac
