#!/bin/bash
# Builds the harness (and with it /repo's crates) from the current working tree, then runs one check.
#   run.sh build | check <property> | thorough <property> | replay <file>
# Exit codes of check/thorough: 0 held on everything explored, 1 violation (with a VIOLATION line).
set -u
VH_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VH_DIR
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
REAL_LIBDIR=/root/.rustup/toolchains/1.98.1-x86_64-unknown-linux-gnu/lib
export LLVM_SYS_221_PREFIX="$VH_DIR/llvm/prefix" CXX="$VH_DIR/llvm/cxx" PATH="$VH_DIR/llvm/prefix/bin:$PATH"
export VH_LLVM_LIBDIR="$REAL_LIBDIR" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VH_TARGET:-$VH_DIR/target}"
unset RUSTFLAGS
build() {
  cd "$VH_DIR/harness" || return 2
  cp /repo/Cargo.lock Cargo.lock || return 2
  local n
  for n in 1 2; do
    if cargo build --offline -q "$@" 2>"$CARGO_TARGET_DIR.log"; then return 0; fi
  done
  tail -60 "$CARGO_TARGET_DIR.log" >&2
  return 2
}
# The state-test tools as users build them, for the property about them.
tools() {
  export VH_REVMC="$CARGO_TARGET_DIR/cli/debug/revmc" LD_LIBRARY_PATH="$REAL_LIBDIR${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
  CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cli" cargo build --offline -q --manifest-path /repo/Cargo.toml -p revmc-cli --bin revmc \
    --no-default-features --features llvm 2>"$CARGO_TARGET_DIR.cli.log" && return 0
  tail -60 "$CARGO_TARGET_DIR.cli.log" >&2
  return 2
}
build_for() {
  case "$1" in
    C22|C23) build --features st && tools ;;
    *) build ;;
  esac
}
mkdir -p "$CARGO_TARGET_DIR"
case "${1:-}" in
  build) build; exit $? ;;
  check|thorough)
    build_for "$2" || { echo "INCONCLUSIVE: the harness does not build against this tree"; exit 2; }
    [ "$1" = thorough ] && export VERIF_TIER=thorough
    exec "$CARGO_TARGET_DIR/debug/vh" check "$2" ;;
  replay) build_for "$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')" || exit 2; exec "$CARGO_TARGET_DIR/debug/vh" replay "$2" ;;
  *) echo "usage: run.sh build|check ID|thorough ID|replay FILE" >&2; exit 2 ;;
esac
