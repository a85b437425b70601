# Sourced by demo.sh with cwd = the repository: builds the demo program in a scratch directory.
kit=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -r "$kit" "$tmp/kit"
chmod +x "$tmp/kit/llvm/cxx" "$tmp/kit/llvm/prefix/bin/llvm-config"
cp "$repo/Cargo.lock" "$tmp/kit/Cargo.lock"
[ -f "$kit/../demo.rs" ] && cp "$kit/../demo.rs" "$tmp/kit/src/main.rs"
sed "s|@REPO@|$repo|" "$kit/Cargo.toml.in" > "$tmp/kit/Cargo.toml"
export VH_LLVM_LIBDIR=/root/.rustup/toolchains/1.98.1-x86_64-unknown-linux-gnu/lib
export LLVM_SYS_221_PREFIX="$tmp/kit/llvm/prefix" CXX="$tmp/kit/llvm/cxx" PATH="$tmp/kit/llvm/prefix/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS
(cd "$tmp/kit" && cargo build --offline -q 2>"$tmp/log") || { tail -40 "$tmp/log"; echo "demo does not build"; exit 0; } # no verdict
demo="$tmp/target/debug/demo"
fail=0
# A demo.rs beside demo.sh takes the place of the comparison program: go [args] runs it.
go() { timeout 120 "$demo" "$@" || fail=1; }
# try SPEC HEX [options]: any difference or crash counts.
try() { "$demo" "$@" || fail=1; }
