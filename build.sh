#!/bin/bash
# Builds the simulator, the driver, the library workloads and the hooked sc binary from /repo's working tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/.build
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
fail() { echo "build error: $1" >&2; exit 2; }
gcc -O2 -g -fPIC -shared -Wall -o "$B/libdst.new" "$V/dst/libdst.c" -ldl -lpthread || fail libdst
mv "$B/libdst.new" "$B/libdst.so"
cargo build --quiet --offline --release --manifest-path "$V/driver/Cargo.toml" --target-dir "$B/driver" || fail driver
# cargo judges freshness by mtime; drop the fingerprints of everything built from /repo
rm -rf /verif/.build/sc/release/.fingerprint/sc-* /verif/.build/sc/release/.fingerprint/phys-*
export RUSTFLAGS="--cfg spinchain_sim --cap-lints allow"
cargo build --quiet --offline --locked --release --manifest-path /repo/Cargo.toml --bin sc --target-dir "$B/sc" || fail "sc (from /repo)"
rm -f /verif/.build/phys
if cargo build --quiet --offline --locked --release --manifest-path "$V/physics/Cargo.toml" --target-dir "$B/sc" 2>"$B/phys.log"; then
    cp "$B/sc/release/phys" "$B/phys.new" && mv "$B/phys.new" "$B/phys"
else
    cat "$B/phys.log" >&2
    echo "WARNING: /verif/physics does not build against /repo's library" >&2
fi
cp "$B/sc/release/sc" "$B/sc.new" && mv "$B/sc.new" "$B/sc.bin" || fail copy
flock -u 9
