#!/bin/bash
# usage: ./check.sh Pxx [--case N]
# Builds the monitors against /repo's current working tree and runs those of one property.
# Exit 0: held; 1: violated (VIOLATION line); anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export RUSTFLAGS="-Awarnings"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
log=$(mktemp)
if ! (cd harness && cargo build --offline --locked -q) >"$log" 2>&1; then
    echo "the harness does not build against /repo" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
if [ "$2" = "--case" ]; then
    exec harness/target/debug/ifcmon case "$1" "$3"
fi
if [ "$VERIF_TIER" != thorough ] || { [ "$1" != P04 ] && [ "$1" != P23 ]; }; then
    exec harness/target/debug/ifcmon "$1"
fi
harness/target/debug/ifcmon "$1" || exit
# further cases under AddressSanitizer (needs the nightly toolchain; without it the first run is the verdict)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Awarnings -Zsanitizer=address"
export IFCMON_ASAN=1 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0 VERIF_SEED=$((VERIF_SEED + 7919)) VERIF_CASES=5000
if (cd harness && timeout 300 cargo build --offline --locked -q --target x86_64-unknown-linux-gnu --target-dir target/asan) 2>/dev/null; then
    exec harness/target/asan/x86_64-unknown-linux-gnu/debug/ifcmon "$1"
fi
echo "$1: no build with AddressSanitizer, that part is left out"
