#!/bin/bash
# Run the verifier's self-test: every program of /verif/selftest/src/cases.rs is executed on many inputs
# and, separately, evaluated by the engine from its MIR; no real result may be excluded by the engine
# and no false claim may be proved (line "WRONG: 0").
set -e
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$(dirname "$0")/../selftest"; V=$(cd ..; pwd)
cargo build --offline -q --target-dir "$V/build/selftest"
"$V/build/selftest/debug/runner" "${SEED:-1}" "${N:-20}" > "$W/runs"
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$V/build/mir" LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Adeprecated"
export RUSTC_WORKSPACE_WRAPPER="$V/build/driver/debug/mirdump" MIRDUMP_OUT="$W/dump" MIRDUMP_CRATE=selftest
cargo clean -p selftest --offline -q
cargo check --lib --offline -q
python3-vt "$V/engine/selftest.py" "$W/dump" "$W/runs" "$@"
