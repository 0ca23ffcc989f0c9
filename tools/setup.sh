#!/bin/bash
# Builds the contract crates natively and for the verifier, so that checks only
# recompile what changed.
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
for crate in contracts/*/; do
  name=$(basename "$crate")
  [ -f "$crate/src/main.rs" ] || continue
  (cd "$crate" && cargo build --offline --quiet --target-dir /verif/target/native) || exit 1
  grep -q "kani::proof" "$crate/src/lib.rs" || continue
  (cd "$crate" && cargo kani --lib --only-codegen -Z unstable-options -Z stubbing --target-dir /verif/target/kani) > target/setup-"$name".log 2>&1 || { tail -40 target/setup-"$name".log; }
done
exit 0
