#!/bin/bash
# builds the weaver and the replay harness libraries from the committed files
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build --offline --manifest-path tools/weave/Cargo.toml --target-dir build/weave || exit 1
RUSTFLAGS="--cfg zok_verif -A warnings" ZOK_VERIF_HOOK="$PWD/harness/hook/none.rs" \
  cargo build --offline --manifest-path harness/Cargo.toml --target-dir build/harness --lib || exit 1
