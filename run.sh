#!/bin/bash
# run.sh CNN [args]: rebuild check CNN against /repo's working tree, then run it.
# exit 0 held, 1 violation (line printed), anything else: no verdict
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
b=$(echo "$1" | tr 'A-Z' 'a-z'); shift
# never trust timestamps of /repo's files: a copy of the tree may carry older ones
cargo clean -q --release --offline -p anothertls 2>/dev/null
if ! cargo build -q --release --offline --bin "$b" 2>build.log; then
  cat build.log; echo "the harness does not build against this tree"; exit 2
fi
exec ./target/release/"$b" "$@"
