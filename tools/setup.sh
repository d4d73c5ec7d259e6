#!/bin/bash
# builds the extractor and the replay programs; checks rebuild them from the current tree anyway
cd "$(dirname "$0")/.." || exit 1
V=$PWD
export CARGO_NET_OFFLINE=true
(cd tools/vx && CARGO_TARGET_DIR=$V/.build/vx cargo +stable build --offline -q) || exit 1
for c in syntax lsp assume; do
  [ -d replay/$c ] || continue
  f=; [ $c = lsp ] && f="--cfg verif_hooks"
  (cd replay/$c && RUSTFLAGS="$f" CARGO_TARGET_DIR=$V/.build/replay_$c cargo +stable build --offline -q) || exit 1
done
CARGO_TARGET_DIR=$V/.build/server cargo +stable build --offline -q -p move_language_server --bin move_language_server --manifest-path /repo/Cargo.toml || exit 1
