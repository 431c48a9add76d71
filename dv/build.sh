#!/bin/bash
# Builds the harness crate against /repo's current working tree into $1 (LLVM IR of every crate, and the replay binary).
set -e
OUT="$1"
HERE="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
cd "$HERE/../harness"
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
# -Zshare-generics=n: generic code of the standard library is instantiated in these crates (so that its text is seen), not taken from the precompiled library
export CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$OUT" RUSTFLAGS="-Zshare-generics=n --emit=llvm-ir,link --cfg verif_hooks -Awarnings"
# DV_PROFILE=nda: the configuration of optimised builds (no debug_assertions), with overflow checks kept
if [ "$DV_PROFILE" = nda ]; then RUSTFLAGS="$RUSTFLAGS -C debug-assertions=off -C overflow-checks=on"; fi
cargo build --offline --locked && exit 0
# the hooks do not compile against this tree (e.g. a private field was renamed): without them, points are read and built as the four words blocks they are
# (the order of the coordinates is checked by verify.py)
echo "building without the hooks" >&2
export RUSTFLAGS="${RUSTFLAGS/--cfg verif_hooks/--cfg verif_nohooks}"
cargo build --offline --locked
touch "$OUT/nohooks"
