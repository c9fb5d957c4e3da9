#!/bin/bash
# ./build.sh [production|work]
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness || exit 2
if [ "$1" = production ]; then
	# any key will do; the monitor reads the same one
	export SWAP_PROGRAM_OWNER_FEE_ADDRESS=HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN
	exec cargo build --release --offline --locked --features production --bin vmon-production
fi
if [ "$1" = work ]; then
	export RUSTC_WRAPPER="$VERIF_DIR/tools/rustc-work.sh"
	exec cargo build --release --offline --locked --target-dir "$CARGO_TARGET_DIR/work" --features work --bin vmon-work
fi
exec cargo build --release --offline --locked --bin vmon
