#!/bin/bash
# rustc for the work-counting build: every basic block of the program's own crates reports itself
rustc="$1"; shift
prev=
for a in "$@"; do
	if [ "$prev" = --crate-name ]; then
		case "$a" in
		token_bonding_curve | spl_math | uint)
			exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-prune-blocks=0
			;;
		esac
	fi
	prev="$a"
done
exec "$rustc" "$@"
