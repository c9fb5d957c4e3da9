#!/bin/bash
# ./check.sh <property> [--replay [production:]seed:case]
# builds the monitor against /repo's working tree and runs it
cd "$(dirname "$0")" || exit 2
. ./env.sh
export RUST_BACKTRACE=0
build() { ./build.sh "$@" >/dev/null 2>"$VMON_BUILDLOG" || { cat "$VMON_BUILDLOG" >&2; echo "build failed" >&2; exit 2; }; }
BIN="$CARGO_TARGET_DIR/release"
if [ "$1" = C26 ]; then
	build work
	exec "$CARGO_TARGET_DIR/work/release/vmon-work" "$@"
fi
prod=0
if [ "$1" = C23 ]; then
	# the pool constraints of the production build, in a binary of its own
	if [ "$2" = --replay ]; then
		case "$3" in production:*) build production; exec "$BIN/vmon-production" C23P --replay "${3#production:}" ;; esac
	else
		build production
		export VMON_EXTRA="$CARGO_TARGET_DIR/C23P.json"
		rm -f "$VMON_EXTRA"
		VMON_EXTRA= VMON_EVIDENCE="$CARGO_TARGET_DIR/C23P.json" "$BIN/vmon-production" C23P
		prod=$?
	fi
fi
build
"$BIN/vmon" "$@"
rc=$?
[ $rc = 0 ] && rc=$prod
[ $prod = 1 ] && rc=1
exit $rc
