export HOME=/root
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_TARGET_DIR="${VMON_TARGET:-$VERIF_DIR/target}"
mkdir -p "$CARGO_TARGET_DIR"
export VMON_BUILDLOG="$CARGO_TARGET_DIR/build.$$.log"
