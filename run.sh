#!/bin/bash
# Usage: run.sh check <ID> | run.sh replay <file> | run.sh build
# Builds the harness against /repo's working tree (with the verification hooks) and runs one check.
set -u
if [ "${1:-}" = replay ]; then
	set -- replay "$(realpath -- "$2")"
fi
cd "$(dirname "$0")/harness" || exit 3
export VERIF_DIR="${VERIF_DIR:-$(cd .. && pwd)}"
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
export CARGO_NET_OFFLINE=true
log="$CARGO_TARGET_DIR/build.log"
mkdir -p "$CARGO_TARGET_DIR"
build() {
	cargo build --offline --locked --quiet >"$log" 2>&1 &&
		cargo build --offline --locked --quiet --manifest-path ../mrt/Cargo.toml >>"$log" 2>&1
}
export RUSTFLAGS="--cfg fizyr_rpc_verif"
if ! build; then
	# The hooks do not fit the current code: check what can be checked without them.
	cp "$log" "$log.hooks"
	export RUSTFLAGS=""
	if ! build; then
		grep -E -A8 '^error' "$log" | head -60
		echo "harness does not build against /repo"
		exit 3
	fi
	echo "note: the verification hooks do not build against /repo, running without them"
fi
# C29 compares builds: it needs another one, and runs from that.
bin=debug
if [ "$1" = build ] || { [ "$1" = check ] && [ "$2" = C29 ]; } || { [ "$1" = replay ] && grep -q '"property": *"C29"' "$2"; }; then
	if cargo build --offline --locked --quiet --profile nodebug >>"$log" 2>&1 &&
		cargo build --offline --locked --quiet --profile nodebug --manifest-path ../mrt/Cargo.toml >>"$log" 2>&1; then
		[ "$1" = build ] || bin=nodebug
	fi
fi
if [ "$1" = build ]; then
	"$CARGO_TARGET_DIR/debug/harness" prebuild
	exit 0
fi
exec "$CARGO_TARGET_DIR/$bin/harness" "$@"
