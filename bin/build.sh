#!/bin/bash
# Build the checks against /repo's current working tree (offline).
# usage: build.sh [nostd]   with "nostd", also over the crates built without the standard library
cd "$(dirname "$0")/../pbt" || exit 2
log=$(mktemp)
run() {
	cargo build --release --offline "$@" >"$log" 2>&1 && return
	grep -E -A8 "^error" "$log" | head -60
	tail -n 5 "$log"
	return 1
}
if ! run; then
	rm -f "$log"
	echo "error: the checks do not build against /repo"
	exit 2
fi
if [ "$1" = nostd ] && ! run --no-default-features --target-dir target/nostd; then
	mkdir -p ../replays && mv "$log" ../replays/C24-build.log
	echo "the crates build with the standard library, but not without it"
	exit 3
fi
rm -f "$log"
