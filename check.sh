#!/bin/sh
# check.sh build | PROPERTY TIER
# Build the simulator against /repo's working tree, then run one check.
cd "$(dirname "$0")/sim" || exit 2
RUSTFLAGS="-A semicolon_in_expressions_from_macros"
CARGO_NET_OFFLINE=true
export RUSTFLAGS CARGO_NET_OFFLINE

# cargo goes by file times; go by content as well, so that a tree that was
# copied or restored with old file times is built again
sum=$(find /repo/src /repo/Cargo.toml /repo/build.rs -type f -exec sha256sum {} + 2>/dev/null | sort | sha256sum)
mkdir -p ../target
if [ "$(cat ../target/repo.sum 2>/dev/null)" != "$sum" ]; then
	rm -f ../target/repo.sum
	cargo clean --release --offline -p hastur >/dev/null 2>&1
fi
log=$(cargo build --release --offline 2>&1) || {
	printf '%s\n' "$log" >&2
	exit 2
}
printf '%s\n' "$sum" >../target/repo.sum
[ "$1" = build ] && exit 0
exec ../target/release/hsim check "$1" --tier "$2"
