#!/bin/bash
# run.sh <property> <quick|thorough>
# Rebuilds the model checker against /repo's working tree and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! (cd "$here/mc" && cargo build --release --offline --quiet) >"$log" 2>&1; then
	echo "ERROR: the model checker does not build against /repo"
	grep -E '^error' -A6 "$log" | head -60
	exit 2
fi
cd "$here" && exec "$here/mc/target/release/mc" run "$prop" "$tier"
