#!/bin/bash
# check.sh <property> quick|thorough: builds the harness against the working tree of /repo and runs one check.
# check.sh setup: builds only.
# Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it did not.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p replays evidence target
log=target/build.$$.log
# Cargo goes by modification times; the contents decide here.
now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/repo.sum 2>/dev/null)" ]; then
    (cd harness && cargo clean --offline --locked --release -p wot-td) >/dev/null 2>&1
fi
if ! (cd harness && cargo build --offline --locked --release) >"$log" 2>&1; then
    echo "the harness does not build against /repo:" >&2
    grep -A12 '^error' "$log" | head -80 >&2
    rm -f "$log"
    exit 3
fi
rm -f "$log"
echo "$now" >target/repo.sum
[ "$1" = setup ] && exit 0
id=$1
tier=${2:-quick}
bin=target/release/wotmc
rm -f "replays/$id.json"
out=target/run.$$.log
"$bin" check "$id" "$tier" >"$out" 2>&1
rc=$?
cat "$out"
if [ $rc -ge 128 ] && [ $rc -ne 130 ] && [ $rc -ne 143 ] && [ $rc -ne 137 ]; then
    # The code under test brought the process down (stack overflow, abort).
    printf '{"property":"%s","tier":"%s","space":"crash","index":0,"what":"the process died with status %d"}\n' "$id" "$tier" $rc >"replays/$id.json"
    echo "the process died with status $rc"
    echo "VIOLATION property=$id replay=$PWD/replays/$id.json"
    rc=1
fi
rm -f "$out"
exit $rc
