#!/bin/bash
# Runs the test in seed_demo.rs (beside this file) inside a scratch copy of the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
src="$PWD"
work="$(mktemp -d /tmp/seed-demo.XXXXXX)" || exit 99
trap 'cd /; find "$work" -depth -delete' EXIT
mkdir "$work/r"
( cd "$src" && tar --exclude=./.git --exclude=./target/debug/incremental -cf - . ) | tar -C "$work/r" -xf - || exit 99
. /opt/vp/env.sh
cd "$work/r" || exit 99
export CARGO_INCREMENTAL=0
cp "$here/seed_demo.rs" crates/kuadrant-filter/src/seed_demo.rs
cp "$here/host.rs" crates/kuadrant-filter/src/seed_host.rs
printf '\n#[cfg(test)]\nmod seed_demo;\n' >> crates/kuadrant-filter/src/lib.rs
out="$work/log"
$CARGO test -p kuadrant-filter --offline --lib seed_demo > "$out" 2>&1
rc=$?
tail -n 40 "$out"
[ $rc -eq 0 ] || exit 1
grep -Eq "test result: ok\. [1-9][0-9]* passed" "$out" || exit 98
exit 0
