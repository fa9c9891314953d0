#!/bin/bash
# development aid: tools/seedtest.sh SEED...  -- does the planted bug build, pass the tests, and fail its demo?
for s in "$@"; do
S=/verif/seeded/$s
D=/tmp/seedw
mkdir -p $D
rsync -a --delete --exclude target --exclude .git /repo/ $D/ 2>/dev/null || { find $D -mindepth 1 -maxdepth 1 ! -name target -exec rm -r -f {} + ; tar -C /repo --exclude=./target --exclude=./.git -cf - . | tar -C $D -xf - ; }
[ -d $D/target ] || cp -a /repo/target $D/target
. /opt/vp/env.sh; cd $D
[ "$NOCLEAN" ] || { bash $S/demo.sh > /tmp/demo-clean.log 2>&1; echo "$s demo on clean tree: $? (want 0)"; }
git apply $S/patch.diff || exit 3
$CARGO test -p kuadrant-filter --no-fail-fast --offline -- --test-threads 8 > /tmp/seed-test.log 2>&1; echo "$s tests: exit $? $(grep -E '^test result' /tmp/seed-test.log | head -3 | tr '\n' ' ')"
grep -E "^test .*FAILED|^error" /tmp/seed-test.log | head -5
bash $S/demo.sh > /tmp/demo-bug.log 2>&1; echo "$s demo with bug: $? (want nonzero)"
grep -E "panicked|assert|error\[" -A2 /tmp/demo-bug.log | head -6
done
