#!/bin/bash
# development aid: tools/mkseed.sh ID  -- (re)generates /verif/seeded/ID from tools/seed/ID.{py?,rs,json,patch}
# takes /tmp/seedsrc/ID/{edit.py,demo.rs,meta.json}: edit.py edits files below the cwd (a copy of /repo)
set -e
for s in "$@"; do
S=/tmp/seedsrc/$s; D=/verif/seeded/$s
mkdir -p /tmp/mk $D; find /tmp/mk -mindepth 1 -delete
git -C /repo archive HEAD | tar -C /tmp/mk -xf -
cd /tmp/mk; git init -q; git add -A >/dev/null; git -c user.email=a -c user.name=a commit -qm x
python3 $S/edit.py
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "$s: empty patch"; exit 1; }
cp /verif/tools/seed/demo.sh $D/demo.sh; cp /verif/tools/seed/host.rs $D/host.rs
{ echo '#[path = "seed_host.rs"]'; echo 'mod host;'; cat $S/demo.rs; } > $D/seed_demo.rs
cp $S/meta.json $D/meta.json; python3 -c "import json,sys; json.load(open('$D/meta.json'))"
done
