#!/bin/bash
# seedrun.sh [id ...]: run each seeded change's own check against it (in a private copy of /repo)
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t=$(date +%s); o=$(mktemp)
  tools/iso.sh bash -c "cd /repo && patch -sp1 < /verif/seeded/$s/patch.diff && cd /verif && bash run.sh $p quick" > $o 2>&1; rc=$?
  echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(grep -c ^VIOLATION $o) violations; $(grep -m1 REPLAY $o | cut -c1-160)"
  rm -f "$o"
done
