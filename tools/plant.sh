#!/bin/bash
# plant.sh ID...: confirm planted bugs: in a scratch copy of /repo placed by a bind-free swap it is not possible to run
# /opt/vp's scripts, so the patch is applied to /repo itself, tested, and undone straight afterwards.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  S=seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d /tmp/plant-XXXXXX); cp $S/* $T; chmod +x $T/*.sh
  (cd /repo; timeout 300 bash $T/demo.sh >$T/clean.log 2>&1); c=$?
  git -C /repo apply $PWD/$S/patch.diff || { echo "$id: does not apply"; continue; }
  trap 'git -C /repo checkout -- .' EXIT
  bash /opt/vp/test.sh $T/res.json >$T/test.log 2>&1; 
  t=$(python3 - $T/res.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
l=b.get('stable') or b.get('passed') or b.get('tests') or b
names=[x if isinstance(x,str) else x['name'] for x in l]
m=[n for n in names if n not in r['passed']]
print('pass' if not m else 'FAIL '+','.join(m[:5]))
P
)
  (cd /repo; timeout 300 bash $T/demo.sh >$T/bug.log 2>&1); d=$?
  k=skipped
  if [ -z "$NOCHECK" ]; then VERIF_TIME=${VERIF_TIME:-30} timeout 900 python3 check.py $P >$T/check.log 2>$T/check.err; k="rc=$? $(grep -h VIOLATION $T/check.log | head -1 | cut -c1-150)"; fi
  git -C /repo checkout -- .; trap - EXIT
  echo "$id [$P]: demo clean=$c patched=$d; tests $t; check $k"
  [ $c = 0 ] && [ $d != 0 ] || tail -n 5 $T/clean.log $T/bug.log
  mkdir -p /tmp/plantlog; cp $T/*.log /tmp/plantlog/ ; rm -rf "$T"
done
