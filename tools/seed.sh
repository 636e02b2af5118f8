#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch worktree: demo passes before, patch builds, tests pass,
# demo fails, check catches. NOCHECK=1 leaves out the check; CHECK="P01 P02" runs others.
R=${R:-/tmp/rw}
cd $R || exit 2
[ -z "$(git status --short)" ] || { echo "$R is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; continue; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=$(bash /tmp/rt_rw.sh 2>&1 | tail -1)
  bash $d/demo.sh >/tmp/demo.out 2>&1; dr=$?
  c="not run"
  if [ -z "$NOCHECK" ]; then
    c=
    for p in ${CHECK:-$prop}; do
      s=$(date +%s); VERIF_TIER=quick /verif/bin/engine -verif /verif -repo $R check $p >/tmp/check.out 2>&1; cr=$?
      c="$c $p rc=$cr $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/check.out | cut -c1-110)"
    done
  fi
  git checkout -q -- .
  [ -z "$NOCHECK$CHECK" ] && python3 - "$id" "$c" <<'P'
import json,sys,re
f='/verif/tools/seeded_results.json'; r=json.load(open(f))
m=re.search(r'(P\d+) rc=1 (\d+)s',sys.argv[2]); r[sys.argv[1]]=f'{m[1]} ({m[2]} s)' if m else 'missed'
json.dump(r,open(f,'w'),indent=0,sort_keys=True)
P
  echo "$id [$prop] tests: $t | demo rc=$dr $(tail -1 /tmp/demo.out | cut -c1-100) | $c"
done
