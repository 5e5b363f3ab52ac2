#!/bin/bash
# run_seeds.sh "<checks|own|all>" [id...]: run checks against a scratch copy of /repo with each planted bug applied
V=$(cd "$(dirname "$0")/.." && pwd); W=$1; shift
S=/tmp/w/seedrun; rm -rf /tmp/w/seedrun; cp -a /repo $S; git -C $S checkout -q -- .
[ $# = 0 ] && set -- $(ls $V/seeded)
for i in "$@"; do
  git -C $S apply $V/seeded/$i/patch.diff || { echo "$i APPLY FAILED"; continue; }
  own=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  c=$W; [ $W = own ] && c=$own; [ $W = all ] && c=$(seq -f C%02g 1 33)
  r=""
  for p in $c; do
    t0=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} CRASHDEBUG_REPO=$S $V/check $p ${TIER:-quick} >/tmp/w/sr.out 2>&1; rc=$?
    grep -q "^VIOLATION property=$p " /tmp/w/sr.out && r="$r $p" || { [ $rc != 0 ] && r="$r $p(rc=$rc)"; }
  done
  case " $r " in *" $own "*) s=caught;; *) s=MISSED;; esac
  echo "$i own=$own $s by:$r ($(( $(date +%s)-t0 ))s)"
  git -C $S checkout -q -- .
done
