#!/bin/bash
# every property: N seeds in one long-lived worker and in fresh processes under load; the hashes must agree
N=${1:-6}; B=$(dirname "$0")/../build/mcsim-a
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MCSIM_OTHER=$(dirname "$0")/../build/mcsim-b
T=$(mktemp -d); bad=0; n=0
for p in $($B props); do
  seq 90001 $((90000+N)) | $B worker $p quick > $T/w 2>/dev/null &
  for s in $(seq 90001 $((90000+N))); do
    ( $B gen $p $s quick > $T/$s.plan; $B run $T/$s.plan > $T/$s.out 2>/dev/null ) &
  done
  wait
  while read -r a; do
    n=$((n+1))
    python3 - "$a" $T <<'P' || { bad=$((bad+1)); echo "$p differs: ${a:0:60}"; }
import json,sys
d=json.loads(sys.argv[1]); e=json.loads(open("%s/%d.out"%(sys.argv[2],d["seed"])).read().strip().splitlines()[-1])
sys.exit(d["hash"]!=e["hash"])
P
  done < $T/w
done
rm -rf "${T:?}"
echo "$n executions repeated, $bad differ"; [ $bad = 0 ]
