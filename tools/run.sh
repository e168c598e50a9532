#!/bin/bash
# run checks and summarise their evidence
cd /verif
for p in "$@"; do timeout 1800 bash check.sh $p 2>&1| tail -12|cut -c1-1500; python3 - $p <<'X'
import json,sys
try:
    d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'));c=d['coverage']
    print('  skipped',c['skipped_over_budget'],'wall',d['wall_s'],' '.join(f"{s['name']}:{s['cases']}/{s['traces']}/{s['cpu_s']}" for s in c['spaces']))
except Exception as e: print(e)
X
done
