#!/bin/bash
# quick look: tools/b.sh WORKLOADS SECS [base]
/verif/build/harness batch wl=$1 secs=$2 base=${3:-1} stop=0 | python3 -c "
import json,sys
from collections import Counter
d=json.load(sys.stdin); print('runs',d['runs'],'mism',d['mismatches'],'err',d['errors'],d['err'],'distinct',d['distinct'],'steps/run',d['steps']//max(1,d['runs'])); print(d['probes']); print(d['faults']);
print(Counter(v['workload']+':'+v['cls'] for v in d['violations'])); seen=set()
for v in d['violations']:
  k=(v['workload'],v['cls'])
  if k not in seen: seen.add(k); print(v['workload'],v['seed'],v['cls'])
"
