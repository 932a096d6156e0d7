#!/bin/bash
# run.sh PROP [tier]: a check, its undecided paths and what it reached
cd /verif; timeout ${T:-600} ./check.sh $1 ${2:-quick} 2>&1 | cut -c1-${W:-500} | head -${N:-30}
python3 -c "
import json
c=json.load(open('/verif/evidence/$1.json'))['coverage']
print({k:c[k] for k in c if k in('undecided_paths','reached','paths')})"
