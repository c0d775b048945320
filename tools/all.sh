#!/bin/bash
# run every claimed check (quick) and show verdicts
cd /verif
for s in ${SEEDS:-1}; do for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
 VERIF_SEED=$s VERIF_TIER=quick python3-vt -B pyvc/check.py $p > /tmp/all_$p.log 2>&1; echo "$p seed $s exit $? $(tail -1 /tmp/all_$p.log)"; grep -h "^# \|VIOLATION" /tmp/all_$p.log | head -5
done; done
