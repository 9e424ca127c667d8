#!/bin/bash
# run every registered check, 4 at a time; print those that are not quiet
cd /verif; python3 -c "
import json
print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | xargs -P 5 -I{} sh -c 's=$(date +%s); python3 analysis/check.py {} > /tmp/o.{} 2>&1; r=$?; e=$(( $(date +%s) - s )); [ $r = 0 ] && echo "{} ok ${e}s" || { echo "{} rc $r ${e}s"; head -8 /tmp/o.{} | cut -c1-300; }'
