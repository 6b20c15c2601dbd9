#!/bin/bash
# run_all.sh [tier]: every claimed check, one after another; prints one line per check
cd "$(dirname "$0")/.."; for id in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])"); do s=$(date +%s); o=$(VERIF_TIER=${1:-quick} bin/check.py $id --tier ${1:-quick} 2>&1); r=$?; echo "$id rc=$r $(( $(date +%s)-s ))s $(echo "$o" | cut -c1-200 | tail -1)"; done
