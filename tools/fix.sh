#!/bin/bash
# tools/fix.sh <property> <message> <what failed>: commit the working-tree repair in /repo and record it
set -e
cd /repo && git commit -qam "fix: $2"
H=$(git rev-parse --short HEAD)
python3 - "$1" "$H" "$3" <<'P'
import json,sys,os
p='/verif/known_findings.json'
d=json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d,open(p,'w'),indent=1)
P
echo $H
