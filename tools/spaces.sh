#!/bin/bash
# per-space cost of a property's last run
python3 - "$1" "$(cd "$(dirname "$0")/.." && pwd)" <<'P'
import json,sys
e=json.load(open('%s/evidence/%s.json'%(sys.argv[2],sys.argv[1])))
print(e['wall_s'],e['build_s'])
for k,v in e['coverage']['spaces'].items(): print('%-34s'%k,v)
P
