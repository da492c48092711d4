#!/bin/bash
# runs the repository's tests and checks that every stable one passes
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
r=json.load(open(sys.argv[1])); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(r.get('passed') or [k for k,v in r.get('results',{}).items() if v in('pass','passed')])
bad=sorted(st-p); print('stable ok' if not bad else 'BROKEN '+str(bad), len(p)); sys.exit(bool(bad))
P
