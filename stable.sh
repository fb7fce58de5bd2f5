#!/bin/bash
# development aid: does /repo still pass its stable tests?
out=$(mktemp); bash /opt/vp/test.sh $out >/dev/null 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=set(b['stable'])-set(o['passed'])
print('stable', len(b['stable']), 'missing', sorted(miss)[:10])
sys.exit(bool(miss))
P
