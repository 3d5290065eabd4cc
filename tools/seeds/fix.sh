#!/bin/bash
# fix.sh "message": run build+tests and commit all changes in /repo
cd /repo && bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
def names(x):
    for k in ('stable','passed','tests','pass'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
bs=set(names(b)); os_=set(names(o))
miss=bs-os_
print('missing',len(miss),list(miss)[:10])
sys.exit(1 if miss else 0)
P
git -C /repo status --short
[ -n "$1" ] && git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
