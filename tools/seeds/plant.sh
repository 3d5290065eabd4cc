#!/bin/bash
# plant.sh ID PROP...: take the diff of /tmp/w/cp as seed ID, test, demo, run checks
ID=$1; shift; D=/verif/seeded/$ID
cd /tmp/w/cp || exit 1
[ "$(git rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo WRONG HEAD; exit 1; }
mkdir -p $D; git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo EMPTY; exit 1; }
# every removed line must be original
python3 - $D/patch.diff <<'P' || { echo "NOT ORIGINAL LINES"; }
import re,subprocess,sys
f=None;bad=0;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: no=int(m[1]); continue
    if f and l[:1] in ' -' and not l.startswith('---'):
        if l[0]=='-':
            n+=1
            b=subprocess.run(['git','blame','-s','2d70167..HEAD','-L','%d,%d'%(no,no),'--',f],capture_output=True,text=True).stdout
            if not b.startswith('^2d70167'): bad+=1; print('  later line:',b.strip())
        no+=1
print('removed lines',n,'later',bad); sys.exit(bad>0 or n==0)
P
sed 's#/repo#/tmp/w/cp#g' /opt/vp/test.sh > /tmp/w/cptest.sh
bash /tmp/w/cptest.sh /tmp/w/cpout.json > /tmp/w/cptest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/cpout.json'))
k=[x for x in ('stable','passed','tests','pass') if x in b][0]; k2=[x for x in ('stable','passed','tests','pass') if x in o][0]
m=set(b[k])-set(o[k2]); print('TESTS BROKEN: %s'%m if m else 'tests ok %d'%len(o[k2]))
P
T=/tmp/w/demo-$ID; rm -rf $T; mkdir $T; cp $D/* $T/; rm -f $T/patch.diff $T/meta.json
(cd /repo && timeout 300 bash $T/demo.sh > /tmp/w/demo0.log 2>&1); echo "demo unpatched: $? (0 wanted)"; tail -3 /tmp/w/demo0.log
(cd /tmp/w/cp && timeout 300 bash $T/demo.sh > /tmp/w/demo1.log 2>&1); echo "demo patched: $? (nonzero wanted)"; tail -2 /tmp/w/demo1.log
rm -rf /tmp/w/demo-$ID
cd /verif
for p in "$@"; do MC_REPO=/tmp/w/cp ./check $p quick > /tmp/w/pl.log 2>&1; echo "check $p: exit $?"; grep -A1 VIOLATION /tmp/w/pl.log | grep '\[' | cut -c1-120 | head -4; done
