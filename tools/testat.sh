#!/bin/bash
# testat.sh ROOT: build the extensions in the scratch copy ROOT and run the stable tests there
set -e
R=$1
T=$(python3 - "$R" <<'P'
import sys; sys.path.insert(0,'/verif/tools')
import tree
print(tree.extensions(sys.argv[1]))
P
)
cp $T/funpy/cheb/*.so $R/funpy/cheb/
. /opt/vp/env.sh
cd $R
export PYTHONPATH=$R
tmp=$(mktemp -d)
$PY -m pytest -q -p no:cacheprovider --rootdir=$R --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$tmp/j.xml >$tmp/log 2>&1 || true
$PY /opt/vp/results.py $tmp/o.json "junit:$tmp/j.xml"
python3 - $tmp/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    return x
st=b.get('stable') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.get('stable',[]))
ps=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else set(k for k,v in o.items() if v=='passed')
miss=sorted(st-ps)
print('stable',len(st),'passed',len(ps),'missing',len(miss)); print('\n'.join(miss[:10]))
P
rm -rf $tmp
