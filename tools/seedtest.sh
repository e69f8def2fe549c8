#!/bin/bash
# tools/seedtest.sh ID [notest] [PROP...]: confirm a planted bug in a scratch copy (/tmp/seedwt), then run checks on it.
# Development aid; no registered check uses it.
id=$1; shift; V0=${SEEDV:-/verif}; S=$V0/seeded/$id; W=${SEEDWT:-/tmp/seedwt}; T=$W.tools; D=$W.demo; notest=; [ "$1" = notest ] && { notest=1; shift; }
base=$(git -C /repo rev-parse HEAD)
if [ ! -d $W/.git ] || [ "$(git -C $W rev-parse HEAD)" != "$base" ]; then
  [ -d "$W" ] && rm -rf "$W"
  git clone -q /repo $W && cp -a /repo/libprov $W/ 2>/dev/null
fi
git -C $W checkout -q -- . 
mkdir -p $T; for f in build test; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#$T/build.sh#g" /opt/vp/$f.sh > $T/$f.sh; done
sed "s#/repo#$W#g" /opt/vp/collect.py > $T/collect.py
(cd $W && bash $T/build.sh > $T/build.log 2>&1) || { echo "BASE BUILD FAILED"; exit 2; }
rm -rf "$D"; mkdir $D; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
(cd $W && timeout 300 bash $D/demo.sh > $T/demo0.log 2>&1); echo "demo on base: $? (want 0)"
git -C $W apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 2; }
(cd $W && bash $T/build.sh > $T/build.log 2>&1) || { echo "BUILD FAILED"; tail -5 $T/build.log; git -C $W checkout -q -- .; exit 2; }
(cd $W && timeout 300 bash $D/demo.sh > $T/demo1.log 2>&1); echo "demo with bug: $? (want nonzero): $(tail -1 $T/demo1.log)"
if [ -z "$notest" ]; then bash $T/test.sh $T/o.json > $T/test.log 2>&1; python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open('$T/o.json'))
base=json.load(open('/opt/vp/BASELINE.json'))
names=b if b is not None else set(base if isinstance(base,list) else base.get('tests',[]))
miss=names-set(o['passed'])
print("tests: %d passed, %d failed, %d of baseline missing'%(len(o['passed']),len(o['failed']),len(miss)), sorted(miss)[:3])
P
fi
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $props; do (cd $V0; t=$(date +%s); VERIF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} ./check $p quick > $T/check.$p.log 2>&1; r=$?; echo "check $p: exit $r ($(( $(date +%s)-t )) s) $(grep -m1 VIOLATION $T/check.$p.log | cut -c1-150)"; grep -m1 -A3 'FAIL\|fail' $T/check.$p.log | head -3 | cut -c1-250); done
git -C $W checkout -q -- .; rm -rf "$D"
