#!/bin/bash
# confirmseed.sh ID... : builds a scratch copy with the bug, runs tests and demo with and without
S=/tmp/scr.$$; 
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf $S; cp -a ${IPV_REPO:-/repo} $S
  unshare -m true 2>/dev/null
  ( cd $S && git checkout -q -- . && git apply $d/patch.diff && sed "s#^R=/repo;#R=$S;#" /opt/vp/build.sh > $S/.b.sh && bash $S/.b.sh > $S/.blog 2>&1; echo "$id build rc=$?"; cd $S && bash $d/demo.sh > $S/.dlog 2>&1; echo "$id demo with bug rc=$?"; tail -2 $S/.dlog
  [ -n "$NOTEST" ] || { sed "s#/repo#$S#g; s#/opt/vp/build.sh#$S/.b.sh#" /opt/vp/test.sh > $S/.t.sh; bash $S/.t.sh $S/.t.json > $S/.tlog 2>&1; python3 -c "import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/.t.json')); b=b.get('stable',b.get('passed')); print('$id tests broken:',sorted(set(b)-set(t['passed'])))"; } )
  ( cd ${IPV_REPO:-/repo} && bash $d/demo.sh > /tmp/dl 2>&1; echo "$id demo without bug rc=$?"; tail -1 /tmp/dl )
done
rm -rf $S
