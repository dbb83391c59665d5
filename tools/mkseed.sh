#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what" : takes the uncommitted diff of /repo as patch, demo.cpp from stdin, cleans /repo
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C ${IPV_REPO:-/repo} diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
git -C ${IPV_REPO:-/repo} checkout -- .
cat > $d/demo.cpp
{ grep -q la.hpp $d/demo.cpp && cp /verif/replay/la.hpp $d/; grep -q "mat.hpp" $d/demo.cpp && cp /verif/replay/{mat,la,h}.hpp $d/; grep -q cq.hpp $d/demo.cpp && cp /verif/replay/{cq,fix,la,h}.hpp $d/; grep -q fix.hpp $d/demo.cpp && cp /verif/replay/fix.hpp $d/; grep -q "fix.hpp\|h.hpp\|la.hpp" $d/demo.cpp && cp /verif/replay/h.hpp $d/; } || true
cp /verif/tools/demo.sh.tmpl $d/demo.sh; chmod +x $d/demo.sh
python3 - "$id" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
