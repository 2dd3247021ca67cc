#!/bin/bash
# mk_cli.sh ID PROPERTY "needs" "breaks": as mk.sh, with demo.py on stdin
id=$1; d=/verif/seeded/$id; kit=/verif/tools/seedkit
mkdir -p $d
cat $kit/prelude.py - > $d/demo.py
cp $kit/demo_cli.sh $d/demo.sh; chmod +x $d/demo.sh
git -C /tmp/seedwt diff > $d/patch.diff
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
(cd /tmp/seedwt && bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id with patch: $?"; tail -1 /tmp/seed.$id.log)
(cd /tmp/seedwt && cargo test --workspace --offline -q 2>&1 | grep -E "test result|FAILED|error" | sort | uniq -c | head -5)
git -C /tmp/seedwt checkout -q -- .
(cd /tmp/seedwt && bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id unpatched: $?"; tail -1 /tmp/seed.$id.log)
