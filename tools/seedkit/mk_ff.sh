#!/bin/bash
# mk.sh ID PROPERTY "needs" "breaks": makes a planted bug from /tmp/seedwt (edited) and main.rs on stdin
id=$1; d=/verif/seeded/$id; kit=/verif/tools/seedkit
mkdir -p $d
cat $kit/prelude.rs $kit/prelude_ff.rs - > $d/main.rs
cp $kit/demo_ff.sh $d/demo.sh; chmod +x $d/demo.sh
git -C /tmp/seedwt diff > $d/patch.diff
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
(cd /tmp/seedwt && bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id with patch: $?"; tail -1 /tmp/seed.$id.log)
(cd /tmp/seedwt && (cargo test --workspace --offline -q; cargo test --workspace --offline -q --features ffmpeg) 2>&1 | grep -E "test result|FAILED|error" | sort | uniq -c | head -5)
git -C /tmp/seedwt checkout -q -- .
(cd /tmp/seedwt && bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id unpatched: $?"; tail -1 /tmp/seed.$id.log)
