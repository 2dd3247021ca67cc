#!/bin/bash
# redo.sh ID: re-runs a planted bug's demonstration both ways in /tmp/seedwt
for id in "$@"; do d=/verif/seeded/$id; cp /verif/tools/seedkit/demo.sh $d/demo.sh
cd /tmp/seedwt; git checkout -q -- .; git apply $d/patch.diff || continue
bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id with patch: $? $(tail -1 /tmp/seed.$id.log)"
git checkout -q -- .; bash $d/demo.sh >/tmp/seed.$id.log 2>&1; echo "$id unpatched: $? $(tail -1 /tmp/seed.$id.log)"; done
