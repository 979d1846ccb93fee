#!/bin/bash
# trybug.sh NAME...: for each seeded bug: applies in a scratch copy, build, tests, demo both ways, the property's check.
rm -rf /tmp/sr2; cp -a /repo /tmp/sr2
for n in "$@"; do
  D=/verif/seeded/$n; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /tmp/sr2 checkout -q -- .
  A=skip
  if [ -z "$QUICK" ]; then (cd /tmp/sr2 && bash $D/demo.sh >/tmp/demo0.log 2>&1); A=$?; fi
  git -C /tmp/sr2 apply $D/patch.diff || { echo "$n: patch does not apply"; continue; }
  B=skip
  if [ -z "$QUICK" ]; then (cd /tmp/sr2 && bash $D/demo.sh >/tmp/demo1.log 2>&1); B=$?; fi
  C=$(VERIF_REPO=/tmp/sr2 VERIF_BUILD=/tmp/sb python3 /verif/tools/check.py $P 2>&1); S=$?
  V=$(echo "$C" | grep VIOLATION | sed 's/replay=[^ ]*//'); L=$(echo "$C" | grep -E "^\[" | cut -c1-150)
  echo "== $n demo clean=$A patched=$B check=$S $V"; echo "$L"; [ -n "$VERB" ] && echo "$C" | cut -c1-600
done
