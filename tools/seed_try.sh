#!/bin/bash
# tools/seed_try.sh ID [notest] : validate /verif/seeded/ID in a scratch copy of /repo.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedwt.$ID
rm -rf "/tmp/seedwt.$ID"; cp -a /repo "$W"; cd "$W" || exit 2
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash "$S/demo.sh" >/tmp/seed.$ID.d0 2>&1; echo "demo unchanged: $?"
git apply "$S/patch.diff" || { echo APPLY-FAILED; exit 2; }
bash "$S/demo.sh" >/tmp/seed.$ID.d1 2>&1; echo "demo patched: $?"; tail -2 /tmp/seed.$ID.d1 | cut -c1-200
if [ "$2" != notest ]; then
PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 diffstar 2>&1 | tail -8 | cut -c1-150
fi
cd /verif; SA_REPO=$W timeout 900 python3 -m sa.check "$PROP" 2>&1 | cut -c1-220 | tail -4
rm -rf "/tmp/seedwt.$ID"
