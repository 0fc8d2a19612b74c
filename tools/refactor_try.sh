#!/bin/bash
# tools/refactor_try.sh NAME [test] : all checks on a scratch copy with one transformation applied
N=$1; W=/tmp/rf/$N; mkdir -p /tmp/rf
rm -rf "/tmp/rf/$N"; cp -a /repo "$W"
python3 /verif/tools/refactor.py "$N" "$W" | cut -c1-1500
if [ "$2" = test ]; then (cd "$W" && PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 6 --timeout=300 diffstar 2>&1 | tail -4 | cut -c1-150); fi
cd /verif; rm -f "/tmp/rf/$N.out"
ls checks/c[0-9][0-9].py | sed 's/.*\/c/C/;s/.py//' | SA_REPO=$W xargs -P 7 -I{} sh -c 'r=$(timeout 900 python3 -m sa.check {} 2>&1); c=$?; u=$(echo "$r" | grep -c "^UNDECIDED"); echo "{} rc=$c undecided=$u $(echo "$r" | grep -E "^(VIOLATION|NO ANSWER|UNDECIDED)" | head -2 | cut -c1-220 | tr "\n" "|")" >> /tmp/rf/'$N'.out'
sort "/tmp/rf/$N.out" | grep -v 'rc=0 undecided=0'
rm -rf "/tmp/rf/$N"
