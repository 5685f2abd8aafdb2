#!/bin/bash
# unfix.sh [PROPERTY]: reverts each fix: commit in a scratch clone and runs the property's check, expecting exit 1
cd "$(dirname "$0")/.."; python3 - "$1" <<'P' | while read -r p c; do
import json, sys
for k in json.load(open('known_findings.json'))['findings']:
    f = k['entry'].split(); p = f[1].split('=')[1]
    if not sys.argv[1] or p == sys.argv[1]: print(p, f[2])
P
  W=$(mktemp -d /tmp/unfix-XXXX); git clone -q /repo $W/r
  if ! git -C $W/r revert -n $c >/dev/null 2>&1; then echo "$p $c: later commits build on it, cannot be reverted alone"; rm -rf "$W"; continue; fi
  case $p in C17) cmd="/opt/veriftools/pyvenv/bin/python3 pywrap/check.py";; C19) cmd="/opt/veriftools/pyvenv/bin/python3 f90wrap/check.py";; *) cmd="python3 run.py";; esac
  VP_REPO=$W/r $cmd $p > $W/log 2>&1 < /dev/null; rc=$?; echo "$p $c: rc=$rc $(grep -a '^counterexample' $W/log | head -1 | cut -c1-120)"; rm -rf "$W"
done
