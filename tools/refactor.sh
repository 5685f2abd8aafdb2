#!/bin/bash
# refactor.sh NAME PROP...: runs checks on a scratch copy of /repo with one behaviour-preserving edit, bound over /repo in a private mount namespace
name=$1; shift
if [ -z "$VP_IN_NS" ]; then
  W=$(mktemp -d /tmp/ref-XXXX); git clone -q /repo "$W/repo"; python3 /verif/tools/refactors.py "$W/repo" $name >/dev/null || { rm -rf "$W"; exit 9; }
  VP_IN_NS=1 W=$W unshare -m bash "$0" $name "$@"; rc=$?; rm -rf "$W"; exit $rc
fi
mount --bind "$W/repo" /repo || exit 9
cd /verif; for p in "$@"; do VERIF_TIER=quick timeout 900 python3 run.py $p > $W/log 2>&1; rc=$?; echo "$name $p rc=$rc $(grep -a "quick:" $W/log | grep -o "wall.*")"; [ $rc = 0 ] || head -c 3000 $W/log; done
