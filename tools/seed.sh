#!/bin/bash
# seed.sh ID [notest] [nocheck]: confirms one planted change in a scratch copy bound over /repo in a private mount namespace
id=$1; shift; S=/verif/seeded/$id
if [ -z "$VP_IN_NS" ]; then
  W=$(mktemp -d /tmp/seed-XXXX); cp -a /repo "$W/repo"; cp -r $S "$W/demo"; rm -f "$W"/demo/patch.diff "$W"/demo/meta.json
  VP_IN_NS=1 W=$W unshare -m bash "$0" $id "$@"; rc=$?; rm -rf "$W"; exit $rc
fi
mount --bind "$W/repo" /repo || exit 9
cd /repo; git checkout -q -- .; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: base build fails"; exit 9; }
timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id: does not apply"; exit 9; }
bash /opt/vp/build.sh > $W/b.log 2>&1 || { echo "$id: does not build"; tail -5 $W/b.log; exit 9; }
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; d1=$?
t=skipped
if [[ " $* " != *" notest "* ]]; then bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/out.json'));b=b.get('passed') or b.get('stable') or b.get('tests') or b
f=sorted(set(b)-set(o['passed']));print('pass' if not f else 'FAIL %d %s'%(len(f),f[:2]))"); fi
c=skipped
case $prop in C17) cmd="/opt/veriftools/pyvenv/bin/python3 pywrap/check.py";; C19) cmd="/opt/veriftools/pyvenv/bin/python3 f90wrap/check.py";; *) cmd="python3 run.py";; esac
if [[ " $* " != *" nocheck "* ]]; then (cd /verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 $cmd $prop) > $W/c.log 2>&1; c="rc=$? $(grep -a VIOLATION $W/c.log | head -1)"; [[ $c == rc=1* ]] || tail -5 $W/c.log; grep -a "^counterexample (job" $W/c.log; fi
echo "$id prop=$prop demo(base)=$d0 demo(patched)=$d1 tests=$t check: $c"
[ $d0 = 0 ] || tail -5 $W/d0.log; tail -2 $W/d1.log
