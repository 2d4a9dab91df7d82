#!/bin/bash
# usage: tools/mutant.sh ID-or-patch [--tests] [--check C08,...] [--nodemo]
# Private mount namespace: a copy of /repo (patched), /verif and /opt/vp over the real ones.
id=$1; shift
tests=0; demo=1; chk=
while [ $# -gt 0 ]; do case $1 in --tests) tests=1;; --check) chk=$2; shift;; --nodemo) demo=0;; esac; shift; done
W=$(mktemp -d /tmp/mut_XXXXXX)
cp -a /repo $W/repo; cp -a /verif $W/verif; cp -a /opt/vp $W/vp
if [ -d /verif/seeded/$id ]; then D=$W/verif/seeded/$id; P=$D/patch.diff; else D=; P=$(realpath $id); demo=0; fi
[ -z "$chk" ] && [ -n "$D" ] && chk=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export W D P tests demo chk id
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo
if [ $demo = 1 ]; then timeout 300 bash $W/verif/seeded/$id/demo.sh > $W/demo0.log 2>&1; echo "demo clean: $?"; git checkout -q -- . ; fi
git apply $P || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1; echo "build: $?"
if [ $demo = 1 ]; then timeout 300 bash $W/verif/seeded/$id/demo.sh > $W/demo1.log 2>&1; echo "demo patched: $?"; tail -3 $W/demo1.log; fi
for c in ${chk//,/ }; do ( cd /verif; timeout 900 ./check $c > $W/check.log 2>&1; echo "check $c: $?"; grep -v "^HARNESS" $W/check.log | tail -5 | cut -c1-400 ); done
if [ $tests = 1 ]; then bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; tail -1 $W/t.log; python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); p=set(json.load(open(\"$W/t.json\"))[\"passed\"])
print(\"stable lost:\", sorted(b-p))"; fi
'
rm -rf "$W"
