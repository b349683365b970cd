#!/bin/bash
# seedtest.sh ID [--tests] : validate a planted bug and see which checks notice
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -n "$(git status --porcelain --untracked-files=no)" ] && { echo "repo dirty"; exit 1; }
copy=$(mktemp -d); cp $d/* $copy/; rm -f $copy/*.diff $copy/meta.json
t0=$(date +%s); (timeout 300 bash $copy/demo.sh >$copy/out0 2>&1); r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$copy/build 2>&1 || { echo BUILD FAILED; tail -5 $copy/build; }
(timeout 300 bash $copy/demo.sh >$copy/out1 2>&1); r1=$?
tests=-; if [ "$2" = --tests ]; then bash /opt/vp/test.sh $copy/t.json >/dev/null 2>&1; tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$copy/t.json'))
base=b.get('passed') or b.get('stable') or b
print('missing:', sorted(set(base)-set(t['passed']))[:5])
P
); fi
cd /verif; python3 check.py $prop >$copy/chk 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id [$prop] demo clean=$r0 patched=$r1 check=$rc tests=$tests time=$(( $(date +%s)-t0 ))"
[ $r0 != 0 ] && tail -3 $copy/out0
[ $r1 = 0 ] && tail -3 $copy/out1
[ "$rc" = 1 ] && grep -A2 -- '--- rule' $copy/chk | head -${3:-6}
[ "$rc" = 2 ] && grep ANALYSIS $copy/chk | head -5
rm -rf "$copy"
