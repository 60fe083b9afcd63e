#!/bin/bash
# try.sh ID: patch in /verif/seeded/ID; verify in scratch copy /tmp/bugs/wt; then the check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
wt=/tmp/bugs/repo
if [ ! -d $wt ]; then cp -a /repo $wt; fi
cd $wt && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target
run() { (sed "s#/repo#$wt#g" /opt/vp/build.sh >/tmp/bugs/build.sh; bash /tmp/bugs/build.sh) >/tmp/bugs/build.log 2>&1; }
if [ "$2" != check ]; then
run || echo CLEAN BUILD FAIL
rm -rf /tmp/bugs/demo; mkdir /tmp/bugs/demo; cp -r $d/. /tmp/bugs/demo/; rm -f /tmp/bugs/demo/*.diff /tmp/bugs/demo/meta.json
t0=$(date +%s); (cd $wt; timeout 300 bash /tmp/bugs/demo/demo.sh) >/tmp/bugs/demo.clean 2>&1; echo "$id demo clean rc=$? ($(( $(date +%s)-t0 ))s)"
git apply $d/patch.diff || { echo APPLY FAIL; exit 1; }
run || { echo PATCHED BUILD FAIL; tail -20 /tmp/bugs/build.log; }
cargo test --workspace --exclude dm-langserver --no-fail-fast --offline > /tmp/bugs/test.log 2>&1; echo "tests: $(grep -c '^test .* ok$' /tmp/bugs/test.log) ok; failed: $(grep -c '^test .*FAILED' /tmp/bugs/test.log)"
(cd $wt; timeout 300 bash /tmp/bugs/demo/demo.sh) >/tmp/bugs/demo.bad 2>&1; echo "$id demo patched rc=$?"
git checkout -q -f .
fi
cd /repo && git apply $d/patch.diff && (cd /verif; ./run.sh $prop > /tmp/bugs/check.$id.log 2>&1; echo "$id check $prop rc=$? $(grep -h VIOLATION /tmp/bugs/check.$id.log)"; grep "violation class" /tmp/bugs/check.$id.log | cut -c1-200); git -C /repo checkout -- .
