#!/bin/bash
# trybug.sh ID [notest]: apply seeded/ID to /repo, build, run its demo (and the tests), run its check; undo everything.
R=${VP_REPO:-/repo}; V=${VP_OPT:-/opt/vp}; id=$1; d=$(ls -d /verif/seeded*/$id); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $R || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo dirty; exit 2; }
bash $V/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo unpatched rc=$?"
git apply $d/patch.diff || exit 2
trap 'git -C $R checkout -- . ; bash $V/build.sh >/dev/null 2>&1' EXIT
bash $V/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched rc=$?"
if [ "$2" != notest ]; then bash $V/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
bs=b.get('passed') or b.get('stable') or b
print('baseline tests lost:', sorted(set(bs)-set(t['passed'])) if isinstance(bs,list) else list(b)[:5])
P
fi
[ "$2" = nocheck ] || { cd /verif; bash check.sh $p quick 2>&1 | tail -12; }
