#!/bin/bash
# mkseed.sh ID PROPERTY DEMO_TEST.go "needs" "breaks" : takes the working tree change of
# the scratch worktree $WT as a planted bug, after confirming everything a planted bug must be.
set -u
WT=${WT:-/tmp/wt}
id=$1 prop=$2 demo=$3 needs=$4 breaks=$5
d=/verif/seeded/$id
. /opt/vp/env.sh
mkdir -p "$d"
git -C "$WT" diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
here=/verif/tools/demo
cp $here/lib_test.go $here/demo.sh "$d/"
cp "$demo" "$d/demo_test.go"
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
git -C /repo apply --check "$d/patch.diff" || { echo "patch does not apply"; exit 1; }
(cd /repo && bash "$d/demo.sh" >/tmp/demo.ok 2>&1) || { echo "demo fails on the unchanged tree"; tail -30 /tmp/demo.ok; exit 1; }
(cd "$WT" && bash "$d/demo.sh" >/tmp/demo.bad 2>&1) && { echo "demo passes with the change"; exit 1; }
grep -q "build failed\|setup failed" /tmp/demo.bad && { echo "does not build"; tail -5 /tmp/demo.bad; exit 1; }
(cd "$WT" && GOWORK=off && printf 'go 1.18\nuse (\n\t%s\n\t%s/activity/subflow\n)\n' "$WT" "$WT" >/tmp/seed.work && export GOWORK=/tmp/seed.work &&
 go build ./... ./activity/subflow/... && pkgs=$(go list -e ./... ./activity/subflow/... | grep -vx 'github.com/project-flogo/flow/instance') &&
 go test -json -vet=off -count=1 -timeout 5m $pkgs >/tmp/seed.log 2>&1; python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json'))
ok=set();bad=set()
for l in open('/tmp/seed.log'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail'):
        (ok if e['Action']=='pass' else bad).add(e['Package']+'/'+e['Test'])
print('tests: %d passed, %d failed: %s'%(len(ok),len(bad),sorted(bad)))
P
)
tail -4 /tmp/demo.bad | cut -c1-300
git -C "$WT" checkout -q -- .
echo "seeded $id"
