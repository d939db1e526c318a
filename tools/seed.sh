#!/bin/bash
# seed.sh <seed id> [--nobuild]: confirm a planted bug in a scratch copy of /repo (/tmp/sr), inside a private
# mount namespace where the copy takes /repo's place; then run its property's check against it.
set -u
ID=$1
S=/tmp/sr
if [ ! -d $S/repo ]; then mkdir -p $S; cp -a /repo $S/repo; fi
if [ ! -d $S/verif ]; then cp -a /verif $S/verif; fi
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q -f FETCH_HEAD && git -C $S/repo clean -fdq
rsync -a --delete --exclude target --exclude .git /verif/ $S/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./mc/target --exclude=./mcdf/target --exclude=./.git . | tar xf - -C $S/verif)
exec unshare -Urm bash -c '
S=/tmp/sr; ID='$ID'
mount --bind $S/repo /repo; mount --bind $S/verif /verif
mkdir -p /tmp/sr/demo; rm -rf /tmp/sr/demo/$ID; cp -r /verif/seeded/$ID /tmp/sr/demo/$ID
P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$ID/meta.json\"))[\"property\"])")
cd /repo
bash /tmp/sr/demo/$ID/demo.sh >/tmp/sr/demo0.log 2>&1; echo "demo on unchanged tree: $?"
git -c safe.directory=/repo apply /verif/seeded/$ID/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/sr/build.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/sr/out.json >/tmp/sr/test.log 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/sr/out.json"))
s=b["stable"]; p=set(o["passed"])
print("stable tests failing:", [x for x in s if x not in p])
PY
bash /tmp/sr/demo/$ID/demo.sh >/tmp/sr/demo1.log 2>&1; echo "demo with the change: $?"
for p in $P ${ALSO:-}; do /verif/check.sh $p quick > /tmp/sr/check-$p.log 2>&1; echo "check $p: exit $?"; grep -E "VIOLATION|^$p:" /tmp/sr/check-$p.log; done
git -c safe.directory=/repo checkout -q -- .
'
