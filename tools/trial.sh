#!/bin/bash
# trial.sh ID [PROP..]: does the planted bug count, and which checks report it?
id=$1; shift; d=/verif/seeded/$id; p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 1; }
(bash "$d/demo.sh" >/tmp/trial.$id.clean 2>&1); echo "$id demo clean: $?"
git apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/trial.$id.build 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/trial.$id.json >/tmp/trial.$id.test 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/trial.$id.json'))
print('$id stable tests failing:',[x for x in b['stable'] if x not in o['passed']])"
fi
(bash "$d/demo.sh" >/tmp/trial.$id.bug 2>&1); echo "$id demo with bug: $?"; tail -2 /tmp/trial.$id.bug
for c in $p; do (cd /verif; python3 run.py $c > /tmp/trial.$id.$c 2>&1; echo "$id check $c: rc $?"; tail -3 /tmp/trial.$id.$c | cut -c1-200); done
