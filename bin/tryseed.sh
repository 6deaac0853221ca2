#!/bin/bash
# tryseed.sh ID [PID]: confirms a planted bug in a scratch copy of /repo (builds, tests pass, demonstration),
# then runs the check of its property against it
id=$1; d=/verif/seeded/$id
pid=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo not clean"; exit 9; }
(cd /repo && bash "$d/demo.sh" >/tmp/ts.$id.clean 2>&1); c=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/ts.$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/ts.$id.json >/dev/null 2>&1
t=$(python3 -c "import json;d=json.load(open('/tmp/ts.$id.json'));print(len(d['passed']),len(d['failed']))")
(cd /repo && bash "$d/demo.sh" >/tmp/ts.$id.bug 2>&1); p=$?
out=$(cd /verif && python3 bin/check.py $pid 2>&1 | grep -v KNOWN | tail -3); 
echo "$id: demo clean=$c buggy=$p ($(tail -1 /tmp/ts.$id.bug | cut -c1-150)) build=$b tests=$t"
echo "   $pid: $out"
