#!/bin/bash
# try.sh ID...: applies each seeded change in a copy of /repo, builds, tests, runs the demo and the property's check
# (a copy of the sandbox paths is not possible: /opt/vp scripts work on /repo, so /repo is changed and restored)
for i in "$@"; do
  S=/verif/seeded/$i
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || { echo "$i: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/try.b 2>&1 || { echo "$i: does not build"; tail -5 /tmp/try.b; git -C /repo checkout -- .; continue; }
  bash /opt/vp/test.sh /tmp/try.json >/dev/null 2>&1
  T=$(python3 -c "import json;r=json.load(open('/tmp/try.json'));print(len(r['passed']),len(r['failed']), r['failed'][:3])")
  (cd /repo; bash $S/demo.sh >/tmp/try.d 2>&1); DS=$?
  (cd /verif; python3 check.py $P --tier quick >/tmp/try.c 2>&1); CS=$?
  echo "$i: tests $T; demo $DS ($(tail -1 /tmp/try.d | cut -c1-120)); $P check $CS: $(tail -1 /tmp/try.c | cut -c1-100)"
  sed -n 1,2p /tmp/try.c | cut -c1-250
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh >/tmp/try.b 2>&1
for i in "$@"; do (cd /repo; bash /verif/seeded/$i/demo.sh >/tmp/try.d 2>&1); echo "$i: clean demo $? $(tail -1 /tmp/try.d | cut -c1-120)"; done
