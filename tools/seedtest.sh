#!/bin/bash
# seedtest.sh ID [notest]: in a scratch copy of /repo mounted over /repo in a private namespace: demo passes, patch applies, builds,
# stable tests pass, demo fails
ID=$1; W=/tmp/sr-$ID; rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; rm -rf "$W/repo/_build/test"
mkdir -p "$W/seed"; cp /verif/seeded/$ID/* "$W/seed/"
cat > "$W/run.sh" <<X
mount --bind $W/repo /repo || exit 9
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$ID: base build failed"; exit 1; }
bash $W/seed/demo.sh > $W/demo0.log 2>&1; r0=\$?
git apply $W/seed/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID: build fails"; tail -5 $W/build.log; exit 1; }
bash $W/seed/demo.sh > $W/demo1.log 2>&1; r1=\$?
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1; t=\$(python3 /verif/tools/cmpbase.py $W/out.json); fi
echo "$ID: demo base \$r0 patched \$r1 tests: \$t"
X
unshare -Urm bash "$W/run.sh"
tail -3 "$W/demo1.log"
rm -rf "$W"
