#!/bin/bash
# runs the stable tests on a snapshot of /repo's working tree, in a private mount namespace
W=$(mktemp -d /tmp/nst.XXXX); cp -a /repo "$W/repo"
cat > "$W/run.sh" <<X
mount --bind $W/repo /repo || exit 9
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1; python3 /verif/tools/cmpbase.py $W/out.json
X
unshare -Urm bash "$W/run.sh"; r=$?; rm -rf "$W"; exit $r
