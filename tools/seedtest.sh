#!/bin/bash
# usage: seedtest.sh ID [check...]   validates a planted bug in a throw-away application to /repo and runs the checks named
cd /repo || exit 1
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
D=/verif/seeded/$1; shift
git apply --check "$D/patch.diff" || exit 1
[ -z "$NOCLEAN" ] && { bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash "$D/demo.sh"; echo "demo on clean tree: $? (want 0)"; }
git apply "$D/patch.diff"
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; echo "build: $?"
bash "$D/demo.sh"; echo "demo on patched tree: $? (want nonzero)"
[ -z "$NOTEST" ] && bash /opt/vp/test.sh /tmp/seed-out.json | tail -1
for c in "$@"; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 checks/$c.py 2>&1 | grep -v KNOWN | cut -c1-300); done
git -C /repo checkout -- .
