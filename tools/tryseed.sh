#!/bin/bash
# tryseed.sh ID [--test] [PROP..]: apply a planted bug to /repo, run checks (default: its own property), undo
id=$1; shift
T=; [ "$1" = --test ] && { T=1; shift; }
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
if [ -n "$T" ]; then
  (cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 && bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1; bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; echo "demo with bug rc $?")
fi
for p in $P; do (cd /verif && timeout 900 python3 check.py $p quick 2>&1 | tail -3 | cut -c1-300); done
git -C /repo checkout -- .
if [ -n "$T" ]; then (cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /verif/seeded/$id/demo.sh; echo "demo clean rc $?"); fi
