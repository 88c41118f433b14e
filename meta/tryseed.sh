#!/bin/bash
# tryseed.sh ID : applies seeded/ID, builds, tests, runs the demo and the property's check, undoes it and runs the demo again
ID=$1; D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git -C /repo apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.b.log 2>&1 || echo "$ID: BUILD FAILED"
[ -n "${NOTEST:-}" ] || { bash /opt/vp/test.sh /tmp/seed.t.json >/tmp/seed.t.log 2>&1; echo "$ID tests: $(tail -c 19 /tmp/seed.t.log)"; }
bash $D/demo.sh >/tmp/seed.d.log 2>&1; echo "$ID demo with patch: $?"; tail -3 /tmp/seed.d.log | cut -c1-200
cd /verif; ./check $PROP quick >/tmp/seed.c.log 2>&1; echo "$ID check $PROP: $?"; grep -B3 -A1 "    at " /tmp/seed.c.log | head -8 | cut -c1-250
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed.b.log 2>&1
bash $D/demo.sh >/tmp/seed.d0.log 2>&1; echo "$ID demo without: $?"
