#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS DEMO.cpp : keeps the current change of /repo's working tree as /verif/seeded/ID, tries it and undoes it
set -u
ID=$1; PROP=$2; D=/verif/seeded/$ID
mkdir -p $D
git -C /repo diff > $D/patch.diff
cp "$5" $D/demo.cpp
cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
EXTRA=""; [ -f "$D/flags" ] && EXTRA=$(cat "$D/flags")
g++ -O1 -w $EXTRA -I/repo/_build/src -I/repo/src/include -I/repo/src/idf -o "$T/demo" "$D/demo.cpp" /repo/_build/src/idf/libidf3.a /repo/_build/src/libiges_static.a -lsisl || exit 2
cd "$T" && timeout 120 ./demo
X
chmod +x $D/demo.sh
python3 - "$PROP" "$3" "$4" > $D/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
git -C /repo checkout -- .
bash /verif/meta/tryseed.sh $ID
