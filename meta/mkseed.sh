#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" < demo.cpp ; takes the patch from the scratch worktree $WT (default /tmp/wt)
# confirms: builds, stable tests pass, demo fails with the patch and passes without it
set -e
ID=$1; PROP=$2; NEEDS=$3; WHAT=$4; CFG=${CFG:-}
WT=${WT:-/tmp/wt}
D=/verif/seeded/$ID; mkdir -p $D
cat > $D/demo.cpp
git -C $WT diff > $D/patch.diff
test -s $D/patch.diff
cat > $D/demo.sh <<'S'
#!/bin/bash
# run in the repository root after the build
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
S
if [ "$CFG" = reuse ]; then
cat >> $D/demo.sh <<'S'
mkdir -p "$tmp/inc/XAD"; cp _build/default/src/XAD/*.hpp "$tmp/inc/XAD/"
sed -i 's@.*XAD_TAPE_REUSE_SLOTS.*@#define XAD_TAPE_REUSE_SLOTS@' "$tmp/inc/XAD/Config.hpp"
g++ -std=c++17 -O1 -I"$tmp/inc" -Isrc "$here/demo.cpp" src/Tape.cpp -o "$tmp/demo" -pthread
S
else
cat >> $D/demo.sh <<'S'
g++ -std=c++17 -O1 -I_build/default/src -Isrc "$here/demo.cpp" src/Tape.cpp -o "$tmp/demo" -pthread
S
fi
echo 'timeout 120 "$tmp/demo"' >> $D/demo.sh
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /repo && bash $D/demo.sh 2>&1 | tail -5; exit ${PIPESTATUS[0]}) || { echo "DEMO FAILS ON CLEAN"; exit 1; }
if (cd $WT && bash $D/demo.sh 2>&1 | tail -5; exit ${PIPESTATUS[0]}); then echo "DEMO PASSES WITH PATCH"; exit 1; fi
echo "$ID demo ok"
