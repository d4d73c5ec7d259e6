#!/bin/bash
# allunits.sh: every unit against REPO (default /repo); prints those that are not fully verified
V="$(cd "$(dirname "$0")/.." && pwd)"; R=${REPO:-/repo}; D=$(mktemp -d)
one() { u=$1; cd "$V/units"; "$V/.build/vx/debug/vx" $u.vx $R lib $D/$u.rs $D/$u.json 2>$D/$u.err || { echo "$u: extraction failed: $(tail -1 $D/$u.err)"; return; }
  cd $D; timeout 600 verus $u.rs --triggers-mode silent --num-threads 2 >$D/$u.out 2>&1; grep -h "verification results" $D/$u.out | sed "s/^/$u: /" || true; grep -q "0 errors" $D/$u.out || { echo "$u: NOT OK"; grep -m3 ^error $D/$u.out; }; }
export -f one; export V R D
ls "$V"/units/*.vx | xargs -n1 basename | sed 's/.vx$//' | xargs -P 4 -I{} bash -c 'one {}'
rm -r "$D"
