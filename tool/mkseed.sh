#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": takes the diff of /tmp/w/repo and demo on stdin
d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$1; mkdir -p "$d"
git -C /tmp/w/repo diff > "$d/patch.diff"; git -C /tmp/w/repo checkout -q -- .
cat > "$d/demo.sh"
python3 - "$d/meta.json" "$2" "$3" "$4" <<'E2'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
E2
wc -l "$d/patch.diff"
