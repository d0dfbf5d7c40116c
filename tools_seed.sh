#!/bin/bash
# tools_seed.sh ID PROPERTY "needs" "breaks"  -- record the diff in /tmp/w as a seeded bug (demo.sh written separately)
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
git -C /tmp/w checkout -q -- .
wc -l $d/patch.diff
