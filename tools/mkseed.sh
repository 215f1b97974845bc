#!/bin/bash
# mkseed.sh id property "needs" "what"   -- stores /repo's working-tree diff as a seeded bug and reverts it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
test -s $d/patch.diff
python3 - "$@" > $d/meta.json <<'P'
import json,sys; print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
