#!/bin/bash
# mkseed.sh <id> <property>: turns the current diff of /repo + stdin(demo.cpp) into /verif/seeded/<id>; NEEDS/BREAKS from env
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo empty diff; exit 1; }
git -C /repo checkout -- .
cp /verif/tools/demo.sh $D/demo.sh; cat > $D/demo.cpp
python3 - "$2" "$NEEDS" "$BREAKS" > $D/meta.json <<'P'
import json,sys; print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
