#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS: main.go on stdin; lays the files of a planted bug out (patch.diff: mkseed.py)
d=/verif/seeded/$1; mkdir -p $d; cat > $d/main.go
cp /verif/tools/seedrig/demo.sh $d/
grep -q "boot(\|bootCoordinator(\|newPeer(\|start(" $d/main.go && cp /verif/tools/seedrig/rig.go $d/
grep -q "newFakeServer(" $d/main.go && cp /verif/tools/seedrig/fake.go $d/
gofmt -w $d/main.go
python3 - "$@" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
