#!/bin/bash
# try.sh SEED [PROPS...]: run checks against one planted bug, then undo it
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
p=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
cd /verif && python3 check.py $p | grep -E "obligations|^violated|VIOLATION" | head -${N:-6} | cut -c1-220
git -C /repo checkout -- .
