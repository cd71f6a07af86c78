#!/bin/bash
# try.sh <seed id> [props...]: run checks against a planted bug in a scratch copy
d=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo/. $d/
git -C $d apply /verif/seeded/$1/patch.diff || exit 3
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
shift
for q in ${@:-$p}; do VERIF_REPO=$d SA_EVIDENCE=$d/ev SA_VERBOSE=1 python3 /verif/check.py $q; done
rm -rf "$d"
