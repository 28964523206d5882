#!/bin/bash
# runseed.sh ID...: run the check of the seed's property against a patched copy of /repo
for id in "$@"; do
S=/verif/seeded/$id; W=$(mktemp -d /tmp/rs_XXXXXX); git clone -q /repo $W/r; git -C $W/r apply $S/patch.diff 2>/dev/null
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
o=$(cd /verif; VERIF_REPO=$W/r timeout 900 ./check.py --property ${P:-$p} $OPT 2>&1); rc=$?
echo "$id rc=$rc $(echo "$o" | grep -E 'VIOLATION|failing input|Error' | cut -c1-260 | tr '\n' ' ') $(echo "$o"|tail -1|cut -c1-120)"
rm -rf $W
done
