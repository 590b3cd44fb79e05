#!/bin/bash
# tools/seedcheck.sh ID...   the property's check on each patch
for ID in "$@"; do P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
echo "$ID $P: $(LINES_MAX=3 bash /verif/tools/try.sh /verif/seeded/$ID/patch.diff $P | tr '\n' '|' | cut -c1-260)"; done
