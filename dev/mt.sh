#!/bin/bash
# mt.sh MUT.json K CHECK : one mutant against one check
python3 -c "import json,sys; open('/tmp/w/mt.diff','w').write(json.load(open('$1'))[$2][1])"
cd /tmp/w/s1 && git checkout -q . && git apply /tmp/w/mt.diff && cd /verif && VERIF_VERBOSE=1 VERIF_REPO=/tmp/w/s1 VERIF_EVIDENCE=/tmp/w timeout 900 python3 check.py $3 quick > /tmp/w/mt.txt 2>&1; grep -v "^ *discharged" /tmp/w/mt.txt | cut -c1-300 | head -${4:-12}; cd /tmp/w/s1 && git checkout -q .
