#!/bin/bash
# run all checks, print the summary lines
cd /verif; for i in $(python3 -c "import json;print(*json.load(open('props/index.json')))"); do tools/t.sh $i | tail -${N:-4}; done
