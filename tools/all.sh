#!/bin/bash
# runs all claimed checks in parallel
cd /verif
for i in $(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])" 2>/dev/null || python3 -c "
import json
print(json.load(open('MANIFEST.json')))"); do echo $i; done | xargs -P 6 -I{} sh -c 'python3 check.py {} -v > /tmp/all.{}.log 2>&1; echo {} $? $(grep obligations /tmp/all.{}.log)'
