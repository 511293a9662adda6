#!/bin/bash
# all.sh: run every check and print a one-line summary of each
cd /verif
for p in ${*:-$(ls vp/checks/p[0-9][0-9].py | sed 's/.*p\([0-9]*\).py/P\1/')}; do s=$(date +%s); timeout 850 python3 check.py $p > /tmp/o_$p.txt 2>&1; rc=$?; python3 - $p $rc $(( $(date +%s)-s )) <<'P'
import json,sys
c=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))["coverage"]
print(sys.argv[1],"rc",sys.argv[2],sys.argv[3]+"s",{k:v for k,v in c.items() if isinstance(v,int)})
P
done
