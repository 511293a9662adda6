#!/bin/bash
# show.sh PROP: run a check and list undecided and violated obligations briefly
cd /verif && VP_DEBUG=1 python3 check.py $1 2>&1 | tail -${N:-30} | cut -c1-300; python3 - $1 <<'P'
import json,sys
c=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))["coverage"]
for u in c.get("undecided_list",[])[:25]: print("UND",str(u)[:330])
P
