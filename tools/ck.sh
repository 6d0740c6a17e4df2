#!/bin/bash
# tools/ck.sh Cxx [events]: run a check and show its first replays
cd /verif; python3 check.py $1 2>&1 | tail -8; for i in 1 2 3; do f=evidence/replays/$1-$i.json; [ -f $f ] && [ $f -nt /tmp/ck_$1 ] && python3 tools/show.py $f ${2:-26} | cut -c1-${3:-400} && echo; done; touch /tmp/ck_$1
