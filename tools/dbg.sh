#!/bin/sh
# tools/dbg.sh DRIVER REPLAY.json : build with -g -O0 in /tmp/dbg and run the replay's script in gdb (extra gdb args from stdin)
mkdir -p /tmp/dbg; cd /tmp/dbg
F="-std=gnu++17 -O0 -g -DCRAB_COMPILE=1 -I/repo/include -I/verif/harness -w"
for s in /repo/src/crab.cpp /verif/harness/fk.cpp /verif/harness/$1.cpp; do g++ $F -c $s -o $(basename $s .cpp).o & done; wait
g++ crab.o fk.o $1.o -o $1 -pthread -ldl
python3 -c "import json,sys;print(json.load(open('$2'))['script'])" > script.txt
