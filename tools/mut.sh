#!/bin/bash
# mut.sh 'sed-expr' file CHECK...   : run checks against a mutated copy of /repo
rm -rf /tmp/mrepo; mkdir -p /tmp/mrepo; cp -a /repo/include /repo/src /tmp/mrepo/
sed -i "$1" /tmp/mrepo/include/crab/$2
diff -r /repo/include /tmp/mrepo/include | head -6
shift 2
for c in "$@"; do VERIF_REPO=/tmp/mrepo python3 /verif/check.py $c; echo "rc=$?"; done
