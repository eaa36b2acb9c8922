#!/bin/sh
# apply_seed.sh ID CHECK...
rm -rf /tmp/ap_$1; cp -r /repo/include /tmp/ap_$1; (cd /tmp/ap_$1 && sed 's#a/include/#a/#;s#b/include/#b/#' /verif/seeded/$1/patch.diff | patch -s -p1) ; id=$1; shift
for c in "$@"; do python3 /verif/run.py $c --include /tmp/ap_$id --no-evidence | tail -3 | cut -c1-300; done; rm -rf "/tmp/ap_$id"
