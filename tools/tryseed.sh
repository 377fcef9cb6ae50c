#!/bin/bash
# tryseed.sh SEED PID...: run checks against a scratch copy with the planted change
W=$(mktemp -d /tmp/try-XXXX); mkdir $W/repo; cp -a /repo/dhg $W/repo/dhg
(cd $W/repo && patch -s -p1 < /verif/seeded/$1/patch.diff) || exit 3
S=$1; shift
for p in "$@"; do echo "-- $S $p"; DHG_EVIDENCE=$W DHG_REPO=$W/repo python3 /verif/check.py $p | cut -c1-700 | grep -v '^VIOL'; done
rm -rf "$W"
