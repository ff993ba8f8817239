#!/bin/bash
# The simulator's own primitives: correctly synchronised code is quiet, wrong code is reported.
cd "$(dirname "$0")/.." || exit 2
python3 check.py S00 --build-only || exit 2
bad=0
for s in $(grep -o '{"[a-z_]*", [a-z_]*, 1}' harness/S00.cpp | cut -d'"' -f2); do
    timeout 120 build/S00/sim_S00 --seed 1 --out /tmp --runs 1500 --seconds 5 --scenario $s > build/S00/log 2>&1; rc=$?
    case $s in ok_*) w=0;; *) w=1;; esac
    if [ $rc = $w ]; then echo "$s: as expected ($rc)"; else echo "$s: UNEXPECTED $rc"; grep -v '^$' build/S00/log | tail -4; bad=1; fi
done
exit $bad
