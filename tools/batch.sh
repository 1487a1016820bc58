#!/bin/bash
# tools/batch.sh WORLD PROP SEED0 SECONDS : 8 workers, summary
cd /verif; exe=$(python3 build.py) || exit 1
mkdir -p /tmp/bt; for i in 0 1 2 3 4 5 6 7; do mkdir -p /tmp/bt/$2.$i; (cd /tmp/bt/$2.$i; $exe batch $1 $2 $(($3+i)) 8 1000000 $4 /tmp/bt/$2.$i $5 >/tmp/bt/$2.$i.out 2>/tmp/bt/$2.$i.err) & done; wait
echo "$2 runs $(cat /tmp/bt/$2.?.out | grep -P "^S\truns" | cut -f3 | paste -sd+ | bc) bad: $(grep -h "^R" /tmp/bt/$2.?.out | grep -v " OK" | cut -c1-300 | head -5)"
grep -h '^V' /tmp/bt/$2.?.out | cut -c1-300| head -${6:-5}
