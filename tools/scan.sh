#!/bin/bash
# dev helper: run several properties with N cases; scan.sh N P...
n=$1; shift
for p in "$@"; do echo "== $p"; timeout 900 ${X:-/verif/build/t/simx} --prop $p --cases $n --seed ${S:-1} --shrink 15 --out /tmp/o_$p.json --replaydir /tmp/rp 2>&1 | tail -7 | cut -c1-${W:-900}; done
