#!/bin/bash
# dev helper: run check $1 over several seeds
for s in ${2:-2 3 4 5 6 7}; do VERIF_SEED=$s timeout 300 ./check.sh $1 >/tmp/o$s.txt 2>&1; head -1 /tmp/o$s.txt; grep -A12 VIOLATION /tmp/o$s.txt | head -${3:-16}; done
