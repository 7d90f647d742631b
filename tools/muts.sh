#!/bin/bash
# tools/muts.sh CHECK < lines 'FILE|OLD|NEW'
while read -r l; do f="${l%%@@*}"; l="${l#*@@}"; o="${l%%@@*}"; n="${l#*@@}"; echo "== $f: $o -> $n"; TAIL=2 bash /verif/tools/mut.sh "elphmod/$f" "$o" "$n" "$1" 2>&1 | cut -c1-160; done
