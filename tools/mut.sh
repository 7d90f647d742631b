#!/bin/bash
# tools/mut.sh 'FILE' 'OLD' 'NEW' CHECK...: run checks against a mutated copy of /repo
f="$1"; old="$2"; new="$3"; shift 3
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/elphmod "$d/elphmod"
OLD="$old" NEW="$new" F="$d/$f" python3 - <<'P' || { rm -r "$d"; exit 9; }
import os
s=open(os.environ['F']).read(); o=os.environ['OLD']
assert o in s, 'pattern not found'
open(os.environ['F'],'w').write(s.replace(o, os.environ['NEW'], 1))
P
for c in "$@"; do VERIF_REPO="$d" python3 /verif/check.py "$c" 2>&1 | tail -${TAIL:-3}; done
rm -r "$d"
