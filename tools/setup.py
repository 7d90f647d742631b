#!/usr/bin/env python3
"""Offline setup: make sure all specifications parse (nothing to build)."""
import glob, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
files = sorted(glob.glob(os.path.join(V, 'spec', '*.tla')))
p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY'] + [os.path.basename(f) for f in files],
    cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode or any(w in p.stdout for w in ('Fatal error', 'Semantic error', 'Parse Error', 'Lexical error', 'Could not parse')):
    print(p.stdout[-3000:])
    sys.exit(1)
print(len(files), 'specification modules parse')
