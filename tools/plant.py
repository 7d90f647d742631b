#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py FILE.py

FILE.py appends dicts to BUGS: id, property, edits [(file, old, new)], needs,
breaks, demo (Python source; exit status nonzero on failure).  Each is tried in
a scratch copy of /repo; kept only if it builds, passes the tests, and the demo
tells the two apart.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
BUGS = []
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
for b in BUGS:
    if only and b['id'] not in only:
        continue
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', '-C', repo, 'diff'], check=True, stdout=subprocess.PIPE, text=True).stdout
        s = os.path.join(d, 'seed')
        os.mkdir(s)
        open(os.path.join(s, 'demo.py'), 'w').write(b['demo'].lstrip())
        open(os.path.join(s, 'demo.sh'), 'w').write('#!/bin/bash\n'
            '# run with cwd /repo\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            + b.get('run', 'timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"') + '\n')
        res = []
        for r in '/repo', repo:
            q = subprocess.run(['bash', os.path.join(s, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append(q.returncode)
            tail = q.stdout[-500:]
            if r == '/repo' and q.returncode:
                print(q.stdout[-1500:])
        # tests against the copy
        t = os.path.join(d, 't.json')
        env = dict(os.environ, PYTHONPATH=repo)
        old = subprocess.run(['git', '-C', '/repo', 'apply', '-'], input=patch, text=True)
        assert old.returncode == 0
        try:
            subprocess.run(['bash', '/opt/vp/test.sh', t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        n = json.load(open(t))
        good = res[0] == 0 and res[1] != 0 and not n['failed'] and len(n['passed']) >= 58
        print(b['id'], 'demo', res, 'tests', len(n['passed']), n['failed'], 'KEPT' if good else 'REJECTED', tail.strip().split('\n')[-1][:100])
        if good:
            out = os.path.join(V, 'seeded', b['id'])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(s, out)
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)
