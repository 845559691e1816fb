#!/usr/bin/env python3
"""For every planted bug: which checks catch it.  Not run by any check.
usage: catch_table.py OUT.json [check ...]   (in addition to each bug's own)"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = sys.argv[2:]
out = {}
if os.path.exists(sys.argv[1]):
    out = json.load(open(sys.argv[1]))
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    own = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='catch', dir='/dev/shm')
    r = os.path.join(d, 'r')
    shutil.copytree('/repo', r, symlinks=True)
    subprocess.check_call(['git', '-C', r, 'apply', os.path.join(HERE, 'seeded', b, 'patch.diff')])
    got = out.setdefault(b, {})
    mine = [own] + ([p for p in extra if p[0] == 'C' and p != own] if own[0] == 'C' else [])
    for p in mine:
        if p in got:
            continue
        q = subprocess.run([sys.executable, 'run.py', p], cwd=HERE, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        got[p] = q.returncode
        json.dump(out, open(sys.argv[1], 'w'), indent=1)
    print(b, ' '.join(p for p in got if got[p] == 1), '| exit 2: ' + ' '.join(p for p in got if got[p] == 2) if 2 in got.values() else '', flush=True)
    shutil.rmtree(d)
