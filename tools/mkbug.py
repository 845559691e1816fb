#!/usr/bin/env python3
"""mkbug.py ID PROP FILE  (old/new text on stdin separated by =====; several edits by -----)  meta via env NEEDS/BREAKS; demo.c via env DEMO file"""
import sys, os, subprocess, json, shutil, tempfile
id, prop, needs, breaks = sys.argv[1:5]
edits = sys.stdin.read().split('\n-----\n')
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mk')
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
for e in edits:
    head, rest = e.split('\n', 1)
    old, new = rest.split('\n=====\n')
    new = new.rstrip('\n') if old[-1:] != '\n' else new
    p = w + '/r/' + head.strip()
    s = open(p).read()
    assert s.count(old) == 1, (head, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
if not os.path.exists(d + '/demo.sh'):
    shutil.copy('/verif/tools/demo_common/demo.sh', d); shutil.copy('/verif/tools/demo_common/minisim.h', d)
shutil.rmtree(w)
