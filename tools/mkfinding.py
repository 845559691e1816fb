#!/usr/bin/env python3
"""Minimise a case that shows a recorded finding: mkfinding.py EXE CASE ID OUT"""
import subprocess, sys
exe, case, kid, out = sys.argv[1:5]
lines = open(case).read().split('\n')
head = [l for l in lines if l and not l.startswith('op ')]
ops = [l for l in lines if l.startswith('op ')]
import re
def ok(h, o):
    open(out, 'w').write('\n'.join(h + o) + '\n')
    r = subprocess.run([exe, 'replay', out], capture_output=True, text=True)
    return r.returncode == 0 and ('STAT known_%s ' % kid) in r.stdout
h2 = [re.sub(r'probe=\d+', 'probe=1', l) for l in head]
if ok(h2, ops): head = h2
assert ok(head, ops)
n = 2
while True:
    size = max(1, (len(ops) + n - 1) // n)
    for i in range(0, len(ops), size):
        c = ops[:i] + ops[i + size:]
        if ok(head, c):
            ops = c; n = max(2, n - 1); break
    else:
        if size == 1: break
        n = min(len(ops), 2 * n)
ok(head, ops)
