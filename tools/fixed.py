#!/usr/bin/env python3
"""fixed.py PID HASH... : append 'fixed:' lines for /repo commits to KNOWN_FINDINGS.txt (skips ones already listed)."""
import os
import subprocess
import sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
txt = open(F).read()
for h in sys.argv[2:]:
    s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], text=True).strip()
    line = 'fixed: property=%s %s %s\n' % (sys.argv[1], h[:7], s.replace('fix: ', '', 1))
    if line not in txt:
        open(F, 'a').write(line)
