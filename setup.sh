#!/bin/bash
# Offline set-up: everything is Python run from /verif against /repo; only Hypothesis has to be reachable.
set -e
cd "$(dirname "$0")"
chmod +x check.py vp/cc.sh
/opt/venv/bin/python - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, '.')
from vp import core
d = tempfile.mkdtemp()
core.ensure_hypothesis(d)
import hypothesis
print('hypothesis', hypothesis.__version__)
shutil.rmtree(d)
P
gcc --version | head -1
