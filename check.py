#!/opt/venv/bin/python
"""check.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--replay-worker')
    ap.add_argument('--workdir')
    a = ap.parse_args()
    if a.worker is not None:
        core.worker(a.property, a.tier, a.seed, a.worker, a.workdir)
        return 0
    if a.replay_worker:
        return core.replay_worker(a.replay_worker, a.workdir)
    if a.replay:
        return core.replay(a.replay)
    return core.run_check(a.property, a.tier, a.seed)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc) if '--worker' in sys.argv else sys.exit(rc)
