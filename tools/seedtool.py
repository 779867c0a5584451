#!/usr/bin/env python3
"""Planted-bug bookkeeping (not used by any check).
  seedtool.py make SPEC.py      SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)
  seedtool.py validate ID...    demo on clean and patched copies, stable tests on the patched copy
  seedtool.py check ID...       the property's check (VP_REPO=patched copy)
"""
import json, os, shutil, subprocess, sys, tempfile, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T" PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:/usr/bin:/bin
R="$PWD"
cd "$T" && /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', dst], check=True)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(SEED, ns['ID'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mk_' + ns['ID']
    copy(w)
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    for f, old, new in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('%s: old text occurs %d times in %s' % (ns['ID'], s.count(old), f))
            shutil.rmtree(w)
            return False
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
    return ns['ID']


def patched(i):
    w = '/tmp/sd_' + i
    copy(w)
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    r = sh(['git', '-C', w, 'apply', os.path.join(SEED, i, 'patch.diff')])
    return w if r.returncode == 0 else None


def demo(i, cwd):
    d = tempfile.mkdtemp()
    shutil.copytree(os.path.join(SEED, i), d + '/s', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh(['bash', d + '/s/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=300)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def validate(i, tests=True):
    w = patched(i)
    if not w:
        print(i, 'PATCH DOES NOT APPLY')
        return False
    try:
        c, co = demo(i, '/repo')
        p, po = demo(i, w)
        ok = c == 0 and p != 0
        print(i, 'demo clean=%d patched=%d' % (c, p), '' if ok else 'BAD\n' + co + '\n---\n' + po)
        if not ok or not tests:
            return ok
        t = open('/opt/vp/test.sh').read().replace('/repo', w)
        open(w + '/.t.sh', 'w').write(t)
        env = dict(os.environ, PYTHONPATH=w)
        sh(['bash', w + '/.t.sh', w + '/.out.json'], env=env, capture_output=True)
        b = json.load(open('/opt/vp/BASELINE.json'))
        o = json.load(open(w + '/.out.json'))
        miss = sorted(set(b['stable']) - set(o['passed']))
        print(i, 'tests: %d stable tests fail' % len(miss), miss[:5])
        return not miss
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(i, pid=None):
    w = patched(i)
    try:
        pid = pid or json.load(open(os.path.join(SEED, i, 'meta.json')))['property']
        env = dict(os.environ, VP_REPO=w, VP_NO_EVIDENCE='1')
        r = sh([sys.executable if 0 else '/opt/venv/bin/python', os.path.join(VERIF, 'check.py'), pid], env=env, capture_output=True, text=True)
        print(i, pid, 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'missed rc=%d' % r.returncode)
        print('   ' + '\n   '.join(r.stdout.strip().split('\n')[-3:])[:600])
        return r.returncode == 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for a in args:
            print(make(a))
    elif cmd == 'demo':
        for a in args:
            validate(a, tests=False)
    elif cmd == 'validate':
        for a in args:
            validate(a)
    elif cmd == 'check':
        for a in args:
            check(*a.split(':'))
