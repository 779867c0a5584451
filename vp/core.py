"""Shared machinery: sharded Hypothesis runs, replay files, evidence.

A check module (vp/checks/cNN.py) defines
    PROPERTY, RULE, ASSUMPTIONS, SUBCHECKS = [Sub(...), ...]
A Sub has a Hypothesis strategy producing a plain JSON-able case and a function run(case) that
raises on a violation and otherwise returns a dict {'nontrivial': bool, 'labels': [...]}.
A replay file is that case: `check.py CNN --replay file` runs it without Hypothesis.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
NSHARDS = int(os.environ.get('VP_SHARDS', '8'))
HANG_S = 240          # one generated case takes well under 10 s on the unchanged tree
SHRINK_S = {'quick': 45, 'thorough': 180}


class Violation(AssertionError):
    pass


class HarnessError(BaseException):
    pass


class _StopShrink(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick=100, thorough=None, budget=60, share=None):
        self.name = name
        self.strategy = strategy          # callable returning a strategy
        self.run = run
        self.quick = quick                # examples per shard
        self.thorough = thorough or quick * 20
        self.budget = budget              # seconds per shard in the quick tier
        self.share = share


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def ensure_hypothesis(scratch):
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    deps = os.path.join(VERIF, '.deps')
    if not os.path.isdir(os.path.join(deps, 'hypothesis')):
        deps = os.path.join(scratch, 'deps')
        os.makedirs(deps, exist_ok=True)
        if os.path.isdir(os.path.join(TOOLS_SITE, 'hypothesis')):
            for n in os.listdir(TOOLS_SITE):
                if n in ('hypothesis', 'sortedcontainers', 'attr', 'attrs') or n.startswith('_hypothesis'):
                    dst = os.path.join(deps, n)
                    if not os.path.lexists(dst):
                        try:
                            os.symlink(os.path.join(TOOLS_SITE, n), dst)
                        except FileExistsError:
                            pass
        else:
            subprocess.run([VENV_PY, '-m', 'pip', 'install', '-q', '--no-index', '--find-links', WHEELS,
                            '--target', deps, 'hypothesis'], check=True)
    sys.path.append(deps)
    import hypothesis  # noqa


def import_parcels():
    """Import parcels from the repository's working tree."""
    import types
    import warnings
    warnings.filterwarnings('ignore')
    if not os.path.exists(os.path.join(REPO, 'parcels', '_version.py')):
        m = types.ModuleType('parcels._version')
        m.version = m.__version__ = '2.2.2'
        sys.modules['parcels._version'] = m
    sys.path.insert(0, REPO)
    import parcels
    if not os.path.abspath(parcels.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('parcels imported from %s' % parcels.__file__)
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    return parcels


def load_check(pid):
    return importlib.import_module('vp.checks.' + pid.lower())


def jdump(obj):
    return json.dumps(obj, sort_keys=True, default=_jdefault)


def _jdefault(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


# --------------------------------------------------------------------------- worker

def worker(pid, tier, seed, shard, workdir):
    os.environ['TMPDIR'] = os.path.join(workdir, 'tmp')
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)
    tempfile.tempdir = None
    os.chdir(os.environ['TMPDIR'])
    ensure_hypothesis(workdir)
    import_parcels()
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    mod = load_check(pid)
    hb = os.path.join(workdir, 'heartbeat.json')
    out = {'shard': shard, 'subs': {}, 'violation': None, 'error': None}
    outf = os.path.join(workdir, 'result.json')

    def save():
        with open(outf + '.new', 'w') as f:
            f.write(jdump(out))
        os.replace(outf + '.new', outf)

    only = os.environ.get('VP_ONLY')
    for si, sub in enumerate(mod.SUBCHECKS):
        if only and sub.name not in only.split(','):
            continue
        n = sub.quick if tier == 'quick' else sub.thorough
        n = int(os.environ.get('VP_EXAMPLES', n))
        budget = sub.budget if tier == 'quick' else sub.budget * 12
        budget *= float(os.environ.get('VP_BUDGET_SCALE', '1'))
        st = {'evaluations': 0, 'nontrivial': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'skipped_time': 0,
              'wall_s': 0.0, 'slowest_s': 0.0}
        t0 = time.time()
        fail = {'case': None, 'size': None, 'msg': None, 'tb': None, 't': None, 'n': 0}

        def body(case):
            now = time.time()
            if fail['t'] is None and now - t0 > budget:
                st['skipped_time'] += 1
                return
            if fail['t'] is not None and now - fail['t'] > SHRINK_S[tier]:
                raise _StopShrink()
            js = jdump(case)
            with open(hb, 'w') as f:
                f.write(json.dumps({'sub': sub.name, 't': now}) + '\n' + js)
            case_in = json.loads(js)      # exactly what a replay will see
            try:
                info = sub.run(case_in) or {}
            except HarnessError:
                raise
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                if type(e).__module__.startswith('hypothesis'):
                    raise
                if fail['t'] is None:
                    fail['t'] = time.time()
                fail['n'] += 1
                if fail['size'] is None or len(js) <= fail['size']:
                    fail.update(case=case_in, size=len(js), msg='%s: %s' % (type(e).__name__, str(e)[:2000]),
                                tb=traceback.format_exc()[-4000:])
                raise
            st['slowest_s'] = max(st['slowest_s'], time.time() - now)
            if fail['t'] is None:
                st['evaluations'] += 1
                for lab in info.get('labels', ()):
                    st['labels'][lab] = st['labels'].get(lab, 0) + 1
                if info.get('nontrivial'):
                    h = hashlib.sha1(js.encode()).hexdigest()[:16]
                    if h not in st['hashes']:
                        st['hashes'].add(h)
                        st['nontrivial'] += 1
                        if len(st['samples']) < 2 and len(js) < 3000:
                            st['samples'].append(case_in)

        sub_seed = int(hashlib.sha256(('%s/%s/%d/%d' % (pid, sub.name, seed, shard)).encode()).hexdigest()[:12], 16)
        test = given(sub.strategy())(body)
        test = hypothesis.seed(sub_seed)(test)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink))(test)
        try:
            test()
        except _StopShrink:
            pass
        except (HarnessError, MemoryError, KeyboardInterrupt) as e:
            out['error'] = 'harness: %r\n%s' % (e, traceback.format_exc()[-3000:])
        except Exception as e:
            if fail['case'] is None:
                out['error'] = 'harness: %r\n%s' % (e, traceback.format_exc()[-3000:])
        st['wall_s'] = round(time.time() - t0, 2)
        st['slowest_s'] = round(st['slowest_s'], 2)
        st['hashes'] = sorted(st['hashes'])
        out['subs'][sub.name] = st
        if fail['case'] is not None:
            out['violation'] = {'sub': sub.name, 'case': fail['case'], 'message': fail['msg'], 'traceback': fail['tb'],
                                'failing_executions': fail['n']}
        save()
        if out['violation'] or out['error']:
            break
    save()


# --------------------------------------------------------------------------- parent

def sanitize(pid):
    """Environment for checks that run the compiled code with AddressSanitizer (SANITIZE = True in the check)."""
    if 'SANITIZE = True' not in open(os.path.join(VERIF, 'vp', 'checks', pid.lower() + '.py')).read().split('\n'):
        return {}
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    if not os.path.isabs(lib):
        raise SystemExit('no AddressSanitizer library for gcc')
    return {'VP_PRELOAD': lib, 'LD_PRELOAD': os.path.realpath(lib), 'PYTHONMALLOC': 'malloc', 'VP_CC_OPT': '-O1',
            'VP_CC_EXTRA': '-fsanitize=address -fno-omit-frame-pointer -g',
            'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0'}


def env_for_workers(scratch):
    env = dict(os.environ)
    for k in ('MPICC',):
        env.pop(k, None)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MALLOC_ARENA_MAX='2', LANG='C.UTF-8',
               HDF5_USE_FILE_LOCKING='FALSE',
               CC=os.path.join(VERIF, 'vp', 'cc.sh'), VP_CC_CACHE=os.path.join(scratch, 'cc'),
               PYTHONPATH=VERIF, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
    return env


def write_replay(pid, sub, case, message, extra=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'sub': sub, 'message': message, 'case': case}
    body.update(extra or {})
    h = hashlib.sha1(jdump(body).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (pid, sub, h))
    with open(path, 'w') as f:
        f.write(json.dumps(json.loads(jdump(body)), indent=1))
    return path


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_check(pid, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    procs = []
    env = env_for_workers(scratch)
    env.update(sanitize(pid))
    try:
        ensure_hypothesis(scratch)
        nsh = NSHARDS
        for sh in range(nsh):
            wd = os.path.join(scratch, 's%d' % sh)
            os.makedirs(wd)
            log = open(os.path.join(wd, 'log.txt'), 'w')
            p = subprocess.Popen([VENV_PY, os.path.join(VERIF, 'check.py'), pid, '--worker', str(sh), '--tier', tier,
                                  '--seed', str(seed), '--workdir', wd], stdout=log, stderr=subprocess.STDOUT,
                                 env=env, cwd=VERIF, start_new_session=True)
            procs.append((sh, wd, p))
        verdicts = []
        errors = []
        live = list(procs)
        t_first_bad = None
        while live:
            time.sleep(0.1)
            for item in list(live):
                sh, wd, p = item
                rc = p.poll()
                hbf = os.path.join(wd, 'heartbeat.json')
                if rc is None:
                    try:
                        age = time.time() - os.path.getmtime(hbf)
                    except OSError:
                        age = 0
                    if age > HANG_S:
                        kill(p)
                        p.wait()
                        live.remove(item)
                        head, js = open(hbf).read().split('\n', 1)
                        verdicts.append({'sub': json.loads(head)['sub'], 'case': json.loads(js), 'kind': 'hang',
                                         'message': 'no answer within %d s (cases normally take a few seconds)' % HANG_S})
                    continue
                live.remove(item)
                res = None
                try:
                    res = json.load(open(os.path.join(wd, 'result.json')))
                except (OSError, ValueError):
                    pass
                if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) \
                        and os.path.exists(hbf):
                    head, js = open(hbf).read().split('\n', 1)
                    verdicts.append({'sub': json.loads(head)['sub'], 'case': json.loads(js), 'kind': 'crash',
                                     'message': 'process died with signal %d' % -rc})
                elif rc == 99 and os.path.exists(hbf):   # sanitizer report
                    head, js = open(hbf).read().split('\n', 1)
                    tail = open(os.path.join(wd, 'log.txt'), errors='replace').read()[-6000:]
                    verdicts.append({'sub': json.loads(head)['sub'], 'case': json.loads(js), 'kind': 'sanitizer',
                                     'message': 'sanitizer report', 'traceback': tail})
                elif rc != 0 or res is None:
                    tail = open(os.path.join(wd, 'log.txt'), errors='replace').read()[-3000:]
                    errors.append('shard %d exited %s\n%s' % (sh, rc, tail))
                else:
                    if res.get('violation'):
                        verdicts.append(res['violation'])
                    if res.get('error'):
                        errors.append(res['error'])
            if (verdicts or errors) and t_first_bad is None:
                t_first_bad = time.time()
            if verdicts and live and time.time() - t_first_bad > 5:
                for _, _, p in live:
                    kill(p)
                for _, _, p in live:
                    p.wait()
                live = []
        # aggregate
        subs = {}
        for sh, wd, p in procs:
            try:
                res = json.load(open(os.path.join(wd, 'result.json')))
            except (OSError, ValueError):
                continue
            for name, s in res['subs'].items():
                a = subs.setdefault(name, {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [],
                                           'skipped_time': 0, 'slowest_s': 0.0, 'wall_s': 0.0})
                a['evaluations'] += s['evaluations']
                a['hashes'] |= set(s['hashes'])
                a['skipped_time'] += s['skipped_time']
                a['slowest_s'] = max(a['slowest_s'], s['slowest_s'])
                a['wall_s'] = max(a['wall_s'], s['wall_s'])
                for k, v in s['labels'].items():
                    a['labels'][k] = a['labels'].get(k, 0) + v
                if len(a['samples']) < 2:
                    a['samples'] += s['samples'][:1]
        mod_rule, mod_ass = check_meta(pid)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {
                  'evaluations': sum(a['evaluations'] for a in subs.values()),
                  'distinct_nontrivial': sum(len(a['hashes']) for a in subs.values()),
                  'rule': mod_rule,
                  'samples': [{'sub': n, 'case': c} for n, a in subs.items() for c in a['samples']][:12],
                  'per_subcheck': {n: {'evaluations': a['evaluations'], 'distinct_nontrivial': len(a['hashes']),
                                       'labels': a['labels'], 'not_run_for_time': a['skipped_time'],
                                       'slowest_case_s': a['slowest_s'], 'wall_s_max_shard': a['wall_s']}
                                   for n, a in subs.items()}},
              'assumptions': mod_ass,
              'violations': len(verdicts),
              'wall_s': round(time.time() - t0, 2)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not os.environ.get('VP_NO_EVIDENCE'):
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                f.write(json.dumps(json.loads(jdump(ev)), indent=1))
        for n, a in subs.items():
            print('%s %-22s evaluations=%d nontrivial=%d unrun=%d slowest=%.1fs wall=%.0fs' %
                  (pid, n, a['evaluations'], len(a['hashes']), a['skipped_time'], a['slowest_s'], a['wall_s']))
        for line in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, line))
        if verdicts:
            v = min(verdicts, key=lambda v: len(jdump(v['case'])))
            if v.get('kind') in ('crash', 'sanitizer'):
                shrink_crash(pid, v, env, scratch, SHRINK_S[tier])
            path = write_replay(pid, v['sub'], v['case'], v['message'],
                                {'seed': seed, 'kind': v.get('kind', 'failure'), 'traceback': v.get('traceback')})
            print('%s %s: %s' % (pid, v['sub'], v['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if errors:
            print('CHECK ERROR (no verdict):\n' + '\n'.join(errors)[:6000])
            return 2
        if ev['coverage']['evaluations'] == 0:
            print('CHECK ERROR (no verdict): nothing was evaluated')
            return 2
        print('OK property=%s evaluations=%d nontrivial=%d wall=%.0fs' %
              (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - t0))
        return 0
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(scratch, ignore_errors=True)


def crashes(pid, sub, case, env, scratch, tag):
    """Does this case end the process (signal or sanitizer report)?"""
    wd = os.path.join(scratch, 'shrink%s' % tag)
    os.makedirs(wd, exist_ok=True)
    f = os.path.join(wd, 'case.json')
    with open(f, 'w') as h:
        h.write(json.dumps({'property': pid, 'sub': sub, 'case': json.loads(jdump(case))}))
    return subprocess.Popen([VENV_PY, os.path.join(VERIF, 'check.py'), pid, '--replay-worker', f, '--workdir', wd], env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)


def smaller(case):
    """Cases with one list element, or half of a list, less."""
    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                yield from walk(x[k], path + [k])
        elif isinstance(x, list):
            if len(x) > 3:
                yield path, slice(0, len(x) // 2)
                yield path, slice(len(x) // 2, None)
            if len(x) > 1:
                for i in range(len(x)):
                    yield path, i
            for i, y in enumerate(x):
                yield from walk(y, path + [i])
    for path, i in walk(case, []):
        c = json.loads(jdump(case))
        x = c
        for k in path:
            x = x[k]
        del x[i]
        yield c


def shrink_crash(pid, v, env, scratch, limit):
    """Greedy reduction of a case that ends the process, in subprocesses."""
    t0 = time.time()
    again = True
    while again and time.time() - t0 < limit:
        again = False
        cands = sorted(smaller(v['case']), key=lambda c: len(jdump(c)))
        for k in range(0, len(cands), NSHARDS):
            if time.time() - t0 > limit:
                break
            ps = [(c, crashes(pid, v['sub'], c, env, scratch, i)) for i, c in enumerate(cands[k:k + NSHARDS])]
            hit = None
            for c, p in ps:
                try:
                    rc = p.wait(timeout=max(1, 40 - (time.time() - t0 - limit)))
                except subprocess.TimeoutExpired:
                    rc = None
                    kill(p)
                    p.wait()
                if hit is None and rc is not None and (rc == 99 or -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)):
                    hit = c
            if hit is not None:
                v['case'] = hit
                again = True
                break


def check_meta(pid):
    """RULE and ASSUMPTIONS, without importing the check (it imports parcels)."""
    import ast
    tree = ast.parse(open(os.path.join(VERIF, 'vp', 'checks', pid.lower() + '.py')).read())
    vals = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('RULE', 'ASSUMPTIONS'):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    return vals.get('RULE', ''), vals.get('ASSUMPTIONS', [])


def known_findings(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    return out


def replay(path):
    body = json.load(open(path))
    pid = body['property']
    scratch = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        env = env_for_workers(scratch)
        env.update(sanitize(pid))
        r = subprocess.run([VENV_PY, os.path.join(VERIF, 'check.py'), pid, '--replay-worker', os.path.abspath(path),
                            '--workdir', scratch], env=env)
        if r.returncode == 1 or r.returncode < 0 or r.returncode == 99:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_worker(path, workdir):
    os.environ['TMPDIR'] = os.path.join(workdir, 'tmp')
    os.makedirs(os.environ['TMPDIR'], exist_ok=True)
    tempfile.tempdir = None
    os.chdir(os.environ['TMPDIR'])
    ensure_hypothesis(workdir)
    import_parcels()
    body = json.load(open(path))
    mod = load_check(body['property'])
    sub = [s for s in mod.SUBCHECKS if s.name == body['sub']][0]
    try:
        info = sub.run(body['case'])
    except Exception:
        traceback.print_exc()
        return 1
    print('case holds:', info)
    return 0
