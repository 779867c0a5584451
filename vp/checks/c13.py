"""C13: sequences of collection operations on particle sets against a list-of-dicts model."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable

PROPERTY = 'C13'
RULE = ('a case is a sequence of up to 14 operations (create, add, remove by position/list/condition/id/particle, assign, iterate, '
        'look up, subset, execute) on three particle sets; non-trivial = at least one addition or removal acted on a non-empty set '
        'and at least 3 operations changed something')
ASSUMPTIONS = ['adding a set whose ids are all smaller than those present may put it in front (ids stay sorted) or behind; both orders are accepted',
               'values are exactly representable in the declared types']


def mkclass(base):
    class P(base):
        a = Variable('a', dtype=np.float32, initial=0.5)
        b = Variable('b', dtype=np.float64, initial=-1.)
        n = Variable('n', dtype=np.int32, initial=3)
    P.__name__ = 'C13' + base.__name__
    return P


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}
VARS = ['id', 'lon', 'lat', 'depth', 'time', 'a', 'b', 'n']


def kern(particle, fieldset, time):
    particle.a += 1
    particle.b = particle.b + particle.n
    particle.lat += 0.25


num = st.integers(-20, 20).map(lambda k: k / 4)


@st.composite
def case_s(draw):
    ops = []
    slot = st.integers(0, 3)
    prec = draw(st.sampled_from([[32], [32], [64], [32, 32, 64]]))
    for s in range(draw(st.sampled_from([2, 3, 4]))):
        ops.append(['new', s, [[draw(num), draw(num), draw(num), draw(num)] for _ in range(draw(st.integers(1, 4)))],
                    draw(st.sampled_from(prec))])
    for _ in range(draw(st.integers(1, 12))):
        o = draw(st.sampled_from(['new', 'add', 'add', 'add', 'iadd', 'rm', 'rml', 'rmb', 'rmid', 'rmids', 'rmids', 'rmobj', 'set', 'setall', 'look',
                                  'getids', 'where', 'subset', 'rev', 'exec', 'exec', 'vec']))
        s = draw(slot)
        ix = draw(st.integers(-8, 8))
        lst = draw(st.lists(st.integers(0, 9), max_size=5))
        if o == 'new':
            ops.append([o, s, [[draw(num), draw(num), draw(num), draw(num)] for _ in range(draw(st.sampled_from([0, 1, 2, 3, 5])))],
                        draw(st.sampled_from(prec))])
        elif o in ('add', 'iadd'):
            ops.append([o, s, draw(slot)])
        elif o == 'rml':
            ops.append([o, s, lst, draw(st.booleans())])
        elif o in ('rm', 'look', 'rmobj', 'rmid'):
            ops.append([o, s, ix])
        elif o in ('rmb', 'rmids', 'getids', 'subset'):
            ops.append([o, s, lst])
        elif o == 'set':
            ops.append([o, s, ix, draw(st.sampled_from(VARS[1:])), draw(st.integers(-9, 9))])
        elif o in ('setall', 'vec', 'where'):
            ops.append([o, s, draw(st.sampled_from(['a', 'b', 'n', 'lon', 'depth'])), draw(st.integers(-9, 9)), draw(st.booleans())])
        else:
            ops.append([o, s])
    return {'mode': draw(st.sampled_from(['jit', 'scipy'])), 'ops': ops}


FS = []


def fieldset():
    if not FS:
        z = np.zeros((2, 3), dtype=np.float32)
        FS.append(FieldSet.from_data({'U': z, 'V': z}, {'lon': np.array([-1e5, 0., 1e5]), 'lat': np.array([-1e5, 1e5])}, mesh='flat'))
    return FS[0]


def content(pset):
    return [{v: float(getattr(p, v)) for v in VARS} for p in pset]


def verify(pset, model, what):
    if len(pset) != len(model) or pset.size != len(model):
        raise Violation('%s: len() is %d, expected %d' % (what, len(pset), len(model)))
    got = content(pset)
    if got != model:
        raise Violation('%s: set contains\n%r\nexpected\n%r' % (what, got, model))
    for m in model:
        p = pset.collection.get_single_by_ID(np.int64(m['id']))
        if p.id != m['id'] or float(p.b) != m['b']:
            raise Violation('%s: get_single_by_ID(%d) gives particle %r with b=%r instead of %r' % (what, m['id'], p.id, p.b, m['b']))
    for v in VARS:
        arr = getattr(pset, v)
        if list(map(float, arr)) != [m[v] for m in model]:
            raise Violation('%s: pset.%s is %r, expected %r' % (what, v, arr, [m[v] for m in model]))


def run(case):
    fs = fieldset()
    psets, models = {}, {}
    everids = set()
    changed = mixed = 0

    def expect_error(f, what):
        try:
            f()
        except Exception:
            return
        raise Violation('%s: no error was raised' % what)

    for k, op in enumerate(case['ops']):
        o, s = op[0], op[1]
        what = 'after operation %d %r' % (k, op)
        if o == 'new':
            vals = op[2]
            dt = np.float32 if op[3] == 32 else np.float64
            pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[v[0] for v in vals], lat=[v[1] for v in vals], depth=[v[2] for v in vals],
                               time=[0.] * len(vals), b=[v[3] for v in vals], lonlatdepth_dtype=dt)
            ids = [int(p.id) for p in pset]
            if len(set(ids)) != len(vals) or everids & set(ids):
                raise Violation('%s: ids %r of the new particles are not unique or were used before %r' % (what, ids, sorted(everids)))
            everids |= set(ids)
            psets[s] = pset
            models[s] = [dict(id=float(i), lon=v[0], lat=v[1], depth=v[2], time=0., a=0.5, b=v[3], n=3.) for i, v in zip(ids, vals)]
            changed += 1
        elif s not in psets:
            continue
        else:
            ps, m = psets[s], models[s]
            n = len(m)
        if o in ('add', 'iadd'):
            if op[2] not in psets or op[2] == s or ps.collection.lonlatdepth_dtype != psets[op[2]].collection.lonlatdepth_dtype:
                continue
            oth = models[op[2]]
            if {x['id'] for x in m} & {x['id'] for x in oth}:
                continue
            if o == 'add':
                ps.add(psets[op[2]])
            else:
                ps += psets[op[2]]
            app = m + [dict(x) for x in oth]
            pre = [dict(x) for x in oth] + m
            if m and oth and min(x['id'] for x in m) > max(x['id'] for x in oth) and content(ps) == pre:
                app = pre
            models[s] = app
            changed += bool(oth)
            mixed += bool(oth) and bool(m)
        elif o == 'rm':
            i = op[2]
            if -n <= i < n:
                ps.remove_indices(i)
                m.pop(i)
                changed += 1
                mixed += 1
            else:
                expect_error(lambda: ps.remove_indices(i), what)
        elif o == 'rml':
            lst = op[2]
            arg = np.array(lst, dtype=np.int64) if op[3] else list(lst)
            if all(i < n for i in lst):
                ps.remove_indices(arg)
                models[s] = [x for i, x in enumerate(m) if i not in lst]
                changed += bool(lst)
                mixed += bool(lst)
            else:
                expect_error(lambda: ps.remove_indices(arg), what)
        elif o == 'rmb':
            mask = np.array([i in op[2] for i in range(n)], dtype=bool)
            ps.remove_booleanvector(mask)
            models[s] = [x for x, f in zip(m, mask) if not f]
            changed += bool(mask.any())
            mixed += bool(mask.any())
        elif o == 'rmid':
            i = op[2]
            if -n <= i < n:
                ps.collection.remove_single_by_ID(np.int64(m[i]['id']))
                m.pop(i)
                changed += 1
                mixed += 1
            else:
                expect_error(lambda: ps.collection.remove_single_by_ID(np.int64(max(everids) + 5)), what)
        elif o in ('rmids', 'getids'):
            want = [np.int64(m[i]['id']) for i in op[2] if i < n] + [np.int64(max(everids) + 7) for i in op[2] if i == n]
            gone = sorted(everids - {int(x['id']) for x in m})       # ids of particles removed or in another set
            want += [np.int64(gone[i % len(gone)]) for i in op[2] if i > n and gone]
            want = list(dict.fromkeys(want))
            if o == 'rmids':
                ps.collection.remove_multi_by_IDs(want)
                models[s] = [x for x in m if np.int64(x['id']) not in want]
                changed += bool(want)
                mixed += bool(want)
            elif want:
                got = [int(p.id) for p in ps.collection.get_multi_by_IDs(want)]
                exp = sorted(int(x['id']) for x in m if np.int64(x['id']) in want)
                if sorted(got) != exp:
                    raise Violation('%s: get_multi_by_IDs(%r) gives particles %r, expected %r' % (what, want, got, exp))
        elif o == 'rmobj':
            i = op[2]
            if -n <= i < n:
                ps.collection.remove_single_by_object(ps[i])
                m.pop(i)
                changed += 1
                mixed += 1
        elif o == 'set':
            i = op[2]
            if -n <= i < n:
                setattr(ps[i], op[3], op[4])
                m[i][op[3]] = float(op[4])
                changed += 1
        elif o == 'setall':
            for j, p in enumerate(ps):
                setattr(p, op[2], op[3] + j)
                m[j][op[2]] = float(op[3] + j)
            changed += 1
        elif o == 'vec':
            getattr(ps, op[2])[:] = op[3]
            for x in m:
                x[op[2]] = float(op[3])
            changed += 1
        elif o == 'look':
            i = op[2]
            if -n <= i < n:
                p = ps[i]
                q = ps.collection.get_single_by_ID(np.int64(m[i]['id']))
                for v in VARS:
                    if float(getattr(p, v)) != m[i][v] or float(getattr(q, v)) != m[i][v]:
                        raise Violation('%s: pset[%d].%s = %r, by id %r, expected %r' % (what, i, v, getattr(p, v), getattr(q, v), m[i][v]))
            else:
                expect_error(lambda: ps.collection.get_single_by_ID(np.int64(max(everids) + 5)), what)
        elif o == 'where':
            got = list(map(int, ps.data_indices(op[2], [op[3], 3, 0.5, -1.], invert=op[4])))
            exp = [i for i, x in enumerate(m) if (x[op[2]] in (op[3], 3, 0.5, -1.)) != op[4]]
            if got != exp:
                raise Violation('%s: data_indices gives %r, expected %r' % (what, got, exp))
        elif o == 'subset':
            idx = [i for i in op[2] if i < n]
            for arg in (idx, np.array(idx, dtype=np.int32)):
                got = [float(p.id) for p in ps.indexed_subset(arg)]
                if got != [m[i]['id'] for i in idx]:
                    raise Violation('%s: indexed_subset(%r) gives ids %r' % (what, idx, got))
            got = [float(p.id) for p in ps.collection.get_multi_by_indices(idx)]
            if got != [m[i]['id'] for i in idx]:
                raise Violation('%s: get_multi_by_indices(%r) gives ids %r' % (what, idx, got))
        elif o == 'rev':
            got = [float(p.id) for p in reversed(ps.collection)]
            if got != [x['id'] for x in m][::-1]:
                raise Violation('%s: reversed iteration gives %r' % (what, got))
        elif o == 'exec':
            if n == 0 or len({x['time'] for x in m}) > 1 or abs(m[0]['time']) > 50:
                continue
            ps.execute(kern, runtime=2, dt=1., verbose_progress=False)
            for x in m:
                for _ in range(2):
                    x['a'] += 1
                    x['b'] = x['b'] + x['n']
                    x['lat'] += 0.25
                    x['time'] += 1
            changed += 1
        for t in psets:
            verify(psets[t], models[t], what + ' (set %d)' % t)
    return {'nontrivial': mixed > 0 and changed >= 3, 'labels': sorted({op[0] for op in case['ops']})}


SUBCHECKS = [Sub('operations', case_s, run, quick=2500, thorough=40000, budget=60)]
