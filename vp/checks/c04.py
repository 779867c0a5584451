"""C04: generated kernels, compiled vs interpreted vs an independent tree interpreter."""
import hashlib
import itertools
import json
import linecache
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ParcelsRandom,  # noqa: F401
                     StateCode, OperationCode, ErrorCode)

PROPERTY = 'C04'
RULE = ('a case is a generated kernel program (or a list of kernels to combine) with particle start values, executed for three steps; '
        'non-trivial = it ran to the end without overflow or a comparison within rounding error, and changed at least one variable')
ASSUMPTIONS = [
    'programs use the documented kernel language; and/or only combine truth values',
    'field samples stay inside the domain, denominators are non-zero, values stay below 1e6',
    'cases where a comparison (or floor) is decided by less than 1e-4 relative are not judged, because compiled code samples in single precision',
    'tolerance 2e-4 relative',
]

LOCALS = ['q0', 'q1', 'q2']
FLOATS = ['a', 'b']            # float32, float64
INTS = ['n']                   # int32
CONST = 1.5
GX = [-1000., 0., 1000.]


class Fragile(Exception):
    pass


# ------------------------------------------------------------------ generator

NUMS = [0, 1, 2, 3, -1, 0.5, 0.25, 1.5, 7, -2.5, 10]
FUNCS1 = ['sin', 'cos', 'fabs', 'exp1', 'sqrt1', 'floor', 'atan', 'tanh', 'log1', 'ceil']


@st.composite
def nexpr(draw, d, loc):
    opts = ['num', 'part', 'part', 'time', 'const']
    if loc:
        opts += ['loc', 'loc']
    if d > 0:
        opts += ['bin'] * 6 + ['neg', 'div', 'idiv', 'pow', 'fn', 'abs', 'minmax', 'mod', 'smp', 'smp']
    o = draw(st.sampled_from(opts))
    if o == 'num':
        return ['num', draw(st.sampled_from(NUMS))]
    if o == 'part':
        return ['part', draw(st.sampled_from(FLOATS + INTS + ['lon', 'lat']))]
    if o == 'loc':
        return ['loc', draw(st.sampled_from(loc))]
    if o in ('time', 'const'):
        return [o]
    sub = nexpr(d - 1, loc)
    if o == 'bin':
        return ['bin', draw(st.sampled_from(['+', '-', '*'])), draw(sub), draw(sub)]
    if o == 'neg':
        return ['neg', draw(sub)]
    if o == 'div':
        return ['div', draw(sub), draw(st.sampled_from([['num', 2], ['num', 4.0], ['num', -3]]))] if draw(st.booleans()) \
            else ['divp', draw(sub), draw(sub)]
    if o == 'idiv':
        return ['div', ['num', draw(st.sampled_from([1, 3, 7]))], ['num', draw(st.sampled_from([2, 4]))]] \
            if draw(st.booleans()) else ['div', ['part', 'n'], ['num', draw(st.sampled_from([2, 3]))]]
    if o == 'pow':
        return ['pow', draw(sub), draw(st.sampled_from([2, 3]))]
    if o == 'fn':
        return ['fn', draw(st.sampled_from(FUNCS1)), draw(sub)]
    if o == 'abs':
        return ['abs', draw(sub)]
    if o == 'minmax':
        return ['mm', draw(st.sampled_from(['min', 'max'])), draw(sub), draw(sub)]
    if o == 'mod':
        e = ['part', 'n'] if draw(st.booleans()) else ['bin', draw(st.sampled_from('+-*')), ['part', 'n'], ['num', draw(st.sampled_from([1, 3, -5]))]]
        return ['mod', e, draw(st.sampled_from([2, 3, 5]))]
    form = draw(st.sampled_from(['sub', 'sub', 'part5', 'partonly', 'eval', 'evalraw']))
    fld = draw(st.sampled_from(['P', 'Q', 'S']))
    if fld == 'S' and form.startswith('eval'):
        form = 'sub'
    if form == 'partonly':
        return ['smp', fld, form, ['part', 'lat'], ['part', 'lon']]
    return ['smp', fld, form, draw(coord(loc, d - 1)), draw(coord(loc, d - 1))]


@st.composite
def coord(draw, loc, d):
    """A position argument that stays in the domain."""
    k = draw(st.integers(0, 4))
    if k == 0:
        return ['num', draw(st.sampled_from([0, 3.5, -20]))]
    if k == 1:
        return ['part', draw(st.sampled_from(['lon', 'lat']))]
    if k == 2 and d > 0:
        return ['fn', 'sin', draw(nexpr(d, loc))]
    return ['bin', draw(st.sampled_from('+-')), ['part', draw(st.sampled_from(['lon', 'lat']))], ['num', draw(st.sampled_from([1, .5, 8]))]]


@st.composite
def bexpr(draw, d, loc):
    opts = ['cmp', 'cmp']
    if d > 0:
        opts += ['and', 'or', 'not', 'and', 'or', 'lit']
    o = draw(st.sampled_from(opts))
    if o == 'cmp':
        return ['cmp', draw(st.sampled_from(['<', '<=', '>', '>=', '==', '!='])), draw(nexpr(d, loc)), draw(nexpr(d, loc))]
    if o == 'not':
        return ['not', draw(bexpr(d - 1, loc))]
    if o == 'lit':
        return ['lit', draw(st.booleans())]
    n = draw(st.integers(2, 3))
    return [o, [draw(bexpr(d - 1, loc)) for _ in range(n)]]


@st.composite
def target(draw, loc):
    k = draw(st.integers(0, 2))
    if k == 0:
        return ['loc', draw(st.sampled_from(LOCALS))]
    return ['part', draw(st.sampled_from(FLOATS + INTS + FLOATS))]


@st.composite
def stmts(draw, d, loc, budget, inloop=False):
    """(list of statements, locals certainly assigned after them)"""
    out = []
    loc = list(loc)
    for _ in range(draw(st.integers(1, budget))):
        opts = ['asg'] * 4 + ['aug'] * 3 + ['tup', 'vec', 'arr']
        if d > 0:
            opts += ['if'] * 4 + ['while'] * 2
        if not inloop:
            opts += ['ret'] if draw(st.integers(0, 3)) == 0 else []
        else:
            opts += ['ifbreak']
        o = draw(st.sampled_from(opts))
        if o == 'asg':
            t = draw(target(loc))
            out.append(['asg', t, draw(nexpr(2, loc))])
            if t[0] == 'loc' and t[1] not in loc:
                loc.append(t[1])
        elif o == 'aug':
            t = draw(target(loc))
            if t[0] == 'loc' and t[1] not in loc:
                t = ['part', 'a']
            op = draw(st.sampled_from(['+', '-', '*', '/']))
            out.append(['aug', t, op, draw(nexpr(2, loc)) if op != '/' else ['num', draw(st.sampled_from([2, 4, 3]))]])
        elif o == 'tup':
            t1, t2 = draw(target(loc)), draw(target(loc))
            out.append(['tup', [t1, t2], [draw(nexpr(1, loc)), draw(nexpr(1, loc))]])
            loc += [t[1] for t in (t1, t2) if t[0] == 'loc' and t[1] not in loc]
        elif o == 'vec':
            t1, t2 = draw(target(loc)), draw(target(loc))
            if t1 == t2:
                continue
            out.append(['vec', [t1, t2], draw(coord(loc, 0)), draw(coord(loc, 0))])
            loc += [t[1] for t in (t1, t2) if t[0] == 'loc' and t[1] not in loc]
        elif o == 'arr':
            vals = [draw(st.sampled_from([.5, 2., -3., 8.])) for _ in range(draw(st.integers(1, 3)))]
            out.append(['arr', vals, draw(target(loc)), draw(st.integers(0, len(vals) - 1))])
            t = out[-1][2]
            if t[0] == 'loc' and t[1] not in loc:
                loc.append(t[1])
        elif o == 'if':
            n = draw(st.integers(1, 3))
            arms = [[draw(bexpr(2, loc)), draw(stmts(d - 1, loc, 2, inloop))[0]] for _ in range(n)]
            els = draw(stmts(d - 1, loc, 2, inloop))[0] if draw(st.booleans()) else []
            out.append(['if', arms, els])
        elif o == 'while':
            cond = draw(bexpr(1, loc)) if draw(st.booleans()) else None
            body = draw(stmts(d - 1, loc, 2, True))[0]
            out.append(['while', draw(st.integers(0, 3)), cond, body, draw(st.booleans())])
        elif o == 'ifbreak':
            out.append(['ifbreak', draw(bexpr(1, loc))])
        elif o == 'ret':
            out.append(['ifret', draw(bexpr(1, loc)), draw(st.sampled_from(['StateCode.Success', 'OperationCode.Delete', 'delete']))])
    return out, loc


@st.composite
def case_s(draw, nk=1):
    ks = [draw(stmts(2, [], 4))[0] for _ in range(draw(st.integers(1, 3)) if nk > 1 else 1)]
    n = draw(st.integers(1, 3))
    parts = [{'a': draw(st.sampled_from([0., 1., -2.5, .5, 30.])), 'b': draw(st.sampled_from([0., 1., -.75, 4.])),
              'n': draw(st.integers(-7, 7)), 'lon': draw(st.sampled_from([0., 2., -3.5, 10.])), 'lat': draw(st.sampled_from([0., 1., -8.]))}
             for _ in range(n)]
    return {'kernels': ks, 'parts': parts, 'how': draw(st.integers(0, 3))}


# ------------------------------------------------------------------- rendering

def rn(e):
    t = e[0]
    if t == 'num':
        return repr(e[1]) if e[1] >= 0 else '(%r)' % e[1]
    if t == 'part':
        return 'particle.' + e[1]
    if t == 'loc':
        return e[1]
    if t == 'time':
        return 'time'
    if t == 'const':
        return 'fieldset.cc'
    if t == 'bin':
        return '(%s %s %s)' % (rn(e[2]), e[1], rn(e[3]))
    if t == 'neg':
        return '-%s' % rn(e[1])
    if t == 'div':
        return '(%s / %s)' % (rn(e[1]), rn(e[2]))
    if t == 'divp':
        return '(%s / (1 + math.fabs(%s)))' % (rn(e[1]), rn(e[2]))
    if t == 'pow':
        return '(%s) ** %d' % (rn(e[1]), e[2])
    if t == 'fn':
        a = rn(e[2])
        return {'exp1': 'math.exp(math.sin(%s))', 'sqrt1': 'math.sqrt(math.fabs(%s))', 'log1': 'math.log(1.5 + math.fabs(%s))'}.get(
            e[1], 'math.%s(%%s)' % e[1]) % a
    if t == 'abs':
        return 'abs(%s)' % rn(e[1])
    if t == 'mm':
        return '%s(%s, %s)' % (e[1], rn(e[2]), rn(e[3]))
    if t == 'mod':
        return '(%s %% %d)' % (rn(e[1]), e[2])
    if t == 'smp':
        f, form, y, x = e[1], e[2], rn(e[3]), rn(e[4])
        return {'sub': 'fieldset.%s[time, particle.depth, %s, %s]' % (f, y, x),
                'part5': 'fieldset.%s[time, particle.depth, %s, %s, particle]' % (f, y, x),
                'partonly': 'fieldset.%s[particle]' % f,
                'eval': 'fieldset.%s.eval(time, particle.depth, %s, %s)' % (f, y, x),
                'evalraw': 'fieldset.%s.eval(time, particle.depth, %s, %s, applyConversion=False)' % (f, y, x)}[form]
    raise ValueError(t)


def rb(e):
    t = e[0]
    if t == 'cmp':
        return '%s %s %s' % (rn(e[2]), e[1], rn(e[3]))
    if t == 'lit':
        return str(e[1])
    if t == 'not':
        return 'not (%s)' % rb(e[1]) if e[1][0] in ('and', 'or') else 'not %s' % rb(e[1])
    # parentheses only where Python needs them
    parts = []
    for s in e[1]:
        r = rb(s)
        if s[0] in ('and', 'or') and s[0] != e[0]:
            r = '(%s)' % r if e[0] == 'and' else r
        parts.append(r)
    return (' %s ' % t).join(parts)


_prefix = ['w', 'arr']


def rs(body, ind, ctr):
    p = '    ' * ind
    out = [] if body else [p + 'pass']
    for s in body:
        t = s[0]
        if t == 'asg':
            out.append(p + '%s = %s' % (rn(s[1]), rn(s[2])))
        elif t == 'aug':
            out.append(p + '%s %s= %s' % (rn(s[1]), s[2], rn(s[3])))
        elif t == 'tup':
            out.append(p + '%s = %s' % (', '.join(map(rn, s[1])), ', '.join(map(rn, s[2]))))
        elif t == 'vec':
            out.append(p + '(%s) = fieldset.UV[time, particle.depth, %s, %s]' % (', '.join(map(rn, s[1])), rn(s[2]), rn(s[3])))
        elif t == 'arr':
            v = '%s%d' % (_prefix[1], next(ctr))
            out.append(p + '%s = [%s]' % (v, ', '.join(map(repr, s[1]))))
            out.append(p + '%s = %s[%d]' % (rn(s[2]), v, s[3]))
        elif t == 'if':
            for k, (c, b) in enumerate(s[1]):
                out.append(p + ('if %s:' if k == 0 else 'elif %s:') % rb(c))
                out += rs(b, ind + 1, ctr)
            if s[2]:
                out.append(p + 'else:')
                out += rs(s[2], ind + 1, ctr)
        elif t == 'while':
            v = '%s%d' % (_prefix[0], next(ctr))
            out.append(p + '%s = 0' % v)
            out.append(p + 'while %s < %d%s:' % (v, s[1], '' if s[2] is None else ' and (%s)' % rb(s[2])))
            inc = '    ' * (ind + 1) + '%s += 1' % v
            b = rs(s[3], ind + 1, ctr)
            out += ([inc] + b) if s[4] else (b + [inc])
        elif t == 'ifbreak':
            out.append(p + 'if %s:' % rb(s[1]))
            out.append(p + '    break')
        elif t == 'ifret':
            out.append(p + 'if %s:' % rb(s[1]))
            out.append(p + ('    particle.delete()' if s[2] == 'delete' else '    return %s' % s[2]))
    return out


def source(k, i, prefix=('w', 'arr'), first=0):
    _prefix[:] = prefix
    return 'def kern%d(particle, fieldset, time):\n%s\n' % (i, '\n'.join(rs(k, 1, itertools.count(first))))


_n = itertools.count()


def function(src, name):
    fn = '<vp-kernel-%d>' % next(_n)
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'ParcelsRandom': ParcelsRandom, 'StateCode': StateCode, 'OperationCode': OperationCode, 'ErrorCode': ErrorCode}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


# ------------------------------------------------------- reference interpreter

class Return(Exception):
    pass


class Break(Exception):
    pass


COEF = {'P': (.5, .25, 2.), 'Q': (-1., .5, 0.), 'U': (.25, 1., 1.), 'V': (0., -.5, 3.)}


def fval(f, y, x):
    if f == 'S':
        return fval('P', y, x) + fval('Q', y, x)
    c = COEF[f]
    return c[0] * x + c[1] * y + c[2]


def near(a, b):
    return abs(a - b) < 1e-4 * (1 + abs(a) + abs(b))


class Interp:
    def __init__(self, state, time):
        self.s = state
        self.t = time
        self.l = {}
        self.exact = {}

    def big(self, v):
        if not abs(v) < 1e6:
            raise Fragile('overflow')
        return v

    def ev(self, e):
        """(value, exact): exact = identical in any precision >= float32"""
        v, x = self._ev(e)
        self.big(v)
        if x and (float(np.float32(v)) != v):
            x = False
        return v, x

    def _ev(self, e):
        t = e[0]
        if t == 'num':
            return e[1], True
        if t == 'part':
            return self.s[e[1]], self.s['_x'].get(e[1], True)
        if t == 'loc':
            return self.l[e[1]], self.exact[e[1]]
        if t == 'time':
            return self.t, True
        if t == 'const':
            return CONST, True
        if t == 'bin':
            (a, xa), (b, xb) = self.ev(e[2]), self.ev(e[3])
            return {'+': a + b, '-': a - b, '*': a * b}[e[1]], xa and xb
        if t == 'neg':
            a, x = self.ev(e[1])
            return -a, x
        if t == 'div':
            (a, xa), (b, xb) = self.ev(e[1]), self.ev(e[2])
            return a / b, xa and xb and abs(b) in (2, 4)
        if t == 'divp':
            (a, xa), (b, xb) = self.ev(e[1]), self.ev(e[2])
            return a / (1 + abs(b)), False
        if t == 'pow':
            a, x = self.ev(e[1])
            return a ** e[2], x
        if t == 'fn':
            a, x = self.ev(e[2])
            if e[1] in ('floor', 'ceil'):
                if not x and near(a, round(a)):
                    raise Fragile('floor')
                return float(getattr(math, e[1])(a)), True
            if e[1] == 'fabs':
                return math.fabs(a), x
            f = {'exp1': lambda v: math.exp(math.sin(v)), 'sqrt1': lambda v: math.sqrt(abs(v)),
                 'log1': lambda v: math.log(1.5 + abs(v))}.get(e[1]) or getattr(math, e[1])
            if abs(a) > 1e3 and not x:
                raise Fragile('argument')
            if e[1] == 'sqrt1' and not x and abs(a) < 1e-2:
                raise Fragile('sqrt')
            return f(a), False
        if t == 'abs':
            a, x = self.ev(e[1])
            return abs(a), x
        if t == 'mm':
            (a, xa), (b, xb) = self.ev(e[2]), self.ev(e[3])
            return {'min': min, 'max': max}[e[1]](a, b), xa and xb
        if t == 'mod':
            a, x = self.ev(e[1])
            return a % e[2], x
        if t == 'smp':
            (y, xy), (x, xx) = self.ev(e[3]), self.ev(e[4])
            if not (abs(x) < 900 and abs(y) < 900):
                raise Fragile('position')
            return fval(e[1], y, x), False
        raise ValueError(t)

    def bv(self, e):
        t = e[0]
        if t == 'lit':
            return e[1]
        if t == 'not':
            return not self.bv(e[1])
        if t == 'and':
            vals = [self.bv(s) for s in e[1]]      # no side effects: evaluate all to find fragile parts
            return all(vals)
        if t == 'or':
            vals = [self.bv(s) for s in e[1]]
            return any(vals)
        (a, xa), (b, xb) = self.ev(e[2]), self.ev(e[3])
        if not (xa and xb) and near(a, b):
            raise Fragile('comparison')
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[e[1]]

    def put(self, t, vx):
        v, x = vx
        if t[0] == 'loc':
            self.l[t[1]] = float(v)
            self.exact[t[1]] = x
        elif t[1] == 'n':
            if not x and near(v, round(v)):
                raise Fragile('int')
            self.s['n'] = int(v)
        else:
            self.s[t[1]] = float(np.float32(v)) if t[1] == 'a' else float(v)
            self.s['_x'][t[1]] = x
            if not x and abs(v) > 1e4:
                raise Fragile('large')

    def run(self, body):
        for s in body:
            t = s[0]
            if t == 'asg':
                self.put(s[1], self.ev(s[2]))
            elif t == 'aug':
                cur = self.ev(s[1])
                v = self.ev(s[3])
                r = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}[s[2]](cur[0], v[0])
                self.put(s[1], (self.big(r), cur[1] and v[1] and (s[2] != '/' or abs(v[0]) in (2, 4))))
            elif t == 'tup':
                vs = [self.ev(e) for e in s[2]]
                for tt, v in zip(s[1], vs):
                    self.put(tt, v)
            elif t == 'vec':
                (y, _), (x, _) = self.ev(s[2]), self.ev(s[3])
                if not (abs(x) < 900 and abs(y) < 900):
                    raise Fragile('position')
                self.put(s[1][0], (fval('U', y, x), False))
                self.put(s[1][1], (fval('V', y, x), False))
            elif t == 'arr':
                self.put(s[2], (s[1][s[3]], True))
            elif t == 'if':
                for c, b in s[1]:
                    if self.bv(c):
                        self.run(b)
                        break
                else:
                    self.run(s[2])
            elif t == 'while':
                i = 0
                while i < s[1] and (s[2] is None or self.bv(s[2])):
                    i += 1
                    try:
                        self.run(s[3])
                    except Break:
                        break
                else:
                    if i >= s[1] and s[2] is not None:
                        try:
                            self.bv(s[2])      # compiled code may sample here: must stay in the domain
                        except Fragile as e:
                            if str(e) == 'position':
                                raise
            elif t == 'ifbreak':
                if self.bv(s[1]):
                    raise Break()
            elif t == 'ifret':
                if self.bv(s[1]):
                    if s[2] != 'StateCode.Success':
                        self.s['_deleted'] = True
                        # the rest of the kernel acts on a particle that is going to be removed
                    raise Return()


# -------------------------------------------------------------------- execution

def pclass(base):
    class KP(base):
        a = Variable('a', dtype=np.float32, initial=0.)
        b = Variable('b', dtype=np.float64, initial=0.)
        n = Variable('n', dtype=np.int32, initial=0)
    return KP


PC = {'jit': pclass(JITParticle), 'scipy': pclass(ScipyParticle)}
_fs = {}


def fieldset():
    if 'fs' not in _fs:
        x, y = np.meshgrid(GX, GX)
        dims = {'lon': np.array(GX), 'lat': np.array(GX)}
        fs = FieldSet.from_data({k: (c[0] * x + c[1] * y + c[2]).astype(np.float32) for k, c in COEF.items()}, dims, mesh='flat')
        fs.add_field(fs.P + fs.Q, 'S') if hasattr(fs.P, '__add__') else None
        fs.add_constant('cc', CONST)
        _fs['fs'] = fs
    return _fs['fs']


STEPS = 3


def expected(case):
    out = []
    for p in case['parts']:
        s = dict(p, _x={}, _deleted=False)
        for step in range(STEPS):
            it = Interp(s, float(step))
            try:
                for k in case['kernels']:
                    it.run(k)
            except Return:
                pass
            if s['_deleted']:
                break
        out.append(s)
    return out


def run(case, srcs=None):
    try:
        exp = expected(case)
    except Fragile as e:
        return {'nontrivial': False, 'labels': ['skipped:' + str(e)]}
    except OverflowError:
        return {'nontrivial': False, 'labels': ['skipped:overflow']}
    srcs = srcs or [source(k, i, first=100 * i) for i, k in enumerate(case['kernels'])]
    fs = fieldset()
    labels = set()
    for mode in ('jit', 'scipy'):
        fns = [function(s, 'kern%d' % i) for i, s in enumerate(srcs)]
        pset = ParticleSet(fs, pclass=PC[mode], lon=[p['lon'] for p in case['parts']], lat=[p['lat'] for p in case['parts']],
                           time=0., lonlatdepth_dtype=np.float64, a=[p['a'] for p in case['parts']], b=[p['b'] for p in case['parts']],
                           n=[p['n'] for p in case['parts']])
        ids = [int(p.id) for p in pset]
        if len(fns) == 1:
            k = fns[0] if case['how'] % 2 else pset.Kernel(fns[0])
        else:
            k = pset.Kernel(fns[0])
            for f in fns[1:]:
                k = k + (f if case['how'] % 2 else pset.Kernel(f))
            if case['how'] == 2 and len(fns) == 2:
                k = fns[0] + pset.Kernel(fns[1])
        pset.execute(k, runtime=STEPS, dt=1, verbose_progress=False)
        got = {int(p.id): p for p in pset}
        for i, (pid, e) in enumerate(zip(ids, exp)):
            if e['_deleted'] != (pid not in got):
                raise Violation('%s: particle %d should%s be deleted\n%s' % (mode, i, '' if e['_deleted'] else ' not', ''.join(srcs)))
            if e['_deleted']:
                labels.add('deleted')
                continue
            for v in ('a', 'b', 'n', 'lon', 'lat'):
                g = float(getattr(got[pid], v))
                if not abs(g - e[v]) <= 2e-4 * (1 + abs(e[v])):
                    raise Violation('%s: particle.%s of particle %d is %r, Python semantics give %r\n%s' % (mode, v, i, g, e[v], ''.join(srcs)))
    changed = any(e['_deleted'] or any(e[v] != p[v] for v in 'abn') for e, p in zip(exp, case['parts']))

    def kinds(b):
        for s in b:
            labels.add(s[0])
            for x in s[1:]:
                if isinstance(x, list):
                    kinds2(x)

    def kinds2(x):
        if x and isinstance(x[0], str):
            labels.add(x[0])
        for y in x:
            if isinstance(y, list):
                kinds2(y)
    for k in case['kernels']:
        kinds(k)
    return {'nontrivial': changed, 'labels': sorted(labels)}


def run_seq(case):
    """Kernels built one after the other do not influence each other, whatever names they use."""
    pre = 'v' + hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8] + 'x'
    info = []
    for i, k in enumerate(case['kernels']):
        one = dict(case, kernels=[k])
        info.append(run(one, [source(k, 0, (pre, pre))]))
    return {'nontrivial': sum(x['nontrivial'] for x in info) > 1, 'labels': ['sequence of %d' % len(info)]}


MATH = sorted(f for f in dir(math) if not f.startswith('_'))


@st.composite
def math_case(draw):
    f = draw(st.sampled_from(MATH))
    return {'fn': f, 'nargs': draw(st.sampled_from([1, 1, 2])), 'x': draw(st.sampled_from([.5, 1., 2., 3.25, -.5, -2.5, 0., 7.])),
            'y': draw(st.sampled_from([1., 2., -.75, 3.]))}


def run_math(case):
    f = getattr(math, case['fn'])
    args = ['particle.b', '%r' % case['y']][:case['nargs']]
    if not callable(f):
        expr, exp = 'math.%s' % case['fn'], f
    else:
        try:
            exp = f(*[case['x'], case['y']][:case['nargs']])
        except (TypeError, ValueError, ArithmeticError):
            return {'nontrivial': False, 'labels': ['outside the domain of the function']}
        expr = 'math.%s(%s)' % (case['fn'], ', '.join(args))
    if not isinstance(exp, (int, float)):
        return {'nontrivial': False, 'labels': ['not a number']}
    src = 'def kern0(particle, fieldset, time):\n    particle.b = %s\n' % expr
    labels = []
    for mode in ('jit', 'scipy'):
        pset = ParticleSet(fieldset(), pclass=PC[mode], lon=[0.], lat=[0.], time=0., b=[case['x']])
        try:
            pset.execute(function(src, 'kern0'), runtime=1, dt=1, verbose_progress=False)
        except Exception as e:
            if mode == 'scipy':
                raise
            labels.append('refused')
            continue
        g = float(pset[0].b)
        if not (g == exp or (g != g and exp != exp) or abs(g - exp) <= 1e-5 * (1 + abs(exp))):
            raise Violation('%s: %s with particle.b=%r gives %r, Python gives %r' % (mode, expr, case['x'], g, exp))
    return {'nontrivial': not labels, 'labels': labels + [case['fn']]}


@st.composite
def reuse_s(draw):
    return {'add': draw(st.lists(st.tuples(st.integers(-8, 8), st.sampled_from(['function', 'same', 'kernel', 'sum'])).map(list), min_size=2, max_size=5)),
            'samename': draw(st.integers(0, 3)) > 0, 'mode': draw(st.sampled_from(['jit', 'scipy'])), 'n': draw(st.integers(1, 2))}


def run_reuse(case):
    """What is executed is the kernel handed over, whatever was executed on the particle set before and whatever its name."""
    pset = ParticleSet(fieldset(), pclass=PC[case['mode']], lon=[0.] * case['n'], lat=[0.] * case['n'], time=0., b=[0.] * case['n'])
    fns, total, done = {}, 0., []
    for i, (c, how) in enumerate(case['add']):
        name = 'kern0' if case['samename'] else 'kern%d' % i
        if how == 'same' and c in fns:
            f = fns[c]
        else:
            f = fns[c] = function('def %s(particle, fieldset, time):\n    particle.b += %r\n' % (name, c / 4), name)
        k = f if how in ('function', 'same') else pset.Kernel(f)
        if how == 'sum':
            k = k + pset.Kernel(f)
        pset.execute(k, runtime=1, dt=1, verbose_progress=False)
        total += c / 4 * (1 + (how == 'sum'))
        done.append((how, c / 4))
        for p in pset:
            if float(p.b) != total:
                raise Violation('%s: after executing kernels that add %s (same name: %s) particle.b is %r instead of %r'
                                % (case['mode'], done, case['samename'], float(p.b), total))
    return {'nontrivial': len(set(c for c, _ in case['add'])) > 1, 'labels': ['same name'] if case['samename'] else []}


SUBCHECKS = [Sub('program', lambda: case_s(1), run, quick=220, thorough=6000, budget=50),
             Sub('combined', lambda: case_s(2), run, quick=100, thorough=3000, budget=25),
             Sub('sequence', lambda: case_s(2), run_seq, quick=25, thorough=500, budget=20),
             Sub('mathfn', math_case, run_math, quick=90, thorough=1000, budget=20),
             Sub('reuse', reuse_s, run_reuse, quick=20, thorough=500, budget=12)]
