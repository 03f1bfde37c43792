import copy
import itertools
import math
import operator as op
import pickle

from mc import core, rngmc
from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.time import Time

RULE = 'every operation on every pair and every short sequence of values, compared with whole numbers'
INF = 2_000_000_000
VALS = [0, 1, -1, 2, 3, -5, 7, 10, 999_999_999, INF // 2, INF - 1, INF, INF + 1, -INF, -INF + 1, -INF - 1, 4 * 10 ** 9]
FLOATS = [0.0, 0.4, 0.5, 0.99, 1.5, -0.5, -1.5, 2.999999, 1e9 + 0.5, 3e9, -3e9]
OPS = {'+': op.add, '-': op.sub, '*': op.mul, '//': op.floordiv, '/': op.truediv, '<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge, '==': op.eq, '!=': op.ne}


def clamp(v):
    v = int(v)
    return max(-INF, min(INF, v))


def num(x):
    return x.value if isinstance(x, Time) else x


def pair_gen(t):
    for a in VALS + FLOATS:
        yield {'a': a}


def pair_run(case, out):
    a = case['a']
    out.nontrivial = True
    x = Time(a)
    ca = clamp(a)
    if (x.value, int(x), str(x), repr(x), bool(x), hash(x), x.is_inf(), type(x.value)) != (ca, ca, str(ca), str(ca), ca != 0, hash(ca), abs(ca) == INF, int):
        out.bad('value', 'Time(%r) holds %r, expected %d' % (a, x.value, ca))
    if Time.inf().value != INF or Time().value != 0:
        out.bad('value', 'default values')
    for y in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x)), Time.load(x.dump(), '.') if False else Time._deserialize(x._serialize())):
        if y != x or type(y) is not Time or hash(y) != hash(x):
            out.bad('copy', 'a copy of %r is %r' % (x, y))
    for b in VALS + FLOATS:
        cb = clamp(b)
        for name, f in OPS.items():
            arith = name in ('+', '-', '*', '//', '/')
            for mode in ('tt', 'tn', 'nt'):
                l, r = (x, Time(b)) if mode == 'tt' else (x, b) if mode == 'tn' else (a, Time(b))
                el, er = num(l), num(r)
                if mode == 'nt' and name in ('//', '/'):
                    continue  # numbers cannot be divided by times
                if name in ('//', '/') and er == 0:
                    continue
                e = f(el, er)
                if arith and name != '/':
                    e = clamp(e)
                g = f(l, r)
                out.transitions += 1
                if arith and name != '/' and type(g) is not Time or num(g) != e or (not arith and type(g) is not bool) or (name == '/' and isinstance(g, Time)):
                    out.bad('op:%s:%s' % (name, mode), '%r %s %r (%s) is %r, expected %r' % (l, name, r, mode, g, e))
                if num(x) != ca:
                    out.bad('mutated', '%r %s %r changed its operand' % (l, name, r))
        out.execs += 1
        if len({x, Time(b)}) != (1 if ca == cb else 2) or (x in {cb: 1}) != (ca == cb):
            out.bad('hash', 'times %r and %r in a set' % (x, b))
    out.state([a])


def seq_gen(t):
    q = t == 'quick'
    vals = [0, 1, -1, 7, INF, -INF, INF // 2] if q else VALS
    for a in vals:
        for d in (2, 3):
            for seq in itertools.product('+-*R', repeat=d):
                yield {'start': a, 'ops': ''.join(seq), 'vals': vals if q or d == 2 else vals[::2]}


def seq_run(case, out):
    out.nontrivial = True
    d = len(case['ops'])
    for bs in itertools.product(case['vals'], repeat=d):
        x, v = Time(case['start']), clamp(case['start'])
        for o, b in zip(case['ops'], bs):
            if o == 'R':
                x = b - x
                v = clamp(b - v)
            elif o == '+':
                x += Time(b)
                v = clamp(v + clamp(b))
            else:
                f = op.sub if o == '-' else op.mul
                x, v = f(x, b), clamp(f(v, b))
        out.transitions += d
        if x.value != v:
            out.bad('sequence', '%s with %s gives %r, expected %r' % (case, bs, x, v))
            break
    lst = [Time(b) for b in case['vals']]
    if [y.value for y in sorted(lst)] != sorted(clamp(b) for b in case['vals']) or max(lst).value != max(clamp(b) for b in case['vals']) or \
            sum(lst[:3]).value != clamp(clamp(clamp(lst[0].value) + lst[1].value) + lst[2].value):
        out.bad('order', 'order, maximum or sum of %s' % lst)
    out.execs += 1
    out.state([case['start'], case['ops']])


BOUNDS = [-math.inf, -2.5, -1, 0, 0.5, 1, 3, 3.7, 6, 120000, math.inf]


def int_gen(t):
    for i, a in enumerate(BOUNDS):
        for b in BOUNDS[i:]:
            if a == b and math.isinf(a):
                continue
            for m in (0, 1, 2.6, 5):
                for s in (0, 1, 2.2, 40, 300000):
                    yield {'kind': 'gauss', 'min': str(a), 'max': str(b), 'mean': m, 'sigma': s}
            if not math.isinf(a) and not math.isinf(b):
                yield {'kind': 'uniform', 'min': str(a), 'max': str(b)}
    yield {'kind': 'gauss', 'min': None, 'max': None, 'mean': 2, 'sigma': 3}


def int_run(case, out):
    a, b = (None, None) if case['min'] is None else (float(case['min']), float(case['max']))
    out.nontrivial = True
    own = case.get('own')

    def go(ch):
        r = rngmc.ChoiceRandom(ch, floats=(0.0, 0.3, 0.5, 0.999999))
        if case['kind'] == 'uniform':
            mk = lambda rand: IntervalUniform(a, b, rand)
        elif a is None:
            mk = lambda rand: IntervalGaussian(case['mean'], case['sigma'], rand=rand)
        else:
            mk = lambda rand: IntervalGaussian(case['mean'], case['sigma'], a, b, rand)
        return mk(None).rand_float(r), mk(None).rand_int(r), mk(r).rand_float(), mk(r).rand_int()
    lo, hi = (-math.inf, math.inf) if a is None else (a, b)
    has_int = math.isinf(lo) or math.isinf(hi) or math.ceil(lo) <= hi
    for ds, (f, i, f2, i2) in rngmc.explore(go):
        raw = [case['mean'] + case['sigma'] * (-1, 0, 1)[d] for d in ds] if case['kind'] == 'gauss' else [a + (b - a) * (0.0, 0.3, 0.5, 0.999999)[d] for d in ds]
        for k, (v, integer) in enumerate(((f, False), (i, True), (f2, False), (i2, True))):
            if integer and not has_int:
                continue
            e = raw[k]
            if integer:
                e = round(e)
                if e < lo:
                    e = math.ceil(lo)
                if e > hi:
                    e = math.floor(hi)
                if type(v) is not int:
                    out.bad('interval-type', '%s gives %r' % (case, v))
            else:
                e = min(max(e, lo), hi)
            if v != e or not lo <= v <= hi:
                out.bad('interval-%s' % ('int' if integer else 'float'), '%s gives %r for the random answer %r, expected %r' % (case, v, raw[k], e))
        out.execs += 1
        out.transitions += 4
    out.state([case])


FAMILIES = [core.Family('pairs', pair_gen, pair_run, 'all 11 operations on all pairs of 28 values, with times and plain numbers on either side'),
            core.Family('sequences', seq_gen, seq_run, 'all sequences of up to 3 operations from all of 7 (thorough 17) values'),
            core.Family('intervals', int_gen, int_run, 'all bounds, means and deviations of the grid; every answer of the random source')]
