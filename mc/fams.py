"""Families of projects shared by the scheduling properties: every family is a finite set of small worlds, and every
scheduler runs on every one of them. Each property judges its own aspects of the results."""
import itertools

from . import core, sched
from . import worlds as W


def R(*q):
    return {'req': [list(x) for x in q]}


D1 = R(('driver', 4, 1, 2))
D2 = R(('driver', 5, 1, 1))
DF = R(('driver', 7, 2, 2), ('fitter', 3, 1, 1))
F1 = R(('fitter', 5, 1, 2))
N0 = R()
SV = dict(R(), svc=1)
FD = R(('fitter', 9, 1, 2), ('driver', 2, 1, 3))
D13 = R(('driver', 13, 1, 3))
SMALL = [D1, DF]

C21 = [{'driver': 2, 'fitter': 1}]
TWO = [{'driver': 2, 'fitter': 1}, {'driver': 3, 'fitter': 2}]
ORD = [{'driver': 2, 'fitter': 1}, {'fitter': 2, 'driver': 1}]
SPLIT = [{'driver': 2}, {'fitter': 2}, {'driver': 2, 'fitter': 1}]

FS0, FS3, IFS, FFS2 = (0, 'FS'), (3, 'FS'), (0, 'IFS'), (2, 'FFS')


def make(n, kinds, alphabet, cons, max_edges=None, need=None, min_edges=0):
    for e in W.edge_sets(n, kinds, max_edges):
        if len(e) < min_edges or need and not any(x[3] == need for x in e):
            continue
        for ws in itertools.product(alphabet, repeat=n):
            for con in cons:
                yield {'works': W.with_chains(list(ws), e), 'edges': e, 'con': con}


def w2(t):
    """2 works, every edge kind, every requirement shape, every contractor set"""
    yield from make(2, [FS0, FS3, IFS, FFS2], [D1, D2, DF, N0, F1, FD, SV, D13], [C21, TWO, ORD, SPLIT])
    yield from make(2, [(1.5, 'FS'), (-1.5, 'FS'), (0.5, 'FFS')], [D1, D2, DF], [C21], min_edges=1)


def w3(t):
    """3 works, every graph over {FS, FS+3, inseparable, FFS+2}"""
    yield from make(3, [FS0, FS3, IFS, FFS2], SMALL if t == 'quick' else [D1, DF, N0], [C21, TWO] if t != 'quick' else [C21])


def w3c(t):
    """3 works over contested kinds and several contractors"""
    yield from make(3, [FS0] if t == 'quick' else [FS0, FS3], [D1, FD, D13] if t == 'quick' else [D1, FD, D13, F1], [TWO, ORD])


def w4(t):
    """4 works, every graph over {FS, inseparable} (quick: up to 3 edges)"""
    yield from make(4, [FS0, IFS], SMALL, [C21], max_edges=3 if t == 'quick' else None)


def w4lag(t):
    """4 works, lags and contested crews that leave gaps in the timelines"""
    yield from make(4, [FS0, FS3], [D1, D2, DF] if t != 'quick' else [D2, DF], [C21], max_edges=2 if t == 'quick' else 4)


def chain4(t):
    """4 works with an inseparable chain and external predecessors of its members"""
    yield from make(4, [FS0, IFS] if t == 'quick' else [FS0, FS3, IFS], SMALL, [[{'driver': 3, 'fitter': 1}]], need='IFS',
                    max_edges=None if t == 'quick' else 5, min_edges=3)


def pri3(t):
    """3 works with priorities that respect the precedence"""
    for e in W.edge_sets(3, [FS0, FS3, IFS]):
        for ws in itertools.product(SMALL, repeat=3):
            for pri in itertools.product([1, 2] if t == 'quick' else [1, 2, 3], repeat=3):
                if max(pri) == 1 or any(pri[a] > pri[b] or k == 'IFS' and pri[a] != pri[b] for a, b, _, k in e):
                    continue
                yield {'works': W.with_chains([dict(x, pri=p) for x, p in zip(ws, pri)], e), 'edges': e, 'con': C21}


def start3(t):
    """3 works, the project starts later than 0"""
    for w in make(3, [FS0, FS3, IFS], [D1, DF, N0] if t != 'quick' else [D1, N0], [C21]):
        yield dict(w, start=5)


def named3(t):
    """3 works whose ids sort in every order (tie-breaking goes by id)"""
    for w in make(3, [FS0, IFS], [D1, DF], [C21]):
        for p in itertools.permutations('abc'):
            if ''.join(p) != 'abc':
                yield dict(w, ids=list(p))


def spec3(t):
    """3 works, one of them specified: contractors, workers (full or partial), time, independence and pairs of them"""
    one = [{'con': ['c1']}, {'con': ['c0', 'c1']}, {'team': {'driver': 2}}, {'team': {'driver': 2, 'fitter': 1}},
           {'team': {'fitter': 1}}, {'time': 3}, {'indep': 1}, {'team': {'driver': 2, 'fitter': 1}, 'time': 3},
           {'con': ['c0'], 'time': 5}, {'con': ['c1'], 'team': {'driver': 2}}, {'indep': 1, 'time': 2}]
    for e in W.edge_sets(3, [FS0, IFS] if t == 'quick' else [FS0, FS3, IFS]):
        heads = W.chain_heads(3, e)
        for ws in itertools.product(SMALL, repeat=3):
            wk = W.with_chains(list(ws), e)
            for con in ([TWO] if t == 'quick' else [TWO, [{'driver': 1, 'fitter': 1}, {'driver': 3, 'fitter': 2}]]):
                for i in range(3):
                    if heads[i] != i:
                        continue
                    for sp in one:
                        if set(sp.get('team', {})) <= {q[0] for q in wk[i]['req']}:
                            yield {'works': wk, 'edges': e, 'con': con, 'spec': {str(i): sp}}


def spec2x(t):
    """2 works, both specified"""
    one = [{'con': ['c1']}, {'team': {'driver': 2}}, {'time': 3}, {'indep': 1}, {'con': ['c1'], 'time': 4},
           {'indep': 1, 'team': {'driver': 2}}]
    for e in W.edge_sets(2, [FS0]):
        for ws in itertools.product(SMALL, repeat=2):
            for s0, s1 in itertools.product(one, repeat=2):
                yield {'works': list(ws), 'edges': e, 'con': TWO, 'spec': {'0': s0, '1': s1}}


def spec_cap(t):
    """a specified team that only some contractors own"""
    cons = [[{'driver': 1, 'fitter': 1}, {'driver': 3, 'fitter': 2}], [{'driver': 3, 'fitter': 2}, {'driver': 1, 'fitter': 1}],
            [{'driver': 1}], [{'driver': 3, 'fitter': 1}]]
    for e in W.edge_sets(2, [FS0, IFS]):
        for ws in itertools.product([D13, R(('driver', 7, 1, 3), ('fitter', 3, 1, 2))], repeat=2):
            wk = W.with_chains(list(ws), e)
            for con in cons:
                for sp in [{'team': {'driver': 2}}, {'team': {'driver': 3}}, {'team': {'driver': 3, 'fitter': 2}},
                           {'team': {'fitter': 2}}, {'con': ['c0'], 'team': {'driver': 2}}]:
                    if set(sp['team']) <= {q[0] for q in wk[0]['req']}:
                        yield {'works': wk, 'edges': e, 'con': con, 'spec': {'0': sp}}


def infeas(t):
    """contractors that may be unable to perform a work"""
    cons = [[{'driver': 1, 'fitter': 1}], [{'driver': 2}], [{'fitter': 1}], [{'driver': 1}, {'driver': 2}],
            [{'driver': 0, 'fitter': 2}], [{'driver': 1}, {'fitter': 1}], [{'driver': 2, 'fitter': 1}]]
    yield from make(2, [FS0, IFS], [D1, D2, DF, N0, F1], cons)
    if t != 'quick':
        yield from make(3, [FS0], [D1, DF, F1], cons)


def ga3(t):
    """the worlds for the (slower) genetic scheduler"""
    yield from make(3, [FS0, FS3, IFS] if t == 'quick' else [FS0, FS3, IFS, FFS2], [D1, DF], [TWO])


def ga2(t):
    yield from make(2, [FS0, (2.5, 'FS'), IFS], [D1, DF, F1, N0], [TWO, ORD])


def zones2(t):
    """works with required zone statuses"""
    costs = [[0, 1, 1], [1, 0, 1], [1, 1, 0]]
    zs = [[], [['zone1', 1]], [['zone1', 2]]]
    n = 3
    for e in W.edge_sets(n, [FS0] if t == 'quick' else [FS0, IFS]):
        for z in itertools.product(zs, repeat=n):
            if not any(z):
                continue
            works = [dict(D1, zones=x) for x in z]
            if any(k == 'IFS' and works[a]['zones'] != works[b]['zones'] for a, b, _, k in e):
                continue
            for st in ([1] if t == 'quick' else [0, 1]):
                yield {'works': works, 'edges': e, 'con': [{'driver': 2}],
                       'zcfg': {'start': {'zone1': st}, 'costs': costs}}


def fam(name, gen, schedulers, aspects, tier='quick'):
    def cases(t):
        names = schedulers(t) if callable(schedulers) else schedulers
        for w in gen(t):
            for s in names:
                yield {'s': s, 'w': w}

    def run(case, out):
        w = case['w']
        got = sched.check_world(w, case['s'], out, aspects, w.get('start', 0))
        out.nontrivial = got is not None and (len(w['edges']) > 0 or any(x.get('req') for x in w['works']))

    return core.Family(name, cases, run, rule='%s; schedulers %s' % (gen.__doc__ or gen.__name__, schedulers if not
                       callable(schedulers) else schedulers('thorough')), tier=tier)


FAST = sched.FAST
ALL8 = sched.FAST + sched.MORE
