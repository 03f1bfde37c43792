import itertools
import math
from fractions import Fraction as F

from mc import core, rngmc, snap
from sampo.schemas.graph import EdgeType, GraphNode
from sampo.schemas.interval import IntervalGaussian
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker, WorkerProductivityMode
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.schemas.works import WorkUnit
from sampo.scheduler.utils.time_computaion import calculate_working_time, calculate_working_time_cascade, work_priority

RULE = 'every combination of requirements, crews and productivity settings on the grid, compared with exact fractions'
INF = Time.inf().value


def coef(n, m):
    return F(-2 * n ** 3 + 3 * n ** 2 + (6 * m * m - 1) * n, 6 * m * m)


def allowed(reqs, crew, prod):
    """durations that rounding allows; reqs: (kind, volume, min, max); crew: kind -> (count, contractor); prod(kind, contractor) -> Fraction"""
    lo = hi = 0
    if not crew:
        return {0}
    for k, v, a, b in reqs:
        if a == 0:
            continue
        n, c = crew.get(k, (0, ''))
        p = F(0) if n < a else prod(k, c) * n * coef(n, b)
        if n < a or p == 0:
            return {INF}
        r = v / p
        # one worker of a crew of one or two works exactly as productive as it is; other shares are no binary fractions
        eps = 0 if n == 1 and b in (1, 2) and (prod(k, c) * 4).denominator == 1 else F(1, 10 ** 9)
        lo = max(lo, math.ceil(r - eps))
        hi = max(hi, math.ceil(r + eps))
    return {max(lo, 0), max(hi, 0)}


def unit(i, reqs):
    return WorkUnit('w%s' % i, {'granular_name': 'w', 'measurement': 'm'}, worker_reqs=[WorkerReq(k, Time(v), a, b) for k, v, a, b in reqs])


def one_gen(t):
    q = t == 'quick'
    vols = (0, 1, 5, 7, 30, 100) if q else (0, 1, 2, 3, 5, 7, 11, 30, 100, 1000, 10 ** 6)
    for a, b in [(a, b) for a in range(0, 4) for b in range(max(a, 1), 7 if q else 11)]:
        for v in vols:
            for m in (1, 0.5, 2, 0.2, 0):
                yield {'req': ['driver', v, a, b], 'mean': m}


def one_run(case, out):
    k, v, a, b = case['req']
    u = unit(0, [case['req']])
    before = snap.obj(u)
    best = {}
    for scope in (None, 'c0', 'c1'):
        e = DefaultWorkEstimator()
        e.set_worker_productivity(IntervalGaussian(case['mean'], 0.3, 0, 9), k, scope)
        prod = lambda kind, c: F(case['mean']) if scope in (None, c) else F(1)
        for n in range(0, b + 1):
            for extra in (0, 1):
                crew = {k: (n, 'c0')}
                ws = [Worker('x', k, n, 'c0')]
                if extra:
                    ws.insert(0, Worker('y', 'fitter', 4, 'c0'))
                got = e.estimate_time(u, ws)
                out.transitions += 1
                ok = allowed([case['req']], crew, prod)
                if got.value not in ok:
                    out.bad('duration', '%d workers need %s, expected %s; scope %s of %s' % (n, got, ok, scope, case))
                if calculate_working_time(u, ws, e) != got:
                    out.bad('duration', 'two ways to ask differ; %s' % case)
                if n and best.get(scope, INF + 1) < got.value:
                    out.bad('monotone', '%d workers need %s, fewer need %s; %s' % (n, got, best[scope], case))
                best[scope] = got.value
                if [w.count for w in ws][-1] != n:
                    out.bad('mutated', 'crew was changed; %s' % case)
    if e.estimate_time(u, []) != 0:
        out.bad('empty', 'no crew at all needs %s' % e.estimate_time(u, []))
    d = snap.diff(before, snap.obj(u))
    if d:
        out.bad('mutated', 'work was changed: %s; %s' % (d, case))
    out.nontrivial = v > 0 and a > 0
    out.execs += 1
    out.state([case])


KINDS = ['driver', 'fitter', 'manager']


def many_gen(t):
    q = t == 'quick'
    reqs = [(5, 1, 3), (12, 2, 2), (0, 1, 1), (4, 0, 2)]
    for n in (2, 3):
        for rs in itertools.product(reqs, repeat=n):
            yield {'reqs': [[k, v, a, b] for k, (v, a, b) in zip(KINDS, rs)]}


def many_run(case, out):
    reqs = case['reqs']
    e = DefaultWorkEstimator()
    e.set_worker_productivity(IntervalGaussian(2, 0, 0, 9), 'fitter')
    e.set_worker_productivity(IntervalGaussian(0.5, 0, 0, 9), 'fitter', 'c1')
    prod = lambda k, c: F(1) if k != 'fitter' else F(1, 2) if c == 'c1' else F(2)
    out.nontrivial = True
    for perm in itertools.permutations(range(len(reqs))):
        u = unit(0, [reqs[i] for i in perm])
        for counts in itertools.product(range(0, 4), repeat=len(reqs)):
            if any(n > r[3] for n, r in zip(counts, reqs)):
                continue
            for c in ('c0', 'c1'):
                ws = [Worker(k, k, n, c) for k, n in zip(KINDS, counts) if n]
                got = e.estimate_time(u, ws).value
                ok = allowed(reqs, {w.name: (w.count, c) for w in ws}, prod)
                out.transitions += 1
                if got not in ok:
                    out.bad('duration', 'crew %s of %s needs %s, expected %s; order %s of %s' % (ws, c, got, ok, perm, case))
    out.execs += 1
    out.state([case])


def chain_gen(t):
    reqs = [[], [['driver', 5, 1, 3]], [['driver', 9, 2, 3]], [['fitter', 4, 1, 2]], [['driver', 3, 1, 2], ['fitter', 8, 1, 2]]]
    for n in (1, 2, 3):
        for rs in itertools.product(reqs, repeat=n):
            yield {'chain': list(rs)}


def chain_run(case, out):
    e = DefaultWorkEstimator()
    n = len(case['chain'])
    nodes = [GraphNode(unit(i, r), []) for i, r in enumerate(case['chain'])]
    for a, b in zip(nodes, nodes[1:]):
        b.add_parents([(a, 0, EdgeType.InseparableFinishStart)])
    out.nontrivial = n > 1
    one = lambda k, c: F(1)
    for counts in itertools.product(range(0, 3), repeat=2):
        ws = [Worker(k, k, c, 'c0') for k, c in zip(KINDS, counts) if c]
        crew = {w.name: (w.count, 'c0') for w in ws}
        sums = {0}
        for r in case['chain']:
            sums = {min(x + y, INF) for x in sums for y in allowed(r, crew, one)}
        for i, x in enumerate(nodes):
            got = calculate_working_time_cascade(x, ws, e).value
            out.transitions += 1
            if got not in (sums if i == 0 else {0}):
                out.bad('chain', 'work %d of the chain needs %s in total, expected %s; crew %s, %s' % (i, got, sums if i == 0 else 0, ws, case))
    for i, x in enumerate(nodes):
        def total(k):
            r = {0}
            for rs in case['chain']:
                crew = {q[0]: (q[k], '') for q in case['chain'][i]}
                r = {min(a + b, INF) for a in r for b in allowed(rs, crew, one)}
            return r
        ok = {F(a + b) for a in total(2) for b in total(3)} if i == 0 else {F(0)}
        ok = {F(min(s, INF), 2) + 1 for s in ok}
        got = F(work_priority(x, calculate_working_time_cascade, e))
        if got not in ok:
            out.bad('average', 'average time of work %d is %s, expected %s; %s' % (i, got, ok, case))
    out.execs += 1
    out.state([case])


def rand_gen(t):
    for reqs in ([['driver', 9, 1, 3]], [['driver', 9, 1, 2], ['fitter', 20, 1, 4]], [['driver', 7, 1, 2], ['fitter', 20, 2, 4], ['manager', 3, 1, 1]]):
        for mean, sigma, lo, hi in ((1, 0.2, 0, 2), (2, 1.5, 1, 2.5), (0.5, 1, 0, 1), (1, 0, 1, 1)):
            yield {'reqs': reqs, 'p': [mean, sigma, lo, hi]}
    yield {'reqs': [['driver', 9, 1, 3]], 'p': None}


def rand_run(case, out):
    """stochastic mode: the productivity of each crew is one draw from its interval"""
    out.nontrivial = True

    def go(ch):
        e = DefaultWorkEstimator(rngmc.ChoiceRandom(ch))
        if case['p']:
            for k in KINDS:
                e.set_worker_productivity(IntervalGaussian(*case['p']), k)
        e.set_productivity_mode(WorkerProductivityMode.Stochastic)
        return e.estimate_time(unit(0, case['reqs']), [Worker(r[0], r[0], r[3], 'c0') for r in case['reqs']]).value
    for ds, got in rngmc.explore(go):
        m, s, lo, hi = case['p'] or (1, 0.2, 0, 1e9)
        draws = [F(min(max(m + s * (-1, 0, 1)[d], lo), hi)) for d in ds]
        if case['p'] is None:
            if got >= INF:
                out.bad('stochastic', 'default productivity gives an endless work')
            continue
        it = dict(zip([r[0] for r in case['reqs']], draws))
        ok = allowed(case['reqs'], {r[0]: (r[3], 'c0') for r in case['reqs']}, lambda k, c: it.get(k, F(0)))
        out.transitions += 1
        if got not in ok:
            out.bad('stochastic', 'draws %s give %s, expected %s; %s' % (draws, got, ok, case))
    out.execs += 1
    out.state([case])


FAMILIES = [core.Family('one', one_gen, one_run, 'all volumes, least and most crews of the grid, all crew sizes, productivity per kind and contractor'),
            core.Family('many', many_gen, many_run, 'all pairs and triples of 4 requirements in every order, all crews'),
            core.Family('chains', chain_gen, chain_run, 'all chains of up to 3 of 5 works, all crews; average times for ranking'),
            core.Family('stochastic', rand_gen, rand_run, 'all draws of the productivity')]
