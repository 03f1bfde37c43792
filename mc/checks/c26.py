import itertools

import numpy as np

from mc import core
from sampo.scheduler.resource import AverageReqResourceOptimizer, FullScanResourceOptimizer
from sampo.scheduler.resource.coordinate_descent import CoordinateDescentResourceOptimizer
from sampo.scheduler.resource.identity import IdentityResourceOptimizer
from sampo.schemas.resources import Worker
from sampo.schemas.time import Time
from sampo.utilities.base_opt import coordinate_descent, dichotomy_float, dichotomy_int

RULE = ('every function from crews to finish times (up to 4 different times) on a grid of crews is given to the optimizer; every crew '
        'it asks about and the crew it leaves are compared with the borders, the kinds that may not change and the smallest crew')
INF = 3  # the largest value of the functions stands for a work that never finishes


def exact(down, up, f):
    return min(range(down, up + 1), key=lambda x: (int(f(x)), x))


OPT = {'descent': lambda: CoordinateDescentResourceOptimizer(dichotomy_int),
       'descent exact': lambda: CoordinateDescentResourceOptimizer(exact),
       'full': FullScanResourceOptimizer,
       'identity': IdentityResourceOptimizer}
AVG = (1, 8 / 7, 4 / 3, 1.5, 2, 3, 4, 8, 10000)


def call(opt, down, up, first, mask, fn):
    """-> (resulting counts, [asked counts], problem)"""
    team = [Worker(str(i), 'k%d' % i, c, contractor_id='c') for i, c in enumerate(first)]
    same = list(team)
    asked = []

    def finish(t):
        c = tuple(int(w.count) for w in t)
        asked.append(c)
        return fn(c)

    d, u = np.array(down), np.array(up)
    m = None if mask is None else np.array(mask, dtype=bool)
    pool = {w.name: {'c': w.copy()} for w in team}
    opt.optimize_resources(pool, team, m, d, u, finish)
    problem = None
    if team != same or [(w.id, w.name, w.contractor_id) for w in team] != [(str(i), 'k%d' % i, 'c') for i in range(len(first))]:
        problem = 'the team consists of other workers now'
    if list(d) != list(down) or list(u) != list(up) or (mask is not None and list(m) != list(mask)):
        problem = 'the given borders or mask changed to %s, %s, %s' % (d, u, m)
    if {k: [(c, w.count) for c, w in v.items()] for k, v in pool.items()} != {'k%d' % i: [('c', c)] for i, c in enumerate(first)}:
        problem = 'the pool of workers changed'
    return tuple(int(w.count) for w in team), asked, problem


def fits(c, down, up, first, mask):
    return all(c[i] == first[i] if mask is not None and not mask[i] else down[i] <= c[i] <= up[i] for i in range(len(c)))


def run(case, out):
    down, up, first, mask = case['down'], case['up'], case['first'], case['mask']
    grid = list(itertools.product(*[[first[i]] if mask is not None and not mask[i] else range(a, b + 1)
                                    for i, (a, b) in enumerate(zip(down, up))]))
    opt = OPT[case['opt']]()
    low = grid[0]
    pre = tuple(case['values'])
    for rest in itertools.product(range(case['v']), repeat=len(grid) - len(pre)):
        vals = dict(zip(grid, pre + rest))
        text = '%s: borders %s..%s, crew %s, may change %s, finish times %s' % (case['opt'], down, up, first, mask, vals)
        try:
            got, asked, problem = call(opt, down, up, first, mask,
                                       lambda c: Time.inf() if vals.get(c, 0) == INF else Time(vals.get(c, 0)))
        except Exception as e:
            out.bad('raises', '%s: %r' % (text, e))
            return
        out.execs += 1
        out.transitions += len(asked)
        out.nontrivial = True
        if problem:
            out.bad('changes', '%s: %s' % (text, problem))
        if case['opt'] == 'identity':
            if got != tuple(first) or asked:
                out.bad('identity', '%s: the crew became %s, asked about %s' % (text, got, asked))
            continue
        wrong = [c for c in asked + [got] if not fits(c, down, up, first, mask)]
        if wrong:
            out.bad('borders', '%s: crew %s (resulting crew %s)' % (text, wrong[0], got))
            return
        dec = all(vals[a] >= vals[b] for a in grid for b in grid if all(x <= y for x, y in zip(a, b)))
        # the largest crew, less one worker of each kind
        high = tuple(low[i] if mask is not None and not mask[i] else max(down[i], up[i] - 1) for i in range(len(low)))
        if case['opt'] == 'descent exact':
            high = low  # stops at the first of the best counts
        if dec and vals[got] > vals[high]:
            out.bad('worse', '%s: the crew became %s that finishes later than %s' % (text, got, high))
            return
        if case['opt'] == 'descent exact':
            cur = list(low)
            for i in range(len(cur)):
                if mask is None or mask[i]:
                    cur[i] = min(range(down[i], up[i] + 1), key=lambda x: (vals[tuple(cur[:i] + [x] + cur[i + 1:])], x))
            if got != tuple(cur):
                out.bad('descent', '%s: the crew became %s, the best counts one kind after another are %s' % (text, got, cur))
                return
        out.state([case['opt'], down, up, got])


def gen(t):
    q = t == 'quick'
    for opt in OPT:
        # one kind of workers
        for lo in (0, 1, 2):
            for n in range(1, 9 if q else 11):
                for mask in (None, [True], [False]):
                    for first in {lo, lo + n - 1} if opt == 'identity' or mask == [False] else {lo}:
                        for v in itertools.product(range(4), repeat=min(n, 2) if mask != [False] else 1):
                            yield {'opt': opt, 'down': [lo], 'up': [lo + n - 1], 'first': [first], 'mask': mask, 'values': v, 'v': 4}
        # several kinds
        sizes = [((1, 2), (1, 2)), ((1, 3), (2, 3)), ((0, 1), (1, 4)), ((1, 1), (2, 4)), ((1, 3), (1, 3))] + ([] if q else [((1, 2), (0, 4))])
        for (a, b), (c, d) in sizes:
            for mask in (None, [True, True], [True, False], [False, True], [False, False]):
                for first in ((a, d), (b, c)):
                    for v in itertools.product(range(3), repeat=1):
                        yield {'opt': opt, 'down': [a, c], 'up': [b, d], 'first': list(first), 'mask': mask, 'values': v, 'v': 3}
        for mask in itertools.product((True, False), repeat=3):
            yield {'opt': opt, 'down': [1, 0, 1], 'up': [2, 1, 2], 'first': [2, 1, 1], 'mask': list(mask), 'values': [], 'v': 3 if not all(mask) else 2}
    # whole and shared borders, larger crews: the functions are given by their best crew
    for opt in ('descent', 'full'):
        for up in ((9, 7), (16, 1), (5, 20)):
            for best in itertools.product(*[range(1, u + 1) for u in up]):
                yield {'opt': opt, 'down': [1, 1], 'up': list(up), 'best': best}


def run_any(case, out):
    if 'best' not in case:
        return run(case, out)
    down, up, best = case['down'], case['up'], case['best']
    for mask in (None, [True, False], [False, True], [True, True]):
        first = [up[0], down[1]]
        for name, fn in (('distance', lambda c: Time(sum(abs(x - y) for x, y in zip(c, best)))),
                         ('enough', lambda c: Time(sum(max(0, y - x) for x, y in zip(c, best)))),
                         ('never', lambda c: Time(100 - sum(c)) if all(x >= y for x, y in zip(c, best)) else Time.inf())):
            got, asked, problem = call(OPT[case['opt']](), down, up, first, mask, fn)
            text = '%s: borders %s..%s, crew %s, may change %s, best %s (%s)' % (case['opt'], down, up, first, mask, best, name)
            out.execs += 1
            out.transitions += len(asked)
            out.nontrivial = True
            wrong = [c for c in asked + [got] if not fits(c, down, up, first, mask)]
            high = tuple(first[i] if mask is not None and not mask[i] else max(down[i], up[i] - 1) for i in range(2))
            if problem:
                out.bad('changes', '%s: %s' % (text, problem))
            elif wrong:
                out.bad('borders', '%s: crew %s (resulting crew %s)' % (text, wrong[0], got))
            elif name == 'distance' and case['opt'] == 'descent' and any(
                    abs(got[i] - best[i]) > 1 for i in range(2) if mask is None or mask[i]):
                out.bad('descent', '%s: the crew became %s' % (text, got))
            elif name != 'distance' and fn(got) > fn(high):
                out.bad('worse', '%s: the crew became %s' % (text, got))
    out.state(case)


def gen_avg(t):
    top = 12 if t == 'quick' else 25
    for k in AVG:
        for lo in range(-1, 4):
            yield {'k': k, 'lo': lo, 'top': top}


def run_avg(case, out):
    k, lo = case['k'], case['lo']
    opt = AverageReqResourceOptimizer(k)
    out.nontrivial = True
    for hi in range(max(lo, 0), case['top'] + 1):
        for lo2, hi2 in ((0, 3), (2, 2)):
            for mask in [None] + [list(m) for m in itertools.product((True, False), repeat=2)]:
                first = [max(lo, 0), hi2]
                down, up = [lo, lo2], [hi, hi2]
                got, asked, problem = call(opt, down, up, first, mask, lambda c: Time(1))
                want = [first[i] if mask is not None and not mask[i] else max(0, down[i]) + int((up[i] - down[i]) / k) for i in range(2)]
                text = 'share 1/%s of %s..%s, crew %s, may change %s' % (k, down, up, first, mask)
                out.execs += 1
                out.transitions += 1
                if problem:
                    out.bad('changes', '%s: %s' % (text, problem))
                elif list(got) != want:
                    out.bad('share', '%s: the crew became %s, expected %s' % (text, got, want))
    out.state(case)


def gen_search(t):
    top = 24 if t == 'quick' else 60
    for lo in (0, 1, 3):
        for n in range(0, top):
            yield {'lo': lo, 'up': lo + n}


def run_search(case, out):
    lo, up = case['lo'], case['up']
    out.nontrivial = True
    for best in range(lo, up + 1):
        # strictly falling before the best count, strictly growing after it, with every relation between the two sides
        for left, right in itertools.product((1, 3, 10), repeat=2):
            asked = []

            def f(x):
                asked.append(x)
                return Time((best - x) * left if x <= best else (x - best) * right)

            got = dichotomy_int(lo, up, f)
            text = 'search in %d..%d, best %d, slopes %d and %d: %s' % (lo, up, best, left, right, got)
            out.execs += 1
            out.transitions += len(asked)
            if not all(lo <= x <= up for x in asked + [got]) or type(got) is not int:
                out.bad('search-borders', '%s, asked about %s' % (text, asked))
            elif abs(got - best) > 1:
                out.bad('search', text)
            real = dichotomy_float(float(lo), float(up), lambda x: abs(x - best) * (left if x <= best else right))
            if not lo - 1e-9 <= real <= up + 1e-9 or abs(real - best) > 2e-6:
                out.bad('search-float', 'real search in %d..%d, best %d: %r' % (lo, up, best, real))
    out.state(case)


FAMILIES = [
    core.Family('functions', gen, run_any, 'all functions with up to 4 values on grids of up to 9 (thorough 10) crews; all single best crews on larger grids'),
    core.Family('shares', gen_avg, run_avg, 'all borders up to 12, 9 shares, all masks'),
    core.Family('searches', gen_search, run_search, 'all positions of the best count in all ranges'),
]
