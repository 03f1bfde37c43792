import itertools

from mc import core, ref
from mc import worlds as W
from sampo.schemas.contractor import Contractor
from sampo.schemas.resources import Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.time import Time
from sampo.utilities.validation import validate_schedule

RULE = 'every schedule of the world built from the stated placements is given to the validator; its verdict is compared with the rules applied to the plain numbers'
REQ = [['driver', 4, 1, 2], ['fitter', 3, 1, 1]]
CON = [{'driver': 2, 'fitter': 1}, {'driver': 1, 'fitter': 1}]


def rules(world, rec, con):
    """rec: i -> (start, finish, contractor, team) or None"""
    n = len(world['works'])
    if any(rec[i] is None for i in range(n)):
        return 'absent'
    for i in range(n):
        s, f, c, team = rec[i]
        if f < s:
            return 'negative'
        req = {k: (lo, hi) for k, v, lo, hi in world['works'][i].get('req', [])}
        if any(k not in req for k in team) or any(k not in team for k in req) or any(not req[k][0] <= x <= req[k][1] for k, x in team.items()):
            return 'team'
        if world['works'][i].get('svc') and f != s:
            return 'service'
        allowed = world.get('spec', {}).get(str(i), {}).get('con')
        if allowed and 'c%d' % c not in allowed:
            return 'contractor'
    for a, b, lag, t in world['edges']:
        if t in W.DEP and rec[a][1] + (0 if t == 'IFS' else lag) > rec[b][0]:
            return 'order'
    for t in {r[0] for r in rec.values()}:
        use = {}
        for s, f, c, team in rec.values():
            if s <= t < f:
                for k, x in team.items():
                    use[c, k] = use.get((c, k), 0) + x
        if any(x > con[c].get(k, 0) for (c, k), x in use.items()):
            return 'capacity'
    return None


CACHE = {}


def setup(world):
    key = str(world)
    if key not in CACHE:
        CACHE.clear()
        cons = W.build_contractors(world)
        if world.get('split'):
            # a crew can consist of several groups of one kind
            cons = [Contractor(c.id, c.name, {'%s %d' % (k, j): Worker('%s %d' % (w.id, j), k, m)
                                              for k, w in c.workers.items()
                                              for j, m in enumerate([w.count // 2, w.count - w.count // 2])}, {}) for c in cons]
        CACHE[key] = (W.build_graph(world), cons, W.build_spec(world))
    return CACHE[key]


def build(world, rec, wg, cons, order=None, ends=(0, None)):
    works = []
    for i, r in rec.items():
        if r is None:
            continue
        s, f, c, team = r
        works.append(ScheduledWork(wg[W.wid(world, i)].work_unit, (Time(s), Time(f)),
                                   [Worker('x', k, x, contractor_id='c%d' % c) for k, x in team.items()], cons[c]))
    last = max([int(w.finish_time) for w in works], default=0) if ends[1] is None else ends[1]
    works.insert(0, ScheduledWork(wg.start.work_unit, (Time(ends[0]), Time(ends[0])), [], cons[0]))
    works.append(ScheduledWork(wg.finish.work_unit, (Time(last), Time(last)), [], cons[0]))
    if order:
        works = [works[0]] + works[1:-1][::-1] + [works[-1]]
    return Schedule.from_scheduled_works(works)


def verdict(sch, wg, cons, spec):
    try:
        validate_schedule(sch, wg, cons, spec)
        return True
    except (AssertionError, KeyError):
        return False


def run(case, out):
    world = case['w']
    wg, cons, spec = setup(world)
    n = len(world['works'])
    first = tuple(case['first'])
    alpha = case['alpha']
    seen = {True: 0, False: 0}
    for rest in itertools.product(alpha, repeat=n - 1):
        rec = {}
        for i, a in enumerate((first,) + tuple(map(tuple, rest))):
            rec[i] = None if a[0] is None else (a[0], a[0] + a[1], a[2], dict(a[3]))
        want = rules(world, rec, world['con'])
        got = verdict(build(world, rec, wg, cons, case.get('rev')), wg, cons, spec)
        out.transitions += 1
        out.execs += 1
        seen[got] += 1
        if got != (want is None):
            out.bad('accepts:%s' % want if got else 'rejects', 'schedule %s: the validator %s, broken rule: %s' % (rec, 'accepts' if got else 'rejects', want))
            return
        out.state([case['w'], str(rec)])
    out.nontrivial = seen[True] > 0
    out.sample = {'accepted': seen[True], 'rejected': seen[False]}


def place(starts, durs, cons, teams):
    return [[s, d, c, sorted(t.items())] for s in starts for d in durs for c in cons for t in teams]


T_ALL = [{'driver': d, 'fitter': f} for d in (0, 1, 2, 3) for f in (0, 1, 2)] + [{'driver': 1}, {'fitter': 1}, {}, {'driver': 1, 'fitter': 1, 'welder': 1}]
T_OK = [{'driver': 1, 'fitter': 1}, {'driver': 2, 'fitter': 1}]


def gen(t):
    q = t == 'quick'
    W2 = {'works': [{'req': REQ}, {'req': REQ}], 'con': CON}
    # 2 works, all teams
    for e in ([], [[0, 1, 0, 'FS']]):
        alpha = place((0, 2), (2,), (0, 1), T_ALL) + [[None]]
        for f in alpha:
            yield {'w': dict(W2, edges=e), 'first': f, 'alpha': alpha}
    # 2 works, all times
    for e in ([], [[0, 1, 0, 'FS']], [[0, 1, 2, 'FS']], [[0, 1, 0, 'IFS']], [[0, 1, 1.5, 'FS']], [[0, 1, 0.5, 'FFS']], [[0, 1, 1, 'SS']]):
        for sp in ({}, {'0': {'con': ['c1']}, '1': {'con': ['c0', 'c1']}}):
            alpha = place((0, 1, 2, 3, 5), (-1, 0, 1, 2, 3), (0, 1), T_OK[:1])
            for f in alpha:
                yield {'w': dict(W2, edges=e, spec=sp), 'first': f, 'alpha': alpha}
    # 3 works, overlaps
    W3 = {'works': [{'req': REQ}, {'req': [['driver', 4, 1, 2]]}, {'req': [['fitter', 4, 1, 2]]}], 'con': [{'driver': 2, 'fitter': 2}, {'driver': 3, 'fitter': 1}]}
    al = place((0, 1, 3), (0, 2) if q else (0, 1, 2), (0, 1), [{'driver': 1, 'fitter': 1}, {'driver': 1}, {'driver': 2}, {'fitter': 2}, {'fitter': 1}])
    ok = {0: ['driver', 'fitter'], 1: ['driver'], 2: ['fitter']}
    for e in ([], [[0, 1, 0, 'FS'], [0, 2, 1, 'FS']], [[0, 2, 0, 'FS']]):
        for f in [a for a in al if [k for k, _ in a[3]] == ['driver', 'fitter']]:
            for rev in (0, 1):
                yield {'w': dict(W3, edges=e), 'first': f, 'alpha': al[::1 if not q else 1], 'rev': rev}
    # crews of several groups
    W4 = {'works': [{'req': REQ}, {'req': REQ}], 'con': [{'driver': 3, 'fitter': 2}, {'driver': 1, 'fitter': 1}], 'split': 1}
    alpha = place((0, 1), (2,), (0, 1), T_ALL)
    for e in ([], [[0, 1, 0, 'FS']]):
        for f in alpha:
            yield {'w': dict(W4, edges=e), 'first': f, 'alpha': alpha}
    # service works
    S = {'works': [{'req': [], 'svc': 1}, {'req': REQ}], 'con': CON, 'edges': [[0, 1, 0, 'FS']]}
    alpha = place((0, 1, 2), (0, 1), (0,), [{}, {'driver': 1, 'fitter': 1}])
    for f in alpha:
        yield {'w': S, 'first': f, 'alpha': alpha}


FAMILIES = [core.Family('verdicts', gen, run, 'all schedules of 2 works (teams, times, contractors) and of 3 works (overlaps)')]
