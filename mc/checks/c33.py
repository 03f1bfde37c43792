import itertools
from fractions import Fraction as F

from mc import core, fams, ref, sched, snap
from mc.checks.c29 import swork
from sampo.schemas.contractor import Contractor
from sampo.scheduler.genetic.operators import (DeadlineCostFitness, DeadlineResourcesFitness, SumOfResourcesFitness, SumOfResourcesPeaksFitness,
                                               TimeAndResourcesFitness, TimeFitness, TimeWithResourcesFitness)
from sampo.schemas.resources import Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time
from sampo.utilities.resource_usage import (get_resources_peak_usage, get_total_resources_usage, resources_costs_sum, resources_peaks_sum,
                                            resources_sum)

RULE = 'every small set of occupied intervals; usage, peaks, sums, costs and fitness values against a point-by-point count'
INF = Time.inf().value
KINDS = ('driver', 'fitter')
COST = {'driver': 3, 'fitter': 0.5}


def make(works):
    """works: [start, finish, drivers, fitters]"""
    res = []
    for i, (s, e, *ns) in enumerate(works):
        w = swork('w%d' % i, s, e, n=0)
        w.workers = [Worker('x%d%s' % (i, k), k, n, 'c%d' % (i % 2), cost_one_unit=COST[k]) for k, n in zip(KINDS, ns) if n]
        res.append(w)
    return res


def gen(t):
    q = t == 'quick'
    ends = [(0, 0), (0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 3)]
    crews = [(1, 0), (0, 2), (2, 1), (0, 0), (3, 0)]
    for n in (1, 2, 3):
        for k, iv in enumerate(itertools.combinations_with_replacement(ends, n)):
            for j, cr in enumerate(itertools.product(crews, repeat=n)):
                if n == 3 and (k + j) % (11 if q else 1):
                    continue
                yield {'works': [[*i, *c] for i, c in zip(iv, cr)]}
    if not q:
        for k, iv in enumerate(itertools.combinations_with_replacement(ends, 4)):
            for j, cr in enumerate(itertools.product(crews, repeat=4)):
                if (k + j) % 31 == 0:
                    yield {'works': [[*i, *c] for i, c in zip(iv, cr)]}


def run(case, out):
    for scale in (1, 1000) if len(case['works']) < 3 else (1,):
        ws = make([[s * scale, e * scale, *n] for s, e, *n in case['works']])
        for sch in (Schedule.from_scheduled_works(ws), Schedule.from_scheduled_works(ws[::-1])):
            one(sch, ws, case, out)
    out.nontrivial = len(case['works']) > 1
    out.execs += 1
    out.state([case])


def one(sch, ws, case, out):
    before = [snap.obj(w) for w in ws]
    points = sorted({t.value for w in ws for t in w.start_end_time})
    end = points[-1]
    for names in (None, ['driver'], ['fitter', 'driver'], [], ['nobody']):
        kinds = [k for k in KINDS if names is None or k in names]
        prof, total, cost = {}, 0, F(0)
        for k in kinds:
            prof[k] = [sum(x.count for w in ws for x in w.workers if x.name == k and w.start_time.value <= p < w.finish_time.value) for p in points]
            total += sum(x.count * (w.finish_time - w.start_time).value for w in ws for x in w.workers if x.name == k)
            cost += sum(F(x.cost_one_unit) * x.count * (w.finish_time - w.start_time).value for w in ws for x in w.workers if x.name == k)
        peaks = {k: max(p) for k, p in prof.items()}
        used = {x.name for w in ws for x in w.workers}
        fresh = lambda: None if names is None else iter(names) if case['works'][0][2] else names
        got = {k: list(v) for k, v in get_total_resources_usage(sch, fresh()).items()}
        if got != {k: v for k, v in prof.items() if k in used}:
            out.bad('usage', 'usage %s, expected %s; names %s, %s' % (got, prof, names, case))
        got = dict(get_resources_peak_usage(sch, fresh()))
        if got != {k: v for k, v in peaks.items() if k in used}:
            out.bad('peaks', 'peaks %s, expected %s; names %s, %s' % (got, peaks, names, case))
        want = {'peaks_sum': sum(peaks.values()), 'sum': total, 'cost': cost}
        for name, f in (('peaks_sum', resources_peaks_sum), ('sum', resources_sum), ('cost', resources_costs_sum)):
            if f(sch, fresh()) != want[name]:
                out.bad(name, '%s is %s, expected %s; names %s, %s' % (name, f(sch, fresh()), want[name], names, case))
        ps = want['peaks_sum']
        fit = [(TimeFitness(), (end,)), (SumOfResourcesPeaksFitness(fresh()), (ps,)), (SumOfResourcesFitness(fresh()), (total,)),
               (TimeWithResourcesFitness(fresh()), (end + ps,)), (TimeAndResourcesFitness(fresh()), (end, ps))]
        for d in (1, 2, 3, 2500):
            late = max(F(1), F(end, d))
            fit += [(DeadlineResourcesFitness(Time(d), fresh()), (ps * late,)), (DeadlineCostFitness(Time(d), fresh()), (cost * late,))]
        for f, w in fit:
            asked = []
            for _ in range(2):
                got = f.evaluate(('chromosome',), lambda c: asked.append(c) or sch)
                out.transitions += 1
                if len(got) != len(w) or any(abs(F(float(g)) - x) > F(1, 10 ** 6) * max(1, abs(x)) for g, x in zip(got, w)):
                    out.bad(type(f).__name__, 'value %s, expected %s; names %s, %s' % (got, w, names, case))
            if asked != [('chromosome',)] * 2:
                out.bad(type(f).__name__, 'evaluated %s; %s' % (asked, case))
            got = f.evaluate(('chromosome',), lambda c: None)
            if got != (INF,) * len(w):
                out.bad(type(f).__name__, 'a chromosome without schedule has %s; %s' % (got, case))
    for w in ws:
        want = sum(F(x.cost_one_unit) * x.count for x in w.workers) * (w.finish_time - w.start_time).value
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.scheduled_work import ScheduledWork
        from sampo.schemas.works import WorkUnit
        sw = ScheduledWork(WorkUnit(w.id, {'granular_name': 'x'}), w.start_end_time, w.workers, Contractor('c', 'c', {}))
        if sw.cost != want or any(x.get_cost() != x.cost_one_unit * x.count for x in w.workers):
            out.bad('work', 'cost of work is %s, expected %s; %s' % (sw.cost, want, case))
    if [snap.obj(w) for w in ws] != before:
        out.bad('mutated', 'works were changed; %s' % case)


def inf_run(case, out):
    ws = make([[0, 2, 1, 1], [2, INF, 2, 0]])
    sch = Schedule.from_scheduled_works(ws)
    want = {TimeFitness: 1, SumOfResourcesPeaksFitness: 1, TimeWithResourcesFitness: 1, TimeAndResourcesFitness: 2}
    if not sch.execution_time.is_inf() or resources_peaks_sum(sch) != INF:
        out.bad('inf', 'endless schedule: time %s, peaks %s' % (sch.execution_time, resources_peaks_sum(sch)))
    for f, n in want.items():
        got = f().evaluate((), lambda c: sch)
        if len(got) != n or any(g < INF for g in got):
            out.bad('inf', '%s of an endless schedule is %s' % (f.__name__, got))
    for f in (DeadlineResourcesFitness(Time(5)), DeadlineCostFitness(Time(5)), SumOfResourcesFitness()):
        if f.evaluate((), lambda c: sch)[0] < INF:
            out.bad('inf', '%s of an endless schedule is %s' % (type(f).__name__, f.evaluate((), lambda c: sch)))
    out.execs += 1
    out.nontrivial = True
    out.state(['inf'])


CREWS = [{'driver': (2, 3), 'fitter': (2, 0.5)}, {'driver': (3, 2), 'fitter': (1, 10)}]


def real_gen(t):
    for w in fams.make(3, [fams.FS0, fams.IFS], [fams.D1, fams.DF, fams.FD], [[0], [1, 0]], max_edges=2 if t == 'quick' else None):
        for s in ('heft', 'between', 'topo', 'lft', 'ga_ser') if t != 'quick' or len(w['edges']) == 1 else ('heft', 'lft'):
            if t != 'quick' or s != 'ga_ser' or len(w['con']) == 2:
                yield {**w, 's': s}


def real_run(case, out):
    """schedules of contractors with priced workers"""
    price = {('c%d' % i, k): CREWS[j][k][1] for i, j in enumerate(case['con']) for k in KINDS}
    con = [Contractor('c%d' % i, 'c%d' % i, {k: Worker('c%d%s' % (i, k), k, n, cost_one_unit=c) for k, (n, c) in CREWS[j].items()}) for i, j in enumerate(case['con'])]
    wg, recs, res = sched.run({**case, 'con': []}, case['s'], contractors=con)
    if recs is None:
        out.bad('refused', '%s; %s' % (res, case))
        return
    for (r, _), sch in zip(recs, res):
        cost = {i: sum(F(price[x['con'], k]) * n for k, n in x['team'].items()) * (x['finish'] - x['start']) for i, x in r.items()}
        got = {w.id: w.cost for w in sch.works}
        if any(F(got[i]) != c for i, c in cost.items()):
            out.bad('schedule', 'costs of works are %s, expected %s; %s' % (got, {k: float(v) for k, v in cost.items()}, case))
        if F(resources_costs_sum(sch)) != sum(cost.values()):
            out.bad('schedule', 'costs sum %s, expected %s; %s' % (resources_costs_sum(sch), float(sum(cost.values())), case))
        united = sch.unite_stages()
        if sum(F(w.cost) for w in united.works) != sum(cost.values()):
            out.bad('schedule', 'united costs %s, expected %s; %s' % (sum(w.cost for w in united.works), float(sum(cost.values())), case))
        out.state([case, ref.brief(r)])
        out.transitions += 1
        out.execs += 1
    out.nontrivial = True


FAMILIES = [core.Family('priced', real_gen, real_run, 'all projects of 3 works with one and two priced contractors, 5 schedulers'),
            core.Family('schedules', gen, run, 'all pairs (an eleventh of the triples; thorough all triples) of 7 intervals and 5 crews, two time scales, 5 selections of kinds, 5 deadlines'),
            core.Family('endless', lambda t: [{}], inf_run, 'a schedule that never ends')]
