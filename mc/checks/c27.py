import gc
import itertools
from random import Random

from mc import core, fams, ga, ref, sched
from mc import worlds as W
from sampo.backend.default import DefaultComputationalBackend
from sampo.backend.multiproc import MultiprocessingComputationalBackend
from sampo.base import SAMPO
from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
from sampo.scheduler.genetic.operators import SumOfResourcesPeaksFitness, TimeAndResourcesFitness, TimeFitness, TimeWithResourcesFitness
from sampo.scheduler.heft.base import HEFTBetweenScheduler, HEFTScheduler
from sampo.scheduler.lft.base import LFTScheduler
from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
from sampo.schemas.interval import IntervalGaussian
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

RULE = ('every world and setting is announced to the default and to the multiprocessing backend (1, 2, 3 processes); values, populations and searches are compared '
        'with those of a toolbox made directly for that world and setting')
SGS = {'par': ScheduleGenerationScheme.Parallel, 'ser': ScheduleGenerationScheme.Serial}
FIT = {'time': lambda: TimeFitness(), 'peaks': lambda: SumOfResourcesPeaksFitness(), 'both': lambda: TimeAndResourcesFitness(), 'mix': lambda: TimeWithResourcesFitness()}
HEUR = {'lft': lambda e: LFTScheduler(work_estimator=e), 'heft_end': lambda e: HEFTScheduler(work_estimator=e), 'heft_between': lambda e: HEFTBetweenScheduler(work_estimator=e),
        **{k: (lambda e, x=x: HEFTScheduler(work_estimator=e, resource_optimizer=AverageReqResourceOptimizer(x)))
           for k, x in (('12.5%', 8), ('25%', 4), ('75%', 4 / 3), ('87.5%', 8 / 7))}}


def estimator(slow):
    e = DefaultWorkEstimator()
    if slow:
        e.set_worker_productivity(IntervalGaussian(0.5, 0, 0, 1), 'driver')
    return e


class Bench:
    """A world with a setting, and the values that follow from them without any backend."""

    def __init__(self, case):
        self.w = case['w']
        self.est = estimator(case.get('slow'))
        self.start = Time(case.get('start', 0))
        self.sgs = SGS[case.get('sgs', 'par')]
        self.rig = ga.Rig(self.w)
        from sampo.scheduler.genetic.schedule_builder import create_toolbox
        with sched.Quiet():
            self.tb = create_toolbox(self.rig.wg, self.rig.con, 10, 0.5, 0.5, 0.5, {}, Random(1), self.rig.spec, work_estimator=self.est, landscape=self.rig.land,
                                     sgs_type=self.sgs, assigned_parent_time=self.start)

    def announce(self, b, seed=3, init=None, **kw):
        b.cache_scheduler_info(self.rig.wg, self.rig.con, self.rig.land, self.rig.spec, Random(seed), self.est)
        b.cache_genetic_info(10, 0.5, 0.5, 0.5, init_schedules=init, assigned_parent_time=self.start, fitness_weights=(-1,), sgs_type=self.sgs, **kw)

    def chromosomes(self, limit):
        rig = self.rig
        rows = {g: list(rig.rows(g, rig.capacity)) for g in rig.reqs}
        if any(not r for r in rows.values()):
            return []
        res = []
        for k, o in enumerate(rig.orders()):
            for j in range(2):
                res.append(rig.ind(o, rig.res_matrix({g: r[(k + j * g) % len(r)] for g, r in rows.items()})))
        if res:  # an invalid one in the middle must not disturb the others
            o = [int(x) for x in res[0][0]]
            res.insert(1, rig.ind(o[::-1], res[0][1]))
        return res[:limit]

    def values(self, fit, inds):
        return [fit.evaluate(i, self.tb.evaluate_chromosome) for i in inds]


def backends(n=(0, 1, 2, 3)):
    for k in n:
        yield k, MultiprocessingComputationalBackend(k) if k else DefaultComputationalBackend()


def plain(values):
    return [tuple(float(int(x)) if isinstance(x, Time) else float(x) for x in v) for v in values]


def run_values(case, out):
    """lists of chromosomes (all orders; invalid ones; none; one; in reverse) under every objective"""
    b = Bench(case)
    inds = b.chromosomes(24)
    if not inds:
        return
    out.nontrivial = len(inds) > 2
    with sched.Quiet():
        for k, be in backends(case['n']):
            b.announce(be)
            for f in case['fit']:
                for part in (inds, inds[::-1], inds[:1], []):
                    want = plain(b.values(FIT[f](), part))
                    before = [ga.dump(i) for i in part]
                    got = plain(be.compute_chromosomes(FIT[f](), part))
                    out.execs += 1
                    out.transitions += len(part)
                    out.state([case['w'], f, want])
                    if got != want:
                        out.bad('values:%s' % ('multi' if k else 'default'), '%d processes: %s instead of %s' % (k, got, want))
                        return
                    if [ga.dump(i) for i in part] != before:
                        out.bad('changed', 'chromosomes are changed by evaluation')
                        return
            del be
    gc.collect()
    out.sample = {'values': want if case['fit'] == [] else plain(b.values(FIT[case['fit'][0]](), inds))[:6]}


def gen_values(t):
    q = t == 'quick'
    for i, w in enumerate(itertools.chain(fams.ga3('quick'), fams.pri3('quick'), fams.zones2('quick'), fams.spec3('quick'))):
        if q and i % 23:
            continue
        yield {'w': w, 'sgs': ('par', 'ser')[i % 2], 'slow': i % 3 == 1, 'start': i % 4 * 2, 'fit': sorted(FIT), 'n': [0, 1 + i // 23 % 3] if q else [0, 1, 2, 3]}


def menu():
    a = {'works': [dict(fams.D1), dict(fams.FD), dict(fams.D13)], 'edges': [], 'con': fams.TWO}
    b = {'works': [dict(fams.D1), dict(fams.D1)], 'edges': [[0, 1, 3, 'FS']], 'con': fams.TWO}
    c = {'works': a['works'], 'edges': [], 'con': fams.TWO, 'spec': {'0': {'time': 7}}}
    return [{'w': a}, {'w': b}, {'w': c}, {'w': a, 'slow': True}, {'w': a, 'sgs': 'ser'}, {'w': a, 'start': 5}]


def run_history(case, out):
    """every sequence of projects and settings announced to one backend"""
    out.nontrivial = True
    m = menu()
    benches = {i: Bench(m[i]) for i in set(case['seq'])}
    with sched.Quiet():
        (k, be), = backends([case['n']])
        for i in case['seq']:
            b = benches[i]
            b.announce(be)
            inds = b.chromosomes(6)
            want, got = plain(b.values(TimeFitness(), inds)), plain(be.compute_chromosomes(TimeFitness(), inds))
            out.execs += 1
            out.transitions += 1
            out.state([case['n'], i, got])
            if got != want:
                out.bad('stale', '%d processes, after %s: %s instead of %s' % (k, case['seq'], got, want))
                return
            if case['n'] == 0 or i % 2:
                pop = be.generate_first_population(4) if case['n'] else []
                for ind in pop:
                    if b.rig.bad(ind):
                        out.bad('stale-population', '%d processes, after %s: %s' % (k, case['seq'], b.rig.bad(ind)))
                        return
        del be
    gc.collect()


def gen_history(t):
    for d in (2,) if t == 'quick' else (2, 3):
        for seq in itertools.product(range(len(menu())), repeat=d):
            for n in (0, 2):
                yield {'seq': seq, 'n': n}


def run_population(case, out):
    """first populations: every weight, initialization and number of processes"""
    b = Bench(case)
    rig = b.rig
    out.nontrivial = True
    size = 6 if case['weight'] else 20
    keys = list(HEUR)
    weights = None if case['weight'] is None else [1000 if k == case['weight'] else 0 for k in keys]
    kw = {'weights': weights, 'only_lft_initialization': case['lft']}
    want = None
    with sched.Quiet():
        if case['weight']:
            s, _, _, order = HEUR[case['weight']](b.est).schedule_with_cache(rig.wg, rig.con, rig.spec, landscape=rig.land)[0]
            want = ref.as_records(s)[0], [rig.work2index[n.id] for n in order]
        pops = {}
        for k, be in backends(case['n']):
            init = GeneticScheduler.generate_first_population(rig.wg, rig.con, rig.land, rig.spec, b.est, None, weights)
            b.announce(be, init=init, **kw)
            for again in (0, 1):
                if again:
                    b.announce(be, init=init, **kw)
                pop = be.generate_first_population(size)
                out.execs += 1
                out.transitions += len(pop)
                dump = [ga.dump(i) for i in pop]
                out.state([case['w'], dump])
                if len(pop) != size:
                    out.bad('size', '%d processes: %d individuals instead of %d' % (k, len(pop), size))
                    return
                for ind in pop:
                    e = rig.bad(ind) or (None if b.tb.validate(ind) else ('rejected', 'the validity test of the search rejects it'))
                    if not e and not case['weight']:
                        for g, fixed in rig.fixed.items():
                            if any(int(ind[1][g][j]) != v for j, v in fixed.items()):
                                e = 'specified', 'work %d must have %s: %s' % (g, fixed, ga.dump(ind))
                    if e:
                        out.bad('invalid:%s' % e[0], '%d processes: %s' % (k, e[1]))
                        return
                pops.setdefault(k > 0, dump)
                if pops[k > 0] != dump:
                    out.bad('seed', '%d processes: equal seeds give %s and %s' % (k, pops[k > 0], dump))
                    return
                if want:
                    same = sum(d[0] == want[1] and all(team_of(rig, ind, g) == want[0][i]['team'] for i, g in rig.idx.items()) for d, ind in zip(dump, pop))
                    # the default backend keeps a share for the heuristics, the other one fills up with random individuals
                    if same < 1:
                        out.bad('heuristic', '%d processes: no individual is that of %s %s: %s' % (k, case['weight'], want[1], dump))
                        return
            del be
    gc.collect()
    out.sample = {'population': dump[:2]}


def team_of(rig, ind, g):
    return {k: int(ind[1][g][j]) for k, j in rig.kind2index.items() if ind[1][g][j]}


def gen_population(t):
    q = t == 'quick'
    for i, w in enumerate(itertools.chain(fams.ga3('quick'), fams.pri3('quick'), fams.spec3('quick'))):
        if q and i % 53:
            continue
        for j, (weight, lft) in enumerate([(None, False), (None, True)] + [(k, False) for k in HEUR]):
            if q and (i // 53 + j) % 3 and j:
                continue
            yield {'w': w, 'weight': weight, 'lft': lft, 'n': [0, 1, 3] if q else [0, 1, 2, 3], 'slow': i % 2 == 1}


def run_search(case, out):
    """whole searches: valid, equal for equal seeds"""
    w = case['w']
    best = []
    with sched.Quiet():
        for k, be in backends(case['n']):
            got = []
            for _ in (0, 1):
                old, SAMPO.backend = SAMPO.backend, be
                try:
                    s = GeneticScheduler(number_of_generation=2, mutate_order=0.5, mutate_resources=0.5, size_of_population=8, seed=5, sgs_type=SGS[case['sgs']],
                                         work_estimator=estimator(case['slow']))
                    if case['deadline']:
                        s.set_deadline(Time(case['deadline']))
                    wg, recs, res = sched.run(w, 'ga', scheduler=s)
                finally:
                    SAMPO.backend = old
                out.execs += 1
                out.transitions += len(w['works'])
                if recs is None:
                    out.bad('refused', '%d processes: %s' % (k, res))
                    return
                for aspect, text in ref.judge(dict(w, slow=case['slow']), wg, recs[0][0], recs[0][1], 0,
                                              aspects={'precedence', 'capacity', 'complete', 'team', 'spec', 'chain', 'makespan'}):
                    out.bad(aspect, '%d processes: %s; %s' % (k, text, ref.brief(recs[0][0])))
                got.append(ref.brief(recs[0][0]))
                out.state([case['sgs'], got[-1]])
            if got[0] != got[1]:
                out.bad('seed', '%d processes: equal seeds give %s and %s' % (k, got[0], got[1]))
            out.nontrivial = True
            best.append(max(v['finish'] for v in recs[0][0].values()))
            del be
    gc.collect()
    out.sample = {'finish': best}


def gen_search(t):
    q = t == 'quick'
    for i, w in enumerate(itertools.chain(fams.ga3('quick'), fams.pri3('quick'), fams.spec3('quick'))):
        if q and i % 97:
            continue
        for sgs in SGS:
            for deadline in (None, 6):
                yield {'w': w, 'sgs': sgs, 'deadline': deadline, 'slow': i % 2 == 1, 'n': [0, 2]}


def F(name, gen, run):
    return core.Family(name, gen, run, run.__doc__ or '')


FAMILIES = [F('values', gen_values, run_values), F('histories', gen_history, run_history), F('populations', gen_population, run_population), F('searches', gen_search, run_search)]
