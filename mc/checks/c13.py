import itertools
import random

import numpy as np

from mc import core, fams, ga, ref, rngmc, sched
from mc import worlds as W
from sampo.backend.default import DefaultComputationalBackend
from sampo.base import SAMPO
from sampo.hybrid.cycle import CycleHybridScheduler
from sampo.hybrid.population import GeneticPopulationScheduler, HeuristicPopulationScheduler
from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
from sampo.scheduler.genetic.operators import (DeadlineResourcesFitness, SumOfResourcesPeaksFitness, TimeAndResourcesFitness, TimeFitness,
                                               TimeWithResourcesFitness)
from sampo.scheduler.heft.base import HEFTBetweenScheduler, HEFTScheduler
from sampo.scheduler.lft.base import LFTScheduler
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

RULE = ('every vector of random answers with at most the stated number of departures from the default answer drives the whole search (initial population, '
        'shuffling, crossover, mutation); every fitness that the search computes is recorded, and the result is compared with all of them')
SGS = {'ser': ScheduleGenerationScheme.Serial, 'par': ScheduleGenerationScheme.Parallel}
D1, DF, FD, D13 = fams.D1, fams.DF, fams.FD, fams.D13


class Recorder(DefaultComputationalBackend):
    def __init__(self):
        super().__init__()
        self.log = []       # (fitness class, values)

    def compute_chromosomes(self, fitness, chromosomes):
        v = super().compute_chromosomes(fitness, chromosomes)
        self.log.append((type(fitness).__name__, [tuple(x) for x in v], [ga.dump(c) for c in chromosomes]))
        return v


class Recording:
    def __enter__(self):
        self.old = SAMPO.backend
        SAMPO.backend = Recorder()
        return SAMPO.backend

    def __exit__(self, *a):
        SAMPO.backend = self.old


def makespan(recs):
    return max(r['finish'] for r in recs.values())


def peaks(recs):
    tot = 0
    for kind in {k for r in recs.values() for k in r['team']}:
        ts = {r['start'] for r in recs.values()}
        tot += max(sum(r['team'].get(kind, 0) for r in recs.values() if r['start'] <= t < r['finish']) for t in ts)
    return tot


FIT = {'time': (TimeFitness, (-1,), lambda r: (makespan(r),)),
       'peaks': (SumOfResourcesPeaksFitness, (-1,), lambda r: (peaks(r),)),
       'time+peaks': (TimeWithResourcesFitness, (-1,), lambda r: (makespan(r) + peaks(r),)),
       'pareto': (TimeAndResourcesFitness, (-1, -1), lambda r: (makespan(r), peaks(r)))}


def scheduler(cfg, rand):
    f, wts, _ = FIT[cfg.get('fit', 'time')]
    s = GeneticScheduler(number_of_generation=cfg.get('gens', 1), mutate_order=0.5, mutate_resources=0.5, size_of_population=cfg.get('pop', 4),
                         rand=rand, fitness_constructor=f(), fitness_weights=wts, sgs_type=SGS[cfg['sgs']], work_estimator=DefaultWorkEstimator(),
                         optimize_resources=cfg.get('opt', False), is_multiobjective=cfg.get('fit') == 'pareto',
                         only_lft_initialization=cfg.get('lft', False))
    if 'deadline' in cfg:
        s.set_deadline(Time(cfg['deadline']))
    if 'plateau' in cfg:
        s.set_max_plateau_steps(cfg['plateau'])
    return s


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and a != b


def once(w, cfg, rand):
    wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    np.random.seed(0)
    random.seed(0)
    with Recording() as rec, sched.Quiet():
        res = scheduler(cfg, rand).schedule(wg, con, spec=spec, start_time=Time(w.get('start', 0)), landscape=land, validate=False)
    return wg, [ref.as_records(s)[0] for s in res], rec.log


def check(w, cfg, wg, recs, log, out, hist):
    fname = FIT[cfg.get('fit', 'time')][0].__name__
    value = FIT[cfg.get('fit', 'time')][2]
    got = [value(r) for r in recs]
    shown = '%s, %s: result %s' % (cfg, hist, [ref.brief(r) for r in recs])
    if not recs:
        out.bad('empty', 'no schedule: ' + shown)
        return
    for r in recs:
        bad = ref.judge(w, wg, r, (), w.get('start', 0))
        if bad:
            out.bad('invalid:' + bad[0][0], '%s\n%s' % (bad[0][1], shown))
            return
    first = log[0]
    if cfg.get('fit') == 'pareto':
        if any(dominates(a, b) for a in got for b in got):
            out.bad('dominated', 'a returned schedule dominates another: %s; %s' % (got, shown))
        elif any(dominates(a, b) for a in first[1] for b in got):
            out.bad('worse', 'initial individuals %s, returned %s; %s' % (first[1], got, shown))
        return
    if 'deadline' in cfg:
        dl = cfg['deadline']
        stage1 = [v for n, vs, _ in log if n == 'TimeFitness' for v in vs]
        if not stage1:
            out.bad('deadline', 'no times were computed; ' + shown)
            return
        best = min(stage1)[0]
        end = makespan(recs[0])
        # stage 1 searches the time; the individuals it evaluated that meet the deadline oblige the result to meet it
        if best <= dl and end > dl:
            out.bad('deadline', 'an individual finishes at %s, the result at %s, deadline %s; %s' % (best, end, dl, shown))
        elif best > dl and end != best:
            out.bad('deadline', 'no individual meets %s, the best is %s, the result finishes at %s; %s' % (dl, best, end, shown))
        elif fname != 'TimeFitness':
            res = [v for n, vs, _ in log if n == fname for v in vs]
            if res and got[0] != min(res):
                out.bad('resources', 'the best evaluated fitness is %s, the result has %s; %s' % (min(res), got[0], shown))
        return
    allv = [v for n, vs, _ in log for v in vs]
    if got[0] != min(allv):
        out.bad('worse', 'the best evaluated fitness is %s, the result has %s; %s' % (min(allv), got[0], shown))
    if min(allv) > min(first[1]):
        out.bad('elitism', 'the initial best is %s, the final %s; %s' % (min(first[1]), min(allv), shown))


def run(case, out):
    """The search under all random answers with a bounded number of departures"""
    w, cfg = case['w'], case['cfg']
    out.nontrivial = True
    seen = set()

    def go(ch):
        return once(w, cfg, rngmc.ChoiceRandom(ch if 'salt' not in cfg else rngmc.Shifted(ch, cfg['salt'])))
    for dec, (wg, recs, log) in rngmc.explore(go, case['dev'], max_points=case.get('points')):
        out.execs += 1
        out.transitions += len(dec)
        check(w, cfg, wg, recs, log, out, 'answers %s' % [(i, d) for i, d in enumerate(dec) if d])
        for v in log:
            for c in v[2]:
                seen.add(str(c))
        if out.viol:
            return
    for s in seen:
        out.state(s)
    out.sample = {'cfg': cfg, 'evaluated chromosomes': len(seen), 'result': ref.brief(recs[0])}


def ws(t):
    yield {'works': [D1, DF, FD], 'edges': [[0, 1, 0, 'FS']], 'con': fams.TWO}
    yield {'works': [D13, D13, D1], 'edges': [], 'con': fams.TWO}
    yield {'works': W.with_chains([DF, D1, D13], [[0, 1, 0, 'IFS']]), 'edges': [[0, 1, 0, 'IFS']], 'con': fams.ORD}
    yield {'works': [D13, DF], 'edges': [], 'con': [{'driver': 1, 'fitter': 1}, {'driver': 3, 'fitter': 2}], 'spec': {'0': {'team': {'driver': 2}}, '1': {'con': ['c1']}}}
    yield {'works': [DF, FD, D13], 'edges': [[0, 2, 3, 'FS']], 'con': fams.SPLIT, 'start': 2}


CFGS = [{'sgs': s, **c} for s in SGS for c in ({}, {'opt': True}, {'lft': True}, {'fit': 'peaks', 'opt': True}, {'fit': 'pareto', 'opt': True},
                                             {'fit': 'time+peaks'}, {'gens': 2, 'plateau': 1}, {'gens': 0}, {'pop': 5, 'gens': 1})]


def gen(t):
    for w in ws(t):
        for c in CFGS:
            yield {'w': w, 'cfg': c, 'dev': 1, 'points': 24 if t == 'quick' else None}


def gen_deadline(t):
    q = t == 'quick'
    for i, w in enumerate(ws(t)):
        for dl in (5, 14, 40) if q else (5, 9, 14, 20, 40):
            for f in ('time', 'peaks'):
                if not q or (i + dl) % 2:
                    yield {'w': w, 'cfg': {'sgs': 'par' if dl % 2 else 'ser', 'deadline': dl, 'fit': f, 'gens': 4}, 'dev': 1, 'points': 8 if q else None}
    # deadlines around the times of the smaller teams, where saving workers competes with the deadline
    w = {'works': [D13, {'req': [['driver', 9, 1, 3]]}], 'edges': [], 'con': [{'driver': 5}]}
    for dl in range(3, 16):
        for sgs in SGS:
            for salt in range(2 if q else 8):
                yield {'w': w, 'cfg': {'sgs': sgs, 'deadline': dl, 'fit': 'peaks', 'gens': 6, 'salt': salt}, 'dev': 1, 'points': 4 if q else None}


def run_seed(case, out):
    """Equal seeds give equal results, on a fresh scheduler and for every small world; different runs do not influence each other"""
    w = case['w']
    out.nontrivial = True
    res = []
    for k in range(2):
        wg, recs, log = once(w, case['cfg'], random.Random(case['seed']))
        res.append(([ref.brief(r) for r in recs], log))
        if k == 0:
            check(w, case['cfg'], wg, recs, log, out, 'seed %d' % case['seed'])
            once(dict(w, works=w['works'][::-1], edges=[]), dict(case['cfg'], gens=0), random.Random(7))
    out.execs += 2
    out.transitions += sum(len(x[1]) for x in res[0][1])
    out.state([w, case['cfg'], res[0][0]])
    if res[0][0] != res[1][0]:
        out.bad('seed', '%s seed %d: %s, then %s' % (case['cfg'], case['seed'], res[0][0], res[1][0]))
    elif res[0][1] != res[1][1]:
        out.bad('seed:search', '%s seed %d: the two searches evaluated different individuals' % (case['cfg'], case['seed']))
    out.sample = {'result': res[0][0][0]}


def gen_seed(t):
    for i, w in enumerate(fams.make(3, [fams.FS0, fams.IFS], [D1, FD], [fams.TWO], max_edges=2)):
        for seed in (0, 1) if t == 'quick' else range(8):
            yield {'w': w, 'cfg': CFGS[(i + seed) % len(CFGS)], 'seed': seed}


def run_hybrid(case, out):
    """The hybrid cycle returns an individual no worse than its starting heuristics"""
    w = case['w']
    out.nontrivial = True
    est = DefaultWorkEstimator()

    def go(ch):
        wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
        np.random.seed(0)
        with Recording() as rec, sched.Quiet():
            SAMPO.backend.cache_scheduler_info(wg, con, land, spec, None, est)
            SAMPO.backend.cache_genetic_info(fitness_weights=(-1,))
            heur = HeuristicPopulationScheduler([HEFTScheduler(), HEFTBetweenScheduler(), LFTScheduler()])
            gen = GeneticPopulationScheduler(GeneticScheduler(number_of_generation=1, mutate_order=0.5, mutate_resources=0.5, size_of_population=4,
                                                              rand=rngmc.ChoiceRandom(ch), work_estimator=est))
            cyc = CycleHybridScheduler(heur, [gen], max_plateau_size=1)
            s = cyc.schedule(wg, con, spec, landscape=land)
        return wg, ref.as_records(s), rec.log
    for dec, (wg, (recs, dup), log) in rngmc.explore(go, case['dev'], max_points=case['points']):
        out.execs += 1
        out.transitions += len(dec)
        best = min(v for n, vs, _ in log for v in vs)[0]
        bad = ref.judge(w, wg, recs, dup, 0)
        if bad:
            out.bad('hybrid:' + bad[0][0], '%s: %s' % (bad[0][1], ref.brief(recs)))
            return
        if makespan(recs) != best:
            out.bad('hybrid:worse', 'the best evaluated finish is %s, the result %s' % (best, ref.brief(recs)))
            return
        out.state([w, ref.brief(recs)])
    out.sample = {'result': ref.brief(recs)}


def gen_hybrid(t):
    for i, w in enumerate(fams.make(3, [fams.FS0, fams.IFS], [D1, FD] if t == 'quick' else [D1, FD, D13], [fams.TWO], max_edges=2)):
        if t != 'quick' or i % 4 == 0:
            yield {'w': w, 'dev': 1, 'points': 12 if t == 'quick' else 60}


def run_start(case, out):
    """The hybrid cycle starts with valid individuals that hold the teams and contractors of the heuristics' schedules"""
    w = case['w']
    wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    out.nontrivial = True
    rig = ga.Rig(w)
    mk = [HEFTScheduler, HEFTBetweenScheduler, LFTScheduler, TopologicalScheduler]
    with sched.Quiet():
        alone = [m().schedule(wg, con, spec, landscape=land) for m in mk]
        for part in ([0], [1], [2], [3], [0, 2, 1, 3]):
            pop = HeuristicPopulationScheduler([mk[i]() for i in part]).schedule([], wg, con, spec, Time(case['start']), land)
            want = [r for i in part for r in alone[i]]
            out.execs += 1
            out.transitions += len(pop)
            if len(pop) != len(want):
                out.bad('start:size', '%d individuals of %d schedules' % (len(pop), len(want)))
                return
            for ind, sch in zip(pop, want):
                e = rig.bad(ind)
                if e or not rig.tb.validate(ind):
                    out.bad('start:%s' % (e[0] if e else 'rejected'), '%s: %s' % (ga.dump(ind), e))
                    return
                recs, _ = ref.as_records(sch)
                out.state([w, ga.dump(ind)])
                for i in rig.heads:
                    row = ind[1][rig.idx[W.wid(w, i)]]
                    team = {k: int(row[j]) for k, j in rig.kind2index.items() if row[j]}
                    r = recs[W.wid(w, i)]
                    if team != r['team'] or team and 'c%d' % row[-1] != r['con']:
                        out.bad('start:genes', 'work %d has %s of c%d, the schedule says %s' % (i, team, row[-1], ref.brief(recs)))
                        return


def gen_start(t):
    for i, w in enumerate([*fams.pri3('quick'), *fams.w3('quick')]):
        if t != 'quick' or i % 3 == 0:
            yield {'w': w, 'start': i % 2 * 4}


def F(name, gen, run):
    return core.Family(name, gen, run, run.__doc__ or '')


FAMILIES = [F('search', gen, run), F('deadline', gen_deadline, run), F('seeds', gen_seed, run_seed), F('hybrid', gen_hybrid, run_hybrid), F('hybrid start', gen_start, run_start)]
