"""Running every scheduler on small worlds and judging the result with the independent oracle."""
import random

import numpy as np

from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
from sampo.scheduler.heft.base import HEFTBetweenScheduler, HEFTScheduler
from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.scheduler.topological.base import RandomizedTopologicalScheduler, TopologicalScheduler
from sampo.schemas.exceptions import IncorrectAmountOfWorker, NoSufficientContractorError
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

from . import ref
from . import worlds as W

REFUSALS = (NoSufficientContractorError, IncorrectAmountOfWorker)


def _gen(sgs, seed=0, pop=4, gens=2, **k):
    return GeneticScheduler(number_of_generation=gens, mutate_order=0.5, mutate_resources=0.5, size_of_population=pop,
                            seed=seed, sgs_type=sgs, work_estimator=DefaultWorkEstimator(), **k)


SCHEDULERS = {
    'heft': lambda: HEFTScheduler(),
    'between': lambda: HEFTBetweenScheduler(),
    'topo': lambda: TopologicalScheduler(),
    'lft': lambda: LFTScheduler(),
    'rtopo': lambda: RandomizedTopologicalScheduler(random_seed=1),
    'rlft': lambda: RandomizedLFTScheduler(rand=random.Random(3)),
    'heft_avg': lambda: HEFTScheduler(resource_optimizer=AverageReqResourceOptimizer(4)),
    'heft_mom': lambda: HEFTScheduler(timeline_type=MomentumTimeline),
    'ga_par': lambda: _gen(ScheduleGenerationScheme.Parallel),
    'ga_ser': lambda: _gen(ScheduleGenerationScheme.Serial),
}
FAST = ['heft', 'between', 'topo', 'lft']
MORE = ['rtopo', 'rlft', 'heft_avg', 'heft_mom']
GA = ['ga_par', 'ga_ser']


class Quiet:
    """The genetic scheduler prints; keep the check's own output readable."""

    def __enter__(self):
        import os
        import sys
        self.old, self.f = sys.stdout, open(os.devnull, 'w')
        sys.stdout = self.f

    def __exit__(self, *a):
        import sys
        sys.stdout = self.old
        self.f.close()


def run(world, name, start=0, wg=None, contractors=None, spec=None, landscape=None, scheduler=None, validate=False):
    """-> (wg, [(recs, dup)], schedules) or (wg, None, exception) when the scheduler refuses."""
    wg = wg or W.build_graph(world)
    contractors = contractors or W.build_contractors(world)
    spec = spec if spec is not None else W.build_spec(world)
    landscape = landscape or W.build_landscape(world)
    s = scheduler or SCHEDULERS[name]()
    np.random.seed(0)
    random.seed(0)
    try:
        with Quiet():
            res = s.schedule(wg, contractors, spec=spec, start_time=Time(start), landscape=landscape,
                             validate=validate)
    except REFUSALS as e:
        return wg, None, e
    return wg, [ref.as_records(r) for r in res], res


def check_world(world, name, out, aspects, start=0, expect_feasible=True):
    """Schedule the world, judge it; everything is reported through `out`."""
    wg, recs, res = run(world, name, start)
    out.transitions += len(world['works']) + 2
    if recs is None:
        out.sample = {'refused': type(res).__name__}
        if aspects is None or 'feasible' in aspects:
            if ref.feasible(world):
                out.bad('%s:refused' % name, 'a contractor can perform every work, but %s: %s' % (
                    type(res).__name__, str(res)[:200]))
        return None
    if (aspects is None or 'feasible' in aspects) and not ref.feasible(world):
        out.bad('%s:accepted' % name, 'no contractor can perform some work, but a schedule was returned: %s' %
                ref.brief(recs[0][0]))
    if not recs:
        out.bad('%s:empty' % name, 'no schedule returned')
    for r, dup in recs:
        out.execs += 1
        out.state([name, sorted((k, v['start'], v['finish'], v['con'], sorted(v['team'].items()))
                                for k, v in r.items())])
        for aspect, detail in ref.judge(world, wg, r, dup, start, aspects=aspects):
            out.bad('%s:%s' % (name, aspect), '%s\n  schedule %s' % (detail, ref.brief(r)))
    out.sample = {'scheduler': name, 'schedule': ref.brief(recs[0][0])} if recs else None
    return wg, recs, res
