"""Resource timelines driven operation by operation against an occupancy reference."""
from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import GraphNode
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import WorkSpec
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import WorkTimeEstimator
from sampo.schemas.works import WorkUnit


class TableEstimator(WorkTimeEstimator):
    """Durations by work id: the timelines take any estimator."""

    def __init__(self, table):
        self.table = table

    def set_estimation_mode(self, *a, **k):
        pass

    def set_productivity_mode(self, *a, **k):
        pass

    def get_model_name_keys(self):
        return []

    def find_work_resources(self, *a, **k):
        return []

    def estimate_time(self, work_unit, worker_list):
        return Time(self.table[work_unit.id]) if worker_list else Time(0)

    def get_recreate_info(self):
        return TableEstimator, (self.table,)


CAPS = {'driver': 2, 'fitter': 1}
HOR = 60


class Rig:
    """One timeline plus the contractor(s) behind it."""

    def __init__(self, cls, caps=None):
        caps = caps or {'c0': CAPS}
        self.caps = caps
        self.contractors = {c: Contractor(c, c, {k: Worker('%s_%s' % (c, k), k, n) for k, n in kinds.items()})
                            for c, kinds in caps.items()}
        self.est = TableEstimator({})
        self.tl = cls(get_worker_contractor_pool(self.contractors.values()), LandscapeConfiguration())
        self.n2s = {}
        self.n = 0
        self.keep = []

    def node(self, chain, team, con='c0', parents=(), ident=None):
        """chain: durations of the members of an inseparable chain (one for a single work)"""
        nodes = []
        for i, d in enumerate(chain):
            wid = ident or 'n%d' % self.n
            ident = None
            self.n += 1
            self.est.table[wid] = d
            wu = WorkUnit(wid, wid, worker_reqs=[WorkerReq(k, Time(1), 1, n + 1) for k, n in team], volume=d)
            from sampo.schemas.graph import EdgeType
            ps = [(nodes[-1], 0, EdgeType.InseparableFinishStart)] if nodes else \
                [(p, lag, EdgeType.FinishStart) for p, lag in parents]
            nodes.append(GraphNode(wu, ps))
        self.keep.append(nodes)
        workers = [Worker('%s_%s' % (con, k), k, n, con) for k, n in team]
        return nodes, workers

    def find(self, nodes, workers, lo, spec=None):
        return self.tl.find_min_start_time_with_additional(nodes[0], workers, self.n2s, spec or WorkSpec(), None, Time(lo),
                                                           self.est)

    def place(self, nodes, workers, lo, spec=None, at=None, con='c0', assigned=None):
        self.tl.schedule(nodes[0], self.n2s, workers, self.contractors[con], spec or WorkSpec(),
                         None if at is None else Time(at), None if assigned is None else Time(assigned), Time(lo), self.est)
        return [(int(self.n2s[x].start_time), int(self.n2s[x].finish_time)) for x in nodes]

    def can(self, nodes, workers, t, dur, spec=None):
        return bool(self.tl.can_schedule_at_the_moment(nodes[0], workers, spec or WorkSpec(), self.n2s, Time(t), Time(dur)))


class Occupancy:
    """Who is busy when, per (contractor, kind)."""

    def __init__(self, caps):
        self.cap = {(c, k): n for c, kinds in caps.items() for k, n in kinds.items()}
        self.iv = {key: [] for key in self.cap}

    def free(self, con, team, s, d, hold_all=False):
        for k, n in team:
            iv = self.iv[con, k]
            n = self.cap[con, k] if hold_all else n
            for t in sorted({s} | {a for a, b, c in iv if s < a < s + d}):
                if t < s + d and sum(c for a, b, c in iv if a <= t < b) + n > self.cap[con, k]:
                    return False
        return True

    def earliest(self, con, team, lo, d, hold_all=False):
        cands = {lo} | {b for k, n in team for a, b, c in self.iv[con, k] if b > lo}
        return min((t for t in cands if self.free(con, team, t, d, hold_all)), default=None)

    def last(self, con, team):
        return max((b for k, n in team for a, b, c in self.iv[con, k]), default=0)

    def add(self, con, team, s, d, hold_all=False):
        if d > 0:
            for k, n in team:
                self.iv[con, k].append((s, s + d, self.cap[con, k] if hold_all else n))

    def key(self):
        return sorted((str(k), sorted(v)) for k, v in self.iv.items())


class Releases:
    """Release times of every single worker, per (contractor, kind): what an append-only timeline knows."""

    def __init__(self, caps):
        self.t = {(c, k): [0] * n for c, kinds in caps.items() for k, n in kinds.items()}

    def earliest(self, con, team, indep=False):
        return max([max(self.t[con, k]) if indep else sorted(self.t[con, k])[n - 1] for k, n in team], default=0)

    def add(self, con, team, finish, indep=False):
        for k, n in team:
            v = sorted(self.t[con, k])
            n = len(v) if indep else n
            self.t[con, k] = sorted(v[n:] + [finish] * n)

    def key(self):
        return sorted((str(k), v) for k, v in self.t.items())
