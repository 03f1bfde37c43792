import random

import numpy as np

from mc import core, fams, ref, sched, snap
from mc import worlds as W
from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
from sampo.schemas.time import Time

RULE = ('every small project under every deadline around the reachable finish times; every probe of the search is recorded and the result is compared '
        'with all of them and with the finish of the smallest and of the whole crews')


class Tap:
    """records the probes that the search makes"""

    def __init__(self, s, optimizer):
        self.s, self.opt, self.log = s, optimizer, []
        self.f = s.schedule_with_cache
        s.schedule_with_cache = self

    def __call__(self, *a, **k):
        kk = self.opt().k
        try:
            r = self.f(*a, **k)
        except sched.REFUSALS:
            self.log.append((kk, None))
            raise
        self.log.append((kk, r[0][0].execution_time.value))
        return r


def search(world, name, deadline, wg, con, spec):
    s = sched.SCHEDULERS[name]()
    b = AverageBinarySearchResourceOptimizingScheduler(s)
    tap = Tap(s, lambda: b._resource_optimizer)
    np.random.seed(0)
    random.seed(0)
    try:
        with sched.Quiet():
            r, sp = b.schedule_with_cache(wg, con, Time(deadline), spec, landscape=W.build_landscape(world))
    except sched.REFUSALS as e:
        return None, e, tap.log
    return r[0], sp, tap.log


def at(world, name, k, wg, con, spec):
    """finish with a share of the crews"""
    from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
    s = sched.SCHEDULERS[name]()
    s.resource_optimizer = AverageReqResourceOptimizer(k)
    try:
        with sched.Quiet():
            return s.schedule_with_cache(wg, con, spec, landscape=W.build_landscape(world))[0][0].execution_time.value
    except sched.REFUSALS:
        return None


BIG = fams.R(['driver', 60, 1, 40])
SERIAL = [fams.D13, BIG, fams.DF, fams.FD]


def worlds(t):
    q = t == 'quick'
    yield from [x for i, x in enumerate(fams.w2(t)) if not q or i % 19 == 0]
    yield from [x for i, x in enumerate(fams.w3(t)) if i % (23 if q else 3) == 0]
    yield from [x for i, x in enumerate(fams.w3c(t)) if i % (13 if q else 3) == 0]
    yield from [x for i, x in enumerate(fams.chain4(t)) if i % (61 if q else 9) == 0]
    yield from [x for i, x in enumerate(fams.spec3(t)) if i % (41 if q else 3) == 0]
    yield from fams.make(2, [fams.FS0, fams.IFS], SERIAL, [[{'driver': 40, 'fitter': 6}]], min_edges=1)


def gen(t):
    for i, w in enumerate(worlds(t)):
        for s in (['heft'] if i % 3 else ['heft', 'between']) if t == 'quick' else ['heft', 'between', 'topo', 'lft']:
            yield {**w, 's': s}


def run(case, out):
    world, name = {k: v for k, v in case.items() if k != 's'}, case['s']
    wg, con, spec = W.build_graph(world), W.build_contractors(world), W.build_spec(world)
    lo, hi = at(world, name, 10000, wg, con, spec), at(world, name, 1, wg, con, spec)
    known = {x for x in (lo, hi) if x is not None}
    points = sorted({max(1, x + d) for x in known for d in (-1, 0, 1)} | {sum(known) // 2 + 1 if len(known) > 1 else 1, 1, Time.inf().value // 2})
    for d in points:
        before = [snap.graph(wg), snap.obj(con), snap.spec(spec)]
        res, sp, log = search(world, name, d, wg, con, spec)
        out.transitions += len(log)
        now = [snap.graph(wg), snap.obj(con), snap.spec(spec)]
        if now != before:
            out.bad('mutated', 'inputs were changed: %s; deadline %s, %s' % (snap.diff(before, now), d, case))
        probes = [x for _, x in log if x is not None]
        if res is None:
            if known or probes:
                out.bad('refused', '%s: %s, but crews can be shared with finish %s; deadline %s, %s' % (type(sp).__name__, sp, known, d, case))
            continue
        if not ref.feasible(world):
            out.bad('accepted', 'no contractor can perform some work; %s' % case)
        t = res.execution_time.value
        if min(probes + [x for x in known]) <= d < t:
            out.bad('deadline', 'finish %s misses the deadline %s, but shares of the crews %s meet it; smallest %s, whole crews %s; %s' % (
                t, d, [x for x in log if x[1] is not None and x[1] <= d][:3], lo, hi, case))
        if t > d and t > min(probes + list(known)):
            out.bad('closest', 'no crews meet the deadline %s; finish %s, but %s is possible; %s' % (d, t, min(probes + list(known)), case))
        met = [x for x in log if x[1] is not None and x[1] <= d]
        if met and (lo is None or lo >= d):
            # no more crews than needed: the finish closest to the deadline, and a little smaller share misses it
            if t <= d and t < max(x for _, x in met):
                out.bad('spare', 'finish %s, but a share with finish %s meets the deadline %s too; %s' % (t, max(x for _, x in met), d, case))
            k = max(x for x, _ in met)
            if k < 9999 and not any(k < x <= k + 0.06 and (f is None or f > d) for x, f in log):
                out.bad('coarse', 'the search ended at a share 1/%s that meets the deadline %s, and no little smaller one is known to miss it: %s; %s' % (k, d, log, case))
        if len(log) > len(wg.nodes) + 30:
            out.bad('probes', '%d schedules were built; %s' % (len(log), case))
        recs, dup = ref.as_records(res)
        w2 = dict(world, spec={k: dict(v) for k, v in world.get('spec', {}).items()})
        for i in range(len(world['works'])):
            if sp[W.wid(world, i)].is_independent:
                w2['spec'].setdefault(str(i), {})['indep'] = 1
            a, b = sp[W.wid(world, i)], spec[W.wid(world, i)]
            if (a.contractors, a.assigned_workers, a.assigned_time) != (b.contractors, b.assigned_workers, b.assigned_time) or b.is_independent and not a.is_independent:
                out.bad('spec', 'specification of work %d became %s; deadline %s, %s' % (i, a, d, case))
        for aspect, detail in ref.judge(w2, wg, recs, dup):
            out.bad('invalid:%s' % aspect, '%s\n  deadline %s, schedule %s' % (detail, d, ref.brief(recs)))
        if lo is not None and lo < d:
            for i, w in enumerate(world['works']):
                team = world.get('spec', {}).get(str(i), {}).get('team')
                head = W.chain_heads(len(world['works']), world['edges'])[i]
                for k, v, a, b in w.get('req', []):
                    least = max(q[2] for j, x in enumerate(world['works']) if W.chain_heads(len(world['works']), world['edges'])[j] == head for q in x.get('req', []) if q[0] == k)
                    if not world.get('spec', {}).get(str(head)) and not team and recs[W.wid(world, i)]['team'].get(k) != least:
                        out.bad('least', 'the smallest crews meet the deadline %s, but work %d has %s; %s' % (d, i, recs[W.wid(world, i)]['team'], case))
        res2, sp2, log2 = (res, sp, log) if d not in points[1:3] else search(world, name, d, wg, con, spec)
        if ref.as_records(res2) != (recs, dup) or log2 != log:
            out.bad('repeat', 'the same search gives another schedule; %s' % case)
        out.state([case, d, ref.brief(recs)])
        out.execs += 1
    out.nontrivial = len(known) > 1


FAMILIES = [core.Family('deadlines', gen, run, 'projects of 2-4 works, serial projects with large crews, specifications; all deadlines around the finish of the smallest and the whole crews')]
