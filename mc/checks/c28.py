import itertools

import pandas as pd

from mc import core, fams, ref, sched, snap
from mc import worlds as W
from mc.checks import c24
from sampo.generator.environment import ContractorGenerationMethod
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.pipeline.preparation import PreparationPipeline
from sampo.scheduler.utils.local_optimization import OrderLocalOptimizer, ParallelizeScheduleLocalOptimizer, ScheduleLocalOptimizer, SwapOrderLocalOptimizer
from sampo.scheduler.timeline import JustInTimeTimeline, MomentumTimeline
from sampo.schemas.exceptions import NoSufficientContractorError
from sampo.schemas.schedule import Schedule
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.structure_estimator import StructureEstimator
from sampo.schemas.time import Time
from sampo.structurator import graph_restructuring
from sampo.userinput import CSVParser

RULE = ('every world goes through the pipeline with every setting; the project must equal the one that restructuring the graph and calling the scheduler directly gives')
SEP = '_stage_'


def edges_of(wg):
    return sorted([e.start.id, e.finish.id, float(e.lag), e.type.value] for n in wg.nodes for e in n.edges_to)


def rows(sch):
    return ref.as_records(sch)[0]


def spec_for(wg, spec):
    """the specification of a work belongs to the first of its stages"""
    res = ScheduleSpec()
    for i, s in spec._work2spec.items():
        res._work2spec[i + SEP + '0' if i + SEP + '0' in wg.dict_nodes else i] = s
    return res


def direct(wg, con, spec, land, start, lag, name, validate=False):
    """(restructured graph, schedule)"""
    g = graph_restructuring(wg, lag)
    with sched.Quiet():
        (sch, _, _, order), = sched.SCHEDULERS[name]().schedule_with_cache(g, con, spec_for(g, spec), landscape=land, assigned_parent_time=Time(start), validate=validate)
    return g, sch, order


def able(world):
    return all(any(all(con.get(k, 0) >= lo for k, v, lo, hi in w.get('req', [])) for con in world['con']) for w in world['works'])


def relations(world, sch, out, text):
    """the relations of the original graph hold between the works of the final schedule"""
    r = rows(sch)
    for a, b, lag, t in world['edges']:
        x, y = r[W.wid(world, a)], r[W.wid(world, b)]
        lack = {'FS': x['finish'] + lag - y['start'], 'IFS': x['finish'] - y['start'], 'SS': x['start'] - y['start'], 'FF': x['finish'] - y['finish'], 'FFS': x['start'] - y['start']}[t]
        if lack > 0:
            out.bad('relation', '%s %s: %s then %s; %s' % (t, lag, x, y, text))


def gen(t):
    q = t == 'quick'
    kinds = [(0, 'FS'), (3, 'FS'), (0, 'IFS'), (0, 'SS'), (2, 'SS'), (0, 'FF'), (2, 'FF'), (2, 'FFS'), (4, 'FFS')]
    wk = [dict(fams.R(('driver', 4, 1, 2)), vol=4), dict(fams.R(('driver', 7, 2, 2), ('fitter', 3, 1, 1)), vol=6)]
    for e in W.edge_sets(2, kinds):
        for ws in itertools.product(wk, repeat=2):
            base = {'works': W.with_chains(list(ws), e), 'edges': e, 'con': fams.TWO}
            specs = [{}, {'0': {'time': 9}}, {'0': {'con': ['c1']}}, {'0': {'team': {'driver': 2}}}, {'0': {'indep': 1}}] + ([{'1': {'time': 4}}, {'1': {'con': ['c0']}}] if not any(x[3] == 'IFS' for x in e) else [])
            for sp in specs:
                for lag in ('TRUE', 'FALSE', 'AUTO', None):
                    for s in ('heft', 'topo', 'lft') if q else fams.ALL8:
                        yield {'w': dict(base, spec=sp), 'lag': lag, 's': s, 'start': 0 if lag == 'TRUE' else 6}
    few = [(0.5, 'FS'), (2, 'SS'), (2, 'FF'), (2, 'FFS')]
    for e in W.edge_sets(3, few + [(0, 'IFS')], None if not q else 2):
        base = {'works': W.with_chains([wk[0], wk[1], wk[0]], e), 'edges': e, 'con': fams.TWO}
        for lag in ('TRUE', 'FALSE', 'AUTO'):
            for s in ('heft', 'between', 'topo', 'lft') if q else fams.ALL8:
                yield {'w': base, 'lag': lag, 's': s, 'start': 0}
    # zones and priorities
    for w in itertools.islice(fams.zones2(t), 0, None, 4):
        yield {'w': w, 'lag': 'FALSE', 's': 'heft', 'start': 0}
    for w in itertools.islice(fams.zones2(t), 0, None, 3):
        if w['edges']:
            for lag, k in itertools.product(('TRUE', 'AUTO'), ((2, 'FS'), (2, 'FFS'), (0, 'FS'))):
                w2 = dict(w, works=[dict(x, vol=4) for x in w['works']], edges=[[a, b, *(k if n == 0 else (0, 'FS'))] for n, (a, b, _, _) in enumerate(w['edges'])])
                yield {'w': w2, 'lag': lag, 's': 'heft', 'start': 0}
    for w in itertools.islice(fams.pri3(t), 0, None, 3):
        yield {'w': w, 'lag': 'TRUE', 's': 'topo', 'start': 2}


def run(case, out):
    w, lag = case['w'], case['lag']
    wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    spec2 = W.build_spec(w)
    modes = {'TRUE': [True], 'FALSE': [False], 'AUTO': [False, True], None: [False]}[lag]
    cands = []
    try:
        for m in modes:
            cands.append(direct(wg, con, spec2, land, case['start'], m, case['s']))
    except sched.REFUSALS as e:
        cands = e
    before = snap.graph(wg), [snap.obj(c) for c in con]
    p = SchedulingPipeline.create().wg(wg).contractors(con).landscape(land).spec(spec).time_shift(Time(case['start']))
    if lag:
        p = p.lag_optimize(Lag[lag])
    try:
        with sched.Quiet():
            res = p.schedule(sched.SCHEDULERS[case['s']]())
            projects = res.finish()
            more = res.finish() + p.schedule(sched.SCHEDULERS[case['s']]()).finish()
    except sched.REFUSALS as e:
        if not isinstance(cands, Exception):
            out.bad('refused', '%s; %s' % (e, case))
        return
    if isinstance(cands, Exception):
        out.bad('accepted', 'direct scheduling refuses: %s; %s' % (cands, case))
        return
    text = str(case)
    if (snap.graph(wg), [snap.obj(c) for c in con]) != before:
        out.bad('mutated', 'the inputs were changed; %s' % text)
    if len(projects) != 1:
        out.bad('projects', '%d projects; %s' % (len(projects), text))
        return
    pr, = projects
    got = rows(pr.raw_schedule)
    best = min(c[1].execution_time for c in cands)
    exp = [c for c in cands if c[1].execution_time == best]
    match = [c for c in exp if rows(c[1]) == got]
    if not match:
        out.bad('schedule', 'pipeline gives %s, direct scheduling %s; %s' % (ref.brief(got), [ref.brief(rows(c[1])) for c in cands], text))
        return
    if not any(edges_of(c[0]) == edges_of(pr.raw_wg) for c in match):
        out.bad('graph', 'restructured graph %s; %s' % (edges_of(pr.raw_wg), text))
    if pr.wg is not wg or pr.contractors != con:
        out.bad('inputs', 'the project has another graph or contractors; %s' % text)
    united = rows(pr.schedule)
    if set(united) != set(wg.dict_nodes) or any(united[i]['start'] != min(r['start'] for k, r in got.items() if k.split(SEP)[0] == i) or
                                                united[i]['finish'] != max(r['finish'] for k, r in got.items() if k.split(SEP)[0] == i) for i in united):
        out.bad('united', 'final schedule %s of %s; %s' % (ref.brief(united), ref.brief(got), text))
        return
    relations(w, pr.schedule, out, text)
    if min(r['start'] for r in united.values()) != case['start']:
        out.bad('offset', 'the project starts at %s; %s' % (min(r['start'] for r in united.values()), text))
    for x in more:
        if rows(x.raw_schedule) != got or rows(x.schedule) != united:
            out.bad('repeat', 'the second result differs: %s; %s' % (ref.brief(rows(x.raw_schedule)), text))
    out.execs += 1
    out.transitions += len(got)
    out.state([case['s'], lag, ref.brief(got)])
    out.nontrivial = bool(w['edges'])
    out.sample = {'schedule': ref.brief(united)}


def able_gen(t):
    reqs = [[], [['driver', 3, 1, 2]], [['driver', 3, 2, 3]], [['fitter', 3, 1, 1]], [['driver', 3, 1, 2], ['fitter', 3, 1, 1]], [['driver', 3, 2, 2], ['fitter', 3, 2, 2]]]
    crews = [{}, {'driver': 1}, {'driver': 2}, {'fitter': 1}, {'driver': 1, 'fitter': 1}, {'driver': 2, 'fitter': 2}, {'driver': 0, 'fitter': 1}, {'fitter': 2, 'driver': 1}]
    for a, b in itertools.product(reqs, repeat=2):
        for con in itertools.chain(([c] for c in crews), itertools.permutations(crews, 2), itertools.combinations(crews, 3) if t != 'quick' else ()):
            yield {'works': [{'req': a}, {'req': b}], 'edges': [], 'con': list(con)}


def able_run(case, out):
    wg, con = W.build_graph(case), W.build_contractors(case)
    ok = able(case)
    try:
        with sched.Quiet():
            pr, = SchedulingPipeline.create().wg(wg).contractors(con).schedule(sched.SCHEDULERS['topo']()).finish()
        if not ok:
            out.bad('accepted', 'no contractor can perform some work, but the project is scheduled: %s; %s' % (ref.brief(rows(pr.schedule)), case))
    except NoSufficientContractorError as e:
        if ok:
            out.bad('refused', 'every work can be performed: %s; %s' % (e, case))
    out.nontrivial = not ok
    out.execs += 1
    out.transitions += len(case['con'])
    out.state([case, ok])


def made_gen(t):
    reqs = [[['driver', 3, 1, 2]], [['driver', 3, 2, 7], ['fitter', 3, 3, 3]], [['fitter', 3, 1, 6]], []]
    for a, b in itertools.product(reqs, repeat=2):
        for m in ('MIN', 'AVG', 'MAX'):
            for n in (1, 2, 3):
                for scale in (1, 2, 3):
                    for default in (0, 1) if (m, n, scale) == ('AVG', 1, 1) else (0,):
                        for table in (0, 1):
                            yield {'works': [{'req': a}, {'req': b}], 'edges': [[0, 1, 0, 'FS']], 'method': m, 'n': n, 'scale': scale, 'default': default, 'table': table}


def as_table(case):
    ids = ['a%d' % i for i in range(len(case['works']))]
    rs = []
    for i, w in enumerate(case['works']):
        ps = [x for x in case['edges'] if x[1] == i]
        rs.append({'activity_id': ids[i], 'activity_name': 'Work %d' % i, 'granular_name': 'g%d' % i, 'volume': 3, 'measurement': 'm', 'predecessor_ids': ','.join(ids[x[0]] for x in ps),
                   'connection_types': ','.join(x[3] for x in ps), 'lags': ','.join(str(x[2]) for x in ps), 'min_req': {k: lo for k, v, lo, hi in w['req']}, 'max_req': {k: hi for k, v, lo, hi in w['req']},
                   'req_volume': {k: v for k, v, lo, hi in w['req']}})
    return pd.DataFrame(rs)


def made_run(case, out):
    wg = W.build_graph(case)
    p = SchedulingPipeline.create()
    p = p.wg(as_table(case), all_connections=True) if case['table'] else p.wg(wg)
    if not case['default']:
        p = p.contractors((ContractorGenerationMethod[case['method']], case['n'], case['scale']))
    with sched.Quiet():
        pr, = p.schedule(sched.SCHEDULERS['heft']()).finish()
    val = {'MIN': lambda lo, hi: lo, 'AVG': lambda lo, hi: (lo + hi) // 2, 'MAX': lambda lo, hi: hi}[case['method']]
    want = {}
    for w in case['works']:
        for k, v, lo, hi in w['req']:
            want[k] = max(want.get(k, 0), val(lo, hi))
    want = {k: v * case['scale'] for k, v in want.items()}
    got = [(c.id, c.name, {k: x.count for k, x in c.workers.items()}, {x.contractor_id for x in c.workers.values()}) for c in pr.contractors]
    exp = [(str(i), 'Contractor %d' % (i + 1), want, {str(i)} if want else set()) for i in range(case['n'])]
    if got != exp:
        out.bad('generated', 'contractors %s, expected %s; %s' % (got, exp, case))
    out.nontrivial = bool(want)
    out.execs += 1
    out.transitions += case['n']
    out.state([case])


def table_gen(t):
    kinds = [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'SS'), (1, 'FF'), (1, 'FFS')]
    wk = [{'req': [['driver', 6, 1, 2]]}, {'req': [['driver', 9, 1, 3], ['fitter', 4, 1, 2]]}]
    for e in W.edge_sets(3, kinds, 2 if t == 'quick' else None):
        for lag in ('TRUE', 'FALSE'):
            for source in ('frame', 'comma', 'semicolon'):
                for con in ('list', 'frame') if source == 'frame' else ('list', 'file'):
                    yield {'works': W.with_chains([wk[0], wk[1], wk[0]], e), 'edges': e, 'lag': lag, 'source': source, 'con': con}


def table_run(case, out):
    df = as_table(case)
    e = [x for x in case['edges']]
    world = dict(case, con=[{'driver': 3, 'fitter': 2}, {'driver': 2, 'fitter': 1}], ids=['a0', 'a1', 'a2'])
    # the table gives every work the team of its own row
    own = W.build_graph({'works': case['works'], 'edges': e, 'ids': ['a0', 'a1', 'a2']})
    con = W.build_contractors(world)
    with c24.Scratch() as s:
        sep = {'frame': ',', 'comma': ',', 'semicolon': ';'}[case['source']]
        src = df if case['source'] == 'frame' else s.save(df, sep)
        cdf = pd.DataFrame([{'contractor_id': c.id, 'name': c.name, **{k: x.count for k, x in c.workers.items()}} for c in con])
        cin = {'list': lambda: con, 'frame': lambda: cdf, 'file': lambda: s.save(cdf, ';', 'con.csv')}[case['con']]()
        with sched.Quiet():
            pr, = SchedulingPipeline.create().wg(src, sep=sep, all_connections=True).contractors(cin).lag_optimize(Lag[case['lag']]).time_shift(Time(3)).schedule(sched.SCHEDULERS['topo']()).finish()
    ends = lambda g, x: {g.start.id: 'start', g.finish.id: 'finish'}.get(x, x)
    a = sorted([ends(own, x), ends(own, y), l, k] for x, y, l, k in edges_of(own))
    b = sorted([ends(pr.wg, x), ends(pr.wg, y), l, k] for x, y, l, k in edges_of(pr.wg))
    if a != b:
        out.bad('table:edges', 'graph has %s, the table %s; %s' % (b, a, case))
        return
    wg = pr.wg
    g = graph_restructuring(wg, case['lag'] == 'TRUE')
    with sched.Quiet():
        sch = sched.SCHEDULERS['topo']().schedule(g, con, start_time=Time(3))[0]
    if rows(sch) != rows(pr.raw_schedule):
        out.bad('table:schedule', 'pipeline gives %s, direct scheduling %s; %s' % (ref.brief(rows(pr.raw_schedule)), ref.brief(rows(sch)), case))
    relations(world, pr.schedule, out, str(case))
    out.execs += 1
    out.transitions += len(e)
    out.state([case])
    out.nontrivial = bool(e)


class Order(OrderLocalOptimizer):
    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def optimize(self, node_order, area):
        self.log.append((self.tag, [n.id for n in node_order], (area.start, area.stop)))
        res = list(node_order)
        # exchange of the works next to the middle, when it is legal, makes the effect visible
        for i in range(1, len(res) - 2):
            if not any(p is res[i] for p in res[i + 1].parents) and self.tag == 'swap':
                res[i], res[i + 1] = res[i + 1], res[i]
                break
        return res


class Sched(ScheduleLocalOptimizer):
    def __init__(self, tag, log):
        super().__init__(MomentumTimeline)
        self.tag, self.log = tag, log

    def optimize(self, scheduled_works, node_order, contractors, landscape_config, spec, worker_pool, work_estimator, assigned_parent_time, area):
        self.log.append((self.tag, {n.id: (int(s.start_time), int(s.finish_time)) for n, s in scheduled_works.items()}, [n.id for n in node_order], [c.id for c in contractors],
                         {n.id: spec.get_work_spec(n.id).assigned_time for n in node_order}, {k: {c: x.count for c, x in v.items()} for k, v in worker_pool.items()}, assigned_parent_time.value,
                         (area.start, area.stop)))
        import copy
        res = {}
        for n, x in scheduled_works.items():
            x = copy.copy(x)
            d = {'later': 5, 'more': 11}[self.tag]
            x.start_end_time = (x.start_time + d, x.finish_time + d)
            res[n] = x
        return res


def opt_gen(t):
    for e in W.edge_sets(3, [(0, 'FS'), (2, 'SS')]):
        for orders in ([], ['keep'], ['swap'], ['swap', 'keep'], ['keep', 'swap'], ['swap', 'swap']):
            for scheds in ([], ['later'], ['later', 'more'], ['more', 'later', 'later']):
                for lag in ('TRUE', 'FALSE'):
                    for s in ('heft', 'lft'):
                        if s == 'lft' and (len(orders) > 1 or len(scheds) > 1):
                            continue
                        yield {'edges': e, 'orders': orders, 'scheds': scheds, 'lag': lag, 's': s}


def opt_run(case, out):
    w = {'works': [dict(fams.R(('driver', 4, 1, 2)), vol=4)] * 3, 'edges': case['edges'], 'con': fams.TWO, 'spec': {'1': {'time': 3}}}
    wg, con, spec = W.build_graph(w), W.build_contractors(w), W.build_spec(w)
    g = graph_restructuring(wg, case['lag'] == 'TRUE')
    log1, log2 = [], []
    p = SchedulingPipeline.create().wg(wg).contractors(con).spec(spec).time_shift(Time(4)).lag_optimize(Lag[case['lag']])
    for i, o in enumerate(case['orders']):
        p = p.optimize_local(Order(o, log1), range(i, i + 2))
    with sched.Quiet():
        res = p.schedule(sched.SCHEDULERS[case['s']]())
    for i, o in enumerate(case['scheds']):
        res = res.optimize_local(Sched(o, log2), range(i, i + 3))
    with sched.Quiet():
        base, = SchedulingPipeline.create().wg(wg).contractors(con).spec(W.build_spec(w)).time_shift(Time(4)).lag_optimize(Lag[case['lag']]).schedule(sched.SCHEDULERS[case['s']]()).finish()
        pr, = res.finish()
    text = str(case)
    # the order optimizers are called one after another on the order of the scheduler
    s = sched.SCHEDULERS[case['s']]()
    sp = spec_for(g, W.build_spec(w))
    with sched.Quiet():
        order = s.schedule_with_cache(g, con, sp, assigned_parent_time=Time(4))[0][3]
    generic = case['s'] != 'lft'
    want, cur = [], order
    for i, o in enumerate(case['orders'] if generic else []):
        want.append((o, [n.id for n in cur], (i, i + 2)))
        cur = Order(o, []).optimize(cur, range(0))
    if log1 != want:
        out.bad('orders', 'order optimizers got %s, expected %s; %s' % (log1, want, text))
        return
    if generic and cur != order:
        s2 = sched.SCHEDULERS[case['s']]()
        s2.prioritization = lambda *a: cur
        with sched.Quiet():
            sch = s2.schedule_with_cache(g, con, sp, assigned_parent_time=Time(4))[0][0]
    else:
        sch = base.raw_schedule
    # the schedule optimizers are called one after another on the schedule
    shift = 0
    want = []
    r = rows(sch)
    for i, o in enumerate(case['scheds']):
        want.append((o, {k: (x['start'] + shift, x['finish'] + shift) for k, x in r.items()}, [n.id for n in cur], [c.id for c in con], {n.id: sp.get_work_spec(n.id).assigned_time for n in cur},
                     {k: {c.id: c.workers[k].count for c in con if k in c.workers} for k in ('driver', 'fitter')}, 4, (i, i + 3)))
        shift += {'later': 5, 'more': 11}[o]
    if log2 != want:
        out.bad('schedules', 'schedule optimizers got %s, expected %s; %s' % (log2, want, text))
    got = rows(pr.raw_schedule)
    if {k: (x['start'] + shift, x['finish'] + shift, x['con'], x['team']) for k, x in r.items()} != {k: (x['start'], x['finish'], x['con'], x['team']) for k, x in got.items()}:
        out.bad('result', 'final schedule %s, expected %s shifted by %d; %s' % (ref.brief(got), ref.brief(r), shift, text))
    again, = res.finish()
    if rows(again.raw_schedule) != got:
        out.bad('repeat', 'finishing again gives %s after %s; %s' % (ref.brief(rows(again.raw_schedule)), ref.brief(got), text))
    out.execs += 1
    out.transitions += len(want) + len(log1)
    out.state([case])
    out.nontrivial = bool(case['orders'] or case['scheds'])


def auto_gen(t):
    for e in W.edge_sets(3, [(0, 'FS'), (2, 'FS'), (2, 'SS'), (3, 'FFS')], 2 if t == 'quick' else None):
        for k in range(3):
            for s in ('heft', 'topo'):
                yield {'edges': e, 'spec': {str(k): {'time': 3}}, 's': s}


def auto_run(case, out):
    """optimizers of the schedule get the specification of the graph that was chosen"""
    w = {'works': [dict(fams.R(('driver', 4, 1, 2)), vol=4)] * 3, 'edges': case['edges'], 'con': fams.TWO, 'spec': case['spec']}
    wg, con, log = W.build_graph(w), W.build_contractors(w), []
    with sched.Quiet():
        res = SchedulingPipeline.create().wg(wg).contractors(con).spec(W.build_spec(w)).lag_optimize(Lag.AUTO).schedule(sched.SCHEDULERS[case['s']]())
        pr, = res.optimize_local(Sched('later', log), range(0, 3)).finish()
    sp = spec_for(pr.raw_wg, W.build_spec(w))
    want = {n.id: sp.get_work_spec(n.id).assigned_time for n in pr.raw_wg.nodes}
    if len(log) != 1 or log[0][4] != {k: want[k] for k in log[0][4] if k in want}:
        out.bad('spec', 'the optimizer got the specification %s, expected %s; %s' % ([x[4] for x in log], want, case))
    out.execs += 1
    out.transitions += len(want)
    out.state([case, len(want)])
    out.nontrivial = len(want) != len(wg.nodes)


def real_gen(t):
    q = t == 'quick'
    for e in W.edge_sets(3, [(0, 'FS'), (2, 'FS'), (2, 'SS')], 2):
        if any(x[2:] == [2, 'FS'] for x in e):
            for spec in ({'0': {'team': {'driver': 1}}}, {'1': {'team': {'driver': 2}}}, {'0': {'time': 9}}, {'2': {'team': {'driver': 1}}}):
                for tl in ('jit', 'momentum'):
                    yield {'edges': e, 'lag': 'AUTO', 'area': [0, 9], 'tl': tl, 'twice': 0, 'spec': spec}
    for e in W.edge_sets(3, [(0, 'FS'), (0, 'IFS'), (2, 'SS')], 2 if q else None):
        for lag in ('TRUE', 'AUTO'):
            for a, b in ((0, 9), (1, 3)):
                for tl in ('jit', 'momentum'):
                    for twice in (0, 1):
                        yield {'edges': e, 'lag': lag, 'area': [a, b], 'tl': tl, 'twice': twice}


def real_run(case, out):
    """the optimizers of the framework in the pipeline: the result is a valid schedule of the restructured graph"""
    w = {'works': W.with_chains([dict(fams.R(('driver', 5, 1, 3)), vol=4), dict(fams.R(('driver', 8, 1, 2), ('fitter', 4, 1, 2)), vol=6), dict(fams.R(('driver', 8, 1, 3)), vol=4)], case['edges']),
         'edges': case['edges'], 'con': [{'driver': 4, 'fitter': 2}], 'spec': case.get('spec', {'0': {'team': {'driver': 2}}})}
    wg, con, spec = W.build_graph(w), W.build_contractors(w), W.build_spec(w)
    area = range(*case['area'])
    tl = {'jit': JustInTimeTimeline, 'momentum': MomentumTimeline}[case['tl']]
    p = SchedulingPipeline.create().wg(wg).contractors(con).spec(spec).time_shift(Time(2)).lag_optimize(Lag[case['lag']]).optimize_local(SwapOrderLocalOptimizer(), area)
    if case['twice']:
        p = p.optimize_local(SwapOrderLocalOptimizer(), range(0, 4))
    with sched.Quiet():
        res = p.schedule(sched.SCHEDULERS['heft']()).optimize_local(ParallelizeScheduleLocalOptimizer(tl), area)
        if case['twice']:
            res = res.optimize_local(ParallelizeScheduleLocalOptimizer(tl), range(0, 4))
        pr, = res.finish()
        again, = res.finish()
    got, dup = ref.as_records(pr.raw_schedule)
    text = '%s; %s' % (ref.brief(got), case)
    world, g = restructured_world(pr.raw_wg, w)
    for aspect, detail in ref.judge(world, g, got, dup, 2):
        out.bad(aspect, '%s; %s' % (detail, text))
    relations(w, pr.schedule, out, text)
    if rows(again.raw_schedule) != got:
        out.bad('repeat', 'finishing again gives %s; %s' % (ref.brief(rows(again.raw_schedule)), text))
    out.execs += 1
    out.transitions += len(got)
    out.state([case, ref.brief(got)])
    out.nontrivial = bool(case['edges'])


def restructured_world(g, w):
    """description of a restructured graph for the judge"""
    mid = [n for n in g.nodes if n not in (g.start, g.finish)]
    ix = {n.id: i for i, n in enumerate(mid)}
    spec = {}
    for k, v in w.get('spec', {}).items():
        i = W.wid(w, int(k))
        spec[str(ix[i + SEP + '0' if i + SEP + '0' in ix else i])] = v
    return {'works': [{'req': [[r.kind, int(r.volume), r.min_count, r.max_count] for r in n.work_unit.worker_reqs]} for n in mid], 'ids': [n.id for n in mid], 'con': w['con'], 'spec': spec,
            'edges': [[ix[e.start.id], ix[e.finish.id], e.lag, e.type.value] for n in mid for e in n.edges_to if e.start.id in ix]}, g


class Tail(StructureEstimator):
    """adds nothing but leaves a trace"""

    def restruct(self, wg):
        wg.nodes[1].work_unit.description = 'restructured'
        return wg


def prep_gen(t):
    for method in ('wg', 'both'):
        for est in (0, 1):
            for con in (None, 'list', 'frame'):
                if method == 'wg' and con:
                    continue
                for source in ('frame', 'graph'):
                    for e in W.edge_sets(2, [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'SS'), (1, 'FFS')]):
                        yield {'works': W.with_chains([{'req': [['driver', 6, 1, 2]]}, {'req': [['driver', 9, 2, 3]]}], e), 'edges': e, 'method': method, 'est': est, 'con': con, 'source': source}


def prep_run(case, out):
    con = W.build_contractors({'con': [{'driver': 3}, {'driver': 5}]})
    cdf = pd.DataFrame([{'contractor_id': c.id, 'name': c.name, **{k: x.count for k, x in c.workers.items()}} for c in con])
    own = W.build_graph(dict(case, ids=['a0', 'a1']))
    p = PreparationPipeline(as_table(case) if case['source'] == 'frame' else own)
    if case['con']:
        p = p.contractors(con if case['con'] == 'list' else cdf)
    if case['est']:
        p = p.structure_estimator(Tail())
    with sched.Quiet():
        if case['method'] == 'wg':
            wg, got = p.build_wg(), None
        else:
            wg, got = p.build_wg_and_contractors()
    ends = lambda g, x: {g.start.id: 'start', g.finish.id: 'finish'}.get(x, x)
    mid = lambda g: sorted([x, y, l, k] for x, y, l, k in edges_of(g) if x in ('a0', 'a1') and y in ('a0', 'a1'))
    if not {'a0', 'a1'} <= set(wg.dict_nodes) or mid(wg) != mid(own):
        out.bad('prepared', 'prepared graph %s, expected %s; %s' % (edges_of(wg), edges_of(own), case))
        return
    for i, w in enumerate(case['works']):
        u = wg['a%d' % i].work_unit
        r = sorted([x.kind, int(x.volume), x.min_count, x.max_count] for x in u.worker_reqs)
        if r != sorted(w['req']):
            out.bad('prepared', 'work a%d needs %s, expected %s; %s' % (i, r, w['req'], case))
    if case['est'] != ('restructured' in [n.work_unit.description for n in wg.nodes]):
        out.bad('structure', 'the structure estimator was %sapplied; %s' % ('not ' if case['est'] else '', case))
    if got is not None:
        have = [(c.id, c.name, {k: x.count for k, x in c.workers.items()}) for c in got]
        want = [(c.id, c.name, {k: x.count for k, x in c.workers.items()}) for c in con]
        if case['con'] and have != want:
            out.bad('contractors', 'contractors %s, expected %s; %s' % (have, want, case))
        if not case['con'] and (len(have) != 1 or have[0][2] != {'driver': max((q[2] + q[3]) // 2 for w in case['works'] for q in w['req'])}):
            out.bad('contractors', 'generated contractors %s; %s' % (have, case))
    out.execs += 1
    out.transitions += len(case['edges'])
    out.state([case])
    out.nontrivial = bool(case['est'] or case['con'])


FAMILIES = [core.Family('schedule', gen, run, rule='worlds of 2-3 works over nine edge kinds, specifications, strategies, schedulers, project starts; zones and priorities'),
            core.Family('able', able_gen, able_run, rule='two works over six requirements, all sets of one or two contractors out of eight'),
            core.Family('generated', made_gen, made_run, rule='generated contractors: method, number and scale'),
            core.Family('tables', table_gen, table_run, rule='projects from tables and files, contractors from a list, a table or a file'),
            core.Family('optimizers', opt_gen, opt_run, rule='recording optimizers of orders and schedules in every combination'),
            core.Family('chosen', auto_gen, auto_run, rule='the specification handed on with the graph that the automatic choice takes'),
            core.Family('local', real_gen, real_run, rule='the local optimizers of the framework inside the pipeline'),
            core.Family('preparation', prep_gen, prep_run, rule='graphs and contractors from the preparation pipeline')]
