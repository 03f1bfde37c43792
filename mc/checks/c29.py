import ast
import itertools
from datetime import datetime, timedelta

from mc import core, fams, ref, sched, snap
from mc import worlds as W
from sampo.schemas.contractor import Contractor
from sampo.schemas.landscape import MaterialDelivery
from sampo.schemas.project import ScheduledProject
from sampo.schemas.resources import Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.schemas.zones import ZoneTransition
from sampo.structurator import graph_restructuring
from sampo.utilities.schedule import fix_split_tasks

RULE = 'every small schedule is turned into each of its views; the views are compared with sums over the scheduled works'
BASE = datetime(2024, 2, 27)


def swork(i, s, e, name=None, n=1, vol=1.0, model=None, svc=False, zones=(), mats=(), cost=3, con='c0'):
    u = WorkUnit(i, model or {'granular_name': name or i}, volume=vol, display_name=name or i, is_service_unit=svc)
    d = MaterialDelivery(i)
    for m in mats:
        d.add_delivery(*m)
    return ScheduledWork(u, (Time(s), Time(e)), [Worker('w', 'driver', n, con, cost_one_unit=cost)] if n else [], Contractor(con, con, {}) if con else None,
                         zones_pre=[ZoneTransition(z, 0, 1, Time(s), Time(e)) for z in zones], materials=d)


def frame(df):
    return [list(df.columns), list(df.index), [[str(x) if not isinstance(x, (int, float, str)) else x for x in r] for r in df.values.tolist()]]


def expect(sw):
    """cells of a row, from the scheduled work only"""
    cost = sum(w.cost_one_unit * w.count * (sw.finish_time - sw.start_time).value for w in sw.workers)
    return {'task_id': sw.id, 'task_name': sw.display_name, 'contractor': sw.contractor, 'cost': cost, 'volume': sw.volume, 'start': sw.start_time.value,
            'finish': sw.finish_time.value, 'duration': (sw.finish_time - sw.start_time).value, 'workers': {w.name: w.count for w in sw.workers}}


def cells(row):
    return {k: ast.literal_eval(row[k]) if k == 'workers' else row[k] for k in ('task_id', 'task_name', 'contractor', 'cost', 'volume', 'start', 'finish', 'duration', 'workers')}


def plain(sch, works, case, out, order=None):
    """the full and the pure table, the dictionary, the list and the execution time of a schedule without stages"""
    df = sch.full_schedule_df
    by = {s.id: s for s in works}
    ids = list(df.task_id)
    if sorted(ids) != sorted(by) or order and ids != order:
        out.bad('rows', 'rows %s of works %s; %s' % (ids, order or sorted(by), case))
        return
    names = {k for s in works for k in s.model_name}
    for _, r in df.iterrows():
        s = by[r.task_id]
        if cells(r) != expect(s) or r.scheduled_work_object is not s:
            out.bad('cells', 'row %s is not %s; %s' % (cells(r), expect(s), case))
        for k in names:
            v = r[k] if k in df.columns else '(no column)'
            if v != s.model_name.get(k) and not (k not in s.model_name and (v is None or v != v)):
                out.bad('name', 'work %s has %s=%s in the table; %s' % (s.id, k, v, case))
    if [s.id for s in sch.works] != ids or {k: v.id for k, v in sch.to_schedule_work_dict.items()} != {i: i for i in ids}:
        out.bad('works', 'works or dictionary differ from the table; %s' % case)
    if list(sch.pure_schedule_df.task_id) != [i for i in ids if not by[i].is_service_unit]:
        out.bad('pure', 'pure table has %s; %s' % (list(sch.pure_schedule_df.task_id), case))
    if sch.execution_time != max(s.finish_time for s in works):
        out.bad('execution', 'execution time %s; %s' % (sch.execution_time, case))


def ordered(sch, wg, case, out):
    seen, last = set(), -1
    for s in sch.works:
        if s.start_time < last:
            out.bad('order', 'rows are not ordered by start: %s; %s' % (list(sch.full_schedule_df.task_id), case))
        last = s.start_time
        for p in wg[s.id].parents:
            if p.id not in seen and any(x.id == p.id for x in sch.works):
                out.bad('order', 'row of %s before its predecessor %s; %s' % (s.id, p.id, case))
        seen.add(s.id)


def tables_gen(t):
    q = t == 'quick'
    n = 3
    for k, es in enumerate(W.edge_sets(n, [(0, 'FS')])):
        for durs in itertools.product((0, 1) if q else (0, 1, 2), repeat=n):
            for late in itertools.product((0, 1), repeat=n):
                if q and (k + sum(durs) + late[0] * 3 + late[1] * 5 + late[2] * 7) % 2:
                    continue
                yield {'edges': [[a, b, 0, 'FS'] for a, b, *_ in es], 'durs': durs, 'late': late}


def tables_run(case, out):
    n = len(case['durs'])
    wg = W.build_graph({'works': [{} for _ in range(n)], 'edges': case['edges'], 'ids': ['b', 'a', 'c']})
    ids = ['b', 'a', 'c']
    start, finish = [0] * n, [0] * n
    for i in range(n):
        start[i] = max([finish[a] for a, b, *_ in case['edges'] if b == i], default=0) + case['late'][i]
        finish[i] = start[i] + case['durs'][i]
    end = max(finish)
    ends = [swork(wg.start.id, 0, 0, 'start', 0, svc=True, con=None), swork(wg.finish.id, end, end, 'end', 0, svc=True, con=None)]
    mid = [swork(ids[i], start[i], finish[i], n=i + 1, vol=i + 0.5, model={'granular_name': ids[i], **({'extra': 'e'} if i == 1 else {})}) for i in range(n)]
    out.nontrivial = bool(case['edges'])
    for perm in itertools.permutations(mid):
        for works in ([ends[0], *perm, ends[1]], [ends[1], *perm, ends[0]]):
            before = [snap.obj(s) for s in works]
            sch = Schedule.from_scheduled_works(works, wg)
            plain(sch, works, case, out)
            ordered(sch, wg, case, out)
            plain(Schedule.from_scheduled_works(works), works, case, out, order=[s.id for s in works])
            if [snap.obj(s) for s in works] != before:
                out.bad('mutated', 'works were changed; %s' % case)
            out.transitions += 2
    out.execs += 1
    out.state([case])


def merged(sch, out, case, tag, given=None, order=True):
    """united schedule and dated table against sums over the stages; given: sworks by row of the raw schedule"""
    raw = list(sch.works)
    groups = {}
    for s in raw:
        groups.setdefault(s.id.split('_stage_')[0], []).append(s)
    before = frame(sch.full_schedule_df), [snap.obj(s) for s in raw]
    united = sch.unite_stages()
    dated = sch.merged_stages_datetime_df(BASE)
    again = Schedule(sch.full_schedule_df).merged_stages_datetime_df(BASE.strftime('%Y-%m-%d'))
    given = sch.full_schedule_df.copy()
    given.index = ['r%d' % i for i in range(len(given))]
    was = frame(given)
    fix_split_tasks(given)
    if frame(given) != was:
        out.bad(tag + ':mutated', 'merging changed the given table; %s' % case)
    if (frame(sch.full_schedule_df), [snap.obj(s) for s in raw]) != before:
        out.bad(tag + ':mutated', 'the schedule was changed by its views; %s' % case)
    if frame(dated) != frame(again):
        out.bad(tag + ':offset', 'start as text gives another table; %s' % case)
    got = {s.id: s for s in united.works}
    rows = {r.task_id: r for _, r in dated.iterrows()}
    for name, ids in (('united', [s.id for s in united.works]), ('dated', list(dated.task_id))):
        if sorted(ids) != sorted(groups):
            out.bad(tag + ':works', '%s works are %s, expected %s; %s' % (name, ids, sorted(groups), case))
            return
    if [s.start_time for s in united.works] != sorted(s.start_time for s in united.works) or list(dated.start) != sorted(dated.start) or list(dated.idx) != list(range(len(dated))):
        out.bad(tag + ':order', 'merged works are not ordered by start; %s' % case)
    if united.execution_time != max(s.finish_time for s in raw):
        out.bad(tag + ':execution', 'execution time of the united schedule is %s; %s' % (united.execution_time, case))
    df = {r.task_id: r for _, r in united.full_schedule_df.iterrows()}
    for i, ss in groups.items():
        u, d, f = got[i], rows[i], df[i]
        s, e = min(x.start_time for x in ss).value, max(x.finish_time for x in ss).value
        cost = sum(x.cost for x in ss)
        vol = sum(x.volume for x in ss)
        names = {x.model_name['granular_name'].split('_stage_')[0] for x in ss}
        have = [u.start_time.value, u.finish_time.value, u.cost, round(u.volume, 9), {w.name: w.count for w in u.workers}, u.contractor, u.is_service_unit]
        want = [s, e, cost, round(vol, 9), {w.name: w.count for w in ss[0].workers}, ss[0].contractor, ss[0].is_service_unit]
        if have != want or u.model_name['granular_name'] not in names:
            out.bad(tag + ':united', 'united work %s is %s, expected %s; %s' % (i, have + [u.model_name], want + [names], case))
        have = [f.start, f.finish, f.duration, f.cost, round(f.volume, 9), ast.literal_eval(f.workers), f.granular_name in names]
        want = [s, e, e - s, cost, round(vol, 9), {w.name: w.count for w in ss[0].workers}, True]
        if have != want:
            out.bad(tag + ':united', 'row of united work %s is %s, expected %s; %s' % (i, have, want, case))
        have = [d.start.to_pydatetime() if hasattr(d.start, 'to_pydatetime') else d.start, d.finish, d.duration, d.cost, round(d.volume, 9), ast.literal_eval(d.workers), d.granular_name in names, d.task_name]
        want = [BASE + timedelta(days=s), BASE + timedelta(days=e), e - s, cost, round(vol, 9), {w.name: w.count for w in ss[0].workers}, True, ss[0].display_name]
        if have != want:
            out.bad(tag + ':dated', 'dated row of %s is %s, expected %s; %s' % (i, have, want, case))
        if sorted(str(z) for z in u.zones_pre) != sorted(str(z) for x in ss for z in x.zones_pre):
            out.bad(tag + ':zones', 'zone changes of %s are %s; %s' % (i, u.zones_pre, case))
        items = lambda x: [(m, d) for m, ds in x.materials.delivery.items() for d in ds]
        if sorted(items(u), key=str) != sorted([y for x in ss for y in items(x)], key=str):
            out.bad(tag + ':materials', 'deliveries of %s are %s; %s' % (i, u.materials.delivery, case))
    return united


def stages_gen(t):
    q = t == 'quick'
    for k in (1, 2, 3, 12):
        for durs in itertools.product((0, 2), repeat=min(k, 3)):
            for gap in (0, 1):
                for other in (0, 1, 5):
                    for rows in ('start', 'reverse', 'ids'):
                        yield {'k': k, 'durs': durs, 'gap': gap, 'other': other, 'rows': rows}


def stages_run(case, out):
    k = case['k']
    durs = list(case['durs']) + [1] * (k - len(case['durs']))
    works, t = [], 3
    for i in range(k):
        last = i == k - 1
        works.append(swork('x' if last else 'x_stage_%d' % i, t, t + durs[i], name='X', n=2, vol=0.25 * (i + 1), model={'granular_name': 'X_stage_%d' % i if k > 1 else 'X', 'measurement': 'm'},
                           zones=['z'] if i == 0 else (), mats=[('mat', i + 1, Time(t), Time(t), 'h%d' % i)] if i != 1 else ()))
        t += durs[i] + case['gap']
    o = case['other']
    works += [swork('x1', o, o + 2, name='X1', n=1, vol=7, model={'granular_name': 'X1', 'measurement': 'm'}),
              swork('start', 0, 0, 'start', 0, svc=True, con=None, model={'granular_name': 'start', 'measurement': 'u'}),
              swork('f', t, t, 'end', 0, svc=True, con=None, model={'granular_name': 'end', 'measurement': 'u'})]
    if case['rows'] == 'start':
        works.sort(key=lambda s: s.start_time)
    elif case['rows'] == 'reverse':
        works.sort(key=lambda s: s.start_time, reverse=True)
    else:
        works.sort(key=lambda s: s.id)
    sch = Schedule.from_scheduled_works(works)
    u = merged(sch, out, case, 'stages')
    if u is not None:
        merged(u, out, case, 'twice')
    out.nontrivial = k > 1
    out.transitions += 2
    out.execs += 1
    out.state([case])


def real_gen(t):
    q = t == 'quick'
    kinds = [('SS', 0), ('FF', 1), ('FFS', 1), ('FS', 0)]
    req = [fams.R(['driver', 6, 1, 2]), fams.R(['driver', 3, 1, 1], ['fitter', 4, 1, 2]), {}]
    ps = W.pairs(3)
    for ks in itertools.product([None] + kinds, repeat=3):
        if sum(x is not None for x in ks) < (2 if q else 1):
            continue
        edges = [[a, b, k[1], k[0]] for (a, b), k in zip(ps, ks) if k]
        for lagopt in (False, True):
            for s in (('heft', 'topo') if q else ('heft', 'between', 'topo', 'lft', 'heft_mom')):
                yield {'works': [dict(r, vol=6) for r in req], 'edges': edges, 'con': [{'driver': 3, 'fitter': 2}], 'lagopt': lagopt, 's': s}


def real_run(case, out):
    wg = W.build_graph(case)
    try:
        rw = graph_restructuring(wg, case['lagopt'])
    except Exception as e:
        out.bad('restructuring', '%s: %s; %s' % (type(e).__name__, e, case))
        return
    con = W.build_contractors(case)
    world = {**case, 'edges': [], 'works': []}
    _, recs, res = sched.run(world, case['s'], wg=rw, contractors=con)
    if recs is None:
        out.bad('refused', '%s: %s; %s' % (type(res).__name__, res, case))
        return
    raw = res[0] if not isinstance(res[0], tuple) else res[0][0]
    plain(raw, list(raw.works), case, out)
    ordered(raw, rw, case, out)
    p = ScheduledProject(wg, rw, con, raw)
    merged(raw, out, case, 'real')
    if {s.id for s in p.schedule.works} != {n.id for n in wg.nodes} or p.raw_schedule is not raw:
        out.bad('project', 'works of the project are %s; %s' % (sorted(s.id for s in p.schedule.works), case))
    vols = {n.id: n.work_unit.volume for n in wg.nodes}
    for s in p.schedule.works:
        if abs(s.volume - vols[s.id]) > 1e-9:
            out.bad('project', 'volume of %s is %s of %s; %s' % (s.id, s.volume, vols[s.id], case))
    path = p.critical_path()
    if len({n.id for n in path}) != len(path) or any(wg[n.id] is not n for n in path) or path[0] is not wg.start:
        out.bad('path', 'critical path of the project is %s; %s' % ([n.id for n in path], case))
    back = Schedule._deserialize(raw._serialize())
    if [expect(s) for s in back.works] != [expect(s) for s in raw.works]:
        out.bad('loaded', 'loaded schedule differs; %s' % case)
    out.nontrivial = len(rw.nodes) > len(wg.nodes)
    out.transitions += 3
    out.execs += 1
    out.state([case])


FAMILIES = [core.Family('tables', tables_gen, tables_run, 'all graphs of 3 works, durations 0-1 (2), delays, all orders of the given works'),
            core.Family('stages', stages_gen, stages_run, 'works of 1, 2, 3 and 12 stages with pauses, other works around, rows in three orders; merged twice'),
            core.Family('projects', real_gen, real_run, 'all graphs of 3 works over 5 kinds of links, restructured in both modes, scheduled, united')]
