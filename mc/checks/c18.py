import copy
import itertools
import json
import os
import pickle
import tempfile

import dill

from mc import core, fams, sched, snap
from mc import worlds as W
from mc.checks import c17
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import WorkGraph
from sampo.schemas.project import ScheduledProject
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, MaterialReq, WorkerReq, ZoneReq
from sampo.schemas.resources import Equipment, Material, Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.schemas.zones import ZoneTransition
from sampo.structurator import graph_restructuring

RULE = 'every object of the family goes through every way of saving and loading; everything observable is compared before and after'


def by_file(x, typ):
    with tempfile.TemporaryDirectory() as d:
        x.dump(d, 'x')
        return typ.loadf(d, 'x')


def twice(x, typ):
    d = x.dumpd()
    typ.loadd(d)
    return typ.loadd(d)


def plain(x, typ):
    """a saved dictionary is plain data that does not follow later changes: load it from a deep copy made by json"""
    return typ.loadd(json.loads(json.dumps(x.dumpd())))


WAYS = {'text': lambda x, t: t.loads(x.dumps()), 'file': by_file, 'dict': lambda x, t: t.loadd(x.dumpd()), 'again': twice,
        'pickle': lambda x, t: pickle.loads(pickle.dumps(x)), 'dill': lambda x, t: dill.loads(dill.dumps(x)), 'deepcopy': lambda x, t: copy.deepcopy(x)}
JSONISH = ('text', 'file', 'dict', 'again')


def worker(w, way):
    d = snap.obj(w)
    if way in JSONISH:
        d.pop('productivity', None)
    return d


def look(x, way):
    """what can be observed of an object; way: how it was restored (productivity of workers is not saved as text by design)"""
    if isinstance(x, WorkGraph):
        return [snap.graph(x), sorted(x.dict_nodes), x.vertex_count]
    if isinstance(x, Worker):
        return worker(x, way)
    if isinstance(x, Contractor):
        return [x.id, x.name, {k: worker(v, way) for k, v in x.workers.items()}, snap.obj(x.equipments)]
    if isinstance(x, Schedule):
        cols = [c for c in x.full_schedule_df.columns if c not in ('scheduled_work_object', 'idx')]
        return [[swork(s, way) for s in x.works], cols, snap.obj(x.full_schedule_df[cols].values.tolist()), int(x.execution_time)]
    if isinstance(x, ScheduledProject):
        return [look(x.schedule, way), look(x.wg, way), [look(c, way) for c in x.contractors]]
    return snap.obj(x)


def swork(s, way):
    d = dict(vars(s))
    for k in ('equipments', 'materials', 'object', 'work_unit'):
        d.pop(k, None)
    d['workers'] = [worker(w, way) for w in s.workers]
    return snap.obj(d)


def reqs(k):
    """requirement lists number k: none, one or two of every kind"""
    a, b, c, d, e = k
    return dict(worker_reqs=[WorkerReq('driver', Time(5), 1, 2), WorkerReq('fitter', Time(0), 0, 7, 'nm')][:a], equipment_reqs=[EquipmentReq('e', 1), EquipmentReq('f', 3, 'x')][:b],
                object_reqs=[ConstructionObjectReq('o', 2), ConstructionObjectReq('p', 0, 'y')][:c], material_reqs=[MaterialReq('m', 4), MaterialReq('n', 0, 'z')][:d],
                zone_reqs=[ZoneReq('z1', 1), ZoneReq('z2', 0, 'q')][:e])


NAMES = ['simple', 'двор "7"\n,;', {'granular_name': 'g', 'measurement': 'm3', 'other': 5}]


def unit_gen(t):
    for k in itertools.product(range(3), repeat=5):
        for name in range(len(NAMES)):
            for extra in range(3):
                if sum(x > 1 for x in k) > 1 and (name or extra) and t == 'quick':
                    continue
                yield {'reqs': list(k), 'name': name, 'extra': extra}


def unit_run(case, out):
    extra = [{}, dict(description='d', group='gr', priority=4, is_service_unit=True, volume=2.25, display_name='shown'), dict(priority=0, volume=10 ** 9)][case['extra']]
    name = NAMES[case['name']]
    x = WorkUnit('id 1', dict(name) if isinstance(name, dict) else name, **reqs(case['reqs']), **extra)
    same(x, WorkUnit, case, out)
    if snap.obj(x)['model_name']['granular_name'] == 'simple' and sum(case['reqs']):
        for way in WAYS:
            y = WAYS[way](x, WorkUnit)
            if y.worker_reqs is x.worker_reqs:
                out.bad('shared:%s' % way, 'the restored work shares its requirements with the saved one')


def same(x, typ, case, out):
    before = {w: look(x, w) for w in ('text', 'pickle')}
    out.nontrivial = True
    for way, f in WAYS.items():
        y = f(x, typ)
        if type(y) is not typ:
            out.bad('type:%s' % way, 'restored a %s; %s' % (type(y).__name__, case))
            continue
        a = before['text' if way in JSONISH else 'pickle']
        b = json.loads(json.dumps(look(y, way)))
        a = json.loads(json.dumps(a))
        d = snap.diff(a, b)
        if d:
            out.bad('lost:%s' % way, 'saved and restored (%s): %s; %s' % (way, d, case))
        out.execs += 1
        out.transitions += 1
        d = snap.diff(before['pickle'], look(x, 'pickle'))
        if d:
            out.bad('original:%s' % way, 'saving changed the original: %s; %s' % (d, case))
            break
        if isinstance(y, WorkGraph):
            c17.consistent(y, out, '%s of %s' % (way, case))
    out.state([case])


def res_gen(t):
    for kinds in ([], ['driver'], ['driver', 'fitter']):
        for n in (0, 1, 10 ** 6):
            for cost in (None, 0, 2.5):
                for eq in range(3):
                    yield {'kinds': kinds, 'n': n, 'cost': cost, 'eq': eq}


def res_run(case, out):
    ws = {k: Worker('w' + k, k, case['n'], '', cost_one_unit=case['cost']) for k in case['kinds']}
    x = Contractor('c', 'Name "x"', ws, {'e%d' % i: Equipment('ee%d' % i, 'e%d' % i, i + 1, 'c') for i in range(case['eq'])})
    same(x, Contractor, case, out)
    for w in ws.values():
        same(w, Worker, case, out)
        for y in (WAYS['text'](w, Worker), WAYS['deepcopy'](w, Worker), w.copy()):
            if (y.count, y.name, y.get_cost(), y.get_agent_id()) != (w.count, w.name, w.get_cost(), w.get_agent_id()):
                out.bad('worker', 'restored worker differs: %s' % case)
    same(Material('m', 'mm', case['n'], case['cost']), Material, case, out)
    same(Time(case['n']), Time, case, out)
    same(ZoneTransition('z', 1, 2, Time(case['n']), Time(5)), ZoneTransition, case, out)


def graph_gen(t):
    q = t == 'quick'
    kinds = [(0, 'FS'), (-1, 'FS'), (2.5, 'FS'), (0, 'IFS'), (1, 'SS'), (2, 'FF'), (1, 'FFS')]
    for e in c17.graphs(3, kinds):
        yield {'n': 3, 'edges': e, 'order': 0}
    for e in c17.graphs(4, [(0, 'FS'), (0, 'IFS')] if q else [(0, 'FS'), (3, 'FS'), (0, 'IFS')]):
        for order in range(2):
            yield {'n': 4, 'edges': e, 'order': order}


def graph_run(case, out):
    x = c17.build(case['n'], case['edges'][::-1] if case['order'] else case['edges'])
    c17.touched(x, out)
    same(x, WorkGraph, case, out)


def sched_gen(t):
    q = t == 'quick'
    for i, w in enumerate(fams.w3(t)):
        if not q or i % 3 == 0:
            yield {'world': w, 'sched': 'heft'}
    for i, w in enumerate(itertools.chain(fams.w2(t))):
        if not q or i % 5 == 0:
            yield {'world': w, 'sched': 'topo'}
    zc = {'start': {'z': 1}, 'costs': [[0, 1, 1], [1, 0, 2], [1, 3, 0]]}
    for e in W.edge_sets(2, [fams.FS0, fams.IFS]):
        for zs in itertools.product([[], [['z', 1]], [['z', 2]]], repeat=2):
            yield {'world': {'works': [dict(fams.D1, zones=z) for z in zs], 'edges': e, 'con': fams.C21, 'zcfg': zc}, 'sched': 'heft_mom'}


def sched_run(case, out):
    wg, recs, res = sched.run(case['world'], case['sched'])
    if recs is None:
        return
    case = dict(case, restructured=False)
    same(res[0], Schedule, case, out)
    con = W.build_contractors(case['world'])
    same(ScheduledProject(wg, wg, con, res[0]), ScheduledProject, case, out)
    # a restored project is scheduled in the same way
    for way in ('text', 'pickle'):
        wg2 = WAYS[way](wg, WorkGraph)
        if [n.id for n in wg2.nodes] != [n.id for n in wg.nodes] or [[e.finish.id for e in n.edges_from] for n in wg2.nodes] != [[e.finish.id for e in n.edges_from] for n in wg.nodes]:
            continue
        con2 = [WAYS[way](c, Contractor) for c in con]
        _, recs2, _ = sched.run(case['world'], case['sched'], wg=wg2, contractors=con2)
        if recs2 != recs:
            out.bad('schedule:%s' % way, 'the restored project has another schedule: %s instead of %s; %s' % (recs2, recs, case))


FAMILIES = [core.Family('works', unit_gen, unit_run, 'all combinations of 0-2 requirements of the five kinds x names x other attributes x 7 ways of saving'),
            core.Family('resources', res_gen, res_run, 'contractors, workers, equipment, materials, moments, zone transitions'),
            core.Family('graphs', graph_gen, graph_run, 'all graphs of 3 works over 7 edge kinds and of 4 works over 2-3, two construction orders'),
            core.Family('schedules', sched_gen, sched_run, 'schedules and scheduled projects of small worlds, zones included')]
