import itertools
import random
from fractions import Fraction

import numpy as np

from mc import core, rngmc, sched, snap
from mc import worlds as W
from sampo.pipeline.preparation import PreparationPipeline
from sampo.scheduler.heft.base import HEFTScheduler
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.schemas.contractor import Contractor
from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker
from sampo.schemas.structure_estimator import DefaultStructureEstimator, DefaultStructureGenerationEstimator, StructureGenerationEstimator
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.utilities.validation import validate_schedule

RULE = ('every answer of the random generator is explored; over a uniform grid of answers every set of sub-works has to come up exactly as '
        'often as the stated probabilities say')
GRID = tuple((k + 0.5) / 4 for k in range(4))
ENDS = (0.0, 0.5, 0.9999999999999999)
R = [['driver', 4, 1, 2]]


class Crews(DefaultWorkEstimator):
    """crews follow from model and volume; remembers what it was asked"""

    def __init__(self):
        super().__init__()
        self.asked = []

    def find_work_resources(self, model_name, work_volume, resource_name=None):
        if not isinstance(model_name, dict):
            raise TypeError('the model of a work is a dict, not %r' % (model_name,))
        self.asked.append((model_name['granular_name'], work_volume))
        return crews(model_name['granular_name'], work_volume)


def crews(name, volume):
    k = 1 + sum(map(ord, name)) % 2
    return [WorkerReq('driver', Time(int(volume) + 1), k, k + 1), WorkerReq('fitter', Time(2 * int(volume) + 3), 1, k)][:1 + int(volume) % 2]


class Given(StructureGenerationEstimator):
    """own table by id of the work, volume by pair"""

    def __init__(self, table):
        self.table = table

    def generate_probabilities(self, parent):
        return self.table.get(parent.id, {})

    def get_volume(self, parent, target):
        return given_volume(parent.id, target)


def given_volume(wid, target):
    return 1 + (sum(map(ord, wid)) + 3 * sum(map(ord, target))) % 7


def graph(wg):
    return {n.id: (snap.obj(n.work_unit), sorted((e.start.id, e.lag, e.type.value) for e in n.edges_to),
                   sorted((e.finish.id, e.lag, e.type.value) for e in n.edges_from)) for n in wg.nodes}


def subs(wg, new):
    """-> sorted [(work, name of the sub-work)]; None if some sub-work has no single work"""
    old = {n.id for n in wg.nodes}
    res = []
    for n in new.nodes:
        if n.id not in old:
            if len(n.edges_to) != 1:
                return None
            res.append((n.edges_to[0].start.id, n.work_unit.model_name['granular_name']))
    return sorted(res)


def judge(out, tag, wg, before, new, volume=None, reqs=None, finish_only=True):
    """all but which sub-works there are"""
    if graph(wg) != before:
        out.bad('changed', 'the given project was changed: %s; %s' % (snap.diff(before, graph(wg)), tag))
    got = {n.id: n for n in new.nodes}
    if len(got) != len(new.nodes):
        out.bad('ids', 'two works with one id; %s' % tag)
    if new.start.id != wg.start.id or new.finish.id != wg.finish.id:
        out.bad('ends', 'start or end of the project is another one; %s' % tag)
    old = {n.id: n for n in wg.nodes}
    for i, n in old.items():
        m = got.get(i)
        if m is None:
            out.bad('lost', 'work %s is missing; %s' % (i, tag))
            continue
        if m is n or m.work_unit is n.work_unit:
            out.bad('shared', 'work %s belongs to both projects; %s' % (i, tag))
        for kind in ('worker_reqs', 'zone_reqs', 'material_reqs', 'equipment_reqs', 'object_reqs'):
            if getattr(m.work_unit, kind) is getattr(n.work_unit, kind):
                out.bad('shared', '%s of work %s belong to both projects; %s' % (kind, i, tag))
        d = snap.diff(snap.obj(n.work_unit), snap.obj(m.work_unit))
        if d:
            out.bad('work', 'work %s: %s; %s' % (i, d, tag))
        e = sorted((x.start.id, x.lag, x.type.value) for x in m.edges_to if x.start.id in old)
        if e != before[i][1]:
            out.bad('links', 'links to %s are %s instead of %s; %s' % (i, e, before[i][1], tag))
    for i, m in got.items():
        if i in old:
            continue
        to = [(e.start.id, e.lag, e.type.value) for e in m.edges_to]
        of = [(e.finish.id, e.lag, e.type.value) for e in m.edges_from]
        w = m.work_unit
        if len(to) != 1 or to[0][0] not in old or to[0][1:] != (0, 'FS'):
            out.bad('after', 'sub-work %s follows %s; %s' % (w.model_name, to, tag))
            continue
        if of != [(new.finish.id, 0, 'FS')]:
            out.bad('before', 'sub-work %s precedes %s; %s' % (w.model_name, of, tag))
        p = got[to[0][0]].work_unit
        if w.is_service_unit:
            out.bad('service', 'sub-work of %s is a service work; %s' % (p.id, tag))
        if w.priority != p.priority:
            out.bad('priority', 'sub-work of %s has priority %s instead of %s; %s' % (p.id, w.priority, p.priority, tag))
        z = [(r.kind, r.required_status) for r in w.zone_reqs]
        if z != [(r.kind, r.required_status) for r in p.zone_reqs]:
            out.bad('zones', 'sub-work of %s needs zones %s; %s' % (p.id, z, tag))
        if any(a is b for a in w.zone_reqs for b in p.zone_reqs):
            out.bad('shared', 'sub-work of %s shares its zone requirements; %s' % (p.id, tag))
        if volume is not None:
            v = volume(p.id, w.model_name['granular_name'])
            if w.volume != v:
                out.bad('volume', 'sub-work of %s has volume %s instead of %s; %s' % (p.id, w.volume, v, tag))
        if reqs is not None:
            v = reqs(w.model_name['granular_name'], w.volume)
            if snap.obj(w.worker_reqs) != snap.obj(v):
                out.bad('crews', 'sub-work of %s needs %s instead of %s; %s' % (p.id, snap.obj(w.worker_reqs), snap.obj(v), tag))
    out.transitions += len(got)


# ---------------------------------------------------------------- probabilities
SHAPES = {
    'two': [('A', 0), ('B', 0)],
    'same': [('A', 0), ('A', 0)],
    'service': [('A', 1), ('A', 0)],
    'three': [('A', 0), ('B', 0), ('C', 0)],
}


def want_chances(shape, table):
    """-> {set of sub-works: probability}"""
    ps = [(('w%d' % i, t), Fraction(p)) for i, (name, svc) in enumerate(SHAPES[shape]) if not svc for t, p in table.get(name, {}).items()]
    res = {}
    for take in itertools.product((0, 1), repeat=len(ps)):
        pr = Fraction(1)
        for (k, p), x in zip(ps, take):
            pr *= p if x else 1 - p
        if pr:
            key = tuple(sorted(k for (k, p), x in zip(ps, take) if x))
            res[key] = res.get(key, 0) + pr
    return res


def run_chances(case, out):
    works = [{'req': R, 'name': n, 'svc': s} for n, s in SHAPES[case['shape']]]
    world = {'works': works, 'edges': [[0, 1, 0, 'FS']] if case['edge'] else [], 'con': []}
    wg = W.build_graph(world)
    before = graph(wg)
    table = {a: dict(x) for a, x in case['table'].items()}

    def run(ch, floats):
        gen = DefaultStructureGenerationEstimator(random.Random(5))
        if case['how'] == 'table':
            gen.set_probabilities({a: dict(x) for a, x in table.items()})
        else:
            for a, x in table.items():
                for t, p in x.items():
                    gen.set_probability(a, t, p)
        est = DefaultStructureEstimator(gen, rngmc.ChoiceRandom(ch, floats)).set_work_estimator(Crews())
        return est.restruct(wg)

    count, total = {}, Fraction(0)
    for dec, new in rngmc.explore(lambda ch: run(ch, GRID), limit=20000):
        out.execs += 1
        weight = Fraction(1, len(GRID) ** len(dec))
        total += weight
        s = subs(wg, new)
        judge(out, str(case), wg, before, new, reqs=crews)
        if s is None:
            return
        count[tuple(s)] = count.get(tuple(s), 0) + weight
    out.nontrivial = len(count) > 1
    want = want_chances(case['shape'], table)
    if total == 1 and count != want:
        k = next(k for k in sorted(set(count) | set(want)) if count.get(k, 0) != want.get(k, 0))
        out.bad('chance', 'sub-works %s come up with probability %s instead of %s; %s' % (list(k), count.get(k, 0), want.get(k, 0), case))
    for dec, new in rngmc.explore(lambda ch: run(ch, ENDS), dev=2, limit=2000):
        out.execs += 1
        s = subs(wg, new)
        if s is None:
            return
        for k in set(s) - {x for w in want for x in w}:
            out.bad('never', 'sub-work %s has probability 0 and comes up; %s' % (k, case))
        for k in {x for w in want for x in w if all(x in y for y in want)} - set(s):
            out.bad('always', 'sub-work %s has probability 1 and does not come up; %s' % (k, case))
    out.state(sorted(count.items()))
    out.sample = {'table': case['table'], 'chances': {str(list(k)): str(v) for k, v in count.items()}}


def gen_chances(t):
    ps = (0, 0.25, 0.5, 0.75, 1)
    for shape in ('two', 'same', 'service'):
        for edge in (0, 1):
            for a, b in itertools.product(ps, repeat=2):
                for how in ('table', 'single'):
                    yield {'shape': shape, 'edge': edge, 'table': {'A': {'x': a}, 'B': {'x': b}}, 'how': how}
                    if t != 'quick' or shape != 'same' or (edge, how) == (1, 'table'):
                        yield {'shape': shape, 'edge': edge, 'table': {'A': {'x': a, 'y': b}}, 'how': how}
    for a, b, c in itertools.product(ps, repeat=3):
        yield {'shape': 'two', 'edge': 1, 'table': {'A': {'x': a, 'y': b}, 'B': {'y': c}}, 'how': 'table'}
        yield {'shape': 'three', 'edge': 1, 'table': {'A': {'x': a}, 'B': {'y': b}, 'C': {'x': c}}, 'how': 'single'}
        if t != 'quick' or (a, b, c) in ((0.25, 0.5, 0.75), (0, 1, 0.5)):
            yield {'shape': 'same', 'edge': 0, 'table': {'A': {'y': a, 'x': b, 'z': c}}, 'how': 'table'}
        if t != 'quick':
            yield {'shape': 'three', 'edge': 0, 'table': {'C': {'x': a, 'y': b}, 'B': {'y': c, 'z': 0.25}}, 'how': 'single'}


# ---------------------------------------------------------------- announcing probabilities
def run_told(case, out):
    """what is said last about a pair counts; a given table is not changed"""
    world = {'works': [{'req': R, 'name': 'A'}, {'req': R, 'name': 'B'}], 'edges': [], 'con': []}
    wg = W.build_graph(world)
    before = graph(wg)
    gen = DefaultStructureGenerationEstimator(random.Random(5))
    want = {}
    tables = []
    for op in case['ops']:
        if op[0] == 'table':
            t = {a: dict(x) for a, x in op[1].items()}
            tables.append((t, {a: dict(x) for a, x in t.items()}))
            gen.set_probabilities(t)
            want = {a: dict(x) for a, x in t.items()}
        else:
            gen.set_probability(*op[1:])
            want.setdefault(op[1], {})[op[2]] = op[3]
        out.transitions += 1
    for k in range(2):
        new = DefaultStructureEstimator(gen, random.Random(k)).set_work_estimator(Crews()).restruct(wg)
        out.execs += 1
        judge(out, str(case), wg, before, new, reqs=crews)
        exp = sorted((w, t) for w, a in (('w0', 'A'), ('w1', 'B')) for t, p in want.get(a, {}).items() if p)
        if subs(wg, new) != exp:
            out.bad('told', 'sub-works %s instead of %s; %s' % (subs(wg, new), exp, case))
    for t, copy in tables:
        if t != copy:
            out.bad('table', 'the given table became %s; %s' % (t, case))
    out.nontrivial = bool(want)
    out.state([case['ops']])


def gen_told(t):
    ops = [['table', {}], ['table', {'A': {'x': 1}}], ['table', {'B': {'x': 1, 'y': 0}}], ['one', 'A', 'x', 1], ['one', 'A', 'y', 1],
           ['one', 'A', 'x', 0], ['one', 'B', 'x', 1], ['one', 'B', 'x', 0]]
    for n in range(4 if t == 'quick' else 5):
        for seq in itertools.product(ops, repeat=n):
            yield {'ops': list(seq)}


# ---------------------------------------------------------------- projects
TABLES = [
    {'w0': {'x': 0.5}}, {'w1': {'x': 0.5}}, {'w2': {'x': 0.5}},
    {'w0': {'x': 0.5, 'y': 0.5}, 'w2': {'x': 0.5}},
    {'w0': {'x': 0.5}, 'w1': {'y': 0.5}, 'w2': {'z': 0.5}},
    {'w1': {'x': 1, 'y': 1}},
]


def project(case):
    works = []
    for i in range(3):
        works.append({'req': [] if case['svc'] == i else R if case['reqs'] != 1 or i != 1 else [['fitter', 5, 1, 1], ['driver', 2, 1, 2]], 'name': 'n%d' % i, 'vol': 1 + i,
                      'pri': case['pri'][i], 'svc': int(case['svc'] == i), 'zones': [['z', i % 2 + 1], ['u', 1]][:1 + (i == 1)] if case['zones'] else [],
                      'mat': [['m', 2]] if case['mats'] and i else []})
    e = [list(x) for x in case['edges']]
    if any(x[3] == 'IFS' for x in e):
        works = W.with_chains(works, e)
    return {'works': works, 'edges': e, 'con': []}


def run_project(case, out):
    world = project(case)
    wg = W.build_graph(world)
    before = graph(wg)
    table = TABLES[case['table']]
    seen = set()

    def run(ch):
        c = Crews()
        return c, DefaultStructureEstimator(Given(table), rngmc.ChoiceRandom(ch, (0.75, 0.25))).set_work_estimator(c).restruct(wg)

    for dec, (c, new) in rngmc.explore(run):
        out.execs += 1
        judge(out, str(case), wg, before, new, given_volume, crews)
        s = subs(wg, new)
        if s is None:
            return
        seen.add(tuple(s))
        if s:       # once more: new sub-works, the first ones stay
            c2 = Crews()
            new2 = DefaultStructureEstimator(Given({w: {t: 1 for w2, t in s if w2 == w} for w in {w for w, t in s}}), random.Random(1)).set_work_estimator(c2).restruct(new)
            judge(out, 'a second time; %s' % case, new, graph(new), new2, given_volume, crews)
            if subs(new, new2) != s:
                out.bad('again', 'a second time sub-works %s instead of %s; %s' % (subs(new, new2), s, case))
            out.execs += 1
        if case['schedule'] and not case['mats'] and not case['zones']:
            for name, sch in (('heft', HEFTScheduler), ('topo', TopologicalScheduler)):
                cons = [Contractor('c0', 'c0', {k: Worker('c0_' + k, k, 3) for k in ('driver', 'fitter')})]
                np.random.seed(0)
                with sched.Quiet():
                    res, = sch().schedule(new, cons)
                d = res.to_schedule_work_dict
                if sorted(d) != sorted(n.id for n in new.nodes):
                    out.bad('scheduled', '%s: the schedule has the works %s; %s' % (name, sorted(d), case))
                    continue
                for n in new.nodes:
                    if n.id not in before and d[n.id].start_time < d[n.edges_to[0].start.id].finish_time:
                        out.bad('early', '%s: sub-work of %s starts at %s before %s; %s' % (
                            name, n.edges_to[0].start.id, d[n.id].start_time, d[n.edges_to[0].start.id].finish_time, case))
                    if d[n.id].finish_time > d[new.finish.id].finish_time:
                        out.bad('late', '%s: the project ends before %s; %s' % (name, n.id, case))
                try:
                    validate_schedule(res, new, cons)
                except AssertionError as e:
                    out.bad('invalid', '%s: %s; %s' % (name, e, case))
                out.execs += 1
    live = [('w%d' % i, t, p) for i in range(3) if case['svc'] != i for t, p in table.get('w%d' % i, {}).items()]
    want = {tuple(sorted((w, t) for (w, t, p), x in zip(live, take) if x)) for take in itertools.product((0, 1), repeat=len(live))
            if all(x or p < 1 for (w, t, p), x in zip(live, take))}
    if seen != want:
        out.bad('sets', 'sets of sub-works %s instead of %s; %s' % (sorted(seen - want), sorted(want - seen), case))
    out.nontrivial = len(seen) > 1
    out.state([sorted(seen), case['edges']])


def gen_project(t):
    kinds = [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'FFS'), (-1.5, 'FS')]
    for e in W.edge_sets(3, kinds, None if t != 'quick' else 2):
        for table in range(len(TABLES)):
            yield {'edges': e, 'table': table, 'pri': [1, 1, 1], 'svc': -1, 'zones': 0, 'mats': 0, 'reqs': 0, 'schedule': 1}
    for e in ([], [[0, 1, 0, 'FS'], [1, 2, 0, 'FS']], [[0, 2, 1, 'FFS']], [[0, 1, 0, 'IFS']]):
        for pri in ([1, 1, 1], [1, 2, 3], [2, 2, 2], [1, 1, 3]):
            for svc, zones, mats, reqs in itertools.product((-1, 0, 1, 2), (0, 1), (0, 1), (0, 1)):
                if svc >= 0 and any(x[3] == 'IFS' for x in e):
                    continue
                for table in range(len(TABLES)):
                    yield {'edges': e, 'table': table, 'pri': pri, 'svc': svc, 'zones': zones, 'mats': mats, 'reqs': reqs, 'schedule': 1}


# ---------------------------------------------------------------- volumes
def run_volume(case, out):
    """the generator's volume is that of the given interval, the crews are those of the estimator for it"""
    world = {'works': [{'req': R, 'name': 'A'}, {'req': R, 'name': 'B'}], 'edges': [[0, 1, 0, 'FS']], 'con': []}
    wg = W.build_graph(world)
    before = graph(wg)
    seen = set()

    def interval(rand):
        return {'default': lambda: IntervalGaussian(5, 2, 0.1, 10, rand), 'uniform': lambda: IntervalUniform(3, 7.5, rand),
                'gauss': lambda: IntervalGaussian(5, 3, 4.25, 6.5, rand)}[case['interval']]()

    may = {interval(rngmc.ChoiceRandom(ch, (0.5, 0.0, 0.999))).rand_float() for ch in (rngmc.Chooser((k,)) for k in range(3))}

    def run(ch):
        rand = rngmc.ChoiceRandom(ch, (0.5, 0.0, 0.999))
        gen = DefaultStructureGenerationEstimator(rand)
        lo, hi = {'default': (0.1, 10), 'uniform': (3, 7.5), 'gauss': (4.25, 6.5)}[case['interval']]
        if case['interval'] != 'default':
            gen.set_volume_interval(interval(rand))
        gen.set_probability('A', 'x', 1)
        gen.set_probability('B', 'x', 1).set_probability('B', 'y', 1)
        c = Crews()
        return lo, hi, c, DefaultStructureEstimator(gen, random.Random(1)).set_work_estimator(c).restruct(wg)

    for dec, (lo, hi, c, new) in rngmc.explore(run):
        out.execs += 1
        judge(out, str(case), wg, before, new, reqs=crews)
        if subs(wg, new) != [('w0', 'x'), ('w1', 'x'), ('w1', 'y')]:
            out.bad('sets', 'sub-works %s; %s' % (subs(wg, new), case))
            return
        v = sorted((n.edges_to[0].start.id, n.work_unit.model_name['granular_name'], n.work_unit.volume) for n in new.nodes if n.id not in before)
        if sorted((a, b) for _, a, b in v) != sorted(c.asked):
            out.bad('asked', 'the work estimator was asked for %s, the sub-works are %s; %s' % (c.asked, v, case))
        for x in v:
            if not lo <= x[2] <= hi or x[2] not in may and case['interval'] != 'default':
                out.bad('volume', 'volume %r is not between %s and %s; %s' % (x[2], lo, hi, case))
        seen.add(tuple(x[2] for x in v))
    out.nontrivial = len(seen) > 1
    if len(seen) < 27:
        out.bad('independent', '%d instead of 27 combinations of volumes; %s' % (len(seen), case))
    out.state(sorted(seen))


def gen_volume(t):
    for i in ('default', 'uniform', 'gauss'):
        yield {'interval': i}


# ---------------------------------------------------------------- the pipeline
def run_pipeline(case, out):
    world = project(dict(case, zones=0, mats=0, reqs=0))
    wg = W.build_graph(world)
    before = graph(wg)
    table = TABLES[case['table']]
    seen = set()
    con = [Contractor('c0', 'c0', {'driver': Worker('c0_driver', 'driver', 4), 'fitter': Worker('c0_fitter', 'fitter', 4)})]

    def run(ch):
        est = DefaultStructureEstimator(Given(table), rngmc.ChoiceRandom(ch, (0.75, 0.25))).set_work_estimator(Crews())
        p = PreparationPipeline(wg).work_estimator(Crews()).structure_estimator(est)
        if case['how'] == 'wg':
            return p.build_wg()
        if case['how'] == 'given':
            p = p.contractors(con)
        g, cs = p.build_wg_and_contractors()
        if not cs or case['how'] == 'given' and [c.id for c in cs] != ['c0']:
            out.bad('contractors', 'contractors %s; %s' % (cs, case))
        return g

    for dec, new in rngmc.explore(run):
        out.execs += 1
        if graph(wg) != before:
            out.bad('changed', 'the given project was changed; %s' % case)
        old = {n.id for n in wg.nodes if not n.work_unit.is_service_unit}
        s, got = [], {n.id for n in new.nodes}
        if not old <= got:
            out.bad('lost', 'works %s are missing; %s' % (sorted(old - got), case))
        for n in new.nodes:
            if n.id in old:
                e = sorted((x.start.id, x.lag, x.type.value) for x in n.edges_to if x.start.id in old)
                if e != sorted(x for x in before[n.id][1] if x[0] in old):
                    out.bad('links', 'links to %s are %s; %s' % (n.id, e, case))
            elif not n.work_unit.is_service_unit:
                to = [(x.start.id, x.lag, x.type.value) for x in n.edges_to]
                if len(to) != 1 or to[0][0] not in old or to[0][1:] != (0, 'FS'):
                    out.bad('after', 'sub-work %s follows %s; %s' % (n.work_unit.model_name, to, case))
                    continue
                if [x.finish.id for x in n.edges_from] != [new.finish.id]:
                    out.bad('before', 'sub-work %s precedes %s; %s' % (n.work_unit.model_name, [x.finish.id for x in n.edges_from], case))
                k = (to[0][0], n.work_unit.model_name['granular_name'])
                if snap.obj(n.work_unit.worker_reqs) != snap.obj(crews(k[1], given_volume(*k))):
                    out.bad('crews', 'sub-work %s needs %s; %s' % (k, n.work_unit.worker_reqs, case))
                s.append(k)
        seen.add(tuple(sorted(s)))
    live = [('w%d' % i, t, p) for i in range(3) for t, p in table.get('w%d' % i, {}).items()]
    want = {tuple(sorted((w, t) for (w, t, p), x in zip(live, take) if x)) for take in itertools.product((0, 1), repeat=len(live))
            if all(x or p < 1 for (w, t, p), x in zip(live, take))}
    if seen != want:
        out.bad('sets', 'sets of sub-works %s instead of %s; %s' % (sorted(seen - want), sorted(want - seen), case))
    out.nontrivial = len(seen) > 1
    out.state([sorted(seen), case['edges'], case['how']])


def gen_pipeline(t):
    for e in W.edge_sets(3, [(0, 'FS'), (2, 'FS')], 2):
        for table in range(len(TABLES)):
            for how in ('wg', 'given', 'generated'):
                yield {'edges': e, 'table': table, 'pri': [1, 1, 1], 'svc': -1, 'how': how}


FAMILIES = [
    core.Family('chances', gen_chances, run_chances, 'all tables of 1-3 probabilities of five values for 2-3 works, all answers of a grid of four, answers at the ends'),
    core.Family('announcements', gen_told, run_told, 'all sequences of up to 3 (thorough 4) of 8 announcements of probabilities 0 and 1'),
    core.Family('projects', gen_project, run_project, 'all graphs of 3 works with up to 2 (thorough 3) links, priorities, service works, zones, materials, all sets of sub-works'),
    core.Family('volumes', gen_volume, run_volume, 'all answers of the generator of volumes'),
    core.Family('pipeline', gen_pipeline, run_pipeline, 'through the preparation of projects, with given and generated contractors'),
]
