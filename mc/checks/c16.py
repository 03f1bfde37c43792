import itertools
import math

from mc import core, snap
from mc import worlds as W
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, MaterialReq, WorkerReq, ZoneReq
from sampo.api.const import STAGE_SEP as SEP
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.structurator.base import graph_restructuring

RULE = ('every graph of the family is restructured with and without lag optimisation; the stages (names, volumes, requirements, priorities) and the whole set of edges are compared with '
        'an independent derivation from the original edges')
DEPS = ('FS', 'IFS', 'FFS')


def build(case):
    nodes = []
    for i, w in enumerate(case['works']):
        wu = WorkUnit('w%d' % i, {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i}, worker_reqs=[WorkerReq(k, Time(v), lo, hi) for k, v, lo, hi in w['req']],
                      equipment_reqs=[EquipmentReq('e', w['n'])], object_reqs=[ConstructionObjectReq('o', w['n'] + 1)], material_reqs=[MaterialReq('m', w['n'])],
                      zone_reqs=[ZoneReq('z', 1)], description='d%d' % i, group='g%d' % (i % 2), priority=w.get('pri', 1), is_service_unit=False, volume=w['vol'],
                      display_name='n%d' % i)
        nodes.append(GraphNode(wu, []))
    for a, b, lag, t in case['edges']:
        nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
    return nodes


def share(lag, vol):
    return lag / vol if 0 < lag <= vol else 0


def edges_of(wg):
    return sorted([e.start.id, e.finish.id, float(e.lag), e.type.value] for n in wg.nodes for e in n.edges_to)


def run(case, out):
    nodes = build(case)
    wg = WorkGraph.from_nodes(nodes)
    lagopt = case['opt']
    before = snap.graph(wg)
    res = graph_restructuring(wg, lagopt)
    out.execs += 1
    d = snap.diff(before, snap.graph(wg))
    if d:
        out.bad('original', 'restructuring changed the original graph: %s' % d)
        return
    text = 'graph %s becomes %s' % (case, [(n.id, n.work_unit.volume) for n in res.nodes])
    n = len(case['works'])
    orig = [[e.start.id, e.finish.id, e.lag, e.type.value] for x in wg.nodes for e in x.edges_to]
    vol = {x.id: x.work_unit.volume for x in wg.nodes}
    # breakpoints of every work
    cuts = {x.id: set() for x in wg.nodes}
    ref = {}
    for a, b, lag, t in orig:
        s = share(lag, vol[a]) if lagopt else 0
        if t == 'SS' or t == 'FFS' and lagopt:
            cuts[a].add(s)
        if t == 'FF' or t == 'FFS' and lagopt:
            cuts[b].add(1 - s)
    stages = {x.id: [y.id for y in res.nodes if y.id == x.id or y.id.startswith(x.id + SEP)] for x in wg.nodes}
    if sorted(sum(stages.values(), [])) != sorted(y.id for y in res.nodes):
        out.bad('stages', 'unknown nodes; %s' % text)
        return
    exp = []
    for x in wg.nodes:
        wu = x.work_unit
        c = sorted(cuts[x.id])
        st = ['%s%s%d' % (x.id, SEP, i) for i in range(len(c))] + [x.id]
        if sorted(st) != sorted(stages[x.id]):
            out.bad('stages', 'work %s has stages %s, expected %s; %s' % (x.id, stages[x.id], st, text))
            return
        ws = [res[s].work_unit for s in st]
        bounds = [0] + c + [1]
        if len(st) > 1:
            for i, u in enumerate(ws):
                if abs(u.volume - wu.volume * (bounds[i + 1] - bounds[i])) > 1e-9:
                    out.bad('volume', 'stage %s has volume %s, the work %s, shares %s; %s' % (st[i], u.volume, wu.volume, bounds, text))
            exp += [[a, b, 0, 'IFS'] for a, b in zip(st, st[1:])]
        if abs(sum(u.volume for u in ws) - wu.volume) > 1e-9:
            out.bad('volume', 'stages of %s have volumes %s, the work %s' % (x.id, [u.volume for u in ws], wu.volume))
        for attr, val in (('worker_reqs', 'volume'), ('equipment_reqs', 'count'), ('object_reqs', 'count'), ('material_reqs', 'count')):
            o = getattr(wu, attr)
            for k, r in enumerate(o):
                got = [getattr(u, attr)[k] for u in ws]
                if sum(int(getattr(g, val)) for g in got) != int(getattr(r, val)) or any(int(getattr(g, val)) < 0 for g in got):
                    out.bad('amount', '%s of stages of %s: %s, of the work %s' % (attr, x.id, [int(getattr(g, val)) for g in got], int(getattr(r, val))))
                for i, g in enumerate(got):
                    if len(st) > 1 and int(getattr(r, val)) >= 0 and abs(int(getattr(g, val)) - int(getattr(r, val)) * (bounds[i + 1] - bounds[i])) > len(st):
                        out.bad('amount', '%s of stage %s is %s of %s with shares %s' % (attr, st[i], int(getattr(g, val)), int(getattr(r, val)), bounds))
                    if g.kind != r.kind or attr == 'worker_reqs' and (g.min_count, g.max_count) != (r.min_count, r.max_count):
                        out.bad('requirement', '%s of a stage of %s: %s, of the work %s' % (attr, x.id, g, r))
        for i, u in enumerate(ws):
            name = '%s%s%d' % (wu.model_name['granular_name'], SEP, i) if len(st) > 1 else wu.model_name['granular_name']
            if u.model_name != dict(wu.model_name, granular_name=name):
                out.bad('name', 'stage %d of %s is named %s, expected %s' % (i, x.id, u.model_name, name))
            if (u.group, u.description, u.is_service_unit, u.display_name, [(z.kind, z.required_status) for z in u.zone_reqs]) != \
                    (wu.group, wu.description, wu.is_service_unit, wu.display_name, [(z.kind, z.required_status) for z in wu.zone_reqs]):
                out.bad('attribute', 'stage %s: %s, the work: %s' % (st[i], snap.obj(u), snap.obj(wu)))
        ref[x.id] = (st, bounds)
    # edges
    for a, b, lag, t in orig:
        fa, fb = ref[a][0], ref[b][0]
        s = share(lag, vol[a]) if lagopt else 0
        upto = lambda x, v: ref[x][0][ref[x][1][1:].index(v)]        # the stage that completes the share v
        after = lambda x, v: ref[x][0][ref[x][1][1:].index(v) + 1]
        if t == 'FS':
            exp.append([fa[-1], fb[0], math.ceil(lag), 'FS'])
        elif t == 'IFS':
            exp.append([fa[-1], fb[0], 0, 'IFS'])
        elif t == 'SS':
            exp.append([upto(a, s), fb[0], 0, 'FS'])
        elif t == 'FF':
            exp.append([fa[-1], after(b, 1 - s), 0, 'FS'])
        elif lagopt:
            exp.append([upto(a, s), fb[0], 0, 'FS'])
            exp.append([fa[-1], after(b, 1 - s), 0, 'FS'])
        else:
            exp.append([fa[-1], fb[0], 0, 'FS'])
    got = edges_of(res)
    if got != sorted(exp):
        out.bad('edges', 'restructured edges %s, expected %s; %s' % ([e for e in got if e not in exp], [e for e in exp if e not in got], text))
    pos = {x.id: i for i, x in enumerate(res.nodes)}
    if any(pos[a] > pos[b] for a, b, _, _ in got):
        out.bad('order', 'the nodes are not in topological order; %s' % text)
    # priorities: the least priority of all works that depend on it
    low = {}
    for x in reversed(res.nodes):
        o = wg[x.id.split(SEP)[0]].work_unit.priority
        low[x.id] = min([o] + [low[e.finish.id] for e in x.edges_from])
        if x.work_unit.priority != low[x.id]:
            out.bad('priority', '%s has priority %s, expected %s; %s' % (x.id, x.work_unit.priority, low[x.id], case))
    # there is nothing left to restructure
    whole = lambda g: [edges_of(g)] + [snap.obj(y.work_unit) for y in sorted(g.nodes, key=lambda y: y.id)]
    for again in (False, True):
        twice = graph_restructuring(res, again)
        d = snap.diff(whole(res), whole(twice))
        if d:
            out.bad('again', 'restructured once more with %s: %s; %s' % (again, d, text))
    out.transitions += len(orig)
    out.state([case])
    out.nontrivial = any(cuts.values())
    out.sample = {'stages': stages}


KINDS = [(0, 'FS'), (1.5, 'FS'), (0, 'IFS'), (0, 'SS'), (3, 'SS'), (0, 'FF'), (4, 'FF'), (3, 'FFS'), (10, 'FFS'), (12, 'FFS'), (-1, 'FFS')]
K3 = [(0, 'FS'), (3, 'SS'), (4, 'FF'), (3, 'FFS'), (7, 'FFS'), (0, 'SS')]
K4 = [(0, 'FS'), (3, 'SS'), (4, 'FF'), (2, 'FFS')]
WK = [{'req': [['driver', 7, 1, 2]], 'vol': 10, 'n': 5}, {'req': [['driver', 20, 1, 2], ['fitter', 3, 1, 1]], 'vol': 10, 'n': 1}, {'req': [], 'vol': 4, 'n': 9}]


def ok(edges, n):
    return W.chains_ok(n, edges)


def gen(t):
    q = t == 'quick'
    for opt in (False, True):
        # two works, any one or two relations
        for ws in itertools.product(WK, repeat=2):
            for ks in [[k] for k in KINDS] + [[a, b] for a in KINDS for b in KINDS if {a[1], b[1]} == {'SS', 'FF'}]:
                yield {'works': list(ws), 'edges': [[0, 1, k[0], k[1]] for k in ks], 'opt': opt}
        # three works
        ps = W.pairs(3)
        for ks in itertools.product([None] + (KINDS if not q else K3 + [(0, 'IFS')]), repeat=3):
            e = [[a, b, k[0], k[1]] for (a, b), k in zip(ps, ks) if k]
            if ok(e, 3):
                for ws in ([WK[:3]] if q else itertools.product(WK[:2], repeat=3)):
                    yield {'works': list(ws), 'edges': e, 'opt': opt}
        # four works
        ps = W.pairs(4)
        for ks in itertools.product([None] + (K4[:3] if q else K4), repeat=6):
            e = [[a, b, k[0], k[1]] for (a, b), k in zip(ps, ks) if k]
            if q and len(e) > 5:
                continue
            yield {'works': [WK[0], WK[1], WK[0], WK[1]], 'edges': e, 'opt': opt}
        # priorities, also against the edges
        for n, K in ((3, [(0, 'FS'), (3, 'SS')]), (4, [(0, 'FS')])):
            ps = W.pairs(n)
            for ks in itertools.product([None] + K, repeat=len(ps)):
                for pri in itertools.product((1, 2, 3) if n == 3 else (1, 2), repeat=n):
                    yield {'works': [dict(WK[0], pri=p) for p in pri], 'edges': [[a, b, k[0], k[1]] for (a, b), k in zip(ps, ks) if k], 'opt': opt}


FAMILIES = [core.Family('restructure', gen, run, 'all graphs of 2-4 works over FS, IFS, SS, FF and lagged edges')]
