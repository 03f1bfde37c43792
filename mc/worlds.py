"""Small project worlds: JSON descriptions and the enumerations the checks explore."""
import itertools
from random import Random

# the order matters: sampo.scheduler has to be the first sampo package imported (see env.setup)
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.requirements import MaterialReq, WorkerReq, ZoneReq
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.schemas.zones import ZoneConfiguration

DEP = ('FS', 'IFS', 'FFS')


# ---------------------------------------------------------------- description -> objects
def wid(world, i):
    return world['ids'][i] if 'ids' in world else 'w%d' % i


def build_nodes(world):
    nodes = []
    for i, w in enumerate(world['works']):
        reqs = [WorkerReq(k, Time(v), lo, hi) for k, v, lo, hi in w.get('req', [])]
        wu = WorkUnit(wid(world, i), w.get('name', 'work %d' % i), worker_reqs=reqs, volume=w.get('vol', 1),
                      priority=w.get('pri', 1), is_service_unit=bool(w.get('svc', 0)),
                      zone_reqs=[ZoneReq(n, s) for n, s in w.get('zones', [])],
                      material_reqs=[MaterialReq(n, c) for n, c in w.get('mat', [])])
        parents = [(nodes[a], lag, EdgeType(t)) for a, b, lag, t in world['edges'] if b == i]
        nodes.append(GraphNode(wu, parents))
    return nodes


def build_graph(world):
    """The caller has to keep the returned graph alive while it uses any node: WorkGraph.__del__ unlinks the nodes."""
    return WorkGraph.from_nodes(build_nodes(world), rand=Random(world.get('gseed', 0)))


def build_contractors(world):
    return [Contractor('c%d' % i, 'c%d' % i, {k: Worker('c%d_%s' % (i, k), k, n) for k, n in kinds.items()})
            for i, kinds in enumerate(world['con'])]


def build_spec(world):
    spec = ScheduleSpec()
    for i, s in sorted((int(k), v) for k, v in world.get('spec', {}).items()):
        if 'con' in s:
            spec.assign_contractors(wid(world, i), set(s['con']))
        if 'team' in s:
            spec.assign_workers_dict(wid(world, i), s['team'])
        if 'time' in s:
            spec.set_exec_time(wid(world, i), Time(s['time']))
        if s.get('indep'):
            spec[wid(world, i)].is_independent = True
    return spec


def build_landscape(world):
    z = world.get('zcfg')
    if not z:
        return LandscapeConfiguration()
    import numpy as np
    return LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses=dict(z['start']),
                                                                end_statuses=dict(z.get('end', {})),
                                                                time_costs=np.array(z['costs'])))


# ---------------------------------------------------------------- enumerations
def pairs(n):
    return [(i, j) for j in range(n) for i in range(j)]


def edge_sets(n, kinds, max_edges=None, reduced=True):
    """All edge sets over works 0..n-1 (edges go from smaller to larger index); kinds: list of (lag, type).
    reduced: drop graphs that are equal to another one up to swapping two works without any order between them is NOT
    done here - ids matter to tie-breaking, so every labelling is kept."""
    ps = pairs(n)
    for choice in itertools.product([None] + list(kinds), repeat=len(ps)):
        e = [[a, b, k[0], k[1]] for (a, b), k in zip(ps, choice) if k is not None]
        if max_edges is not None and len(e) > max_edges:
            continue
        if chains_ok(n, e):
            yield e


def chains_ok(n, edges):
    """Inseparable chains are simple paths and contracting them leaves an acyclic graph (otherwise no schedule can keep
    a chain uninterrupted)."""
    sons, pars = {}, {}
    for a, b, lag, t in edges:
        if t == 'IFS':
            if a in sons or b in pars:
                return False
            sons[a] = b
            pars[b] = a
    head = list(range(n))
    for b in range(n):
        if b in pars:
            head[b] = head[pars[b]]
    if not sons:
        return True
    # a positive lag between two works of one chain contradicts the chain
    if any(head[a] == head[b] and t != 'IFS' and lag > 0 for a, b, lag, t in edges):
        return False
    g = {h: set() for h in head}
    for a, b, lag, t in edges:
        if head[a] != head[b]:
            g[head[a]].add(head[b])
    seen, done = set(), set()

    def cyc(u):
        seen.add(u)
        for v in g[u]:
            if v in seen and v not in done or v not in seen and cyc(v):
                return True
        done.add(u)
        return False
    return not any(u not in seen and cyc(u) for u in list(g))


def chain_heads(n, edges):
    pars = {b: a for a, b, lag, t in edges if t == 'IFS'}
    head = []
    for b in range(n):
        head.append(head[pars[b]] if b in pars else b)
    return head


def with_chains(works, edges):
    """Works of one inseparable chain share the team requirement of its head (only volumes differ)."""
    head = chain_heads(len(works), edges)
    res = []
    for i, w in enumerate(works):
        h = head[i]
        if h != i:
            vols = [r[1] for r in w['req']] or [3]
            w = dict(w, svc=works[h].get('svc', 0), req=[[k, vols[min(x, len(vols) - 1)], lo, hi]
                             for x, (k, v, lo, hi) in enumerate(works[h]['req'])])
        res.append(w)
    return res
