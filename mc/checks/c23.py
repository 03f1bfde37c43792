import itertools
import math

from mc import core
from sampo.generator.environment.landscape import setup_landscape
from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.resources import Material

RULE = ('every small road network (also with parallel roads), every set of available roads, every pair of places; routes, distances and lists '
        'of depots against an exhaustive search over all simple ways')


def node(i, **kw):
    return LandGraphNode('n%d' % i, 'n%d' % i, ResourceStorageUnit({'m': 10 + i}), **kw)


def holder(i, n):
    return ResourceHolder('h%d' % i, 'h%d' % i, [Vehicle('v%d' % i, 'v', [Material('m', 'm', 5)])], node=n)


def build(n, roads, style=0):
    """roads: [a, b, length, bandwidth]; style: the way in which the roads are given"""
    ns = []
    if style == 2:   # every node is created with the roads to the nodes before
        for i in range(n):
            mine = [(ns[min(a, b)], w, bw) for a, b, w, bw in roads if max(a, b) == i]
            ns.append(node(i, neighbour_nodes=mine) if mine else node(i))
        return ns
    ns = [node(i) for i in range(n)]
    if style == 0:
        for a, b, w, bw in roads:
            ns[a].add_neighbours((ns[b], w, bw))
    elif style == 1:   # grouped lists, given by the other end
        for i in range(n):
            ns[i].add_neighbours([(ns[a], w, bw) for a, b, w, bw in roads if b == i])
    else:              # questions are asked between the additions
        for a, b, w, bw in roads:
            [x.neighbours for x in ns]
            ns[a].add_neighbours((ns[b], w, bw))
    return ns


def lengths(n, roads):
    """shortest ways by trying all simple ones"""
    best = [[math.inf] * n for _ in range(n)]
    adj = [[] for _ in range(n)]
    for a, b, w, _ in roads:
        adj[a].append((b, w))
        adj[b].append((a, w))

    def go(s, v, d, seen):
        best[s][v] = min(best[s][v], d)
        for u, w in adj[v]:
            if u not in seen:
                go(s, u, d + w, seen | {u})
    for s in range(n):
        go(s, s, 0, {s})
    return best


def gen(t):
    q = t == 'quick'
    for n in (2, 3):
        ps = list(itertools.combinations(range(n), 2))
        multi = [(), (1,), (3,), (1, 3), (3, 1), (2, 2), (3, 1, 2)]
        for k, ch in enumerate(itertools.product(multi, repeat=len(ps))):
            yield {'n': n, 'roads': [[a, b, w, 1 + j] for (a, b), ws in zip(ps, ch) for j, w in enumerate(ws)], 'style': k % 4}
    ps = list(itertools.combinations(range(4), 2))
    for k, ch in enumerate(itertools.product((0, 1, 2, 5) if not q else (0, 1, 3), repeat=6)):
        yield {'n': 4, 'roads': [[a, b, w, 2] for (a, b), w in zip(ps, ch) if w], 'style': k % 4}
    for k, ch in enumerate(itertools.product((0, 1.5, 7), repeat=6)):
        if not q or k % 3 == 0:
            yield {'n': 4, 'roads': [[b, a, w, 2] for (a, b), w in reversed(list(zip(ps, ch))) if w], 'style': k % 4}
    ps = list(itertools.combinations(range(5), 2))
    for k, ch in enumerate(itertools.product((0, 1, 3), repeat=10)):
        if k % (29 if q else 5) == 0:
            yield {'n': 5, 'roads': [[a, b, w, 1] for (a, b), w in zip(ps, ch) if w], 'style': k % 4, 'subsets': 2}


def run(case, out):
    n, roads = case['n'], case['roads']
    if {x for r in roads for x in r[:2]} != set(range(n)):
        return     # a place without roads is refused when the network is created
    ns = build(n, roads, case['style'])
    for i in range(n):
        want = sorted(['n%d' % (b if a == i else a) for a, b, *_ in roads if i in (a, b)])
        if sorted(x.id for x in ns[i].neighbours) != want:
            out.bad('neighbours', 'node %d has neighbours %s, expected %s; %s' % (i, sorted(x.id for x in ns[i].neighbours), want, case))
            return
    hs = [holder(i, ns[i]) for i in range(n // 2)]
    lg = LandGraph(nodes=ns)
    cfg = LandscapeConfiguration(hs, lg)
    info = {}      # road id -> (ends, length, bandwidth)
    for e in lg.edges:
        if e.id in info:
            out.bad('edges', 'a road is listed twice; %s' % case)
        info[e.id] = (frozenset((e.start.id, e.finish.id)), e.weight, e.bandwidth)
    if sorted((sorted(s), w, bw) for s, w, bw in info.values()) != sorted((sorted(('n%d' % a, 'n%d' % b)), w, bw) for a, b, w, bw in roads):
        out.bad('edges', 'roads %s; %s' % (sorted(map(str, info.values())), case))
        return
    if {r.id: (r.length, r.vehicles, r.overcome_time) for r in cfg.roads} != {i: (w, bw, math.ceil(w / 5)) for i, (_, w, bw) in info.items()}:
        out.bad('roads', 'roads %s; %s' % (cfg.roads, case))
    if [p.id for p in cfg.platforms] != ['n%d' % i for i in range(n // 2, n)]:
        out.bad('platforms', 'platforms %s; %s' % ([p.id for p in cfg.platforms], case))
    if lg.vertex_count != n or [lg.id2ind['n%d' % i] for i in range(n)] != list(range(n)) or [lg.node2ind[x] for x in ns] != list(range(n)):
        out.bad('index', 'index %s %s; %s' % (lg.vertex_count, lg.id2ind, case))

    best = lengths(n, roads)
    for i in range(n):
        want = sorted((best[i][j], 'n%d' % j) for j in range(n // 2) if j != i and best[i][j] < math.inf)
        got = [(float(d), h) for d, h in cfg.get_sorted_holders(ns[i]) if h != 'n%d' % i]
        out.transitions += 1
        if sorted(got) != want or [d for d, _ in got] != [d for d, _ in want]:
            out.bad('holders', 'depots of node %d: %s, expected %s; %s' % (i, got, want, case))
        for j in range(n):
            if i != j:
                judge(out, 'route', cfg.get_route(ns[i], ns[j]), info, set(info), i, j, best[i][j], case)
    ids = sorted(info, key=lambda r: [k for k, e in enumerate(roads) if (sorted(('n%d' % e[0], 'n%d' % e[1])), e[2], e[3]) ==
                                      (sorted(info[r][0]), info[r][1], info[r][2])][0])
    rs = {r.id: r for r in cfg.roads}
    for k, sub in enumerate(itertools.product((True, False), repeat=len(ids))):
        if case.get('subsets') and sum(not x for x in sub) > case['subsets']:
            continue
        av = [i for i, x in zip(ids, sub) if x]
        part = [[*map(lambda s: int(s[1:]), sorted(info[i][0])), info[i][1], 1] for i in av]
        best = lengths(n, part)
        for i in range(n):
            for j in range(n):
                if i != j:
                    judge(out, 'construct', cfg.construct_route(ns[i], ns[j], [rs[a] for a in av]), info, set(av), i, j, best[i][j], case)
    out.execs += 1
    out.nontrivial = len(roads) > 1
    out.state([[n, roads]])


def judge(out, what, route, info, av, i, j, best, case):
    out.transitions += 1
    if best == math.inf:
        if route != []:
            out.bad(what, 'there is no way from %d to %d, got %s; %s' % (i, j, route, case))
        return
    at, total = 'n%d' % i, 0
    for r in route:
        if r not in av or at not in info[r][0]:
            out.bad(what, 'way from %d to %d: road %s is %s; %s' % (i, j, info.get(r, r), 'not available' if r not in av else 'elsewhere', case))
            return
        at, = info[r][0] - {at}
        total += info[r][1]
    if at != 'n%d' % j or abs(total - best) > 1e-9:
        out.bad(what, 'way from %d to %d ends at %s, length %s, the shortest is %s; %s' % (i, j, at, total, best, case))


def setup_gen(t):
    for np_, nh in itertools.product((1, 2), (1, 2)):
        names = ['p%d' % i for i in range(np_)] + ['d%d' % i for i in range(nh)]
        ps = list(itertools.combinations(range(len(names)), 2))
        for k, ch in enumerate(itertools.product((0, 1), repeat=len(ps))):
            for rev in (False, True):
                yield {'np': np_, 'nh': nh, 'roads': [[names[a], names[b], 1 + i, 3 + i] for i, ((a, b), c) in enumerate(zip(ps, ch)) if c],
                       'rev': rev}


def setup_run(case, out):
    names = ['p%d' % i for i in range(case['np'])] + ['d%d' % i for i in range(case['nh'])]
    if {x for r in case['roads'] for x in r[:2]} != set(names):
        return
    plats = {'p%d' % i: {'m': 1 + i, 'k': 2} if i else {} for i in range(case['np'])}
    deps = {'d%d' % i: [{'m': 10 * (i + 1)}, [('v%d' % j, {'m': 1 + j}) for j in range(i + 1)]] for i in range(case['nh'])}
    info = {}
    for a, b, w, bw in case['roads']:
        if case['rev']:
            a, b = b, a
        info.setdefault(a, []).append((b, w, bw))
    cfg = setup_landscape(plats, deps, info)
    got = {n.name: dict(n.resource_storage_unit.capacity) for n in cfg.platforms}
    if got != plats:
        out.bad('setup', 'platforms %s; %s' % (got, case))
    got = {h.name: [dict(h.get_resources()), [(v.name, dict(v.get_resources())) for v in h.vehicles]] for h in cfg.holders}
    if got != deps:
        out.bad('setup', 'depots %s; %s' % (got, case))
    got = sorted((sorted((e.start.name, e.finish.name)), e.weight, e.bandwidth) for e in cfg.lg.edges)
    if got != sorted((sorted((a, b)), w, bw) for a, b, w, bw in case['roads']):
        out.bad('setup', 'roads %s; %s' % (got, case))
    hs, rs = cfg.get_all_resources()
    if hs != {h.id: {**deps[h.name][0], 'vehicles': len(deps[h.name][1])} for h in cfg.holders}:
        out.bad('setup', 'resources of depots %s; %s' % (hs, case))
    if sorted(map(str, rs.values())) != sorted(str({'vehicles': bw}) for *_, bw in case['roads']):
        out.bad('setup', 'resources of roads %s; %s' % (rs, case))
    if cfg.get_platforms_resources() != {n.id: plats[n.name] for n in cfg.platforms}:
        out.bad('setup', 'resources of platforms %s; %s' % (cfg.get_platforms_resources(), case))
    if len({x for x in [n.id for n in cfg.lg.nodes]}) != len(names):
        out.bad('setup', 'ids are not unique; %s' % case)
    out.execs += 1
    out.transitions += 1
    out.nontrivial = True
    out.state([case])


FAMILIES = [
    core.Family('road networks', gen, run, 'all networks of 2..3 places with up to 3 parallel roads per pair, of 4 places with 3 lengths per pair, every 29th (5th) of 5 places; every set of available roads'),
    core.Family('described networks', setup_gen, setup_run, 'all connected networks of 1..2 platforms and 1..2 depots, described in both directions'),
]
