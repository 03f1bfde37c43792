"""Small worlds with platforms, depots, vehicles and roads, and the ledger that judges deliveries."""
import heapq
import math

from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.resources import Material


def build(cfg, nodes):
    """nodes: [(GraphNode, platform index)]"""
    ps = [LandGraphNode('p%d' % i, 'p%d' % i, ResourceStorageUnit(dict(c))) for i, c in enumerate(cfg['plats'])]
    ds = [LandGraphNode('d%d' % i, 'd%d' % i, ResourceStorageUnit(dict(d['stock']))) for i, d in enumerate(cfg['depots'])]
    by = {n.id: n for n in ps + ds}
    for a, b, length, bw in cfg['roads']:
        by[a].add_neighbours((by[b], length, bw))
    for n, p in nodes:
        ps[p].add_works(n)
    hs = [ResourceHolder('h%d' % i, 'h%d' % i, [Vehicle('v%d.%d' % (i, j), 'v', [Material('', k, c) for k, c in d['cap'].items()])
                                                for j in range(d['veh'])], node=n)
          for i, (d, n) in enumerate(zip(cfg['depots'], ds))]
    return LandscapeConfiguration(hs, LandGraph(nodes=ps + ds))


def travel(cfg, a, b, bw=1):
    """the least time on roads that let bw vehicles pass (speed 5)"""
    best, q = {}, [(0, a)]
    while q:
        d, v = heapq.heappop(q)
        if v in best:
            continue
        best[v] = d
        for x, y, length, w in cfg['roads']:
            if w >= bw and v in (x, y):
                heapq.heappush(q, (d + math.ceil(length / 5), y if v == x else x))
    return best.get(b)


def judge(cfg, items):
    """items: [(name, platform, needs, start, {material: [(count, depart, arrive, holder)]})] -> list of (aspect, text)"""
    bad = []
    kinds = sorted({m for _, _, need, _, _ in items for m in need} | {m for *_, d in items for m in d})
    trips = []
    for name, p, need, start, dels in items:
        for m, ds in dels.items():
            for c, a, b, h in ds:
                if c <= 0:
                    bad.append(('count', '%s gets %d of %s' % (name, c, m)))
                if m not in need:
                    bad.append(('unneeded', '%s gets %s' % (name, m)))
                if b > start:
                    bad.append(('late', '%s starts at %d, its %s arrives at %d' % (name, start, m, b)))
                if a < 0:
                    bad.append(('departure', '%s: departure at %d' % (name, a)))
                if h not in ['h%d' % i for i in range(len(cfg['depots']))]:
                    bad.append(('holder', '%s: unknown depot %s' % (name, h)))
        if dels:
            ws = {(a, b, h) for ds in dels.values() for _, a, b, h in ds}
            if len(ws) > 1:
                bad.append(('trips', '%s: different trips %s' % (name, sorted(ws))))
                continue
            (a, b, h), = ws
            k = int(h[1:])
            cap = cfg['depots'][k]['cap']
            n = max(math.ceil(sum(c for c, *_ in ds) / cap[m]) for m, ds in dels.items())
            t = travel(cfg, 'd%d' % k, 'p%d' % p, n)
            if t is None or b - a < t:
                bad.append(('travel', '%s: the trip takes %d..%d, the roads need %s' % (name, a, b, t)))
            else:
                trips.append((a, b, t, n, k, p, name))
    for m in kinds:
        for p, cap in enumerate(cfg['plats']):
            ev = []
            for name, q, need, start, dels in items:
                if q == p:
                    ev += [(b, 0, c, name) for c, a, b, h in dels.get(m, [])]
                    if m in need:
                        ev.append((start, 1, -need[m], name))
            x = cap.get(m, 0)
            for i, (t, k, c, name) in enumerate(sorted(ev)):
                x += c
                if x < 0:
                    bad.append(('platform', 'platform %d has %d of %s after %s takes %d at %d' % (p, x, m, name, -c, t)))
                last = i + 1 == len(ev) or sorted(ev)[i + 1][0] > t
                if last and x > cap.get(m, 0):
                    bad.append(('overfull', 'platform %d has %d of %s at %d, capacity %d' % (p, x, m, t, cap.get(m, 0))))
        for k, d in enumerate(cfg['depots']):
            got = sum(c for *_, dels in items for c, a, b, h in dels.get(m, []) if h == 'h%d' % k)
            if got > d['stock'].get(m, 0):
                bad.append(('stock', 'depot %d gives %d of %s, owns %d' % (k, got, m, d['stock'].get(m, 0))))
    for k, d in enumerate(cfg['depots']):
        for t in sorted({a for a, *_ in trips}):
            out = [(nm, n) for a, b, tr, n, kk, p, nm in trips if kk == k and a <= t < b + tr]
            if sum(n for _, n in out) > d['veh']:
                bad.append(('vehicles', 'depot %d has %d vehicles, at %d out for %s' % (k, d['veh'], t, out)))
    # the last road of a trip is surely used right before the arrival, when all roads are between the same two places;
    # a trip takes the shortest of the roads that let its vehicles pass
    if len({(x, y) for x, y, *_ in cfg['roads']}) == 1:
        for x, y, length, bw in cfg['roads']:
            mine = [q for q in trips if min((w, u) for *_, w, u in cfg['roads'] if u >= q[3]) == (length, bw)]
            for t in sorted({b - tr for a, b, tr, *_ in mine}):
                out = [(nm, n) for a, b, tr, n, kk, p, nm in mine if b - tr <= t < b]
                if sum(n for _, n in out) > bw:
                    bad.append(('road', 'the road lets %d vehicles pass, at %d on it: %s' % (bw, t, out)))
    return bad


def dump(delivery):
    return {m: [(c, int(a), int(b), h) for c, a, b, h in ds] for m, ds in delivery.delivery.items()}
