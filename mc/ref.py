"""The oracle: what a schedule has to satisfy, computed from the world description only (never by calling the
validator, the timelines or the estimator of the code under test)."""
import math
from fractions import Fraction

from . import worlds as W

INF = 2_000_000_000


def comm(n, m):
    return Fraction(-2 * n ** 3 + 3 * n ** 2 + (6 * m * m - 1) * n, 6 * m * m)


def est(reqs, team):
    """Duration of a work by a team {kind: count} (default estimator, static productivity 1)."""
    if not team:
        return 0
    t = 0
    for kind, vol, lo, hi in reqs:
        if lo == 0:
            continue
        n = team.get(kind, 0)
        if n < lo:
            return INF
        p = n * comm(n, hi)
        if p == 0:
            return INF
        t = max(t, math.ceil(Fraction(vol) / p))
    return min(t, INF)


def as_records(schedule):
    """Observable content of a schedule: id -> record."""
    recs = {}
    dup = []
    for w in schedule.works:
        if w.id in recs:
            dup.append(w.id)
        recs[w.id] = {'start': int(w.start_time), 'finish': int(w.finish_time), 'con': w.contractor_id,
                      'team': {x.name: int(x.count) for x in w.workers}, 'nteam': len(list(w.workers)),
                      'owner': sorted({x.contractor_id for x in w.workers}), 'svc': bool(w.is_service_unit)}
    return recs, dup


def brief(recs):
    return {k: [r['start'], r['finish'], r['con'], r['team']] for k, r in recs.items()}


def judge(world, wg, recs, dup=(), start=0, assigned_time=None, aspects=None):
    """List of (aspect, detail). Aspects: complete, precedence, capacity, team, duration, chain, service, spec, indep,
    offset, makespan."""
    bad = []

    def add(aspect, detail):
        if aspects is None or aspect in aspects:
            bad.append((aspect, detail))

    n = len(world['works'])
    ids = [W.wid(world, i) for i in range(n)]
    sid, fid = wg.start.id, wg.finish.id
    want = set(ids) | {sid, fid}
    if dup:
        add('complete', 'scheduled twice: %s' % (dup,))
    if set(recs) != want:
        add('complete', 'missing %s, unknown %s' % (sorted(want - set(recs)), sorted(set(recs) - want)))
        return bad
    spec = {int(k): v for k, v in world.get('spec', {}).items()}
    head = W.chain_heads(n, world['edges'])
    chains = {}
    for i in range(n):
        chains.setdefault(head[i], []).append(i)
    cap = {('c%d' % i, k): c for i, kinds in enumerate(world['con']) for k, c in kinds.items()}

    # precedence: child starts no earlier than parent's finish plus the lag
    for a, b, lag, t in world['edges']:
        if t not in W.DEP:
            continue
        pa, pb = recs[ids[a]], recs[ids[b]]
        need = pa['finish'] + (0 if t == 'IFS' else math.ceil(lag))
        if pb['start'] < need:
            add('precedence', '%s finishes %d, lag %s, but %s starts %d' % (ids[a], pa['finish'], lag, ids[b],
                                                                            pb['start']))
    for i in range(n):
        r = recs[ids[i]]
        if r['finish'] < r['start']:
            add('precedence', '%s finishes before it starts' % ids[i])
        if r['start'] < recs[sid]['finish'] or r['start'] < start:
            add('offset', '%s starts %d, project start %d, requested %d' % (ids[i], r['start'],
                                                                           recs[sid]['finish'], start))
        if recs[fid]['start'] < r['finish']:
            add('makespan', 'finish node starts %d before %s finishes %d' % (recs[fid]['start'], ids[i], r['finish']))
    if recs[sid]['start'] != start:
        add('offset', 'start node at %d, requested %d' % (recs[sid]['start'], start))
    if not world.get('zcfg') and not any(w.get('mat') for w in world['works']):
        last = max([recs[i]['finish'] for i in ids], default=start)
        if recs[fid]['finish'] != max(last, start):
            add('makespan', 'finish node at %d, last work finishes %d' % (recs[fid]['finish'], last))

    # teams
    for i in range(n):
        w, r = world['works'][i], recs[ids[i]]
        hreq = world['works'][head[i]].get('req', [])
        s = spec.get(head[i], {})
        if not hreq:
            if r['team']:
                add('team', '%s needs nobody, got %s' % (ids[i], r['team']))
            continue
        if set(r['team']) != {q[0] for q in hreq} or r['nteam'] != len(hreq):
            add('team', '%s needs %s, got %s' % (ids[i], [q[0] for q in hreq], r['team']))
            continue
        if r['owner'] != [r['con']]:
            add('team', '%s: team of %s, contractor %s' % (ids[i], r['owner'], r['con']))
        for k, v, lo, hi in hreq:
            c = r['team'][k]
            if not lo <= c <= hi:
                add('team', '%s: %d %s outside %d..%d' % (ids[i], c, k, lo, hi))
            if c > cap.get((r['con'], k), 0):
                add('team', '%s: %d %s but %s owns %d' % (ids[i], c, k, r['con'], cap.get((r['con'], k), 0)))
        # specification
        if 'con' in s and s['con'] and r['con'] not in s['con']:
            add('spec', '%s: contractor %s not in %s' % (ids[i], r['con'], s['con']))
        for k, c in s.get('team', {}).items():
            if r['team'].get(k) != c:
                add('spec', '%s: %s %s, specified %d' % (ids[i], r['team'].get(k), k, c))
    # durations
    for h, chain in chains.items():
        s = spec.get(h, {})
        if 'time' in s:
            tot = sum(recs[ids[i]]['finish'] - recs[ids[i]]['start'] for i in chain)
            if tot != s['time']:
                add('spec', 'chain of %s works %d in total, specified %d' % (ids[h], tot, s['time']))
            continue
        for i in chain:
            r = recs[ids[i]]
            reqs = world['works'][i].get('req', [])
            d = est(reqs, r['team']) if reqs else 0
            if r['finish'] - r['start'] != d:
                add('duration', '%s takes %d, the estimate of its team is %d' % (ids[i], r['finish'] - r['start'], d))
    for i in list(range(n)):
        if world['works'][i].get('svc') and recs[ids[i]]['finish'] != recs[ids[i]]['start']:
            add('service', '%s is a service work and takes time' % ids[i])
    for x in (sid, fid):
        if recs[x]['finish'] != recs[x]['start'] or recs[x]['team']:
            add('service', 'service node %s takes time or workers' % x)
    # chains: one team, consecutive, waiting only for what the graph forces
    has_mat = any(w.get('mat') for w in world['works'])
    for h, chain in chains.items():
        for a, b in zip(chain, chain[1:]):
            ra, rb = recs[ids[a]], recs[ids[b]]
            if ra['con'] != rb['con'] or ra['team'] != rb['team']:
                add('chain', '%s and %s have different teams' % (ids[a], ids[b]))
            forced = max([ra['finish']] + [recs[ids[x]]['finish'] + (0 if t == 'IFS' else math.ceil(lag))
                                           for x, y, lag, t in world['edges'] if y == b and t in W.DEP])
            if rb['start'] != forced and not has_mat:
                add('chain', '%s starts %d, but its chain predecessor allows %d' % (ids[b], rb['start'], forced))
    # capacity: a chain holds its team from the head's start to the tail's finish
    use = {}
    for h, chain in chains.items():
        r = recs[ids[h]]
        s, f = r['start'], recs[ids[chain[-1]]]['finish']
        if s >= f:
            continue
        for k, c in r['team'].items():
            use.setdefault((r['con'], k), []).append((s, f, c, h))
    for key, iv in use.items():
        for t in sorted({x[0] for x in iv}):
            tot = sum(c for s, f, c, h in iv if s <= t < f)
            if tot > cap.get(key, 0):
                add('capacity', '%s %s: %d used at %d, owns %d' % (key[0], key[1], tot, t, cap.get(key, 0)))
                break
        for s, f, c, h in iv:
            if spec.get(h, {}).get('indep'):
                for s2, f2, c2, h2 in iv:
                    if h2 != h and max(s, s2) < min(f, f2):
                        add('indep', '%s is independent but shares %s with %s' % (ids[h], key, ids[h2]))
    return bad


def feasible(world):
    """Can every chain be given a team by one contractor (capacity, requirement bounds, specification)?"""
    n = len(world['works'])
    head = W.chain_heads(n, world['edges'])
    spec = {int(k): v for k, v in world.get('spec', {}).items()}
    for i in range(n):
        if head[i] != i:
            continue
        reqs = world['works'][i].get('req', [])
        s = spec.get(i, {})
        ok = False
        for c, kinds in enumerate(world['con']):
            if s.get('con') and 'c%d' % c not in s['con']:
                continue
            if all(kinds.get(k, 0) >= max(lo, s.get('team', {}).get(k, 0)) for k, v, lo, hi in reqs):
                ok = True
        if not ok:
            return False
    return True
