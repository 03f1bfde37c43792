import itertools

import numpy as np

from mc import core, fams, ref, sched, tl
from mc import worlds as W
from sampo.scheduler.timeline.zone_timeline import ZoneTimeline
from sampo.schemas.requirements import ZoneReq
from sampo.schemas.time import Time
from sampo.schemas.zones import ZoneConfiguration

RULE = ('zone timeline: every sequence of placements over the alphabet; schedulers: every world of the family; in both cases the '
        'resulting occupation of every zone is compared with the statuses and the change costs')


def judge_zone(iv, start_status, costs):
    """iv: [(start, finish, status)] of one zone, statuses != 0. -> problem or None.
    Works with different statuses never overlap; between them (and from the project start to the first) there is time to
    change the status."""
    iv = sorted(iv)
    for a, b in itertools.combinations(iv, 2):
        if a[2] != b[2] and max(a[0], b[0]) < min(a[1], b[1]):
            return 'overlap', 'status %d during [%d,%d) and %d during [%d,%d)' % (a[2], a[0], a[1], b[2], b[0], b[1])
    prev_end, prev = 0, start_status
    for s, f, st in iv:
        if st != prev:
            if s - prev_end < costs[prev][st]:
                return 'change', 'status %d until %d, status %d from %d, the change takes %d' % (prev, prev_end, st, s,
                                                                                               costs[prev][st])
            prev, prev_end = st, f
        else:
            prev_end = max(prev_end, f)
    return None


def waiting(iv, start_status, st, parent, costs):
    """the latest moment at which a work may have to start after parent, if it needs status st: at once if the zone has this
    status from then on, or else after the last change of all that is planned"""
    after = [x for x in iv if x[1] > parent]
    last = max(iv)[2] if iv else start_status
    if last == st and all(x[2] == st for x in after) and (max(x[2] != st and x[1] for x in iv) if iv else 0) <= parent:
        was = max((x for x in iv if x[0] <= parent), default=(0, 0, start_status))[2]
        if was == st:
            return parent
    return max([parent] + [x[1] for x in iv]) + costs[last][st] * (last != st)


def judge_transitions(trans, iv, start_status, costs):
    """trans: [(start, end, from, to)], iv as above"""
    for s, e, a, b in sorted(trans):
        if e - s != costs[a][b]:
            return 'transition', '%d->%d lasts %d instead of %d' % (a, b, e - s, costs[a][b])
        before = [(x[0], x[2]) for x in iv if x[0] < s + (s < e)]
        was = max(before)[1] if before else start_status
        if was != a and s < e:
            return 'transition', '%d->%d at [%d,%d), but the status was %d' % (a, b, s, e, was)
        for x, y, st in iv:
            if max(s, x) < min(e, y):
                return 'transition', '%d->%d at [%d,%d) while a work needs status %d during [%d,%d)' % (a, b, s, e, st, x, y)
    return None


COSTS = [[[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[0, 2, 1], [1, 0, 3], [2, 2, 0]], [[0, 0, 0], [0, 0, 0], [0, 0, 0]]]
ALPHA = [[{'z': 1}, 0, 2], [{'z': 2}, 0, 2], [{'z': 1}, 3, 1], [{'z': 2}, 5, 3], [{'z': 0}, 1, 2], [{'z': 2}, 0, 0]]
ALPHA2 = [[{'z': 1, 'y': 1}, 0, 2], [{'z': 2, 'y': 1}, 1, 2], [{'y': 2}, 0, 1], [{'z': 1}, 4, 1], [{'y': 1, 'z': 2}, 0, 3], [{'y': 0, 'z': 1}, 2, 1]]


def run_ops(case, out):
    costs, start = case['costs'], case['start']
    out.nontrivial = True
    for suf in itertools.product(case['alpha'], repeat=case['depth'] - len(case['prefix'])):
        ops = case['prefix'] + [list(x) for x in suf]
        zt = ZoneTimeline(ZoneConfiguration(start_statuses=dict(start), time_costs=np.array(costs)))
        iv = {z: [] for z in start}
        tr = {z: [] for z in start}
        for i, (zones, parent, dur) in enumerate(ops):
            reqs = [ZoneReq(z, s) for z, s in zones.items()]
            with sched.Quiet():
                t = zt.find_min_start_time(reqs, Time(parent), Time(dur))
            out.transitions += 1
            hist = '%s start %s costs %s' % (ops[:i + 1], start, costs)
            if int(t) < parent:
                out.bad('early', '%s: proposed %d, requested %d' % (hist, int(t), parent))
                return
            latest = max([parent] + [waiting(iv[z], start[z], s, parent, costs) for z, s in zones.items() if s])
            if int(t) > latest:
                out.bad('late', '%s: proposed %d, but all its zones can be in the required status at %d' % (hist, int(t), latest))
                return
            trans = zt.update_timeline(i, [r.to_zone() for r in reqs], t, Time(dur))
            for z, s in zones.items():
                was = max(((x[0], i2, x[2]) for i2, x in enumerate(iv[z]) if x[0] <= int(t)), default=(0, 0, start[z]))[2]
                if s and (was != s) != any(x.name == z for x in trans):
                    out.bad('zone:unrecorded', '%s: at %d the status of %s was %d, %d is needed, recorded changes %s'
                            % (hist, int(t), z, was, s, [str(x) for x in trans]))
                    return
            for x in trans:
                tr[x.name].append((int(x.start_time), int(x.end_time), x.from_status, x.to_status))
            for z, s in zones.items():
                if s != 0:
                    iv[z].append((int(t), int(t) + dur, s))
            for z in start:
                bad = judge_zone(iv[z], start[z], costs)
                if bad:
                    out.bad('zone:' + bad[0], '%s: %s' % (hist, bad[1]))
                    return
                bad = judge_transitions(tr[z], iv[z], start[z], costs)
                if bad:
                    out.bad('zone:' + bad[0], '%s: %s; works %s, changes %s' % (hist, bad[1], iv, tr))
                    return
            out.state([iv, start])
        out.execs += 1
        end = max([b for v in iv.values() for a, b, c in v] + [0])
        for zones, _, dur in case['alpha']:
            reqs = [ZoneReq(z, s) for z, s in zones.items()]
            first = int(zt.find_min_start_time(reqs, Time(0), Time(dur)))
            for t in range(end + 5):
                ok = bool(zt.can_schedule_at_the_moment(reqs, Time(t), Time(dur)))
                out.transitions += 1
                if t == first and not ok:
                    out.bad('can', '%s, %s: %d is proposed, but not accepted' % (hist, zones, t))
                    return
                bad = ok and next((b for b in (judge_zone(iv[z] + [(t, t + dur, s)], start[z], costs)
                                                       for z, s in zones.items() if s) if b), None)
                if bad:
                    out.bad('can', '%s, %s: accepted at %d, but %s' % (hist, zones, t, bad[1]))
                    return
    out.sample = {'last': iv, 'transitions': tr}


def fam_ops(name, alpha, starts, depth):
    def gen(t):
        dd = depth[0 if t == 'quick' else 1]
        for costs in COSTS:
            for start in starts:
                for pre in itertools.product(alpha, repeat=2):
                    yield {'prefix': [list(x) for x in pre], 'alpha': alpha, 'start': start, 'costs': costs, 'depth': dd}
    return core.Family(name, gen, run_ops, 'all placement sequences of length %s' % (depth,))


def worlds(t):
    """3 works (quick: one contested crew of 2), every assignment of {any, open, closed} to them, every graph over FS/inseparable"""
    zs = [[], [['z', 1]], [['z', 2]]]
    for costs in COSTS[:2]:
        for e in W.edge_sets(3, [fams.FS0, fams.IFS], None):
            for z in itertools.product(zs, repeat=3):
                if not any(z) or any(k == 'IFS' and z[a] != z[b] for a, b, _, k in e):
                    continue
                for st in (0, 1):
                    for end in ({}, {'z': 2}) if st == 1 else ({},):
                        yield {'works': [dict(fams.D1, zones=x) for x in z], 'edges': e, 'con': [{'driver': 2}],
                               'zcfg': {'start': {'z': st}, 'end': end, 'costs': costs}}
    for z in itertools.product([[['z', 1], ['y', 2]], [['y', 1]], [['z', 2]], [['y', 2], ['z', 2]], []], repeat=3):
        if not any(z):
            continue
        for e in W.edge_sets(3, [fams.FS0], 2 if t == 'quick' else None):
            yield {'works': [dict(fams.D2, zones=x) for x in z], 'edges': e, 'con': [{'driver': 3}],
                   'zcfg': {'start': {'z': 1, 'y': 1}, 'costs': COSTS[1]}}
    # several final statuses
    for z in itertools.product([[['z', 1]], [['y', 1]], [['z', 2]], [['y', 2]], []], repeat=2):
        for e in ([], [[0, 1, 0, 'FS']]):
            for end in ({'z': 2, 'y': 2}, {'y': 2, 'z': 2}, {'z': 1, 'y': 2}, {'y': 0, 'z': 2}):
                for costs in COSTS:
                    yield {'works': [dict(fams.D2, zones=x) for x in z], 'edges': e, 'con': [{'driver': 2}],
                           'zcfg': {'start': {'z': 1, 'y': 1}, 'end': end, 'costs': costs}}


def judge_schedule(w, wg, r, note=lambda x: None):
    """-> [(aspect, detail)] for the zones of a schedule of the world"""
    rec = ref.as_records(r)[0]
    n = len(w['works'])
    ids = [W.wid(w, i) for i in range(n)]
    head = W.chain_heads(n, w['edges'])
    res = []
    for z, st in w['zcfg']['start'].items():
        iv = []
        for h in set(head):
            need = dict(map(tuple, w['works'][h].get('zones', []))).get(z, 0)
            tail = max((i for i in range(n) if head[i] == h), key=lambda i: rec[ids[i]]['finish'])
            if need:
                iv.append((rec[ids[h]]['start'], rec[ids[tail]]['finish'], need))
        fin = rec[wg.finish.id]['start']
        end = w['zcfg'].get('end', {}).get(z)
        if end:
            iv.append((fin, fin, end))
        tr = [(int(x.start_time), int(x.end_time), x.from_status, x.to_status)
              for s in r.works for x in (s.zones_pre or []) + (s.zones_post or []) if x.name == z]
        note([z, iv, tr])
        bad = judge_zone(iv, st, w['zcfg']['costs']) or judge_transitions(tr, iv, st, w['zcfg']['costs'])
        if not bad:
            # every change of status between works is recorded
            order = [st] + [x[2] for x in sorted(iv)]
            if sum(a != b for a, b in zip(order, order[1:])) != len(tr):
                bad = 'unrecorded', 'works %s, changes %s' % (iv, tr)
        if bad:
            res.append((bad[0], '%s\n  schedule %s zones %s changes %s' % (bad[1], ref.brief(rec), iv, tr)))
    return res


def run_world(case, out):
    w = case['w']
    wg, recs, res = sched.run(w, case['s'])
    out.nontrivial = True
    out.transitions += len(w['works']) + 2
    for r in res if recs else []:
        out.execs += 1
        for aspect, detail in judge_schedule(w, wg, r, out.state):
            out.bad('%s:%s' % (case['s'], aspect), detail)
    out.sample = {'schedule': ref.brief(recs[0][0])} if recs else None


def fam_worlds(name, schedulers, keep=lambda t, w: True):
    return core.Family(name, lambda t: ({'s': s, 'w': w} for w in worlds(t) if keep(t, w) for s in schedulers(t)), run_world, worlds.__doc__)


FAMILIES = [
    fam_ops('one zone', ALPHA, [{'z': 0}, {'z': 1}], (4, 5)),
    fam_ops('two zones', ALPHA2, [{'z': 1, 'y': 2}, {'z': 0, 'y': 1}], (3, 4)),
    fam_worlds('schedules', lambda t: fams.FAST if t == 'quick' else fams.ALL8),
    fam_worlds('genetic', lambda t: ['ga_par', 'ga_ser'], lambda t, w: t != 'quick' or len(w['edges']) == 1 and w['zcfg']['costs'] == COSTS[1]),
]
