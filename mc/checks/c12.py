import itertools
import math

import numpy as np

from mc import core, fams, ga, ref, sched, tl
from mc import worlds as W
from sampo.scheduler.genetic.converter import ScheduleGenerationScheme
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time

RULE = ('every valid chromosome of the family (all orders x teams x contractors x borders) is decoded by both schemes; teams, precedence, capacity '
        'and chains are judged by the oracle, and start times are compared with an independent serial/parallel schedule generation')
D1, D2, DF, N0, FD = fams.D1, fams.D2, fams.DF, fams.N0, fams.FD
SGS = {'serial': ScheduleGenerationScheme.Serial, 'parallel': ScheduleGenerationScheme.Parallel}


def decode(rig, ind):
    got = rig.tb.chromosome_to_schedule(ind)
    sch = Schedule.from_scheduled_works(got[0].values(), rig.wg)
    return ref.as_records(sch)


def plain(w):
    """no chain member but the head has a predecessor outside of the chain"""
    head = W.chain_heads(len(w['works']), w['edges'])
    return all(t == 'IFS' or head[b] == b for a, b, _, t in w['edges'])


def teams_of(rig, ind):
    kinds = sorted(rig.kind2index, key=rig.kind2index.get)
    out = {}
    for i in rig.heads:
        row = ind[1][rig.idx[W.wid(rig.world, i)]]
        team = rig.world.get('spec', {}).get(str(i), {}).get('team', {})    # a specified number of workers overrules the gene
        out[i] = ('c%d' % row[-1], [(k, int(team.get(k, n))) for k, n in zip(kinds, row[:-1]) if n > 0])
    return out


def reference(rig, ind, scheme, start):
    """head -> (start, finish) by an independent implementation of the scheme"""
    w = rig.world
    n = len(w['works'])
    head = W.chain_heads(n, w['edges'])
    kinds = sorted(rig.kind2index, key=rig.kind2index.get)
    caps = {'c%d' % c: {k: int(ind[2][c][j]) for j, k in enumerate(kinds)} for c in range(len(rig.con))}
    teams = teams_of(rig, ind)
    gene = {rig.idx[W.wid(w, i)]: i for i in rig.heads}
    dur = {}
    for h in rig.heads:
        team = dict(teams[h][1])
        dur[h] = [ref.est(w['works'][i]['req'], team) if w['works'][i].get('req') else 0 for i in range(n) if head[i] == h]
    order = [gene[int(g)] for g in ind[0] if int(g) in gene]
    fin = {}
    occ = tl.Occupancy(caps)
    preds = {h: [(a, math.ceil(lag)) for a, b, lag, t in w['edges'] if b == h] for h in rig.heads}
    times = {}

    def place(h, t):
        for i, d in zip([i for i in range(n) if head[i] == h], dur[h]):
            times[i] = (t, t + d)
            t += d
        occ.add(teams[h][0], teams[h][1], times[h][0], t - times[h][0])

    def ready(h):
        return max([start] + [times[a][1] + lag for a, lag in preds[h]])

    if scheme == 'serial':
        for h in order:
            con, team = teams[h]
            d = sum(dur[h])
            place(h, occ.earliest(con, team, ready(h), d) if d and team else ready(h))
        return times
    rest = list(order)
    t = start
    events = {start}
    rel = tl.Releases(caps)
    while rest:
        for h in list(rest):
            if any(a not in times for a, _ in preds[h]) or ready(h) > t:
                continue
            con, team = teams[h]
            if team and rel.earliest(con, team) > t:
                continue
            place(h, t)
            end = t + sum(dur[h])
            rel.add(con, team, end)
            events |= {end}
            rest.remove(h)
        later = [e for e in events if e > t]
        t = min(later) if later else t + 1
        if t > 10000:
            return None
    return times


def judge(rig, ind, scheme, out, start=0, exact=True):
    recs, dup = decode(rig, ind)
    out.execs += 1
    out.transitions += rig.size
    w = rig.world
    teams = teams_of(rig, ind)
    head = W.chain_heads(len(w['works']), w['edges'])
    bad = [b for b in ref.judge(w, rig.wg, recs, dup, start) if b[0] != 'team' or 'owns' in b[1] or 'team of' in b[1]]
    for i in range(len(w['works'])):
        r = recs[W.wid(w, i)]
        con, team = teams[head[i]]
        if r['team'] != dict(team):
            bad.append(('team', '%s has the team %s, the chromosome says %s' % (W.wid(w, i), r['team'], team)))
        elif team and r['con'] != con:
            bad.append(('contractor', '%s has the contractor %s, the chromosome says %s' % (W.wid(w, i), r['con'], con)))
    if not bad and exact:
        want = reference(rig, ind, scheme, start)
        got = {i: (recs[W.wid(w, i)]['start'], recs[W.wid(w, i)]['finish']) for i in range(len(w['works']))}
        if want != got:
            bad.append(('times', 'expected %s, got %s' % (sorted(want.items()), sorted(got.items()))))
    out.state([scheme, w, sorted((k, v['start'], v['finish']) for k, v in recs.items())])
    for a, d in bad[:1]:
        out.bad('%s:%s' % (scheme, a), '%s\n  chromosome %s\n  schedule %s' % (d, ga.dump(ind), ref.brief(recs)))
    out.sample = {'chromosome': ga.dump(ind), 'schedule': ref.brief(recs)}
    return not bad


def run_all(case, out):
    """every order and every team (one contractor set) of the world"""
    w = case['w']
    for scheme in SGS:
        rig = ga.Rig(w, sgs_type=SGS[scheme], assigned_parent_time=Time(w.get('start', 0)))
        exact = plain(w)
        genes = [g for g in sorted(rig.reqs)]
        spans = []
        for g in genes:
            rows = list(rig.rows(g, rig.capacity))
            spans.append(rows[:1] if g in (rig.s, rig.f) or not rig.reqs[g] else rows)
        teams = list(itertools.product(*spans))
        cut = case.get('cut') or 10 ** 9
        teams = teams[::max(1, len(teams) // cut)]
        for o in rig.orders():
            for rows in teams:
                ind = rig.ind(o, rig.res_matrix(dict(zip(genes, rows))))
                if not judge(rig, ind, scheme, out, w.get('start', 0), exact):
                    return
        if case.get('borders'):
            o = next(rig.orders())
            for rows in teams[::3]:
                m = rig.res_matrix(dict(zip(genes, rows)))
                low = np.zeros_like(rig.capacity)
                for g in genes:
                    low[m[g][-1]] = np.maximum(low[m[g][-1]], m[g][:-1])
                ind = rig.ind(o, m, low)
                if not judge(rig, ind, scheme, out, w.get('start', 0), exact):
                    return
        out.nontrivial = out.nontrivial or len(teams) > 1


def gen2(t):
    for w in fams.make(2, [fams.FS0, fams.FS3, fams.IFS, fams.FFS2], [D1, DF, N0, FD, fams.SV], [fams.TWO, fams.ORD]):
        yield {'w': w, 'borders': True}
        if w['edges']:
            yield {'w': dict(w, start=4), 'cut': 8}


def gen3(t):
    for w in fams.make(3, [fams.FS0, fams.FS3, fams.IFS], [D1, DF], [fams.C21] if t == 'quick' else [fams.C21, fams.TWO]):
        yield {'w': w, 'borders': True}


def gen4(t):
    for w in fams.make(4, [fams.FS0, fams.IFS] if t == 'quick' else [fams.FS0, fams.FS3, fams.IFS], [D1, D2] if t == 'quick' else [D1, D2, DF],
                       [fams.C21], max_edges=2):
        if t != 'quick' or len({str(x['req']) for x in w['works']}) == 2:
            yield {'w': w, 'cut': 4 if t == 'quick' else 16}


def run_trip(case, out):
    """schedule -> chromosome -> schedule keeps contractors and teams; encoding again gives the same genes"""
    w = case['w']
    wg = W.build_graph(w)
    con, spec, land = W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    s = sched.SCHEDULERS[case['s']]()
    with sched.Quiet():
        res = s.schedule_with_cache(wg, con, spec=spec, landscape=land)
    schedule, _, _, order = res[0]
    first, _ = ref.as_records(schedule)
    out.nontrivial = True
    for scheme in SGS:
        rig = ga.Rig(w, sgs_type=SGS[scheme])
        rig.wg = wg
        ch = rig.tb.schedule_to_chromosome(schedule=schedule, order=order)
        ind = rig.tb.Individual(ch)
        e = rig.bad(ind)
        if e or not rig.tb.validate(ind):
            out.bad('encode:%s' % (e[0] if e else 'rejected'), '%s: %s\n schedule %s' % (ga.dump(ind), e, ref.brief(first)))
            return
        free = rig.tb.Individual(rig.tb.schedule_to_chromosome(schedule=schedule))
        if rig.bad(free) or ga.dump(free)[1:] != ga.dump(ind)[1:]:
            out.bad('encode:no-order', '%s: %s, with the order %s' % (ga.dump(free), rig.bad(free), ga.dump(ind)))
            return
        if [rig.index2node[int(g)].id for g in ind[0]] != [x.id for x in order]:
            out.bad('encode:order', 'order %s became %s' % ([x.id for x in order], ind[0].tolist()))
            return
        dec = rig.tb.chromosome_to_schedule(ind)[0]
        again = Schedule.from_scheduled_works(dec.values(), wg)
        second, dup = ref.as_records(again)
        out.execs += 1
        out.transitions += 2 * rig.size
        out.state([scheme, case['s'], w, sorted((k, v['start']) for k, v in second.items())])
        for i in range(len(w['works'])):
            a, b = first[W.wid(w, i)], second[W.wid(w, i)]
            if a['team'] != b['team'] or a['team'] and a['con'] != b['con']:
                out.bad('%s:team' % scheme, '%s: %s/%s became %s/%s' % (W.wid(w, i), a['con'], a['team'], b['con'], b['team']))
                return
        ch2 = rig.tb.Individual(rig.tb.schedule_to_chromosome(schedule=again, order=order))
        if ga.dump(ch2) != ga.dump(ind):
            out.bad('%s:again' % scheme, '%s became %s' % (ga.dump(ind), ga.dump(ch2)))
            return
        if scheme == 'serial' and case['s'] in ('between', 'topo_mom') and plain(w):
            t1 = {k: (v['start'], v['finish']) for k, v in first.items()}
            t2 = {k: (v['start'], v['finish']) for k, v in second.items()}
            if t1 != t2:
                out.bad('serial:times', 'a schedule built by the same rule changed: %s became %s' % (ref.brief(first), ref.brief(second)))
                return
    out.sample = {'schedule': ref.brief(first), 'decoded': ref.brief(second)}


def gen_trip(t):
    for w in fams.make(3, [fams.FS0, fams.FS3, fams.IFS] if t != 'quick' else [fams.FS0, fams.IFS], [D1, DF, FD] if t != 'quick' else [D1, FD], [fams.TWO, fams.ORD]):
        for s in (['heft', 'between', 'lft', 'rtopo'] if t == 'quick' else fams.ALL8):
            yield {'w': w, 's': s}


def gen_spec(t):
    for w in fams.spec3(t):
        if w['spec'] and ref.feasible(w) and 'team' not in next(iter(w['spec'].values())):
            yield {'w': w, 's': 'heft'}
            yield {'w': w, 's': 'between'}


def gen_team(t):
    """genes of every team for works whose team is specified"""
    for w in fams.make(3, [fams.FS0], [fams.D13, FD], [[{'driver': 3, 'fitter': 2}]], max_edges=1 if t == 'quick' else None):
        for sp in ({'driver': 3}, {'driver': 1}, {'driver': 2, 'fitter': 2}):
            for i in range(3):
                if set(sp) <= {q[0] for q in w['works'][i]['req']} and all(lo <= sp[k] <= hi for k, _, lo, hi in w['works'][i]['req'] if k in sp):
                    yield {'w': dict(w, spec={str(i): {'team': sp}}), 'cut': 12 if t == 'quick' else 40}


def F(name, gen, run):
    return core.Family(name, gen, run, run.__doc__ or '')


FAMILIES = [F('2 works', gen2, run_all), F('3 works', gen3, run_all), F('4 works', gen4, run_all), F('round trip', gen_trip, run_trip),
            F('specified teams', gen_team, run_all), F('round trip with specification', gen_spec, run_trip)]
