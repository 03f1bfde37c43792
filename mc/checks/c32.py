import itertools

from mc import core, fams, ref, sched, snap
from mc import worlds as W
from mc.checks import c09
from sampo.scheduler.timeline import JustInTimeTimeline, MomentumTimeline
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time

RULE = ('swap: every order of every small graph and every area goes through the swapping optimizer, the result is compared with the dependencies of the graph; '
        'parallelize: every schedule of the worlds goes through the parallelizing optimizer with both timelines and every kind of area, mc.ref judges the result')
TL = {'jit': JustInTimeTimeline, 'momentum': MomentumTimeline}


def extensions(items, before):
    """all linear extensions; before: set of (a, b)"""
    if not items:
        yield []
        return
    for x in items:
        if not any((y, x) in before for y in items if y != x):
            for rest in extensions([y for y in items if y != x], before):
                yield [x] + rest


def swap_gen(t):
    q = t == 'quick'
    for n, kinds in ((3, [(0, 'FS'), (0, 'IFS')]), (4, [(0, 'FS')]), (4, [(0, 'FS'), (0, 'IFS')])) + (() if q else ((5, [(0, 'FS')]),)):
        for e in W.edge_sets(n, kinds, max_edges=4 if q and n == 4 and len(kinds) == 2 else None):
            yield {'n': n, 'edges': e}


def swap_run(case, out):
    n, edges = case['n'], case['edges']
    wg = W.build_graph({'works': [{} for _ in range(n)], 'edges': edges})
    head = W.chain_heads(n, edges)
    dep = {(head[a], head[b]) for a, b, *_ in edges if head[a] != head[b]}
    heads = [i for i in range(n) if head[i] == i]
    dep |= {('s', i) for i in heads} | {(i, 'f') for i in heads}
    node = {i: wg['w%d' % i] for i in heads} | {'s': wg.start, 'f': wg.finish}
    name = {v: k for k, v in node.items()}
    m = len(heads) + 2
    for order in extensions(['s'] + heads + ['f'], dep):
        for a in range(m + 1):
            for b in range(a, m + 2):
                if b == m + 1 and a % 2:
                    continue
                with sched.Quiet():
                    got = [name[x] for x in SwapOrderLocalOptimizer().optimize([node[x] for x in order], range(a, b))]
                text = 'order %s, area %d..%d became %s; %s' % (order, a, b, got, case)
                if sorted(map(str, got)) != sorted(map(str, order)):
                    out.bad('permutation', text)
                    continue
                if got[:a] != order[:a] or got[b:] != order[b:]:
                    out.bad('area', text)
                pos = {x: i for i, x in enumerate(got)}
                if any(pos[x] > pos[y] for x, y in dep):
                    out.bad('dependencies', text)
                can = any(not any((order[k], order[i]) in dep for k in range(c, i)) and not any((order[c], order[k]) in dep for k in range(c + 1, i + 1))
                          for c in range(a, min(b, m)) for i in range(c + 1, min(b, m)))
                if can != (got != order):
                    out.bad('swap', 'swap possible: %s; %s' % (can, text))
                out.transitions += 1
                out.nontrivial = out.nontrivial or can
        out.state([case, [str(x) for x in order]])
    out.execs += 1


def par_gen(t):
    q = t == 'quick'
    src = [fams.make(2, [fams.FS0, fams.FS3, fams.IFS], [fams.D1, fams.D2, fams.DF, fams.FD, fams.D13, fams.N0], [fams.C21, fams.TWO, fams.SPLIT]),
           fams.make(3, [fams.FS0, fams.IFS] if q else [fams.FS0, fams.FS3, fams.IFS], [fams.D1, fams.FD, fams.D13], [[{'driver': 3, 'fitter': 2}], fams.TWO]),
           fams.spec2x(t), fams.spec_cap(t), fams.spec3(t), fams.zones2(t), par_other(t)]
    for k, g in enumerate(src):
        for j, w in enumerate(g):
            if q and k in (1, 4) and len(w['edges']) > 1:
                continue
            if q and k == 5 and j % 3:
                continue
            for s in ('heft', 'topo'):
                for tl in ('jit', 'momentum'):
                    if q and k and (s == 'topo') != (tl == 'momentum'):
                        continue
                    yield {'w': w, 's': s, 'tl': tl, 'start': 0 if j % 2 else 4}


def par_other(t):
    """works of contractors of different sizes; zones with final statuses"""
    for con in ([{'driver': 1}, {'driver': 3}], [{'driver': 3}, {'driver': 1}], [{'driver': 3}, {'driver': 2}]):
        for n in (2, 3):
            for e in W.edge_sets(n, [fams.FS0], 1):
                for own in itertools.product((0, 1), repeat=n):
                    for lo in (1, 2):
                        if lo > min(con[k]['driver'] for k in own):
                            continue
                        yield {'works': [{'req': [['driver', 13, lo, 3]]} for _ in range(n)], 'edges': e, 'con': con,
                               'spec': {str(i): {'con': ['c%d' % own[i]]} for i in range(n)}}
    for k, w in enumerate(c09.worlds(t)):
        if len(w['works']) == 2 and w['zcfg'].get('end') and (t != 'quick' or k % 4 == len(w['edges'])):
            yield w


def par_run(case, out):
    w = case['w']
    wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    try:
        with sched.Quiet():
            (sch, _, _, order), = sched.SCHEDULERS[case['s']]().schedule_with_cache(wg, con, spec, landscape=land, assigned_parent_time=Time(case['start']))
    except sched.REFUSALS:
        return
    works = {wg[s.id]: s for s in sch.works}
    before = [snap.obj(s) for s in sch.works], [x.id for x in order]
    old = ref.as_records(sch)[0]
    m = len(order)
    for area in sorted({(0, m), (0, m + 3), (1, m - 1), (0, m // 2), (m // 2, m)}):
        with sched.Quiet():
            res = ParallelizeScheduleLocalOptimizer(TL[case['tl']]).optimize(works, order, con, land, spec, get_worker_contractor_pool(con), sched.DefaultWorkEstimator(),
                                                                             Time(case['start']), range(*area))
            again = ParallelizeScheduleLocalOptimizer(TL[case['tl']]).optimize(works, order, con, land, spec, get_worker_contractor_pool(con), sched.DefaultWorkEstimator(),
                                                                               Time(case['start']), range(*area))
        text = '%s became' % ref.brief(old)
        if ([snap.obj(s) for s in sch.works], [x.id for x in order]) != before:
            out.bad('mutated', 'the given schedule was changed, area %s; %s' % (area, case))
            return
        new = Schedule.from_scheduled_works(list(res.values()), wg)
        recs, dup = ref.as_records(new)
        text += ' %s, area %s; %s' % (ref.brief(recs), area, case)
        if ref.as_records(Schedule.from_scheduled_works(list(again.values()), wg))[0] != recs:
            out.bad('repeat', 'the second run gives another schedule; %s' % text)
        for aspect, detail in ref.judge(w, wg, recs, dup, case['start']):
            out.bad(aspect, '%s; %s' % (detail, text))
        if w.get('zcfg'):
            for aspect, detail in c09.judge_schedule(w, wg, new):
                out.bad(aspect, '%s; %s' % (detail, text))
        at = {x.id: i for i, x in enumerate(order)}
        for i, r in recs.items():
            if r['con'] != old[i]['con'] and r['team']:
                out.bad('contractor', '%s moved to another contractor; %s' % (i, text))
            if i in at and not area[0] <= at[i] < area[1] and r['team'] != old[i]['team']:
                out.bad('outside', 'the team of %s, which is not in the area, was changed; %s' % (i, text))
        n = len(w['works'])
        if n == 2 and not w['edges'] and area == (0, m) and not w.get('spec') and not w.get('zcfg'):
            # two independent works run in parallel when their smallest teams fit into the contractor together
            a, b = recs['w0'], recs['w1']
            cap = w['con'][int(a['con'][1:])] if a['con'] else {}
            lo = {}
            for x in w['works']:
                for k, v, l, h in x['req']:
                    lo[k] = lo.get(k, 0) + l
            if a['con'] == b['con'] and set(a['team']) == set(b['team']) and a['team'] and all(c <= cap.get(k, 0) for k, c in lo.items()) and \
                    not (a['start'] == b['start'] == case['start']):
                out.bad('parallel', 'both works could run in parallel; %s' % text)
        out.execs += 1
        out.transitions += n
        out.state([case['s'], case['tl'], ref.brief(recs)])
        out.nontrivial = out.nontrivial or any(r['team'] != old[i]['team'] or r['start'] != old[i]['start'] for i, r in recs.items())
    out.sample = {'given': ref.brief(old), 'result': ref.brief(recs)}


FAMILIES = [core.Family('swap', swap_gen, swap_run, rule='all graphs of 3-4 works (thorough: 5), all orders, all areas'),
            core.Family('parallelize', par_gen, par_run, rule='worlds of 2-3 works with specifications and zones, HEFT and topological, both timelines, five areas')]
