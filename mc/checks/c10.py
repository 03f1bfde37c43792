import itertools

from mc import core, fams, mat, ref, sched
from mc import worlds as W
from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline
from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
from sampo.schemas.graph import GraphNode
from sampo.schemas.requirements import MaterialReq
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit

RULE = ('all sequences of works of the alphabet with all requested moments up to the stated length are placed on the real supply timeline, or all worlds of the family are scheduled; '
        'the recorded deliveries are judged by a ledger of platforms, depots, vehicles and the road')

ONE = {'plats': [{'m': 4, 'n': 2}], 'depots': [{'stock': {'m': 40, 'n': 40}, 'veh': 2, 'cap': {'m': 2, 'n': 2}}], 'roads': [['p0', 'd0', 7, 2]]}
WIDE = {'plats': [{'m': 4, 'n': 2}], 'depots': [{'stock': {'m': 40, 'n': 40}, 'veh': 4, 'cap': {'m': 2, 'n': 2}}], 'roads': [['p0', 'd0', 12, 2]]}
TWO = {'plats': [{'m': 4, 'n': 2}, {'m': 4, 'n': 2}], 'depots': [{'stock': {'m': 9, 'n': 40}, 'veh': 2, 'cap': {'m': 3, 'n': 2}}, {'stock': {'m': 40, 'n': 0}, 'veh': 3, 'cap': {'m': 2, 'n': 1}}],
       'roads': [['p0', 'd0', 5, 2], ['p1', 'd0', 11, 3], ['p0', 'p1', 4, 3], ['p1', 'd1', 9, 3]]}
SCARCE = {'plats': [{'m': 4, 'n': 2}], 'depots': [{'stock': {'m': 5, 'n': 3}, 'veh': 2, 'cap': {'m': 2, 'n': 2}}], 'roads': [['p0', 'd0', 7, 2]]}
TWIN = {'plats': [{'m': 4, 'n': 2}], 'depots': [{'stock': {'m': 40, 'n': 40}, 'veh': 4, 'cap': {'m': 2, 'n': 2}}], 'roads': [['p0', 'd0', 12, 2], ['p0', 'd0', 4, 1]]}
CFGS = {'one': ONE, 'wide': WIDE, 'two': TWO, 'scarce': SCARCE, 'twin': TWIN}
# needs and platform; a work that needs two materials may find one of them in place
ALPHA = [({'m': 3}, 0), ({'m': 4, 'n': 1}, 0), ({'n': 2}, 0), ({'m': 1, 'n': 1}, 0)]
ALPHA2 = ALPHA[:3] + [({'m': 3, 'n': 1}, 1), ({'m': 2}, 1)]


def wu(k, needs):
    return WorkUnit('w%d' % k, 'w', material_reqs=[MaterialReq(a, b) for a, b in needs.items()])


def run_seq(case, out):
    """every history of deliveries on the supply timeline"""
    cfg = CFGS[case['cfg']]
    works = [(case['alpha'][s][0], case['alpha'][s][1]) for s in case['seq']]
    nodes = [(GraphNode(wu(k, needs), []), p) for k, (needs, p) in enumerate(works)]
    land = mat.build(cfg, nodes)
    tl = HybridSupplyTimeline(land)
    items, hist = [], []
    out.nontrivial = True
    for k, ((n, p), t) in enumerate(zip(nodes, case['at'])):
        mats = n.work_unit.need_materials()
        try:
            t0 = t
            for _ in range(100):
                t1 = int(tl.find_min_material_time(n, Time(t0), mats))
                if t1 == t0:
                    break
                if t1 < t0:
                    out.bad('earlier', 'asked for %d, answered %d; %s' % (t0, t1, hist))
                    return
                t0 = t1
            else:
                out.bad('moving', 'the proposed moment never settles: %s' % hist)
                return
            if t0 > t and tl.can_schedule_at_the_moment(n, Time(t), mats) and case['cfg'] != 'scarce':
                out.bad('moment', 'work %d can start at %d, but %d was proposed; %s' % (k, t, t0, hist))
            if not tl.can_schedule_at_the_moment(n, Time(t0), mats):
                out.bad('moment', 'work %d can not start at the proposed %d; %s' % (k, t0, hist))
            d, t2 = tl.deliver_resources(n, Time(t0), mats)
        except NotEnoughMaterialsInDepots:
            hist.append('refused %d' % k)
            left = {m: max(d['stock'].get(m, 0) for d in cfg['depots']) - sum(c for i in items for c, *_ in i[4].get(m, [])) for m in works[k][0]}
            if all(left[m] >= cfg['plats'][works[k][1]].get(m, 0) for m in left):
                out.bad('refused', 'work %d is refused, although the depots still have %s; %s' % (k, left, hist))
            break
        out.transitions += 1
        if int(t2) != t0:
            out.bad('promise', 'work %d was promised %d, the delivery says %d; %s' % (k, t0, int(t2), hist))
        items.append(('w%d' % k, p, works[k][0], t0, mat.dump(d)))
        hist.append((works[k], t, t0, mat.dump(d)))
        out.state([case['cfg'], hist])
    out.execs += 1
    for a, text in mat.judge(cfg, items):
        out.bad(a, '%s; %s' % (text, hist))
    out.sample = {'history': [str(h) for h in hist]}


def gen_seq(t):
    q = t == 'quick'
    for name in CFGS:
        alpha = ALPHA2 if name == 'two' else ALPHA
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            times = (0, 1, 3, 8) if n < 3 else (0, 3) if q else (0, 2, 7) if n == 4 else (0, 1, 3, 8)
            if n == 4 and name == 'two':
                times = (0, 3)
            for seq in itertools.product(range(len(alpha)), repeat=n):
                for at in itertools.product(times, repeat=n):
                    yield {'cfg': name, 'alpha': alpha, 'seq': seq, 'at': at}


def run_world(case, out):
    """every small project with materials in every scheduler"""
    cfg = CFGS[case['cfg']]
    w = case['w']
    wg = W.build_graph(w)
    at = {W.wid(w, i): case['at'][i] for i in range(len(w['works']))}
    land = mat.build(cfg, [(n, at[n.id]) for n in wg.nodes if n.id in at])
    out.nontrivial = True
    try:
        wg, recs, res = sched.run(w, case['s'], wg=wg, landscape=land)
    except NotEnoughMaterialsInDepots:
        if case['cfg'] != 'scarce':
            out.bad('refused', 'not enough materials, although the depots are full')
        out.sample = {'refused': True}
        return
    out.execs += 1
    out.transitions += len(w['works'])
    if recs is None:
        out.bad('refused', '%s' % res)
        return
    r = recs[0][0]
    shown = ref.brief(r)
    for aspect, text in ref.judge(w, wg, r, recs[0][1], 0):
        out.bad(aspect, '%s; %s' % (text, shown))
    items = []
    for sw in res[0].works:
        if sw.id in at:
            i = [W.wid(w, j) for j in range(len(w['works']))].index(sw.id)
            items.append((sw.id, at[sw.id], dict(w['works'][i].get('mat', [])), int(sw.start_time), mat.dump(sw.materials)))
    for a, text in mat.judge(cfg, items):
        out.bad(a, '%s; %s' % (text, items))
    out.state([case['s'], case['cfg'], items])
    out.sample = {'schedule': shown}


def gen_world(t):
    q = t == 'quick'
    M = [[['m', 3]], [['m', 4], ['n', 1]], [['n', 2]], []]
    for s in sched.FAST + ['heft_mom'] + sched.GA:
        n = 2 if s in sched.GA else 3
        for cfg in CFGS:
            for e in W.edge_sets(n, [(0, 'FS'), (0, 'IFS')] + ([] if q else [(2, 'FS')]), 2):
                for ms in itertools.product(range(len(M)), repeat=n):
                    if q and n == 3 and (sum(ms) + len(e)) % 3 and cfg != 'one':
                        continue
                    works = [dict((fams.D1, fams.DF, fams.D13)[i % 3], mat=M[m]) for i, m in enumerate(ms)]
                    yield {'s': s, 'cfg': cfg, 'w': {'works': W.with_chains(works, e), 'edges': e, 'con': fams.TWO},
                           'at': [i % 2 if cfg == 'two' else 0 for i in range(n)]}


def F(name, gen, run):
    return core.Family(name, gen, run, run.__doc__ or '')


FAMILIES = [F('histories', gen_seq, run_seq), F('projects', gen_world, run_world)]
