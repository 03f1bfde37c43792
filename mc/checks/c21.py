import itertools
import random
from fractions import Fraction as F

import numpy as np

from mc import core, fams, ref, rngmc, sched
from mc import worlds as W
from mc.checks import c17
from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
from sampo.scheduler.utils.critical_path import critical_path_graph, critical_path_schedule
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.schemas.works import WorkUnit
from sampo.utilities.priority import check_and_correct_priorities

RULE = 'the order of works that a scheduler returns, compared with longest paths and latest finishes derived from the description of the project'
DEP = W.DEP


class Ref:
    """chains of a project as units: 0..m-1 are heads of chains, 's' and 'f' the ends"""

    def __init__(self, world):
        self.w = world
        n = len(world['works'])
        head = W.chain_heads(n, world['edges'])
        self.heads = sorted(set(head))
        self.chain = {h: [i for i in range(n) if head[i] == h] for h in self.heads}
        dep = [(a, b) for a, b, lag, t in world['edges'] if t in DEP]
        self.succ = {h: {head[b] for a, b in dep if head[a] == h} - {h} for h in self.heads}
        first = {head[i] for i in range(n) if not any(b == i for a, b in dep)}
        last = {head[i] for i in range(n) if not any(a == i for a, b in dep)}
        self.succ['s'] = set(first)
        self.succ['f'] = set()
        for h in last:
            self.succ[h].add('f')
        if not n:
            self.succ['s'] = {'f'}
        self.pred = {x: {y for y in self.succ if x in self.succ[y]} for x in self.succ}

    def dur(self, h, team):
        """duration of a chain by a crew"""
        return sum(min(ref.INF, ref.est(self.w['works'][i].get('req', []), team)) for i in self.chain.get(h, []))

    def extreme(self, h, k):
        return {r[0]: r[k] for r in self.w['works'][h].get('req', [])} if h in self.chain else {}

    def longest(self, weight):
        res = {}

        def go(x):
            if x not in res:
                res[x] = max((go(y) for y in self.succ[x]), default=0) + weight(x)
            return res[x]
        for x in self.succ:
            go(x)
        return res

    def avg(self, h):
        return F(self.dur(h, self.extreme(h, 2)) + self.dur(h, self.extreme(h, 3)), 2) + 1


def order_of(world, wg, order):
    name = {W.wid(world, i): i for i in range(len(world['works']))}
    name[wg.start.id], name[wg.finish.id] = 's', 'f'
    return [name.get(x.id, x.id) for x in order]


def valid(r, order, out, text, pris=True):
    if len(order) != len(set(map(str, order))) or set(order) != set(r.succ):
        out.bad('permutation', 'order %s of %s; %s' % (order, sorted(map(str, r.succ)), text))
        return False
    pos = {x: i for i, x in enumerate(order)}
    for x in order:
        for y in r.succ[x]:
            if pos[y] < pos[x]:
                out.bad('precedence', '%s comes before its predecessor %s in %s; %s' % (y, x, order, text))
                return False
    pr = [r.w['works'][x].get('pri', 1) for x in order if x not in ('s', 'f')]
    if pris and pr != sorted(pr):
        out.bad('groups', 'priorities in the order %s are %s; %s' % (order, pr, text))
        return False
    return True


D = fams.D1, fams.D2, fams.DF, fams.F1, fams.D13


def worlds(t):
    q = t == 'quick'
    for e in W.edge_sets(3, [(0, 'FS'), (3, 'FS'), (0, 'IFS')]):
        for ws in itertools.product([fams.D1, fams.DF, fams.D13] if q else D, repeat=3):
            yield {'works': W.with_chains(list(ws), e), 'edges': e, 'con': fams.TWO}
    for e in W.edge_sets(4, [(0, 'FS'), (0, 'IFS')], 5 if q else None):
        for ws in itertools.product([fams.D1, fams.D13], repeat=4):
            yield {'works': W.with_chains(list(ws), e), 'edges': e, 'con': fams.ORD[:1] + [{'driver': 3}]}
    for e in W.edge_sets(4, [(0, 'FS')] if q else [(0, 'FS'), (0, 'IFS')]):
        for pri in itertools.product((1, 2, 3), repeat=4):
            if any(pri[a] > pri[b] or t == 'IFS' and pri[a] != pri[b] for a, b, lag, t in e) or len(set(pri)) == 1:
                continue
            ws = W.with_chains([fams.D1, fams.D13, fams.DF, fams.D2], e)
            yield {'works': [dict(w, pri=p) for w, p in zip(ws, pri)], 'edges': e, 'con': fams.TWO}


def order_gen(t):
    for w in worlds(t):
        for s in ('heft', 'between', 'topo', 'lft'):
            yield {'w': w, 's': s}


def order_run(case, out):
    w = case['w']
    r = Ref(w)
    wg, con = W.build_graph(w), W.build_contractors(w)
    s = sched.SCHEDULERS[case['s']]()
    out.nontrivial = bool(w['edges'])
    schedule, _, _, nodes = s.schedule_with_cache(wg, con)[0]
    order = order_of(w, wg, nodes)
    out.execs += 1
    out.transitions += len(order)
    out.state([w, case['s'], order])
    out.sample = {'order': order}
    if not valid(r, order, out, str(case)):
        return
    plain = len({x.get('pri', 1) for x in w['works']}) == 1
    if case['s'] in ('heft', 'between') and plain:
        rank = r.longest(r.avg)
        ranks = [rank[x] for x in order]
        if any(a < b for a, b in zip(ranks, ranks[1:])):
            out.bad('longest', 'longest remaining paths in the order %s are %s; %s' % (order, [str(x) for x in ranks], case))
    if case['s'] == 'lft':
        recs, _ = ref.as_records(schedule)
        dur = {x: 1 + (r.dur(x, recs[W.wid(w, x)]['team']) if x in r.chain else 0) for x in r.succ}
        late = r.longest(lambda x: dur[x])  # latest finish = horizon - longest path after the work
        after = {x: late[x] - dur[x] for x in r.succ}
        pris = [w['works'][x].get('pri', 1) if x in r.chain else (0 if x == 's' else 9) for x in order]
        for a, b, p, q in zip(order, order[1:], pris, pris[1:]):
            if p == q and after[a] < after[b]:
                out.bad('latest', 'work %s with the later latest finish comes before %s in %s; %s' % (a, b, order, case))
        rule(case, r, recs, out)


CREWS = [[{'fitter': 2}, {'driver': 2, 'fitter': 2}, {'driver': 2}], [{'driver': 1}, {'driver': 2, 'fitter': 1}, {'driver': 2, 'fitter': 3}], [{'fitter': 1}, {'driver': 2}, {'driver': 2}]]


def even_gen(t):
    for n in ((4, 5) if t == 'quick' else (4, 5, 6, 7)):
        for ws in itertools.product([fams.D1, fams.F1] + ([fams.FD] if n < 6 else []), repeat=n):
            for con in CREWS:
                if all(any(all(c.get(q[0], -1) >= q[2] for q in w['req']) for c in con) for w in ws):
                    for e in ([], [[i, i + 1, 0, 'FS'] for i in range(n - 1)]):
                        yield {'w': {'works': list(ws), 'edges': e, 'con': con}, 's': 'lft'}


def rule(case, r, recs, out):
    """contractors are chosen evenly: least sum of the shares of the duration and of the assignments so far"""
    w = case['w']
    count = [1] * len(w['con'])
    todo, done = set(r.succ), []
    while todo:
        level = {x for x in todo if not r.pred[x] & todo}
        done += sorted(level, key=str)
        todo -= level
    for x in done:
        req = w['works'][x].get('req', []) if x in r.chain else []
        ok = [i for i, c in enumerate(w['con']) if all(c.get(k, -1) >= lo for k, v, lo, hi in req)]
        teams = {i: {k: min(w['con'][i][k], hi) for k, v, lo, hi in req} for i in ok}
        dur = {i: r.dur(x, teams[i]) + 1 if x in r.chain else 1 for i in ok}
        score = {i: F(dur[i], sum(dur.values())) + F(count[i], sum(count)) for i in ok}
        best = [i for i in ok if score[i] - min(score.values()) < F(1, 10 ** 9)]
        if x in ('s', 'f'):
            if len(best) > 1 and x == 's':
                best = best[:1]   # the start shows no contractor: the first of equals is assigned
            count[best[0]] += 1
            continue
        rec = recs[W.wid(w, x)]
        got = int(rec['con'][1:]) if rec['con'] else None
        if req and (got not in best or rec['team'] != teams[got]):
            out.bad('even', 'work %s is done by %s with %s, expected one of %s with %s (shares %s); %s' %
                    (x, got, rec['team'], best, [teams[i] for i in best], {i: float(v) for i, v in score.items()}, case))
            return
        count[got if got is not None else best[0]] += 1


def rand_gen(t):
    q = t == 'quick'
    for e in W.edge_sets(3, [(0, 'FS'), (0, 'IFS')]):
        for pri in ([1, 1, 1], [1, 1, 2], [1, 2, 2], [1, 2, 3]):
            if any(b == 'IFS' and pri[x] != pri[y] for x, y, l, b in e):
                continue
            ws = W.with_chains([fams.D1, fams.D13, fams.F1], e)
            for s in ('rtopo', 'rlft'):
                yield {'w': {'works': [dict(x, pri=p) for x, p in zip(ws, pri)], 'edges': e, 'con': fams.TWO}, 's': s}
    for e in W.edge_sets(4, [(0, 'FS')], 4 if q else None):
        yield {'w': {'works': [fams.D1, fams.D13, fams.F1, fams.D2], 'edges': e, 'con': fams.C21}, 's': 'rtopo'}
        yield {'w': {'works': [fams.D1, fams.D13, fams.F1, fams.D2], 'edges': e, 'con': fams.C21}, 's': 'rlft'}


def rand_run(case, out):
    w = case['w']
    r = Ref(w)
    seen = set()

    def go(ch):
        wg, con = W.build_graph(w), W.build_contractors(w)
        if case['s'] == 'rtopo':
            s = RandomizedTopologicalScheduler(random_seed=1)
            s._random_state = rngmc.ChoiceRandomState(ch)
        else:
            s = RandomizedLFTScheduler(rand=rngmc.ChoiceRandom(ch, floats=(0.25, 0.75)))
        nodes = s.schedule_with_cache(wg, con)[0][3]
        return order_of(w, wg, nodes)
    n = 0
    for ds, order in rngmc.explore(go, dev=None if case['s'] == 'rtopo' else 4, limit=400):
        out.execs += 1
        out.transitions += len(ds)
        seen.add(tuple(order))
        if not valid(r, order, out, '%s, random answers %s' % (case, ds)):
            return
    out.nontrivial = len(seen) > 1
    for o in sorted(seen, key=str):
        out.state([w, case['s'], o])


def crit_gen(t):
    for w in worlds(t):
        if len({x.get('pri', 1) for x in w['works']}) == 1:
            yield {'w': w}


def crit_run(case, out):
    w = case['w']
    r = Ref(w)
    wg, con = W.build_graph(w), W.build_contractors(w)
    out.nontrivial = len(w['edges']) > 1
    sch = sched.SCHEDULERS['heft']().schedule(wg, con)[0]
    recs, _ = ref.as_records(sch)
    real = lambda x: F(sum(recs[W.wid(w, i)]['finish'] - recs[W.wid(w, i)]['start'] for i in r.chain[x]) if x in r.chain else 0) + 1
    for kind, path, weight in (('graph', critical_path_graph(wg.nodes, DefaultWorkEstimator()), r.avg), ('schedule', critical_path_schedule(wg.nodes, {s.id: s for s in sch.works}), real)):
        p = order_of(w, wg, path)
        out.transitions += 1
        if not p or p[0] != 's' or any(b not in r.succ[a] for a, b in zip(p, p[1:])) or 'f' not in r.succ[p[-1]]:
            out.bad('path:%s' % kind, 'critical path %s is no path through the project; %s' % (p, case))
            continue
        full = r.longest(weight)['s']
        got = sum(weight(x) for x in p + ['f'])
        if got != full:
            out.bad('critical:%s' % kind, 'critical path %s takes %s, the longest %s; %s' % (p, got, full, case))
    out.execs += 1
    out.state([case])


def pri_gen(t):
    es = list(c17.graphs(4, [(0, 'FS'), (0, 'IFS')])) if t == 'thorough' else list(c17.graphs(4, [(0, 'FS')])) + [e for e in c17.graphs(4, [(0, 'FS'), (0, 'IFS'), (1, 'SS')]) if len(e) in (3, 4)][::4]
    for e in es:
        yield {'n': 4, 'edges': e}
    for layers in (3, 20, 60):
        for pri in ('up', 'down'):
            yield {'layers': layers, 'pri': pri}


def pri_run(case, out):
    if 'layers' in case:
        n = 2 * case['layers']
        e = [(2 * k + a, 2 * k + 2 + b, 0, 'FS') for k in range(case['layers'] - 1) for a in (0, 1) for b in (0, 1)]
        alls = [[i // 2 if case['pri'] == 'up' else case['layers'] - i // 2 for i in range(n)]]
    else:
        n, e = case['n'], [tuple(x) for x in case['edges']]
        alls = itertools.product((0, 1, 2), repeat=n)
    nodes = [GraphNode(WorkUnit('w%d' % i, {'granular_name': 'n%d' % i, 'measurement': 'm'}), []) for i in range(n)]
    for a, b, lag, t in e:
        nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
    wg = WorkGraph.from_nodes(nodes)
    out.nontrivial = bool(e)
    for pri in alls:
        for x, p in zip(nodes, pri):
            x.work_unit.priority = p
        wg.start.work_unit.priority, wg.finish.work_unit.priority = 0, max(pri)
        check_and_correct_priorities(wg, verbose=False)
        exp = list(pri)
        for i in reversed(range(n)):
            exp[i] = min([exp[i]] + [exp[b] for a, b, lag, t in e if a == i and t in DEP])
        got = [x.work_unit.priority for x in nodes]
        out.transitions += n
        if got != exp:
            out.bad('priorities', 'priorities %s are corrected to %s, expected %s; %s' % (list(pri), got, exp, case))
            return
    out.execs += 1
    out.state([case])


FAMILIES = [core.Family('orders', order_gen, order_run, 'all small projects, four schedulers: every work once, predecessors first, priority groups in order, longest path first (HEFT), latest finish and even contractors (LFT)'),
            core.Family('even', even_gen, order_run, 'all sequences of 4-5 (thorough 7) works over contractors with different trades, LFT'),
            core.Family('random', rand_gen, rand_run, 'all random answers (LFT: up to 4 departures, at most 400 runs) of the randomised schedulers'),
            core.Family('critical', crit_gen, crit_run, 'critical paths of projects and schedules'),
            core.Family('priorities', pri_gen, pri_run, 'all graphs of 4 works and all priorities; ladders of up to 60 layers')]
