import copy
import gc
import itertools
import sys
import types
from random import Random


def _stub(name, **attrs):
    """torch, ray and the networks are not installed here; the auctions do not need them"""
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.__path__ = []
        m.__getattr__ = lambda a: type(a, (), {})
        sys.modules[name] = m
    for k, v in attrs.items():
        setattr(sys.modules[name], k, v)


try:
    import torch  # noqa: F401
except ImportError:
    _stub('torch')
    for _n in ('sampo.scheduler.selection', 'sampo.scheduler.selection.neural_net'):
        _stub(_n)

from mc import core, fams, ref, sched  # noqa: E402
from mc import worlds as W  # noqa: E402
from sampo.scheduler.multi_agency.block_graph import BlockGraph  # noqa: E402
from sampo.scheduler.multi_agency.block_validation import validate_block_schedule  # noqa: E402
from sampo.scheduler.multi_agency.exception import NoSufficientAgents  # noqa: E402
from sampo.scheduler.multi_agency.multi_agency import Agent, Manager, NeuralManager, StochasticManager  # noqa: E402
from sampo.scheduler.utils.obstruction import OneInsertObstruction  # noqa: E402
from sampo.schemas.graph import GraphNode, WorkGraph  # noqa: E402
from sampo.schemas.time import Time  # noqa: E402
from sampo.schemas.time_estimator import DefaultWorkEstimator, WorkerProductivityMode  # noqa: E402
from sampo.schemas.works import WorkUnit  # noqa: E402

RULE = ('every small block graph is auctioned among every small set of agents; every block is judged like a schedule of its own, the crews of an agent over all its '
        'blocks together, and the winner against the offers that each agent makes on its own')


def block(case, b):
    """the b-th block as a world of its own: works with unique identifiers, over the crews of one agent"""
    w = case['blocks'][b]
    return {'works': W.with_chains(list(w['works']), w['edges']), 'edges': w['edges'], 'ids': ['b%dw%d' % (b, i) for i in range(len(w['works']))], 'gseed': b + 1}


class Recorder(Agent):
    """An agent that keeps a log of what it was asked and what it confirmed."""
    log = None

    def offer(self, wg, parent_time):
        try:
            r = super().offer(wg, parent_time)
        except sched.REFUSALS:
            self.log.append(('refused', self.name, wg, int(parent_time), None))
            raise
        self.log.append(('offer', self.name, wg, int(parent_time), int(r[1])))
        return r

    def confirm(self, timeline, start, end):
        self.log.append(('confirm', self.name, None, int(start), int(end)))
        return super().confirm(timeline, start, end)


class Deviating(DefaultWorkEstimator):
    """in the stochastic mode every work takes `dev` times as long as estimated"""

    def __init__(self, dev):
        super().__init__()
        self.dev = dev
        self.mode = WorkerProductivityMode.Static

    def set_productivity_mode(self, mode=WorkerProductivityMode.Static):
        self.mode = mode

    def estimate_time(self, work_unit, worker_list):
        t = super().estimate_time(work_unit, worker_list)
        return t * self.dev if self.mode == WorkerProductivityMode.Stochastic else t


def contractors(case, a):
    res = W.build_contractors({'con': case['agents'][a]['con']})
    for i, c in enumerate(res):
        c.id = c.name = 'a%d_c%d' % (a, i)
        for w in c.workers.values():
            w.contractor_id = c.id
    return res


def agents(case, log, cls=Recorder):
    res = []
    for a, x in enumerate(case['agents']):
        ag = cls('agent%d' % a, sched.SCHEDULERS[x['s']](), contractors(case, a))
        ag.log = log
        if case.get('m') == 'stoch':
            ag.scheduler.work_estimator = Deviating(case.get('dev', 1))
        res.append(ag)
    return res


def build(world):
    if world['works']:
        return W.build_graph(world)
    start = GraphNode(WorkUnit('s%d' % world['gseed'], ''), [])  # a block without works, as the generator of block graphs makes them
    return WorkGraph(start, GraphNode(WorkUnit('f%d' % world['gseed'], ''), [start]))


def graph(case, obst=None):
    wgs = [build(block(case, b)) for b in range(len(case['blocks']))]
    bg = BlockGraph.pure(wgs, obst) if obst else BlockGraph.pure(wgs)
    for a, b in case['bedges']:
        BlockGraph.add_edge(bg.nodes[a], bg.nodes[b])
    return wgs, bg


def strip(recs):
    """the judge knows contractors as c0, c1, ..."""
    return {k: dict(r, con=r['con'] and r['con'].split('_')[-1], owner=[o.split('_')[-1] for o in r['owner']]) for k, r in recs.items()}


def able(case, b, a):
    w = dict(block(case, b), con=case['agents'][a]['con'])
    return ref.feasible(w)


def manage(case, out, make=None):
    """auctions all the blocks; -> (log, agents, {block number: scheduled block}) or None"""
    log = []
    ags = agents(case, log)
    wgs, bg = graph(case)
    n = len(wgs)
    possible = all(any(able(case, b, a) for a in range(len(ags))) for b in range(n))
    try:
        with sched.Quiet():
            res = (make or Manager)(ags).manage_blocks(bg) if make is not neural else neural(case, ags, bg)
    except NoSufficientAgents as e:
        if possible:
            out.bad('refused', 'every block can be done by some agent, but: %s; %s' % (e, case))
        return None
    out.execs += 1
    if not possible:
        out.bad('impossible', 'a block that no agent can do was given away; %s' % (case,))
        return None
    key = {wgs[b].start.id: b for b in range(n)}
    if sorted(res) != sorted(key):
        out.bad('blocks', 'blocks %s scheduled, not %s; %s' % (sorted(res), sorted(key), case))
        return None
    return log, ags, wgs, {key[k]: v for k, v in res.items()}, bg


def neural(case, ags, bg):
    class Says:
        def __init__(self, v):
            self.v = v

        def predict(self, _):
            return self.v

        def predict_proba(self, _):
            return self.v
    order = bg.toposort()
    algos = [type('x', (), {})] + [a.scheduler for a in ags]
    return NeuralManager(ags, Says(case['algo']), Says([[1] * len(a) for a in case['agents'][0]['con']]), algos, order, [None] * len(order)).manage_blocks()


def judge(case, out, got):
    log, ags, wgs, res, bg = got
    names = [a.name for a in ags]
    use = {}
    for b, sb in res.items():
        a = names.index(sb.agent.name)
        if sb.agent is not ags[a]:
            out.bad('agent', 'block %d is done by a stranger; %s' % (b, case))
        w = dict(block(case, b), con=case['agents'][a]['con'])
        recs, dup = ref.as_records(sb.schedule)
        begin = recs[wgs[b].start.id]['start'] if wgs[b].start.id in recs else -1  # a manager may count from the first work instead
        busy = min([r['start'] for r in recs.values() if r['team']], default=begin)
        if not begin <= int(sb.start_time) <= busy:
            out.bad('start', 'block %d starts %s, its start node %d, its first work %d; %s' % (b, sb.start_time, begin, busy, case))
        bad = ref.judge(w, wgs[b], strip(recs), dup, start=begin)
        if case.get('dev', 1) > 1:
            bad = [x for x in bad if x[0] != 'duration']
        for asp, d in bad:
            out.bad('block:' + asp, 'block %d by agent %d (%s): %s; %s' % (b, a, case['agents'][a]['s'], d, case))
        if bad:
            return
        last = max(r['finish'] for r in recs.values())
        if int(sb.end_time) != last:
            out.bad('end', 'block %d ends %s, its last work %d; %s' % (b, sb.end_time, last, case))
        if sb.wg is not wgs[b]:
            out.bad('wg', 'block %d carries another graph; %s' % (b, case))
        for p, c in case['bedges']:
            if c == b and begin < int(res[p].end_time):
                out.bad('parent', 'block %d starts %s, its parent %d ends %s; %s' % (b, sb.start_time, p, res[p].end_time, case))
        head = W.chain_heads(len(w['works']), w['edges'])
        ids = w['ids']
        for h in set(head):
            tail = max(recs[ids[i]]['finish'] for i in range(len(ids)) if head[i] == h)
            for k, c in recs[ids[h]]['team'].items():
                use.setdefault((a, recs[ids[h]]['con'], k), []).append((recs[ids[h]]['start'], tail, c, ids[h]))
        out.transitions += len(recs)
    for (a, con, k), iv in use.items():
        cap = case['agents'][a]['con'][int(con.split('_c')[1])][k]
        for t in {x[0] for x in iv}:
            tot = sum(c for s, f, c, _ in iv if s <= t < f)
            if tot > cap:
                out.bad('crew', 'agent %d: %d %s of %s busy at %d, owns %d (%s); %s' % (a, tot, k, con, t, cap, sorted(iv), case))
                return
    out.state(sorted((b, sb.agent.name, int(sb.start_time), int(sb.end_time)) for b, sb in res.items()))
    try:
        validate_block_schedule(bg, {v.id: v for v in res.values()}, ags)
    except AssertionError as e:
        out.bad('validate', 'a correct result is rejected: %r; %s' % (e, case))
    # the statistics of the agents
    for a, ag in enumerate(ags):
        if case.get('m') == 'stoch' and ag.scheduler.work_estimator.mode != WorkerProductivityMode.Static:
            out.bad('mode', 'the estimator of agent %d is left stochastic; %s' % (a, case))
        mine = [sb for sb in res.values() if sb.agent is ag]
        end = max([int(sb.end_time) for sb in mine], default=0)
        if int(ag.end_time) != end:
            out.bad('agent-end', 'agent %d says it is done at %s, its last block ends %d; %s' % (a, ag.end_time, end, case))
        horizon = max(int(sb.start_time) for sb in res.values())
        if not 0 <= int(ag.downtime) <= max(horizon, end):
            out.bad('downtime', 'agent %d has been idle for %s of %d; %s' % (a, ag.downtime, max(horizon, end), case))


def winners(case, out, got):
    """replays the auctions: at every one of them each agent is asked alone, with only the blocks it has won booked before"""
    log, ags, wgs, res, bg = got
    auctions = []  # (block, moment) in the order in which they were held
    for kind, name, wg, s, e in log:
        if wg is not None and not any(wg is wgs[b] for b, _ in auctions):
            auctions.append((next(b for b in res if wgs[b] is wg), s))
    confirmed = sorted((name, s, e) for kind, name, wg, s, e in log if kind == 'confirm')
    if confirmed != sorted((sb.agent.name, int(sb.start_time), int(sb.end_time)) for sb in res.values()):
        out.bad('confirm', 'confirmed: %s; %s' % (confirmed, case))
        return
    alone = agents(case, [], cls=Recorder)
    sch = {a.name: a for a in alone}
    tl = {a.name: None for a in alone}
    for b, s in auctions:
        sb = res[b]
        name = sb.agent.name
        ends = {}
        new = {}
        for a, ag in sch.items():
            try:
                with sched.Quiet():
                    r = ag.scheduler.schedule_with_cache(wgs[b], ag.contractors, assigned_parent_time=Time(s), timeline=copy.deepcopy(tl[a]))[0]
            except sched.REFUSALS:
                continue
            ends[a] = int(r[0].execution_time)
            new[a] = r
        if ends.get(name) != min(ends.values()):
            out.bad('winner', 'block %d went to %s; the agents would finish it at %s; %s' % (b, name, ends, case))
            return
        if ref.as_records(new[name][0]) != ref.as_records(sb.schedule):
            out.bad('offer', 'block %d: %s, on its own %s gives %s; %s' % (b, ref.brief(ref.as_records(sb.schedule)[0]), name, ref.brief(ref.as_records(new[name][0])[0]), case))
            return
        tl[name] = new[name][2]


def run(case, out):
    got = manage(case, out, {'stoch': StochasticManager, 'plain': Manager, 'neural': neural}[case.get('m', 'plain')])
    out.nontrivial = got is not None and len(case['blocks']) > 1
    if got is None:
        return
    judge(case, out, got)
    # the genetic scheduler draws from its generator at every offer, so its offers cannot be asked for again
    if not out.viol and case.get('m', 'plain') != 'neural' and case.get('dev', 1) == 1 and not any(a['s'].startswith('ga') for a in case['agents']):
        winners(case, out, got)
    out.sample = sorted((b, sb.agent.name, int(sb.start_time), int(sb.end_time)) for b, sb in got[3].items())


# ---------------------------------------------------------------- merging
def closure(edges, n):
    r = {(a, b) for a, b in edges}
    for k in range(n):
        r |= {(i, j) for i in range(n) for j in range(n) if (i, k) in r and (k, j) in r}
    return r


def run_merge(case, out):
    """the merged graph holds every work of every block once, and orders exactly the works the blocks and the block graph order"""
    wgs, bg = graph(case)
    before = [sorted((e.start.id, e.finish.id) for nd in wg.nodes for e in nd.edges_to) for wg in wgs]
    out.nontrivial = bool(case['bedges'])
    n = len(wgs)
    idx = {wgs[b].start.id: b for b in range(n)}
    order = [idx[x.id] for x in bg.toposort()]
    if sorted(order) != list(range(n)) or any(order.index(a) > order.index(b) for a, b in case['bedges']):
        out.bad('toposort', 'order %s; %s' % (order, case))
    for name, g in (('copy', copy.copy(bg)), ('merge', None)):
        if g is None:
            continue
        e = sorted((idx[x.id], idx[y.id]) for x in g.nodes for y in x.blocks_to)
        f = sorted((idx[y.id], idx[x.id]) for x in g.nodes for y in x.blocks_from)
        if e != sorted(map(tuple, case['bedges'])) or f != e:
            out.bad('copy', 'the copy of the block graph has edges %s (backwards %s); %s' % (e, f, case))
    big = bg.to_work_graph()
    gc.collect()
    out.execs += 1
    ids, reach = {}, set()
    works = {}
    for b in range(n):
        for i in range(len(case['blocks'][b]['works'])):
            works['b%dw%d' % (b, i)] = (b, i)
    got = [x.id for x in big.nodes if x.id in works]
    if sorted(got) != sorted(works):
        out.bad('works', 'the merged graph has works %s, not %s; %s' % (sorted(got), sorted(works), case))
        return
    nodes = [x.id for x in big.nodes]
    ids = {x: i for i, x in enumerate(nodes)}
    if len(ids) != len(nodes):
        out.bad('twice', 'the merged graph has nodes twice: %s; %s' % (nodes, case))
        return
    cl = closure([(ids[e.start.id], ids[e.finish.id]) for x in big.nodes for e in x.edges_from], len(nodes))
    cl = {(nodes[a], nodes[b]) for a, b in cl}
    bcl = closure([tuple(e) for e in case['bedges']], n)
    inner = [closure([tuple(e[:2]) for e in case['blocks'][b]['edges']], len(case['blocks'][b]['works'])) for b in range(n)]
    for x, y in itertools.permutations(works, 2):
        (bx, ix), (by, iy) = works[x], works[y]
        want = (ix, iy) in inner[bx] if bx == by else (bx, by) in bcl
        if want != ((x, y) in cl):
            out.bad('order', '%s %s before %s in the merged graph; %s' % (x, 'has to be' if want else 'must not be', y, case))
            return
    for x in works:
        if (big.start.id, x) not in cl or (x, big.finish.id) not in cl:
            out.bad('ends', '%s is not between the start and the finish of the merged graph; %s' % (x, case))
    after = [sorted((e.start.id, e.finish.id) for nd in wg.nodes for e in nd.edges_to) for wg in wgs]
    if before != after:
        out.bad('original', 'merging changed the blocks; %s' % (case,))
    out.transitions += len(cl)
    out.state(sorted(cl))


# ---------------------------------------------------------------- unforeseen works
class Fixed(Random):
    """the choices of the obstruction, enumerated"""

    def __init__(self, picks):
        super().__init__(0)
        self.picks = list(picks)
        self.asked = []

    def random(self):
        return 0.5

    def sample(self, seq, k, **kw):
        seq = list(seq)
        self.asked.append(len(seq))
        return [seq[self.picks.pop(0) % len(seq)] if self.picks else seq[0]]


def run_insert(case, out):
    """an obstruction inserts the works at every point it may pick; the block then is a valid project with all of them"""
    extra = dict(case['extra'], ids=['x%d' % i for i in range(len(case['extra']['works']))], gseed=9)
    keep = []

    def insert(_):
        keep.append(W.build_graph(extra))
        return keep[-1] if case['picks'][1] else keep.pop()
    rand = Fixed(case['picks'])
    if len(case['picks']) > 2:
        static = W.build_graph(extra)
        obst = OneInsertObstruction.from_static_graph(case['p'], rand, static)
    else:
        obst = OneInsertObstruction(case['p'], rand, insert)
    wgs, bg = graph(dict(case, bedges=[]), lambda i: obst)
    before = {e for nd in wgs[0].nodes for e in [(c.start.id, c.finish.id) for c in nd.edges_from]}
    fin = wgs[0].finish.id
    log = []
    ags = agents(case, log)
    with sched.Quiet():
        res = Manager(ags).manage_blocks(bg)
    out.execs += 1
    sb = next(iter(res.values()))
    wg = sb.wg
    hit = case['p'] > 0.5
    out.nontrivial = hit
    want = {'b0w%d' % i for i in range(len(case['blocks'][0]['works']))} | ({'x%d' % i for i in range(len(extra['works']))} if hit else set())
    recs, dup = ref.as_records(sb.schedule)
    got = {k for k in recs if k in want or k[0] in 'bx' and 'w' in k or k[:1] == 'x'}
    if got != want or dup:
        out.bad('insert-works', 'scheduled %s, not %s; %s' % (sorted(got), sorted(want), case))
        return
    e = {(c.start.id, c.finish.id) for nd in wg.nodes for c in nd.edges_from}
    if not before <= e:
        out.bad('insert-edges', 'edges %s are lost; %s' % (sorted(before - e), case))
    nodes = [x.id for x in wg.nodes]
    ids = {x: i for i, x in enumerate(nodes)}
    cl = closure([(ids[a], ids[b]) for a, b in e], len(nodes))
    for a, b in cl:
        if recs[nodes[b]]['start'] < recs[nodes[a]]['finish']:
            out.bad('insert-order', '%s starts before %s finishes; %s' % (nodes[b], nodes[a], case))
    if wg.finish.id != fin or wg.start.id != sb.id:
        out.bad('insert-ends', 'the block has another start or finish; %s' % (case,))
    for x in want:
        if (ids[x], ids[wg.finish.id]) not in cl or (ids[wg.start.id], ids[x]) not in cl:
            out.bad('insert-between', '%s is not between the start and the finish of its block; %s' % (x, case))
    if hit:
        for a, b in [('x%d' % a, 'x%d' % b) for a, b, *_ in extra['edges']]:
            if (ids[a], ids[b]) not in cl:
                out.bad('insert-inner', 'the inserted works lost their order; %s' % (case,))
        # inserted "into" a point: after the picked work, and before the picked follower, as a whole
        if not any(all((ids[w], ids['x%d' % i]) in cl for i in range(len(extra['works']))) for w in nodes if w not in want or w[0] == 'b'):
            out.bad('insert-point', 'nothing precedes the inserted works; %s' % (case,))
    if max(r['finish'] for r in recs.values()) != recs[wg.finish.id]['finish'] or int(sb.end_time) != recs[wg.finish.id]['finish']:
        out.bad('insert-end', 'the block ends before its works; %s' % (case,))
    out.state(sorted((k, r['start'], r['finish']) for k, r in recs.items()))
    out.transitions += len(cl)


# ---------------------------------------------------------------- cases
D1, DF, F1, D2 = fams.D1, fams.DF, fams.F1, fams.D2
ONE = {'works': [D1], 'edges': []}
PAR = {'works': [D1, DF], 'edges': []}
SEQ = {'works': [D1, F1], 'edges': [(0, 1, 3, 'FS')]}
INS = {'works': [D1, DF], 'edges': [(0, 1, 0, 'IFS')]}
BIG = {'works': [dict(fams.D13), F1], 'edges': []}
NO = {'works': [], 'edges': []}
C21 = [{'driver': 2, 'fitter': 1}]
C32 = [{'driver': 3, 'fitter': 2}]
ONLYD = [{'driver': 2}]
TWOC = [{'driver': 1, 'fitter': 1}, {'driver': 2, 'fitter': 1}]
POOLS = [[('heft', C21)], [('heft', C21), ('between', C32)], [('topo', C32), ('lft', C21)], [('between', TWOC)], [('heft_avg', C32), ('heft', TWOC)], [('heft_mom', C21), ('heft', ONLYD)],
         [('ga_par', C21)], [('ga_ser', C21), ('topo', C21)], [('lft', TWOC), ('between', ONLYD), ('heft', C21)]]


def dags(n):
    ps = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for k in range(len(ps) + 1):
        yield from itertools.combinations(ps, k)


def g_pairs(t):
    """2 blocks of every shape, every block graph, every pool of agents"""
    for bl in itertools.product([ONE, PAR, SEQ, INS, BIG], repeat=2):
        for e in ([], [(0, 1)], [(1, 0)]):
            for p in POOLS:
                yield {'blocks': list(bl), 'bedges': e, 'agents': [{'s': s, 'con': c} for s, c in p]}


def g_three(t):
    """3 blocks, every block graph, every pool"""
    for bl in itertools.product([ONE, PAR, INS] if t == 'quick' else [ONE, PAR, SEQ, INS, BIG], repeat=3):
        for e in dags(3):
            for p in POOLS[:6] if t == 'quick' else POOLS:
                yield {'blocks': list(bl), 'bedges': [list(x) for x in e], 'agents': [{'s': s, 'con': c} for s, c in p]}


def g_able(t):
    """agents that cannot do some of the blocks, down to nobody who can"""
    for bl in itertools.product([ONE, PAR, {'works': [F1], 'edges': []}], repeat=2):
        for e in ([], [(0, 1)]):
            for cons in itertools.product([ONLYD, [{'fitter': 1}], C21, [{'driver': 1, 'fitter': 1}]], repeat=2):
                for s in ('heft', 'between', 'topo', 'lft') + (('ga_par', 'ga_ser') if t != 'quick' else ()):
                    for m in ('plain', 'stoch'):
                        yield {'blocks': list(bl), 'bedges': e, 'agents': [{'s': s, 'con': c} for c in cons], 'm': m}


def g_stoch(t):
    """the cautious manager, with works that take as long as estimated or twice as long"""
    for bl in itertools.product([ONE, PAR, BIG], repeat=2 if t == 'quick' else 3):
        for e in dags(len(bl)):
            for p, dev in itertools.product(POOLS, (1, 2)):
                yield {'blocks': list(bl), 'bedges': [list(x) for x in e], 'agents': [{'s': s, 'con': c} for s, c in p], 'm': 'stoch', 'dev': dev}


def g_neural(t):
    """the manager that predicts the algorithm, for every prediction"""
    for bl in itertools.product([ONE, PAR, BIG], repeat=2):
        for e in dags(2):
            for p in ([('heft', C21), ('between', C32)], [('topo', C32), ('lft', C21)], [('heft', C21), ('heft', C32), ('topo', C21)]):
                for algo in range(len(p) + 1):
                    yield {'blocks': list(bl), 'bedges': [list(x) for x in e], 'agents': [{'s': s, 'con': c} for s, c in p], 'm': 'neural', 'algo': algo}


def g_merge(t):
    """every block graph of up to 4 blocks"""
    shapes = [ONE, PAR, SEQ, INS, NO]
    for n in (1, 2, 3):
        for bl in itertools.product(shapes, repeat=n):
            for e in dags(n):
                yield {'blocks': list(bl), 'bedges': [list(x) for x in e]}
    for bl in itertools.product([ONE] if t == 'quick' else [ONE, SEQ], repeat=4):
        for e in dags(4):
            yield {'blocks': list(bl), 'bedges': [list(x) for x in e]}
    for bl in itertools.product([ONE, PAR], repeat=3):  # listed against the order of the edges
        for e in dags(3):
            yield {'blocks': list(bl), 'bedges': [[2 - a, 2 - b] for a, b in e]}


def g_insert(t):
    """the unforeseen works inserted at every node and every follower of it"""
    for bl in (ONE, PAR, SEQ, INS, NO):
        for ex in (ONE, PAR, SEQ):
            for p in (1, 0.2):
                for i in range(len(bl['works']) + 2):
                    for j in range(2 if p == 1 else 1):
                        for s, more in itertools.product(('heft', 'topo', 'lft', 'between') if t == 'quick' else sched.SCHEDULERS, ([], [0])):
                            yield {'blocks': [bl], 'bedges': [], 'extra': ex, 'p': p, 'picks': [i, j] + more, 'agents': [{'s': s, 'con': C32}]}


FAMILIES = [core.Family('pairs', g_pairs, run), core.Family('three', g_three, run), core.Family('able', g_able, run), core.Family('stoch', g_stoch, run),
            core.Family('neural', g_neural, run), core.Family('merge', g_merge, run_merge), core.Family('insert', g_insert, run_insert)]
