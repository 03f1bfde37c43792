import gc
import itertools

from mc import core, snap
from mc import worlds as W
from mc.checks import c17
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit

RULE = 'every history of added edges, with and without queries in between; after every step all queries of all works are compared with plain edge lists'
DEPS = ('FS', 'IFS', 'FFS')


def unit(i, pri=1):
    return WorkUnit('w%d' % i, {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i}, worker_reqs=[WorkerReq('driver', Time(3 + i), 1, 2 + i)], priority=pri, volume=i + 0.5,
                    display_name='n%d' % i)


def check(nodes, edges, text, out):
    """edges: (a, b, lag, type) in the order in which they were added"""
    for i, n in enumerate(nodes):
        to = [e for e in edges if e[1] == i]
        frm = [e for e in edges if e[0] == i]
        name = lambda l: [x.id for x in l]
        exp = {
            'edges_to': [('w%d' % a, 'w%d' % b, l, t) for a, b, l, t in to], 'edges_from': [('w%d' % a, 'w%d' % b, l, t) for a, b, l, t in frm],
            'parents': ['w%d' % e[0] for e in to if e[3] in DEPS], 'children': ['w%d' % e[1] for e in frm if e[3] in DEPS],
            'parents_set': {'w%d' % e[0] for e in to if e[3] in DEPS}, 'children_set': {'w%d' % e[1] for e in frm if e[3] in DEPS},
            'son': next(('w%d' % e[1] for e in frm if e[3] == 'IFS'), None), 'parent': next(('w%d' % e[0] for e in to if e[3] == 'IFS'), None),
            'neighbors': ['w%d' % e[0] for e in to if e[3] == 'SS'],
        }
        chain = [i]
        while True:
            nx = next((e[1] for e in edges if e[0] == chain[-1] and e[3] == 'IFS'), None)
            if nx is None:
                break
            chain.append(nx)
        exp['chain'] = None if exp['parent'] or not exp['son'] else ['w%d' % x for x in chain]
        exp['with_self'] = exp['chain'] or ['w%d' % i]
        rec = lambda l: [(e.start.id, e.finish.id, e.lag, e.type.value) for e in l]
        c = n.get_inseparable_chain()
        got = {'edges_to': rec(n.edges_to), 'edges_from': rec(n.edges_from), 'parents': name(n.parents), 'children': name(n.children), 'parents_set': set(name(n.parents_set)),
               'children_set': set(name(n.children_set)), 'son': n.inseparable_son.id if n.is_inseparable_parent() else None,
               'parent': n.inseparable_parent.id if n.is_inseparable_son() else None, 'neighbors': name(n.neighbors), 'chain': None if c is None else name(c),
               'with_self': name(n.get_inseparable_chain_with_self())}
        for k in exp:
            if exp[k] != got[k]:
                out.bad('query:%s' % k, '%s of w%d: %s, expected %s; %s' % (k, i, got[k], exp[k], text))
        if any(nodes[int(e.start.id[1:])] is not e.start for e in n.edges_to) or (c and any(nodes[int(x.id[1:])] is not x for x in c)):
            out.bad('query:foreign', 'a query of w%d leads to a work of another graph; %s' % (i, text))


OPS = [(0, 1, 0, 'FS'), (0, 1, 2, 'SS'), (0, 1, 0, 'IFS'), (1, 2, 0, 'IFS'), (0, 2, 3, 'FS'), (1, 2, 1.5, 'FFS'), (1, 2, 1, 'FF'), (0, 2, 1, 'SS')]


def hist_gen(t):
    ops = OPS if t == 'quick' else OPS + [(0, 1, -1, 'FS'), (1, 3, 0, 'IFS'), (2, 3, 0, 'FS')]
    for d in range(1, 5):
        for seq in itertools.permutations(range(len(ops)), d):
            e = [ops[k] for k in seq]
            ifs = [x for x in e if x[3] == 'IFS']
            if len({x[0] for x in ifs}) < len(ifs) or len({x[1] for x in ifs}) < len(ifs):
                continue
            for mode in range(3):
                yield {'edges': [list(x) for x in e], 'n': 4, 'mode': mode}


def hist_run(case, out):
    """mode 0: one edge at a time, tuples; 1: without queries in between; 2: plain FS edges as works, several at once where possible"""
    nodes = [GraphNode(unit(i), []) for i in range(case['n'])]
    done = []
    out.nontrivial = True
    for k, (a, b, lag, t) in enumerate(case['edges']):
        if case['mode'] == 2 and t == 'FS':
            nodes[b].add_parents([nodes[a]])
            done.append((a, b, 0, 'FS'))
        else:
            nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
            done.append((a, b, lag, t))
        out.transitions += 1
        if case['mode'] != 1:
            check(nodes, done, '%s after %d steps' % (case, k + 1), out)
    check(nodes, done, str(case), out)
    out.execs += 1
    out.state([sorted(done)])


def graph_gen(t):
    q = t == 'quick'
    kinds = [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'SS'), (2, 'FF'), (0.5, 'FFS')]
    for e in c17.graphs(3, kinds):
        yield {'n': 3, 'edges': e, 'pri': [1, 2, 3]}
    for e in c17.graphs(4, [(0, 'FS'), (0, 'IFS')] if q else kinds[:4]):
        yield {'n': 4, 'edges': e, 'pri': [1, 1, 3, 2]}


def graph_run(case, out):
    n, e = case['n'], [tuple(x) for x in case['edges']]
    nodes = [GraphNode(unit(i, case['pri'][i]), []) for i in range(n)]
    for a, b, lag, t in e:
        nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
    order = case.get('order') or list(range(n))
    wg = WorkGraph.from_nodes([nodes[i] for i in order])
    out.nontrivial = bool(e)
    heads = [i for i in range(n) if not any(x[1] == i and x[3] in DEPS for x in e)]
    tails = [i for i in range(n) if not any(x[0] == i and x[3] in DEPS for x in e)]
    got = c17.edges_of(wg)
    s, f = wg.start.id, wg.finish.id
    exp = [('w%d' % a, 'w%d' % b, lag, t) for a, b, lag, t in e] + [(s, 'w%d' % i, 0, 'FS') for i in heads] + [('w%d' % i, f, 0, 'FS') for i in tails]
    if sorted(got) != sorted(exp):
        out.bad('frame', 'edges of the graph: %s, expected %s; %s' % (sorted(got), sorted(exp), case))
    if wg.finish.work_unit.priority != max(case['pri'][i] for i in tails) or not wg.start.work_unit.is_service_unit or not wg.finish.work_unit.is_service_unit or \
            wg.start.work_unit.worker_reqs or wg.finish.work_unit.worker_reqs:
        out.bad('ends', 'attributes of start or finish; %s' % case)
    c17.consistent(wg, out, str(case))
    for x in [s, f] + ['w%d' % i for i in range(n)]:
        if wg[x].id != x:
            out.bad('index', 'index of %s; %s' % (x, case))
    for req in (False, True):
        df = wg.to_frame(save_req=req)
        rows = {r['activity_id']: r for r in df.to_dict('records')}
        if len(df) != n or set(rows) != {'w%d' % i for i in range(n)}:
            out.bad('table', 'works in the table: %s; %s' % (list(df.activity_id), case))
            continue
        for i in range(n):
            r = rows['w%d' % i]
            ps = [x for x in e if x[1] == i]
            exp = {'activity_name': 'n%d' % i, 'granular_name': 'g%d' % i, 'measurement': 'm%d' % i, 'volume': i + 0.5, 'priority': case['pri'][i],
                   'predecessor_ids': ','.join('w%d' % x[0] for x in ps), 'lags': ','.join(str(x[2]) for x in ps), 'connection_types': ','.join(x[3] for x in ps)}
            if req:
                exp.update(min_req={'driver': 1}, max_req={'driver': 2 + i}, req_volume={'driver': 3 + i})
            for k, v in exp.items():
                if r[k] != v:
                    out.bad('table:%s' % k, '%s of w%d in the table: %r, expected %r; %s' % (k, i, r[k], v, case))
    out.execs += 1
    out.transitions += n
    out.state([case])


def two_gen(t):
    es = list(c17.graphs(3, [(0, 'FS'), (0, 'IFS')]))
    for a, b in itertools.product(range(len(es)), repeat=2):
        yield {'a': es[a], 'b': es[b]}


def two_run(case, out):
    """two graphs with equal ids live side by side; one of them is dropped"""
    def mk(e):
        nodes = [GraphNode(unit(i), []) for i in range(3)]
        for a, b, lag, t in e:
            nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
        return nodes
    out.nontrivial = case['a'] != case['b']
    a, b = mk(case['a']), mk(case['b'])
    check(a, [tuple(x) for x in case['a']], 'first of %s' % case, out)
    check(b, [tuple(x) for x in case['b']], 'second of %s' % case, out)
    wa, wb = WorkGraph.from_nodes(a), WorkGraph.from_nodes(b)
    c17.touched(wa, out)
    c17.touched(wb, out)
    sb = snap.graph(wb)
    del wa, a
    gc.collect()
    d = snap.diff(sb, snap.graph(wb))
    if d:
        out.bad('drop', 'dropping a graph changed another: %s; %s' % (d, case))
    c17.consistent(wb, out, 'second of %s after the first was dropped' % case)
    out.execs += 2
    out.state([case])


FAMILIES = [core.Family('histories', hist_gen, hist_run, 'all sequences of up to 4 of 8 (thorough 11) edges over 4 works, three ways of adding'),
            core.Family('graphs', graph_gen, graph_run, 'all graphs of 3 works over 6 edge kinds and of 4 over 2 (thorough 4): start, finish, order, index, table'),
            core.Family('pairs', two_gen, two_run, 'all pairs of graphs of 3 works with equal ids')]
