import itertools

from mc import core, snap
from mc import worlds as W
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, MaterialReq, WorkerReq, ZoneReq
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.structurator import graph_in_graph_insertion, work_graph_ids_simplification
from sampo.structurator.delete_graph_node import delete_graph_node
from sampo.structurator.insert_wu import insert_work_unit
from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy

RULE = 'every edit of every graph of the family; works, attributes and edges of the result are compared with the edit applied to plain sets; the original is compared before and after'
DEPS = ('FS', 'IFS', 'FFS')


def unit(name, i=0):
    return WorkUnit(name, {'granular_name': 'g' + name, 'measurement': 'm' + name}, worker_reqs=[WorkerReq('driver', Time(3 + i), 1, 2)], equipment_reqs=[EquipmentReq('e', 1)],
                    object_reqs=[ConstructionObjectReq('o', 2)], material_reqs=[MaterialReq('m', 1 + i)], zone_reqs=[ZoneReq('z', 1)], description='d' + name,
                    group='g%d' % (i % 2), priority=1 + i // 2, volume=3.5 + i, display_name='n' + name)


def build(n, edges, prefix='w'):
    nodes = [GraphNode(unit('%s%d' % (prefix, i), i), []) for i in range(n)]
    for a, b, lag, t in edges:
        nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
    return WorkGraph.from_nodes(nodes)


def edges_of(wg):
    return [(e.start.id, e.finish.id, e.lag, e.type.value) for n in wg.nodes for e in n.edges_to]


def attrs(wu):
    d = snap.obj(wu)
    d.pop('id')
    return d


def consistent(wg, out, text):
    """both directions of every edge are there, queries agree with the edges, the order is topological"""
    ids = [n.id for n in wg.nodes]
    if len(set(ids)) != len(ids) or set(wg.dict_nodes) != set(ids) or wg.vertex_count != len(ids):
        out.bad('index', 'ids %s, index %s; %s' % (ids, sorted(wg.dict_nodes), text))
    pos = {x: i for i, x in enumerate(ids)}
    fwd = sorted((e.start.id, e.finish.id, e.lag, e.type.value) for n in wg.nodes for e in n.edges_from)
    if fwd != sorted(edges_of(wg)):
        out.bad('sides', 'outgoing edges %s, incoming %s; %s' % (fwd, sorted(edges_of(wg)), text))
        return
    for n in wg.nodes:
        if any(e.finish is not n or wg[e.start.id] is not e.start for e in n.edges_to) or any(e.start is not n or wg[e.finish.id] is not e.finish for e in n.edges_from):
            out.bad('foreign', 'an edge of %s leads to a node of another graph; %s' % (n.id, text))
        if [p.id for p in n.parents] != [e.start.id for e in n.edges_to if e.type.value in DEPS] or \
                [c.id for c in n.children] != [e.finish.id for e in n.edges_from if e.type.value in DEPS] or \
                {p.id for p in n.parents_set} != {p.id for p in n.parents} or {p.id for p in n.children_set} != {p.id for p in n.children}:
            out.bad('queries', 'parents/children of %s: %s/%s, edges %s; %s' % (n.id, [p.id for p in n.parents], [c.id for c in n.children], edges_of(wg), text))
        son = [e.finish.id for e in n.edges_from if e.type.value == 'IFS']
        par = [e.start.id for e in n.edges_to if e.type.value == 'IFS']
        if (n.inseparable_son.id if n.inseparable_son else None) != (son[0] if son else None) or \
                (n.inseparable_parent.id if n.inseparable_parent else None) != (par[0] if par else None):
            out.bad('chain', 'chain neighbours of %s; %s' % (n.id, text))
        if any(pos[e.start.id] > pos[n.id] for e in n.edges_to):
            out.bad('order', 'nodes %s are not in topological order of %s; %s' % (ids, edges_of(wg), text))
    if wg.nodes and (wg.nodes[0] is not wg.start or wg.nodes[-1] is not wg.finish):
        out.bad('ends', 'the nodes start with %s and end with %s; %s' % (ids[0], ids[-1], text))


def reach(nodes, edges):
    r = {x: set() for x in nodes}
    for x in nodes:
        todo = [x]
        while todo:
            y = todo.pop()
            for a, b, lag, t in edges:
                if a == y and t in DEPS and b not in r[x]:
                    r[x].add(b)
                    todo.append(b)
    return r


def touched(wg, out):
    """fill the lazily computed queries, as schedulers do"""
    for n in wg.nodes:
        n.parents, n.children, n.parents_set, n.children_set, n.inseparable_son, n.inseparable_parent, n.get_inseparable_chain()


def named(res, wg, slave, case, out):
    """give the works of a result with new ids the old ids back (names are unique)"""
    if not case['new']:
        return res
    old = {x.work_unit.model_name['granular_name']: x.id for g in (slave, wg) if g for x in g.nodes}
    used = {x.id for g in (slave, wg) if g for x in g.nodes}
    for x in res.nodes:
        if x.work_unit.model_name['granular_name'] != 'gnew':
            if x.id in used:
                out.bad('same-id', 'work %s kept its id; %s' % (x.id, case))
            x.work_unit.id = old.get(x.work_unit.model_name['granular_name'], x.id)
    res.reinit()
    return res


def run(case, out):
    op = case['op']
    wg = build(case['n'], case['edges'])
    touched(wg, out)
    before = snap.graph(wg)
    e0 = edges_of(wg)
    ids0 = [x.id for x in wg.nodes]
    text = '%s on %s' % (case, e0)
    out.nontrivial = len(case['edges']) > 0
    keep = {i: i for i in ids0}
    if op == 'copy':
        nodes, m = prepare_work_graph_copy(wg, [wg[x] for x in case['skip']], case['simple'], case['off'], case['ch'])
        left = [i for i in ids0 if i not in case['skip']]
        keep = m
        if sorted(m) != sorted(left) or len(set(m.values())) != len(left) or sorted(nodes) != sorted(m.values()):
            out.bad('ids', 'mapping %s, copied %s; %s' % (m, sorted(nodes), text))
            return
        if not case['ch'] and not case['simple'] and any(a != b for a, b in m.items()):
            out.bad('ids', 'ids were changed: %s; %s' % (m, text))
        got = sorted((e.start.id, e.finish.id, e.lag, e.type.value) for x in nodes.values() for e in x.edges_to)
        exp = sorted((m[a], m[b], lag, t) for a, b, lag, t in e0 if a in m and b in m)
        new = {k: v.work_unit for k, v in nodes.items()}
        if got != exp:
            out.bad('edges', 'edges of the copy %s, expected %s; %s' % (got, exp, text))
    elif op == 'simplify':
        res = work_graph_ids_simplification(wg, case['off'])
        consistent(res, out, text)
        keep = {a: str(case['off'] + i) for i, a in enumerate(ids0)}
        new = {x.id: x.work_unit for x in res.nodes}
        if sorted(edges_of(res)) != sorted((keep[a], keep[b], lag, t) for a, b, lag, t in e0):
            out.bad('edges', 'simplified edges %s; %s' % (edges_of(res), text))
    elif op == 'delete':
        res = named(delete_graph_node(wg, case['x'], change_id=case['new']), wg, None, case, out)
        head = {b: a for a, b, lag, t in e0 if t == 'IFS'}
        son = {a: b for a, b, lag, t in e0 if t == 'IFS'}
        x = case['x']
        while x in head:
            x = head[x]
        gone = {x}
        while x in son:
            x = son[x]
            gone.add(x)
        keep = {i: i for i in ids0 if i not in gone}
        consistent(res, out, text)
        new = {y.id: y.work_unit for y in res.nodes}
        if set(new) != set(keep):
            out.bad('deleted', 'left %s, expected %s; %s' % (sorted(new), sorted(keep), text))
            return
        rest = [e for e in e0 if e[0] in keep and e[1] in keep]
        got = edges_of(res)
        if any(got.count(e) < rest.count(e) for e in rest):
            out.bad('lost', 'edges between other works were lost: %s; %s' % (got, text))
        if reach(keep, got) != {a: {b for b in r if b in keep} for a, r in reach(ids0, e0).items() if a in keep}:
            out.bad('order-lost', 'the order of the remaining works changed: %s; %s' % (got, text))
        if any(t != 'FS' or lag != 0 for a, b, lag, t in got if (a, b, lag, t) not in rest):
            out.bad('new-edge', 'new edges %s; %s' % ([e for e in got if e not in rest], text))
    elif op == 'insert':
        wu = unit('new', 7)
        mk = lambda es: [wg[x] if case['plain'] else (wg[x], lag, EdgeType(t)) for x, lag, t in es]
        res = named(insert_work_unit(wg, wu, mk(case['pa']), mk(case['ch']), change_id=case['new']), wg, None, case, out)
        consistent(res, out, text)
        new = {y.id: y.work_unit for y in res.nodes}
        if set(new) != set(keep) | {'new'}:
            out.bad('inserted', 'the graph has %s; %s' % (sorted(new), text))
            return
        if attrs(new.pop('new')) != attrs(unit('new', 7)):
            out.bad('attribute', 'the inserted work was changed')
        exp = e0 + [(x, 'new', 0 if case['plain'] else lag, 'FS' if case['plain'] else t) for x, lag, t in case['pa']] + \
            [('new', x, 0 if case['plain'] else lag, 'FS' if case['plain'] else t) for x, lag, t in case['ch']]
        if sorted(edges_of(res)) != sorted(exp):
            out.bad('edges', 'edges %s, expected %s; %s' % (sorted(edges_of(res)), sorted(exp), text))
    else:
        slave = build(case['sn'], case['sedges'], 's')
        touched(slave, out)
        sb = snap.graph(slave)
        res = named(graph_in_graph_insertion(wg, wg[case['from']], wg[case['to']], slave, change_id=case['new']), wg, slave, case, out)
        d = snap.diff(sb, snap.graph(slave))
        if d:
            out.bad('original', 'the inserted graph was changed: %s; %s' % (d, text))
        consistent(res, out, text)
        new = {y.id: y.work_unit for y in res.nodes}
        inner = [x.id for x in slave.nodes[1:-1]]
        if set(new) != set(keep) | set(inner):
            out.bad('inserted', 'the graph has %s; %s' % (sorted(new), text))
            return
        m = {slave.start.id: case['from'], slave.finish.id: case['to']}
        exp = e0 + [(m.get(a, a), m.get(b, b), lag, t) for a, b, lag, t in edges_of(slave)]
        if sorted(edges_of(res)) != sorted(exp):
            out.bad('edges', 'edges %s, expected %s; %s' % (sorted(edges_of(res)), sorted(exp), text))
        for x in slave.nodes[1:-1]:
            if attrs(new.pop(x.id)) != attrs(x.work_unit):
                out.bad('attribute', 'work %s was changed' % x.id)
    d = snap.diff(before, snap.graph(wg))
    if d:
        out.bad('original', 'the original graph was changed: %s; %s' % (d, text))
    for a, b in keep.items():
        if attrs(new[b]) != attrs(wg[a].work_unit):
            out.bad('attribute', 'work %s: %s' % (a, snap.diff(attrs(wg[a].work_unit), attrs(new[b]))))
            break
        if new[b].worker_reqs is wg[a].work_unit.worker_reqs or new[b].model_name is wg[a].work_unit.model_name:
            out.bad('shared', 'the copy of %s shares data with the original' % a)
            break
    out.execs += 1
    out.transitions += len(keep)
    out.state([case])
    out.sample = {'works': sorted(new)}


K = [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'SS'), (2.5, 'FF'), (1.5, 'FFS')]


def graphs(n, kinds, cap=None):
    ps = W.pairs(n)
    for ks in itertools.product([None] + kinds, repeat=len(ps)):
        e = [[a, b, k[0], k[1]] for (a, b), k in zip(ps, ks) if k]
        if W.chains_ok(n, e) and (cap is None or len(e) <= cap):
            yield e


def gen(t):
    q = t == 'quick'
    base = [(3, e) for e in graphs(3, K)] + [(4, e) for e in graphs(4, [(0, 'FS'), (0, 'IFS')] if q else [(0, 'FS'), (0, 'IFS'), (1, 'SS')])]
    for n, e in base:
        ids = ['w%d' % i for i in range(n)]
        for simple, off, ch in ((False, 0, True), (False, 0, False), (True, 5, True)):
            for skip in ([], ['w1'], ['w0', 'w2']) if n == 3 else ([],):
                yield {'op': 'copy', 'n': n, 'edges': e, 'simple': simple, 'off': off, 'ch': ch, 'skip': skip}
        yield {'op': 'simplify', 'n': n, 'edges': e, 'off': 3}
        for x in ids:
            for new in (False, True):
                yield {'op': 'delete', 'n': n, 'edges': e, 'x': x, 'new': new}
        # insertions between any works and any works after them
        for k in range(n + 1):
            for pa in [[]] + [[i] for i in range(k)] + [[i, j] for i in range(k) for j in range(i)]:
                for ch in [[]] + [[i] for i in range(k, n)] + [[i, j] for i in range(k, n) for j in range(i + 1, n)]:
                    if not pa or not ch or q and n == 4 and len(pa) + len(ch) > 2:
                        continue
                    for plain, new in ((True, False), (False, False), (False, True)):
                        yield {'op': 'insert', 'new': new, 'n': n, 'edges': e, 'plain': plain, 'pa': [['w%d' % i, 1.5, 'FS'] for i in pa], 'ch': [['w%d' % i, 2.25, 'SS' if i % 2 else 'FS'] for i in ch]}
    for n, e in [(3, e) for e in graphs(3, K[:3])]:
        for sn, se in [(2, e) for e in graphs(2, K[:4])] + [(3, e) for e in graphs(3, [(0, 'FS'), (0, 'IFS')])]:
            for (a, b), new in itertools.product(W.pairs(n), (False, True)):
                yield {'op': 'graph', 'new': new, 'n': n, 'edges': e, 'sn': sn, 'sedges': se, 'from': 'w%d' % a, 'to': 'w%d' % b}


FAMILIES = [core.Family('edits', gen, run, 'all graphs of 3 works over 6 edge kinds and of 4 works over 2-3; all deletions, insertions, copies, graph insertions')]
