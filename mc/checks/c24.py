import itertools
import os
import shutil
import tempfile

import pandas as pd

from mc import core, snap
from mc.checks import c17
from sampo.generator.environment import ContractorGenerationMethod
from sampo.pipeline.preparation import PreparationPipeline
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.schemas.works import WorkUnit
from sampo.userinput import CSVParser
from sampo.userinput.parser.general_build import break_loops_in_input_graph
from sampo.utilities.name_mapper import DictNameMapper, DummyNameMapper

RULE = 'every small table in every layout is read; the graph, its works and the contractors are compared with the table'
KINDS = [(0.0, 'FS'), (2.0, 'FS'), (1.0, 'SS'), (0.5, 'FFS'), (0.0, 'IFS')]
IDS = {'int': [1, 2, 3], 'str': ['a', 'b', 'c'], 'wbs': ['1.1', '1.2', '2'], 'dot': ['1', '1.10', '1.1']}
HIST = ['marker_for_glue', 'work_name', 'first_day', 'last_day', 'upper_works', 'work_name_clear_old', 'smr_name', 'work_name_clear', 'granular_smr_name']


class Estimator(DefaultWorkEstimator):
    """needs of a work follow from its model name and volume"""
    def find_work_resources(self, model_name, work_volume, resource_name=None):
        k = sum(map(ord, model_name['granular_name'])) % 3
        return [WorkerReq(name, Time(int(work_volume) + j + k), 1 + j, 2 + j + k) for j, name in enumerate(('driver', 'fitter'))] if k else []


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc24')
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.d)

    def save(self, df, sep=';', name='t.csv'):
        p = os.path.join(self.d, name)
        df.to_csv(p, sep=sep, index=False)
        return p


def table(case):
    """the table of a case, and what it says"""
    ids = IDS[case['ids']]
    n = case['n']
    e = [tuple(x) for x in case['edges']]
    lay = case['layout']
    if lay in ('notypes', 'onlyids'):
        e = [(a, b, l, 'FS') for a, b, l, t in e]
    if lay in ('nolags', 'onlyids'):
        e = [(a, b, 0.0, t) for a, b, l, t in e]
    rows = []
    sep = ', ' if case.get('space') else ','
    for i in range(n):
        ps = [x for x in e if x[1] == i]
        r = {'activity_id': ids[i], 'activity_name': 'Name %d' % i, 'volume': i + 1.5}
        if case['model'] == 'model':
            r['model_name'] = str({'granular_name': 'g%d' % i, 'measurement': 'm%d' % i, 'extra': i})
        elif case['model'] == 'part':
            r['model_name'] = str({'measurement': 'm%d' % i})
        else:
            r['measurement'] = 'm%d' % i
            if case['model'] == 'granular':
                r['granular_name'] = 'g%d' % i
        r['predecessor_ids'] = sep.join(str(ids[x[0]]) for x in ps)
        if lay not in ('notypes', 'onlyids'):
            r['connection_types'] = sep.join(x[3] for x in ps)
        if lay not in ('nolags', 'onlyids'):
            r['lags'] = sep.join(str(x[2]) for x in ps)
        if lay == 'cells' and all(x[3] == 'FS' and not x[2] for x in ps):
            r['connection_types'] = r['lags'] = ''
        if case.get('unknown') == i:  # a predecessor outside the project
            for k, v in (('predecessor_ids', 'zz'), ('connection_types', 'FS'), ('lags', '0.0')):
                if k in r:
                    r[k] = sep.join([x for x in [r[k]] if x] + [v]) if case['usuf'] else sep.join([v] + [x for x in [r[k]] if x])
        if case.get('more'):
            r['description'], r['group'], r['priority'] = 'd%d' % i, 'gr%d' % (i % 2), 1 + i
            r['min_req'], r['max_req'], r['req_volume'] = {'driver': 1 + i, 'fitter': i}, {'driver': 2 + 2 * i, 'fitter': 3}, {'driver': 10 + i, 'fitter': 7}
            r['required_statuses'] = str({'z%d' % i: 1} if i else {})
        rows.append(r)
    df = pd.DataFrame([rows[i] for i in case['rows']])
    return df, e


def expected_work(case, i, mapped):
    m = {'model': {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i, 'extra': i}, 'granular': {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i}}.get(case['model'])
    if m is None:
        m = {'granular_name': mapped('Name %d' % i), 'measurement': 'm%d' % i}
    if case.get('more'):
        reqs = [(k, v, lo, hi) for k, v, lo, hi in (('driver', 10 + i, 1 + i, 2 + 2 * i), ('fitter', 7, i, 3)) if lo]
    else:
        reqs = [(r.kind, int(r.volume), r.min_count, r.max_count) for r in Estimator().find_work_resources(m, i + 1.5)]
    more = bool(case.get('more'))
    return {'name': 'Name %d' % i, 'model': m, 'volume': i + 1.5, 'reqs': sorted(reqs), 'service': not reqs, 'description': 'd%d' % i if more else '', 'group': 'gr%d' % (i % 2) if more else 'main project',
            'priority': 1 + i if more else 1, 'zones': [('z%d' % i, 1)] if more and i else []}


def observed_work(w):
    return {'name': w.display_name, 'model': w.model_name, 'volume': w.volume, 'reqs': sorted((r.kind, int(r.volume), r.min_count, r.max_count) for r in w.worker_reqs), 'service': w.is_service_unit,
            'description': w.description, 'group': w.group, 'priority': w.priority, 'zones': [(z.kind, z.required_status) for z in w.zone_reqs]}


def judge(wg, ids, e, works, out, text):
    s, f = wg.start.id, wg.finish.id
    ids = [str(x) for x in ids]
    if sorted(wg.dict_nodes) != sorted(ids + [s, f]):
        out.bad('works', 'works of the graph: %s, expected %s; %s' % (sorted(wg.dict_nodes), sorted(ids), text))
        return
    got = sorted((a, b, float(l), t) for a, b, l, t in c17.edges_of(wg) if a != s and b != f)
    exp = sorted((ids[a], ids[b], float(l), t) for a, b, l, t in e)
    if got != exp:
        out.bad('edges', 'edges of the graph: %s, expected %s; %s' % (got, exp, text))
    if not all(isinstance(x[2], (int, float)) and not isinstance(x[2], bool) for x in c17.edges_of(wg)):
        out.bad('lag-type', 'lags are no numbers: %s; %s' % (c17.edges_of(wg), text))
    for i, w in enumerate(works):
        o = observed_work(wg[ids[i]].work_unit)
        for k in w:
            if w[k] != o[k]:
                out.bad('work:%s' % k, '%s of work %s: %r, expected %r; %s' % (k, ids[i], o[k], w[k], text))
    c17.consistent(wg, out, text)


def tables_gen(t):
    q = t == 'quick'
    base = {'n': 3, 'ids': 'str', 'layout': 'full', 'model': 'model', 'rows': [0, 1, 2], 'source': 'frame'}
    gs = list(c17.graphs(3, KINDS))
    for e in gs:
        for rows in ([[0, 1, 2], [2, 1, 0], [1, 2, 0]] if q else itertools.permutations(range(3))):
            for lay in ('full', 'notypes', 'nolags', 'onlyids', 'cells'):
                yield dict(base, edges=e, rows=list(rows), layout=lay)
    few = [e for e in gs if all(x[3] in ('FS', 'SS') for x in e)] if q else gs
    for e in few:
        for ids, src, model in itertools.product(IDS, ('frame', 'file', 'comma'), ('model', 'part', 'granular', 'name')):
            yield dict(base, edges=e, ids=ids, source=src, model=model, rows=[1, 0, 2])
        for src, more, mapper in itertools.product(('frame', 'file'), (0, 1), (None, 'dict', 'dummy')):
            for model in ('model', 'part', 'name'):
                yield dict(base, edges=e, source=src, more=more, mapper=mapper, model=model)
        for src, rows in itertools.product(('file', 'comma'), ([0, 1, 2], [2, 0, 1])):
            yield dict(base, edges=e, source=src, rows=rows, layout='cells')
        for u, usuf, lay in itertools.product(range(3), (0, 1), ('full', 'notypes', 'nolags', 'onlyids')):
            yield dict(base, edges=e, unknown=u, usuf=usuf, layout=lay, space=usuf)


def tables_run(case, out):
    df, e = table(case)
    ids = IDS[case['ids']]
    names = {'Name %d' % i: 'mapped %d' % (i % 2) for i in range(3)}
    mapper = {None: None, 'dict': DictNameMapper(names), 'dummy': DummyNameMapper()}[case.get('mapper')]
    mapped = (lambda x: names[x]) if case.get('mapper') == 'dict' else (lambda x: x)
    for x in names:
        if mapper and (mapper.get(x) != mapped(x) or mapper[x] != mapped(x)):
            out.bad('mapper', 'name mapper maps %s to %s; %s' % (x, mapper.get(x), case))
    with Scratch() as s:
        src = {'frame': lambda: df, 'file': lambda: s.save(df), 'comma': lambda: s.save(df, ',')}[case['source']]()
        before = df.to_dict('records'), list(df.columns)
        info = CSVParser.read_graph_info(src, pd.DataFrame(columns=HIST), sep_wg=',' if case['source'] == 'comma' else ';', name_mapper=mapper, all_connections=True)
        if (df.to_dict('records'), list(df.columns)) != before:
            out.bad('given', 'the given table was changed; %s' % case)
        works = [expected_work(case, i, mapped) for i in range(case['n'])]
        out.nontrivial = bool(e)
        for k in range(2):  # the same table gives the same graph again
            wg = CSVParser.work_graph(info, name_mapper=mapper, work_resource_estimator=Estimator())
            judge(wg, ids, e, works, out, '%s, reading %d' % (case, k + 1))
        kinds = [[r.kind for r in n.work_unit.worker_reqs] for n in wg.nodes]
        if any(k not in ([], ['driver', 'fitter'], ['driver']) for k in kinds):
            out.bad('kinds-order', 'order of the requirements: %s; %s' % (kinds, case))
        prep = PreparationPipeline(src).sep_wg(',' if case['source'] == 'comma' else ';').work_estimator(Estimator())
        if mapper:
            prep.name_mapper(mapper)
        judge(prep.build_wg(), ids, e, works, out, '%s, prepared' % case)
    out.execs += 3
    out.transitions += case['n']
    out.state([case])


def loops_gen(t):
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    ws = (1, 2, 3)
    for d in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, d):
            for w in itertools.product(ws[:2] if d > 5 and t == 'quick' else ws, repeat=d):
                yield {'n': 3, 'edges': [[a, b, x] for (a, b), x in zip(es, w)]}
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for m in range(1 << len(pairs)):
        es = [p for k, p in enumerate(pairs) if m >> k & 1]
        yield {'n': 4, 'edges': [[a, b, 5] for a, b in es]}
        yield {'n': 4, 'edges': [[a, b, 1 + (3 * a + 5 * b) % 4] for a, b in es]}
        if t == 'thorough':
            for k in range(2, 10):
                yield {'n': 4, 'edges': [[a, b, 1 + (a * k + b * (k // 2 + 1)) % (2 + k % 3)] for a, b in es]}


def reach(es, a, b):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p, q in es:
            if p == x and q not in seen:
                seen.add(q)
                todo.append(q)
    return b in seen


def loops_run(case, out):
    """lag i of an edge marks it; the weights are how often a relation was seen"""
    n, es = case['n'], case['edges']
    rows = []
    for i in range(n):
        ps = [(k, x) for k, x in enumerate(es) if x[1] == i]
        rows.append({'activity_id': 'w%d' % i, 'predecessor_ids': ['w%d' % x[0] for _, x in ps] or ['-1'], 'connection_types': [list(EdgeType)[k % 3] for k, _ in ps] or [EdgeType.FinishStart],
                     'lags': [float(k) for k, _ in ps] or [0.0], 'counts': [x[2] for _, x in ps] or [9]})
    res = break_loops_in_input_graph(pd.DataFrame(rows))
    left = {}
    for r in res.to_dict('records'):
        if not len(r['predecessor_ids']) == len(r['connection_types']) == len(r['lags']):
            out.bad('loop-lengths', 'lengths differ: %s; %s' % (r, case))
            return
        for p, c, l in zip(r['predecessor_ids'], r['connection_types'], r['lags']):
            if p != '-1':
                k = int(l)
                left[k] = (p, r['activity_id'])
                if (p, r['activity_id']) != ('w%d' % es[k][0], 'w%d' % es[k][1]) or c != list(EdgeType)[k % 3]:
                    out.bad('loop-attributes', 'attributes of the relation %s were mixed up; %s' % (es[k], case))
    pairs = [(a, b) for a, b, _ in es]
    kept = [pairs[k] for k in left]
    if any(reach([p for p in kept if p != x] + [], x[1], x[0]) for x in kept):
        out.bad('loop-left', 'a cycle is left: %s; %s' % (kept, case))
    for k, (a, b, w) in enumerate(es):
        if k not in left:
            out.nontrivial = True
            if not reach([(p, q) for p, q, v in es if v >= w], b, a):
                out.bad('loop-removed', 'relation %s was dropped though it is not the weakest of any cycle; %s' % ([a, b, w], case))
    out.execs += 1
    out.transitions += len(es)
    out.state([case])


def crew_gen(t):
    for kinds in itertools.chain(itertools.permutations(['driver', 'fitter']), [['handyman'], ['fitter', 'engineer', 'driver']]):
        for ids in (None, ['1', '2'], ['x', 'y']):
            for counts in itertools.product((1, 3), repeat=len(kinds)):
                for src in ('frame', 'file', 'list', 'prepared', 'prepared-frame'):
                    yield {'kinds': list(kinds), 'ids': ids, 'counts': list(counts), 'source': src}
    for m in ('min', 'max', 'avg'):
        for k, sc in itertools.product((1, 2), (1, 2, 1.5)):
            yield {'generate': m, 'k': k, 'scaler': sc}
    yield {'generate': None}


def crew_run(case, out):
    df, e = table({'n': 3, 'ids': 'str', 'layout': 'full', 'model': 'model', 'rows': [0, 1, 2], 'edges': [[0, 1, 0.0, 'FS']]})
    read = lambda: CSVParser.read_graph_info(df, pd.DataFrame(columns=HIST), all_connections=True)
    out.nontrivial = True
    if 'generate' in case:
        est = Estimator()
        if case['generate'] is None:
            wg, cs = PreparationPipeline(df).work_estimator(est).build_wg_and_contractors()
            m, k, sc = 'avg', 1, 1
        else:
            m, k, sc = case['generate'], case['k'], case['scaler']
            wg, cs = CSVParser.work_graph_and_contractors(read(), (ContractorGenerationMethod(m), k, sc), work_resource_estimator=est)
        need = {}
        for n in wg.nodes:
            for r in n.work_unit.worker_reqs:
                v = {'min': r.min_count, 'max': r.max_count, 'avg': int((r.min_count + r.max_count) / 2)}[m]
                need[r.kind] = max(need.get(r.kind, 0), v)
        if len(cs) != k or len({c.id for c in cs}) != k:
            out.bad('generated', '%d contractors with ids %s instead of %d; %s' % (len(cs), [c.id for c in cs], k, case))
        for c in cs:
            got = {x: w.count for x, w in c.workers.items()}
            if set(got) != set(need) or any(not v * sc - 1 < got[x] < v * sc + 1 for x, v in need.items()) or any(w.contractor_id != c.id for w in c.workers.values()):
                out.bad('generated', 'crew %s for the needs %s times %s; %s' % (got, need, sc, case))
    else:
        rows = []
        for i in range(2):
            r = {'contractor_id': case['ids'][i]} if case['ids'] else {}
            r.update({'name': 'C%d' % i}, **{k: c + i for k, c in zip(case['kinds'], case['counts'])})
            rows.append(r)
        cdf = pd.DataFrame(rows)
        before = cdf.to_dict('records')
        with Scratch() as s:
            info = s.save(cdf) if case['source'] in ('file', 'prepared') else cdf
            if case['source'] == 'list':
                info = CSVParser.work_graph_and_contractors(read(), cdf, work_resource_estimator=Estimator())[1]
            if case['source'].startswith('prepared'):
                wg, cs = PreparationPipeline(df).contractors(info).work_estimator(Estimator()).build_wg_and_contractors()
            else:
                wg, cs = CSVParser.work_graph_and_contractors(read(), info, work_resource_estimator=Estimator())
        if case['source'] == 'list' and cs is not info:
            out.bad('crew', 'given contractors are replaced; %s' % case)
        exp = [('C%d' % i, {k: (k, c + i) for k, c in zip(case['kinds'], case['counts'])}) for i in range(2)]
        got = [(c.name, {k: (w.name, w.count) for k, w in c.workers.items()}) for c in cs]
        if got != exp or (case['ids'] and [c.id for c in cs] != case['ids']) or len({c.id for c in cs}) != 2:
            out.bad('crew', 'contractors %s with ids %s, expected %s; %s' % (got, [c.id for c in cs], exp, case))
        if any(w.contractor_id != c.id for c in cs for w in c.workers.values()) or cdf.to_dict('records') != before:
            out.bad('crew', 'workers do not belong to their contractor or the table was changed; %s' % case)
    judge(wg, IDS['str'], e, [expected_work({'model': 'model'}, i, None) for i in range(3)] if 'generate' not in case else [], out, str(case))
    out.execs += 1
    out.transitions += 2
    out.state([case])


def round_gen(t):
    kinds = [(0, 'FS'), (2, 'FS'), (0, 'IFS'), (1, 'SS'), (0.25, 'FFS')]
    for e in c17.graphs(3, kinds):
        for order in ([[0, 1, 2], [2, 0, 1]] if t == 'quick' else itertools.permutations(range(3))):
            yield {'edges': e, 'order': list(order)}


def round_run(case, out):
    """graph -> table -> graph"""
    n, e = 3, [tuple(x) for x in case['edges']]
    us = [WorkUnit('w%d' % i, {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i}, worker_reqs=[WorkerReq('driver', Time(3 + i), 1, 2 + i), WorkerReq('fitter', Time(5), 2, 3 + i)][:i],
                   priority=1 + i, volume=i + 0.5, display_name='n%d' % i) for i in range(n)]
    nodes = [GraphNode(u, []) for u in us]
    for a, b, lag, t in e:
        nodes[b].add_parents([(nodes[a], lag, EdgeType(t))])
    wg = WorkGraph.from_nodes([nodes[i] for i in case['order']])
    before = snap.graph(wg)
    works = [{'name': 'n%d' % i, 'model': {'granular_name': 'g%d' % i, 'measurement': 'm%d' % i}, 'volume': i + 0.5, 'priority': 1 + i,
              'reqs': sorted((r.kind, int(r.volume), r.min_count, r.max_count) for r in us[i].worker_reqs)} for i in range(n)]
    out.nontrivial = bool(e)

    class Every(DefaultWorkEstimator):
        def find_work_resources(self, model_name, work_volume, resource_name=None):
            return [WorkerReq(k, Time(1), 1, 1) for k in ('driver', 'fitter')]
    judge(PreparationPipeline(wg).work_estimator(Every()).build_wg(), ['w0', 'w1', 'w2'], e, works, out, str(case))
    d = snap.diff(before, snap.graph(wg))
    if d:
        out.bad('given', 'the given graph was changed: %s; %s' % (d, case))
    with Scratch() as s:
        p = s.save(wg.to_frame(save_req=True))
        judge(PreparationPipeline(p).work_estimator(Every()).build_wg(), ['w0', 'w1', 'w2'], e, works, out, '%s by file' % case)
    out.execs += 2
    out.transitions += n
    out.state([case])


FAMILIES = [core.Family('tables', tables_gen, tables_run, 'all graphs of 3 works over 5 edge kinds, as tables: order of rows, columns and cells left out, ids, data frame or file, names, requirements'),
            core.Family('loops', loops_gen, loops_run, 'all directed graphs of 3 works with all weights of 1..3 and of 4 works with 2 (thorough 10) weightings'),
            core.Family('crews', crew_gen, crew_run, 'tables of contractors and all ways of generating them'),
            core.Family('round', round_gen, round_run, 'all graphs of 3 works over 5 edge kinds: written to a table and read again')]
