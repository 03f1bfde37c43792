import itertools
import json
import os
import random
import subprocess
import sys

from mc import core, rngmc, snap
from mc import worlds as W
from sampo.generator import SimpleSynthetic, SyntheticGraphType
from sampo.generator.environment.contractor import get_contractor, get_contractor_with_equal_proportions
from sampo.generator.pipeline.extension import extend_names, extend_resources
from sampo.generator.pipeline.project import get_graph, get_small_graph
from sampo.scheduler.heft.base import HEFTScheduler
from sampo.schemas.requirements import WorkerReq
from sampo.utilities.sampler import Sampler
from sampo.utilities.sampler.types import MinMax

MODES = {'general': SyntheticGraphType.GENERAL, 'parallel': SyntheticGraphType.PARALLEL, 'sequence': SyntheticGraphType.SEQUENTIAL}
KINDS = ('driver', 'fitter', 'handyman', 'electrician', 'manager', 'engineer')
RULE = 'the generators run under an explorer that decides every random answer; all vectors of answers with bounded departures; results against the stated limits'
SMALL = 60      # a single small cluster has not more works than this


class Gen(rngmc.ChoiceRandom):
    """every drawn number is decided by the explorer, ids are counted"""

    def __init__(self, ch, floats=(0.5, 1e-9, 0.999999, 0.1)):
        super().__init__(ch, floats)
        self.n = 0

    def getrandbits(self, k):
        if k <= 8:
            return super().getrandbits(k)
        self.n += 1
        return self.n


def shape(wg, ids=False):
    """everything that a generated graph says, in the order of its nodes"""
    at = {n.id: i for i, n in enumerate(wg.nodes)}
    return [[wu.model_name['granular_name'], wu.model_name['measurement'], wu.group, wu.volume, wu.is_service_unit,
             [[r.kind, float(r.volume.value if hasattr(r.volume, 'value') else r.volume), r.min_count, r.max_count] for r in wu.worker_reqs],
             [[m.name, m.count] for m in wu.material_reqs],
             [[at[e.start.id], float(e.lag), e.type.value] for e in n.edges_to]] + ([n.id] if ids and not wu.is_service_unit else [])
            for n in wg.nodes for wu in [n.work_unit]]


def sound(wg, out, what):
    """a work graph with one start and one finish, in which everything is between them; -> the works"""
    ns = wg.nodes
    at = {n.id: i for i, n in enumerate(ns)}
    if len(at) != len(ns) or wg.vertex_count != len(ns):
        out.bad('graph', 'ids are not unique or nodes are missing; %s' % what)
        return []
    if [n for n in ns if not n.edges_to] != [wg.start] or [n for n in ns if not n.edges_from] != [wg.finish]:
        out.bad('graph', 'starts %d, finishes %d; %s' % (sum(not n.edges_to for n in ns), sum(not n.edges_from for n in ns), what))
    for n in ns:
        for e in n.edges_to:
            if e.start.id not in at or ns[at[e.start.id]] is not e.start or at[e.start.id] >= at[n.id] or e.lag < 0 and e.type.value != 'IFS':
                out.bad('graph', 'edge %s - %s; %s' % (e.start.work_unit.name, n.work_unit.name, what))
        for r in n.work_unit.worker_reqs:
            if not 0 < r.min_count <= r.max_count or r.volume.value <= 0 if hasattr(r.volume, 'value') else r.volume <= 0:
                out.bad('graph', 'requirement %s; %s' % (r, what))
    return [n for n in ns if not n.work_unit.is_service_unit]


def before(wg):
    """all works that precede a work, by index"""
    at = {n.id: i for i, n in enumerate(wg.nodes)}
    res = []
    for n in wg.nodes:
        s = set()
        for e in n.edges_to:
            s |= res[at[e.start.id]] | {at[e.start.id]}
        res.append(s)
    return res


def handings(wg):
    return [i for i, n in enumerate(wg.nodes) if 'handing' in n.work_unit.group]


# ---------------------------------------------------------------- graphs
def graph_gen(t):
    q = t == 'quick'
    for mode in MODES:
        for kind, v in [('clusters', 1), ('clusters', 2), ('clusters', 3), ('bottom', 10), ('bottom', 60), ('bottom', 130), ('top', 60), ('top', 90),
                        ('top', 150), ('top', 260), ('both', 100)]:
            for salt in range(2 if q else 6):
                for part in range(1 if q else 8):
                    yield {'mode': mode, 'kind': kind, 'v': v, 'salt': salt, 'part': part, 'q': q}


def graph_run(case, out):
    kw = {'clusters': {'cluster_counts': case['v']}, 'bottom': {'bottom_border': case['v']}, 'top': {'top_border': case['v']},
          'both': {'bottom_border': case['v'], 'top_border': case['v'] + 5}}[case['kind']]
    n = [0]

    def one(ch):
        rnd = Gen(rngmc.Shifted(ch, case['salt']) if case['salt'] else ch)
        if case['part'] % 2:
            wg = get_graph(mode=MODES[case['mode']], rand=rnd, **kw)
        else:
            wg = SimpleSynthetic(rnd).work_graph(mode=MODES[case['mode']], **kw)
        n[0] += 1
        out.transitions += 1
        return wg
    # the first decisions (sizes of the clusters) and some of the later ones are varied one at a time
    seen = set()
    for dec, wg in explore1(one, 10 if case['q'] else 40, case['part'], 24 if case['q'] else 60):
        what = '%s %s, decisions %s' % (case['mode'], kw, [x for x in enumerate(dec) if x[1]])
        works = sound(wg, out, what)
        k = len(handings(wg))
        seen.add((len(works), k))
        if 'cluster_counts' in kw and k != kw['cluster_counts']:
            out.bad('clusters', '%d clusters; %s' % (k, what))
        if 'bottom_border' in kw and len(works) < kw['bottom_border']:
            out.bad('bottom', '%d works; %s' % (len(works), what))
        if 'top_border' in kw and 'bottom_border' not in kw and len(works) > kw['top_border']:
            out.bad('top', '%d works; %s' % (len(works), what))
        if len({n.id for n in works}) != len(works):
            out.bad('graph', 'equal ids; %s' % what)
        modes(wg, case['mode'], out, what)
    out.execs += n[0]
    out.nontrivial = len(seen) > 1
    out.state([case['mode'], case['kind'], case['v'], sorted(seen)])
    out.sample = {'works and clusters': sorted(seen)[:5]}


class Wrap(rngmc.Chooser):
    """answers that do not exist after an earlier departure are taken modulo their number"""

    def pick(self, n):
        i = len(self.trace)
        self.prefix = self.prefix[:i] + tuple(c % n for c in self.prefix[i:i + 1]) + self.prefix[i + 1:]
        return super().pick(n)


def explore1(run, head, part, tail):
    """the default run, every single departure in the first `head` decisions and in `tail` later ones (shifted by `part`), and all pairs of
    departures in the first 5"""
    ch = rngmc.Chooser(())
    yield [], run(ch)
    tr = ch.trace
    spots = list(range(min(head, len(tr)))) + list(range(head + part, len(tr), max(1, (len(tr) - head) // tail)))
    for i in spots:
        for a in range(1, min(tr[i][1], 4)):
            pre = (0,) * i + (a,)
            yield list(pre), run(rngmc.Chooser(pre))
    for i, j in itertools.combinations(range(min(5, len(tr))), 2):
        for a, b in itertools.product(range(1, min(4, tr[i][1])), range(1, min(4, tr[j][1]))):
            pre = (0,) * i + (a,) + (0,) * (j - i - 1) + (b,)
            yield list(pre), run(Wrap(pre))


def modes(wg, mode, out, what):
    """how the clusters depend on each other"""
    anc = before(wg)
    names = [n.work_unit.group.split(':')[0] for n in wg.nodes]
    hs = handings(wg)
    for h in hs:     # the handing of a cluster is its last work; its roads, or those of its main cluster, come first
        mine = [i for i, x in enumerate(names) if x == names[h] and i not in hs and not set(hs) & anc[i] - {g for g in hs if names[g] != names[h]}]
        if sum(names[g] == names[h] for g in hs) == 1 and any(i not in anc[h] for i in mine):
            out.bad('handing', 'the handing of %s does not wait for all its works; %s' % (names[h], what))
    order = sorted(set(names[h] for h in hs), key=lambda c: (len(c), c))
    first = order[0]
    for c in order[1:]:
        mine = [i for i, x in enumerate(names) if x == c]
        prev = order[order.index(c) - 1]
        if mode == 'parallel':
            want = [h for h in hs if names[h] == first]
            other = [h for h in hs if names[h] not in (first, c)]
            # all other clusters wait for the first one only
            late = [h for h in hs if names[h] == c]
            if not any(w in anc[h] for w in want for h in late) or any(o in anc[h] for o in other for h in late):
                out.bad('parallel', 'cluster %s has wrong predecessors; %s' % (c, what))
        if mode == 'sequence':
            if not all(any(h in anc[g] for h in hs if names[h] == prev) for g in hs if names[g] == c):
                out.bad('sequence', 'cluster %s does not wait for %s; %s' % (c, prev, what))
        if mode == 'general':
            roads = {i for i in range(len(names)) if names[i] in order[:order.index(c)] and 'road' in wg.nodes[i].work_unit.group}
            if not all(roads & anc[i] for i in mine if i in hs):
                out.bad('general', 'cluster %s is not connected to any road; %s' % (c, what))


# ---------------------------------------------------------------- small graphs, contractors, materials
def parts_gen(t):
    for salt in range(3 if t == 'quick' else 12):
        yield {'what': 'small', 'salt': salt}
    for names in (None, ['a', 'b', 'c'], ['a'], ['a', 'b', 'c', 'd', 'e']):
        n = 6 if names is None else len(names)
        for lo, hi in [(None, None)] + [(a, b) for a in range(0, n + 1) for b in range(a, n + 1)] + [(1, None), (None, n), (n + 1, n + 1)]:
            for salt in range(2):
                yield {'what': 'materials', 'names': names, 'lo': lo, 'hi': hi, 'salt': salt}
    for pack in (1, 1.5, 2, 7, 25):
        for sigma in (0, 0.1, 3):
            for props in (None, {'driver': 1}, {'driver': 3, 'fitter': 10}):
                for types in (None, ['driver'], ['fitter', 'driver']):
                    yield {'what': 'contractor', 'pack': pack, 'sigma': sigma, 'props': props, 'types': types}
    for n in (1, 5, [2, 5], [1, 2, 3]):
        for k in (1, 2, 3):
            yield {'what': 'equal', 'n': n, 'k': k}
    for uniq in (1, 3, 5, 7, 12, 20, 40):
        for kind in ('names', 'resources', 'advanced'):
            for salt in range(2):
                yield {'what': 'extend', 'kind': kind, 'uniq': uniq, 'salt': salt}
    for rv, wc in itertools.product([(1, 50), (3, 3), (2, 5)], [(1, 100), (2, 2), (3, 7)]):
        for salt in range(2):
            yield {'what': 'sampler', 'rv': rv, 'wc': wc, 'salt': salt}


WORLD = {'works': [{'reqs': [['driver', 5, 1, 3], ['fitter', 5, 1, 2]]}, {'reqs': [['driver', 4, 1, 1]]}, {'reqs': [['manager', 9, 2, 3]]},
                   {'reqs': [['fitter', 9, 2, 3]]}], 'edges': [[0, 1, 0, 'FS'], [0, 2, 2, 'FS'], [2, 3, 0, 'IFS']]}


def parts_run(case, out):
    globals()['p_' + case['what']](case, out)
    out.nontrivial = True
    out.state([case])


def every(case, out, run, head=12):
    for dec, res in explore1(lambda ch: run(Gen(rngmc.Shifted(ch, case['salt']) if case.get('salt') else ch)), head, 0, 20):
        out.execs += 1
        out.transitions += 1
        yield '%s, decisions %s' % (case, [x for x in enumerate(dec) if x[1]]), res


def p_small(case, out):
    for what, wg in every(case, out, lambda r: (get_small_graph('X', r) if case['salt'] % 2 else SimpleSynthetic(r).small_work_graph('X'))):
        ws = sound(wg, out, what)
        modes(wg, 'general', out, what)
        if not 30 <= wg.vertex_count <= SMALL or len(handings(wg)) != 1 or {w.work_unit.group.split(':')[0] for w in ws} != {'X'}:
            out.bad('small', '%d works; %s' % (len(ws), what))


def p_materials(case, out):
    names, lo, hi = case['names'], case['lo'], case['hi']
    n = 6 if names is None else len(names)

    def go(r):
        wg = W.build_graph(WORLD)
        try:
            return wg, SimpleSynthetic(r).set_materials_for_wg(wg, names, lo, hi)
        except ValueError as e:
            return wg, None
    a = lo if lo is not None else 2 if names is None else n // 2
    b = hi if hi is not None else n
    for what, (wg, res) in every(case, out, go):
        if a > n or b > n:
            if res is not None:
                out.bad('materials', 'accepted; %s' % what)
            continue
        if a > b:
            continue
        if res is None:
            out.bad('materials', 'refused; %s' % what)
            continue
        for g in res.nodes:
            ms = [m.name for m in g.work_unit.material_reqs]
            if g.work_unit.is_service_unit:
                if ms:
                    out.bad('materials', 'service work needs %s; %s' % (ms, what))
            elif len(set(ms)) != len(ms) or not a <= len(ms) <= b or names is not None and not set(ms) <= set(names) \
                    or any(m.count <= 0 for m in g.work_unit.material_reqs):
                out.bad('materials', 'materials %s, borders %d..%d; %s' % (ms, a, b, what))


def p_contractor(case, out):
    props = case['props'] or {'driver': 6, 'fitter': 6, 'handyman': 8, 'electrician': 2, 'manager': 3, 'engineer': 2}
    kw = {'worker_proportions': dict(case['props'])} if case['props'] else {}
    want = set(props) if case['types'] is None else set(props) & set(case['types'])
    for what, c in every(case, out, lambda r: get_contractor(case['pack'], case['sigma'], available_worker_types=case['types'], rand=r, contractor_name='n', **kw)):
        if set(c.workers) != want or any(w.name != k or w.contractor_id != c.id for k, w in c.workers.items()):
            out.bad('contractor', 'kinds %s; %s' % (sorted(c.workers), what))
        for k in want:
            if not props[k] <= c.workers[k].count <= props[k] * case['pack'] + 1e-9 or case['sigma'] == 0 and abs(c.workers[k].count - props[k] * case['pack']) > 0.5:
                out.bad('contractor', '%d of %s; %s' % (c.workers[k].count, k, what))
        if len({w.id for w in c.workers.values()} | {c.id}) != len(want) + 1:
            out.bad('contractor', 'equal ids; %s' % what)


def p_equal(case, out):
    ns = case['n'] if isinstance(case['n'], list) else [case['n']] * case['k']
    try:
        cs = get_contractor_with_equal_proportions(case['n'], case['k'])
    except AssertionError:
        cs = None
    out.execs += 1
    out.transitions += 1
    if (cs is None) != (len(ns) != case['k']):
        out.bad('equal', 'contractors %s; %s' % (cs, case))
    elif cs is not None:
        if len(cs) != case['k'] or len({c.id for c in cs}) != len(cs):
            out.bad('equal', '%d contractors; %s' % (len(cs), case))
        for c, n in zip(cs, ns):
            if set(c.workers) != set(KINDS) or not 6 <= c.workers['driver'].count <= 6 * n:
                out.bad('equal', '%s; %s' % ({k: w.count for k, w in c.workers.items()}, case))


def p_extend(case, out):
    base = get_small_graph('X', random.Random(3 + case['salt']))
    was = shape(base, True)
    names = {x[0] for x in was if not x[4]}
    kinds = {r.kind for n in base.nodes for r in n.work_unit.worker_reqs}

    def go(r):
        if case['kind'] == 'names':
            return extend_names(case['uniq'], base, r)
        if case['kind'] == 'resources':
            return extend_resources(case['uniq'], base, r)
        return extend_names(case['uniq'] * 2, extend_resources(case['uniq'], base, r), r)
    for what, wg in every(case, out, go, 4):
        if shape(base, True) != was:
            out.bad('extend', 'the original was changed; %s' % what)
            return
        now = shape(wg, True)
        if len(now) != len(was):
            out.bad('extend', '%d nodes; %s' % (len(now), what))
            continue
        for x, y in zip(was, now):
            if x[1:5] != y[1:5] or x[6:] != y[6:] or [r[1:] for r in x[5]] != [r[1:] for r in y[5]] or not y[0].startswith(x[0]) \
                    or any(not b[0].startswith(a[0]) for a, b in zip(x[5], y[5])):
                out.bad('extend', '%s became %s; %s' % (x, y, what))
                break
        for kind, pos, old, lim in (('names', 0, names, case['uniq'] * (2 if case['kind'] == 'advanced' else 1)), ('resources', 5, kinds, case['uniq'])):
            new = {y[0] for y in now if not y[4]} if pos == 0 else {r[0] for y in now for r in y[5]}
            if case['kind'] not in (kind, 'advanced') or lim <= len(old):
                if new != old:
                    out.bad('extend', '%s changed to %s; %s' % (kind, sorted(new), what))
            elif not len(old) <= len(new) <= lim:
                out.bad('extend', '%d different %s, asked for %d; %s' % (len(new), kind, lim, what))


def p_sampler(case, out):
    rv, wc = MinMax(*case['rv']), MinMax(*case['wc'])

    def go(r):
        s = Sampler(0)
        s.rand = r
        reqs = s.worker_reqs(rv, wc)
        a = s.graph_node('n', [], 'w', 'g', MinMax(2.0, 6.0), rv, wc)
        b = s.similar_graph_node(a, [(a, 0, W.EdgeType.FinishStart)], 3.0, 'm')
        return reqs, a, b
    for what, (reqs, a, b) in every(case, out, go):
        for rs in (reqs, a.work_unit.worker_reqs):
            if not rs or len({r.kind for r in rs}) != len(rs) or not {r.kind for r in rs} <= set(KINDS):
                out.bad('sampler', 'kinds %s; %s' % ([r.kind for r in rs], what))
            if any(not rv.min <= float(r.volume) <= rv.max or (r.min_count, r.max_count) != (wc.min, wc.max) for r in rs):
                out.bad('sampler', 'requirements %s; %s' % (rs, what))
        u, v = a.work_unit, b.work_unit
        if (a.id, u.model_name['granular_name'], u.group, v.model_name['granular_name']) != ('w', 'n', 'g', 'm') or not 2 <= u.volume <= 6:
            out.bad('sampler', 'work %s %s %s; %s' % (a.id, u.name, u.volume, what))
        if v.group != u.group or abs(v.volume - 3 * u.volume) > 1e-9 or v.id == u.id or [r.kind for r in v.worker_reqs] != [r.kind for r in u.worker_reqs] \
                or any(abs(float(y.volume) - 3 * float(x.volume)) > 1e-9 for x, y in zip(u.worker_reqs, v.worker_reqs)):
            out.bad('sampler', 'similar work %s of %s; %s' % (v, u, what))


# ---------------------------------------------------------------- landscapes
def land_gen(t):
    q = t == 'quick'
    for k, e in enumerate(W.edge_sets(3, [(0, 'FS'), (0, 'IFS')], 2)):
        for ms in itertools.product(([], [['m', 1]], [['m', 7], ['n', 2]]), repeat=3):
            yield {'e': e, 'ms': ms, 'q': q}
    for seed in range(4 if q else 20):
        yield {'seed': seed, 'q': q}


def land_run(case, out):
    n = [0]

    def one(r):
        if 'seed' in case:
            ss = SimpleSynthetic(case['seed'])
            wg = ss.set_materials_for_wg(ss.small_work_graph())
        else:
            works = [{'reqs': [['driver', 5, 1, 2]], 'mat': m} for m in case['ms']]
            wg = W.build_graph({'works': works, 'edges': case['e']})
        return wg, SimpleSynthetic(r).synthetic_landscape(wg)
    for what, (wg, cfg) in every({'salt': n[0]}, out, one, 6):
        what = '%s: %s' % ({k: v for k, v in case.items()}, what)
        at = {}
        for i, p in enumerate(cfg.platforms):
            for w in p.works:
                if w.id in at:
                    out.bad('landscape', 'work %s is at two places; %s' % (w.id, what))
                at[w.id] = i
                if cfg.works2platform.get(w) is not p:
                    out.bad('landscape', 'work %s: wrong place; %s' % (w.id, what))
                for m in w.work_unit.need_materials():
                    if cfg.get_platforms_resources()[p.id].get(m.name, 0) < m.count:
                        out.bad('landscape', 'the place of %s can not hold its %s; %s' % (w.id, m.name, what))
        works = [x for x in wg.nodes if not x.work_unit.is_service_unit]
        if set(at) != {w.id for w in works}:
            out.bad('landscape', 'works without place: %s; %s' % ({w.id for w in works} ^ set(at), what))
            continue
        for w in works:
            for x in w.get_inseparable_chain_with_self():
                if at[x.id] != at[w.id]:
                    out.bad('landscape', 'the chain of %s is at several places; %s' % (w.id, what))
        ids = [x.id for x in cfg.lg.nodes]
        if len(set(ids)) != len(ids) or not cfg.holders or not cfg.platforms:
            out.bad('landscape', 'places %s; %s' % (ids, what))
        for p in cfg.platforms:
            if len(cfg.get_sorted_holders(p)) != len(cfg.holders):
                out.bad('landscape', 'place %s does not reach every depot; %s' % (p.name, what))
        if 'seed' in case:
            continue
        try:
            sch = HEFTScheduler().schedule(wg, [get_contractor(50, sigma_scaler=0, rand=random.Random(1))], landscape=cfg)[0]
            if len(list(sch.works)) < len(works):
                out.bad('landscape', 'schedule with %d works; %s' % (len(list(sch.works)), what))
        except Exception as e:
            out.bad('landscape', 'the project can not be scheduled: %s %s; %s' % (type(e).__name__, e, what))
    out.nontrivial = True
    out.state([str(case)])


# ---------------------------------------------------------------- block graphs
def block_gen(t):
    for kind in ('SEQUENTIAL', 'PARALLEL', 'RANDOM'):
        for n in (1, 2, 3, 4):
            for k, props in enumerate(((1, 1, 1), (0, 1, 0), (1, 0, 2))):
                for border in ('top', 'bottom'):
                    yield {'kind': kind, 'n': n, 'props': props, 'border': border, 'obst': (n + k) % 2, 'salt': n % 2}
    for qs in ([1], [2], [1, 2], [2, 1], [2, 1, 2], [1, 1, 1]):
        for border in ('top', 'bottom'):
            yield {'kind': 'QUEUES', 'qs': qs, 'n': sum(qs), 'props': (1, 1, 1), 'border': border, 'obst': len(qs) % 2, 'salt': 0}


def block_run(case, out):
    from mc.checks import c31  # noqa: F401  (makes the package importable without torch)
    from sampo.scheduler.multi_agency.block_generator import SyntheticBlockGraphType, generate_block_graph
    lim = lambda i: (None, 60 + 5 * i) if case['border'] == 'top' else (40 + 5 * i, None)
    obst = (lambda i: ('obstruction', i)) if case['obst'] else (lambda i: None)
    shapes = set()

    def go(r):
        return generate_block_graph(SyntheticBlockGraphType[case['kind']], case['n'], list(case['props']), lim, 0.5, r, obst,
                                    len(case.get('qs', ())), case.get('qs'), logger=lambda x: None)
    for what, bg in every(case, out, go, 6):
        blocks = [b for b in bg.nodes if not b.is_service()]
        if len(blocks) != case['n']:
            out.bad('blocks', '%d blocks; %s' % (len(blocks), what))
            continue
        local = list(range(case['n'])) if 'qs' not in case else [i for q in case['qs'] for i in range(q)]
        for b, i in zip(blocks, local):
            ws = sound(b.wg, out, what)
            lo, hi = lim(i)
            if lo is not None and len(ws) < lo or hi is not None and len(ws) > hi:
                out.bad('blocks', 'block %d has %d works; %s' % (i, len(ws), what))
            if b.obstruction != obst(i):
                out.bad('blocks', 'block %d has the obstruction %s; %s' % (i, b.obstruction, what))
        at = {id(b): i for i, b in enumerate(bg.nodes)}
        anc = {}
        for b in bg.nodes:
            for x in b.blocks_from:
                if id(x) not in at or b not in x.blocks_to:
                    out.bad('blocks', 'one-sided edge; %s' % what)

        def up(b, depth=0):
            if id(b) not in anc:
                if depth > len(bg.nodes):
                    raise RuntimeError('cycle')
                anc[id(b)] = set()
                for x in b.blocks_from:
                    anc[id(b)] |= {id(x)} | up(x, depth + 1)
            return anc[id(b)]
        for b in bg.nodes:
            up(b)
            if id(b) in anc[id(b)]:
                out.bad('blocks', 'a cycle; %s' % what)
        rel = {(i, j) for i, a in enumerate(blocks) for j, b in enumerate(blocks) if id(a) in anc[id(b)]}
        n = case['n']
        full = {(i, j) for i in range(n) for j in range(i + 1, n)}
        if 'qs' in case:
            q = [k for k, x in enumerate(case['qs']) for _ in range(x)]
            want = {(i, j) for i, j in full if q[i] < q[j]}
        else:
            want = full if case['kind'] == 'SEQUENTIAL' else set()
        if case['kind'] == 'RANDOM' and not rel <= full or case['kind'] != 'RANDOM' and rel != want:
            out.bad('blocks', 'the blocks are ordered %s, expected %s; %s' % (sorted(rel), sorted(want), what))
        shapes.add(tuple(sorted(rel)))
        first, last = [b for b in bg.nodes if not b.blocks_from], [b for b in bg.nodes if not b.blocks_to]
        if len(first) != 1 or len(last) != 1 or not first[0].is_service() or not last[0].is_service():
            out.bad('blocks', '%d first and %d last blocks; %s' % (len(first), len(last), what))
    out.nontrivial = case['n'] > 1
    out.state([case, sorted(shapes)])


# ---------------------------------------------------------------- equal seeds
def tell(seed):
    """what is generated from a seed, through every door"""
    res = []
    for mode in MODES.values():
        ss = SimpleSynthetic(seed)
        for kw in ({'top_border': 60}, {'top_border': 150}, {'bottom_border': 50}, {'cluster_counts': 2}):
            wg = ss.work_graph(mode, **kw)
            res.append(shape(wg, True))
        ss.set_materials_for_wg(wg)
        ss.set_materials_for_wg(wg, ['x', 'y', 'z', 'u'])
        res.append(shape(wg, True))
        c = ss.contractor(7)
        res.append([c.id, sorted((k, w.id, w.count) for k, w in c.workers.items())])
        cfg = ss.synthetic_landscape(wg)
        at = {n: i for i, n in enumerate(cfg.lg.nodes)}
        res.append([[n.name, sorted(n.resource_storage_unit.capacity.items()), [w.id for w in n.works], [[at[x.finish], x.weight, x.bandwidth] for x in n.roads]]
                    for n in cfg.lg.nodes] + [len(h.vehicles) for h in cfg.holders])
    res.append(shape(SimpleSynthetic(seed).small_work_graph(), True))
    res.append(shape(SimpleSynthetic(seed).advanced_work_graph(100, 40, 20), True))
    s = Sampler(seed)
    for _ in range(3):
        n = s.graph_node('n', [])
        res.append([n.id, n.work_unit.volume, [[r.kind, float(r.volume)] for r in n.work_unit.worker_reqs]])
    return res


def seeds_gen(t):
    for s in range(3 if t == 'quick' else 12):
        yield {'seed': s}


def seeds_run(case, out):
    a, b = tell(case['seed']), tell(case['seed'])
    out.execs += 2
    if a != b:
        out.bad('seed', 'two generations from seed %d differ: %s' % (case['seed'], diff(a, b)))
    want = json.dumps(a)
    for h in ('1', '2'):
        code = 'import sys; sys.path.insert(0, %r); from mc import env; env.setup(); import json; from mc.checks import c30; print(json.dumps(c30.tell(%d)))' % (
            os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), case['seed'])
        p = subprocess.run([sys.executable, '-B', '-c', code], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True)
        out.transitions += 1
        if p.returncode:
            raise RuntimeError(p.stderr[-600:])
        got = p.stdout.strip().splitlines()[-1]
        if got != want:
            out.bad('seed', 'another process generates something else from seed %d: %s' % (case['seed'], diff(a, json.loads(got))))
    other = tell(case['seed'] + 100)
    if json.dumps(other) == want:
        out.bad('seed', 'seeds %d and %d give the same' % (case['seed'], case['seed'] + 100))
    out.nontrivial = True
    out.state([want[:2000]])


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'part %d: %.300s / %.300s' % (i, x, y)
    return 'lengths'


FAMILIES = [
    core.Family('graphs', graph_gen, graph_run, 'three kinds of graphs, eleven settings of borders and counts; every single departure among the first draws, all pairs in the first five'),
    core.Family('parts', parts_gen, parts_run, 'small graphs, materials with all borders, contractors, extensions, samples; every single departure among the first draws'),
    core.Family('landscapes', land_gen, land_run, 'landscapes for all projects of 3 works with 3 kinds of needs; scheduled afterwards'),
    core.Family('block graphs', block_gen, block_run, 'four kinds of block graphs, 1..5 blocks, upper and lower borders'),
    core.Family('seeds', seeds_gen, seeds_run, 'everything twice in this process and in two processes with other hash seeds'),
]
