"""Genetic toolbox on a small world, with every random answer decided by the explorer."""
import itertools

import numpy as np

from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

from . import rngmc, sched
from . import worlds as W


class Rig:
    def __init__(self, world, mut=0.5, **kw):
        self.world = world
        self.wg = W.build_graph(world)
        self.con = W.build_contractors(world)
        self.spec = W.build_spec(world)
        self.land = W.build_landscape(world)
        self.rand = rngmc.ChoiceRandom(rngmc.Chooser(()))
        with sched.Quiet():
            self.tb = create_toolbox(self.wg, self.con, 10, mut, mut, mut, {}, self.rand, self.spec,
                                     work_estimator=DefaultWorkEstimator(), landscape=self.land, **kw)
            info = prepare_optimized_data_structures(self.wg, self.con, self.land, self.spec)
        self.index2node, self.work2index, self.kind2index = info[1], info[3], info[4]
        self.capacity = np.array([[c.workers[k].count if k in c.workers else 0
                                   for k in sorted(self.kind2index, key=self.kind2index.get)] for c in self.con])
        n = len(world['works'])
        self.heads = [i for i, h in enumerate(W.chain_heads(n, world['edges'])) if h == i]
        head = W.chain_heads(n, world['edges'])
        self.idx = {W.wid(world, i): self.work2index[W.wid(world, i)] for i in self.heads}
        self.s, self.f = self.work2index[self.wg.start.id], self.work2index[self.wg.finish.id]
        ix = [self.idx[W.wid(world, h)] for h in head]
        self.before = {(ix[a], ix[b]) for a, b, _, t in world['edges'] if t in W.DEP and head[a] != head[b]}
        self.before |= {(self.s, x) for x in ix} | {(x, self.f) for x in ix} | {(self.s, self.f)}
        self.pri = {self.idx[W.wid(world, i)]: world['works'][i].get('pri', 1) for i in self.heads}
        self.size = len(self.idx) + 2
        # gene index -> {kind index: specified count}
        self.fixed = {self.idx[W.wid(world, i)]: {self.kind2index[k]: v for k, v in world.get('spec', {}).get(str(i), {}).get('team', {}).items()
                                                 if k in [q[0] for q in world['works'][i].get('req', [])]} for i in self.heads}
        self.reqs = {}   # gene index -> {kind index: (lo, hi)}
        self.allowed = {}
        for i in self.heads:
            g = self.idx[W.wid(world, i)]
            self.reqs[g] = {self.kind2index[k]: (lo, hi) for k, v, lo, hi in world['works'][i].get('req', [])}
            s = world.get('spec', {}).get(str(i), {})
            self.allowed[g] = [c for c in range(len(self.con)) if not s.get('con') or 'c%d' % c in s['con']]
        for g in (self.s, self.f):
            self.reqs[g], self.allowed[g] = {}, list(range(len(self.con)))

    def orders(self):
        """every order that the dependencies and priorities allow"""
        inner = [g for g in self.reqs if g not in (self.s, self.f)]
        for p in itertools.permutations(inner):
            o = (self.s,) + p + (self.f,)
            if not self.order_bad(o):
                yield o

    def order_bad(self, o):
        pos = {g: i for i, g in enumerate(o)}
        if len(o) != self.size or set(o) != set(self.reqs):
            return 'not a permutation of the works: %s' % list(o)
        for a, b in self.before:
            if pos[a] > pos[b]:
                return 'work %d comes before its predecessor %d: %s' % (b, a, list(o))
        inner = [self.pri[g] for g in o if g in self.pri]
        if inner != sorted(inner):
            return 'priorities are mixed up: %s' % list(o)
        return None

    def rows(self, g, borders):
        """every team and contractor allowed for the work"""
        k = len(self.kind2index)
        for c in self.allowed[g]:
            spans = [range(self.reqs[g][j][0], min(self.reqs[g][j][1], int(borders[c][j])) + 1) if j in self.reqs[g] else (0,)
                     for j in range(k)]
            for t in itertools.product(*spans):
                yield list(t) + [c]

    def bad(self, ind, order=True, res=True):
        """-> None or what is wrong with the chromosome"""
        o, r, b = ind[0], ind[1], ind[2]
        if order:
            e = self.order_bad([int(x) for x in o])
            if e:
                return 'order', e
        if not res:
            return None
        if np.asarray(r).shape != (self.size, len(self.kind2index) + 1):
            return 'shape', 'resources %s' % (np.asarray(r).shape,)
        if (b > self.capacity).any() or (b < 0).any():
            return 'border', 'borders %s, capacities %s' % (b.tolist(), self.capacity.tolist())
        for g in self.reqs:
            row = [int(x) for x in r[g]]
            c = row[-1]
            if c not in self.allowed[g]:
                return 'contractor', 'work %d got contractor %d, allowed %s' % (g, c, self.allowed[g])
            for j, n in enumerate(row[:-1]):
                lo, hi = self.reqs[g].get(j, (0, 0))
                if not lo <= n <= hi:
                    return 'team', 'work %d got %d of kind %d, needs %d..%d' % (g, n, j, lo, hi)
                if n > b[c][j]:
                    return 'border', 'work %d got %d of kind %d, the border of its contractor is %d' % (g, n, j, b[c][j])
        return None

    def ind(self, order, res, borders=None):
        zones = np.zeros((self.size, len(self.land.zone_config.start_statuses)), dtype=int)
        b = np.array(self.capacity if borders is None else borders, dtype=int)
        return self.tb.Individual((np.array(order), np.array(res, dtype=int), b, self.spec, zones))

    def res_matrix(self, rows):
        m = np.zeros((self.size, len(self.kind2index) + 1), dtype=int)
        for g, row in rows.items():
            m[g] = row
        return m

    def explore(self, fn, dev=None, limit=None):
        """fn() is run for every vector of random answers"""
        def run(ch):
            self.rand.ch = ch
            return fn()
        return rngmc.explore(run, dev, limit)


def dump(ind):
    return [np.asarray(ind[0]).tolist(), np.asarray(ind[1]).tolist(), np.asarray(ind[2]).tolist(), np.asarray(ind[4]).tolist()]
