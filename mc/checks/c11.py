import itertools

import numpy as np

from mc import core, fams, ga
from mc import worlds as W

RULE = ('the genetic operators run on every valid parent (pair) of the family with every vector of random answers (up to the stated number of '
        'departures from the default answer); every child is judged by an independent validity test, and parents are compared before and after')
D1, DF, N0, FD, SV = fams.D1, fams.DF, fams.N0, fams.FD, fams.SV
DAGS4 = [[], [[0, 1, 0, 'FS']], [[0, 1, 0, 'FS'], [0, 2, 0, 'FS']], [[0, 2, 0, 'FS'], [1, 2, 0, 'FS']], [[0, 1, 0, 'FS'], [2, 3, 0, 'FS']],
         [[0, 1, 0, 'FS'], [0, 2, 0, 'FS'], [1, 3, 0, 'FS'], [2, 3, 0, 'FS']], [[0, 3, 0, 'FS']], [[0, 1, 0, 'FS'], [1, 2, 0, 'FS'], [2, 3, 0, 'FS']],
         [[0, 1, 0, 'IFS'], [0, 2, 0, 'FS']], [[1, 2, 0, 'IFS'], [0, 2, 0, 'FS'], [2, 3, 2, 'FFS']]]


def world(n, edges, works=None, con=None, pri=None, spec=None):
    ws = [dict((works or [D1, DF])[i % len(works or [D1, DF])]) for i in range(n)]
    for i, p in enumerate(pri or []):
        ws[i]['pri'] = p
    w = {'works': W.with_chains(ws, edges), 'edges': edges, 'con': con or fams.TWO}
    if spec:
        w['spec'] = spec
    return w


def default_res(rig):
    return rig.res_matrix({g: next(iter(rig.rows(g, rig.capacity))) for g in rig.reqs})


def order_worlds(t):
    for e in DAGS4:
        yield world(4, e), None
    for e in DAGS4[:5]:
        if all(a < b < 3 for a, b, _, _ in e):
            yield world(3, e), None
    for e in DAGS4[:8]:
        for pri in itertools.product([1, 2], repeat=4):
            if max(pri) == 2 and pri[0] == 1 and all(pri[a] <= pri[b] for a, b, _, _ in e):
                yield world(4, e, pri=pri), None


def gen_mut(t):
    for w, _ in order_worlds(t):
        yield {'w': w, 'dev': 4 if t == 'quick' else None}


def run_mut(case, out):
    w = case['w']
    rig = ga.Rig(w)
    res = default_res(rig)
    orders = list(rig.orders())
    succ = {o: set() for o in orders}
    out.nontrivial = len(orders) > 1
    for o in orders:
        def once():
            ind = rig.ind(o, res)
            m = rig.tb.mutate_order(ind)
            return m, ind
        for dec, (m, ind) in rig.explore(once, case['dev']):
            out.execs += 1
            out.transitions += len(dec)
            e = rig.bad(m)
            if e or not np.array_equal(m[1], res):
                out.bad('mutate_order:%s' % (e[0] if e else 'resources'), 'from %s with %s: %s' % (o, dec, e or 'the resources changed'))
                return
            succ[o].add(tuple(int(x) for x in m[0]))
    out.state([w['edges'], sorted(orders)])
    for s in succ:
        out.state([w, s])
    if max(x.get('pri', 1) for x in w['works']) == 1:
        seen, todo = {orders[0]}, [orders[0]]
        while todo:
            for x in succ[todo.pop()]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        if len(seen) < len(orders):
            out.bad('reach', 'from %s the order %s cannot be reached by any sequence of mutations' % (orders[0], sorted(set(orders) - seen)[0]))
    out.sample = {'orders': len(orders), 'mutants of the first': len(succ[orders[0]])}


def gen_mate(t):
    for w, _ in order_worlds(t):
        yield {'w': w, 'dev': None}
    six = [[], [[0, 3, 0, 'FS'], [1, 4, 0, 'FS'], [2, 5, 0, 'FS']], [[0, 1, 0, 'FS'], [1, 2, 0, 'FS'], [3, 4, 0, 'FS']], [[0, 2, 0, 'FS'], [1, 2, 0, 'FS'], [2, 3, 0, 'FS'], [2, 4, 0, 'FS']]]
    for e in six[1:]:
        for k in range(8):
            yield {'w': world(6, e), 'dev': None, 'step': 8 * 29 if t == 'quick' else 8, 'off': k}
        if all(a // 3 == b // 3 for a, b, _, _ in e) or e is six[1]:
            yield {'w': world(6, e, pri=[1, 1, 1, 2, 2, 2]), 'dev': None, 'step': 3 if t == 'quick' else 1}


def run_mate(case, out):
    w = case['w']
    rig = ga.Rig(w)
    res = default_res(rig)
    orders = list(rig.orders())
    out.nontrivial = len(orders) > 1
    step = case.get('step', 1)
    seen = set()
    for i, (o1, o2) in enumerate(itertools.product(orders, repeat=2)):
        if i % step != case.get('off', 0):
            continue
        p1, p2 = rig.ind(o1, res), rig.ind(o2, res)
        b1, b2 = ga.dump(p1), ga.dump(p2)
        for dec, (c1, c2) in rig.explore(lambda: rig.tb.mate_order(p1, p2), case['dev']):
            out.execs += 1
            out.transitions += len(dec)
            for c in (c1, c2):
                e = rig.bad(c)
                if e:
                    out.bad('mate_order:' + e[0], 'parents %s %s with %s: %s' % (o1, o2, dec, e[1]))
                    return
                seen.add(tuple(int(x) for x in c[0]))
            if ga.dump(p1) != b1 or ga.dump(p2) != b2:
                out.bad('mate_order:parent', 'a parent changed: %s %s with %s' % (o1, o2, dec))
                return
            if o1 == o2 and any(tuple(int(x) for x in c[0]) != o1 for c in (c1, c2)):
                out.bad('mate_order:equal', 'equal parents %s have a different child with %s' % (o1, dec))
                return
    for s in seen:
        out.state([w, s])
    out.sample = {'orders': len(orders), 'children': len(seen)}


def res_worlds(t):
    alpha = [D1, DF, FD, N0]
    cons = [fams.TWO, fams.ORD, fams.SPLIT]
    specs = [None, {'0': {'con': ['c1']}}, {'1': {'con': ['c0']}}]
    for ws in itertools.product(alpha, repeat=2):
        for con in cons:
            for sp in specs:
                w = world(2, [[0, 1, 0, 'FS']], list(ws), con, spec=sp)
                if _feasible(w):
                    yield w


def _feasible(w):
    from mc import ref
    return ref.feasible(w)


def parents(rig, opt):
    """every resource part (and, with movable borders, every border part that still covers it)"""
    genes = sorted(rig.reqs)
    spans = [list(rig.rows(g, rig.capacity)) for g in genes]
    free = {rig.s, rig.f}
    spans = [s if g not in free else s[:1] for g, s in zip(genes, spans)]
    for rows in itertools.product(*spans):
        m = rig.res_matrix(dict(zip(genes, rows)))
        yield m, None
        if opt:
            low = np.zeros_like(rig.capacity)
            for g in genes:
                c = m[g][-1]
                low[c] = np.maximum(low[c], m[g][:-1])
            if (low != rig.capacity).any():
                yield m, low


def gen_res(t):
    for w in res_worlds(t):
        yield {'w': w, 'dev': 2 if t == 'quick' else 3}


def run_res(case, out):
    rig = ga.Rig(case['w'])
    o = next(rig.orders())
    allp = list(parents(rig, True))
    out.nontrivial = len(allp) > 1
    seen = set()
    for m, b in allp:
        for op in ('mutate_resources', 'mutate_resource_borders', 'mutate'):
            def once():
                x = rig.ind(o, m, b)
                return getattr(rig.tb, op)(x)
            for dec, x in rig.explore(once, case['dev']):
                out.execs += 1
                out.transitions += len(dec)
                e = rig.bad(x)
                if not e and op != 'mutate' and [int(z) for z in x[0]] != list(o):
                    e = 'order', 'the order changed'
                if not e and op == 'mutate_resource_borders' and not np.array_equal(x[1], m):
                    e = 'resources', 'the teams changed'
                if not e and op != 'mutate_resource_borders' and not np.array_equal(x[2], rig.capacity if b is None else b):
                    e = 'borders', 'the borders changed'
                if e:
                    out.bad('%s:%s' % (op, e[0]), 'teams %s borders %s with %s: %s' % (m.tolist(), None if b is None else b.tolist(), dec, e[1]))
                    return
                seen.add(str(ga.dump(x)))
    for s in seen:
        out.state(s)
    out.sample = {'parents': len(allp), 'mutants': len(seen)}


def gen_mres(t):
    for i, w in enumerate(res_worlds(t)):
        if t != 'quick' or i % 3 == 0:
            yield {'w': w, 'par': 8 if t == 'quick' else 24}


def run_mres(case, out):
    rig = ga.Rig(case['w'])
    o = next(rig.orders())
    allp = list(parents(rig, True))
    allp = allp[::max(1, len(allp) // case['par'])]
    out.nontrivial = len(allp) > 1
    seen = set()
    for i, ((m1, b1), (m2, b2)) in enumerate(itertools.product(allp, repeat=2)):
        opt = b1 is not None or b2 is not None
        p1, p2 = rig.ind(o, m1, b1), rig.ind(o, m2, b2)
        d1, d2 = ga.dump(p1), ga.dump(p2)
        for op in ('mate_resources', 'mate'):
            for dec, kids in rig.explore(lambda: getattr(rig.tb, op)(p1, p2, optimize_resources=opt), 3):
                out.execs += 1
                out.transitions += len(dec)
                if ga.dump(p1) != d1 or ga.dump(p2) != d2:
                    out.bad(op + ':parent', 'a parent changed: %s %s with %s' % (d1, d2, dec))
                    return
                for c in kids:
                    e = rig.bad(c)
                    if not e:
                        for g in rig.reqs:
                            if c[1][g].tolist() not in (m1[g].tolist(), m2[g].tolist()):
                                e = 'invented', 'work %d got %s, its parents have %s and %s' % (g, c[1][g].tolist(), m1[g].tolist(), m2[g].tolist())
                    if e:
                        out.bad('%s:%s' % (op, e[0]), 'parents %s %s with %s: %s' % (d1, d2, dec, e[1]))
                        return
                    seen.add(str(ga.dump(c)))
                if sorted([kids[0][1][g].tolist() for g in rig.reqs] + [kids[1][1][g].tolist() for g in rig.reqs]) != \
                        sorted([m1[g].tolist() for g in rig.reqs] + [m2[g].tolist() for g in rig.reqs]):
                    out.bad(op + ':lost', 'parents %s %s with %s: the children do not share out the genes' % (d1, d2, dec))
                    return
                # children do not share arrays with each other or the parents
                k = ga.dump(kids[1])
                rig.rand.ch = _Ones()
                rig.tb.mutate_resource_borders(kids[0])
                rig.tb.mutate(kids[0])
                if ga.dump(kids[1]) != k or ga.dump(p1) != d1 or ga.dump(p2) != d2:
                    out.bad(op + ':shared', 'mutating a child changes its sibling or parent: %s %s' % (d1, d2))
                    return
    for s in seen:
        out.state(s)
    out.sample = {'parents': len(allp), 'children': len(seen)}


class _Ones:
    """always the last answer"""

    def pick(self, n):
        return n - 1


def gen_seq(t):
    for e in ([[0, 1, 0, 'FS']], [[0, 1, 0, 'IFS']], []):
        for con in (fams.TWO, fams.ORD):
            for opt in (False, True):
                yield {'w': world(3, e, [D1, DF, FD], con), 'opt': opt, 'dev': 2 if t == 'quick' else 3}


def run_seq(case, out):
    """two generations: mate, borders, mutate, mate, mutate"""
    rig = ga.Rig(case['w'])
    orders = list(rig.orders())
    lo = default_res(rig)
    hi = rig.res_matrix({g: list(rig.rows(g, rig.capacity))[-1] for g in rig.reqs})
    out.nontrivial = True
    seen = set()

    def once():
        a, b = rig.ind(orders[0], lo), rig.ind(orders[-1], hi)
        hist = []
        for gen in range(2):
            a, b = rig.tb.mate(a, b, optimize_resources=case['opt'])
            hist += [rig.bad(a), rig.bad(b)]
            for x in (a, b):
                if case['opt']:
                    rig.tb.mutate_resource_borders(x)
                    hist.append(rig.bad(x))
                rig.tb.mutate(x)
                hist.append(rig.bad(x))
        return a, b, hist
    for dec, (a, b, hist) in rig.explore(once, case['dev']):
        out.execs += 1
        out.transitions += len(dec)
        e = next((h for h in hist if h), None)
        if e:
            out.bad('sequence:' + e[0], 'with %s: %s' % (dec, e[1]))
            return
        for x in (a, b):
            seen.add(str(ga.dump(x)))
            if not rig.tb.validate(x):
                out.bad('sequence:validate', 'a valid chromosome is rejected: %s' % ga.dump(x))
                return
    for s in seen:
        out.state(s)
    out.sample = {'chromosomes': len(seen)}


def gen_val(t):
    for e in DAGS4[:7]:
        e = [x for x in e if x[1] < 3]
        for con in (fams.TWO, fams.ORD):
            for sp in (None, {'0': {'con': ['c1']}}, {'0': {'team': {'driver': 2}}}, {'1': {'team': {'fitter': 2}}}, {'1': {'team': {'driver': 1, 'fitter': 1}}}):
                yield {'w': world(3, e, [D1, DF, N0], con, spec=sp)}


def run_val(case, out):
    """the validity test of the search accepts exactly the consistent chromosomes"""
    rig = ga.Rig(case['w'])
    res = default_res(rig)
    roomy = all(res[g][-1] in rig.allowed[g] and all(v <= rig.capacity[res[g][-1]][k] for k, v in rig.fixed[g].items()) for g in rig.fixed)
    out.nontrivial = True
    for p in itertools.permutations(sorted(rig.reqs)):
        if not roomy:
            break
        want = rig.order_bad(p) is None
        got = bool(rig.tb.validate(rig.ind(p, res)))
        out.execs += 1
        out.transitions += 1
        out.state([case['w'], p])
        if got != want:
            out.bad('validate:order', 'order %s (%s): answer %s' % (p, rig.order_bad(p), got))
            return
    o = next(rig.orders())
    for g in sorted(rig.idx.values()):
        for c in range(len(rig.con)):
            for j in range(len(rig.kind2index)):
                for n in range(0, int(rig.capacity.max()) + 2):
                    for cut in (0, 1, -1):
                        m = res.copy()
                        m[g] = 0
                        m[g][j] = n
                        m[g][-1] = c
                        b = rig.capacity.copy()
                        b[c][j] = max(0, b[c][j] - cut)
                        want = c in rig.allowed[g] and b[c][j] <= rig.capacity[c][j] or c in rig.allowed[g] and False
                        need = np.zeros_like(b)
                        used = set()
                        for x in rig.reqs:
                            used.add(int(m[x][-1]))
                            row = m[x][:-1].copy()
                            for k, v in rig.fixed.get(x, {}).items():
                                row[k] = v      # the specified team replaces the encoded one
                            need[m[x][-1]] = np.maximum(need[m[x][-1]], row)
                        want = want and all((need[k] <= b[k]).all() and (b[k] <= rig.capacity[k]).all() for k in used)
                        got = bool(rig.tb.validate(rig.ind(o, m, b)))
                        out.execs += 1
                        out.transitions += 1
                        out.state([case['w'], g, c, j, n, cut])
                        if got != want:
                            out.bad('validate:resources', 'teams %s borders %s capacity %s: answer %s' % (m.tolist(), b.tolist(), rig.capacity.tolist(), got))
                            return
    out.sample = {'edges': case['w']['edges']}


def F(name, gen, run):
    return core.Family(name, gen, run, run.__doc__ or '')


FAMILIES = [F('order mutation', gen_mut, run_mut), F('order crossover', gen_mate, run_mate), F('resource mutation', gen_res, run_res),
            F('resource crossover', gen_mres, run_mres), F('generations', gen_seq, run_seq), F('validity test', gen_val, run_val)]
