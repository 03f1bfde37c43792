import itertools

from mc import core, tl
from mc.tl import MomentumTimeline, Occupancy, Rig, WorkSpec

RULE = ('every operation sequence over the alphabet, up to the depth of the family, is replayed on a fresh interval timeline; '
        'proposed starts, recorded times and every can-schedule answer are compared with a brute-force occupancy table')
ASSUMPTIONS = ('teams never ask for more workers than the contractor owns (schedulers filter those before)',)
TEAMS = {'D': [('driver', 1)], 'DD': [('driver', 2)], 'DF': [('driver', 1), ('fitter', 1)], 'F': [('fitter', 1)],
         'FD': [('fitter', 1), ('driver', 1)], 'DDF': [('driver', 2), ('fitter', 1)]}
PROBES = [('D', 1), ('DD', 2), ('DF', 3), ('F', 1)]


def step(rig, occ, op, out, hist):
    """op: [team, chain durations, earliest, kind] kind: '' normal, 'i' independent, '@' explicit start, 'p' after the
    previous work with a lag of `earliest`, 't' specified duration"""
    team = TEAMS[op[0]]
    kind = op[3]
    chain = op[1]
    lo = op[2]
    spec = WorkSpec(is_independent='i' in kind)
    parents = []
    if 'p' in kind and rig.n2s:
        prev = rig.keep[-1][-1]
        parents = [(prev, op[2])]
        lo = int(rig.n2s[prev].finish_time) + op[2]
    nodes, workers = rig.node(chain, team, parents=parents)
    d = sum(chain)
    if 't' in kind:
        d = 4
        spec.assigned_time = tl.Time(d)
    if 'i' in kind:
        want = max(lo, occ.last('c0', team)) if d else lo
    else:
        want = occ.earliest('c0', team, lo, d) if d else lo
    at = None
    if '@' in kind:
        at = want = next(t for t in range(lo + 1, tl.HOR) if occ.free('c0', team, t, d))
    base = 0 if parents else lo
    if at is None:
        st, ft, _ = rig.find(nodes, workers, base, spec)
        out.transitions += 1
        if (int(st), int(ft)) != (want, want + d):
            out.bad('find', '%s: proposed %d..%d, the earliest slot is %d..%d' % (hist, int(st), int(ft), want, want + d))
            return False
    got = rig.place(nodes, workers, base, spec, at=at, assigned=4 if 't' in kind else None)
    out.transitions += 1
    exp, t = [], want
    if 't' in kind:
        exp = None
        if got[0][0] != want or got[-1][1] != want + d:
            out.bad('place', '%s: recorded %s, expected %d..%d' % (hist, got, want, want + d))
            return False
    else:
        for x in chain:
            exp.append((t, t + x))
            t += x
        if got != exp:
            out.bad('place', '%s: recorded %s, expected %s' % (hist, got, exp))
            return False
    occ.add('c0', team, want, d, 'i' in kind)
    return True


def run_seq(ops, out):
    rig, occ = Rig(MomentumTimeline), Occupancy({'c0': tl.CAPS})
    for i, op in enumerate(ops):
        if not step(rig, occ, op, out, ops[:i + 1]):
            return
        out.state(occ.key())
    out.execs += 1
    end = max([b for iv in occ.iv.values() for a, b, c in iv] + [0])
    for team, d in PROBES:
        for indep in (False, True):
            nodes, workers = rig.node([d], TEAMS[team])
            for t in range(0, end + 2):
                want = t >= occ.last('c0', TEAMS[team]) if indep else occ.free('c0', TEAMS[team], t, d)
                got = rig.can(nodes, workers, t, d, WorkSpec(is_independent=indep))
                out.transitions += 1
                if got != want:
                    out.bad('can', '%s then %s for %d at %d%s: answer %s' % (ops, team, d, t, ' indep' if indep else '', got))
                    return
    out.sample = {'final': occ.key()}


def make(name, alpha, depth, tier='quick', split=2):
    def gen(t):
        dd = depth[0 if t == 'quick' else 1]
        for pre in itertools.product(alpha, repeat=min(split, dd)):
            yield {'prefix': [list(x) for x in pre], 'depth': dd}

    def run(case, out):
        out.nontrivial = True
        rest = case['depth'] - len(case['prefix'])
        for suf in itertools.product(alpha, repeat=rest):
            run_seq(case['prefix'] + [list(x) for x in suf], out)
            if out.viol:
                return
    return core.Family(name, gen, run, 'alphabet of %d operations, all sequences of length %s (quick, thorough)' % (len(alpha), depth),
                       tier)


A1 = [[t, [d], lo, ''] for t in ('D', 'DD', 'DF', 'F') for d in (1, 3) for lo in (0, 2)]
A2 = [['D', [2], 0, ''], ['DD', [1], 3, ''], ['DF', [2], 1, ''], ['FD', [3], 0, ''], ['F', [4], 2, ''], ['DDF', [1], 5, ''], ['D', [5], 4, '']]
A3 = [['D', [2], 0, ''], ['DD', [1], 0, 'i'], ['D', [3], 1, 'i'], ['DF', [2], 0, ''], ['D', [1], 4, '@'], ['F', [2], 2, '@'], ['F', [0], 1, ''], ['DF', [1], 0, 'i']]
A4 = [['D', [1, 2], 0, ''], ['DF', [2, 1], 1, 'p'], ['D', [1], 0, 'p'], ['DD', [2], 3, 'p'], ['F', [3], 0, ''], ['D', [3, 0, 1], 2, ''], ['D', [1, 2], 0, 't'], ['DF', [9], 1, 't']]
FAMILIES = [make('slots', A1, (3, 4)), make('deep', A2, (5, 6)), make('modes', A3, (4, 5)), make('chains', A4, (4, 5))]
