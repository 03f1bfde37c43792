import itertools

from mc import core, tl
from mc.tl import JustInTimeTimeline, Occupancy, Releases, Rig, WorkSpec

RULE = ('every operation sequence over the alphabet, up to the depth of the family, is replayed on a fresh append-only timeline and '
        'compared with the release time of every single worker')
ASSUMPTIONS = ('teams never ask for more workers than the contractor owns (schedulers filter those before)',)
CAPS = {'c0': {'driver': 3, 'fitter': 2}}
TEAMS = {'D': [('driver', 1)], 'DD': [('driver', 2)], 'DF': [('driver', 1), ('fitter', 1)], 'F': [('fitter', 1)],
         'FFD': [('fitter', 2), ('driver', 1)], 'D3': [('driver', 3)], 'D3F': [('driver', 3), ('fitter', 1)]}
PROBES = [('D', 1), ('DD', 2), ('DF', 3), ('D3F', 1), ('FFD', 2)]


def run_seq(ops, out):
    """op: [team, chain durations, lag or delay, kind] kind: '' as soon as the team is released, 'i' independent,
    'p' after the previous work plus the lag, '@' at an explicit later moment (release + delay), 't' specified duration 4"""
    rig, rel, occ = Rig(JustInTimeTimeline, CAPS), Releases(CAPS), Occupancy(CAPS)
    # the first node of a project is its start node
    nodes, workers = rig.node([0], [], ident='start')
    rig.place(nodes, workers, 0, at=0)
    prev = None
    for i, (tn, chain, x, kind) in enumerate(ops):
        team = TEAMS[tn]
        hist = ops[:i + 1]
        parents = [(prev, x)] if 'p' in kind and prev is not None else []
        nodes, workers = rig.node(chain, team, parents=parents)
        spec = WorkSpec(is_independent='i' in kind)
        release = rel.earliest('c0', team, 'i' in kind)
        st, _, _ = rig.find(nodes, workers, 0, spec)
        out.transitions += 1
        lo = max(release, int(rig.n2s[prev].finish_time) + x if parents else 0)
        if int(st) != lo:
            out.bad('find', '%s: proposed %d, the team is released at %d and may start at %d' % (hist, int(st), release, lo))
            return
        at = None
        if '@' in kind:
            at = lo = release + x
        got = rig.place(nodes, workers, 0, spec, at=at, assigned=4 if 't' in kind else None)
        out.transitions += 1
        exp, t = [], lo
        for d in chain:
            exp.append((t, t + d))
            t += d
        if 't' in kind:
            exp = [(lo, got[0][1])] + [(a[1], b[1]) for a, b in zip(got, got[1:])]
            t = lo + 4
            if got[-1][1] != t:
                exp = None
        if got != exp:
            out.bad('place', '%s: recorded %s, expected %s' % (hist, got, exp))
            return
        if not occ.free('c0', team, lo, t - lo, 'i' in kind):
            out.bad('overbooked', '%s: %s..%s does not fit' % (hist, lo, t))
            return
        occ.add('c0', team, lo, t - lo, 'i' in kind)
        rel.add('c0', team, t, 'i' in kind)
        prev = nodes[-1]
        out.state(rel.key())
    out.execs += 1
    end = max([v for ts in rel.t.values() for v in ts] + [0])
    for team, d in PROBES:
        for indep in (False, True):
            nodes, workers = rig.node([d], TEAMS[team])
            late, _ = rig.node([d], TEAMS[team], parents=[(prev, 2)])
            for t in range(0, end + 4):
                free = t >= rel.earliest('c0', TEAMS[team], indep)
                for nn, want in ((nodes, free), (late, free and t >= int(rig.n2s[prev].finish_time) + 2)):
                    got = rig.can(nn, workers, t, d, WorkSpec(is_independent=indep))
                    out.transitions += 1
                    if got != want:
                        out.bad('can', '%s then %s for %d at %d%s%s: answer %s' % (
                            ops, team, d, t, ' indep' if indep else '', ' after the last work' if nn is late else '', got))
                        return
    out.sample = {'final': rel.key()}


def make(name, alpha, depth, tier='quick', split=2):
    def gen(t):
        dd = depth[0 if t == 'quick' else 1]
        for pre in itertools.product(alpha, repeat=min(split, dd)):
            yield {'prefix': [list(x) for x in pre], 'depth': dd}

    def run(case, out):
        out.nontrivial = True
        for suf in itertools.product(alpha, repeat=case['depth'] - len(case['prefix'])):
            run_seq(case['prefix'] + [list(x) for x in suf], out)
            if out.viol:
                return
    return core.Family(name, gen, run, 'alphabet of %d operations, all sequences of length %s (quick, thorough)' % (len(alpha), depth),
                       tier)


A1 = [[t, [d], 0, ''] for t in ('D', 'DD', 'DF', 'F', 'FFD', 'D3') for d in (1, 3)]
A2 = [['D', [2], 0, ''], ['DD', [1], 3, 'p'], ['DF', [2], 0, ''], ['F', [4], 0, 'p'], ['D', [5], 2, '@'], ['D3', [1], 0, '']]
A3 = [['D', [2], 0, ''], ['DD', [1], 0, 'i'], ['DF', [3], 0, 'i'], ['F', [2], 0, ''], ['D', [3, 1], 1, 'p'], ['DF', [1, 2], 0, 't'], ['D3F', [2], 1, '@']]
FAMILIES = [make('releases', A1, (3, 4)), make('deep', A2, (5, 6)), make('modes', A3, (4, 5))]
