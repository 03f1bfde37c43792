import itertools
import json
import os
import random
import subprocess
import sys

from mc import core, env, fams, ref, sched, snap
from mc import worlds as W

RULE = ('inputs: a dump of graph, contractors, specification and landscape before and after every call; repetition: the same call again, a fresh scheduler, '
        'a scheduler that scheduled other projects before, and other processes with other hash seeds give the same schedule')
DET = sched.FAST + ['heft_avg', 'heft_mom']
ALL = DET + ['rtopo', 'rlft'] + sched.GA


def key(recs):
    if recs is None:
        return 'refused'
    return [sorted((k, v['start'], v['finish'], v['con'], tuple(sorted(v['team'].items()))) for k, v in r.items()) for r, _ in recs]


def one(case, out):
    w, name = case['w'], case['s']
    wg, con, spec, land = W.build_graph(w), W.build_contractors(w), W.build_spec(w), W.build_landscape(w)
    before = snap.inputs(wg, con, spec, land)
    s = sched.SCHEDULERS[name]()
    got = key(sched.run(w, name, w.get('start', 0), wg, con, spec, land, s)[1])
    d = snap.diff(before, snap.inputs(wg, con, spec, land))
    out.execs += 1
    if d:
        out.bad('inputs:%s' % name, 'scheduling changed its inputs: %s' % d)
    if name in DET:
        again = key(sched.run(w, name, w.get('start', 0), wg, con, spec, land, s)[1])
        out.execs += 1
        if again != got:
            out.bad('again:%s' % name, 'the second call returned another schedule: %s, first %s' % (again, got))
    fresh = key(sched.run(w, name, w.get('start', 0))[1])
    out.execs += 1
    if fresh != got:
        out.bad('fresh:%s' % name, 'an equal project got another schedule: %s, first %s' % (fresh, got))
    out.transitions += 3
    out.state([name, got])
    out.nontrivial = got != 'refused'
    out.sample = {'schedule': got}


def gen_one(t):
    gens = [fams.spec3, fams.zones2, fams.w2] + ([fams.w3, fams.pri3, fams.spec2x] if t != 'quick' else [fams.spec2x])
    for g in gens:
        for i, w in enumerate(g(t)):
            for s in ALL if t != 'quick' else (['heft', 'between', 'topo', 'lft'] if g is not fams.w2 else DET + ['rtopo', 'rlft']):
                yield {'s': s, 'w': w}
    for i, w in enumerate(fams.ga2(t)):
        if t != 'quick' or i % 3 == 0:
            for s in sched.GA:
                yield {'s': s, 'w': w}


D1, D2, DF, F1, FD = fams.D1, fams.D2, fams.DF, fams.F1, fams.FD
POOL = [{'works': [D1, DF, D2], 'edges': [[0, 1, 0, 'FS']], 'con': fams.TWO},
        {'works': [DF, D1, F1], 'edges': [[0, 2, 3, 'FS']], 'con': fams.C21},
        {'works': [FD, FD], 'edges': [], 'con': fams.ORD},
        {'works': W.with_chains([D1, D1, DF], [[0, 1, 0, 'IFS']]), 'edges': [[0, 1, 0, 'IFS']], 'con': fams.C21},
        {'works': [D1, DF, D2], 'edges': [], 'con': fams.TWO, 'spec': {'0': {'con': ['c1']}, '1': {'team': {'driver': 2}}, '2': {'indep': 1, 'time': 4}}},
        {'works': [D1, D1, D1], 'edges': [[0, 1, 0, 'FS']], 'con': [{'driver': 1}],
         'zcfg': {'start': {'z': 1}, 'costs': [[0, 1, 1], [1, 0, 1], [1, 1, 0]]}}]
POOL[5]['works'] = [dict(D1, zones=[['z', i % 2 + 1]]) for i in range(3)]


def call(w, name, s):
    """as a user would: without the optional arguments that the project does not need"""
    from sampo.schemas.time import Time
    import numpy as np
    wg, con = W.build_graph(w), W.build_contractors(w)
    k = {}
    if w.get('spec'):
        k['spec'] = W.build_spec(w)
    if w.get('zcfg'):
        k['landscape'] = W.build_landscape(w)
    np.random.seed(0)
    random.seed(0)
    with sched.Quiet():
        return [sorted((a, v['start'], v['finish'], v['con'], tuple(sorted(v['team'].items()))) for a, v in ref.as_records(r)[0].items())
                for r in s.schedule(wg, con, **k)]


def hist(case, out):
    name = case['s']
    alone = [call(POOL[i], name, sched.SCHEDULERS[name]()) for i in case['seq']]
    s = sched.SCHEDULERS[name]()
    for n, i in enumerate(case['seq']):
        got = call(POOL[i], name, s)
        out.transitions += 1
        if got != alone[n]:
            out.bad('history:%s' % name, 'project %d scheduled after %s: %s; alone %s' % (i, case['seq'][:n], got, alone[n]))
            return
    out.execs += 1
    out.state([name, case['seq']])
    out.nontrivial = True
    out.sample = {'last': got}


def gen_hist(t):
    for name in DET:
        for seq in itertools.product(range(len(POOL)), repeat=3 if t == 'quick' else 4):
            yield {'s': name, 'seq': list(seq)}


def batch(case):
    ws = []
    for g in (fams.w2, fams.w3, fams.spec3, fams.named3, fams.w3c, fams.pri3, fams.zones2):
        items = list(g('quick'))
        ws += items[case['part']::case['of'] * max(1, len(items) // case['per'] // case['of'])]
    jobs = [[s, w] for w in ws for s in ('heft', 'between', 'topo', 'lft', 'rtopo', 'rlft')]
    ga = list(fams.ga2('quick'))
    jobs += [[s, w] for w in ga[case['part']::case['of'] * 2] for s in ('ga_par', 'ga_ser')]
    return jobs


def child(jobs, hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, '-B', os.path.join(core.VERIF, 'mc', 'hashchild.py')], input=json.dumps(jobs), env=e,
                       capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def hashes(case, out):
    jobs = batch(case)
    base = child(jobs, 0)
    for hs in case['seeds']:
        got = child(jobs, hs)
        for j, a, b in zip(jobs, base, got):
            out.execs += 1
            if a != b:
                out.bad('hash:%s' % j[0], 'another schedule in a process with hash seed %d: %s: %s, with seed 0: %s' % (hs, json.dumps(j[1]), b, a))
    out.transitions += len(jobs) * (1 + len(case['seeds']))
    for j, a in zip(jobs, base):
        out.state([j[0], a])
    out.nontrivial = True
    out.sample = {'projects': len(jobs)}


def gen_hash(t):
    of = 8
    for i in range(of):
        yield {'part': i, 'of': of, 'per': 10 if t == 'quick' else 60, 'seeds': [1, 2] if t == 'quick' else [1, 2, 3, 4, 5]}


FAMILIES = [core.Family('inputs', gen_one, one, 'specified, zoned and plain projects on every scheduler: inputs unchanged, equal calls equal results'),
            core.Family('history', gen_hist, hist, 'all sequences of 3 (thorough: 4) of 6 projects on one scheduler object'),
            core.Family('hash', gen_hash, hashes, 'projects scheduled by processes with 3 (thorough: 6) hash seeds')]
