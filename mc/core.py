"""Exhaustive-exploration runner.

A check is a list of families. A family enumerates a finite set of cases (JSON values, in a fixed order) and runs
each one against the code under test, comparing what it did with an independent reference. Cases are sharded over
forked worker processes; every case in the stated bounds is executed unless the wall-clock guard fires, in which
case the evidence says so ("exhaustive": false)."""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('MC_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.json')


def h64(x) -> int:
    if not isinstance(x, (bytes, str)):
        x = json.dumps(x, sort_keys=True, default=str)
    if isinstance(x, str):
        x = x.encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Out:
    """What one case reports."""
    __slots__ = ('states', 'transitions', 'execs', 'nontrivial', 'viol', 'sample')

    def __init__(self):
        self.states = []        # hashes of the states reached
        self.transitions = 0    # operations / decisions executed
        self.execs = 0          # complete executions of the real code compared with the reference
        self.nontrivial = False
        self.viol = []          # (fingerprint, message)
        self.sample = None

    def state(self, x):
        self.states.append(h64(x))

    def bad(self, fingerprint, message):
        self.viol.append((fingerprint, message))


class Family:
    def __init__(self, name, gen, run, rule='', tier='quick'):
        self.name, self.gen, self.run, self.rule = name, gen, run, rule
        self.tier = tier  # 'quick' families run in both tiers


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang('no result after %d s of CPU time' % CASE_CPU)


CASE_CPU = float(os.environ.get('MC_CASE_CPU', 100))  # the slowest case needs a small part of this


def run_case(fam, case):
    out = Out()
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        fam.run(case, out)
    except Hang as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = next((f for f in reversed(tb) if '/sampo/' in f.filename), tb[-1])
        out.bad('hang:%s:%s' % (os.path.basename(site.filename), site.name), ''.join(traceback.format_exception(e))[-3000:])
    except Exception as e:  # the harness handles the exceptions that the property allows; any other is a finding
        tb = traceback.extract_tb(e.__traceback__)
        site = next((f for f in reversed(tb) if '/sampo/' in f.filename), tb[-1])
        out.bad('crash:%s:%s:%s' % (type(e).__name__, os.path.basename(site.filename), site.name),
                ''.join(traceback.format_exception(e))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return out


MAX_VIOL = 12
FAILFAST = bool(os.environ.get('MC_FAILFAST'))  # for trying many planted bugs: stop at the first violation


def _worker(args):
    fams, tier, k, n, deadline, conn, stop = args
    global CASE_CPU
    if tier == 'thorough':
        CASE_CPU *= 12
    res = {'families': {}, 'viol': [], 'complete': True}
    states = set()
    hangs = 0
    try:
        for fam in fams:
            st = {'cases': 0, 'transitions': 0, 'execs': 0, 'nontrivial': 0, 'samples': [], 'states': 0, 'secs': 0.0}
            res['families'][fam.name] = st
            t0 = time.time()
            for i, case in enumerate(fam.gen(tier)):
                if i % n != k:
                    continue
                if time.time() > deadline or hangs > 1 or FAILFAST and stop.is_set():  # a hang costs much and is a violation anyway
                    res['complete'] = False
                    break
                out = run_case(fam, case)
                st['cases'] += 1
                st['transitions'] += out.transitions
                st['execs'] += out.execs
                st['nontrivial'] += int(out.nontrivial)
                salt = h64(fam.name)
                for s in out.states:
                    s ^= salt
                    if s not in states:
                        states.add(s)
                        st['states'] += 1
                if (out.nontrivial and len(st['samples']) < 1) or (k == 0 and i == 0):
                    st['samples'].append({'family': fam.name, 'case': case, 'observed': out.sample})
                if out.viol:
                    stop.set()
                hangs += sum(fp.startswith('hang:') for fp, _ in out.viol)
                for fp, msg in out.viol:
                    res['viol'].append({'family': fam.name, 'fingerprint': '%s/%s' % (fam.name, fp), 'case': case,
                                        'message': msg})
                if len(res['viol']) > 4000:
                    break
            st['secs'] = round(time.time() - t0, 2)
        res['states'] = states
    except BaseException as e:  # a generator failed: report it, the parent turns it into an error of the check
        res['error'] = ''.join(traceback.format_exception(e))
        res['states'] = states
    conn.send(res)
    conn.close()


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid and e.get('status') == 'open']


def run_check(pid, title, families, tier, seed, budget=None, level='model_checking', rule='', assumptions=(),
              nproc=None, only_family=None):
    t0 = time.time()
    fams = [f for f in families if tier == 'thorough' or f.tier == 'quick']
    if only_family:
        fams = [f for f in fams if re.search(only_family, f.name)]
    budget = budget or (720 if tier == 'quick' else 6 * 3600)
    budget = float(os.environ.get('MC_BUDGET', budget))
    nproc = nproc or int(os.environ.get('MC_NPROC', os.cpu_count() or 4))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    procs = []
    for k in range(nproc):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=((fams, tier, k, nproc, deadline, w, stop),))
        p.start()
        w.close()
        procs.append((p, r))
    results = []
    for p, r in procs:
        try:
            results.append(r.recv())
        except EOFError:
            results.append({'error': 'worker died', 'families': {}, 'viol': [], 'complete': False, 'states': set()})
        p.join()
    errors = [r['error'] for r in results if 'error' in r]
    all_states = set().union(*[r['states'] for r in results])
    complete = all(r['complete'] for r in results) and not errors
    per_family = {}
    samples = []
    for f in fams:
        agg = {'cases': 0, 'transitions': 0, 'execs': 0, 'nontrivial': 0}
        secs = 0
        fs = []
        for r in results:
            st = r['families'].get(f.name)
            if not st:
                continue
            for key in agg:
                agg[key] += st[key]
            secs = max(secs, st['secs'])
            fs += st['samples']
        agg['max_worker_seconds'] = secs
        agg['rule'] = f.rule
        per_family[f.name] = agg
        samples += fs[:2]
    viol = [v for r in results for v in r['viol']]
    known = load_known(pid)
    hit = {}
    fresh = []
    for v in viol:
        for e in known:
            if matches(e, v):
                hit.setdefault(e['id'], []).append(v)
                break
        else:
            fresh.append(v)
    tot = {key: sum(a[key] for a in per_family.values()) for key in ('cases', 'transitions', 'execs', 'nontrivial')}
    cov = {'samples': json.loads(json.dumps(samples[:12], default=str)), 'exhaustive': complete,
           'families': per_family, 'rule': rule}
    cov.update({'states': len(all_states), 'transitions': tot['transitions'],
                'traces_validated_against_impl': tot['execs']})
    cov['cases'] = tot['cases']
    cov['nontrivial_cases'] = tot['nontrivial']
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                   'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)},
                  f, indent=1)
    print('%s %s [%s] cases=%d executions=%d states=%d transitions=%d exhaustive=%s %.1fs' % (
        pid, title, tier, tot['cases'], tot['execs'], len(all_states), tot['transitions'], complete,
        time.time() - t0))
    for name, a in per_family.items():
        print('   %-34s cases=%d nontrivial=%d execs=%d %.1fs' % (name, a['cases'], a['nontrivial'], a['execs'],
                                                                 a['max_worker_seconds']))
    for e in known:
        n = len(hit.get(e['id'], []))
        if n:
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, e['what'], n))
        else:
            print('note: known finding %s was not observed in this run' % e['id'])
    if errors:
        print('CHECK ERROR', errors[0], file=sys.stderr)
        return 2
    rdir = os.path.join(EVID, 'replay')
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        # the smallest failing case of each kind is the most useful one
        fresh.sort(key=lambda v: len(json.dumps(v['case'], default=str)))
        seen = {}
        for v in fresh:
            seen.setdefault(v['fingerprint'], v)
        for fp, v in list(seen.items())[:MAX_VIOL]:
            path = os.path.join(rdir, '%s-%016x.json' % (pid, h64([v['fingerprint'], v['case']])))
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
            print('  %s\n  case %s\n  %s' % (fp, json.dumps(v['case'], default=str)[:600], v['message'][:900]))
        print('%d violating observations, %d kinds' % (len(fresh), len(seen)))
        return 1
    return 0


def matches(entry, v):
    """A known finding names the family, the failure kind and (exactly) the failing cases or a decidable condition on
    them, so any other violation of the same property is still reported."""
    if not re.fullmatch(entry['fingerprint'], v['fingerprint']):
        return False
    if 'cases' in entry:
        return v['case'] in entry['cases'] or json.loads(json.dumps(v['case'])) in entry['cases']
    return True


def replay(families, path):
    with open(path) as f:
        v = json.load(f)
    fam = next(f for f in families if f.name == v['family'])
    out = run_case(fam, v['case'])
    print('replaying %s %s' % (v['family'], json.dumps(v['case'])))
    print('observed:', json.dumps(out.sample, default=str))
    for fp, msg in out.viol:
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        print(' ', fp, msg)
    return 1 if out.viol else 0


def product_cases(**dims):
    names = list(dims)
    for vals in itertools.product(*dims.values()):
        yield dict(zip(names, vals))
