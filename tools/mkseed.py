#!/usr/bin/env python3
"""mkseed.py ID FILE...: plants the bugs that FILEs (python, list SEEDS of dicts) describe, one scratch copy each, and keeps those that
build, pass the stable tests and are shown by their demonstration. Prints whether the check of the property catches them."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
PRE = 'import sampo.scheduler  # first: the package has an import cycle\n'
IGN = ['tests/serialization_test.py', 'tests/schedule_object_test.py', 'tests/scheduler/material_scheduling_test.py', 'tests/scheduler/genetic/operators_test.py',
       'tests/scheduler/resources_in_time', 'tests/scheduler/timeline/zone_timeline_test.py']


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout


def tests(d):
    env = dict(PIP_NO_INDEX='1', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/s/mpl', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=d + '.pyc')
    x = d + '.xml'
    sh([PY, '-m', 'pytest', 'tests/', '-q', '-p', 'no:cacheprovider', '-n', '4', '--dist', 'loadfile', '--timeout=120', '--continue-on-collection-errors',
        '--disable-warnings', '-o', 'junit_family=xunit2', '--junitxml=' + x] + ['--ignore=' + i for i in IGN], d, env)
    ok = set()
    for t in ET.parse(x).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
            ok.add(t.get('classname') + '::' + t.get('name'))
    shutil.rmtree(d + '.pyc', ignore_errors=True)
    os.remove(x)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - ok)


def one(s):
    d = '/tmp/s/' + s['id']
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    res = {'id': s['id']}
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return dict(res, error='%s: %d matches of %r' % (f, t.count(old), old[:60]))
            open(p, 'w').write(t.replace(old, new))
        patch = sh('git diff', d)[1]
        sd = '/tmp/s/%s.seed' % s['id']
        shutil.rmtree(sd, ignore_errors=True)
        os.makedirs(sd)
        open(sd + '/patch.diff', 'w').write(patch)
        open(sd + '/demo.sh', 'w').write(DEMO)
        os.chmod(sd + '/demo.sh', 0o755)
        open(sd + '/demo.py', 'w').write(PRE + s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(sd + '/meta.json', 'w'), indent=1)
        c, o = sh(['bash', sd + '/demo.sh'], '/repo')
        if c:
            return dict(res, error='demo fails on the unchanged tree:\n' + o[-1500:])
        c, o = sh(['bash', sd + '/demo.sh'], d)
        if not c:
            return dict(res, error='demo passes with the patch')
        res['demo'] = o.strip().splitlines()[-1][:150] if o.strip() else ''
        c, o = sh([PY, '-B', V + '/check.py', s['property'], '--tier', 'quick'], V, {'MC_REPO': d, 'MC_EVIDENCE': d + '.ev'})
        res['check'] = c
        res['caught'] = c == 1 and 'VIOLATION property=%s' % s['property'] in o
        if not res['caught']:
            res['out'] = o[-600:]
        if '--no-tests' not in sys.argv:
            bad = tests(d)
            if bad:
                return dict(res, error='%d stable tests fail: %s' % (len(bad), bad[:2]))
            dst = os.path.join(V, 'seeded', s['id'])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(sd, dst)
        shutil.rmtree(sd)
        shutil.rmtree(d + '.ev', ignore_errors=True)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    seeds = []
    for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns['SEEDS']
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, seeds):
            print('%-28s %s %s' % (r['id'], 'ERROR ' + r['error'] if 'error' in r else 'kept', {k: v for k, v in r.items() if k not in ('id', 'error')}), flush=True)
