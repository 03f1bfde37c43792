import itertools

from mc import core
from sampo.schemas.apply_queue import ApplyQueue
from sampo.schemas.sorted_list import ExtendedSortedList
from sampo.utilities.collections_util import build_index, first, flatten, reverse_dictionary
from sampo.utilities.linked_list import LinkedList
from sampo.utilities.priority_queue import PriorityQueue

RULE = 'every sequence of operations up to a depth, each step compared with a plain list'


def ll_gen(t):
    d = 5 if t == 'quick' else 7
    ops = ['a0', 'a1', 'r0', 'r1', 'rL', 'r*', 'rF', '+2']
    for start in ([], [0], [0, 1], [1, 1, 0]):
        for seq in itertools.product(range(len(ops)), repeat=d - len(start) // 2):
            if all(x >= 2 for x in seq) and not start:
                continue
            yield {'start': start, 'ops': [ops[x] for x in seq]}


def ll_check(l, ref, out, text):
    got = list(l)
    if got != ref or len(l) != len(ref) or l.is_empty() != (not ref):
        out.bad('linked-list', 'holds %s of length %d, expected %s; %s' % (got, len(l), ref, text))
    it, walk = l.iterator(), []
    while it.has_next():
        walk.append(it.get().value)
        it.next()
    if walk != ref:
        out.bad('linked-list', 'walk gives %s, expected %s; %s' % (walk, ref, text))


def ll_run(case, out):
    l, ref = LinkedList(case['start'] or None), list(case['start'])
    out.nontrivial = True
    ll_check(l, ref, out, str(case))
    for k, o in enumerate(case['ops']):
        if o[0] == 'a':
            l.append(int(o[1]))
            ref.append(int(o[1]))
        elif o[0] == '+':
            l + int(o[1])
            ref.append(int(o[1]))
        elif o in ('r0', 'r1', 'r*'):
            seen = []
            l.remove_if(lambda v: (seen.append(v), o == 'r*' or v == int(o[1]))[1])
            if seen != ref:
                out.bad('linked-list-visit', 'removal visited %s of %s; %s' % (seen, ref, case))
            ref = [v for v in ref if o != 'r*' and v != int(o[1])]
        else:  # by iterator: the last, the first
            if ref:
                it = l.iterator()
                for _ in range(len(ref) - 1 if o == 'rL' else 0):
                    it.next()
                v = it.remove()
                e = ref.pop(-1 if o == 'rL' else 0)
                if v != e:
                    out.bad('linked-list', 'removed %s, expected %s; %s' % (v, e, case))
        out.transitions += 1
        ll_check(l, ref, out, '%s after %d steps' % (case, k + 1))
    out.execs += 1
    out.state([ref, case['ops'][-2:]])


def pq_gen(t):
    d = 6 if t == 'quick' else 8
    ops = ['a1', 'a2', 'a3', 'x', 'p12', 'p31']
    for desc in (0, 1):
        for key in ('id', 'neg'):
            for seq in itertools.product(range(len(ops)), repeat=d):
                if seq[0] >= 3:
                    continue
                yield {'desc': desc, 'key': key, 'ops': [ops[x] for x in seq]}


def pq_run(case, out):
    key = (lambda v: v) if case['key'] == 'id' else (lambda v: -2 * v)
    q, ref = PriorityQueue.empty(bool(case['desc']), key), []
    q2 = PriorityQueue([2, 3, 1], bool(case['desc']), key)
    out.nontrivial = True
    for o in case['ops']:
        if o[0] == 'a':
            q.add(int(o[1]))
            ref.append(int(o[1]))
        elif o == 'x':
            if not ref:
                continue
            v = q.extract_extremum()
            e = (min if case['desc'] else max)(ref, key=key)
            ref.remove(e)
            if v != e:
                out.bad('priority-queue', 'extracted %s, expected %s; %s' % (v, e, case))
                return
        else:
            a, b = int(o[1]), int(o[2])
            if a not in ref:
                continue
            q.replace(a, b)
            ref.remove(a)
            ref.append(b)
        out.transitions += 1
        if len(q) != len(ref):
            out.bad('priority-queue', 'length %d, expected %d; %s' % (len(q), len(ref), case))
            return
    got = [q.extract_extremum() for _ in range(len(q))]
    e = sorted(ref, key=key, reverse=not case['desc'])
    if got != e or [q2.extract_extremum() for _ in range(3)] != sorted([1, 2, 3], key=key, reverse=not case['desc']):
        out.bad('priority-queue', 'drained to %s, expected %s; %s' % (got, e, case))
    out.execs += 1
    out.state([sorted(ref), case['desc'], case['key'], case['ops'][-1]])


def sl_gen(t):
    d = 4 if t == 'quick' else 5
    ops = [('m', k) for k in (-1, 0, 1, 5, 18)] + [('s', 0), ('s', -1), ('d', 0), ('d', -1), ('a', 3), ('a', 25)]
    for start, load in ((0, 4), (1, 4), (3, 4), (9, 4), (9, 1000)):
        for seq in itertools.product(range(len(ops)), repeat=d):
            yield {'load': load, 'start': start, 'ops': [list(ops[x]) for x in seq]}


def sl_run(case, out):
    """items are (key, content); equal keys are merged"""
    l = ExtendedSortedList(key=lambda x: x[0])
    l._reset(case['load'])
    ref = {}
    for k in range(case['start']):
        l.merge((2 * k, 0), (2 * k, k), None)
        ref[2 * k] = k
    out.nontrivial = True
    for n, (o, k) in enumerate(case['ops']):
        if o == 'm':
            l.merge((k, 0), (k, n), lambda x, y: (x[0], 100 * x[1] + y[1]))
            ref[k] = 100 * ref[k] + n if k in ref else n
        elif o == 'a':
            if k in ref:
                continue
            l.add((k, n))
            ref[k] = n
        elif ref:
            key = sorted(ref)[k]
            if o == 's':
                l[k] = (key, 1000 + n)
                ref[key] = 1000 + n
            else:
                del l[k]
                del ref[key]
        out.transitions += 1
        e = sorted(ref.items())
        if list(l) != e or len(l) != len(e) or any(l[i] != e[i] or l.bisect_key_left(e[i][0]) != i for i in range(len(e))):
            out.bad('sorted-list', 'holds %s, expected %s; %s after %d steps' % (list(l), e, case, n + 1))
            return
        l._check()
    out.execs += 1
    out.state([sorted(ref.items())])


def util_gen(t):
    for d in range(4):
        for seq in itertools.product(range(3), repeat=d):
            yield {'seq': list(seq)}


def util_run(case, out):
    s = case['seq']
    fs = [lambda x, k=1: x + k, lambda x, k=2: x * k, lambda x, k=0, j=0: (x, k, j)]
    for a in range(3):
        q, args = ApplyQueue(), []
        if not q.empty():
            out.bad('apply', 'new queue is not empty')
        e = 5
        for i in s:
            if isinstance(e, tuple) and i < 2:
                i = 2
            ar = tuple(range(7, 7 + (a if i == 2 else min(a, 1))))
            q = q.add(fs[i], *ar)
            e = fs[i](e, *ar)
        for _ in range(2):
            if q.apply(5) != e or q.empty() != (not s):
                out.bad('apply', 'result %r, expected %r; %s' % (q.apply(5), e, case))
    nest = [s, [s, 'ab', (s, [[]])], 3]
    if list(flatten(nest)) != s + s + ['ab'] + s + [3]:
        out.bad('flatten', '%s' % case)
    for c in range(3):
        if first(iter(s), lambda x: x == c) != (c if c in s else None):
            out.bad('first', '%s' % case)
    if first(s) != (s[0] if s else None) or build_index(enumerate(s), lambda x: x[0], lambda x: x[1]) != dict(enumerate(s)) or \
            reverse_dictionary({v: k for k, v in enumerate(s)}) != {k: v for v, k in {v: k for k, v in enumerate(s)}.items()}:
        out.bad('index', '%s' % case)
    out.nontrivial = bool(s)
    out.execs += 1
    out.transitions += len(s)
    out.state([s])


FAMILIES = [core.Family('linked-list', ll_gen, ll_run, 'all sequences of up to 5 (thorough 7) of 8 operations from 4 starts'),
            core.Family('priority-queue', pq_gen, pq_run, 'all sequences of 6 (thorough 8) of 6 operations, both orders, two keys'),
            core.Family('sorted-list', sl_gen, sl_run, 'all sequences of 4 (thorough 5) of 11 operations, five starts, buckets that split'),
            core.Family('helpers', util_gen, util_run, 'all sequences of up to 3 functions')]
