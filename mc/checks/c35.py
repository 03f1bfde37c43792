import datetime
import itertools
import os

import numpy as np
import pandas as pd

from mc import core
from mc.checks.c24 import Scratch
from sampo.schemas.graph import EdgeType
from sampo.userinput import CSVParser
from sampo.utilities.name_mapper import DictNameMapper

RULE = ('every small history of projects is given together with every small table; the links of the table that is read are compared '
        'with those that follow from the dates in the history')
DAY0 = datetime.date(2024, 2, 26)


def day(k):
    return float('nan') if k is None else (DAY0 + datetime.timedelta(k)).isoformat()


def frame(sites, cols=('granular_name',)):
    """sites: [[(name, start, finish)]]"""
    rows = [{**{c: n for c in cols}, 'first_day': day(s), 'last_day': day(f), 'upper_works': 'site %d' % k}
            for k, site in enumerate(sites) for n, s, f in site]
    return pd.DataFrame(rows, columns=[*cols, 'first_day', 'last_day', 'upper_works'])


def relation(a, b):
    """-> [(direction, type, share)] of two dated works"""
    (s1, f1), (s2, f2) = a, b
    res = []
    if a == b:
        res.append((1, 'FFS', 0.01))
    span = lambda x, y: max(y - x, 1)
    if f2 <= s1:
        res.append((2, 'FS', 0.0))
    elif s2 >= f1:
        res.append((1, 'FS', 0.0))
    elif s2 >= s1:
        res.append((1, 'FFS' if f2 >= f1 else 'SS', span(s1, s2) / span(s1, f1)))
    else:
        res.append((2, 'FFS' if f2 <= f1 else 'SS', span(s2, s1) / span(s2, f2)))
    return res


def smallest(shares):
    m, sd = np.mean(shares), np.std(shares)
    return round(min(x for x in shares if x >= m - 3 * sd), 2)


def from_history(names, sites):
    """names of the works in the order of the table -> {(earlier, later): (type, lag, sightings)}"""
    res = {}
    for i, j in itertools.combinations(range(len(names)), 2):
        if names[i] == names[j]:
            continue
        rel, count = [], 0
        for site in sites:
            at = [sorted((s, f) for n, s, f in site if n == names[k] and s is not None) for k in (i, j)]
            for a, b in zip(*at):
                rel += relation(a, b)
                count += 1
        if not rel:
            continue
        one = [r for r in rel if r[0] == 1]
        two = [r for r in rel if r[0] == 2]
        cur = one if len(one) >= len(two) else two
        n = {t: [x[2] for x in cur if x[1] == t] for t in ('FS', 'SS', 'FFS')}
        if len(n['FS']) > len(n['SS']) and not n['FFS']:
            link = ('FS', 0.0)
        elif len(n['FS']) <= len(n['SS']) and len(n['SS']) > len(n['FFS']):
            link = ('SS', smallest(n['SS']))
        else:
            link = ('FFS', smallest(n['FFS']))
        res[(i, j) if cur is one else (j, i)] = link + (count,)
    return res


def acyclic(n, edges):
    done = set()
    while True:
        new = [k for k in range(n) if k not in done and all(a in done for a, b in edges if b == k)]
        if not new:
            return len(done) == n
        done |= set(new)


def read(table, hist, **kw):
    return CSVParser.read_graph_info(table, hist, **kw)


def links(info, ids):
    """-> {(from, to): (type, lag)} or a problem"""
    res = {}
    for _, r in info.iterrows():
        b = ids.index(r['activity_id'])
        if not len(r['predecessor_ids']) == len(r['connection_types']) == len(r['lags']):
            return 'the row of %s has %s, %s, %s' % (r['activity_id'], r['predecessor_ids'], r['connection_types'], r['lags'])
        for p, t, l in zip(r['predecessor_ids'], r['connection_types'], r['lags']):
            if p == '-1':
                continue
            if (ids.index(p), b) in res:
                return '%s is twice a predecessor of %s' % (p, r['activity_id'])
            res[ids.index(p), b] = (EdgeType(t).value, float(l))
    return res


def table(names, ids, given=(), cols=True):
    rows = []
    for k, name in enumerate(names):
        pre = [(a, t, l) for a, b, t, l in given if b == k]
        rows.append({'activity_id': ids[k], 'activity_name': 'work ' + name if cols else name, 'granular_name': name, 'measurement': 'm', 'volume': 5.0,
                     'predecessor_ids': ','.join(ids[a] for a, _, _ in pre), 'connection_types': ','.join(t for _, t, _ in pre),
                     'lags': ','.join(str(l) for _, _, l in pre)})
    df = pd.DataFrame(rows)
    if not cols:
        df = df.drop(columns=['granular_name'])
    if not given:
        df = df.drop(columns=['predecessor_ids', 'connection_types', 'lags'])
    return df


def judge(out, text, ids, got, want, weights, keep, n):
    """want: {(a, b): (type, lag)} before loops are broken"""
    if isinstance(got, str):
        return out.bad('row', '%s: %s' % (text, got))
    out.state(sorted(got.items()))
    out.transitions += len(want)
    if acyclic(n, want):
        if got != want:
            out.bad('links', '%s: links %s, expected %s' % (text, got, want))
        return
    if not acyclic(n, got):
        out.bad('loop', '%s: links %s form a loop' % (text, got))
    elif any(want.get(k) != v for k, v in got.items()):
        out.bad('links', '%s: links %s, expected some of %s' % (text, got, want))
    else:
        for k in set(want) - set(got):
            others = [x for x in want if x != k]
            # a dropped link lies on a loop in which no link is weaker
            loop = [c for m in range(1, n) for c in itertools.permutations([x for x in range(n) if x not in k], m - 1)
                    if all(x in want for x in zip((k[1],) + c, c + (k[0],)))]
            if not any(all(weights[x] >= weights[k] for x in zip((k[1],) + c, c + (k[0],))) for c in loop):
                out.bad('dropped', '%s: %s was dropped, links %s with weights %s' % (text, k, want, weights))
        if all(x in got or x not in want for x in keep) is False and acyclic(n, keep):
            out.bad('given', '%s: given links were dropped: %s' % (text, got))


def run_two(case, out):
    """sites with two works, each once"""
    names, ids = ['A', 'B'], ['1', '2']
    if case['rows']:
        names = names[::-1]
    for rest in itertools.product(case['rel'], repeat=case['n'] - len(case['first'])):
        sites = [[('A',) + tuple(a), ('B',) + tuple(b)] for a, b in list(case['first']) + list(rest)]
        hist = frame(sites)
        df = table(names, ids)
        before = df.to_dict('records'), hist.to_dict('records')
        got = links(read(df, hist), ids)
        out.execs += 1
        text = 'works %s, history %s' % (names, sites)
        if (df.to_dict('records'), hist.to_dict('records')) != before:
            out.bad('given', '%s: the given table or history was changed' % text)
        want = from_history(names, sites)
        judge(out, text, ids, got, {k: v[:2] for k, v in want.items()}, {k: v[2] for k, v in want.items()}, (), 2)
    out.nontrivial = True


A = (3, 7)
# one of each of the relations that two intervals can have, and works of no length
RELS = [(A, b) for b in ((0, 2), (0, 3), (1, 5), (0, 7), (4, 7), (3, 5), (4, 6), (1, 9), (3, 7), (3, 9), (5, 9), (7, 9), (8, 9))] + \
       [((3, 3), (3, 3)), ((3, 3), (3, 5)), (A, (5, 5))]


def gen_two(t):
    days = range(0, 5 if t == 'quick' else 7)
    iv = [(s, f) for s in days for f in days if s <= f]
    for rows in (0, 1):
        for a in iv:
            yield {'rows': rows, 'n': 1, 'first': [], 'rel': [(a, b) for b in iv]}
        for r in RELS:
            yield {'rows': rows, 'n': 2, 'first': [r], 'rel': RELS}
        for r in itertools.product(RELS[::1 if t != 'quick' else 2], repeat=2):
            yield {'rows': rows, 'n': 3, 'first': list(r), 'rel': RELS[::1 if t != 'quick' else 3]}
        for k in range(8, 15):
            # many equal sightings and one or two other
            for a, b in ((A, (5, 9)), (A, (4, 6))):
                for c in RELS:
                    yield {'rows': rows, 'n': k, 'first': [(a, b)] * (k - 1) + [c], 'rel': []}


def run_site(case, out):
    """projects with several works of one name, works without dates, works that are alone"""
    ids = ['1', '2']
    a1, a2, b1, b2 = case['dates']
    for order in case['orders']:
        base = [('A',) + tuple(a1), ('A',) + tuple(a2), ('B',) + tuple(b1), ('B',) + tuple(b2)]
        base = [base[i] for i in order if base[i][1] != -1]
        for sites in ([base], [base, [('A', 0, 1), ('C', 5, 6)]], [[x for x in base if x[0] == 'A'], [x for x in base if x[0] == 'B']]):
            if all(s is None for site in sites for _, s, _ in site):
                continue  # nothing to take the links from
            got = links(read(table(['A', 'B'], ids), frame(sites)), ids)
            out.execs += 1
            want = from_history(['A', 'B'], sites)
            judge(out, 'history %s' % sites, ids, got, {k: v[:2] for k, v in want.items()}, {k: v[2] for k, v in want.items()}, (), 2)
    out.nontrivial = True


def gen_site(t):
    al = [(0, 2), (4, 9), (4, 5), (None, None), (-1, -1)] + ([(2, 6)] if t != 'quick' else [])
    orders = list(itertools.permutations(range(4)))
    for d in itertools.product(al, repeat=4):
        yield {'dates': d, 'orders': orders if t != 'quick' else [orders[k] for k in (0, 9, 14, 23)]}


def run_given(case, out):
    """given links, the meaning of the switches"""
    n, ids, names = 3, case['ids'], case['names']
    pairs = list(itertools.combinations(range(n), 2))
    site = {'fs': ((0, 2), (3, 5)), 'sf': ((3, 5), (0, 2)), 'ss': ((0, 9), (3, 5)), 'ffs': ((0, 4), (1, 5))}
    for rel in itertools.product(case['rels'], repeat=3):
        sites = []
        for (i, j), r in zip(pairs, rel):
            if r:
                sites += [[(names[i],) + site[r][0], (names[j],) + site[r][1]]] * (1 + (i + j) % 2)
        given = [tuple(x) for x in case['given']]
        hist = from_history(names, sites)
        df, h = table(names, ids, given or [(0, 0, '', '')] * 0), frame(sites)
        if not given:
            df['predecessor_ids'] = [float('nan')] * n
        for every, change in itertools.product((False, True), repeat=2):
            got = links(read(df, h, all_connections=every, change_connections_info=change), ids)
            out.execs += 1
            g = {(a, b): (t, l) for a, b, t, l in given}
            if every and not change:
                want, w = dict(g), {}
            elif not every:
                want = {**{k: v[:2] for k, v in hist.items()}, **g}
                if change:
                    want.update({k: v[:2] for k, v in hist.items() if k in g})
                w = {k: v[2] for k, v in hist.items() if k not in g or change}
            else:
                # links of works that have some are kept with what the history says about them, the others get theirs
                want = {k: v[:2] for k, v in hist.items() if k in g or not any(b == k[1] for a, b in g)}
                w = {k: v[2] for k, v in hist.items()}
                unknown = {k for k in g if k not in hist}
                if isinstance(got, dict):
                    if acyclic(n, set(want) | set(g)) and not unknown <= set(got):
                        out.bad('given', 'works %s, given %s, history %s: links %s' % (names, given, sites, got))
                    got = {k: v for k, v in got.items() if k not in unknown}
                if not acyclic(n, set(want) | set(g)):
                    continue
            text = 'works %s %s, given %s, history %s, all connections %s, change %s' % (names, ids, given, sites, every, change)
            judge(out, text, ids, got, want, {k: w.get(k, 10 ** 9) for k in want}, () if change else tuple(g), n)
    out.nontrivial = True


def gen_given(t):
    q = t == 'quick'
    fwd = [None, ('FS', 0.0), ('SS', 2.0)]
    for kinds in itertools.product(('', 'f', 'b'), repeat=3):
        for typ in (('FS', 0.0), ('SS', 2.0)):
            given = []
            for (i, j), k in zip(itertools.combinations(range(3), 2), kinds):
                if k:
                    given.append(((i, j) if k == 'f' else (j, i)) + typ)
            if not acyclic(3, [(a, b) for a, b, _, _ in given]) or (not given and typ[0] == 'SS'):
                continue
            for names in (['A', 'B', 'C'], ['C', 'A', 'A']):
                for ids in (['1', '2', '3'],) if q else (['1', '2', '3'], ['b', 'c', 'a']):
                    yield {'names': names, 'ids': ids, 'given': given, 'rels': ['', 'fs', 'sf'] if q else ['', 'fs', 'sf', 'ss', 'ffs']}


def run_source(case, out):
    """names and sources of the history"""
    ids = ['7', '3', '5']
    names = ['A', 'B', 'C']
    sites = [[('A', 0, 3), ('B', 1, 5)], [('A', 0, 3), ('C', 4, 5), ('B', 6, 8)], [('C', 0, 2), ('B', 2, 4)]]
    want = {k: v[:2] for k, v in from_history(names, sites).items()}
    col = case['column']
    hist = frame(sites, (col,))
    mapper = None
    if case['mapper']:
        df = table(['x' + n for n in names], ids, cols=False)
        mapper = DictNameMapper({'x' + n: n for n in names})
    else:
        df = table(names, ids, cols=case['granular'])
    df = df.iloc[case['order']].reset_index(drop=True)
    perm = [names[k] for k in case['order']]
    want = {tuple(case['order'][x] for x in k): v[:2] for k, v in from_history(perm, sites).items()}
    with Scratch() as s:
        src = s.save(df, case['sep'], 'w.csv') if case['file'] else df
        h = s.save(hist, case['seph'], 'h.csv') if case['hfile'] else hist
        got = links(read(src, h, sep_wg=case['sep'], sep_history=case['seph'], name_mapper=mapper), ids)
    out.execs += 1
    out.nontrivial = True
    judge(out, str(case), ids, got, want, {k: 1 for k in want}, (), 3)


def gen_source(t):
    for col, mapper, granular, file, hfile in itertools.product(('granular_name', 'work_name'), (0, 1), (0, 1), (0, 1), (0, 1)):
        for sep, seph in ((';', ','), (',', ';'), (';', ';')):
            for order in itertools.permutations(range(3)):
                yield {'column': col, 'mapper': mapper, 'granular': granular, 'file': file, 'hfile': hfile, 'sep': sep, 'seph': seph, 'order': list(order)}


FAMILIES = [
    core.Family('two works', gen_two, run_two, 'all pairs of dates over 5 (thorough 7) days, all 2 and many triples of 16 relations, up to 14 sightings'),
    core.Family('one project', gen_site, run_site, 'up to two works of each name with all date combinations, 4 (thorough all) orders of the rows'),
    core.Family('given links', gen_given, run_given, 'all acyclic given links of 3 works, all triples of 2 (thorough 4) relations in the history, all switches'),
    core.Family('sources', gen_source, run_source, 'frames and files, separators, names by column and by mapper, all orders of the table'),
]
