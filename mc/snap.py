"""Observable content of the scheduler's inputs, to see whether anything was changed."""


def obj(x, depth=0):
    import numpy as np
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if depth > 8:
        return '...'
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): obj(v, depth + 1) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple)):
        return [obj(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if hasattr(x, 'value') and type(x).__name__ in ('Time', 'EdgeType'):
        return x.value
    if hasattr(x, '__dict__'):
        return {k: obj(v, depth + 1) for k, v in sorted(vars(x).items()) if k not in ('_rand', 'rand', 'resources')}
    return str(x)


def graph(wg):
    return [[n.id, obj(n.work_unit), sorted([e.start.id, e.lag, e.type.value] for e in n.edges_to),
             sorted([e.finish.id, e.lag, e.type.value] for e in n.edges_from)] for n in wg.nodes]


def spec(s):
    """entries that say something (looking up a work may add an empty entry)"""
    out = {}
    for k, v in s._work2spec.items():
        e = {'con': sorted(v.contractors), 'team': dict(sorted(v.assigned_workers.items())),
             'time': None if v.assigned_time is None else int(v.assigned_time), 'indep': v.is_independent}
        if e['con'] or e['team'] or e['time'] is not None or e['indep']:
            out[k] = e
    return out


def landscape(l):
    if getattr(l, 'lg', None) is None:
        return {'zones': obj(l.zone_config)}
    return {'zones': obj(l.zone_config),
            'nodes': [[n.id, obj(n.resource_storage_unit), sorted((r.finish.id, r.weight, r.bandwidth) for r in n.roads)] for n in l.lg.nodes],
            'holders': [[h.id, obj(h.vehicles)] for h in l.holders] if hasattr(l, 'holders') else None}


def inputs(wg, con, sp, land):
    return {'graph': graph(wg), 'contractors': obj([[c.id, c.name, c.workers, c.equipments] for c in con]), 'spec': spec(sp),
            'landscape': landscape(land)}


def diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %r became %r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s: %s' % (path, k, 'appeared' if k not in a else 'disappeared')
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: length %d became %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %r became %r' % (path, a, b)
