"""Generic shrinking of cases: fault plan first, then the scenario."""
import copy


def _put(case, path, val):
    c = copy.deepcopy(case)
    x = c
    for p in path[:-1]:
        x = x[p]
    if val is DROP:
        del x[path[-1]]
    else:
        x[path[-1]] = val
    return c


DROP = object()


def plan_candidates(case, key='plan'):
    pl = case.get(key) or []
    n = len(pl)
    if n > 1:
        yield _put(case, [key], pl[:n // 2])
        yield _put(case, [key], pl[n // 2:])
    for i in range(n if n <= 12 else 0):
        yield _put(case, [key], pl[:i] + pl[i + 1:])
    for i, ev in enumerate(pl[:12]):
        if ev.get('n', 1) > 1:
            yield _put(case, [key, i, 'n'], 1)
    if n == 1:
        yield _put(case, [key], [])


def spec_candidates(case, key='spec'):
    s = case.get(key)
    if not s:
        return
    tf = s['timeframe']['timeframe']
    for f in (.25, .5, .75):
        if tf * f > .5:
            yield _put(case, [key, 'timeframe', 'timeframe'],
                       float('%.4g' % (tf * f)))
    for k in list(s['timeframe']):
        if k not in ('timeframe', 'adaptive_steps', 'timestep'):
            yield _put(case, [key, 'timeframe', k], DROP)
    for i, b in enumerate(s.get('bcs', ())):
        if isinstance(b['T'], dict):
            yield _put(case, [key, 'bcs', i, 'T'], 20.0)
    for i, c in enumerate(s.get('ctrls', ())):
        kw = c['kw']
        if kw.get('deadtime'):
            yield _put(case, [key, 'ctrls', i, 'kw', 'deadtime'], 0)
        if kw.get('slope') not in (None, [0, 0]):
            yield _put(case, [key, 'ctrls', i, 'kw', 'slope'], [0, 0])
        if kw.get('invert'):
            yield _put(case, [key, 'ctrls', i, 'kw', 'invert'], False)
    for i, p in enumerate(s['parts']):
        ts = p['kw'].get('time_series')
        if ts and p['cls'] == 'PipeWithPump':
            c = _put(case, [key, 'parts', i, 'kw', 'time_series'], DROP)
            c[key]['parts'][i]['kw']['const_val'] = .1
            yield c
        if p['kw'].get('grid_points', 0) > 5 and p['cls'] in (
                'Pipe', 'PipeWithPump'):
            yield _put(case, [key, 'parts', i, 'kw', 'grid_points'], 4)
    if s.get('assign'):
        yield _put(case, [key, 'assign'], [])


def generic(case):
    yield from plan_candidates(case)
    yield from spec_candidates(case)
