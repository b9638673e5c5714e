"""Scenario specs (plain JSON) and the builder that turns one into a SimEnv.

A spec is the complete input of one simulated run, so a replay file is just the
spec plus the fault/schedule trace."""
import numpy as np
import pandas as pd

BC = 'BoundaryCondition'
START = '2020-01-01 00:00:00'


def series(d, start=START):
    idx = pd.date_range(start, periods=len(d['vals']),
                        freq=pd.Timedelta(d['dt'], unit='s'))
    s = pd.Series(data=np.array(d['vals'], dtype=float), index=idx)
    return s.to_frame() if d.get('frame') else s


def _val(v, start):
    """Recursively turn JSON markers into Python objects."""
    if isinstance(v, dict):
        if '__series__' in v:
            return series(v['__series__'], start)
        if '__slice__' in v:
            return slice(*v['__slice__'])
        if '__fun__' in v:      # function of the library
            from multisim import precomp_funs
            return getattr(precomp_funs, v['__fun__'])
        if '__array__' in v:
            return np.array(v['__array__'], dtype=float)
        if '__inf__' in v:
            return np.inf * v['__inf__']
        return {k: _val(x, start) for k, x in v.items()}
    if isinstance(v, list):
        return [_val(x, start) for x in v]
    return v


TUPLES = ('CV_saturation', 'slope', 'modulation_range')


def kwargs_of(d, start=START):
    out = {k: _val(v, start) for k, v in d.items()}
    for k in TUPLES:
        if isinstance(out.get(k), list):
            out[k] = tuple(out[k])
    return out


def part_class(ms, name):
    return getattr(ms.ap, name)


def disksaving(env, spec, scratch):
    start, disk = spec.get('start', START), spec.get('disk')
    if disk:
        kw = kwargs_of(disk)
        kw.setdefault('sim_name', 'sim')
        kw.setdefault('start_date', start)
        kw['path'] = scratch + '/' + kw.pop('sub', '')
        env.set_disksaving(save=True, **kw)
    else:
        env.set_disksaving(save=False, start_date=start)


def build(ms, spec, scratch=None, between=None):
    """Create the SimEnv of `spec`. Result files go below `scratch`.
    `between` is called before each call of the library."""
    start = spec.get('start', START)
    between = between or (lambda: None)
    between()
    env = ms.Models(suppress_printing=True)
    disksaving(env, spec, scratch)
    tf = kwargs_of(spec['timeframe'])
    between()
    env.set_timeframe(timeframe=tf.pop('timeframe'),
                      adaptive_steps=tf.pop('adaptive_steps', True), **tf)
    between()
    env.set_solver(solver='heun',
                   allow_implicit=bool(spec.get('allow_implicit', False)))
    for p in spec['parts']:
        kw = kwargs_of(p['kw'], start)
        if 'store' in p:
            kw['store_results'] = _val(p['store'], start)
        between()
        env.add_part(part=part_class(ms, p['cls']), name=p['name'], **kw)
    for b in spec.get('bcs', []):
        t = _val(b['T'], start)
        between()
        env.add_open_port(b['name'], constant=not isinstance(
            t, (pd.Series, pd.DataFrame)), temperature=t)
    for c in spec.get('ctrls', []):
        between()
        env.add_control(part_class(ms, c['cls']), name=c['name'],
                        **kwargs_of(c['kw'], start))
    for a in spec['conns']:
        between()
        env.connect_ports(first_part=a[0], first_port=a[1],
                          scnd_part=a[2], scnd_port=a[3])
    return env


def post_init(env, spec):
    """Calls which are only legal after initialize_sim()."""
    start = spec.get('start', START)
    for a in spec.get('assign', []):
        kw = dict(a)
        ts = _val(kw.pop('ts'), start)
        env.assign_boundary_cond(time_series=ts, **kw)
