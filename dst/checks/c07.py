"""C07: time series against the values in force after each step."""
import math

import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = scenario with time series for open ports, actuators, ambient '
        'temperatures and setpoints x fault plan; non-trivial: at least one '
        'series; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'All series of one simulation share their time stamps (demanded by the '
    'library).']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = [f for f in gen.FAMILIES if f not in ('npump',)] + ['npump']


def cases(seed, tier):
    def fn(r, f, i):
        short = r.random() < .4
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(2, 10), 4) if short
                        else None, sdt=r.choice([.1, .25]) if short else None,
                        adaptive=r.random() < .85)
        if not spec['timeframe']['adaptive_steps']:
            spec['timeframe']['timestep'] = r.choice([.05, .1, .125])
        extend(spec, r)
        kinds = ('veto', 'reject')
        return dict(spec=spec, plan=common.mk_plan(r, kinds=kinds, hi=5))
    return common.cases_for('C07', seed, tier, FAMS, 44, 1200, fn)


def all_series(spec):
    out = [b['T'] for b in spec['bcs']] + [a['ts'] for a in spec['assign']] \
        + [p['kw'].get('time_series') for p in spec['parts']]
    return [s['__series__'] for s in out
            if isinstance(s, dict) and '__series__' in s]


def extend(spec, r):
    """Add series for setpoints and ambient temperatures."""
    ser = all_series(spec)
    if ser:
        dt, n = ser[0]['dt'], len(ser[0]['vals'])
    else:
        dt = r.choice([.25, .5, 1., 2., 5.])
        n = max(3, int(spec['timeframe']['timeframe'] / dt) + r.choice(
            [1, 1, 2, 6]))
        while n * dt <= spec['timeframe']['timeframe']:
            n += 1

    def walk(lo, hi):
        x, v = r.uniform(lo, hi), []
        for _ in range(n):
            if r.random() < .5:
                x = min(hi, max(lo, x + r.gauss(0, .3) * (hi - lo)))
            v.append(gen.rnd(x, 5))
        return {'__series__': dict(dt=dt, vals=v)}
    have = {a.get('control') for a in spec['assign']}
    for c in spec['ctrls']:
        if c['name'] not in have and r.random() < .4 \
                and 'setpoint' in c['kw'] and c['cls'] != 'TwoSensors':
            spec['assign'].append(dict(ts=walk(20, 60), control=c['name']))
    for p in spec['parts']:
        if 'T_amb' in p['kw'] and r.random() < .25:
            spec['assign'].append(dict(ts=walk(-5, 35), part=p['name'],
                                       variable_name='_T_amb',
                                       array_index=0))


def targets(env, spec):
    """name -> (getter, series or constant)"""
    out = {}
    for b in spec['bcs']:
        pid = env.boundary_conditions[b['name']]['port_id']
        out['open port ' + b['name']] = (
            lambda pid=pid: float(env.ports_all[pid]), b['T'])
    dyn = {}
    for a in spec['assign']:
        dyn[a.get('control') or a.get('part')] = a['ts']
    for c in spec['ctrls']:
        if 'setpoint' not in c['kw']:
            continue
        v = dyn.get(c['name'], c['kw']['setpoint'])
        out['setpoint of ' + c['name']] = (
            lambda n=c['name']: float(np.ravel(env.ctrls[n].sp)[0]), v)
    for p in spec['parts']:
        if 'T_amb' in p['kw'] and hasattr(env.parts[p['name']], '_T_amb'):
            out['ambient temperature of ' + p['name']] = (
                lambda n=p['name']: float(np.ravel(
                    env.parts[n]._T_amb)[0]),
                dyn.get(p['name'], p['kw']['T_amb']))
        kw = p['kw']
        if kw.get('ctrl_required') is False and (
                'time_series' in kw or 'const_val' in kw):
            out['actuator ' + p['name']] = (
                lambda n=p['name']: float(np.ravel(
                    env.parts[n]._actuator_CV)[0]),
                kw.get('time_series', kw.get('const_val')))
    return out


class Watch:
    def __init__(self, spec):
        self.spec, self.tg, self.rows = spec, None, []

    def __call__(self, name, env, handler):
        if name == 'step_begin' and self.tg is None:
            self.tg = targets(env, self.spec)
        if name in ('step_end', 'step_begin'):
            if name == 'step_begin' and handler.k > 1:
                return
            self.rows.append({k: g() for k, (g, _) in self.tg.items()})


def run(case):
    spec = case['spec']
    w = Watch(spec)
    R = core.Run(spec, case['plan'], observers=[w])
    H = R.hist
    t = [0.] + H.t
    probes = {'steps longer than the interval': 0, 'past the end': 0}
    for name, (_, v) in (w.tg or {}).items():
        if not isinstance(v, dict):
            for k, row in enumerate(w.rows):
                if row[name] != float(v):
                    raise Violation('constant', '%s changed from %r to %r in '
                                    'step %d' % (name, v, row[name], k))
            continue
        d, vals = v['__series__']['dt'], np.array(v['__series__']['vals'])
        n = len(vals)
        tol = 1e-7 * (1 + np.abs(vals).max()) + 1e-6 * np.ptp(vals)
        for k, row in enumerate(w.rows):
            x = row[name]
            h = t[k] - t[k - 1] if k else 0.
            if h <= d:
                want = float(np.interp(t[k] / d, np.arange(n), vals))
                if abs(x - want) > tol:
                    raise Violation('interpolation', '%s is %r at t=%r s '
                                    '(step %d), series says %r' % (
                                        name, x, t[k], k, want))
            else:
                probes['steps longer than the interval'] += 1
                a = min(n - 1, int(math.floor(t[k - 1] / d + 1e-9)))
                b = min(n - 1, int(math.ceil(t[k] / d - 1e-9)))
                lo, hi = vals[a:b + 1].min(), vals[a:b + 1].max()
                if not lo - tol <= x <= hi + tol:
                    raise Violation('range', '%s is %r after the step from '
                                    '%r to %r s, series is within %r..%r' % (
                                        name, x, t[k - 1], t[k], lo, hi))
            if t[k] > (n - 1) * d:
                probes['past the end'] += 1
    st = common.stats(R, probes=probes)
    st['nontrivial'] = bool(all_series(spec))
    return st
