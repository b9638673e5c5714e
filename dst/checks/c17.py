"""C17: meters against an independent integration over the live history, with
and without disk saving, for every save interval."""
import numpy as np
import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import common
from checks.c02 import interval, check_arrays

LEVEL = 'exploration'
RULE = ('case = system x fault plan x meters x storing; non-trivial: more '
        'than 2 steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Properties of water are those of the library; own integration.',
    'A rate counts until the next reading, the last one for the duration of '
    'the last step. Meters have different names.']
REAL = common.REAL_SIM + ['multisim.Meters', 'result storing (HDF5 files)']
STUB = common.STUB_SIM
FAMS = gen.FAMILIES
VOL = ('Pipe', 'PipeWithPump', 'HeatedPipe', 'Tes', 'PipeBranched',
       'PipeWith3wValve', 'CHPPlant')


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(1.5, 15), 3),
                        adaptive=r.random() < .9)
        ps = [p for p in spec['parts'] if p['cls'] in VOL]
        if r.random() < .5:
            spec['disk'] = dict(
                resample_final=r.random() < .4,
                resample_freq=r.choice(['1s', '500ms', '3s']),
                complevel=r.choice([0, 5]), complib='zlib')

        used = []

        def pos():
            p = r.choice(ps)
            if used and r.random() < .4:    # another one on the same part
                p = used[-1]
            used.append(p)
            g = p['kw']['grid_points']
            return p['name'], r.choice([0, g - 1, r.randrange(g)])
        m = []
        for j in range(r.randint(2, 5)):
            k = r.choice(['heat', 'heat', 'temperature', 'massflow',
                          'volumeflow'])
            name = 'm%d' % j
            if m and r.random() < .3:   # meters of other kinds may share it
                q = r.choice(m)['name']
                if not any(x['kind'] == k and x['name'] == q for x in m):
                    name = q
            d = dict(kind=k, name=name)
            a = pos()
            d.update(part=a[0], cell=a[1])
            if k == 'temperature' and any(p['cls'] == 'HexNum'
                                          for p in spec['parts']):
                d.update(part='x', cell=r.randrange(9))
            if k == 'heat':
                b = pos()
                d.update(cold=b[0], cold_cell=b[1], hot=r.random() < .4,
                         full=r.random() < .5)
            m.append(d)
        case = dict(spec=spec, meters=m, again=r.random() < .3, rel=r.choice(
            [['frac', round(r.uniform(.1, .7), 3)], ['abs', 7],
             ['div', r.randint(0, 99)], ['N', r.choice([-1, 0, 1])]]),
            plan=common.mk_plan(r, n_max=40, hi=4))
        return gen.rename(case, r) if r.random() < .25 else case
    return common.cases_for('C17', seed, tier, FAMS, 22, 700, fn)


def flow(H, part, cell):
    d = H.full(part, 'res_dm')
    d = d.reshape(len(d), -1)
    return d[:, 0] if d.shape[1] == 1 else d[:, cell]


def temp(H, part, cell):
    d = H.full(part, 'res')
    return np.ascontiguousarray(d.reshape(len(d), -1)[:, cell])


def reference(H, d, idx, dt):
    pf = core.ms.precomp_funs
    df = pd.DataFrame(index=idx)
    T = temp(H, d['part'], d['cell'])
    if d['kind'] == 'temperature':
        df['T_' + d['name']] = T
        return df
    if d['kind'] != 'heat':
        m = flow(H, d['part'], d['cell'])
        df[d['name']] = m if d['kind'] == 'massflow' else \
            m / pf.rho_water(T)
        return df
    C = temp(H, d['cold'], d['cold_cell'])
    m = flow(H, d['part'], d['cell']) if d['hot'] else \
        flow(H, d['cold'], d['cold_cell'])
    v = m / pf.rho_water(C)
    q = (T - C) * m / 1e3 * (pf.cp_water(C) + pf.cp_water(T)) / 2
    df['T_ff'], df['T_rf'], df['T_diff'] = T, C, T - C
    df['massflow_kgps'], df['volume_flow_m3ps'] = m, v
    df['heatflow_kW'] = q
    tot = dict(flown_mass_kg=m, flown_volume_m3=v, flown_heat_MJ=q / 1e3,
               flown_heat_kWh=q / 3.6e3)
    if d['full']:
        z = np.maximum
        tot.update(flown_mass_pos_kg=z(m, 0), flown_volume_pos_m3=z(v, 0),
                   flown_heat_pos_MJ=z(q, 0) / 1e3,
                   flown_heat_pos_kWh=z(q, 0) / 3.6e3)
    for k, x in tot.items():
        s, acc = [], 0.
        for a, b in zip(x, dt):
            acc += a * b
            s.append(acc)
        df[k] = s
    return df


def add(M, m):
    if m['kind'] == 'heat':
        M.heat_meter(name=m['name'], warm_part=m['part'], warm_cell=m['cell'],
                     cold_part=m['cold'], cold_cell=m['cold_cell'],
                     massflow_from_hot_part=m['hot'], full_output=m['full'])
    else:
        getattr(M, m['kind'])(name=m['name'], part=m['part'], cell=m['cell'])


def compare(got, want, what):
    if sorted(map(str, got.columns)) != sorted(map(str, want.columns)):
        raise Violation('columns', '%s has the readings %s instead of %s' % (
            what, list(got.columns), list(want.columns)))
    if len(got) != len(want):
        raise Violation('rows', '%s has %d readings instead of %d' % (
            what, len(got), len(want)))
    dt = np.abs((got.index - want.index).total_seconds())
    if dt.max() > 1e-6:
        raise Violation('stamp', '%s: reading %d is stamped %s instead of %s'
                        % (what, int(np.argmax(dt)), got.index[np.argmax(dt)],
                           want.index[np.argmax(dt)]))
    for c in want:
        w = want[c].values
        ok, m = core.close(got[c].values, w, rtol=1e-9, atol=1e-9 * (
            np.nanmax(np.abs(w)) if len(w) else 0.) + 1e-12)
        if not ok:
            raise Violation('reading', '%s: %s differs %s' % (what, c, m))


def run(case):
    spec = dict(case['spec'])
    with core.scratch_dir() as d:
        if 'disk' in spec:
            A = core.Run({k: v for k, v in spec.items() if k != 'disk'},
                         case['plan'])
            spec['disk'] = dict(spec['disk'], save_every_n_steps=interval(
                case['rel'], len(A.hist.t)))
        R = core.Run(spec, case['plan'], scratch=d)
        H = R.hist
        t = np.array([0.] + H.t)
        dt = np.append(np.diff(t), t[-1] - t[-2])
        idx = pd.to_datetime(scen.START) + pd.to_timedelta(t, unit='s')
        with core.quiet():
            M = core.ms.Meters(simenv=R.env, start_time=scen.START)
            for m in case['meters']:
                add(M, m)
            if case.get('again'):   # a name which is already taken
                try:
                    add(M, dict(case['meters'][-1], **{
                        k: case['meters'][0][k] for k in ('part', 'cell')}))
                except Exception:
                    pass
                else:
                    raise Violation('name', 'a second %s named %r replaced '
                                    'the first one' % (
                                        case['meters'][-1]['kind'],
                                        case['meters'][-1]['name']))
            check_arrays(R, 'after adding meters')
            ret = None
            if 'disk' in spec:
                ret = R.env.return_stored_data()['meters']
                if len(ret) != len(case['meters']):
                    raise Violation('stored', '%d meters were added, %s are '
                                    'stored' % (len(case['meters']),
                                                sorted(ret)))
        for m in case['meters']:
            want = reference(H, m, idx, dt)
            if 'disk' in spec and spec['disk']['resample_final']:
                want = want.resample(spec['disk']['resample_freq']
                                     ).mean().interpolate()
            k = 'heat_meter' if m['kind'] == 'heat' else m['kind']
            what = '%s %r at %s' % (k, m['name'], m['part'])
            compare(M.get_sensors_dict()[k][m['name']], want, what)
            df = M.get_sensors_df()
            compare(df[k][m['name']], want, what + ' (common table)')
            if ret is not None:
                # meters of several kinds with this name: any of them
                many = sum(x['name'] == m['name'] for x in case['meters']) > 1
                err = None
                for q in sorted(ret) if many else [m['name']]:
                    if q not in ret:
                        raise Violation('stored', what + ' is not stored')
                    try:
                        compare(ret[q], want, what + ' (stored)')
                        break
                    except Violation as e:
                        err = e
                else:
                    raise err
    return common.stats(R, probes={'meters': len(case['meters']), 'stored':
                                   int(ret is not None)})
