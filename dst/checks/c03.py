"""C03: result files against the history recorded step by step."""
import glob
import os

import numpy as np
import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import common
from checks.c02 import interval

LEVEL = 'exploration'
RULE = ('case = scenario x fault plan x storage settings (interval, '
        'compression, resampling, selection, start date); non-trivial: more '
        'than one flush; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Without compression the library stores all results, whatever was '
    'selected; only the selected ones are demanded.',
    'Flows of three-way connectors are not recorded by the library.']
REAL = common.REAL_SIM + ['HDF5 store on a real scratch directory, read back '
                          'with an independent handle']
STUB = common.STUB_SIM
TABLES = {'res': 'res', 'res_dm': 'dm', 'res_dQ': 'heating',
          'res_Pel': 'Pel', 'res_Pgas': 'Pgas', '_chp_state': 'chp_state'}
STARTS = ['2020-01-01 00:00:00', '2019-12-31 23:59:58', '2020-02-28 23:59:59.5',
          '1999-03-28 01:59:57']


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(1.5, 12), 4),
                        adaptive=r.random() < .9)
        if not spec['timeframe']['adaptive_steps']:
            spec['timeframe']['timestep'] = r.choice([.05, .1, .125])
        spec['start'] = r.choice(STARTS)
        for p in spec['parts']:
            g = p['kw'].get('grid_points')
            x = r.random()
            if x < .12:
                p['store'] = False
            elif g and x < .5 and p['cls'] != 'HexNum':
                p['store'] = r.choice([
                    0, r.randrange(g), -1, -r.randint(1, g),
                    sorted(r.sample(range(g), r.randint(1, g))),
                    {'__slice__': [r.randrange(g), None, None]},
                    {'__slice__': [0, r.randint(1, g), None]},
                    {'__slice__': [None, None, r.choice([1, 2])]}])
        disk = dict(resample_final=r.random() < .35,
                    resample_freq=r.choice(['1s', '500ms', '3s']),
                    complevel=r.choice([0, 1, 5, 9]),
                    complib=r.choice(['zlib', 'zlib', 'blosc']))
        spec['disk'] = disk
        case = dict(spec=spec, plan=common.mk_plan(r, n_max=40, hi=4),
                    rel=r.choice([['frac', round(r.uniform(.05, .7), 3)],
                                  ['abs', r.choice([1, 2, 3, 7])],
                                  ['div', r.randint(0, 99)],
                                  ['N', r.choice([-1, 0, 1])]]))
        return gen.rename(case, r) if r.random() < .25 else case
    return common.cases_for('C03', seed, tier, gen.FAMILIES, 36, 700, fn)


def expected(H, part, arr, idx):
    a = H.full(part, arr)
    return pd.DataFrame(a.reshape(a.shape[0], -1), index=idx)


def same(got, want, what):
    if len(got) != len(want):
        raise Violation('rows', '%s: %d rows stored, %d expected' % (
            what, len(got), len(want)))
    dt = np.abs((got.index - want.index).total_seconds())
    if len(dt) and dt.max() > 1e-6:
        k = int(np.argmax(dt))
        raise Violation('stamp', '%s: row %d is stamped %s instead of %s' % (
            what, k, got.index[k], want.index[k]))
    g, w = np.asarray(got.values, float), np.asarray(want.values, float)
    ok, m = core.close(g, w, rtol=1e-12)
    if not ok:
        raise Violation('values', '%s: stored value differs %s' % (what, m))


def select(df, sel):
    if sel is True or df.shape[1] == 1:
        return df
    if isinstance(sel, int):
        return df.iloc[:, [sel]]
    if isinstance(sel, (list, tuple)):
        return df.iloc[:, list(sel)]
    return df.iloc[:, sel]


def run(case):
    spec = case['spec']
    disk = dict(spec['disk'])
    # the number of steps depends on nothing but scenario and plan
    plain = {k: v for k, v in spec.items() if k != 'disk'}
    A = core.Run(plain, case['plan'])
    k = interval(case['rel'], len(A.hist.t))
    disk['save_every_n_steps'] = k
    with core.scratch_dir() as d:
        R = core.Run(dict(spec, disk=disk), case['plan'], scratch=d)
        H = R.hist
        H.failed = [0] + [len(R.handler.rejected.get(i + 1, ()))
                          for i in range(len(H.t))]
        files = sorted(glob.glob(d + '/**/*', recursive=True))
        h5 = [f for f in files if f.endswith('.h5')]
        if len(h5) != 1:
            raise Violation('files', 'result files: %s' % [
                os.path.basename(f) for f in files])
        left = [f for f in files if f.endswith('_tmp')]
        if left:
            raise Violation('files', 'temporary file left over: %s' % left)
        with pd.HDFStore(h5[0], 'r') as st:
            keys = [x.lstrip('/') for x in st.keys()]
            data = {x: st[x] for x in keys}
        check(spec, disk, H, data, 'file')
        with core.quiet():
            ret = R.env.return_stored_data()
        flat = {'sim_vecs': ret['sim_vecs']}
        for p in R.env.parts:
            for t, df in ret.get(p, {}).items():
                flat[p + '/' + t] = df
        check(spec, disk, H, flat, 'returned data')
        loaded(case, spec, disk, H, h5[0], data)
        report(h5[0], H, data['sim_vecs'])
    n = len(H.t)
    return common.stats(R, A, nontrivial=n > k, probes={
        'flushes': n // k + 1, 'resampled': int(disk['resample_final']),
        'last step fills the buffer': int(n % k == 0)})


def report(path, H, sv):
    """The report next to the results describes this very run."""
    f = path[:-len('.h5')] + '_REPORT.csv'
    if not os.path.isfile(f):
        raise Violation('report', 'there is no report next to the results')
    with open(f) as fh:
        rows = dict(x.rstrip('\n').rsplit(';' if ';' in x else ',', 1)
                    for x in fh if ',' in x or ';' in x)
    t = np.array([0.] + H.t)
    dt = np.append(np.diff(t), t[-1] - t[-2])
    want = {
        'Number of repeated steps': sum(H.failed),
        'Total timeframe in s': t[-1],
        'Total timeframe in d': t[-1] / 86400,
        'Mean stepsize in s': dt.mean(),
        'Median stepsize in s': np.median(dt)}
    for s, k in ((4, 'Normal steps (including repeated)'),
                 (5, 'Steps limited to maximum stepsize'),
                 (6, 'Steps limited to minimum stepsize')):
        want[k] = int((sv['solver_state'].values == s).sum())
    # the library counts the start as a step
    k = 'Sim. solved in n steps'
    want[k] = len(H.t) + (rows.get(k, '').strip() == str(len(H.t) + 1))
    for k, v in want.items():
        if k not in rows:
            raise Violation('report', '%r is missing in the report: %s' % (
                k, sorted(rows)))
        if abs(float(rows[k]) - v) > 1e-9 * abs(v):
            raise Violation('report', '%s: %s in the report, %s simulated' % (
                k, rows[k], v))


def loaded(case, spec, disk, H, path, data):
    """Results loaded with the loading function of the library."""
    from multisim import utility_functions as uf
    d, f = os.path.split(path)
    for kw in ({}, dict(multiindex=False)):
        if not kw and list(data) == ['sim_vecs']:
            continue    # all parts deselected: there is no table to load
        with core.quiet():
            got = uf.load_sim_results(f, path=d, **kw)
        flat = {'sim_vecs': got['sim_vecs']}
        if kw:
            for p, tabs in got.items():
                if p != 'sim_vecs':
                    flat.update({p + '/' + t: df for t, df in tabs.items()})
        else:
            for p, t in sorted({c[:2] for c in got['data'].columns}):
                flat[p + '/' + t] = got['data'][(p, t)]
        if set(flat) != set(data):
            raise Violation('loaded', 'results %s are stored, but %s were '
                            'loaded' % (sorted(data), sorted(flat)))
        check(spec, disk, H, flat, 'loaded data')
    keys = sorted(data)
    pick = [k for i, k in enumerate(keys) if k != 'sim_vecs'
            and (i + case['sub']) % 2]
    if pick:
        with core.quiet():
            got = uf.load_sim_results(f, path=d, keys=pick)
        if {p + '/' + t for p, t, *_ in got.columns} != set(pick):
            raise Violation('loaded', '%s requested, %s loaded' % (
                pick, sorted(got.columns)))
        for k in pick:
            same(got[tuple(k.split('/'))], data[k], 'selected loading: ' + k)


def check(spec, disk, H, data, src):
    idx = pd.to_datetime(spec['start']) + pd.to_timedelta(
        [0.] + H.t, unit='s')
    store = {p['name']: scen._val(p.get('store', True), None)
             for p in spec['parts']}
    cls = {p['name']: p['cls'] for p in spec['parts']}
    for part, arr in H.arrays():
        sel = store[part]
        if sel is False:
            if disk['complevel'] > 0 and '%s/%s' % (part, TABLES[arr]) \
                    in data:
                raise Violation('selection', '%s of %s was stored, although '
                                'deselected' % (arr, part))
            continue
        key = part + '/' + TABLES[arr]
        what = '%s: %s of %s' % (src, arr, part)
        if key not in data:
            raise Violation('missing', what + ' is missing')
        want = expected(H, part, arr, idx)
        got = data[key]
        if disk['complevel'] > 0:
            want = select(want, sel)
        if disk['resample_final']:
            want = want.resample(disk['resample_freq']).mean().interpolate()
        if got.shape[1] != want.shape[1]:
            raise Violation('columns', '%s: %d columns stored, %d expected'
                            % (what, got.shape[1], want.shape[1]))
        same(got, want, what)
    if 'sim_vecs' not in data:
        raise Violation('missing', src + ': simulation vectors are missing')
    sv = data['sim_vecs']
    t = np.array([0.] + H.t)
    want = pd.DataFrame({'time': t, 'timestep': np.append(
        np.diff(t), t[-1] - t[-2])}, index=idx)
    same(sv[['time', 'timestep']], want, src + ': time vectors')
    if getattr(H, 'failed', None) is not None:
        same(sv[['failed_steps']], pd.DataFrame(
            {'failed_steps': H.failed}, index=idx),
            src + ': discarded attempts per step')
