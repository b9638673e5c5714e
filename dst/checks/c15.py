"""C15: the same set-up under different clocks, memory sizes, hash seeds,
time zones, directories and histories of the process gives the identical
history and the identical stored results."""
import glob
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd

import core
import gen
import hashrun
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = system x fault plan x two environments (clock schedule, '
        'memory, earlier simulations; or a fresh process with another hash '
        'seed, time zone and directory); non-trivial: more than 2 steps; '
        'distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Numbers of threads, CPU type and library versions are not varied.']
REAL = common.REAL_SIM + ['multisim result storing (HDF5 files)']
STUB = common.STUB_SIM
FAMS = gen.FAMILIES
ZONES = ['UTC', 'Asia/Tokyo', 'America/New_York', 'EST5EDT']


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, adaptive=r.random() < .9,
                        tf=gen.rnd(r.uniform(2, 12), 3))
        if r.random() < .4:
            gen.enrich(spec, r)
        if r.random() < .4:
            spec['disk'] = dict(save_every_n_steps=r.choice([25, 60, 300]),
                                complevel=r.choice([0, 5]),
                                resample_final=False)
        c = dict(spec=spec, plan=common.mk_plan(
            r, kinds=('veto', 'reject'), hi=3))
        c['clock'] = [dict(at=1 + int(80 * r.random() ** 2), kind='clock',
                           d=int(r.choice([-1e18, -86400e9, -1e9, -1, 5e9,
                                           3600e9, 3e16])))
                      for _ in range(r.randint(0, 6))]
        c['step'] = r.choice([0, 0, 1, 1_000_000, 10 ** 9, 3600 * 10 ** 9])
        c['now'] = int(r.choice([core.EPOCH, 1, 951_782_399 * 10 ** 9,
                                 4_000_000_000 * 10 ** 9]))
        c['ram'] = r.choice([None, 1 << 20, 1 << 30, 1 << 45])
        if r.random() < .5:
            g = r.choice(FAMS)
            c['other'] = gen.make(g, r, tf=gen.rnd(r.uniform(.5, 3), 3))
        return c
    out = common.cases_for('C15', seed, tier, FAMS, 19, 500, fn)

    def fp(r, f, i):
        n = 5 if tier == 'quick' else 12
        cs = []
        fams = list(FAMS)
        r.shuffle(fams)
        for j in range(n):
            g = 'chain' if not j else fams[j % len(fams)]
            spec = gen.make(g, r, tf=gen.rnd(r.uniform(2, 8), 3))
            if r.random() < .5:
                gen.enrich(spec, r)
            cs.append(dict(spec=spec, plan=common.mk_plan(
                r, kinds=('veto', 'reject'), hi=3)))
        return dict(cases=cs, hashseed=r.randint(1, 4294967295),
                    tz=r.choice(ZONES))
    out += common.cases_for('C15', seed, tier, ['process'], 14, 160, fp)
    return out


def stored(d):
    h5 = glob.glob(d + '/**/*.h5', recursive=True)
    if len(h5) != 1:
        raise Violation('files', 'result files: %s' % [
            os.path.basename(f) for f in h5])
    with pd.HDFStore(h5[0], 'r') as st:
        return {k: st[k] for k in st.keys()}


def process(case):
    with core.scratch_dir() as d:
        with open(d + '/in.json', 'w') as f:
            json.dump(case['cases'], f)
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']),
                   TZ=case['tz'])
        here = os.path.dirname(os.path.abspath(hashrun.__file__))
        p = subprocess.run(
            [sys.executable, '-W', 'ignore', here + '/hashrun.py',
             d + '/in.json'], cwd=d, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True)
    line = [x for x in p.stdout.splitlines() if x.startswith('DIGESTS ')]
    if not line:
        mine = hashrun.digests(case['cases'])
        raise Violation('process', 'simulations failed in a process with '
                        'hash seed %d, but not in this one (%d runs): %s' % (
                            case['hashseed'], len(mine),
                            p.stderr.strip()[-400:]))
    theirs = json.loads(line[0][8:])
    steps, simt = 0, 0.
    for c, b in zip(case['cases'], theirs):
        a = hashrun.digests([c])[0]
        if a is not None:
            steps, simt = steps + a[0], simt + a[1]
        if a != b:
            raise Violation('process', 'history of system %r depends on the '
                            'process: hash seed 0: %s, hash seed %d, TZ %s: '
                            '%s' % (c['spec']['family'], a, case['hashseed'],
                                    case['tz'], b))
    return dict(runs=2 * len(case['cases']), steps=2 * steps,
                sim_time=2 * simt, key=core.digest(theirs), nontrivial=True,
                faults={'other hash seed': 1, 'other time zone': int(
                    case['tz'] != 'UTC')})


def run(case):
    if 'cases' in case:
        return process(case)
    spec, plan = case['spec'], case['plan']
    with core.scratch_dir() as d:
        A = core.Run(spec, plan, scratch=d)
        sa = stored(d) if 'disk' in spec else None
    if 'other' in case:
        try:
            core.Run(case['other'])
        except core.Skip:
            pass
    with core.scratch_dir() as d:
        B = core.Run(spec, plan + case['clock'], scratch=d,
                     clock_step=case['step'], now=case['now'],
                     ram=case['ram'])
        sb = stored(d) if 'disk' in spec else None
    core.compare_hist(A.hist, B.hist, what='same set-up in two environments')
    if sa is not None:
        if sorted(sa) != sorted(sb):
            raise Violation('stored', 'stored tables differ: %s vs. %s' % (
                sorted(sa), sorted(sb)))
        for k in sa:
            a, b = sa[k], sb[k]
            if a.shape != b.shape or not a.index.equals(b.index) or \
                    not core.close(a.values, b.values)[0]:
                raise Violation('stored', 'stored table %s differs' % k)
    return common.stats(A, B, faults={
        'clock frozen': int(case['step'] == 0),
        'other memory size': int(case['ram'] is not None),
        'earlier simulation': int('other' in case)},
        probes={'stored results compared': int(sa is not None)})


def shrink(case):
    import shrink as S
    if 'cases' in case:
        if len(case['cases']) > 1:
            for c in case['cases']:
                yield dict(case, cases=[c])
        if case['tz'] != 'UTC':
            yield dict(case, tz='UTC')
        return
    if 'other' in case:
        yield {k: v for k, v in case.items() if k != 'other'}
    if case['ram'] is not None:
        yield dict(case, ram=None)
    if case['clock']:
        yield dict(case, clock=[])
    if case['step'] != 1_000_000:
        yield dict(case, step=1_000_000)
    yield from S.generic(case)
