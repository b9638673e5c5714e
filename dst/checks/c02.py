"""C02: the same scenario and fault plan, buffered in different ways."""
import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = scenario x fault plan, simulated unbuffered and with two '
        'other buffer set-ups (save interval, memory size, disk on/off); '
        'non-trivial: a buffer end was reached at least once; distinct by '
        'history hash')
ASSUMPTIONS = common.ASSUME + [
    'The number of buffer ends per run is limited to about 25.']
REAL = common.REAL_SIM + ['HDF5 store on a real scratch directory']
STUB = common.STUB_SIM


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(1.5, 12), 4),
                        adaptive=r.random() < .85)
        if not spec['timeframe']['adaptive_steps']:
            spec['timeframe']['timestep'] = r.choice([.05, .1, .125])
        plan = common.mk_plan(r, n_max=40, hi=4)
        var = []
        for _ in range(2):
            kind = r.choice(['ram', 'disk', 'disk'])
            rel = r.choice([['abs', r.choice([1, 2, 3, 7])],
                            ['div', r.randint(0, 99)],
                            ['N', r.choice([-2, -1, 0, 1, 2])],
                            ['frac', round(r.uniform(.05, .9), 3)]])
            v = dict(kind=kind, rel=rel)
            if kind == 'disk':
                v['disk'] = dict(resample_final=r.random() < .2,
                                 complevel=r.choice([0, 1, 5, 9]))
                if r.random() < .2:
                    v['ramrel'] = ['frac', round(r.uniform(.05, .9), 3)]
            var.append(v)
        return dict(spec=spec, plan=plan, var=var)
    return common.cases_for('C02', seed, tier, gen.FAMILIES, 22, 500, fn)


def interval(rel, n):
    kind, x = rel
    lo = max(1, n // 25)
    if kind == 'abs':
        return max(lo, x)
    if kind == 'div':
        d = [k for k in range(lo, n + 1) if n % k == 0]
        return d[x % len(d)]
    if kind == 'N':
        return max(lo, n + x)
    return max(lo, int(n * x))


def cells(env):
    return sum(p.T.size for p in env.parts.values() if p.solve_numeric)


def check_arrays(R, what):
    H, env = R.hist, R.env
    tv = np.ravel(env.time_vec)
    ok, m = core.close(tv, [0.] + H.t)
    if not ok:
        raise Violation('time-vector', '%s: time vector after the simulation '
                        'differs from the simulated times %s' % (what, m))
    for part, arr in H.arrays():
        ok, m = core.close(getattr(env.parts[part], arr),
                           H.full(part, arr))
        if not ok:
            raise Violation('arrays', '%s: %s of %s after the simulation '
                            'differs from the simulated values %s' % (
                                what, arr, part, m))


def run(case):
    spec, plan = case['spec'], case['plan']
    A = core.Run(spec, plan)
    check_arrays(A, 'plain')
    n = len(A.hist.t)
    c = cells(A.env)
    runs, ends = [A], 0
    for v in case['var']:
        s = dict(spec)
        ram = None
        k = interval(v['rel'], n)
        if v['kind'] == 'ram':
            ram = int((k + .5) * c * 16)
            what = 'memory for %d steps' % k
        else:
            s['disk'] = dict(v['disk'], save_every_n_steps=k)
            what = 'saving every %d steps' % k
            if 'ramrel' in v:
                kr = interval(v['ramrel'], n)
                ram = int((kr + .5) * c * 16)
                what += ' with memory for %d steps' % kr
        with core.scratch_dir() as d:
            B = core.Run(s, plan, scratch=d, ram=ram)
        what += ' (%d steps simulated)' % n
        core.compare_hist(A.hist, B.hist, what='plain vs. ' + what)
        check_arrays(B, what)
        for a in ('_failed_steps', '_solver_state'):
            if not hasattr(A.env, a):
                continue
            ok, m = core.close(np.ravel(getattr(A.env, a)),
                               np.ravel(getattr(B.env, a)))
            if not ok:
                raise Violation('accounting', '%s: %s differs %s' % (
                    what, a, m))
        ends += n // k
        runs.append(B)
    st = common.stats(*runs, probes={
        'buffer ends reached': ends, 'last step fills the buffer': sum(
            n % interval(v['rel'], n) == 0 for v in case['var'])})
    st['nontrivial'] = ends > 0
    return st


def shrink(case):
    import shrink as S
    for i in range(len(case['var'])):
        if len(case['var']) > 1:
            c = dict(case, var=case['var'][:i] + case['var'][i + 1:])
            yield c
    yield from S.generic(case)
