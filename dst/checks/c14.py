"""C14: reset + run equals a newly built environment, whatever happened in
the run(s) before: complete, aborted between or within steps, or failed."""
import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = system x 1-3 earlier runs (fault plans, abort points) x plan '
        'of the last run; non-trivial: more than 2 steps; distinct by history '
        'hash')
ASSUMPTIONS = common.ASSUME + [
    'With disk saving a new result file is requested before each repetition '
    '(the library needs one).']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = gen.FAMILIES


class Abort(Exception):
    pass


class Aborter:
    """Stops a run at a point of its n-th step."""

    def __init__(self, at, where):
        self.at, self.where, self.n = at, where, 0

    def __call__(self, name, env, handler):
        if handler.k == self.at and name == self.where:
            self.n += 1
            if self.n == 1:
                raise Abort()


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, adaptive=r.random() < .9, tf=gen.rnd(
            r.uniform(10, 60) if f == 'chp' else r.uniform(3, 20), 3))
        if r.random() < .4:
            gen.enrich(spec, r)
        before = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            b = dict(plan=common.mk_plan(r, hi=4))
            if r.random() < .6:
                b.update(at=1 + int(120 * r.random() ** 2), where=r.choice(
                    ['step_begin', 'attempt', 'step_end']))
            before.append(b)
        if r.random() < .3:
            spec['disk'] = dict(
                save_every_n_steps=r.choice([2, 5, 13, 40, 1000]),
                resample_final=False, complevel=r.choice([0, 5]),
                complib='zlib')
        return dict(spec=spec, before=before, plan=common.mk_plan(r, hi=4))
    return common.cases_for('C14', seed, tier, FAMS, 36, 1000, fn)


def named(spec, name):
    return dict(spec, disk=dict(spec['disk'], sim_name=name)) \
        if 'disk' in spec else spec


def stored(env):
    with pd.HDFStore(env._disk_store['path'], 'r') as st:
        return {k: st[k] for k in st.keys()}


def run(case):
    with core.scratch_dir() as d:
        return judge(case, d)


def judge(case, d):
    spec = case['spec']
    aborted = 0
    R = core.Run(spec, start=False, scratch=d)
    try:
        for j, b in enumerate(case['before']):
            ab = [Aborter(b['at'], b['where'])] if b.get('at') else []
            if j:
                with core.quiet():
                    scen.disksaving(R.env, named(spec, 'r%d' % j), d)
                    R.env.initialize_sim(build_simenv=False,
                                         reset_simenv=True)
            R.hist = core.History()
            R.handler = core.Handler(b['plan'], observers=[R.hist] + ab)
            try:
                R.start()
            except Abort:
                aborted += 1
    finally:
        R.close()
    with core.quiet():
        scen.disksaving(R.env, named(spec, 'last'), d)
    R.rerun(case['plan'])
    F = core.Run(named(spec, 'new'), case['plan'], scratch=d)
    for k, v in F.hist.init.items():
        ok, m = core.close(R.hist.init[k], v)
        if not ok:
            raise Violation('initial', 'initial state %s after a reset '
                            'differs from a new environment %s' % (k, m))
    core.compare_hist(F.hist, R.hist, what='new vs. reset environment')
    # the results handed to the user
    if len(F.env.time_vec) != len(R.env.time_vec) or not core.close(
            F.env.time_vec, R.env.time_vec)[0]:
        raise Violation('result', 'time vectors differ')
    for n in F.env.parts:
        for a in ('res', 'res_dm'):
            ok, m = core.close(getattr(F.env.parts[n], a),
                               getattr(R.env.parts[n], a))
            if not ok:
                raise Violation('result', 'results %s of %s of new and reset '
                                'environment differ %s' % (a, n, m))
    if 'disk' in spec:
        x, y = stored(F.env), stored(R.env)
        if sorted(x) != sorted(y):
            raise Violation('stored', 'a new environment stores %s, a reset '
                            'one %s' % (sorted(x), sorted(y)))
        for k in x:
            if len(x[k]) != len(y[k]) or (x[k].index != y[k].index).any() \
                    or not core.close(x[k].values, y[k].values)[0]:
                raise Violation('stored', 'stored table %s of new and reset '
                                'environment differ' % k)
    return common.stats(F, R, faults={'aborted run': aborted},
                        probes={'resets': len(case['before'])})
