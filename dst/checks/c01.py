"""C01: run A with discarded attempts vs. run B forced to A's accepted step
sizes at the first attempt."""
import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = scenario x plan of discarded attempts, simulated twice (with '
        'the discards / with the accepted sizes at once); non-trivial: at '
        'least one attempt was discarded; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'The kernels keep surface temperatures and heat transfer coefficients of '
    'their previous evaluation as start values of the next one. This lag is '
    'part of the numerical method and makes retries differ by about 1e-5 '
    'relative; the harness sets those coefficients back before a retry, so '
    'that everything else can be compared (almost) exactly.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM

LAGGED = ('_T_s', '_alpha_i', '_alpha_inf', '_UA_amb_shell', '_UA_amb_lid')


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r)
        return dict(spec=spec, plan=common.mk_plan(
            r, kinds=('veto', 'reject'), lo=1, hi=12))
    return common.cases_for('C01', seed, tier, gen.FAMILIES, 40, 900, fn)


class Unlag:
    """Set the lagged heat transfer coefficients back before each retry."""

    def __init__(self, handler):
        self.h = handler
        handler.observers.append(self)
        stab, err = handler.stability, handler.error

        def stability(env, h):
            v = stab(env, h)
            if v is not None or not bool(np.ravel(env._step_stable)[0]):
                self.restore()
            return v

        def error(env, h, e):
            e = err(env, h, e)
            if not e < 1.:
                self.restore()
            return e
        handler.stability, handler.error = stability, error

    def __call__(self, name, env, handler):
        if name == 'step_begin':
            self.s = [(a, a.copy()) for p in env.parts.values()
                      for a in (getattr(p, n, None) for n in LAGGED)
                      if isinstance(a, np.ndarray)]

    def restore(self):
        for a, b in self.s:
            a[...] = b


PLANT = ('_chp_on', '_startup_duration', '_off_duration',
         '_shutdown_duration', '_startup_at_time', '_shutdown_at_time',
         '_pth_power_factor', '_pel_power_factor', '_power_modulation',
         '_bin_pow_fac')


def plant(env):
    """Run-time states of CHP plants."""
    out = {}
    for n, p in env.parts.items():
        if type(p).__name__ == 'CHPPlant':
            for a in PLANT:
                if hasattr(p, a):
                    out[n + '.' + a] = np.array(getattr(p, a), float)
    return out


def run(case):
    A = core.Run(case['spec'], case['plan'], start=False, fun=plant)
    Unlag(A.handler)
    try:
        A.start()
    finally:
        A.close()
    sizes = list(A.hist.h)
    B = core.Run(case['spec'], [], sizes=sizes, calm=.5, fun=plant,
                 max_steps=len(sizes) + 5)
    core.compare_hist(A.hist, B.hist, rtol=1e-9, atol=1e-9,
                      what='with vs. without discarded attempts')
    for i, (a, b) in enumerate(zip(A.hist.extra, B.hist.extra)):
        for k in a:
            ok, m = core.close(a[k], b[k], rtol=1e-9, atol=1e-9)
            if not ok:
                raise Violation('plant', '%s differs in step %d: %s' % (
                    k, i + 1, m))
    st = common.stats(A, B)
    st['nontrivial'] = bool(A.handler.rejected)
    return st
