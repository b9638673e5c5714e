"""C11: PID controllers against an executable reference which only sees
accepted steps."""
import core
import gen
import refctrl
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = controlled system x controller settings x fault plan; '
        'non-trivial: more than 2 steps with a PID controller; distinct by '
        'history hash')
ASSUMPTIONS = common.ASSUME + [
    'Error and process value before the first step count as zero error and '
    '25 degC (start values of the library).',
    'Process values are taken from the recorded accepted states.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
KIND = ('PID',)
FAMS = ['line', 'valve', 'mixv', 'loop', 'sub', 'dep', 'mixc', 'chp', 'doc',
        'plant']


def draw(prop, seed, tier, fams, kind, quick, thorough):
    def fn(r, f, i):
        for _ in range(40):
            spec = gen.enrich(gen.make(f, r), r)
            if any(c['cls'] in kind for c in spec['ctrls']):
                break
        else:
            return None
        return dict(spec=spec, plan=common.mk_plan(
            r, kinds=('veto', 'reject'), hi=5))
    return common.cases_for(prop, seed, tier, fams, quick, thorough, fn)


def cases(seed, tier):
    return draw('C11', seed, tier, FAMS, KIND, 60, 2200)


def judge(case, kind, tol):
    spec = case['spec']
    w = refctrl.Watch(spec)
    R = core.Run(spec, case['plan'], observers=[w])
    H = R.hist
    probes, worst = {}, 0.
    for c, k, cv, active, ref in refctrl.drive(spec, H, w):
        if c['cls'] not in kind:
            continue
        kw = c['kw']
        got = H.cv[k][c['name']]
        span = max(abs(x) for x in kw['CV_saturation'] + [kw['off_state']])
        d = abs(got - cv)
        worst = max(worst, d / span)
        if not d <= tol * span:
            raise Violation('cv', '%s controller %r delivers %.9g in step %d '
                            '(t=%.6g s, duration %.6g s), by its settings it '
                            'should be %.9g' % (
                                c['cls'], c['name'], got, k + 1, H.t[k],
                                H.h[k], cv))
        key = 'steps saturated' if cv in (ref.lo, ref.hi) else \
            'steps at off-state' if cv == ref.off else 'steps in between'
        probes[key] = probes.get(key, 0) + 1
        if active is not None:
            key = 'master active' if active else 'master inactive'
            probes[key] = probes.get(key, 0) + 1
    st = common.stats(R, probes=probes)
    st['dbg'] = dict(worst=worst)
    return st


def run(case):
    return judge(case, KIND, 1e-6)
