"""C12: two-point, two-sensor and dependent controllers against an executable
reference which only sees accepted steps."""
import core
import gen
import refctrl
from core import Violation
from checks import c11, common

LEVEL = 'exploration'
RULE = ('case = system with two-point or dependent controllers x fault plan; '
        'non-trivial: more than 2 steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'A dependent controller on a controller sees the actuator value its '
    'master set in the same step, one on a part the value in force during '
    'the step, or if a controller added before it drives this part, the '
    'value set by that one.', 'Before the first step outputs are zero.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = ['line', 'loop', 'sub', 'dep', 'chain', 'mixc', 'chp', 'plant']
KIND = ('BangBang', 'TwoSensors')


def cases(seed, tier):
    out = c11.draw('C12', seed, tier, FAMS, KIND, 80, 2600)
    r = core.rng('C12inv', seed)
    for c in out:
        # inverted two-point controllers
        for x in c['spec']['ctrls']:
            if x['cls'] in KIND and x['kw']['actuator'] != 'chp' \
                    and r.random() < .15:
                x['kw']['invert'] = True
        for x in c['spec']['ctrls']:
            # masters whose off-state lies above their active values
            kw = x['kw']
            if x['kw']['actuator'] != 'chp' and r.random() < .15 and any(
                    y['kw'].get('master_controller') == x['name']
                    for y in c['spec']['ctrls']):
                b = kw['CV_saturation'][1]
                kw['off_state'] = gen.rnd(b * r.uniform(.6, .95), 3)
                kw['CV_saturation'] = [0., gen.rnd(b * r.uniform(.2, .5), 3)]
    return out


def run(case):
    st = c11.judge(case, KIND, 1e-9)
    dep = any(c['kw']['sub_controller'] for c in case['spec']['ctrls'])
    if dep:     # dependent PID controllers
        c11.judge(case, ('PID',), 1e-6)
    return st
