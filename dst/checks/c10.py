"""C10: saturation, slope and actuator limits in every accepted step."""
import numpy as np

import core
import gen
import refctrl
from core import Violation
from checks import c11, common

LEVEL = 'exploration'
RULE = ('case = controlled system x controller settings x fault plan; '
        'non-trivial: more than 2 steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'With a slope limit the output may lie between its start value zero, its '
    'off-state and the saturation range.',
    'Two-point controllers deliver upper saturation limit or off-state; '
    'inverted ones are judged by C12.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = c11.FAMS


def cases(seed, tier):
    out = c11.draw('C10', seed, tier, FAMS, tuple(refctrl.KINDS), 60, 2200)
    for c in out:
        r = core.rng('C10', seed, c['fam'], c['sub'], 'x')
        for x in c['spec']['ctrls']:
            kw = x['kw']
            if r.random() < .3 and kw['slope'] == [0, 0] and not kw[
                    'sub_controller']:
                s = kw['CV_saturation'][1] - kw['CV_saturation'][0]
                kw['slope'] = [-gen.rnd(s * r.uniform(.001, .1), 3),
                               gen.rnd(s * r.uniform(.001, .1), 3)]
                kw['silence_slope_warning'] = True
            p = next(p for p in c['spec']['parts']
                     if p['name'] == kw['actuator'])
            # actuators may be narrower than the controller
            if r.random() < .35 and p['cls'] in (
                    'PipeWithPump', 'HeatedPipe', 'PipeWith3wValve',
                    'MixingValve'):
                u = p['kw'].get('upper_limit', 1.)
                p['kw']['upper_limit'] = gen.rnd(u * r.uniform(.4, .95), 3)
                if p['cls'] != 'HeatedPipe':
                    p['kw']['lower_limit'] = gen.rnd(
                        p['kw']['upper_limit'] * r.uniform(.05, .5), 3)
                for k in ('start_massflow', 'start_portA_opening',
                          'port_A_init'):
                    if k in p['kw']:
                        p['kw'][k] = min(p['kw']['upper_limit'], max(
                            p['kw']['lower_limit'], p['kw'][k]))
            if kw['slope'] != [0, 0] and x['cls'] == 'PID' \
                    and r.random() < .4 and 'Kp' in kw:
                kw['Kp'] = gen.rnd(kw['Kp'] * 50, 3)    # hits its limits
    return out


def run(case):
    spec = case['spec']
    R = core.Run(spec, case['plan'])
    H = R.hist
    probes = {}
    eps = 1e-9

    def hit(k):
        probes[k] = probes.get(k, 0) + 1
    for c in spec['ctrls']:
        kw, n = c['kw'], c['name']
        lo, hi = kw['CV_saturation']
        off, (sn, sp) = kw['off_state'], kw['slope']
        p = next(p for p in spec['parts'] if p['name'] == kw['actuator'])
        al, au = p['kw']['lower_limit'], p['kw']['upper_limit']
        cls, scale = p['cls'], 1.
        if cls == 'PipeWithPump':
            scale = p['kw']['maximum_flow']
        prev, span = 0., max(abs(hi), abs(lo), abs(off))
        for k, h in enumerate(H.h):
            cv = H.cv[k][n]
            a = float(np.ravel(H.act[k][kw['actuator']])[0])
            where = ' of controller %r in step %d (t=%.6g s, %.6g s long)' % (
                n, k + 1, H.t[k], h)
            if sn or sp:
                d = cv - prev
                if not sn * h - eps * span <= d <= sp * h + eps * span:
                    raise Violation('slope', 'output%s changes by %.6g, '
                                    'allowed are %.6g..%.6g' % (
                                        where, d, sn * h, sp * h))
                if d > sp * h * .999999 or d < sn * h * .999999:
                    hit('steps at slope limit')
                ok = min(0., lo, off) - eps * span <= cv \
                    <= max(0., hi, off) + eps * span
            else:
                ok = lo - eps * span <= cv <= hi + eps * span or cv == off \
                    or (c['cls'] != 'PID' and cv == 0.)
            if not ok:
                raise Violation('saturation', 'output%s is %.9g, limits are '
                                '%g..%g' % (where, cv, lo, hi))
            if cls != 'CHPPlant':
                if not al - eps * abs(au) <= a <= au + eps * abs(au):
                    raise Violation('actuator', 'actuator value%s is %.9g, '
                                    'the limits of the actuator are %g..%g'
                                    % (where, a, al, au))
                want = min(max(cv * scale, al), au)
                if not abs(a - want) <= 1e-9 * abs(au):
                    raise Violation('transfer', 'actuator value%s is %.9g, '
                                    'but the controller demands %.9g within '
                                    '%g..%g' % (where, a, cv * scale, al,
                                                au))
                if a in (al, au) and cv * scale != a:
                    hit('steps at actuator limit')
            if cv in (lo, hi):
                hit('steps at saturation')
            prev = cv
    return common.stats(R, probes=probes)
