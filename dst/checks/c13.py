"""C13: CHP plants against an executable reference of run times, ramps,
modulation range and temperature limits, driven by accepted steps only."""
import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = CHP system x demand x fault plan; non-trivial: the plant was '
        'switched at least once; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Temperature limits of the library: 75 degC at the inlet for more than '
    '120 s, 110 degC anywhere.',
    'Plants which are on at the start and plants feeding a flue gas heat '
    'exchanger are not simulated.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = ['demand', 'loop', 'hot', 'inlet']


def cases(seed, tier):
    def fn(r, f, i):
        g = gen.Gen(r, tf=gen.rnd(r.uniform(
            *dict(hot=(200, 400), inlet=(350, 700)).get(f, (30, 400))), 4),
                    sdt=r.choice([2., 5., 10., 30.]))
        g.family = f
        if f == 'hot':
            g.T_init = gen.rnd(r.uniform(68, 75.2), 4)
        g.f_chp()
        spec = g.spec()
        p = next(p for p in spec['parts'] if p['cls'] == 'CHPPlant')
        kw = p['kw']
        kw['T_init'] = g.T_init
        if r.random() < .4:
            kw['modulation_range'][1] = gen.rnd(r.uniform(
                kw['modulation_range'][0] + .05, 1.), 3)
        if r.random() < .5:
            kw['min_on_time'] = gen.rnd(r.uniform(1, .3 * g.tf), 3)
            kw['min_off_time'] = gen.rnd(r.uniform(1, .3 * g.tf), 3)
        kw['max_slope_el'] = gen.rnd(min(1., r.choice(
            [.0005, .002, .01, .05, .5]) * r.uniform(.8, 1.2)), 3)
        if f == 'hot':
            kw['power_electrical'] = gen.rnd(10 ** r.uniform(4, 7.3), 3)
            kw['max_slope_el'] = .05
            for q in spec['parts']:
                if 'T_init' in q['kw']:
                    q['kw']['T_init'] = g.T_init
                if q['cls'] == 'Tes':
                    q['kw']['volume'] = gen.rnd(r.uniform(.02, .2), 3)
                    q['kw']['T_init'] = gen.rnd(r.choice(
                        [r.uniform(74, 90), r.uniform(90, 109.5)]), 4)
            if r.random() < .7:     # demand in spite of the temperatures
                for c in spec['ctrls']:
                    c['kw'].update(setpoint=120., invert=False, deadtime=0)
                spec['assign'] = []
        if f == 'inlet':
            # open line, inlet alternately below and above the limit
            spec['parts'] = [q for q in spec['parts'] if q['cls'] != 'Tes']
            v = []
            while len(v) < g.nser:
                v += [gen.rnd(r.uniform(76, 92), 4)] * max(1, round(
                    r.choice([30, 100, 135, 170]) / g.sdt))
                v += [gen.rnd(r.uniform(50, 74), 4)] * max(1, round(
                    r.uniform(10, 80) / g.sdt))
            if r.random() < .5:
                v = v[r.randrange(len(v) // 2):] + v
            spec['bcs'] = [dict(name='BC_a', T={'__series__': {
                'dt': g.sdt, 'vals': v[:g.nser]}}), dict(name='BC_b', T=60.)]
            spec['conns'] = [['BoundaryCondition', 'BC_a', 'p', 'in'],
                             ['p', 'out', 'chp', 'in'],
                             ['chp', 'out', 'BoundaryCondition', 'BC_b']]
            kw['min_on_time'] = gen.rnd(r.uniform(1, 60), 3)
            kw['min_off_time'] = gen.rnd(r.uniform(1, 60), 3)
            spec['ctrls'], spec['assign'] = [], []
            x = [1.] * g.nser
            for _ in range(r.choice([0, 0, 1, 3])):
                a = r.randrange(g.nser)
                x[a:a + 3] = [r.choice([0., .8])] * len(x[a:a + 3])
            kw.update(ctrl_required=False, T_init=gen.rnd(r.uniform(
                60, 78), 4), time_series={'__series__': {
                    'dt': g.sdt, 'vals': x}})
        if f == 'demand':
            # modulation given as time series
            spec['ctrls'], spec['assign'] = [], []
            v, x = [], 0.
            for j in range(g.nser):
                if r.random() < .3:
                    x = r.choice([0., 0., r.random(), r.uniform(
                        kw['modulation_range'][0], 1.), 1.])
                v.append(gen.rnd(x, 3))
            kw.update(ctrl_required=False, time_series={
                '__series__': {'dt': g.sdt, 'vals': v}})
        if r.random() < .3 and f not in ('demand', 'inlet'):
            spec = gen.enrich(spec, r)
        if r.random() < .3:
            spec['timeframe']['max_stepsize'] = r.choice([5., 20., 60.])
        return dict(spec=spec, plan=common.mk_plan(
            r, n_max=150, kinds=('veto', 'reject'), hi=6))
    return common.cases_for('C13', seed, tier, FAMS, 60, 2000, fn)


class Watch:
    def __init__(self):
        self.m = []

    def __call__(self, name, env, handler):
        if name == 'step_begin':
            self.m.append(float(env.parts['chp']._actuator_CV[0]))


def run(case):
    spec = case['spec']
    w = Watch()
    R = core.Run(spec, case['plan'], observers=[w])
    H = R.hist
    kw = next(p['kw'] for p in spec['parts'] if p['name'] == 'chp')
    lo, hi = kw['modulation_range']
    P = kw['power_electrical']
    T = H.full('chp', 'res').reshape(len(H.h) + 1, -1)
    S, Pel, Pg, Q = (H.full('chp', a)[1:].reshape(len(H.h)) for a in (
        '_chp_state', 'res_Pel', 'res_Pgas', 'res_dQ'))
    on, m_last, t_on, t_off, exc = False, 0., None, None, 0.
    probes = {}
    pf = core.ms.precomp_funs
    first, q_stop, cold = False, 0., False
    q_last = 0.
    p_last = None

    def hit(k, n=1):
        probes[k] = probes.get(k, 0) + n

    def bad(cls, k, txt):
        raise Violation(cls, 'CHP plant in step %d (t=%.6g s): %s' % (
            k + 1, t, txt))
    for k, h in enumerate(H.h):
        t = H.t[k - 1] if k else 0.
        hp = H.h[k - 1] if k else 0.
        got = float(S[k])
        d = min(w.m[k], hi)
        want_on = d >= lo
        hot = T[k].max() > 110.
        warm = T[k][0] > 75.
        new, m = want_on, d if want_on else 0.
        amb = False     # a tie of the times: both are fine
        if on and not want_on:
            el = t - t_on
            amb = abs(el - kw['min_on_time']) < 1e-6
            if el < kw['min_on_time']:
                new, m = True, lo
                hit('steps held on')
        elif not on and want_on:
            el = t - t_off if t_off is not None else 1e99
            amb = abs(el - kw['min_off_time']) < 1e-6
            if el < kw['min_off_time'] or warm or hot:
                new, m = False, 0.
                hit('steps held off' if el < kw['min_off_time']
                    else 'starts blocked by temperature')
        elif on and want_on:
            r = kw['max_slope_el'] * hp
            if not m_last - r <= m <= m_last + r:
                hit('steps on the ramp')
            m = min(max(m, m_last - r), m_last + r)
        emerg = False
        if new and (warm or hot):
            if hot or exc > 120.:
                new, m, emerg = False, 0., True
                hit('emergency shutdowns' if on else 'x')
                amb = amb or (not hot and abs(exc - 120.) < 1e-6)
            else:
                exc += hp
        else:
            exc = 0.
        if amb:
            new = got > 0
            m = got
        # ---- state
        if not new and got != 0.:
            bad('state', k, 'runs at %.6g, but has to be off (demand %.6g, '
                'on since %s, off since %s, inlet %.6g degC, max. %.6g degC)'
                % (got, w.m[k], t_on, t_off, T[k][0], T[k].max()))
        if new and got == 0.:
            bad('state', k, 'is off, but has to run (demand %.6g, on since '
                '%s, off since %s, inlet %.6g degC)' % (
                    w.m[k], t_on, t_off, T[k][0]))
        if new and not lo - 1e-12 <= got <= hi + 1e-12:
            bad('modulation', k, 'modulation %.9g is not within %g..%g' % (
                got, lo, hi))
        if not abs(got - m) <= 1e-9:
            bad('ramp', k, 'modulation is %.9g, should be %.9g (demand %.6g,'
                ' last %.6g, last step %.6g s)' % (got, m, w.m[k], m_last,
                                                   hp))
        # ---- power
        if not -1e-9 * P <= Pel[k] <= m * P * (1 + 1e-9):
            bad('power', k, 'electric power %.6g W at a modulation of %.6g '
                'of %.6g W' % (Pel[k], m, P))
        if Q[k] < -1e-9 * P or Pg[k] < -1e-9 * P:
            bad('power', k, 'negative heat or gas: %.6g, %.6g W' % (
                Q[k], Pg[k]))
        if not new and (Pel[k] != 0. or Pg[k] != 0.):
            bad('power', k, 'is off, but delivers %.6g W and takes %.6g W '
                'gas' % (Pel[k], Pg[k]))
        if not new and not Q[k] <= q_last * (1 + 1e-9) + 1e-9:
            bad('heat', k, 'is off, but its heat rises from %.6g to %.6g W'
                % (q_last, Q[k]))
        if new and not Q[k] <= 3.5 * P:
            bad('heat', k, 'delivers %.6g W heat at %.6g W electric power'
                % (Q[k], Pel[k]))
        if new and on and p_last is not None and m == m_last and \
                Pel[k] < p_last - 1e-9 * P:
            bad('power', k, 'electric power falls from %.6g to %.6g W at '
                'constant modulation' % (p_last, Pel[k]))
        if new and t - (t_on if on else t) > 1800. and \
                abs(Pel[k] - m * P) > 1e-6 * P:
            bad('power', k, 'electric power %.6g W instead of %.6g W long '
                'after start' % (Pel[k], m * P))
        if new and not on:
            t_on = t
            hit('starts')
            first = t_off is None
        if new and first:
            # first start: power follows the start-up curve since then
            f = min(max(float(pf.chp_startup_el(t - t_on)), 0.), 1.)
            if float(pf.chp_startup_th(t - t_on)) > .999:
                first, f = None, 1.
                hit('start-ups completed')
            if not abs(Pel[k] - f * m * P) <= 1e-6 * P:
                bad('startup', k, 'electric power is %.6g W %.6g s after the '
                    'first start, should be %.6g W' % (
                        Pel[k], t - t_on, f * m * P))
        if not new and t_off is not None and not on:
            f = float(pf.chp_shutdown_th(t - t_off))
            cold = cold or f < .01
            f = 0. if cold else f
            if not abs(Q[k] - f * q_stop) <= 1e-6 * P:
                bad('heat', k, 'heat is %.6g W %.6g s after the stop at '
                    '%.6g W, should be %.6g W' % (
                        Q[k], t - t_off, q_stop, f * q_stop))
        if on and not new:
            q_stop, cold = q_last, False
        if on and not new:
            t_off = t
            hit('stops')
        on, m_last, q_last, p_last = new, m, Q[k], Pel[k]
        if emerg:
            t_off = t
    st = common.stats(R, probes=probes)
    st['nontrivial'] = bool(probes.get('starts'))
    return st
