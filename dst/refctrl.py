"""Executable reference of the controllers: written from the documented
arguments, driven only by accepted steps (duration, process value, setpoint,
state of the master)."""
import math

import numpy as np

ZN = {'P': (.5, None, None), 'PI': (.45, .85, None), 'PD': (.55, None, .15)}
ZN_PID = {'classic': (.6, .5, .125), 'pessen-int': (.7, .4, .15),
          'some-os': (.33, .5, .33), 'no-os': (.2, .5, .33)}


def gains(kw):
    """kp, ki, kd of the documented tuning rules."""
    t, terms = kw['loop_tuning'], kw['terms']
    if t == 'manual':
        k = [kw['Kp'], kw['Ki'] if 'I' in terms else 0.,
             kw['Kd'] if 'D' in terms else 0.]
    elif t == 'tune':
        k = [kw['Kp'], 0., 0.]
    else:
        a, n, v = ZN_PID[kw['rule']] if terms == 'PID' else ZN[terms]
        kp = kw['Kp_crit'] * a
        k = [kp, kp / (n * kw['T_crit']) if n else 0.,
             kp * v * kw['T_crit'] if v else 0.]
    return [x * m for x, m in zip(k, kw.get('K_mult', [1., 1., 1.]))]


class Base:
    def __init__(self, kw):
        self.kw = kw
        self.t, self.cv = 0., 0.
        self.lo, self.hi = kw['CV_saturation']
        self.off = kw['off_state']
        self.inv = -1. if kw['invert'] else 1.
        self.ts, self.pvs = [0.], [25.]

    def forced_off(self, active):
        if not self.kw['sub_controller']:
            return False
        return active == (self.kw['dependency_kind'] != 'concurrent')

    def step(self, h, sp, pv, active=None, on_pv=None):
        """Output after a step of duration h; `active`: state of master."""
        self.t += h
        prev = self.cv
        dead = self.kw['deadtime']
        if dead and self.kw.get('_pid'):
            self.ts.append(self.t)
            self.pvs.append(pv)
            pv = float(np.interp(self.t - dead, self.ts, self.pvs))
        cv = self.law(h, sp, pv, prev, on_pv)
        if self.forced_off(active):
            cv = self.off
            self.erase()
        a, b = self.kw['slope']
        if a or b:
            cv = min(max(cv, prev + a * h), prev + b * h)
        self.cv = cv
        return cv

    def erase(self):
        pass


class PID(Base):
    def __init__(self, kw):
        super().__init__(dict(kw, _pid=True))
        self.kp, self.ki, self.kd = gains(kw)
        aw = kw.get('anti_windup', math.inf)
        if kw['loop_tuning'] == 'tune' or 'I' not in kw['terms']:
            aw = math.inf
        elif isinstance(aw, str):
            aw = float(aw.split('_')[1] if '_' in aw else 1.) / self.ki
        self.aw = aw
        self.rc = 1 / (2 * math.pi * kw['cutoff_freq']) if kw.get(
            'filter_derivative') and 'D' in kw['terms'] else None
        self.e1 = self.e2 = self.d = self.i = 0.

    def erase(self):
        self.i = 0.

    def law(self, h, sp, pv, prev, on_pv):
        e = sp - pv
        velocity = self.kw['time_domain'] == 'discrete' and self.ki != 0
        d = e - 2 * self.e1 + self.e2 if velocity else e - self.e1
        if self.rc is None:
            self.d = d
        else:
            self.d += h / (self.rc + h) * (d - self.d)
        if velocity:
            cv = min(max(prev, -self.aw), self.aw) + self.inv * (
                self.kp * (e - self.e1) + self.ki * h * e
                + self.kd * self.d / h)
        else:
            self.i = min(max(self.i + e * h, -self.aw), self.aw)
            cv = self.inv * (self.kp * e + self.ki * self.i
                             + self.kd * self.d / h)
        self.e2, self.e1 = self.e1, e
        return min(max(cv, self.lo), self.hi)


class BangBang(Base):
    def law(self, h, sp, pv, prev, on_pv):
        hy = self.kw['hysteresis']
        up, low = pv > sp + abs(hy) / 2, pv < sp - abs(hy) / 2
        on, off = (up, low) if hy < 0 else (low, up)
        return self.hi * self.inv if on else self.off if off else prev


class TwoSensors(Base):
    def law(self, h, sp, pv, prev, on_pv):
        kw = self.kw
        a = kw['activation_value']
        on = on_pv < a if kw['activation_sign'] == 'lower' else on_pv > a
        off = pv > sp if kw['deactivation_sign'] == 'greater' else pv < sp
        return self.off if off else self.hi * self.inv if on else prev


KINDS = dict(PID=PID, BangBang=BangBang, TwoSensors=TwoSensors)


class Watch:
    """Setpoints and actuator values in force during each step."""

    def __init__(self, spec):
        self.spec, self.sp, self.act = spec, [], []

    def __call__(self, name, env, handler):
        if name == 'step_begin':
            self.sp.append({c['name']: float(np.ravel(
                env.ctrls[c['name']].sp)[0]) for c in self.spec['ctrls']
                if c['kw']['reference_part'] == 'none'})
            self.act.append({p['name']: float(np.ravel(
                env.parts[p['name']]._actuator_CV)[0])
                for p in self.spec['parts']
                if env.parts[p['name']].is_actuator})


def cell(spec, part, port):
    """Flat index of a sensor position."""
    p = next(p for p in spec['parts'] if p['name'] == part)
    n = p['kw']['grid_points']
    if isinstance(port, int):
        return port % n
    return {'in': 0, 'out': n - 1}[port]


def drive(spec, H, w):
    """Yield (ctrl spec, step k (0..), reference output, saw master active).

    Setpoints are those in force during the step, process values those at
    its end."""
    for c in spec['ctrls']:
        kw = c['kw']
        ref = KINDS[c['cls']](kw)
        i = cell(spec, kw['controlled_part'], kw['controlled_port'])
        series = any(a.get('control') == c['name'] for a in spec['assign'])
        if c['cls'] == 'TwoSensors':
            j = cell(spec, kw['on_sensor_part'], kw['on_sensor_port'])
        for k, h in enumerate(H.h):
            T = H.T[k]
            pv = float(T[kw['controlled_part']][i])
            if kw['reference_part'] != 'none':
                sp = float(T[kw['reference_part']][cell(
                    spec, kw['reference_part'], kw['reference_port'])]
                    ) + kw['ref_SP_diff']
            elif series:
                sp = w.sp[k][c['name']]
            else:
                sp = float(kw['setpoint'])
            active = None
            if kw['sub_controller'] and kw['master_type'] == 'part':
                # controllers act in the order they were added
                first = any(x['kw']['actuator'] == kw['master_part']
                            for x in spec['ctrls'][:spec['ctrls'].index(c)])
                a = H.act if first else w.act
                active = float(np.ravel(a[k][kw['master_part']])[0]) != 0.
            elif kw['sub_controller']:
                m = next(x for x in spec['ctrls']
                         if x['name'] == kw['master_controller'])
                active = float(np.ravel(H.act[k][m['kw']['actuator']])[0]) \
                    != m['kw']['off_state']
            on_pv = float(T[kw['on_sensor_part']][j]) \
                if c['cls'] == 'TwoSensors' else None
            yield c, k, ref.step(h, sp, pv, active, on_pv), active, ref
