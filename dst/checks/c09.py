"""C09: maximum principle, thermal equilibrium and energy balance, judged
over every accepted step with an independent balance of stored heat."""
import math

import numpy as np

import core
import gen
from core import Violation
from checks import common
from checks.c08 import Net, PUMPS, VALVES

LEVEL = 'exploration'
RULE = ('case = system x fault plan x mode (adiabatic, lossy, equilibrium); '
        'non-trivial: more than 2 steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Mixing points without own volume use mean heat capacities (documented '
    'approximation), thus bounds get 1 %, the balance 5 % slack.',
    'The numeric heat exchanger is judged to 2 % (its explicit coupling of '
    'plates and channels is only kept stable by the error tolerance).',
    'Adaptive step sizes (fixed steps may be chosen beyond stability).',
    'The balance uses water properties and cell sizes of the library, but '
    'own sums.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = gen.FAMILIES
BC = gen.BC
HEAT = ('HeatedPipe', 'CHPPlant')
MIX = ('Connector3w', 'MixingValve')
LAM0 = 1e-7
OD = {'DN15': .0213, 'DN20': .0269, 'DN25': .0337, 'DN32': .0424,
      'DN50': .0603}    # outer diameters, EN 10255


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r)
        mode = r.choice(['adiabatic', 'adiabatic', 'lossy', 'equilibrium'])
        if mode == 'adiabatic':
            for p in spec['parts']:
                if 'insulation_lambda' in p['kw']:
                    p['kw']['insulation_lambda'] = LAM0
        elif mode == 'equilibrium':
            level(spec, gen.rnd(r.uniform(12, 88), 4))
        return dict(spec=spec, mode=mode, plan=common.mk_plan(
            r, kinds=('veto', 'reject'), hi=4))
    return common.cases_for('C09', seed, tier, FAMS, 40, 1200, fn)


def level(spec, T):
    """Everything at temperature T, heaters without power."""
    for p in spec['parts']:
        for k in ('T_init', 'T_amb'):
            if k in p['kw']:
                p['kw'][k] = T
        if p['cls'] == 'HeatedPipe':
            p['kw']['upper_limit'] = 1e-9
    for b in spec['bcs']:
        if isinstance(b['T'], dict):
            v = b['T']['__series__']['vals']
            b['T']['__series__']['vals'] = [T] * len(v)
        else:
            b['T'] = T
    spec['assign'] = [a for a in spec['assign']
                      if a.get('variable_name') != '_T_amb']
    for c in spec['ctrls']:
        if any(p['name'] == c['kw']['actuator'] and p['cls'] == 'CHPPlant'
               for p in spec['parts']):
            # never on: the plant is warmer than the setpoint
            c['kw'].update(setpoint=T - 40., invert=False, hysteresis=1.,
                           deadtime=0)
            if c['cls'] == 'PID':
                c['kw'].update(terms='P')
                c['kw'].pop('Ki', None), c['kw'].pop('Kd', None)
    spec['assign'] = [a for a in spec['assign'] if not any(
        c['name'] == a.get('control') and p['name'] == c['kw']['actuator']
        and p['cls'] == 'CHPPlant' for c in spec['ctrls']
        for p in spec['parts'])]


class Watch:
    """Boundary temperatures and actuator values during each step."""

    def __init__(self, spec):
        self.spec, self.bc, self.act, self.amb = spec, [], [], []

    def __call__(self, name, env, handler):
        if name != 'step_begin':
            return
        self.bc.append({b['name']: float(env.ports_all[
            env.boundary_conditions[b['name']]['port_id']])
            for b in self.spec['bcs']})
        self.act.append({p['name']: float(np.ravel(
            env.parts[p['name']]._actuator_CV)[0])
            for p in self.spec['parts'] if p['cls'] in PUMPS + VALVES})
        self.amb.append([float(np.ravel(env.parts[p['name']]._T_amb)[0])
                         for p in self.spec['parts'] if 'T_amb' in p['kw']])


def water(T):
    """rho * cp and cp of water (library functions on own arrays)."""
    T = np.ascontiguousarray(T, dtype=float)
    cp = core.ms.precomp_funs.cp_water(T)
    return core.ms.precomp_funs.rho_water(T) * cp, cp


def heat(part, cls, T):
    """Heat stored per step (J): sum of capacity(mean T) * dT."""
    d, m = np.diff(T, axis=0), (T[1:] + T[:-1]) / 2
    if cls == 'HexNum':
        w = d.reshape(len(d), -1, 3)
        mm = m.reshape(len(d), -1, 3)
        c = np.empty_like(w)
        V = np.ravel(part.V_cell_fld)
        for j, v in ((0, V[0]), (2, V[-1])):
            c[:, :, j] = water(mm[:, :, j].ravel())[0].reshape(
                mm.shape[:2]) * v
        c[:, :, 1] = part._mcp_wll_cell
        x = (c * w).reshape(len(d), -1)
    else:
        c = water(m.ravel())[0].reshape(m.shape) * part.V_cell \
            + part._mcp_wll
        x = c * d
    return x.sum(axis=1), np.abs(x).sum()


def loss_bound(part, kw, cls):
    """Largest conceivable U*A to the ambient: insulation only."""
    lam, s = kw['insulation_lambda'], kw['insulation_thickness']
    if cls == 'HexNum':
        return None
    if cls == 'Tes':
        d = kw['outer_diameter']
        ln = kw['volume'] / (math.pi * (d / 2 - kw['shell_thickness']) ** 2)
        lid = 2 * math.pi * (d / 2 + s) ** 2 * lam / s
    else:
        d = OD[kw['pipe_specs']['all']['DN']]
        ln, lid = kw['length'], 0.
    return 2 * math.pi * ln * lam / math.log((d / 2 + s) / (d / 2)) + lid


def cell(spec, p, q, n):
    """Flat cell of port q of part p."""
    if p['cls'] == 'PipeWith3wValve':
        return {'A': 0, 'B': p['kw']['valve_location'], 'AB': n - 1}[q]
    if p['cls'] == 'HexNum':
        g = n // 3
        return {'sup_in': 0, 'sup_out': (g - 1) * 3, 'dmd_out': 2,
                'dmd_in': (g - 1) * 3 + 2}[q]
    at = {'in': 0, 'out': n - 1}
    at.update({k: v[0] for k, v in (p['kw'].get('new_ports') or {}).items()})
    return at[q]


def run(case):
    spec, mode = case['spec'], case['mode']
    w = Watch(spec)
    R = core.Run(spec, case['plan'], observers=[w])
    H, env = R.hist, R.env
    h = np.array(H.h)
    cls = {p['name']: p for p in spec['parts']}
    T = {n: H.full(n, 'res').reshape(len(h) + 1, -1) for n in cls}
    hot = any(p['cls'] in HEAT for p in spec['parts'])
    hexn = any(p['cls'] == 'HexNum' for p in spec['parts'])
    mixing = any(p['cls'] in MIX for p in spec['parts'])
    dbg, probes = {}, {'mode ' + mode: 1}
    # ---- thermal equilibrium
    if mode == 'equilibrium':
        t0 = next(p['kw']['T_init'] for p in spec['parts']
                  if 'T_init' in p['kw'])
        for n in cls:
            if cls[n]['cls'] in MIX + ('Pump',):
                continue
            d = np.abs(T[n] - t0).max()
            dbg['eq'] = max(dbg.get('eq', 0), float(d))
            if not d <= (2e-2 if hexn else 1e-6) * (1 + t0):
                k = int(np.argmax(np.abs(T[n] - t0).max(axis=1)))
                raise Violation('equilibrium', '%s deviates by %.3g K from '
                                'the uniform temperature %g in step %d' % (
                                    n, d, t0, k))
    # ---- maximum principle
    lo = hi = None
    ini = [np.ravel(T[n][0]) for n in cls if 'T_init' in cls[n]['kw']]
    lo, hi = min(map(np.min, ini)), max(map(np.max, ini))
    ex = 0.
    for k in range(len(h)):
        v = list(w.bc[k].values()) + w.amb[k]
        lo, hi = min([lo] + v), max([hi] + v)
        tol = (2e-2 if hexn else 1e-2 if mixing else 1e-5) * max(abs(lo), abs(hi), 1.)
        for n in cls:
            if cls[n]['cls'] in MIX + ('Pump',):
                continue
            x = T[n][k + 1]
            e = max(lo - x.min(), 0. if hot else x.max() - hi)
            ex = max(ex, e)
            if not e <= tol:
                raise Violation('bounds', '%s reaches %.6g..%.6g degC in '
                                'step %d (t=%.6g s), everything around it '
                                'was within %.6g..%.6g' % (
                                    n, x.min(), x.max(), k + 1, H.t[k], lo,
                                    hi))
    dbg['ex'] = float(ex)
    # ---- energy balance
    gain, turn = np.zeros(len(h)), 1.
    for n, p in cls.items():
        if p['cls'] in MIX + ('Pump',):
            continue
        e, t = heat(env.parts[n], p['cls'], T[n])
        gain, turn = gain + e, turn + t
    put = np.zeros(len(h))
    for n, a in H.arrays():
        if a == 'res_dQ':
            q = H.full(n, a)[1:].reshape(len(h), -1).sum(axis=1) * h
            put += q
            turn += np.abs(q).sum()
    net = Net(spec)
    undet = False
    for k in range(len(h)):
        x = net.solve(w.act[k])
        if x is None:
            undet = True
            break
        for c in spec['conns']:
            for (a, b), (pn, q) in ((c[:2], c[2:]), (c[2:], c[:2])):
                if a != BC:
                    continue
                f = x[net.var[pn, q]] * h[k]
                if cls[pn]['cls'] == 'Pump':
                    undet = True
                    continue
                i = cell(spec, cls[pn], q, T[pn].shape[1])
                if f > 0:
                    t = np.array([w.bc[k][b]])
                else:
                    t = T[pn][k:k + 2, i]
                e = f * np.mean(water(t)[1] * t)
                put[k] += e
                turn += abs(e - f * 4180. * np.mean(
                    [np.mean(T[pn][k]), np.mean(t)]))
    if hexn:
        undet = True    # one channel stands for all: no balance of the part
    if not undet:
        E, Q = gain.sum(), put.sum()
        lag = mixing or any(p['cls'] == 'Pump' for p in spec['parts'])
        slack = (5e-2 if lag else 2e-3 if spec['bcs'] else 1e-4) * turn \
            + (len(spec['bcs']) * 10. + .1) * H.t[-1]
        lmin = lmax = est = 0.
        warm = 99.
        for n, p in cls.items():
            if p['cls'] in MIX + ('Pump',):
                continue
            u = loss_bound(env.parts[n], p['kw'], p['cls'])
            i = [q['name'] for q in spec['parts'] if 'T_amb' in q['kw']
                 ].index(n)
            amb = np.array([a[i] for a in w.amb])
            d = ((T[n][1:] + T[n][:-1]) / 2).mean(axis=1) - amb
            dn = np.minimum(np.minimum(T[n][1:], T[n][:-1]).min(axis=1)
                            - amb, 0)
            dx = np.maximum(np.maximum(T[n][1:], T[n][:-1]).max(axis=1)
                            - amb, 0)
            est += u * (d * h).sum()
            warm = min(warm, d.min())
            lmin += 1.2 * u * (dn * h).sum()
            lmax += 1.2 * u * (dx * h).sum()
        loss = Q - E
        dbg['bal ' + mode] = abs(loss) / turn if mode == 'adiabatic' else \
            loss / (lmax if loss > 0 else lmin) if lmax or lmin else 0
        if mode == 'lossy' and not spec['bcs'] and not lag and warm > 1:
            probes['runs with losses only'] = 1
            if not loss >= .04 * est - slack:
                raise Violation('loss', 'all parts are at least %.3g K '
                                'warmer than their surroundings, but lost '
                                '%.4g J only (%.4g J by the insulation '
                                'alone)' % (warm, loss, est))
        if not lmin - slack <= loss <= lmax + slack:
            raise Violation('energy', 'stored heat changed by %.6g J, heat '
                            'put in by heaters and flows is %.6g J, losses '
                            'are between %.4g and %.4g J (turnover %.4g J)'
                            % (E, Q, lmin, lmax, turn))
    probes['balanced runs'] = int(not undet)
    st = common.stats(R, probes=probes)
    st['dbg'] = dbg
    return st
