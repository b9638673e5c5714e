"""C08: recorded mass flows against an independent solution of the flow
network for the actuator values in force."""
import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = network x control history x fault plan; non-trivial: more '
        'than 2 steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Networks whose flows are fully determined by their pumps and valves '
    '(other ones have no unique solution and are rejected or undefined).',
    'The flow in a Connector3w is not recorded by the library, it is judged '
    'by the flows of the parts connected to it.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM
FAMS = gen.FAMILIES
BC = gen.BC
PUMPS = ('PipeWithPump', 'Pump')
VALVES = ('PipeWith3wValve', 'MixingValve')


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, adaptive=r.random() < .85)
        return dict(spec=spec, plan=common.mk_plan(
            r, kinds=('veto', 'reject'), hi=4))
    return common.cases_for('C08', seed, tier, FAMS, 40, 1200, fn)


def ports(p):
    c, kw = p['cls'], p['kw']
    if c in ('PipeWith3wValve', 'MixingValve'):
        return ['A', 'B', 'AB']
    if c == 'Connector3w':
        return ['A', 'B', 'C']
    if c == 'HexNum':
        return ['sup_in', 'sup_out', 'dmd_in', 'dmd_out']
    return ['in', 'out'] + list(kw.get('new_ports') or ())


class Net:
    """Linear equations of the flow network in the inflows of all ports."""

    def __init__(self, spec):
        self.spec = spec
        self.parts = {p['name']: p for p in spec['parts']}
        self.var = {}
        for p in spec['parts']:
            for q in ports(p):
                self.var[p['name'], q] = len(self.var)
        self.last = None

    def solve(self, act):
        key = tuple(sorted(act.items()))
        if self.last and self.last[0] == key:
            return self.last[1]
        rows, rhs = [], []


        def add(terms, b=0.):
            row = np.zeros(len(self.var))
            for v, f in terms:
                row[self.var[v]] += f
            rows.append(row)
            rhs.append(b)
        for n, p in self.parts.items():
            if p['cls'] == 'HexNum':
                add([((n, 'sup_in'), 1), ((n, 'sup_out'), 1)])
                add([((n, 'dmd_in'), 1), ((n, 'dmd_out'), 1)])
            else:
                add([((n, q), 1) for q in ports(p)])
            if p['cls'] in PUMPS:
                add([((n, 'in'), 1)], act[n])
            elif p['cls'] in VALVES:
                add([((n, 'A'), 1), ((n, 'AB'), act[n])])
                add([((n, 'B'), 1), ((n, 'AB'), 1 - act[n])])
        for a, b, c, d in self.spec['conns']:
            if BC not in (a, c):
                add([((a, b), 1), ((c, d), 1)])
        A, y = np.array(rows), np.array(rhs)
        x, _, rank, _ = np.linalg.lstsq(A, y, rcond=None)
        scale = 1. + np.abs(y).max()
        if rank < len(self.var) or np.abs(A @ x - y).max() > 1e-9 * scale:
            x = None
        self.last = (key, x)
        return x

    def expected(self, p, x, n):
        """Expected record of part p (n values) or None."""
        def f(q):
            return x[self.var[p['name'], q]]
        c, kw = p['cls'], p['kw']
        if c == 'Connector3w':
            return None
        if c == 'HexNum':
            return [f('sup_in'), -f('dmd_in')]  # counter flow
        if c == 'MixingValve':
            return [abs(f('A')), abs(f('B')), abs(f('AB'))]
        if c == 'PipeWith3wValve':
            at = {'A': 0, 'B': kw['valve_location'], 'AB': n - 1}
        elif n == 1:
            return [f('in')]
        else:
            at = {'in': 0, 'out': n - 1}
            at.update({k: v[0] for k, v in (kw.get('new_ports')
                                            or {}).items()})
        out = np.zeros(n)
        for q, i in at.items():
            out[i:] += f(q)
        out[-1] = out[-2]
        return out


class Watch:
    def __init__(self, spec):
        self.net = Net(spec)
        self.spec = spec
        self.act = None
        self.n = 0
        self.zero = 0

    def __call__(self, name, env, handler):
        if name == 'step_begin':
            self.act = {p['name']: float(np.ravel(
                env.parts[p['name']]._actuator_CV)[0])
                for p in self.spec['parts'] if p['cls'] in PUMPS + VALVES}
        elif name == 'step_end':
            self.check(env, handler.k)

    def check(self, env, step):
        x = self.net.solve(self.act)
        if x is None:
            return
        self.n += 1
        self.zero += not np.abs(x).max() > 0
        k = env.stepnum[0]
        tol = 1e-9 * (1 + np.abs(x).max())
        for p in self.spec['parts']:
            got = np.ravel(env.parts[p['name']].res_dm[k])
            want = self.net.expected(p, x, got.size)
            if want is None:
                continue
            ok, m = core.close(got, want, atol=tol)
            if not ok:
                raise Violation('flow', 'step %d (t=%.6g s): mass flow of %s '
                                '%s; balance demands %s for actuators %s' % (
                                    step, env.time_sim, p['name'],
                                    np.array2string(got, precision=5),
                                    np.array2string(np.array(want),
                                                    precision=5), self.act))


def run(case):
    spec = case['spec']
    w = Watch(spec)
    R = core.Run(spec, case['plan'], observers=[w])
    return common.stats(R, probes={'steps judged': w.n,
                                   'steps without flow': w.zero})
