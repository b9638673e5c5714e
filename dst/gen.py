"""Seed -> scenario spec. Swarm style: every run draws its own topology
parameters, boundary conditions, controllers, solver knobs and sizes."""
BC = 'BoundaryCondition'
NEG = .3                    # share of scheduled pumps which change direction
REVERSIBLE = ('line', 'branch', 'loop', 'dep', 'tes', 'chp')
FLIP = .2                   # share of pipes connected the other way round


def rnd(x, n=6):
    return float('%.*g' % (n, x))


class Gen:
    def __init__(self, r, tf=None, adaptive=True, dyn=True, ctrl=True,
                 sdt=None):
        self.r = r
        self.dyn = dyn
        self.ctrl = ctrl
        self.tf = tf if tf is not None else rnd(r.uniform(8, 40), 4)
        self.adaptive = adaptive
        self.T_amb = rnd(r.uniform(5, 30), 4)
        self.T_init = rnd(r.uniform(15, 60), 4)
        self.material = r.choice(['carbon_steel', 'stainless_steel'])
        self.dn = r.choice(['DN15', 'DN20', 'DN25', 'DN32', 'DN50'])
        self.ins = rnd(r.uniform(5e-3, 5e-2), 3)
        self.lam = rnd(r.uniform(0.02, 0.08), 3)
        self.parts, self.bcs, self.ctrls, self.conns, self.assign = \
            [], [], [], [], []
        self.sdt = sdt or r.choice([0.5, 1.0, 2.0, 5.0, 20.0])
        self.nser = int(self.tf / self.sdt) + r.choice([1, 2, 5, 12])
        while self.nser * self.sdt <= self.tf or self.nser < 3:
            self.nser += 1
        self.has_series = False
        self.allow_implicit = False

    # ------------------------------------------------------------ pieces --
    def pipe_specs(self):
        return {'all': {'pipe_type': self.r.choice(
            ['EN10255_medium', 'EN10255_heavy']), 'DN': self.dn}}

    def base(self, **kw):
        d = dict(insulation_thickness=self.ins, insulation_lambda=self.lam,
                 T_init=self.T_init if self.r.random() < .7
                 else rnd(self.r.uniform(15, 60), 4),
                 T_amb=self.T_amb, material=self.material,
                 pipe_specs=self.pipe_specs())
        d.update(kw)
        return d

    def gp(self, lo=3, hi=9):
        return self.r.randint(lo, hi)

    def series(self, lo, hi, zeros=False):
        r = self.r
        kind = r.choice(['walk', 'steps', 'ramp', 'const'])
        n = self.nser
        v = []
        x = r.uniform(lo, hi)
        slope = r.uniform(-1, 1) * (hi - lo) / max(n, 1)
        for i in range(n):
            if kind == 'walk':
                x = min(hi, max(lo, x + r.gauss(0, .15) * (hi - lo)))
            elif kind == 'steps' and r.random() < .25:
                x = r.uniform(lo, hi)
            elif kind == 'ramp':
                x = min(hi, max(lo, x + slope))
            v.append(rnd(x, 5))
        if zeros and r.random() < .4:
            a = r.randrange(n)
            for i in range(a, min(n, a + r.randint(1, 4))):
                v[i] = 0.0
        self.has_series = True
        d = {'dt': self.sdt, 'vals': v}
        return {'__series__': d}

    def bc(self, name, lo=10., hi=90.):
        if self.dyn and self.r.random() < .45:
            T = self.series(lo, hi)
        else:
            T = rnd(self.r.uniform(lo, hi), 4)
        self.bcs.append(dict(name='BC_' + name, T=T))
        return 'BC_' + name

    def flow(self):
        return rnd(self.r.uniform(.02, .6), 3)

    def pump(self, name, gp=None, mode=None, length=None):
        r = self.r
        dm = self.flow()
        if mode is None:
            mode = r.choice(['const', 'series'] if self.dyn else ['const'])
        kw = self.base(length=length or rnd(r.uniform(.5, 3), 3),
                       grid_points=gp or self.gp(), start_massflow=dm)
        if mode == 'const':
            kw.update(ctrl_required=False, const_val=dm)
        elif mode == 'series':
            lo = 0.
            if self.family in REVERSIBLE and r.random() < NEG:
                lo = -.6    # flow changes its direction
            kw.update(ctrl_required=False, time_series=self.series(
                lo, .6, zeros=True))
        else:
            up = rnd(r.uniform(.2, .8), 3)
            kw.update(lower_limit=r.choice([0., 0., .01]), upper_limit=up,
                      maximum_flow=up,
                      start_massflow=rnd(min(dm, up), 3))
        self.parts.append(dict(cls='PipeWithPump', name=name, kw=kw))

    def pipe(self, name, cls='Pipe', **kw):
        self.parts.append(dict(cls=cls, name=name, kw=self.base(
            length=rnd(self.r.uniform(.5, 4), 3),
            grid_points=kw.pop('gp', None) or self.gp(), **kw)))

    def tes(self, name, ports=None, gp=None, vol=None):
        self.parts.append(dict(cls='Tes', name=name, kw=self.base(
            volume=vol or rnd(self.r.uniform(.02, .6), 3),
            grid_points=gp or self.gp(4, 9),
            outer_diameter=rnd(self.r.uniform(.3, 1.), 3),
            shell_thickness=5e-3, new_ports=ports)))

    def connect(self, *cs):
        self.conns += [list(c) for c in cs]

    def flip(self):
        """Connect some parts the other way round (flow from out to in)."""
        swap = {'in': 'out', 'out': 'in'}
        for p in self.parts:
            if p['cls'] in ('Pipe', 'HeatedPipe', 'PipeBranched') \
                    and self.r.random() < FLIP:
                for c in self.conns:
                    for i in (0, 2):
                        if c[i] == p['name'] and c[i + 1] in swap:
                            c[i + 1] = swap[c[i + 1]]

    def profiles(self):
        """Some parts start with a temperature profile."""
        r = self.r
        if r.random() < .8:
            return
        for p in self.parts:
            t, g = p['kw'].get('T_init'), p['kw'].get('grid_points')
            if g and isinstance(t, float) and p['cls'] != 'HexNum' \
                    and r.random() < .5:
                p['kw']['T_init'] = {'__array__': [
                    rnd(min(85., max(8., t + r.uniform(-6, 6))), 4)
                    for _ in range(g)]}

    # ------------------------------------------------------- controllers --
    def ctrl_common(self, act, mode, sat, part, port, sp, off=0., **kw):
        r = self.r
        d = dict(actuator=act, process_CV_mode=mode, CV_saturation=list(sat),
                 controlled_part=part, controlled_port=port,
                 reference_part='none', setpoint=sp, sub_controller=False,
                 off_state=off, time_domain=r.choice(
                     ['continuous', 'discrete']),
                 deadtime=0, slope=[0, 0], invert=False)
        d.update(kw)
        return d

    def pid(self, name, act, mode, sat, part, port, sp, gain, off=0., **kw):
        r = self.r
        terms = r.choice(['P', 'PI', 'PD', 'PID', 'PID'])
        d = self.ctrl_common(act, mode, sat, part, port, sp, off)
        span = sat[1] - sat[0]
        d.update(terms=terms, loop_tuning='manual',
                 Kp=rnd(gain * r.uniform(.3, 2), 3))
        if 'I' in terms:
            d['Ki'] = rnd(gain * r.uniform(.02, .5), 3)
            d['anti_windup'] = rnd(max(abs(sat[0]), abs(sat[1]))
                                   * r.choice([1., 1., .5, 2.]), 3)
        if 'D' in terms:
            d['Kd'] = rnd(gain * r.uniform(.05, .8), 3)
            d['filter_derivative'] = r.random() < .5
            if d['filter_derivative']:
                d['cutoff_freq'] = rnd(r.uniform(.05, 2.), 3)
        if r.random() < .35:
            d['slope'] = [-rnd(span * r.uniform(.01, .4), 3),
                          rnd(span * r.uniform(.01, .4), 3)]
        if r.random() < .4:
            d['deadtime'] = rnd(r.choice([.3, 1., 2., 5., 8.])
                                * r.uniform(.7, 1.3), 3)
        if r.random() < .2:
            d['invert'] = True
        d.update(kw)
        self.ctrls.append(dict(cls='PID', name=name, kw=d))

    def bang(self, name, act, mode, sat, part, port, sp, off=0., **kw):
        r = self.r
        d = self.ctrl_common(act, mode, sat, part, port, sp, off)
        d['hysteresis'] = rnd(r.uniform(.5, 8), 3)
        if r.random() < .2:
            d['slope'] = [-rnd((sat[1] - sat[0]) * r.uniform(.02, .5), 3),
                          rnd((sat[1] - sat[0]) * r.uniform(.02, .5), 3)]
            d['silence_slope_warning'] = True
        d.update(kw)
        self.ctrls.append(dict(cls='BangBang', name=name, kw=d))

    # ---------------------------------------------------------- families --
    def f_line(self):
        a, b = self.bc('a'), self.bc('b')
        n = self.r.randint(0, 2)
        chain = []
        for i in range(n):
            self.pipe('r%d' % i)
            chain.append('r%d' % i)
        ctrl = self.ctrl and self.r.random() < .4
        self.pump('p', mode='ctrl' if ctrl else None)
        chain.insert(self.r.randint(0, n), 'p')
        self.connect((BC, a, chain[0], 'in'))
        for x, y in zip(chain, chain[1:]):
            self.connect((x, 'out', y, 'in'))
        self.connect((chain[-1], 'out', BC, b))
        if ctrl:
            up = self.parts[-1]['kw']['upper_limit']
            self.pump_ctrl('p', up)

    def pump_ctrl(self, act, up, **kw):
        r = self.r
        part = r.choice([p['name'] for p in self.parts
                         if p['cls'] in ('Pipe', 'PipeWithPump', 'Tes',
                                         'HeatedPipe')])
        sp = rnd(r.uniform(20, 70), 3)
        # pumps take the CV as share of their maximum flow
        if r.random() < .6:
            self.pid('c_' + act, act, 'part_specific', (0., 1.), part,
                     r.choice([0, 1, -1]), sp, .05, **kw)
        else:
            self.bang('c_' + act, act, 'part_specific', (0., 1.), part,
                      r.choice([0, 1, -1]), sp, **kw)

    def f_branch(self):
        a, b, c = self.bc('a'), self.bc('b'), self.bc('c')
        g = self.gp(4, 9)
        self.pipe('br', cls='PipeBranched', gp=g, new_ports={
            'side': [self.r.randint(0, g - 1), 'index']})
        self.pump('p')
        self.pump('q')
        self.connect((BC, a, 'br', 'in'), ('br', 'out', 'p', 'in'),
                     ('br', 'side', 'q', 'in'), ('p', 'out', BC, b),
                     ('q', 'out', BC, c))

    def f_conn(self):
        a, b, c = self.bc('a'), self.bc('b'), self.bc('c')
        self.parts.append(dict(cls='Connector3w', name='c', kw=dict(
            material=self.material, pipe_specs=self.pipe_specs())))
        self.pipe('r')
        self.pump('p')
        self.pump('q')
        if self.r.random() < .5:   # split
            self.connect((BC, a, 'r', 'in'), ('r', 'out', 'c', 'A'),
                         ('c', 'B', 'p', 'in'), ('c', 'C', 'q', 'in'),
                         ('p', 'out', BC, b), ('q', 'out', BC, c))
        else:                      # merge
            self.connect((BC, a, 'p', 'in'), (BC, b, 'q', 'in'),
                         ('p', 'out', 'c', 'A'), ('q', 'out', 'c', 'B'),
                         ('c', 'C', 'r', 'in'), ('r', 'out', BC, c))

    def f_valve(self):
        r = self.r
        a, b, c = self.bc('a', 50, 90), self.bc('b', 10, 40), self.bc('c')
        g = self.gp(4, 9)
        op = rnd(r.random(), 3)
        kw = dict(valve_location=r.randint(1, g - 2), start_portA_opening=op)
        mode = r.choice(['const', 'series', 'pid', 'pid'])
        if not self.ctrl and mode == 'pid':
            mode = 'const'
        if not self.dyn and mode == 'series':
            mode = 'const'
        if mode == 'const':
            kw.update(ctrl_required=False, const_val=op)
        elif mode == 'series':
            kw.update(ctrl_required=False, time_series=self.series(0., 1.))
        else:
            lo = r.choice([0., 0., .1])
            kw.update(lower_limit=lo, upper_limit=r.choice([1., 1., .9]))
        way = r.choice(['mix', 'mix', 'split', 'side'])
        least = r.choice([.1, .1, .004])    # small opening: small flow
        if way == 'side':      # the pump pulls at the side port A
            if mode == 'series':
                kw['time_series'] = self.series(least, 1.)
            elif mode == 'const':
                kw['const_val'] = max(least, op if least == .1 else op / 50)
            else:
                kw['lower_limit'] = least
                kw['start_portA_opening'] = max(least, op)
        self.pipe('v', cls='PipeWith3wValve', gp=g, **kw)
        self.pump('p')
        if way == 'side' and least < .1:
            q = self.parts[-1]['kw']
            for k in ('const_val', 'start_massflow'):
                if k in q:
                    q[k] = rnd(q[k] / 50, 3)
            if 'time_series' in q:
                v = q['time_series']['__series__']['vals']
                v[:] = [rnd(x / 50, 4) for x in v]
        if way == 'mix':
            self.connect((BC, a, 'v', 'A'), (BC, b, 'v', 'B'),
                         ('v', 'AB', 'p', 'in'), ('p', 'out', BC, c))
        elif way == 'split':
            self.connect((BC, c, 'p', 'in'), ('p', 'out', 'v', 'AB'),
                         ('v', 'A', BC, a), ('v', 'B', BC, b))
        else:
            self.connect((BC, a, 'p', 'in'), ('p', 'out', 'v', 'A'),
                         (BC, b, 'v', 'B'), ('v', 'AB', BC, c))
        if mode == 'pid':
            self.pid('c_v', 'v', 'part_specific', (0., 1.), r.choice(
                ['v', 'p']), -1, rnd(r.uniform(30, 60), 3), .02)

    def f_mixv(self):
        r = self.r
        a, b, c = self.bc('a', 50, 90), self.bc('b', 10, 40), self.bc('c')
        op = rnd(r.random(), 3)
        way = r.choice(['mix', 'split'])
        kw = dict(mix_or_split=way, port_A_init=op, lower_limit=0.,
                  upper_limit=1., material=self.material,
                  pipe_specs=self.pipe_specs())
        self.parts.append(dict(cls='MixingValve', name='m', kw=kw))
        self.pipe('r1')
        self.pipe('r2')
        self.pump('p')
        if way == 'mix':
            self.connect((BC, a, 'r1', 'in'), (BC, b, 'r2', 'in'),
                         ('r1', 'out', 'm', 'A'), ('r2', 'out', 'm', 'B'),
                         ('m', 'AB', 'p', 'in'), ('p', 'out', BC, c))
        else:
            self.connect((BC, c, 'p', 'in'), ('p', 'out', 'm', 'AB'),
                         ('m', 'A', 'r1', 'in'), ('m', 'B', 'r2', 'in'),
                         ('r1', 'out', BC, a), ('r2', 'out', BC, b))
        self.pid('c_m', 'm', 'part_specific', (0., 1.), 'p', r.choice(
            [0, -1]), rnd(r.uniform(30, 60), 3), .02)

    def heater(self, name, up=None):
        r = self.r
        # keep the temperature rise below the model's limits
        up = up or rnd(r.uniform(200, 4e3), 3)
        if self.dn in ('DN15', 'DN20'):
            self.dn = 'DN32'
        g = self.gp(3, 6)
        kw = dict(lower_limit=0., upper_limit=up)
        kw['heat_spread'] = r.choice(['all', 'single', 'range'])
        if kw['heat_spread'] == 'single':
            kw['heated_cells'] = r.randint(0, g - 1)
        elif kw['heat_spread'] == 'range':
            a = r.randint(0, g - 3)
            kw['heated_cells'] = [a, r.randint(a + 1, g - 2) + 1
                                  if a < g - 2 else g - 1]
            kw['heated_cells'][1] = min(kw['heated_cells'][1], g - 1)
        self.pipe(name, cls='HeatedPipe', gp=g, **kw)
        return up

    def f_loop(self):
        r = self.r
        up = self.heater('h')
        self.pump('p', mode=None if r.random() < .5 else 'const')
        chain = ['h', 'p']
        if r.random() < .5:
            self.tes('t', vol=rnd(r.uniform(.01, .1), 3))
            chain.insert(1, 't')
        for x, y in zip(chain, chain[1:] + chain[:1]):
            self.connect((x, 'out', y, 'in'))
        part = r.choice([c for c in chain])
        sp = rnd(r.uniform(25, 65), 3)
        if r.random() < .5:
            self.bang('c_h', 'h', 'direct', (0., up), part, -1, sp)
        else:
            self.pid('c_h', 'h', 'direct', (0., rnd(up * r.choice(
                [1., 1., 1.5]), 3)), part, -1, sp, up / 10.)

    def f_sub(self):
        """Heater under a two-point controller, pump as its sub-controller."""
        r = self.r
        up = self.heater('h')
        self.pump('p', mode='ctrl')
        pup = self.parts[-1]['kw']['upper_limit']
        self.tes('t', vol=rnd(r.uniform(.01, .06), 3))
        self.connect(('h', 'out', 't', 'in'), ('t', 'out', 'p', 'in'),
                     ('p', 'out', 'h', 'in'))
        sp = rnd(self.T_init + r.uniform(-3, 8), 4)
        slow = r.random() < .5
        if r.random() < .5:
            self.bang('c_h', 'h', 'direct', (0., up), 't', -1, sp,
                      hysteresis=rnd(r.uniform(.2, 3), 3), slope=[0, 0])
        else:
            d = self.ctrl_common('h', 'direct', (0., up), 't', -1,
                                 rnd(sp + 2, 4))
            d.update(setpoint=rnd(sp + 2, 4), activation_value=rnd(sp, 4),
                     activation_sign='lower',
                     deactivation_sign='greater', on_sensor_part='t',
                     on_sensor_port=0)
            self.ctrls.append(dict(cls='TwoSensors', name='c_h', kw=d))
        kw = dict(sub_controller=True, master_type='controller',
                  master_controller='c_h', dependency_kind=r.choice(
                      ['concurrent', 'sequential']))
        if slow:
            kw['slope'] = [0, 0]
        self.pump_ctrl('p', pup, **kw)

    def f_dep(self):
        """Heater which depends on the flow of a scheduled pump."""
        r = self.r
        up = self.heater('h')
        self.pump('p', mode='series')
        v = self.parts[-1]['kw']['time_series']['__series__']['vals']
        for _ in range(r.randint(1, 3)):
            a = r.randrange(len(v))
            for i in range(a, min(len(v), a + r.randint(2, 6))):
                v[i] = 0.
        self.tes('t', vol=rnd(r.uniform(.01, .06), 3))
        self.connect(('h', 'out', 't', 'in'), ('t', 'out', 'p', 'in'),
                     ('p', 'out', 'h', 'in'))
        sp = rnd(self.T_init + r.uniform(-3, 8), 4)
        kw = dict(sub_controller=True, master_type='part', master_part='p',
                  master_variable='dm', master_variable_index=0,
                  dependency_kind=r.choice(['concurrent', 'concurrent',
                                            'sequential']))
        part, port = r.choice('htp'), r.choice([0, -1])
        if r.random() < .5:
            self.bang('c_h', 'h', 'direct', (0., up), part, port, sp, **kw)
        else:
            self.pid('c_h', 'h', 'direct', (0., up), part, port, sp,
                     up / 10., **kw)

    def f_chain(self):
        """Circuit with several heaters whose controllers depend on each
        other (and some on nothing), in any order of masters."""
        r = self.r
        n = r.randint(2, 4)
        hs = ['h%d' % i for i in range(n)]
        r.shuffle(hs)
        ups = {h: self.heater(h, up=rnd(r.uniform(200, 2e3), 3)) for h in hs}
        chain = list(hs)
        self.pump('p', mode=None if r.random() < .5 else 'const')
        chain.insert(r.randint(0, n), 'p')
        if r.random() < .4:
            self.tes('t', vol=rnd(r.uniform(.01, .06), 3))
            chain.insert(r.randint(0, n), 't')
        for x, y in zip(chain, chain[1:] + chain[:1]):
            self.connect((x, 'out', y, 'in'))
        names = ['c' + h for h in hs]
        if r.random() < .5:
            names = ['%s%d' % (r.choice('abxyz'), 7 * i)
                     for i in range(len(hs))]
        for j, h in enumerate(hs):
            up, kw = ups[h], {}
            if j and r.random() < .85:
                kw = dict(sub_controller=True, master_type='controller',
                          master_controller=names[
                              j - 1 if r.random() < .7 else r.randrange(j)],
                          dependency_kind=r.choice(
                              ['concurrent', 'concurrent', 'sequential']))
            sat, off = (0., up), 0.
            if r.random() < .3:     # off-state above the active values
                sat = (0., rnd(up * r.uniform(.3, .6), 3))
                off = rnd(up * r.uniform(.65, .95), 3)
            part, port = r.choice(chain), r.choice([0, -1])
            sp = rnd(self.T_init + r.uniform(-3, 6), 4)
            if r.random() < .6:
                kw.setdefault('hysteresis', rnd(r.uniform(.1, 2), 3))
                self.bang(names[j], h, 'direct', sat, part, port, sp,
                          off=off, **kw)
            else:
                self.pid(names[j], h, 'direct', sat, part, port, sp,
                         up / 10., off=off, **kw)

    def f_tes(self):
        """Storage with two more ports: pushed from one side and balanced by
        another, or with an internal circuit."""
        r = self.r
        g = self.gp(5, 9)
        kind = r.choice(['balance', 'circuit'])
        ports = {'a': [r.randint(0, g - 1), 'index']}
        if kind == 'circuit':
            ports['b'] = [r.randint(0, g - 1), 'index']
        self.tes('t', ports=ports, gp=g)
        a, b = self.bc('a'), self.bc('b')
        self.pump('p')
        self.pump('q')
        if kind == 'circuit':
            self.connect((BC, a, 't', 'in'), ('t', 'out', 'p', 'in'),
                         ('p', 'out', BC, b), ('t', 'b', 'q', 'in'),
                         ('q', 'out', 't', 'a'))
            return
        c = self.bc('c')
        self.connect((BC, a, 'p', 'in'), ('p', 'out', 't', 'in'),
                     ('t', 'out', 'q', 'in'), ('q', 'out', BC, b),
                     (BC, c, 't', 'a'))

    def f_mixc(self):
        """Mixing circuit on a storage which is charged by a heater: supply,
        3-way valve, pump, consumer pipe, return connector."""
        r = self.r
        g = self.gp(5, 9)
        up = self.heater('h')
        self.tes('t', ports={'a': [r.randint(0, 1), 'index'],
                             'b': [r.randint(g - 2, g - 1), 'index']}, gp=g,
                 vol=rnd(r.uniform(.02, .2), 3))
        self.pump('p')
        self.pump('q')
        gv = self.gp(4, 7)
        op = rnd(r.uniform(.1, .9), 3)
        ctrl = self.ctrl and r.random() < .6
        kw = dict(valve_location=r.randint(1, gv - 2),
                  start_portA_opening=op)
        if ctrl:
            kw.update(lower_limit=0., upper_limit=1.)
        elif self.dyn and r.random() < .5:
            kw.update(ctrl_required=False, time_series=self.series(0., 1.))
        else:
            kw.update(ctrl_required=False, const_val=op)
        self.pipe('v', cls='PipeWith3wValve', gp=gv, **kw)
        self.pipe('load')
        self.parts.append(dict(cls='Connector3w', name='c', kw=dict(
            material=self.material, pipe_specs=self.pipe_specs())))
        self.pipe('by')
        self.connect(('h', 'out', 't', 'in'), ('t', 'out', 'p', 'in'),
                     ('p', 'out', 'h', 'in'), ('t', 'a', 'v', 'A'),
                     ('v', 'AB', 'q', 'in'), ('q', 'out', 'load', 'in'),
                     ('load', 'out', 'c', 'A'), ('c', 'B', 'by', 'in'),
                     ('by', 'out', 'v', 'B'), ('c', 'C', 't', 'b'))
        sp = rnd(self.T_init + r.uniform(-5, 10), 4)
        if ctrl:
            self.pid('c_v', 'v', 'part_specific', (0., 1.), r.choice(
                ['q', 'load', 'v']), -1, sp, .02)
        self.bang('c_h', 'h', 'direct', (0., up), 't', r.choice([0, -1]),
                  sp)

    def f_chp(self, tf=None):
        r = self.r
        lo = rnd(r.uniform(.3, .7), 3)
        self.pipe('chp', cls='CHPPlant', power_electrical=rnd(
            r.uniform(2e3, 2e4), 3), modulation_range=[lo, 1.],
            heat_spread='all', lower_limit=0., upper_limit=1.,
            connect_fluegas_hex=False,
            min_on_time=rnd(r.uniform(5, .4 * self.tf), 3),
            min_off_time=rnd(r.uniform(5, .4 * self.tf), 3),
            max_slope_el=rnd(r.choice([.001, .005, .02, .1])
                             * r.uniform(.8, 1.2), 3))
        self.tes('t', vol=rnd(r.uniform(.02, .2), 3))
        self.pump('p', mode='const')
        self.connect(('chp', 'out', 't', 'in'), ('t', 'out', 'p', 'in'),
                     ('p', 'out', 'chp', 'in'))
        sp = rnd(self.T_init + r.uniform(-2, 6), 4)
        if r.random() < .5:
            self.bang('c_chp', 'chp', 'direct', (0., 1.), 't', r.choice(
                [0, -1]), sp, hysteresis=rnd(r.uniform(.1, 2), 3),
                slope=[0, 0])
        else:
            self.pid('c_chp', 'chp', 'direct', (0., 1.), 't', r.choice(
                [0, -1]), sp, .3)
        if self.dyn:
            # a fluctuating setpoint exercises starts and stops
            n = self.nser
            v = []
            x = sp
            for i in range(n):
                if r.random() < .15:
                    x = self.T_init + r.choice([-15, 15]) + r.uniform(-3, 3)
                v.append(rnd(x, 4))
            self.assign.append(dict(ts={'__series__': {
                'dt': self.sdt, 'vals': v}}, control='c_chp'))
            self.has_series = True

    def f_hex(self):
        a, b, c, d = (self.bc(x) for x in 'abcd')
        r = self.r
        self.parts.append(dict(cls='HexNum', name='x', kw=self.base(
            HEx_type='plate_hex', flow_type='counter', passes=1,
            plates=r.choice([10, 20]), max_channels='supply',
            grid_points=self.gp(3, 6), length=.5, width=.15, depth=.1,
            port_diameter=.03, corner_radius=.01, channel_width=.002,
            plate_thickness=.0005, mass_per_plate=.3, mass_base=2.)))
        self.pump('p')
        self.pump('q')
        self.connect((BC, a, 'x', 'sup_in'), ('x', 'sup_out', 'p', 'in'),
                     ('p', 'out', BC, b), (BC, c, 'x', 'dmd_in'),
                     ('x', 'dmd_out', 'q', 'in'), ('q', 'out', BC, d))

    def f_hexi(self):
        """Heat exchanger solved implicitly between explicit parts."""
        self.f_hex()
        if self.adaptive:       # not available with fixed steps
            self.allow_implicit = True
            self.parts[0]['kw'].update(
                solve_implicit=True,
                implicit_root_diff={'__fun__': 'hexnum_imp_root_diff'})

    def f_plant(self):
        """Heating plant as in the part modules: boiler circuit charging a
        storage, space heating with two mixing valves in series and an
        auxiliary boiler, cascaded controllers."""
        r = self.r
        g = self.gp(5, 9)
        self.tes('t', gp=g, vol=rnd(r.uniform(.02, .4), 3), ports={
            'ff': [r.randint(0, g - 1), 'index'],
            'rf': [r.randint(0, g - 1), 'index']})
        # boiler circuit
        up = self.heater('hg', up=rnd(r.uniform(500, 8e3), 3))
        self.pump('pg', mode='ctrl')
        self.pipe('rg')
        self.connect(('t', 'in', 'pg', 'out'), ('pg', 'in', 'hg', 'out'),
                     ('hg', 'in', 'rg', 'out'), ('rg', 'in', 't', 'out'))
        # space heating
        self.pump('ps')
        gb = self.gp(5, 9)
        self.pipe('br', cls='PipeBranched', gp=gb, new_ports={
            'v': [r.randint(0, gb - 1), 'index'],
            'b': [r.randint(0, gb - 1), 'index']})
        for v in ('v2', 'v1'):
            gv = self.gp(3, 7)
            self.pipe(v, cls='PipeWith3wValve', gp=gv,
                      valve_location=r.randint(1, gv - 2),
                      lower_limit=r.choice([0., .01]), upper_limit=r.choice(
                          [.99, 1.]), start_portA_opening=rnd(
                              r.uniform(0, 1), 3))
        self.pipe('rb')
        ub = self.heater('hb', up=rnd(r.uniform(500, 4e3), 3))
        a, b = self.bc('ff'), self.bc('rf', 20, 60)
        self.connect(('ps', 'out', BC, a), (BC, b, 'br', 'in'),
                     ('br', 'out', 't', 'rf'), ('v2', 'AB', 'ps', 'in'),
                     ('v1', 'AB', 'v2', 'B'), ('t', 'ff', 'v1', 'A'),
                     ('v1', 'B', 'br', 'v'), ('v2', 'A', 'rb', 'out'),
                     ('rb', 'in', 'hb', 'out'), ('hb', 'in', 'br', 'b'))
        sp = rnd(self.T_init + r.uniform(-3, 8), 4)
        # controllers
        d = self.ctrl_common('hg', 'direct', (0., up), 't', -1,
                             rnd(sp + 2, 4))
        d.update(activation_value=rnd(sp, 4), activation_sign='lower',
                 deactivation_sign='greater', on_sensor_part='t',
                 on_sensor_port=0)
        if r.random() < .5:
            d.update(slope=[-rnd(up / 10, 3), rnd(up / 10, 3)],
                     silence_slope_warning=True)
        self.ctrls.append(dict(cls='TwoSensors', name='c_hg', kw=d))
        self.pid('c_pg', 'pg', 'part_specific', (0., 1.), 'hg', -1,
                 rnd(sp + r.uniform(0, 5), 4), .05, sub_controller=True,
                 master_type='part', master_part='hg',
                 master_variable='_dQ_heating', master_variable_index=0,
                 dependency_kind='concurrent')
        for v in ('v1', 'v2'):
            self.pid('c_' + v, v, 'part_specific', (0., 1.), v, -1,
                     rnd(sp + r.uniform(-5, 5), 4), .03)
        self.pid('c_hb', 'hb', 'direct', (0., ub), 'hb', -1,
                 rnd(sp + r.uniform(0, 8), 4), ub / 10, sub_controller=True,
                 master_type='controller', master_controller='c_v2',
                 dependency_kind=r.choice(['concurrent', 'sequential']))
        r.shuffle(self.ctrls)       # masters have to be known first
        self.ctrls.sort(key=lambda c: c['name'] in ('c_hb', 'c_pg'))

    def f_npump(self):
        a, b = self.bc('a'), self.bc('b')
        dm = self.flow()
        self.parts.append(dict(cls='Pump', name='pu', kw=dict(
            start_massflow=dm, no_control=True, dm_const=dm,
            material=self.material, pipe_specs=self.pipe_specs())))
        self.pipe('r1')
        self.pipe('r2')
        self.connect((BC, a, 'r1', 'in'), ('r1', 'out', 'pu', 'in'),
                     ('pu', 'out', 'r2', 'in'), ('r2', 'out', BC, b))

    def f_doc(self):
        """The example of the documentation with random parameters."""
        r = self.r
        a, b, c = self.bc('a', 50, 90), self.bc('b', 10, 30), self.bc('c')
        g = self.gp(6, 12)
        self.pipe('pipe_in', cls='PipeWith3wValve', gp=g,
                  valve_location=r.randint(1, g - 2),
                  start_portA_opening=rnd(r.random(), 3), lower_limit=0.,
                  upper_limit=1.)
        self.tes('TES', gp=self.gp(5, 10))
        self.pump('pipe_out')
        self.connect((BC, b, 'pipe_in', 'B'), (BC, a, 'pipe_in', 'A'),
                     ('pipe_in', 'AB', 'TES', 'in'),
                     ('TES', 'out', 'pipe_out', 'in'),
                     ('pipe_out', 'out', BC, c))
        d = self.ctrl_common('pipe_in', 'part_specific', (0., 1.), 'pipe_in',
                             -1, rnd(r.uniform(30, 60), 3))
        d.update(slope=[-.1, .1], terms='PID', loop_tuning='ziegler-nichols',
                 rule=r.choice(['classic', 'pessen-int', 'some-os',
                                'no-os']), Kp_crit=rnd(r.uniform(
                                    .01, .05), 3),
                 T_crit=rnd(r.uniform(2, 10), 3), filter_derivative=False,
                 anti_windup=1., time_domain='discrete')
        self.ctrls.append(dict(cls='PID', name='pid_valve', kw=d))

    # -------------------------------------------------------------- spec --
    def solver(self):
        r = self.r
        tf = dict(timeframe=self.tf, adaptive_steps=self.adaptive)
        if not self.adaptive:
            tf['timestep'] = r.choice([.02, .05, .1])
            return tf
        if r.random() < .4:
            tf['rtol'] = r.choice([1e-4, 3e-4, 5e-3])
        if r.random() < .2:
            tf['atol'] = r.choice([1e-8, 1e-4, 1e-2])
        if r.random() < .4:
            tf['max_stepsize'] = r.choice([.3, .8, 2., 5., 20.])
        if r.random() < .3:
            tf['max_factor'] = r.choice([1.2, 1.5, 3., 5.])
        if r.random() < .3:
            tf['min_factor'] = r.choice([.1, .3, .5])
        if r.random() < .3:
            tf['safety_factor'] = r.choice([.7, .8, .95])
        if r.random() < .3:
            tf['factor_recovery'] = r.choice([1, 5, 20])
        return tf

    def spec(self):
        d = dict(family=self.family, timeframe=self.solver(),
                 parts=self.parts, bcs=self.bcs, ctrls=self.ctrls,
                 conns=self.conns, assign=self.assign)
        if self.allow_implicit:
            d['allow_implicit'] = True
        return d


def enrich(spec, r):
    """Draw rarer controller settings on top of a generated system."""
    by = {p['name']: p for p in spec['parts']}
    cells = [n for n, p in by.items() if p['cls'] not in (
        'Connector3w', 'MixingValve', 'Pump', 'HexNum')]
    tf = spec['timeframe']['timeframe']
    for c in spec['ctrls']:
        kw = c['kw']
        chp = by[kw['actuator']]['cls'] == 'CHPPlant'
        lo, hi = kw['CV_saturation']
        if r.random() < .2:
            p = r.choice(cells)
            kw.update(controlled_part=p, controlled_port=r.randint(
                0, by[p]['kw']['grid_points'] - 1))
        elif r.random() < .15 and by[kw['controlled_part']]['cls'] in (
                'Pipe', 'PipeWithPump', 'HeatedPipe', 'Tes'):
            kw['controlled_port'] = r.choice(['in', 'out'])
        has = any(a.get('control') == c['name'] for a in spec['assign'])
        if r.random() < .2 and not has:
            kw.update(reference_part=r.choice(cells), reference_port=r.choice(
                [0, -1]), ref_SP_diff=rnd(r.uniform(-8, 8), 3))
        elif r.random() < .3 and not has:
            b = next(_series(spec), None)   # all series share their index
            dt = b['dt'] if b else r.choice([.5, 1., 2., 5.])
            n = len(b['vals']) if b else max(
                3, int(tf / dt) + r.choice([1, 2, 5]) + 1)
            v, x = [], kw['setpoint']
            for i in range(n):
                if r.random() < .3:
                    x = kw['setpoint'] + r.uniform(-10, 10)
                v.append(rnd(x, 4))
            spec['assign'].append(dict(control=c['name'], ts={'__series__': {
                'dt': dt, 'vals': v}}))
        if r.random() < .25 and not chp:
            kw['CV_saturation'] = [rnd(lo + (hi - lo) * r.uniform(0, .2), 3),
                                   rnd(hi - (hi - lo) * r.uniform(0, .3), 3)]
        if r.random() < .15 and not chp and c['cls'] == 'PID':
            # output may be negative, the actuator's limits still hold
            kw['CV_saturation'][0] = rnd(-hi * r.uniform(.1, 1.5), 3)
        if c['cls'] == 'PID':
            x = r.random()
            if x < .2:
                kw['K_mult'] = [rnd(r.uniform(.3, 2), 2) for _ in range(3)]
            if x > .85:
                kp = kw.pop('Kp', None) or kw.pop('Kp_crit')
                for k in ('Ki', 'Kd', 'T_crit', 'rule'):
                    kw.pop(k, None)
                if r.random() < .25:
                    kw.update(loop_tuning='tune', Kp=kp)
                else:
                    kw.update(loop_tuning='ziegler-nichols', Kp_crit=kp,
                              T_crit=rnd(r.uniform(.5, 20), 3))
                    if kw['terms'] == 'PID':
                        kw['rule'] = r.choice(['classic', 'pessen-int',
                                               'some-os', 'no-os'])
            if 'I' in kw['terms'] and r.random() < .3 \
                    and kw['loop_tuning'] != 'tune':
                kw['anti_windup'] = r.choice(['auto', 'auto_0.5', 'auto_2'])
        elif c['cls'] == 'BangBang':
            x = r.random()
            if x < .25:
                kw['hysteresis'] = -kw['hysteresis']
            elif x < .33:
                kw['hysteresis'] = 0.
        elif r.random() < .4:
            kw.update(activation_sign='greater', deactivation_sign='lower')
            kw['setpoint'], kw['activation_value'] = \
                kw['activation_value'], kw['setpoint']
        if r.random() < .15 and not chp:
            a, b = kw['CV_saturation']
            kw['off_state'] = rnd(a + (b - a) * r.uniform(0, .5), 3)
    return spec


def _series(o):
    if isinstance(o, dict):
        if '__series__' in o:
            yield o['__series__']
        else:
            for v in o.values():
                yield from _series(v)
    elif isinstance(o, list):
        for v in o:
            yield from _series(v)


NAMES = ['parameters', 'meters2', 'res', 'dm', 'pump', 'pump_2', 'p1', 'p10',
         'p11', 'heating', 'data', 'Valve', 'sim', 'thermometers']


def rename(case, r):
    """Case with other names of parts; they must not matter."""
    old = sorted({p['name'] for p in case['spec']['parts']})
    new = dict(zip(old, r.sample(NAMES, min(len(old), len(NAMES)))))

    def f(o, key=None):
        if isinstance(o, dict):
            return {k: f(v, k) for k, v in o.items()}
        if isinstance(o, list):
            return [f(v, key) for v in o]
        if isinstance(o, str) and key not in ('cls', 'family', 'terms'):
            return new.get(o, o)
        return o
    return f(case)


FAMILIES = ['line', 'branch', 'conn', 'valve', 'mixv', 'loop', 'sub', 'dep',
            'chain', 'tes', 'mixc', 'chp', 'hex', 'npump', 'doc', 'hexi', 'plant']


def make(family, r, **kw):
    g = Gen(r, **kw)
    g.family = family
    getattr(g, 'f_' + family)()
    if family != 'doc':
        g.flip()
    g.profiles()
    return g.spec()
