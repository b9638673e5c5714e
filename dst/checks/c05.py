"""C05: several simulations with disk saving in one directory."""
import hashlib
import os

import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import common, c03, c04

LEVEL = 'exploration'
RULE = ('case = history of set-ups and runs of 2-5 simulations in one '
        'directory with seeded clock readings, leftovers and crashes; '
        'non-trivial: at least two simulations shared a name; distinct by '
        'history of operations')
ASSUMPTIONS = common.ASSUME + [
    'Refusing the set-up because of an existing file is legal; the explicit '
    'overwrite option is not used.']
REAL = common.REAL_SIM + ['HDF5 store on a real scratch directory']
STUB = common.STUB_SIM
FAMS = ['line', 'loop', 'npump', 'valve']
NAMES = ['sim', 'sim', 'sim', 'sim', 'other', 'sim_1', 'a b', 'v1.5', 'x.h5y',
         'sim.h5']


def cases(seed, tier):
    def fn(r, f, i):
        n = r.randint(2, 5)
        sims = []
        for k in range(n):
            s = gen.make(f, r, tf=gen.rnd(r.uniform(.5, 3), 3), dyn=False)
            s['disk'] = dict(
                resample_final=r.random() < .4, resample_freq='1s',
                complevel=r.choice([0, 5]), sim_name=r.choice(NAMES),
                save_every_n_steps=r.choice([7, 20, 1000]),
                sub=r.choice(['', '', '', '', 'deep/', 'all.h5/']))
            sims.append(s)
        ops, left = [], []
        todo = list(range(n))
        t = 0
        while todo or left:
            # clock: frozen within the second, next second, jumps, backwards
            t += r.choice([0, 0, 0, 0, 1, -1, 3600, -86400])
            if todo and (not left or r.random() < .6):
                k = todo.pop(0)
                ops.append(['setup', k, t])
                left.append(k)
            else:
                k = left.pop(r.randrange(len(left)))
                ops.append([r.choice(['run', 'run', 'run', 'run', 'crash']),
                            k, t])
        foreign = []
        for j in range(r.randint(0, 3)):
            foreign.append([r.choice([-1, 0, 0, 1]), r.choice(NAMES),
                            r.choice(['.h5', '.h5_tmp', '_REPORT.csv',
                                      '_1.h5', '_1.h5_tmp', '.txt'])])
        return dict(sims=sims, ops=ops, foreign=foreign,
                    spec=None, crash_u=round(r.random(), 4),
                    rel=r.random() < .4, cwd=[r.choice(['.', 'out', 'x/y'])
                                              for _ in ops])
    return common.cases_for('C05', seed, tier, FAMS, 60, 1500, fn)


def snap(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = hashlib.sha256(
                    h.read()).hexdigest()
    return out


def run(case):
    here = os.getcwd()
    try:
        return run_in(case)
    finally:
        os.chdir(here)


def run_in(case):
    runs, owner = {}, {}
    probes = {'refused set-up': 0}
    faults = {}
    with core.scratch_dir() as top:
        d = top + '/out'
        os.mkdir(d)
        os.makedirs(top + '/x/y')
        for off, name, suf in case['foreign']:
            iso = pd.to_datetime(core.EPOCH + off * 10 ** 9).strftime(
                '%Y-%m-%dT%H-%M-%S')
            with open('%s/%s_%s%s' % (d, iso, name, suf), 'w') as f:
                f.write('results of somebody else: %s' % suf)
        before = snap(d)
        for p in before:
            owner[p] = 'foreign'
            faults['leftover file'] = faults.get('leftover file', 0) + 1

        def settle(k, what):
            now = snap(d)
            for p, h in before.items():
                if owner.get(p) == k:
                    continue
                if p not in now:
                    raise Violation('removed', '%s of simulation %d removed '
                                    '%s of %s' % (what, k, p, owner[p]))
                if now[p] != h:
                    raise Violation('changed', '%s of simulation %d changed '
                                    '%s of %s' % (what, k, p, owner[p]))
            for p in now:
                if p not in before:
                    owner[p] = k
            before.clear()
            before.update(now)
            return [p for p in now if owner[p] == k]

        for j, (op, k, t) in enumerate(case['ops']):
            if case.get('rel'):
                os.chdir(top + '/' + case['cwd'][j % len(case['cwd'])])
            now = core.EPOCH + t * 10 ** 9
            if t < 0:
                faults['clock set back'] = faults.get('clock set back', 0) + 1
            spec = case['sims'][k]
            if op == 'setup':
                try:
                    runs[k] = core.Run(
                        spec, [], scratch=os.path.relpath(d) if case.get(
                            'rel') else d, start=False, now=now, clock_step=0)
                except FileExistsError:
                    probes['refused set-up'] += 1
                settle(k, 'set-up')
                continue
            if k not in runs:
                continue
            R = runs[k]
            if op == 'crash':
                # the process dies in the middle of the run: leftovers stay
                kill = 1 + int(case['crash_u'] * 15)

                def child():
                    R.handler.observers.append(c04.Log(kill))
                    core.clock(True, now, 0)
                    R.start()
                c04.in_child(child, top + '/res')
                faults['crash in run'] = faults.get('crash in run', 0) + 1
                settle(k, 'crashed run')
                del runs[k]
                continue
            core.clock(True, now, 0)

            class Mid:
                n = 0

                def __call__(self, name, env, handler):
                    if name == 'flush_end' and self.n < 3:
                        self.n += 1
                        settle(k, 'flush')
            R.handler.observers.append(Mid())
            try:
                R.start()
            finally:
                R.close()
            own = settle(k, 'run')
            h5 = [p for p in own if p.endswith('.h5')]
            if len(h5) != 1 or not any(p.endswith('_REPORT.csv')
                                       for p in own):
                raise Violation('own-files', 'simulation %d ended with files '
                                '%s' % (k, own))
            with pd.HDFStore(d + '/' + h5[0], 'r') as st:
                data = {x.lstrip('/'): st[x] for x in st.keys()}
            c03.check(dict(spec, start=spec.get('start', scen.START)),
                      spec['disk'], R.hist, data, h5[0])
            before.update(snap(d))
        # at the end everything which was complete still is
    names = [s['disk']['sim_name'] for s in case['sims']]
    st = common.stats(*[R for R in runs.values() if R.hist.t],
                      probes=probes, faults=faults)
    st['key'] = core.digest([case['ops'], case['foreign'], names])
    st['nontrivial'] = len(set(names)) < len(names)
    return st


def shrink(case):
    n = len(case['sims'])
    for k in range(n):
        ops = [o for o in case['ops'] if o[1] != k]
        if ops and len(ops) < len(case['ops']):
            yield dict(case, ops=ops)
    for j in range(len(case['foreign'])):
        yield dict(case, foreign=case['foreign'][:j]
                   + case['foreign'][j + 1:])
    if case.get('rel'):
        yield dict(case, rel=False)
    for j, o in enumerate(case['ops']):
        if o[0] == 'crash':
            yield dict(case, ops=case['ops'][:j] + [['run'] + o[1:]]
                       + case['ops'][j + 1:])
