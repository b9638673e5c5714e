"""C16: several simulations in one process, interleaved by a seeded scheduler
at every library call of the set-up and at every hook of the step loop, give
exactly what each of them gives alone."""
import glob
import threading

import numpy as np
import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = 2-4 simulations x schedule x aborts; non-trivial: at least '
        '10 switches between running simulations; distinct by hash of '
        'schedule and histories')
ASSUMPTIONS = common.ASSUME + [
    'Threads are switched at library calls and at the hooks of the step loop '
    '(begin and end of steps, attempts, flushes), not within kernels.']
REAL = common.REAL_SIM + ['Python threads (one runs at a time)']
STUB = common.STUB_SIM + ['thread scheduler (baton passed by the seed)']
FAMS = gen.FAMILIES


class Abort(Exception):
    pass


def cases(seed, tier):
    def fn(r, f, i):
        n = r.choice([2, 2, 3, 4])
        sims = []
        for j in range(n):
            g = f if j == 0 or r.random() < .6 else r.choice(FAMS)
            spec = gen.make(g, r, tf=gen.rnd(r.uniform(1.5, 8), 3),
                            adaptive=r.random() < .9)
            if r.random() < .3:
                gen.enrich(spec, r)
            if r.random() < .3:
                spec['disk'] = dict(save_every_n_steps=r.choice([25, 60]),
                                    complevel=r.choice([0, 5]),
                                    resample_final=False)
            s = dict(spec=spec, plan=common.mk_plan(
                r, kinds=('veto', 'reject'), hi=3))
            if r.random() < .15 and j:
                s['abort'] = 1 + int(40 * r.random() ** 2)
            sims.append(s)
        if n > 1 and r.random() < .35:   # the same twice
            sims[1] = dict(spec=sims[0]['spec'], plan=sims[0]['plan'])
        return dict(sims=sims, sched=r.randrange(1 << 30), burst=r.choice(
            [.02, .1, .4, .9]), switches=10 ** 9)
    return common.cases_for('C16', seed, tier, FAMS, 13, 400, fn)


class Sched:
    """Passes a baton between threads; the seed decides who is next."""

    def __init__(self, case):
        self.r = core.rng('sched', case['sched'])
        self.burst, self.left = case['burst'], case['switches']
        self.sem, self.live, self.cur = {}, [], None
        self.back = threading.Semaphore(0)
        self.trace = []
        self.local = threading.local()

    def park(self):
        me = getattr(self.local, 'me', None)
        if me is None:
            return
        if len(self.live) < 2 or self.left <= 0 or \
                self.r.random() >= self.burst:
            return
        nxt = self.r.choice(self.live)
        if nxt == me:
            return
        self.left -= 1
        self.trace.append(nxt)
        self.sem[nxt].release()
        self.sem[me].acquire()

    def run(self, jobs):
        def body(i, job):
            self.local.me = i
            self.sem[i].acquire()
            try:
                job()
            finally:
                self.live.remove(i)
                if self.live:
                    nxt = self.r.choice(self.live)
                    self.trace.append(nxt)
                    self.sem[nxt].release()
                else:
                    self.back.release()
        ths = []
        for i, j in enumerate(jobs):
            self.sem[i] = threading.Semaphore(0)
            self.live.append(i)
            ths.append(threading.Thread(target=body, args=(i, j),
                                        daemon=True))
        for t in ths:
            t.start()
        self.sem[self.live[0]].release()
        while not self.back.acquire(timeout=.5):
            pass
        for t in ths:
            t.join()


class Mux:
    """One hook handler for all threads."""

    def __init__(self, sched):
        self.s = sched

    def h(self):
        return getattr(self.s.local, 'handler', None)

    def point(self, name, env):
        h = self.h()
        if h is not None:
            h.point(name, env)
        self.s.park()

    def step_size(self, env, x):
        h = self.h()
        return x if h is None else h.step_size(env, x)

    def stability(self, env, x):
        h = self.h()
        out = None if h is None else h.stability(env, x)
        self.s.park()
        return out

    def error(self, env, x, err):
        h = self.h()
        return err if h is None else h.error(env, x, err)


class Sim:
    """One simulation, alone or as a thread of the scheduler."""

    def __init__(self, s, scratch, sched):
        self.s, self.d, self.sched = s, scratch, sched
        self.hist = core.History()
        obs = [self.hist]
        if s.get('abort'):
            obs.append(self.abort)
        self.handler = core.Handler(s['plan'], observers=obs)
        self.exc = self.env = None

    def abort(self, name, env, handler):
        if name == 'attempt' and handler.k == self.s['abort']:
            raise Abort()

    def __call__(self):
        try:
            self.sched.local.handler = self.handler
            park = self.sched.park
            self.env = scen.build(core.ms, self.s['spec'], self.d, park)
            park()
            self.env.initialize_sim()
            park()
            scen.post_init(self.env, self.s['spec'])
            park()
            self.env.start_sim()
            park()
        except BaseException as e:  # noqa: B902
            self.exc = e


def play(case, sims, dirs):
    sched = Sched(case)
    out = [Sim(s, d, sched) for s, d in zip(sims, dirs)]
    core.clock(True)
    core._dst.install(Mux(sched))
    try:
        with core.quiet():
            sched.run(out)
    finally:
        core._dst.install(None)
        core.clock(False)
    return out, sched


def stored(d):
    out = {}
    for f in glob.glob(d + '/**/*.h5', recursive=True):
        with pd.HDFStore(f, 'r') as st:
            out.update({k: st[k] for k in st.keys()})
    return out


def run(case):
    sims = case['sims']
    n = len(sims)
    import contextlib
    with contextlib.ExitStack() as es:
        solo = []
        for s in sims:
            d = es.enter_context(core.scratch_dir())
            x = play(dict(case, switches=0), [s], [d])[0][0]
            solo.append((x, d))
        dirs = [es.enter_context(core.scratch_dir()) for _ in sims]
        got, sched = play(case, sims, dirs)
        for i, (s, (a, da), b) in enumerate(zip(sims, solo, got)):
            what = 'simulation %d of %d (%s) alone vs. interleaved' % (
                i + 1, n, s['spec']['family'])
            if isinstance(a.exc, core.Budget) or isinstance(
                    a.exc, AssertionError) and core.model_limit(a.exc):
                continue
            if a.exc is not None and not isinstance(a.exc, Abort):
                raise a.exc
            if type(a.exc) is not type(b.exc):
                raise Violation('exception', '%s: %s' % (
                    what, core.exc_text(b.exc) if b.exc else
                    'was not aborted'))
            core.compare_hist(a.hist, b.hist, what=what)
            if 'disk' in s['spec'] and a.exc is None:
                x, y = stored(da), stored(dirs[i])
                if sorted(x) != sorted(y):
                    raise Violation('stored', '%s: stored tables differ: %s '
                                    'vs. %s' % (what, sorted(x), sorted(y)))
                for k in x:
                    if x[k].shape != y[k].shape or not core.close(
                            x[k].values, y[k].values)[0] or \
                            not x[k].index.equals(y[k].index):
                        raise Violation('stored', '%s: stored table %s '
                                        'differs' % (what, k))
            elif a.exc is None:
                for p in a.env.parts:
                    ok, d = core.close(a.env.parts[p].res,
                                       b.env.parts[p].res)
                    if not ok:
                        raise Violation('result', '%s: results of %s differ '
                                        '%s' % (what, p, d))
    runs = [x for x, _ in solo] + got
    st = common.stats(*[r for r in runs if r.hist.t], probes={
        'switches': len(sched.trace)},
        faults={'aborted simulation': sum(bool(s.get('abort'))
                                          for s in sims)})
    st['states'] = [core.digest(sched.trace)]
    st['key'] = core.digest([st['key'], sched.trace])
    st['nontrivial'] = len(sched.trace) >= 10
    return st


def shrink(case):
    import shrink as S
    sims = case['sims']
    if len(sims) > 2:
        for i in range(len(sims)):
            yield dict(case, sims=sims[:i] + sims[i + 1:])
    for k in (1, 2, 4, 8, 16, 32, 64, 128):
        if k < case['switches']:
            yield dict(case, switches=k)
    for i, s in enumerate(sims):
        if s['plan']:
            yield dict(case, sims=sims[:i] + [dict(s, plan=[])]
                       + sims[i + 1:])
        if s.get('abort'):
            yield dict(case, sims=sims[:i] + [{
                k: v for k, v in s.items() if k != 'abort'}] + sims[i + 1:])
        if 'disk' in s['spec']:
            yield dict(case, sims=sims[:i] + [dict(s, spec={
                k: v for k, v in s['spec'].items() if k != 'disk'})]
                + sims[i + 1:])
