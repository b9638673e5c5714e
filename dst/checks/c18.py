"""C18: invalid values and exceptions strike at seeded steps and places; the
run has to stop right there, keep everything up to then and say so."""
import os
import sys

import numpy as np
import pandas as pd

import core
import gen
import scen
from core import Violation
from checks import c03, c04, common
from checks.c02 import interval, check_arrays

LEVEL = 'exploration'
RULE = ('case = system x fault plan x (nothing | invalid value | exception) '
        'at a seeded step and place x storing; non-trivial: the value or '
        'exception struck; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'Invalid values are put in the state of a part as if its kernel had '
    'computed them (temperatures or flows), at the start or end of a step.']
REAL = common.REAL_SIM + ['result storing (HDF5 files)', 'report']
STUB = common.STUB_SIM
FAMS = gen.FAMILIES


class Boom(Exception):
    pass


# an exception may be of any type, only its origin matters
BOOMS = [Boom] + [type('Boom' + t.__name__, (Boom, t), {}) for t in (
    ValueError, IndexError, KeyError, TypeError, AttributeError,
    AssertionError, ZeroDivisionError, FloatingPointError, RuntimeError,
    OSError, MemoryError, StopIteration, UserWarning)]


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(1.5, 12), 3),
                        adaptive=r.random() < .85)
        ev = dict(kind=r.choice(['none', 'nan', 'nan', 'nan', 'exc', 'exc']),
                  pos=r.choice([0., 1., round(r.random(), 3)]),
                  part=r.randrange(99), cell=r.random())
        if ev['kind'] == 'nan':
            ev['where'] = r.choice(['T', 'T', 'T_begin', 'dm', 'dm'])
            ev['all'] = r.random() < .2
        elif ev['kind'] == 'exc':
            ev['where'] = r.choice(['step_begin', 'attempt', 'step_end'] +
                                   ['call'] * 6)
            ev['type'] = r.randrange(len(BOOMS))
            ev['call'] = int(r.choice([8, 60, 400]) * r.random())
        disk = None
        if r.random() < .6:
            disk = dict(resample_final=False, complevel=r.choice([0, 5]),
                        complib='zlib')
        return dict(spec=spec, disk=disk, ev=ev, rel=r.choice(
            [['frac', round(r.uniform(.1, .9), 3)], ['abs', 7],
             ['div', r.randint(0, 99)], ['N', r.choice([-1, 0, 1])],
             ['hit', 0], ['hit', 1], ['hit', -1]]),
            plan=common.mk_plan(r, n_max=40, hi=4))
    return common.cases_for('C18', seed, tier, FAMS, 30, 900, fn)


class Strike:
    """Must be the first observer: the value is there when it is recorded."""

    def __init__(self, ev, at, parts):
        self.ev, self.at, self.parts = ev, at, parts
        self.done = False
        self.what = ''
        self.rows = 0
        self.hist, self.calls, self.m = None, ev.get('call', 0), None
        self.root = os.path.dirname(core.ms.__file__) + os.sep

    def prof(self, frame, event, arg):
        """Profile function: lets a call of any function of the library
        fail."""
        f = frame.f_code
        if event != 'call' or not f.co_filename.startswith(self.root) or \
                f.co_filename.endswith('_dst.py') or \
                f.co_name.startswith('<'):
            return
        self.calls -= 1
        if self.calls < 0:
            sys.setprofile(None)
            self.done, self.m = True, len(self.hist.t)
            self.what = '%s in %s() after step %d' % (
                BOOMS[self.ev['type']].__name__, f.co_name, self.m)
            raise BOOMS[self.ev['type']]('injected')

    def __call__(self, name, env, h):
        if name == 'flush_end':
            self.rows = h.k
        if self.done or h.k != self.at or self.ev['kind'] == 'none':
            return
        e = self.ev
        if e['kind'] == 'exc':
            if name == e['where']:
                self.done = True
                raise BOOMS[e['type']]('injected')
            if e['where'] == 'call' and name == 'step_begin':
                sys.setprofile(self.prof)
            return
        if name != ('step_begin' if e['where'] == 'T_begin' else 'step_end'):
            return
        names = sorted(self.parts)
        n = names[e['part'] % len(names)]
        p = env.parts[n]
        a = 'T' if e['where'][0] == 'T' else 'dm'
        A = getattr(p, a)
        c = int(e['cell'] * A.size) % A.size
        res = p.res if a == 'T' else p.res_dm
        for j in (range(A.size) if e['all'] else [c]):
            A.flat[j] = np.nan
            if name == 'step_end':
                row = res[env.stepnum[0]]
                if row.size == A.size:
                    row.flat[j] = np.nan
                else:
                    row.flat[0] = np.nan
        self.done = True
        self.what = 'NaN in %s of %s in step %d' % (a, n, self.at)


def report(d):
    out = [f for f in os.listdir(d) if f.endswith('_REPORT.csv')]
    if len(out) != 1:
        return None
    t = open(os.path.join(d, out[0])).read()
    for ln in t.splitlines():
        if ln.startswith('Simulation success;'):
            return ln.split(';', 1)[1].strip()
    return None


def stored(d, spec, H, what):
    """The only result file holds all steps of the history."""
    fs = [f for f in os.listdir(d) if not f.endswith('_REPORT.csv')]
    if len(fs) != 1:
        raise Violation('files', '%s: result files are %s' % (what, fs))
    with pd.HDFStore(os.path.join(d, fs[0]), mode='r') as st:
        data = {k.lstrip('/'): st[k] for k in st.keys()}
    c03.check(dict(spec, start=scen.START), dict(spec['disk']), H, data,
              what)


def flushed(d, H, rows, what):
    """The result file holds (at least) the first `rows` rows."""
    idx = pd.to_datetime(scen.START) + pd.to_timedelta([0.] + H.t, unit='s')
    why = []
    for f in sorted(os.listdir(d)):
        try:
            with pd.HDFStore(os.path.join(d, f), mode='r') as st:
                data = {k.lstrip('/'): st[k] for k in st.keys()}
            c04.full(H, data, idx, rows)
            return
        except Violation as e:
            why.append(str(e))
    raise Violation('stored', '%s: no file holds the %d rows flushed before: '
                    '%s' % (what, rows, why))


def run(case):
    spec = dict(case['spec'])
    A = core.Run(spec, case['plan'])
    n = len(A.hist.t)
    ev = case['ev']
    if ev.get('where') == 'attempt' and \
            not spec['timeframe']['adaptive_steps']:
        ev = dict(ev, where='step_begin')  # no attempts with fixed steps
        case = dict(case, ev=ev)
    at = max(1, min(n, 1 + int(ev['pos'] * (n - 1))))
    rel = case['rel']
    k = max(1, n // 25, at + rel[1]) if rel[0] == 'hit' else interval(rel, n)
    if case['disk']:
        spec['disk'] = dict(case['disk'], save_every_n_steps=k)
    S = Strike(ev, at, A.hist.T[0])
    with core.scratch_dir() as d:
        R = core.Run(spec, case['plan'], scratch=d, start=False)
        try:
            S.hist = R.hist
            R.handler.observers.insert(
                1 if ev.get('where') == 'step_begin' else 0, S)
            exc = None
            try:
                R.start()
            except Boom as e:
                exc = e
            except ValueError as e:
                exc = e
            except RuntimeError as e:
                if not isinstance(e.__cause__, StopIteration):
                    raise
                exc = e.__cause__       # StopIteration left a generator
            finally:
                sys.setprofile(None)
            H = R.hist
            what = '%s (of %d), %s' % (
                S.what or ('exception at %s of step %d' % (ev['where'], at)
                           if ev['kind'] == 'exc' else 'no fault'), n,
                'stored every %d steps' % k if case['disk'] else 'in memory')
            m = check(A, R, S, exc, d, case, what, n, at)
        finally:
            R.close()
            st = getattr(R.env, '_disk_store', None) or {}
            for x in ('store', 'store_tmp'):
                try:
                    st[x].close()
                except Exception:
                    pass
    s = common.stats(A, R, faults={} if ev['kind'] == 'none' else {
        'invalid value' if ev['kind'] == 'nan' else 'exception in a call' if
        ev['where'] == 'call' else 'exception at a hook': int(S.done)},
        probes={'stored': int(bool(case['disk'])), 'raised': int(
            exc is not None and ev['kind'] == 'nan')})
    s['nontrivial'] = S.done or ev['kind'] == 'none'
    return s


def same_prefix(A, H, m, what):
    """The first m steps are those of the undisturbed run."""
    for i in range(m):
        if A.t[i] != H.t[i]:
            raise Violation('prefix', '%s: step %d ends at %r instead of %r'
                            % (what, i + 1, H.t[i], A.t[i]))
        for x, y in ((A.T, H.T), (A.dm, H.dm)):
            for p in x[i]:
                ok, s = core.close(x[i][p], y[i][p])
                if not ok:
                    raise Violation('prefix', '%s: results of %s in step %d '
                                    'changed %s' % (what, p, i + 1, s))


def check(A, R, S, exc, d, case, what, n, at):
    H, env, ev = R.hist, R.env, case['ev']
    disk = case['disk']
    if ev['kind'] == 'none' or ev.get('where') == 'call' and not S.done:
        if exc:
            raise exc
        if len(H.t) != n:
            raise Violation('ended', '%s: %d steps instead of %d' % (
                what, len(H.t), n))
        same_prefix(A.hist, H, n, what)
        if disk and report(d) != 'True':
            raise Violation('report', '%s: success is reported as %r' % (
                what, report(d)))
        return
    if not S.done:
        raise core.HarnessError('%s: did not strike' % what)
    bad = [i for i, (x, y) in enumerate(zip(H.T, H.dm)) if any(
        np.isnan(v).any() for z in (x, y) for v in z.values())]
    if ev['kind'] == 'nan':
        if exc is not None:
            # a NaN entering the solver may also end in its error
            if ev['where'] != 'T_begin':
                raise exc
            same_prefix(A.hist, H, at - 1, what)
            return
        if not bad:
            # replaced within the step, before anything depended on it
            if ev['where'] != 'T_begin':
                raise core.HarnessError('%s: not recorded' % what)
            if H.t[-1] < case['spec']['timeframe']['timeframe']:
                raise Violation('ended', '%s: stopped after %d steps without '
                                'any invalid value' % (what, len(H.t)))
            return
        if len(H.t) != bad[0] + 1:
            raise Violation('not-stopped', '%s: run went on up to step %d' %
                            (what, len(H.t)))
        same_prefix(A.hist, H, min(at - 1, bad[0]), what)
        check_arrays(R, what)
        if disk:
            if report(d) != 'False':
                raise Violation('report', '%s: success is reported as %r' % (
                    what, report(d)))
            stored(d, dict(case['spec'], disk=disk), H, what)
        return
    # exception
    if exc is None:
        raise Violation('swallowed', '%s: did not reach the caller' % what)
    if not isinstance(exc, Boom):
        raise exc
    m = at - 1 if S.m is None else S.m
    if len(H.t) != m:
        raise Violation('went-on', '%s: %d steps were made' % (what,
                                                               len(H.t)))
    same_prefix(A.hist, H, m, what)
    if not disk:
        for part, arr in H.arrays():
            w = H.full(part, arr)
            ok, s = core.close(getattr(env.parts[part], arr)[:m + 1], w)
            if not ok:
                raise Violation('arrays', '%s: %s of %s of the steps before '
                                'changed %s' % (what, arr, part, s))
        ok, s = core.close(np.ravel(env.time_vec)[:m + 1], [0.] + H.t)
        if not ok:
            raise Violation('time-vector', '%s: times of the steps before '
                            'changed %s' % (what, s))
    else:
        if m < n and report(d) == 'True':
            raise Violation('report', '%s: success is reported' % what)
        if S.rows:
            for x in ('store', 'store_tmp'):
                x = env._disk_store.get(x)
                if hasattr(x, 'is_open') and x.is_open:
                    x.close()
            flushed(d, H, S.rows, what)
