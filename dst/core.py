"""The simulator core: seams, fault plans, recorder, run driver."""
import contextlib
import ctypes
import gc
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import traceback

import numpy as np
import pandas as pd

SCRATCH = os.environ.get('DST_SCRATCH') or tempfile.mkdtemp(prefix='msdst.')
REPO = os.environ.get('DST_REPO', '/repo')

# ------------------------------------------------------------------ seams --
_lib = None
if os.environ.get('DST_SHIM'):
    _lib = ctypes.CDLL(os.environ['DST_SHIM'])
    _lib.dst_clock.argtypes = [ctypes.c_int] + [ctypes.c_longlong] * 2
    _lib.dst_clock_jump.argtypes = [ctypes.c_longlong]
    _lib.dst_io_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int,
                                ctypes.c_int, ctypes.c_int]
    for _f in ('count', 'fired'):
        getattr(_lib, 'dst_io_' + _f).restype = ctypes.c_long
    _lib.dst_io_per_op.restype = ctypes.c_long
SHIM = _lib

EPOCH = 1_600_000_000 * 10 ** 9  # simulated wall clock at the start of a run


def clock(on=True, now=EPOCH, step=1_000_000):
    """Simulated wall clock; every reading advances it by `step` ns."""
    _lib.dst_clock(1 if on else 0, int(now), int(step))


def clock_jump(ns):
    _lib.dst_clock_jump(int(ns))


import psutil  # noqa: E402

_REAL_VM = psutil.virtual_memory
_ram = None


class _VM:
    def __init__(self, real, total):
        self.__dict__.update(real._asdict())
        self.total = total
        self.available = min(real.available, total)


def _virtual_memory():
    real = _REAL_VM()
    return real if _ram is None else _VM(real, _ram)


psutil.virtual_memory = _virtual_memory  # before MultiSim is imported


def set_ram(total):
    """Simulated amount of installed memory in bytes (None: the real one)."""
    global _ram
    _ram = total


sys.path.insert(0, REPO)
with contextlib.redirect_stdout(io.StringIO()):
    import multisim as ms  # noqa: E402
from multisim import _dst  # noqa: E402

import scen  # noqa: E402

assert os.path.realpath(ms.__file__).startswith(os.path.realpath(REPO)), \
    ms.__file__


# ----------------------------------------------------------------- errors --
class Violation(Exception):
    """A property was violated. `cls` is the violation class (kept stable
    while minimising)."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls


class Budget(BaseException):
    """Step or attempt budget of a simulated run is exhausted."""


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The run left the validity range of the model (temperatures of heated
    parts are limited to 0..150 degC by the library): nothing to check."""


def model_limit(exc):
    return isinstance(exc, AssertionError) and \
        'emperature range exceeding' in str(exc)


def from_repo(exc):
    """Was `exc` raised by (or below) MultiSim code, not by the harness?"""
    tb = traceback.extract_tb(exc.__traceback__)
    last_repo = last_here = -1
    here = os.path.dirname(os.path.abspath(__file__))
    for i, f in enumerate(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            last_repo = i
        elif fn.startswith(here + os.sep):
            last_here = i
    return last_repo > last_here


def exc_text(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return '%s: %s @ %s' % (
        type(exc).__name__, str(exc).strip()[:300],
        ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                   for f in tb[::-1][:3]))


# -------------------------------------------------------------- fault plan --
class Handler:
    """Hook handler: injects the faults of a plan and counts what happened.

    plan: list of events. `at` is the global index (1..) of the accepted step
    during which the event fires:
      {"at", "kind": "veto", "n", "frac"}   n stability violations in a row
      {"at", "kind": "reject", "n", "err"}  n error-tolerance breaches
      {"at", "kind": "clock", "d"}          wall clock jump (ns)
    "skip": let that many attempts of the step pass before
    """

    def __init__(self, plan=(), sizes=None, calm=None, max_steps=20000,
                 max_attempts=400, observers=()):
        self.by_step = {}
        for ev in plan:
            self.by_step.setdefault(int(ev['at']), []).append(dict(ev))
        self.sizes = sizes          # forced sizes per step (replay of a run)
        self.calm = calm            # forced error estimate
        self.max_steps = max_steps
        self.max_attempts = max_attempts
        self.observers = list(observers)
        self.k = 0                  # index of current step
        self.fired = {}
        self.attempts = 0
        self.rej_total = 0
        self.rejected = {}          # step -> list of rejected sizes
        self.raw_err = []           # error estimates of accepted attempts
        self._last_err = None

    def hit(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def point(self, name, env):
        if name == 'step_begin':
            self.k += 1
            self.attempts = 0
            self._att_h = []
            if self.k > self.max_steps:
                raise Budget('more than %d steps' % self.max_steps)
            for ev in self.by_step.get(self.k, ()):
                if ev['kind'] == 'clock':
                    clock_jump(ev['d'])
                    self.hit('clock jump')
        elif name == 'step_end':
            if len(self._att_h) > 1:
                self.rejected[self.k] = self._att_h[:-1]
        for o in self.observers:
            o(name, env, self)

    def step_size(self, env, h):
        if self.sizes is not None and self.k - 1 < len(self.sizes):
            return self.sizes[self.k - 1]
        return h

    def _attempt(self, h):
        self.attempts += 1
        self._att_h.append(float(h))
        if self.attempts > self.max_attempts:
            raise Budget('more than %d attempts' % self.max_attempts)

    def stability(self, env, h):
        self._attempt(h)
        for o in self.observers:
            o('attempt', env, self)
        for ev in self.by_step.get(self.k, ()):
            if ev['kind'] == 'veto' and ev['n'] > 0 and \
                    self.attempts > ev.get('skip', 0):
                ev['n'] -= 1
                self.hit('stability violation')
                return h * ev['frac']
        return None

    def error(self, env, h, err):
        for ev in self.by_step.get(self.k, ()):
            if ev['kind'] == 'reject' and ev['n'] > 0 and \
                    self.attempts > ev.get('skip', 0):
                ev['n'] -= 1
                self.hit('error tolerance breach')
                return ev['err']
        if self.calm is not None:
            return self.calm
        return err


# ---------------------------------------------------------------- recorder --
SPECIAL = ('res_dQ', 'res_Pel', 'res_Pgas', '_chp_state')


class History:
    """Accepted steps as seen at the end of each step (live, i.e. not taken
    from the result arrays after the run)."""

    def __init__(self, full=True):
        self.t, self.h, self.T, self.dm, self.cv, self.act = [], [], [], [], [], []
        self.S = []
        self.extra = []
        self.fun = None
        self.init = None

    def __call__(self, name, env, handler):
        if name == 'step_begin' and self.init is None:
            self.init = self.snap(env)
        if name != 'step_end':
            return
        k = env.stepnum[0]
        self.t.append(float(env.time_sim))
        self.h.append(float(env.timestep))
        self.T.append({n: np.array(p.res[k], copy=True)
                       for n, p in env.parts.items()})
        self.dm.append({n: np.array(p.res_dm[k], copy=True)
                        for n, p in env.parts.items()})
        self.cv.append({n: float(np.ravel(c.cv)[0])
                        for n, c in env.ctrls.items()})
        self.act.append({n: np.array(p._actuator_CV, copy=True)
                         for n, p in env.parts.items() if p.is_actuator})
        self.S.append({n + '/' + a: np.array(getattr(p, a)[k], copy=True)
                       for n, p in env.parts.items() for a in SPECIAL
                       if hasattr(p, a)})
        if self.fun:
            self.extra.append(self.fun(env))

    @staticmethod
    def snap(env):
        d = {n + '/res': np.array(p.res[0], copy=True)
             for n, p in env.parts.items()}
        d.update({n + '/res_dm': np.array(p.res_dm[0], copy=True)
                  for n, p in env.parts.items()})
        d.update({n + '/' + a: np.array(getattr(p, a)[0], copy=True)
                  for n, p in env.parts.items() for a in SPECIAL
                  if hasattr(p, a)})
        return d

    def full(self, part, arr):
        """Expected result array `arr` of `part`: initial row + all steps."""
        src = {'res': self.T, 'res_dm': self.dm}.get(arr)
        rows = [d[part] for d in src] if src is not None else \
            [d[part + '/' + arr] for d in self.S]
        return np.array([self.init[part + '/' + arr]] + rows)

    def arrays(self):
        """All (part, array name) pairs which were recorded."""
        return [tuple(k.rsplit('/', 1)) for k in self.init]

    def digest(self):
        m = hashlib.sha256()
        for i in range(len(self.t)):
            m.update(np.array([self.t[i], self.h[i]]).tobytes())
            for d in (self.T[i], self.dm[i], self.act[i], self.S[i]):
                for n in sorted(d):
                    m.update(np.ascontiguousarray(d[n]).tobytes())
            m.update(repr(sorted(self.cv[i].items())).encode())
        return m.hexdigest()


# -------------------------------------------------------------- run driver --
@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix='run', dir=SCRATCH)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Run:
    """One simulated run: build, initialise, start, keep env + history."""

    def __init__(self, spec, plan=(), scratch=None, sizes=None, calm=None,
                 observers=(), fun=None, max_steps=20000, ram=None,
                 clock_step=1_000_000, start=True, max_attempts=400,
                 now=EPOCH):
        self.spec = spec
        self.hist = History()
        self.hist.fun = fun
        self.handler = Handler(plan, sizes=sizes, calm=calm,
                               max_steps=max_steps, max_attempts=max_attempts,
                               observers=[self.hist] + list(observers))
        self.exc = None
        clock(True, now=now, step=clock_step)
        set_ram(ram)
        try:
            with quiet():
                self.env = scen.build(ms, spec, scratch)
                self.env.initialize_sim()
                scen.post_init(self.env, spec)
            if start:
                self.start()
        finally:
            if start:
                self.close()

    def start(self):
        _dst.install(self.handler)
        try:
            with quiet():
                self.env.start_sim()
        except AssertionError as e:
            if model_limit(e):
                raise Skip(str(e))
            raise
        finally:
            _dst.install(None)

    def rerun(self, plan=(), handler=None):
        """Reset the environment and simulate again."""
        self.hist = History()
        self.handler = Handler(plan, max_steps=self.handler.max_steps,
                               observers=[self.hist])
        clock(True)
        try:
            with quiet():
                self.env.initialize_sim(build_simenv=False, reset_simenv=True)
            self.start()
        finally:
            self.close()

    def close(self):
        _dst.install(None)
        clock(False)
        set_ram(None)


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def rng(*key):
    return random.Random('|'.join(str(k) for k in key))


def close(a, b, rtol=0.0, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False, 'shapes %s vs %s' % (a.shape, b.shape)
    nan = np.isnan(a) & np.isnan(b)
    d = np.where(nan, 0.0, np.abs(a - b))
    lim = atol + rtol * np.maximum(np.abs(a), np.abs(b))
    bad = ~(d <= np.where(nan, 1.0, lim))
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(bad, np.where(
            np.isnan(d), np.inf, d), -1))), d.shape) if d.ndim else ()
        return False, 'at %s: %r vs %r (%d of %d differ)' % (
            tuple(int(x) for x in i), float(a[i]), float(b[i]),
            int(bad.sum()), bad.size)
    return True, ''


def compare_hist(A, B, rtol=0.0, atol=0.0, what='', exact_time=True):
    """Compare two histories, raise Violation on the first difference."""
    n = min(len(A.t), len(B.t))
    for i in range(n):
        if abs(A.t[i] - B.t[i]) > (0 if exact_time else 1e-9 * (1 + A.t[i])):
            raise Violation('time', '%s: time of step %d differs: %r vs %r'
                            % (what, i + 1, A.t[i], B.t[i]))
        for lab, a, b in (('temperature', A.T[i], B.T[i]),
                          ('massflow', A.dm[i], B.dm[i]),
                          ('actuator', A.act[i], B.act[i]),
                          ('special', A.S[i], B.S[i]),
                          ('cv', A.cv[i], B.cv[i])):
            for p in a:
                if p not in b:
                    raise Violation(lab, '%s: %s missing' % (what, p))
                ok, m = close(a[p], b[p], rtol, atol)
                if not ok:
                    raise Violation(lab, '%s: %s of %r differs in step %d '
                                    '(t=%.6g s) %s' % (what, lab, p, i + 1,
                                                       A.t[i], m))
    if len(A.t) != len(B.t):
        raise Violation('time', '%s: %d steps vs %d steps'
                        % (what, len(A.t), len(B.t)))


def free():
    gc.collect()
