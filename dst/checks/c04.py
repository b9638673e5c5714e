"""C04: crashes and I/O errors while results are stored."""
import errno
import glob
import os
import pickle
import sys

import numpy as np
import pandas as pd

import core
import gen
from core import Violation
from checks import common, c03
from checks.c02 import interval

LEVEL = 'exploration'
RULE = ('case = scenario x storage settings, one counting run plus several '
        'runs in forked processes, each with one crash or I/O error at a '
        'seeded file system call or step; non-trivial: at least one fault '
        'fired after a flush; distinct by history hash and faults')
ASSUMPTIONS = common.ASSUME + [
    'Process-crash model: what was handed to the kernel survives (no power '
    'loss). Crashes in the middle of a flush are not judged: HDF5 without '
    'journaling cannot survive them.',
    'I/O faults cover open, write, truncate, rename, unlink and fsync below '
    'the result directory.']
REAL = common.REAL_SIM + ['HDF5/PyTables/pandas storage on a real scratch '
                          'directory, in a forked process']
STUB = common.STUB_SIM + ['file system calls below the result directory can '
                          'fail, be torn or kill the process (LD_PRELOAD '
                          'shim)']
FAMS = ['line', 'branch', 'loop', 'chp', 'hex', 'doc', 'mixv', 'sub',
        'plant']


def cases(seed, tier):
    def fn(r, f, i):
        spec = gen.make(f, r, tf=gen.rnd(r.uniform(1.5, 8), 4))
        if r.random() < .3 and f != 'hex':
            for p in spec['parts']:
                if r.random() < .4 and p['kw'].get('grid_points'):
                    p['store'] = r.choice([False, 0, [0, 1]])
        spec['disk'] = dict(resample_final=r.random() < .4,
                            resample_freq='1s',
                            complevel=r.choice([0, 0, 1, 9]))
        faults = []
        for _ in range(7):
            k = r.choice(['crash', 'crash', 'crash', 'step', 'err', 'err',
                          'err'])
            u = round(r.random(), 6)
            if k == 'crash':
                faults.append(dict(kind=k, u=u, act=r.choice([1, 2, 5])))
            elif k == 'step':
                faults.append(dict(kind=k, u=u))
            else:
                faults.append(dict(kind=k, u=u, act=4,
                                   errno=r.choice(['ENOSPC', 'EIO',
                                                   'EDQUOT']),
                                   where=r.choice(['any', 'final'])))
        return dict(spec=spec, plan=[], faults=faults, rel=r.choice(
            [['frac', round(r.uniform(.08, .6), 3)], ['div', r.randint(0, 9)],
             ['N', r.choice([0, 1])]]))
    return common.cases_for('C04', seed, tier, FAMS, 12, 400, fn)


class Log:
    """I/O call counts at the begin and end of each flush."""

    def __init__(self, kill_at=None):
        self.flush = []      # [calls at begin, calls at end, global step]
        self.kill_at = kill_at

    def __call__(self, name, env, handler):
        if name == 'flush_begin':
            self.flush.append([core.SHIM.dst_io_count(), None, handler.k])
        elif name == 'flush_end':
            self.flush[-1][1] = core.SHIM.dst_io_count()
        elif name == 'step_end' and handler.k == self.kill_at:
            os._exit(77)


def simulate(spec, plan, d, arm, kill_at=None):
    log = Log(kill_at)
    core.SHIM.dst_io_arm((d + '/').encode(), *arm)
    try:
        R = core.Run(spec, plan, scratch=d, observers=[log])
        total = core.SHIM.dst_io_count()
    finally:
        core.SHIM.dst_io_off()
    return R, log.flush, total


def in_child(fn, wpath):
    """Run fn() in a forked process; returns (exit code, its result)."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import signal
            signal.alarm(60)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                res = fn()
                code = 0
            except BaseException as e:  # noqa: B902
                res = core.exc_text(e)
                code = 5
            core.SHIM.dst_io_off()
            with open(wpath, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    res = None
    if code in (0, 5):
        with open(wpath, 'rb') as f:
            res = pickle.load(f)
    return code, res


def holds(d, spec, H, rows):
    """Does any file below d hold the first `rows` rows of all results? Any
    further row must be right as well. Returns (bool, reasons)."""
    why = []
    if rows == 0:
        return True, why
    files = [f for f in glob.glob(d + '/**/*', recursive=True)
             if os.path.isfile(f) and not f.endswith('.csv')]
    # damaged files can crash HDF5: judge each one in a process of its own,
    # and those last which were being written
    for f in sorted(files, reverse=True):
        code, res = in_child(lambda: judge(f, spec, H, rows),
                             os.path.dirname(d) + '/judge')
        if code == 0 and res is None:
            return True, why
        why.append('%s: %s' % (os.path.basename(f), (
            res if code in (0, 5) else 'not readable (%s)' % code)))
    return False, why


def judge(f, spec, H, rows):
    idx = pd.to_datetime(spec.get('start', '2020-01-01')) + pd.to_timedelta(
        [0.] + H.t, unit='s')
    try:
        with pd.HDFStore(f, 'r') as st:
            data = {k.lstrip('/'): st[k] for k in st.keys()}
        data = {k: v for k, v in data.items() if v is not None}
    except Exception as e:
        return 'not readable (%s)' % str(e).strip()[:60]
    out = []
    for fn in (lambda: full(H, data, idx, rows),
               lambda: c03.check(dict(spec, start=spec.get(
                   'start', '2020-01-01')), dict(spec['disk']), H, data,
                   'as final file')):
        try:
            fn()
            return None
        except Violation as e:
            out.append(str(e))
    return '; '.join(out)


def full(H, data, idx, rows):
    for part, arr in H.arrays():
        key = part + '/' + c03.TABLES[arr]
        if rows == 0:
            continue
        if key not in data:
            raise Violation('missing', key + ' is missing')
        n = len(data[key])
        if n < rows:
            raise Violation('rows', '%s: %d rows of %d flushed rows' % (
                key, n, rows))
        want = c03.expected(H, part, arr, idx)
        if n > len(want):
            raise Violation('rows', '%s: too many rows' % key)
        c03.same(data[key], want.iloc[:n], key)


def run(case):
    spec = dict(case['spec'])
    plain = {k: v for k, v in spec.items() if k != 'disk'}
    A = core.Run(plain, case['plan'])
    H = A.hist
    n = len(H.t)
    spec['disk'] = dict(spec['disk'], save_every_n_steps=interval(
        case['rel'], n))
    with core.scratch_dir() as d:
        d += '/out'
        os.mkdir(d)
        R, flush, total = simulate(spec, case['plan'], d, (-1, 0, 0, 0))
        if not flush or any(f[1] is None for f in flush):
            raise core.HarnessError('flush hooks not seen')
        ok, why = holds(d, spec, H, n + 1)
        if not ok:
            raise Violation('fault-free', 'results incomplete without any '
                            'fault: %s' % why)
    faults, probes = {}, {}

    def hit(k):
        faults[k] = faults.get(k, 0) + 1

    fin0 = flush[-1][1]          # finalising after the last flush
    for ft in case['faults']:
        arm, kill_at = (-1, 0, 0, 0), None
        if ft['kind'] == 'crash':
            # calls outside of flushes, after the first flush
            win = [c for a, b in zip(flush, flush[1:] + [[total + 1, 0, 0]])
                   for c in range(a[1] + 1, b[0] + (b[0] <= total))]
            win = [c for c in win if c <= total]
            if not win:
                continue
            at = win[int(ft['u'] * len(win))]
            arm = (at, ft['act'], 0, 0)
        elif ft['kind'] == 'step':
            kill_at = 1 + int(ft['u'] * n)
        else:
            lo = fin0 if ft['where'] == 'final' else 0
            at = lo + 1 + int(ft['u'] * max(1, total - lo))
            arm = (at, ft['act'], getattr(errno, ft['errno']), 0)
        with core.scratch_dir() as d:
            sub = d + '/out'
            os.mkdir(sub)

            def child():
                R, fl, tot = simulate(spec, case['plan'], sub, arm, kill_at)
                return dict(steps=len(R.hist.t))
            code, res = in_child(child, d + '/res')
            if ft['kind'] in ('crash', 'step'):
                if code == 0:
                    continue      # crash point not reached
                if code != 77:
                    raise core.HarnessError('child: %s %s' % (code, res))
                if ft['kind'] == 'crash':
                    K = max([f[2] for f in flush if f[1] < at] or [0])
                    if at > fin0:
                        K = n + 1
                    where = 'at file system call %d of %d' % (at, total)
                    hit({1: 'crash before call', 2: 'crash after call',
                         5: 'torn write + crash'}[ft['act']])
                else:
                    # killed at the end of step kill_at, before its flush
                    K = max([f[2] for f in flush[:-1]
                             if f[2] < kill_at] or [0])
                    where = 'at the end of step %d of %d' % (kill_at, n)
                    hit('crash between flushes')
                ok, why = holds(sub, spec, H, K)
                if not ok:
                    raise Violation('lost', 'process died %s, %d rows had '
                                    'been flushed: %s' % (where, K, why))
            else:
                hit('%s %s' % (ft['errno'],
                               'once' if ft['act'] == 3 else 'persistent'))
                inside = any(f[0] < at <= f[1] for f in flush)
                K = max([f[2] for f in flush if f[1] < at] or [0])
                if at > fin0:
                    K = n + 1
                if code == 0:
                    probes['error tolerated'] = probes.get(
                        'error tolerated', 0) + 1
                    ok, why = holds(sub, spec, H, n + 1)
                    if not ok:
                        raise Violation('silent', 'simulation ended as '
                                        'successful after %s at file system '
                                        'call %d of %d, but: %s' % (
                                            ft['errno'], at, total, why))
                elif code == 5 or code < 0:
                    # raised, or HDF5 gave up: at least not a success
                    probes['error raised'] = probes.get(
                        'error raised', 0) + 1
                    if not inside:
                        ok, why = holds(sub, spec, H, K)
                        if not ok:
                            raise Violation('lost-error', '%s at file system '
                                            'call %d of %d (%s); %d rows had '
                                            'been flushed: %s' % (
                                                ft['errno'], at, total, res,
                                                K, why))
                else:
                    raise Violation('died', 'process died with %s after %s '
                                    'at call %d' % (code, ft['errno'], at))
    st = common.stats(A, R, faults=faults, probes=probes)
    st['runs'] += sum(faults.values())
    st['key'] = core.digest([st['key'], case['faults'], case['rel']])
    st['nontrivial'] = bool(faults)
    return st


def shrink(case):
    import shrink as S
    fs = case['faults']
    if len(fs) > 1:
        for f in fs:
            yield dict(case, faults=[f])
    else:
        yield from S.generic(case)
