"""C22: packaging and reloading sets of results, also next to running,
crashed and other simulations and with faults while packaging."""
import errno
import glob
import hashlib
import os

import numpy as np
import pandas as pd

import core
import gen
from core import Violation
from checks import common, c04

LEVEL = 'exploration'
RULE = ('case = result folder with finished, running, crashed and foreign '
        'simulations x sequence of packaging calls with crashes and I/O '
        'errors at seeded file system calls; non-trivial: at least one '
        'simulation was packaged; distinct by folder content and faults')
ASSUMPTIONS = common.ASSUME + [
    'Names follow the documented scheme: date stamp, a set feature without '
    'digits which occurs once, a number; paths without glob patterns or '
    'braces.',
    'Process-crash model. A running simulation is one which was stopped at a '
    'seeded file system call: its files are what a packaging call at that '
    'moment sees.']
REAL = ['multisim.utility_functions.package_results, load_results_by_name, '
        'load_sim_results', 'multisim.Models with disk saving for the real '
        'result files', 'HDF5/PyTables/pandas storage and the file system '
        '(scratch directory)']
STUB = ['file system calls below the result folder can fail, be torn or kill '
        'the process (LD_PRELOAD shim)',
        'most result files are small stand-ins written by the harness']
FAMS = ['files', 'line']
FEAT = ['LHS', 'base_', 'set-A_']


def cases(seed, tier):
    def fn(r, f, i):
        feat = r.choice(FEAT)
        tail = r.choice(['', '_w', '_summer_el'])
        nums = r.sample(range(1, 30), r.randint(2, 7))
        if r.random() < .5:
            nums[1] = int(str(nums[0]) + str(r.randint(0, 9)))
            nums = list(dict.fromkeys(nums))
        sims = []
        for k in nums:
            name = '%s%s%d%s' % (r.choice(['', 'flexi_', 'v1.5_']), feat, k,
                                 tail)
            s = dict(num=k, name=name, date='20%02d-0%d-1%dT0%d-2%d-3%d' % (
                tuple(r.randint(1, 9) for _ in range(6))),
                state=r.choice(['done'] * 4 + ['running', 'crashed',
                                               'noreport', 'finishing']),
                bcs=r.random() < .6, log=r.random() < .5,
                n=r.randint(1, 6), seed=r.randint(0, 10 ** 6))
            sims.append(s)
            if r.random() < .1:
                sims.append(dict(s, date='2031-01-01T00-00-0%d'
                                 % r.randint(0, 9), log=False,
                                 seed=s['seed'] + 1))
                s['log'] = False
        other = [dict(num=k, name='zz_%d' % k, date='2022-02-02T02-02-02',
                      state=r.choice(['done', 'running', 'noreport']),
                      bcs=True, log=True, n=2, seed=k)
                 for k in r.sample(range(1, 30), r.randint(0, 2))]
        real = None
        if f == 'line':
            spec = gen.make('line', r, tf=gen.rnd(r.uniform(1, 4), 4))
            real = dict(num=77, spec=spec, name='flexi_%s77%s' % (feat, tail),
                        crash=r.choice([None, round(r.random(), 6),
                                        round(r.random(), 6), round(
                                            1 - .2 * r.random(), 6)]),
                        every=r.randint(2, 20),
                        complevel=r.choice([0, 1, 9]))
        calls = []
        for _ in range(r.randint(1, 3)):
            c = dict(fault=None)
            k = r.choice(['none', 'crash', 'crash', 'err', 'err1'])
            if k != 'none':
                c['fault'] = dict(
                    kind=k, u=round(r.random(), 6), errno=r.choice(
                        ['EIO', 'ENOSPC', 'EACCES']),
                    act=r.choice([1, 2, 5]) if k == 'crash' else
                    (4 if k == 'err' else 3))
            c['then'] = r.choice(['nothing', 'finish', 'finish'])
            calls.append(c)
        return dict(sims=sims, other=other, real=real, calls=calls,
                    feat=feat, exists=[
                        s['num'] for s in sims if r.random() < .12],
                    slash=r.random() < .5, folder=r.choice(
                        ['', 'S.h5', 'LHS1_w']), move=r.choice(
                        ['finished', './finished/', 'a/b', 'ABS', 'ABS/']))
    return common.cases_for('C22', seed, tier, FAMS, {
        'files': 500, 'line': 120}, {'files': 20000, 'line': 3000}, fn)


def frame(s, shift=0.):
    g = np.random.RandomState(s['seed'])
    idx = pd.to_datetime('2020-01-01') + pd.to_timedelta(
        np.arange(s['n']), unit='s')
    return pd.DataFrame(g.rand(s['n'], 2) + shift, index=idx)


def put(d, s, ext, content):
    f = os.path.join(d, '%s_%s%s' % (s['date'], s['name'], ext))
    with open(f, 'w') as fh:
        fh.write(content)
    return f


def create(d, s):
    """Files of one simulation in its state."""
    base = os.path.join(d, '%s_%s' % (s['date'], s['name']))
    st = s['state']
    if st != 'running':
        with pd.HDFStore(base + '.h5', 'w') as h:
            h.put('p/res', frame(s), format='table')
            h.put('p/res_dm', frame(s, 2.), format='table')
            h.put('sim_vecs', frame(s, 5.), format='table')
    if st in ('running', 'crashed', 'finishing'):
        put(d, s, '.h5_tmp', 'tmp %s' % s['seed'])
    if st in ('done', 'finishing'):
        put(d, s, '_REPORT.csv', 'report;%s' % s['seed'])
    if s['bcs']:
        put(d, s, '_BCs.csv', 'bcs;%s' % s['seed'])
    if s['log']:
        with open(os.path.join(d, s['name'] + '.log'), 'w') as f:
            f.write('log %s' % s['seed'])


def tree(root):
    out = {}
    for f in glob.glob(root + '/**/*', recursive=True):
        if os.path.isfile(f):
            with open(f, 'rb') as fh:
                out[f] = hashlib.sha1(fh.read()).hexdigest()
    return out


class World:
    def __init__(self, case, d):
        self.case = case
        self.feat = case['feat']
        self.root = d + '/base/' + (case['folder'] + '/' if case['folder'] else '')
        os.makedirs(self.root)
        mv = case['move']
        self.abs = mv.startswith('ABS')
        self.dest = d + '/base/moved' if self.abs else os.path.normpath(
            os.path.join(self.root, mv))
        self.move_arg = self.dest + mv[3:] if self.abs else mv
        for s in case['sims'] + case['other']:
            create(self.root, s)
        for num in case['exists']:
            s = next(s for s in case['sims'] if s['num'] == num)
            p = os.path.join(self.dest, self.dirname(s['name']))
            os.makedirs(p, exist_ok=True)
            with open(p + '/precious.h5', 'w') as f:
                f.write('precious %d' % num)
        self.done = {}      # packaged h5 of sim numbers: table digests

    def dirname(self, name):
        return self.feat + name.split(self.feat)[1]

    def scan(self):
        """Simulations of the set found on disk: base -> dict."""
        out = {}
        for f in glob.glob(self.root + '*'):
            b = os.path.basename(f)
            for ext in ('.h5', '.h5_tmp', '_REPORT.csv', '_BCs.csv'):
                if b.endswith(ext) and os.path.isfile(f) and self.feat in b:
                    out.setdefault(f[:-len(ext)], {})[ext] = f
        for base, d in out.items():
            name = os.path.basename(base)[20:]
            log = os.path.join(self.root, name + '.log')
            d['log'] = log if os.path.isfile(log) else None
            d['dir'] = os.path.join(self.dest, self.dirname(name))
            d['to'] = {}
            d['name'] = name
            for ext in ('.h5', '_REPORT.csv', '_BCs.csv'):
                if ext in d:
                    d['to'][d[ext]] = os.path.join(d['dir'], name + ext)
            if d['log']:
                d['to'][d['log']] = os.path.join(d['dir'], name + '.log')
            d['ready'] = '.h5' in d and '_REPORT.csv' in d and \
                '.h5_tmp' not in d and not os.path.exists(d['dir'])
        return out

    def package(self):
        from multisim import utility_functions as uf
        path = self.root if self.case['slash'] else self.root.rstrip('/')
        with core.quiet():
            return uf.package_results(name_feature=self.feat, path=path,
                                      move_to=self.move_arg)

    def judge(self, before, sims, after, fault, ret):
        what = 'after a packaging call' + (
            '' if fault is None else ' with ' + fault)
        may, groups = {}, {}
        for base, d in sims.items():
            if d['ready']:
                groups.setdefault(d['dir'], []).append(d)
                may.update(d['to'])
        root = self.root
        rel = lambda f: os.path.relpath(f, root)  # noqa: E731
        dests = set(may.values())
        for f, h in before.items():
            if after.get(f) == h:
                continue
            if f in after:
                raise Violation('altered', '%s: content of %s changed' % (
                    what, rel(f)))
            if f not in may:
                raise Violation('touched', '%s: %s is gone, although it does '
                                'not belong to a finished simulation of the '
                                'set' % (what, rel(f)))
            if after.get(may[f]) != h:
                raise Violation('lost', '%s: %s is neither at its place nor '
                                'unaltered at %s' % (what, rel(f),
                                                     rel(may[f])))
        for f in after:
            if f not in before and f not in dests:
                raise Violation('unexpected', '%s: unexpected file %s' % (
                    what, rel(f)))
        if fault is not None:
            return 0
        n = 0
        for dr, ds in groups.items():
            moved = []
            for d in ds:
                there = [after.get(t) == before[f]
                         for f, t in d['to'].items()]
                left = [f in after for f in d['to']]
                if all(there) and not any(left):
                    moved.append(d)
                elif not all(left):
                    raise Violation('torn', '%s: %s was packaged in parts: '
                                    'left over %s' % (what, d['name'], [
                                        rel(f) for f in d['to']
                                        if f in after]))
            if len(moved) != 1:
                raise Violation('not-packaged', '%s: %d of %d finished '
                                'simulations %s were packaged' % (
                                    what, len(moved), len(ds),
                                    [d['name'] for d in ds]))
            n += 1
        # report of the call
        want = {b for b, d in sims.items() if '.h5' in d
                and '_REPORT.csv' not in d}
        pend = {d['.h5_tmp'] for d in sims.values() if '.h5_tmp' in d}
        norm = lambda xs: {os.path.abspath(x) for x in xs}  # noqa: E731
        got = norm(ret['unresolved'])
        if got != norm(want):
            raise Violation('unresolved', '%s: %s reported as unresolved, '
                            'but it is %s' % (what, sorted(map(rel, got)),
                                              sorted(map(rel, want))))
        if norm(ret['pending']) != norm(pend):
            raise Violation('pending', '%s: %s reported as pending, but it '
                            'is %s' % (what, ret['pending'], pend))
        return n

    def finish(self):
        """Running simulations end now."""
        for base, d in self.scan().items():
            if '.h5_tmp' in d and os.path.basename(base)[20:] in {
                    s['name'] for s in self.case['sims']}:
                s = next(s for s in self.case['sims'] if base.endswith(
                    '%s_%s' % (s['date'], s['name'])))
                os.remove(d['.h5_tmp'])
                create_done = dict(s, state='done', bcs=False, log=False)
                create(self.root, create_done)

    def reload(self):
        """All packaged results by set and number."""
        from multisim import utility_functions as uf
        dirs = sorted(glob.glob(self.dest + '/*/'))
        by = {}
        for p in dirs:
            h5 = glob.glob(p + '*.h5')
            nm = os.path.basename(p.rstrip('/'))
            num = int(''.join(c for c in nm[len(self.feat):].split('_')[0]))
            if len(h5) != 1 or os.path.basename(h5[0]) == 'precious.h5':
                return 0
            by[num] = h5[0]
        if not by:
            return 0
        base, sub = os.path.split(self.dest)
        up, name = os.path.split(base)
        sel = [None] + [k for k in by][:2] + [sorted(by)[::2]]
        for nums in sel:
            with core.quiet():
                got = uf.load_results_by_name(
                    set_numbers=nums, set_identifier=self.feat,
                    set_name=name, sub_dir=sub, base_path=up)
            want = list(by) if nums is None else [nums] if isinstance(
                nums, int) else nums
            if sorted(got) != sorted(want):
                raise Violation('reload', 'results %s requested by number, '
                                '%s loaded' % (sorted(want), sorted(got)))
            for k in want:
                with pd.HDFStore(by[k], 'r') as st:
                    data = {x.lstrip('/'): st[x] for x in st.keys()}
                d = got[k]
                same = d['sim_vecs'].equals(data.pop('sim_vecs'))
                same = same and {c[:2] for c in d['data'].columns} == {
                    tuple(x.split('/')) for x in data}
                same = same and all(
                    (d['data'][tuple(x.split('/'))].values ==
                     v.values).all() for x, v in data.items())
                if not same:
                    raise Violation('reload', 'loaded result %d differs from '
                                    'the packaged file' % k)
        return len(by)


def real_sim(w, case):
    """A simulation writes its results to the folder, maybe up to a crash."""
    rs = case['real']
    spec = dict(rs['spec'], disk=dict(
        save_every_n_steps=rs['every'], complevel=rs['complevel'],
        sim_name=rs['name'], resample_final=False, resample_freq='1s'))

    def simulate(at):
        core.SHIM.dst_io_arm(w.root.encode(), at, 1, 0, 0)
        R = core.Run(spec, [], scratch=w.root.rstrip('/'))
        n = core.SHIM.dst_io_count()
        core.SHIM.dst_io_off()
        return n, len(R.hist.t), R.hist.t[-1]
    if rs['crash'] is None:
        return simulate(-1), None
    with core.scratch_dir() as d:
        keep = w.root
        w.root = d + '/'
        n, steps, t = simulate(-1)
        w.root = keep
    at = 1 + int(rs['crash'] * n)
    code, _ = c04.in_child(lambda: simulate(at), w.root + '../.res')
    if code not in (0, 77):
        raise core.HarnessError('simulation: %s %s' % (code, _))
    return (n, steps, t), 'crash of a simulation' if code == 77 else None


def run(case):
    faults, probes = {}, {}
    steps, simt, packed = 0, 0., 0
    with core.scratch_dir() as d:
        w = World(case, d)
        if case['real']:
            (_, steps, simt), f = real_sim(w, case)
            if f:
                faults[f] = 1
            if glob.glob(d + '/base/.res'):
                os.remove(d + '/base/.res')
        key = []
        for c in case['calls'] + [dict(fault=None, then='nothing')]:
            before, sims = tree(d + '/base'), w.scan()
            ft, ret, txt = c['fault'], None, None
            if ft is None:
                ret = w.package()
            else:
                # one child counts calls on a copy, one meets the fault
                n = calls_of(w, d)
                if not n:
                    continue
                at = 1 + int(ft['u'] * n)
                code, res = armed(w, d, at, ft)
                txt = '%s at file system call %d of %d' % (
                    'a crash' if ft['kind'] == 'crash' else ft['errno'], at,
                    n)
                if ft['kind'] == 'crash':
                    if code == 0:
                        txt, ret = None, res
                    elif code != 77:
                        raise core.HarnessError('child: %s %s' % (code, res))
                    else:
                        k = {1: 'crash before call', 2: 'crash after call',
                             5: 'torn write + crash'}[ft['act']]
                        faults[k] = faults.get(k, 0) + 1
                else:
                    k = '%s %s' % (ft['errno'], 'once' if ft['act'] == 3
                                   else 'persistent')
                    faults[k] = faults.get(k, 0) + 1
            after = tree(d + '/base')
            packed += w.judge(before, sims, after, txt, ret)
            key.append(sorted(os.path.relpath(f, d) for f in after))
            if c['then'] == 'finish':
                w.finish()
        probes['simulations packaged'] = packed
        probes['packaged results reloaded'] = w.reload()
    return dict(runs=len(case['calls']) + 1 + bool(case['real']),
                steps=steps, sim_time=simt, faults=faults, probes=probes,
                key=core.digest(key), nontrivial=packed > 0)


def calls_of(w, d):
    """Number of file system calls of the packaging call: tried on a copy."""
    import shutil
    shutil.copytree(d + '/base', d + '/copy')
    shutil.move(d + '/base', d + '/orig')
    shutil.move(d + '/copy', d + '/base')
    try:
        code, n = armed(w, d, -1, dict(act=0, errno='EIO'), count=True)
        if code != 0:
            raise Violation('exception', 'packaging failed: %s' % n)
    finally:
        shutil.rmtree(d + '/base')
        shutil.move(d + '/orig', d + '/base')
    return n


def armed(w, d, at, ft, count=False):
    def child():
        core.SHIM.dst_io_arm((d + '/base/').encode(), at, ft['act'],
                             getattr(errno, ft['errno']), 0)
        ret = w.package()
        return core.SHIM.dst_io_count() if count else ret
    return c04.in_child(child, d + '/res')


def shrink(case):
    for k in ('sims', 'other', 'calls', 'exists'):
        for i in range(len(case[k])):
            c = dict(case, **{k: case[k][:i] + case[k][i + 1:]})
            if k == 'sims':
                c['exists'] = [x for x in case['exists'] if x in {
                    s['num'] for s in c['sims']}]
            yield c
    if case['real']:
        yield dict(case, real=None)
