"""Shared pieces of the checks: case generation and result records."""
import core
import gen

REAL_SIM = [
    'multisim.Models: building, flow network, adaptive Heun / fixed step '
    'solver, step loop, boundary conditions, finalising',
    'all parts and controllers of the scenario (numba-compiled kernels '
    'included)']
STUB_SIM = [
    'wall clock (LD_PRELOAD shim: simulated, may jump, freeze or run '
    'backwards)',
    'amount of installed memory (psutil.virtual_memory)',
    'stability verdict and error estimate of single solver attempts where '
    'the fault plan says so (guarded hooks)']
ASSUME = [
    'Seeded sampling of scenarios and fault sequences, not enumeration: a '
    'clean batch is evidence, not proof.',
    'Scenarios are the generated topology families; parts Pipe2D, HexCond '
    'and the linked controllers are not simulated.',
    'CPython, numpy, pandas, numba, PyTables/HDF5 are trusted and run real.']


def mk_plan(r, n_max=60, kinds=('veto', 'reject', 'clock'), lo=0, hi=6):
    """Random fault plan. Events cluster sometimes (same or adjacent step)."""
    out = []
    kinds = [k for k in kinds if r.random() < .8] or [kinds[0]]
    n = r.randint(lo, hi)
    at = None
    for _ in range(n):
        if at is not None and r.random() < .3:
            at += r.choice([0, 1])
        else:
            at = 1 + int(n_max * r.random() ** 1.7)
        k = r.choice(kinds)
        ev = dict(at=at, kind=k)
        if k == 'veto':
            ev.update(n=r.choice([1, 1, 2, 5]),
                      frac=round(r.uniform(.2, .99), 3))
        elif k == 'reject':
            ev.update(n=r.choice([1, 1, 2, 4]),
                      err=round(r.choice([1.001, 2., 30., 1e4])
                                * r.uniform(1, 1.5), 4))
        else:
            ev['d'] = int(r.choice([-86400e9, -1e9, 0, 5e9, 3600e9, 3e16]))
        out.append(ev)
        if k != 'clock' and r.random() < .25:
            # mixed kinds of discarded attempts in one step, in any order
            ev['n'] = min(ev['n'], 2)
            other = dict(at=at, skip=ev['n'], n=r.choice([1, 1, 2]))
            if k == 'veto':
                other.update(kind='reject', err=round(r.uniform(1.1, 9.), 3))
            else:
                other.update(kind='veto', frac=round(r.uniform(.2, .99), 3))
            out.append(other)
    out.sort(key=lambda e: e['at'])
    return out


def cases_for(prop, seed, tier, fams, quick, thorough, fn):
    """`quick`/`thorough` cases per family (dict or int)."""
    n = quick if tier == 'quick' else thorough
    out = []
    for f in fams:
        nf = n[f] if isinstance(n, dict) else n
        for i in range(nf):
            r = core.rng(prop, seed, f, i)
            c = fn(r, f, i)
            if c is None:
                continue
            c['fam'] = c.get('fam', f)
            c['sub'] = i
            out.append(c)
    return out


def stats(*runs, **kw):
    """Result record of the simulated runs of one case."""
    d = dict(steps=0, sim_time=0., runs=len(runs), faults={}, probes={},
             states=[])
    m = []
    for R in runs:
        d['steps'] += len(R.hist.t)
        d['sim_time'] += R.hist.t[-1] if R.hist.t else 0.
        for k, v in R.handler.fired.items():
            d['faults'][k] = d['faults'].get(k, 0) + v
        m.append(R.hist.digest())
    d['key'] = core.digest(m)
    nat = sum(len(v) for R in runs for v in R.handler.rejected.values())
    d['probes']['rejected attempts'] = nat
    for k, v in kw.pop('probes', {}).items():
        d['probes'][k] = d['probes'].get(k, 0) + v
    for k, v in kw.pop('faults', {}).items():
        d['faults'][k] = d['faults'].get(k, 0) + v
    d['nontrivial'] = bool(d['steps'] > 2)
    d.update(kw)
    return d
