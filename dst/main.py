"""Entry point: `check Cxx [--tier quick|thorough]`, `replay FILE`,
`selftest` (determinism of the simulator)."""
import argparse
import copy
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import core  # noqa: E402
import shrink as _shrink  # noqa: E402

OUT = sys.stdout
CASE_TIMEOUT = int(os.environ.get('DST_CASE_TIMEOUT', '120'))
WORKERS = int(os.environ.get('DST_WORKERS', '8'))
STOP = int(os.environ.get('DST_STOP', '12'))    # violations to stop after
SHRINK = dict(quick=90, thorough=300)           # s per violation
if os.environ.get('DST_SHRINK'):
    SHRINK = dict.fromkeys(SHRINK, int(os.environ['DST_SHRINK']))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def execute(mod, case, timeout=CASE_TIMEOUT):
    """Run one case. Returns dict(kind=ok|viol|harness, ...)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    t0 = time.monotonic()
    try:
        res = mod.run(copy.deepcopy(case)) or {}
        res['kind'] = 'ok'
    except core.Violation as e:
        res = dict(kind='viol', cls=e.cls, msg=str(e))
    except core.Skip:
        res = dict(kind='ok', nontrivial=False, runs=1,
                   probes={'skipped: model limit': 1})
    except core.Budget as e:
        res = dict(kind='viol', cls='no-progress',
                   msg='simulation makes no progress: %s' % e)
    except Hang:
        res = dict(kind='viol', cls='hang',
                   msg='run did not end within %d s' % timeout)
    except MemoryError as e:
        res = dict(kind='harness', msg='MemoryError %s' % e)
    except Exception as e:  # noqa: B902
        if core.from_repo(e):
            res = dict(kind='viol', cls='exception:' + type(e).__name__,
                       msg='a legal simulation raised ' + core.exc_text(e))
        else:
            import traceback
            res = dict(kind='harness', msg=traceback.format_exc())
    finally:
        signal.alarm(0)
        try:
            core.clock(False)
            core.set_ram(None)
            core._dst.install(None)
            core.SHIM.dst_io_off()
        except Exception:
            pass
    res['wall'] = time.monotonic() - t0
    return res


def _worker(conn, modname):
    mod = importlib.import_module('checks.' + modname)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    # a damaged file must not make HDF5 eat all memory
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        conn.send(execute(mod, msg))


class Pool:
    def __init__(self, modname, n=WORKERS):
        self.modname = modname
        self.ctx = mp.get_context('fork')
        self.w = [None] * n
        for i in range(n):
            self._spawn(i)

    def _spawn(self, i):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.modname),
                             daemon=False)
        p.start()
        b.close()
        self.w[i] = dict(p=p, c=a, job=None, fams=set(), t=0.0)

    def run(self, cases, on_result, deadline=None, stop=None):
        """Dynamic dispatch with family affinity (JIT code is per process)."""
        todo = {}
        for i, c in enumerate(cases):
            todo.setdefault(c.get('fam', '-'), []).append(i)
        for v in todo.values():
            v.reverse()
        started = {f: 0 for f in todo}

        def pick(w):
            live = [f for f in todo if todo[f]]
            if not live:
                return None
            own = [f for f in live if f in w['fams']]
            fresh = [f for f in live if not started[f]]
            if fresh and not own:
                f = fresh[0]
            elif own:
                f = max(own, key=lambda f: len(todo[f]))
            else:
                f = max(live, key=lambda f: len(todo[f]) / (1 + started[f]))
                if len(todo[f]) < 3:
                    return None
            return f

        left = len(cases)
        while left:
            if deadline and time.monotonic() > deadline:
                raise TimeoutError('batch deadline reached')
            if stop and todo and stop():
                # enough violations: only finish what is running
                left -= sum(len(v) for v in todo.values())
                todo.clear()
                if not left:
                    break
            for w in self.w:
                if w['job'] is None:
                    f = pick(w)
                    if f is None:
                        continue
                    if f not in w['fams']:
                        w['fams'].add(f)
                        started[f] += 1
                    w['job'] = todo[f].pop()
                    w['t'] = time.monotonic()
                    w['c'].send(cases[w['job']])
            busy = [w for w in self.w if w['job'] is not None]
            if not busy:  # only leftovers nobody wanted
                w = self.w[0]
                f = next(f for f in todo if todo[f])
                w['fams'].add(f)
                continue
            ready = wait([w['c'] for w in busy]
                         + [w['p'].sentinel for w in busy], timeout=5)
            for i, w in enumerate(self.w):
                if w['job'] is None:
                    continue
                res = None
                if w['c'] in ready:
                    try:
                        res = w['c'].recv()
                    except EOFError:
                        res = None
                    if res is None:
                        w['p'].join(5)
                elif w['p'].sentinel not in ready:
                    if time.monotonic() - w['t'] > CASE_TIMEOUT + 60:
                        w['p'].kill()
                        w['p'].join()
                        res = dict(kind='viol', cls='hang', wall=0,
                                   msg='run hangs outside of Python code')
                        on_result(w['job'], res)
                        left -= 1
                        self._spawn(i)
                    continue
                if res is None:  # worker died
                    code = w['p'].exitcode
                    job = w['job']
                    self._spawn(i)
                    if code == -9:
                        res = dict(kind='harness', wall=0,
                                   msg='worker was killed')
                    else:
                        res = dict(kind='viol', cls='died', wall=0,
                                   msg='process died with exit code %s '
                                   'during the run' % code)
                    on_result(job, res)
                    left -= 1
                    continue
                job, w['job'] = w['job'], None
                on_result(job, res)
                left -= 1

    def one(self, case):
        out = []
        self.run([case], lambda i, r: out.append(r))
        return out[0]

    def many(self, cases):
        out = [None] * len(cases)

        def f(i, r):
            out[i] = r
        self.run(cases, f)
        return out

    def close(self):
        for w in self.w:
            try:
                w['c'].send(None)
            except Exception:
                pass
        for w in self.w:
            w['p'].join(3)
            if w['p'].is_alive():
                w['p'].kill()


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return [k for k in json.load(f)['findings']
                    if k['property'] == prop and k['status'] == 'known']
    except FileNotFoundError:
        return []


def is_known(known, case, res):
    for k in known:
        m = k['match']
        if m.get('cls') and m['cls'] != res['cls']:
            continue
        if m.get('msg') and m['msg'] not in res['msg']:
            continue
        if m.get('fam') and m['fam'] != case.get('fam'):
            continue
        return k
    return None


def minimise(pool, mod, case, res, budget):
    """Greedy shrinking, all candidates of a round in parallel; the violation
    class has to stay the same."""
    t0 = time.monotonic()
    best, bres, tried = case, res, 0
    fn = getattr(mod, 'shrink', _shrink.generic)
    seen = {core.digest(case)}
    while time.monotonic() - t0 < budget:
        cand = []
        for c in fn(copy.deepcopy(best)):
            d = core.digest(c)
            if d not in seen:
                seen.add(d)
                cand.append(c)
            if len(cand) >= 16:
                break
        if not cand:
            break
        tried += len(cand)
        rs = pool.many(cand)
        for c, r in zip(cand, rs):
            if r['kind'] == 'viol' and r['cls'] == res['cls']:
                best, bres = c, r
                break
        else:
            if len(cand) < 16:
                break
    return best, bres, tried


def check(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = prop.lower()
    mod = importlib.import_module('checks.' + modname)
    t0 = time.monotonic()
    print('check %s tier=%s VERIF_SEED=%d' % (prop, tier, seed), flush=True)
    cases = mod.cases(seed, tier)
    for i, c in enumerate(cases):
        c.setdefault('i', i)
    results = [None] * len(cases)
    pool = Pool(modname)
    deadline = t0 + (600 if tier == 'quick' else 3300)

    known = known_findings(prop)
    nviol = [0]

    def got(i, r):
        results[i] = r
        if r['kind'] == 'viol' and not is_known(known, cases[i], r):
            nviol[0] += 1

    late = None
    try:
        pool.run(cases, got, deadline, stop=lambda: nviol[0] >= STOP)
    except TimeoutError as e:
        late = str(e)
        for w in pool.w:
            w['p'].kill()
        ndone = sum(r is not None for r in results)
        print('%s: %d of %d cases done' % (e, ndone, len(cases)), flush=True)
        if not nviol[0] and ndone < .2 * len(cases):
            print('HARNESS-ERROR: %s' % e, flush=True)
            return 2
        pool = Pool(modname, WORKERS if nviol[0] else 1)
    total = len(results)
    full = all(r is not None for r in results)
    cases = [c for c, r in zip(cases, results) if r is not None]
    results = [r for r in results if r is not None]
    wall_search = time.monotonic() - t0
    harness = [(i, r) for i, r in enumerate(results) if r['kind'] == 'harness']
    viols = [(i, r) for i, r in enumerate(results) if r['kind'] == 'viol']
    # checks over all runs together
    if hasattr(mod, 'finish') and not harness and full:
        try:
            mod.finish(cases, results)
        except core.Violation as e:
            viols.append((None, dict(kind='viol', cls=e.cls, msg=str(e))))
    known_hit, news = {}, []
    for i, r in viols:
        k = is_known(known, cases[i] if i is not None else {}, r)
        if k:
            known_hit.setdefault(k['what'], []).append(i)
        else:
            news.append((i, r))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    code = 0
    reported = []
    if news:
        code = 1
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        done = set()
        for i, r in news:
            if r['cls'] in done or len(done) >= 2:
                continue
            done.add(r['cls'])
            best, bres, tried = cases[i], r, 0
            if i is not None and r['cls'] != 'hang' and not late:
                best, bres, tried = minimise(
                    pool, mod, cases[i], r, SHRINK[tier])
            name = '%s-%s.json' % (prop, core.digest(best))
            path = os.path.join(VERIF, 'replays', name)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier,
                               cls=bres['cls'], msg=bres['msg'], case=best,
                               original_case=cases[i] if i is not None
                               else None, shrink_candidates=tried), f,
                          indent=1, sort_keys=True)
            print('  [%s] %s' % (bres['cls'], bres['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path),
                  flush=True)
            reported.append(path)
    pool.close()
    if harness:
        print('HARNESS-ERROR in %d case(s): %s' % (
            len(harness), harness[0][1]['msg']), flush=True)
        if not news:
            code = 2
    evidence(prop, mod, tier, seed, cases, results, wall_search, t0,
             len(news), known_hit, reported, harness, total)
    return code


def evidence(prop, mod, tier, seed, cases, results, wall, t0, nviol,
             known_hit, reported, harness, total):
    ok = [r for r in results if r['kind'] == 'ok']
    faults, probes = {}, {}
    simt = steps = runs = 0
    keys, states, nontriv = set(), set(), set()
    for c, r in zip(cases, results):
        for k, v in (r.get('faults') or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get('probes') or {}).items():
            probes[k] = probes.get(k, 0) + v
        simt += r.get('sim_time', 0)
        steps += r.get('steps', 0)
        runs += r.get('runs', 1)
        if r.get('key'):
            keys.add(r['key'])
        states.update(r.get('states') or ())
        if r.get('nontrivial'):
            nontriv.add(r.get('key') or core.digest(c))
    fams = {}
    for c in cases:
        fams[c.get('fam', '-')] = fams.get(c.get('fam', '-'), 0) + 1
    cov = dict(
        evaluations=len(cases), evaluations_planned=total, distinct_nontrivial=len(nontriv),
        rule=mod.RULE,
        samples=[dict(case=_clip(c), result={
            k: v for k, v in r.items() if k in (
                'kind', 'steps', 'sim_time', 'faults', 'probes', 'key',
                'cls', 'msg')}) for c, r in list(zip(cases, results))[:2]],
        simulated_runs=runs, seeds=len(cases),
        simulated_runs_per_hour=round(runs / max(wall, 1e-9) * 3600),
        seeds_per_hour=round(len(cases) / max(wall, 1e-9) * 3600),
        simulated_time_s=round(simt, 3), simulated_steps=steps,
        faults_injected=faults, probes=probes, scenario_families=fams,
        distinct_executions=len(keys),
        distinct_executions_measure='SHA-256 of the recorded history '
        '(times, step sizes, temperatures, flows, actuator and controller '
        'values of every accepted step)',
        distinct_states=len(states),
        real_components=mod.REAL, stub_components=mod.STUB,
        known_findings_hit={k: len(v) for k, v in known_hit.items()},
        replays=reported, harness_errors=len(harness))
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=mod.ASSUMPTIONS,
              wall_s=round(time.monotonic() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print('%s: %d cases, %d ok, %d violating, %d runs, %.0f simulated s, '
          '%d steps, faults %s, probes %s, %.1f s' % (
              prop, len(cases), len(ok), nviol, runs, simt, steps, faults,
              probes, time.monotonic() - t0), flush=True)


def _clip(c):
    s = json.dumps(c, sort_keys=True, default=str)
    return json.loads(s) if len(s) < 6000 else s[:6000] + '...'


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module('checks.' + d['property'].lower())
    res = execute(mod, d['case'])
    if res['kind'] == 'viol':
        print('  [%s] %s' % (res['cls'], res['msg']))
        print('VIOLATION property=%s replay=%s' % (d['property'],
                                                   os.path.abspath(path)))
        same = res['cls'] == d['cls'] and res['msg'] == d['msg']
        print('identical to recorded violation: %s' % same)
        return 1
    if res['kind'] == 'harness':
        print('HARNESS-ERROR: ' + res['msg'])
        return 2
    print('replay held: no violation')
    return 0


def selftest(prop, n, out):
    """Run n cases of a check and write their result digests: compare the
    files of several invocations (worker counts, hash seeds)."""
    mod = importlib.import_module('checks.' + prop.lower())
    cases = mod.cases(int(os.environ.get('VERIF_SEED', '1')), 'quick')
    step = max(1, len(cases) // n)
    cases = cases[::step]
    pool = Pool(prop.lower())
    rs = pool.many(cases)
    pool.close()
    for r in rs:
        r.pop('wall', None)
    with open(out, 'w') as f:
        json.dump([[core.digest(c), r] for c, r in zip(cases, rs)], f,
                  indent=0, sort_keys=True, default=str)
    return 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'selftest'])
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('--out', default='/dev/stdout')
    a = ap.parse_args()
    if a.cmd == 'check':
        sys.exit(check(a.what, a.tier))
    if a.cmd == 'replay':
        sys.exit(replay(a.what))
    sys.exit(selftest(a.what, a.n, a.out))
