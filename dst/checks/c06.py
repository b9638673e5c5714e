"""C06: time advance, step bounds, progress, accounting of rejected attempts
and bounded failure."""
import math

import numpy as np

import core
import gen
from core import Violation
from checks import common

LEVEL = 'exploration'
RULE = ('case = scenario x solver settings x fault plan of rejected attempts; '
        'non-trivial: more than two accepted steps; distinct by history hash')
ASSUMPTIONS = common.ASSUME + [
    'The first attempt of a step is capped at its predecessor times '
    'max_factor; a step below min_stepsize is legal if stability demands it.']
REAL, STUB = common.REAL_SIM, common.STUB_SIM

DEF = dict(max_stepsize=100., min_stepsize=1e-8, max_factor=2.,
           min_factor=.2)


def cases(seed, tier):
    def fn(r, f, i):
        mode = r.choice(['mix', 'mix', 'mix', 'minstep', 'fixed', 'nostable',
                         'always', 'calm'])
        spec = gen.make(f, r, adaptive=mode != 'fixed',
                        tf=None if mode in ('mix', 'minstep') else
                        gen.rnd(r.uniform(2, 12), 4))
        tf = spec['timeframe']
        plan = common.mk_plan(r, hi=10)
        if mode == 'fixed':
            plan = common.mk_plan(r, kinds=('clock',), hi=3)
            if r.random() < .5:
                # ends exactly with a step
                tf['timestep'] = r.choice([.03125, .0625, .125])
                tf['timeframe'] = tf['timestep'] * min(
                    r.randint(20, 90), int(tf['timeframe'] / tf['timestep']))
        elif mode == 'minstep':
            tf['min_stepsize'] = r.choice([.002, .01, .05])
        elif mode == 'calm':
            # stretches without any (or hardly any) error
            tf['max_stepsize'] = r.choice([.1, .5, 2.])
            a = r.randint(1, 40)
            plan = [e for e in plan if e['kind'] != 'reject'] + [
                dict(at=k, kind='reject', n=10 ** 6, err=r.choice(
                    [0., 0., 1e-30, 1e-6, .3, .999]))
                for k in range(a, a + r.choice([1, 5, 60, 600]))]
        elif mode == 'nostable':
            plan.append(dict(at=r.randint(1, 25), kind='veto', n=10 ** 6,
                             frac=round(r.uniform(.6, .999), 3)))
        elif mode == 'always':
            # error tolerance can never be met
            tf['min_stepsize'] = r.choice([.02, .05])
            plan = [dict(at=k, kind='reject', n=10 ** 6, err=round(
                r.uniform(1.01, 50), 3)) for k in range(
                    r.randint(1, 10), 2000)]
        return dict(spec=spec, plan=plan, mode=mode)
    return common.cases_for('C06', seed, tier, gen.FAMILIES, 44, 1200, fn)


class Watch:
    """Every attempt of every step: size, stable?, error estimate used."""

    def __init__(self, tf):
        self.tol = tf.get('rtol', 1e-3), tf.get('atol', 1e-6)
        self.n_est = 0
        self.att = []       # per step: list of [h, vetoed limit, err]
        self.acc = []       # accepted

    def __call__(self, name, env, handler):
        if name == 'step_begin':
            self.att.append([])

    def estimate(self, env, h, e):
        """Error estimate from its definition: difference of this attempt to
        an Euler step in units of the tolerance, RMS over all explicitly
        solved cells."""
        k = int(np.ravel(env.stepnum)[0])
        tot, cells = 0., 0
        for n in env.solve_num_expl:
            p = env.parts[n]
            df0 = getattr(p, '_df0', None)
            wgt = getattr(p, '_trnc_err_cell_weight', None)
            if df0 is None or wgt is None:
                return
            a, b = p.res[k - 1], p.res[k]
            d = (b - (a + h * df0)) * wgt / (
                np.maximum(a, b) * self.tol[0] + self.tol[1])
            tot += float((d ** 2).sum())
            cells += p.num_gp
        if not cells:
            return
        want = (tot / cells) ** .5
        self.n_est += 1
        if abs(e - want) > 1e-6 * want + 1e-7 and not (e != e and
                                                       want != want):
            raise Violation('estimate', 'step %d tried with %r s: error '
                            'estimate %r, but the difference to the Euler '
                            'step is %r x tolerance' % (
                                len(self.att), h, e, want))

    def wrap(self, handler):
        stab, err = handler.stability, handler.error

        def stability(env, h):
            v = stab(env, h)
            own = bool(np.ravel(env._step_stable)[0])
            lim = v
            if not own:
                nat = float(np.ravel(env._vN_max_step)[0])
                lim = nat if v is None else min(v, nat)
            self.att[-1].append([float(h), lim, None])
            return v

        def error(env, h, e):
            self.estimate(env, h, e)
            e = err(env, h, e)
            self.att[-1][-1][2] = float(e)
            return e
        handler.stability, handler.error = stability, error


def run(case):
    spec, mode = case['spec'], case['mode']
    tf = spec['timeframe']
    w = Watch(tf)
    R = core.Run(spec, case['plan'], start=False, observers=[w],
                 max_steps=30000)
    w.wrap(R.handler)
    failed = None
    try:
        R.start()
    except ValueError as e:
        if 'stable' not in str(e).lower():
            raise
        failed = e
    finally:
        R.close()
    env, H = R.env, R.hist
    n = len(H.t)
    probes = {'error estimates compared': w.n_est}
    lim = dict(DEF, **{k: float(tf[k]) for k in DEF if k in tf})
    if failed is not None:
        if mode != 'nostable':
            last = w.att[-1] if w.att else []
            if sum(a[1] is not None for a in last) < 50:
                raise Violation('spurious-failure', 'stopped with %r after '
                                'only %d unstable attempts' % (
                                    str(failed)[:80], len(last)))
        probes['bounded failure'] = 1
        if len(w.att[-1]) > 1000:
            raise Violation('unbounded', '%d attempts before giving up'
                            % len(w.att[-1]))
    elif mode == 'nostable' and any(
            ev['kind'] == 'veto' and ev['n'] < 10 ** 6 - 1 and ev['n'] > 9000
            for v in R.handler.by_step.values() for ev in v):
        raise Violation('unstable-accepted', 'no attempt of a step was '
                        'stable, but the simulation went on')
    # ---- time
    t0 = 0.
    for k in range(n):
        h = H.h[k]
        if not h > 0:
            raise Violation('step-size', 'step %d: size %r' % (k + 1, h))
        if H.t[k] != t0 + h:
            raise Violation('time', 'step %d: time %r is not %r + %r' % (
                k + 1, H.t[k], t0, h))
        if not t0 < tf['timeframe']:
            raise Violation('end', 'step %d starts at %r, past the timeframe '
                            '%r' % (k + 1, t0, tf['timeframe']))
        t0 = H.t[k]
    if failed is None:
        if not n or H.t[-1] < tf['timeframe']:
            raise Violation('end', 'simulation ended at %r of %r s' % (
                H.t[-1] if n else 0., tf['timeframe']))
        tv = np.ravel(env.time_vec)
        if tv.size != n + 1 or (tv[1:] != np.array(H.t)).any() or tv[0] != 0:
            ok, m = core.close(tv, [0.] + H.t)
            raise Violation('time-vector', 'result time vector is not the '
                            'time of the accepted steps: ' + m)
    if mode == 'fixed':
        dt = tf['timestep']
        bad = [k for k in range(n) if H.h[k] != dt]
        if bad:
            raise Violation('fixed-step', 'step %d has size %r instead of %r'
                            % (bad[0] + 1, H.h[bad[0]], dt))
        return common.stats(R, probes=dict(probes, **{'fixed step runs': 1}))
    # ---- attempts
    first_max = None
    for k in range(len(w.att)):
        att = w.att[k]
        acc = k < n
        if acc and not att:
            raise Violation('attempts', 'step %d accepted unseen' % (k + 1))
        for j, (h, lv, e) in enumerate(att):
            if h > lim['max_stepsize'] * (1 + 1e-12):
                raise Violation('max-step', 'step %d is tried with %r s, '
                                'maximum is %r' % (k + 1, h,
                                                   lim['max_stepsize']))
            last = j == len(att) - 1
            if j:
                ph, plv, pe = att[j - 1]
                if plv is not None:
                    probes['unstable attempts'] = probes.get(
                        'unstable attempts', 0) + 1
                    if h > plv * (1 + 1e-12):
                        raise Violation('stability-limit', 'step %d: attempt '
                                        'with %r s after a limit of %r s' % (
                                            k + 1, h, plv))
                    low = min(a[1] for a in att[:j] if a[1] is not None)
                    if h < .5 * low:
                        raise Violation('over-reduced', 'step %d: %r s tried '
                                        'although %r s are stable' % (
                                            k + 1, h, low))
                else:
                    probes['error rejects'] = probes.get(
                        'error rejects', 0) + 1
                    lo = max(min(lim['min_stepsize'], ph),
                             ph * lim['min_factor'] * (1 - 1e-9))
                    if not h < ph and not ph <= lim['min_stepsize']:
                        raise Violation('reject', 'step %d: size not reduced '
                                        'after rejection: %r -> %r' % (
                                            k + 1, ph, h))
                    if h < lo * (1 - 1e-9):
                        raise Violation('reject', 'step %d: size reduced '
                                        'below limits: %r -> %r' % (
                                            k + 1, ph, h))
            if acc and last:
                if lv is not None:
                    raise Violation('unstable-accepted', 'step %d accepted '
                                    'with %r s, stable limit %r s' % (
                                        k + 1, h, lv))
                if h != H.h[k]:
                    raise Violation('attempts', 'step %d: advanced by %r s, '
                                    'solved with %r s' % (k + 1, H.h[k], h))
                if not e < 1.:
                    if h > lim['min_stepsize']:
                        raise Violation('tolerance', 'step %d accepted with '
                                        'error %r x tolerance at %r s' % (
                                            k + 1, e, h))
                    probes['accepted at minimum'] = probes.get(
                        'accepted at minimum', 0) + 1
            elif lv is None and e is not None and e < 1.:
                raise Violation('reject', 'step %d: attempt within tolerance '
                                '(error %r) was not accepted' % (k + 1, e))
        if k and att and k - 1 < n:
            grow = att[0][0] / H.h[k - 1]
            if grow > lim['max_factor'] * (1 + 1e-9):
                raise Violation('max-factor', 'step %d: size grows by %r, '
                                'maximum %r' % (k + 1, grow,
                                                lim['max_factor']))
            if grow < 1 - 1e-9 and H.h[k - 1] <= lim['max_stepsize']:
                raise Violation('shrinks', 'step %d: first attempt is smaller '
                                'than the accepted predecessor: %r after %r'
                                % (k + 1, att[0][0], H.h[k - 1]))
        if acc and failed is None:
            # how the step ended, as counted in the report
            e, st = att[-1][2], int(np.ravel(env._solver_state)[k + 1])
            nxt = w.att[k + 1][0][0] if k + 1 < len(w.att) and \
                w.att[k + 1] else None
            if e == 0.:
                want = {7}
            elif not e < 1.:
                want = {6}
            elif nxt is None:
                want = {4, 5}
            elif nxt == lim['max_stepsize']:
                want = {5} if H.h[k] < nxt else {4, 5}
            else:
                want = {4}
            if st not in want:
                raise Violation('state', 'step %d (%r s, error %r x tolerance,'
                                ' next %r s) is recorded with state %d' % (
                                    k + 1, H.h[k], e, nxt, st))
    if failed is None:
        fs = np.ravel(env._failed_steps)[:n + 1]
        want = np.array([0] + [len(a) - 1 for a in w.att[:n]])
        ok, m = core.close(fs, want)
        if not ok:
            raise Violation('accounting', 'reported repeated attempts per '
                            'step are wrong ' + m)
    return common.stats(R, probes=probes)
