"""C20: resampling touches exactly the stagnating, still active runs."""
import numpy as np

import cbx.dynamics as cd
from cbx.utils.resampling import (resampling, ensemble_update_resampling, consensus_stagnation, loss_update_resampling)

from ..drive import moved
from ..gen import gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, start
from ..drive import advance

RULE = ('random histories of several dynamics whose post processing is a resampling with random lists of criteria (ensemble update, '
        'consensus stagnation, best loss, custom), thresholds and patiences, with stagnating (collapsed) runs and runs that terminate '
        'early: an independent trace checker decides for every call which runs have to be resampled; increments are compared with the '
        'numbers the sampler gave out; counters and best consensus points are replayed. The independent noise of the drift constrained '
        'dynamic is judged in the same way. Distinct by dynamic, criteria, thresholds and the pattern of resampled runs.')
REQUIRE = {'calls': 1500, 'resampled_runs': 500, 'kept_runs': 1000, 'frozen_candidates': 60, 'calls_subset': 200, 'noise_numbers': 2000,
           'best_consensus_updates': 100, 'fired:update': 50, 'fired:stagnation': 50, 'fired:loss': 50, 'indep_runs': 100,
           'indep_kept': 100, 'indep_exact_rounds': 40, 'custom_apply': 30, 'repeated': 100, 'noise_pool': 20000}
ASSUMPTIONS = ['comparisons with a threshold that are decided by rounding are not judged',
               'consensus criteria are not combined with polarized dynamics (their consensus has one point per particle)']


class LogSampler:
    """standard normals, remembers everything it gave out since the last mark"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.out = []
        self.tick = 0

    def __call__(self, size=None):
        z = self.rng.standard_normal(size)
        self.out.append(np.array(z, float).ravel())
        return z


class UpdateRef:
    """stagnating ensemble update"""
    name = 'update'

    def __init__(self, thresh):
        self.thresh = thresh

    def decide(self, dyn):
        u = np.asarray(dyn.update_diff, float)
        return u < self.thresh, np.abs(u - self.thresh) < 1e-12 * (1 + abs(self.thresh))


class StagnationRef:
    """largest change of the consensus within the last patience updates"""
    name = 'stagnation'

    def __init__(self, thresh, patience):
        self.thresh, self.patience, self.log, self.last = thresh, patience, [], None

    def decide(self, dyn):
        M = dyn.M
        c = np.full((M,) + dyn.x.shape[2:], np.nan)
        c[dyn.active_runs_idx] = np.asarray(dyn.consensus)[:, 0]
        c = c.reshape(M, -1)
        if self.last is not None:
            self.log.append(np.sqrt(((c - self.last)**2).sum(-1)))
        self.last = c
        if not self.log:
            return np.zeros(M, bool), np.zeros(M, bool)
        w = np.stack(self.log[-self.patience:])
        with np.errstate(all='ignore'):
            m = np.where(np.isnan(w).any(0), np.inf, w.max(0))
        # terminated runs are decided by the caller
        return m < self.thresh, np.abs(m - self.thresh) < 1e-9 * self.thresh


class LossRef:
    """the best energy did not improve in the last wait_thresh calls"""
    name = 'loss'

    def __init__(self, wait):
        self.wait, self.best, self.since = wait, None, None

    def decide(self, dyn):
        e = np.asarray(dyn.best_energy, float)
        if self.best is None:
            self.best, self.since = np.full(e.shape, np.inf), np.zeros(e.shape, int)
        better = e < self.best
        self.since = np.where(better, 0, self.since + 1)
        self.best = np.minimum(self.best, e)
        fire = self.since >= self.wait
        self.since[fire] = 0
        return fire, np.zeros(e.shape, bool)


class CustomRef:
    name = 'custom'

    def __init__(self, period, runs):
        self.period, self.runs = period, runs

    def __call__(self, dyn):
        return np.array([m for m in self.runs if dyn.it % self.period == 0], dtype=int)

    def decide(self, dyn):
        out = np.zeros(dyn.M, bool)
        out[self(dyn)] = True
        return out, np.zeros(dyn.M, bool)


def criteria(rng, M, long=False):
    k = int(rng.integers(1, 4))
    out = []
    for name in rng.permutation(['update', 'stagnation', 'loss', 'custom'])[:k]:
        if name == 'update':
            t = float(pick(rng, [1e-9, 1e-4, 1e-2, .1, 1., 1e3]))
            out.append((ensemble_update_resampling(t), UpdateRef(t)))
        elif name == 'stagnation':
            p, t = int(rng.integers(1, 5)), float(pick(rng, [1e-9, 1e-3, .05, .3, 1e3]))
            if long and chance(rng, .5):
                p = int(rng.integers(6, 16))
            kw = dict(patience=p, update_thresh=t)
            if chance(rng, .2):
                kw, p, t = {}, 5, 1e-4
            out.append((consensus_stagnation(**kw), StagnationRef(t, p)))
        elif name == 'loss':
            w = int(rng.integers(1, 5)) if chance(rng, .4 if long else .85) else int(rng.integers(5, 18 if long else 9))
            out.append((loss_update_resampling(wait_thresh=w), LossRef(w)) if chance(rng, .9) else (loss_update_resampling(), LossRef(5)))
        else:
            c = CustomRef(int(rng.integers(1, 4)), sorted(set(int(i) for i in rng.integers(0, M, int(rng.integers(1, M + 1))))))
            out.append((c, c))
    return out


def trace(ctx, rng):
    classes = ['CBO', 'CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'DriftConstrainedCBO', 'MirrorCBO']
    s = gen_spec(rng, classes=classes, max_M=5, steps=int(rng.integers(4, 12)) if chance(rng, .92) else int(rng.integers(20, 40)), alphas=[1., 50., 1e4])
    if s['cls'] == 'MirrorCBO':
        s['kw']['mirrormap'] = 'L2'
    if s['steps'] >= 15:        # ensembles should not explode
        if 'dt' in s['kw'] or s['cls'] != 'CBS':
            s['kw']['dt'] = float(pick(rng, [.05, .2]))
        s['kw'].update(lamda=1.)
    elif chance(rng, .25):
        s['kw']['dt'] = float(pick(rng, [1., 1.8, 4.]))
    if chance(rng, .12):        # energies of another magnitude: improvements are still improvements
        s['obj'].update(scale=float(pick(rng, [1e-11, 1e-14, 1e9])), offset=0.)
    if s['kw'].get('gamma') == 0.:      # explodes with large steps
        s['kw']['gamma'] = .8
    x0 = start(s)
    dead = rng.random(s['M']) < (.4 if chance(rng, .6) else 0.)
    x0[dead] = x0[dead][:, :1]               # collapsed runs do not move by themselves
    if dead.any() and s['kw']['noise'] == 'constant':
        s['kw']['noise'] = 'isotropic'
    stops = random_stops(rng, s['M'], s['steps'])
    crit = criteria(rng, s['M'], s['steps'] >= 15)
    sig = float(pick(rng, [.1, .01, 1.5]))
    var = 'y' if s['cls'] == 'MirrorCBO' and chance(rng, .5) else 'x'
    track = chance(rng, .6)
    smp = LogSampler(int(rng.integers(2**31)))
    custom = chance(rng, .1)
    applied = []

    def own(dyn, idx, sigma_indep=None, var_name=None):
        applied.append((np.array(idx), sigma_indep, var_name))
        getattr(dyn, var_name)[idx, ...] += sigma_indep
    kw = dict(sigma_indep=sig, var_name=var, track_best_consensus=track)
    if sig == .1 and chance(rng, .5):
        kw.pop('sigma_indep')
    if var == 'x' and chance(rng, .5):
        kw.pop('var_name')
    if custom:
        kw['apply'] = own
        ctx.seen('custom_apply')
    r = resampling([c for c, _ in crit], **kw)
    names = '+'.join(sorted(c.name for _, c in crit))
    ctx.describe(**brief(s), stops=stops, criteria=names, sigma_indep=sig, variable=var, tracked=track, collapsed=dead)
    f = objective(s)
    num = np.zeros(s['M'])
    best_e = np.full(s['M'], np.inf)
    best_c = {}
    hist = []

    def post(dyn):
        before = {k: getattr(dyn, k).copy() for k in ('x', 'y', 'v', 'energy') if hasattr(dyn, k) and getattr(dyn, k) is not None}
        n_eval, act = dyn.num_f_eval.copy(), np.array(dyn.active_runs_idx)
        want, amb = np.zeros(s['M'], bool), np.zeros(s['M'], bool)
        for _, ref in crit:
            w, a = ref.decide(dyn)
            want |= w
            amb |= a
            is_act = np.zeros(s['M'], bool)
            is_act[act] = True
            ctx.seen('fired:' + ref.name, (w & is_act).sum())
        if amb.any():
            ctx.seen('undecided')
        on = np.zeros(s['M'], bool)
        on[act] = True
        ctx.seen('frozen_candidates', (want & ~on).sum())
        want &= on
        smp.out.clear()
        applied.clear()
        r(dyn)
        v0, v1 = before[var], getattr(dyn, var)
        mv = moved(v1, v0).any(1)
        got = (np.asarray(r.num_resampling) - num) > 0
        where = f'iteration {dyn.it}, {names}'
        ctx.check(bool(np.isin(np.asarray(r.num_resampling) - num, (0, 1)).all()), 'counter', f'{where}: {r.num_resampling} after {num}')
        num[:] = np.asarray(r.num_resampling)
        ctx.check(not (got ^ mv).any(), 'counter-does-not-match-resampled-runs', f'{where}: counted {got}, moved {mv}', stop=True)
        ctx.check(not (got & ~on).any(), 'terminated-run-resampled', where, stop=True)
        if not ctx.check(not ((got ^ want) & ~amb).any(), 'wrong-runs-resampled', f'{where}: {np.where(got)[0]} instead of {np.where(want)[0]}', stop=True):
            return
        ctx.equal(v1[~got], v0[~got], 'other-run-changed', where)
        for k in before:
            if k != var:
                ctx.equal(getattr(dyn, k), before[k], 'other-variable-changed', f'{where} {k}')
        if got.any() and not custom:
            inc = np.sort(((v1 - v0)[got] / (sig * np.sqrt(dyn.dt))).ravel())
            pool = np.sort(np.concatenate(smp.out)) if smp.out else np.zeros(0)
            ok = len(pool) >= len(inc)
            if ok:
                if len(pool) == len(inc):
                    j = np.arange(len(inc))
                else:
                    j = np.clip(np.searchsorted(pool, inc), 0, len(pool) - 1)
                    j = np.where((j > 0) & (np.abs(pool[np.maximum(j - 1, 0)] - inc) < np.abs(pool[j] - inc)), j - 1, j)
                tol = 1e-6 + 1e-14 * np.abs(v0).max() / (sig * np.sqrt(dyn.dt))
                ok = tol > 1e-5 or bool((np.abs(pool[j] - inc) <= tol).all()) and len(np.unique(np.round(inc, 9))) == len(inc)
            ctx.check(ok, 'resampling-noise', f'{where}: increments / (sigma sqrt(dt)) are {inc[:4]}, the sampler gave {pool[:4]}')
            ctx.seen('noise_numbers', len(inc))
        if custom and got.any():
            ctx.check(len(applied) == 1 and np.array_equal(applied[0][0], np.where(got)[0]) and applied[0][1] == sig and applied[0][2] == var,
                      'custom-resampling-arguments', f'{where}: {applied}')
        # tracked best consensus
        spent = np.zeros(s['M'], int)
        if track and got.any():
            spent[got] = 1
            c = np.asarray(dyn.consensus)
            e = f(c)
            for m in np.where(got)[0]:
                row = int(np.where(act == m)[0][0])
                if e[row, 0] < best_e[m]:
                    best_e[m], best_c[m] = e[row, 0], c[row].copy()
                    ctx.seen('best_consensus_updates')
            be, bc = np.asarray(r.best_consensus_energy).reshape(-1), np.asarray(r.best_consensus)
            ctx.close(be, best_e, 'best-consensus-energy', where, rtol=1e-10, atol=1e-12 * s['obj']['scale'])
            for m in best_c:
                ctx.close(bc[m], best_c[m], 'best-consensus', f'{where} run {m}', rtol=1e-12, atol=1e-12)
            fin = np.isfinite(be)
            ctx.close(f(bc)[fin, 0], be[fin], 'best-consensus-energy-does-not-belong-to-it', where, rtol=1e-9, atol=1e-10 * s['obj']['scale'])
        ctx.equal(dyn.num_f_eval - n_eval, spent, 'evaluations', where)
        hist.append(tuple(got))
        ctx.seen('calls')
        ctx.seen('resampled_runs', got.sum())
        ctx.seen('kept_runs', (~got & on).sum())
        ctx.seen('repeated', (num > 1).any())
        if len(act) < s['M']:
            ctx.seen('calls_subset')

    dyn, _, _ = build(s, x=x0, sampler=smp, post_process=post, term_criteria=[PatternTerm(stops)])
    advance(dyn, smp, lambda pre: None, mode=pick(rng, ['loop', 'optimize']))
    ctx.sig(s['cls'], names, tuple(hist), len(s['d']), sig, var, track)


def indep(ctx, rng):
    """independent noise of the drift constrained dynamic"""
    s = gen_spec(rng, classes=['DriftConstrainedCBO'], max_M=5, steps=int(rng.integers(3, 9)))
    s['kw'].update(sigma_indep=float(pick(rng, [.3, 1., 3.])), eps_indep=float(pick(rng, [1e-4, 1e-3, .02])))
    if chance(rng, .2):
        s['kw']['dt'] = float(pick(rng, [1., 2.5]))
    x0 = start(s)
    dead = rng.random(s['M']) < .4
    x0[dead] = x0[dead][:, :1]
    if s['kw']['noise'] == 'constant':
        s['kw']['noise'] = 'isotropic'
    stops = random_stops(rng, s['M'], s['steps'])
    smp = LogSampler(int(rng.integers(2**31)))
    ctx.describe(**brief(s), stops=stops, collapsed=dead)
    dyn, _, _ = build(s, x=x0, sampler=smp, term_criteria=[PatternTerm(stops)])
    last = {}

    def before(pre):
        smp.out.clear()

    def on_step(pre):
        x0, x1 = pre['x'], np.asarray(dyn.x_old)          # before and after the independent noise
        mv = moved(x1, x0).any(1)
        act = pre['active']
        eps, sig, dt = s['kw']['eps_indep'], s['kw']['sigma_indep'], s['kw']['dt']
        where = f'iteration {pre["it"]}'
        for m in range(s['M']):
            if m not in act or m not in last:
                if ctx.check(not mv[m], 'independent-noise-without-reason', f'{where} run {m}'):
                    ctx.seen('indep_kept')
                continue
            cxd = lambda x: (((x[m] - last[m])**2).sum(-1)).mean() / s['d'][0]
            near = cxd(x0) < eps
            if abs(cxd(x0) / eps - 1) < 1e-9 or abs(cxd(x1) / eps - 1) < 1e-9:
                continue
            ctx.check(near == bool(mv[m]), 'independent-noise-in-wrong-run', f'{where} run {m}: spread {cxd(x0)} threshold {eps}')
            ctx.check(cxd(x1) >= eps, 'independent-noise-stopped-early', f'{where} run {m}: spread {cxd(x1)} threshold {eps}')
            ctx.seen('indep_runs' if near else 'indep_kept')
            if near:
                inc = ((x1 - x0)[m] / (sig * np.sqrt(dt))).ravel()
                pool = np.concatenate(smp.out)
                # one round of noise is exactly what the sampler gave out
                one = np.abs(pool[None] - inc[:, None]).min(1) < 1e-6 + 1e-13 * np.abs(x0).max() / (sig * np.sqrt(dt))
                if bool(one.all()):
                    ctx.seen('indep_one_round')
                    ctx.data.setdefault('one', [0, 0])[0] += 1
                ctx.data.setdefault('one', [0, 0])[1] += 1
        # numbers given out besides the noise of the step: one round of noise for every run that is near
        near_runs = [m for m in act if m in last and mv[m]]
        extra = sum(len(o) for o in smp.out) - np.size(dyn.drift)
        if near_runs and extra == len(near_runs) * x0[0].size:
            ctx.seen('indep_exact_rounds')
            inc = np.concatenate([((x1 - x0)[m] / (sig * np.sqrt(dt))).ravel() for m in near_runs])
            pool = np.concatenate(smp.out)
            tol = 1e-6 + 1e-13 * np.abs(x0).max() / (sig * np.sqrt(dt))
            ok = bool((np.abs(pool[None] - inc[:, None]).min(1) < tol).all()) and len(np.unique(np.round(inc, 9))) == len(inc)
            ctx.check(ok, 'independent-noise', f'{where} runs {near_runs}: increments / (sigma sqrt(dt)) are {inc[:4]}, the sampler gave {pool[:4]}')
        last.clear()
        for row, m in enumerate(act):
            last[int(m)] = np.asarray(dyn.consensus)[row].copy()
    advance(dyn, smp, on_step, before=before)
    ctx.sig('indep', s['M'], s['N'], s['d'], s['kw']['eps_indep'], s['kw']['sigma_indep'], tuple(dead))


def pool(ctx, rng):
    """large ensembles: scale and independence of the resampling noise"""
    M, N, d = 2, int(pick(rng, [2000, 4000])), int(pick(rng, [1, 3]))
    dt, sig = float(pick(rng, [.01, .25, 4.])), float(pick(rng, [.1, 2.]))
    x0 = rng.uniform(-1, 1, (M, N, d))
    r = resampling([lambda dyn: np.array([1])], sigma_indep=sig)
    dyn = cd.CBO(lambda x: (x**2).sum(-1), f_dim='3D', x=x0, dt=dt, verbosity=0, seed=int(rng.integers(2**31)))
    dyn.terminate()
    r(dyn)
    z = (dyn.x - x0) / (sig * np.sqrt(dt))
    ctx.check(not z[0].any(), 'other-run-changed', 'large ensemble')
    z = z[1]
    n = z.size
    ctx.check(abs(z.mean()) < 6 / np.sqrt(n) and abs(z.std() - 1) < 6 / np.sqrt(2 * n), 'resampling-noise-distribution',
              f'mean {z.mean()} standard deviation {z.std()} of {n} numbers')
    ctx.check(abs((z**3).mean()) < 6 * np.sqrt(15 / n) and abs((z**4).mean() - 3) < 6 * np.sqrt(96 / n), 'resampling-noise-distribution', 'moments')
    ctx.check(abs((z[1:] * z[:-1]).mean()) < 6 / np.sqrt(n), 'resampling-noise-distribution', 'correlated particles')
    if d > 1:
        ctx.check(abs((z[:, 0] * z[:, 1]).mean()) < 6 / np.sqrt(N), 'resampling-noise-distribution', 'correlated coordinates')
    ctx.seen('noise_pool', n)
    ctx.sig('pool', N, d, dt, sig)


def finish(ctx, data, counts):
    a = sum(v[0] for v in data.get('one', []))
    b = sum(v[1] for v in data.get('one', []))
    # most runs get spread by a single round of noise, whose increments are the numbers of the sampler
    if b >= 100:
        ctx.check(a > .05 * b, 'independent-noise-scale', f'only {a} of {b} noisy runs received numbers of the sampler')


FAMILIES = {'trace': (trace, 700), 'indep': (indep, 200), 'pool': (pool, 16)}
