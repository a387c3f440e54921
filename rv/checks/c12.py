"""C12: parameter schedulers follow their rule and respect their bounds."""
import copy

import numpy as np

from cbx.scheduler import scheduler, multiply, effective_sample_size, bisection_solve, param_update

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm, random_stops, BASE
from ..drive import advance
from ..ref import LD

RULE = ('(a) random histories of all dynamics with random lists of multiplicative schedules: the parameters observed at the start of '
        'every step are compared with the composition of the rules; (b) effective-sample-size schedules in histories and on random '
        'energies: the resulting alpha is judged by the effective sample size evaluated in extended precision; (c) the bisection '
        'solver on random non-increasing functions. Distinct by configuration / scheduler list / number of solvable runs.')
REQUIRE = {'scheduled_steps': 1000, 'capped': 100, 'ess_solvable': 300, 'ess_at_bound': 100, 'ess_in_history': 100,
           'bisection_runs': 500, 'untouched_parameters': 1000, 'default_schedules': 50, 'ess_torch': 30}
ASSUMPTIONS = ['the bisection stops at its tolerance (1e-2 in the effective sample size) or at its maximal number of iterations, '
               'i.e. with an interval of length (max-min)/2^n']

PARAMS = ['alpha', 'sigma', 'lamda', 'dt', 'kappa', 'lamda_memory', 'sigma_memory', 'gamma', 'eps', 'correction_eps']


def params(dyn):
    return {p: copy.deepcopy(getattr(dyn, p)) for p in PARAMS if hasattr(dyn, p)}


class Probe(param_update):
    """a user defined schedule"""

    def __init__(self):
        super().__init__(name='alpha')
        self.its = []

    def update(self, dyn):
        self.its.append(dyn.it)


def rule(v, m):
    return np.minimum(m['maximum'], m['factor'] * np.asarray(v, dtype=float))


def history(ctx, rng):
    s = gen_spec(rng, classes=BASE, indep=False)
    names = [p for p in ['alpha', 'sigma', 'lamda', 'dt'] + (['kappa'] if s['cls'] == 'PolarCBO' else []) +
             (['lamda_memory', 'sigma_memory'] if s['cls'] in ('CBOMemory', 'PSO') else [])]
    kind = pick(rng, ['list', 'list', 'list', 'single', 'default', 'none'])
    rules = []
    if kind in ('list', 'single'):
        for _ in range(1 if kind == 'single' else int(rng.integers(0, 5))):
            r = dict(name=str(pick(rng, names)), factor=float(pick(rng, [.5, .9, 1., 1.05, 1.5, 3., 3., 1e-4, 1e3])))
            if chance(rng, .5):
                r['maximum'] = float(pick(rng, [.3, 1., 2., 30.]))
            rules.append(r)
    probe = Probe()
    upd = [multiply(**r) for r in rules]
    pos = int(rng.integers(0, len(upd) + 1))
    if kind == 'single':
        sched = upd[0]
    elif kind == 'default':
        sched = 'default'
        rules = [] if s['cls'] == 'CBS' else [dict(name='alpha', factor=1.05)]
        ctx.seen('default_schedules')
    elif kind == 'none':
        sched = None
    else:
        sched = scheduler(upd[:pos] + [probe] + upd[pos:])
    if kind == 'single' and s['cls'] == 'CBS':
        sched = scheduler(upd)
    rules = [dict(dict(maximum=1e5), **r) for r in rules]
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), sched=kind, rules=rules, stops=stops)
    want = [params(dyn)]
    mode = pick(rng, ['loop', 'optimize', 'optimize'])

    def before(pre):
        now = params(dyn)
        for p in now:
            ctx.close(np.broadcast_to(now[p], np.broadcast(now[p], want[0][p]).shape) * 1.,
                      np.broadcast_to(want[0][p], np.broadcast(now[p], want[0][p]).shape) * 1., 'schedule',
                      f'{p} at iteration {dyn.it}', rtol=1e-12, atol=0.)
            if not any(r['name'] == p for r in rules):
                ctx.seen('untouched_parameters')

    def on_step(pre):
        # nothing is scheduled during the step itself
        now = params(dyn)
        for p in now:
            ctx.check(np.array_equal(now[p], want[0][p]) or np.allclose(now[p], want[0][p], rtol=1e-12, atol=0), 'schedule',
                      f'{p} changed during a step')
        for r in rules:
            v = rule(want[0][r['name']], r)
            if (v >= r['maximum']).any():
                ctx.seen('capped')
            want[0][r['name']] = v
        ctx.seen('scheduled_steps')
    n, _ = advance(dyn, smp, on_step, mode=mode, sched=sched, before=before)
    before(None)
    for r in rules:
        if n:
            ctx.check(bool((np.asarray(getattr(dyn, r['name'])) <= max(q['maximum'] for q in rules if q['name'] == r['name']) * (
                1 + 1e-12)).all()), 'maximum-exceeded', r['name'])
    if kind == 'list':
        ctx.check(probe.its == list(range(1, n + 1)), 'updates-per-iteration', f'{probe.its} for {n} iterations')
    if n:
        ctx.sig(s['cls'], kind, tuple((r['name'], r['factor'], r['maximum']) for r in rules), mode)


def ess(energy, alpha):
    """effective sample size of one run in extended precision"""
    e = np.asarray(energy, dtype=LD)
    w = np.exp(-LD(alpha) * (e - e.min()))
    return float(w.sum()**2 / (w**2).sum())


def judge(ctx, energy, alpha, eta, lo, hi, max_it, when, tol=1e-2):
    """alpha (M,1) after the update"""
    M, N = energy.shape
    alpha = np.asarray(alpha, dtype=float)
    if not ctx.check(alpha.shape == (M, 1), 'alpha-shape', f'{when}: {alpha.shape}'):
        return
    res = (hi - lo) / 2.**max_it * 1.001 + 1e-9 * hi * (alpha.dtype == np.float64)
    for m in range(M):
        a = float(alpha[m, 0])
        ctx.check(lo * (1 - 1e-6) <= a <= hi * (1 + 1e-6), 'alpha-out-of-bounds', f'{when}: run {m}: {a} not in [{lo}, {hi}]')
        J_lo, J_hi = ess(energy[m], lo), ess(energy[m], hi)
        want = eta * N
        d = 1e-6 * N
        if J_lo < want - tol:
            ctx.seen('ess_at_bound')
            ctx.check(a <= lo + res, 'alpha-not-at-bound', f'{when}: run {m}: {a}, even the lower bound {lo} has {J_lo} < {want}')
        elif J_hi > want + tol:
            ctx.seen('ess_at_bound')
            ctx.check(a >= hi - res, 'alpha-not-at-bound', f'{when}: run {m}: {a}, even the upper bound {hi} has {J_hi} > {want}')
        elif J_lo > want + tol and J_hi < want - tol:
            ctx.seen('ess_solvable')
            J = ess(energy[m], a)
            ok = abs(J - want) <= tol + d or (ess(energy[m], max(lo, a - res)) >= want - d and ess(energy[m], a + res) <= want + d)
            ctx.check(ok, 'effective-sample-size', f'{when}: run {m}: alpha {a} has {J} instead of {want}')


class Stub:
    pass


def ess_direct(ctx, rng):
    M, N = sz(rng, 1, 6, BM), sz(rng, 1, 30, BN)
    scale = 10.**rng.uniform(-6, 4 if chance(rng, .8) else 9, size=(M, 1))
    kind = pick(rng, ['normal', 'uniform', 'ties', 'offset', 'inf'])
    e = rng.standard_normal((M, N)) * scale
    if kind == 'uniform':
        e = np.abs(e)
    elif kind == 'ties':
        e = np.round(e / scale) * scale
    elif kind == 'offset':
        e = e + 10.**rng.uniform(1, 14) * scale
    elif kind == 'inf' and N > 1:
        e[:, 1:] = np.where(rng.random((M, N - 1)) < .3, np.inf, e[:, 1:])
    eta = float(pick(rng, [.1, .5, .5, .8, .95, 1.]))
    hi = float(pick(rng, [1e5, 1e5, 10., 1e3, 1e8]))
    mi = int(pick(rng, [15, 15, 5, 40, 60]))
    torch_v = chance(rng, .2)
    lo = 1e-5
    ctx.describe(M=M, N=N, kind=kind, eta=eta, maximum=hi, solve_max_it=mi, torch=torch_v)
    d = Stub()
    d.M, d.N, d.energy = M, N, e.copy()
    d.sigma = .3
    if torch_v:
        import torch
        from cbx.utils.torch_utils import effective_sample_size as ess_torch
        d.x = torch.zeros(M, N, 1, dtype=torch.float64)
        d.alpha = torch.ones(M, 1, dtype=torch.float64)
        lo = float(pick(rng, [1e-5, 1e-2]))
        if chance(rng, .2):
            eta, hi, mi, lo = .5, 1e5, 15, 1e-5
            u = ess_torch()
        else:
            u = ess_torch(eta=eta, maximum=hi, solve_max_it=mi, minimum=lo)
        u.update(d)
        ctx.check(isinstance(d.alpha, torch.Tensor), 'alpha-not-a-tensor')
        alpha = d.alpha.numpy()
        ctx.seen('ess_torch')
    else:
        d.alpha = float(pick(rng, [1., 1., 1e7, 1e-8])) * np.ones((M, 1))
        if chance(rng, .1):
            eta, hi, mi = .5, 1e5, 15
            u = effective_sample_size()
        else:
            u = effective_sample_size(eta=eta, maximum=hi, solve_max_it=mi)
        for _ in range(int(rng.integers(1, 3))):
            u.update(d)
        alpha = d.alpha
    ctx.equal(d.energy, e, 'energies-modified')
    ctx.check(d.sigma == .3, 'other-parameter-changed')
    judge(ctx, e, alpha, eta, lo, hi, mi, 'direct')
    ctx.sig('ess', kind, eta, hi, mi, torch_v, M, N)


def ess_history(ctx, rng):
    s = gen_spec(rng, classes=['CBO', 'PolarCBO', 'AdamCBO', 'CBOMemory', 'DriftConstrainedCBO', 'CBS'], max_N=20)
    eta = float(pick(rng, [.3, .5, .8]))
    hi = float(pick(rng, [1e5, 50.]))
    byname = chance(rng, .3) and s['cls'] != 'CBS'
    sched = 'effective' if byname else scheduler([effective_sample_size(eta=eta, maximum=hi)])
    if byname:
        eta, hi = .5, 1e5
    if chance(rng, .3):
        # weights outside of the bounds to start with
        a0 = float(pick(rng, [1e-7, 1e-9, 1e7]))
        s['kw']['alpha'] = np.full((s['M'], 1), a0) if chance(rng, .6) else a0
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), eta=eta, maximum=hi, byname=byname)
    seen = [None]

    def before(pre):
        if seen[0] is not None:
            fin = np.isfinite(seen[0]).all(axis=1)      # runs that were evaluated
            if fin.all():
                judge(ctx, seen[0], dyn.alpha, eta, 1e-5, hi, 15, f'iteration {dyn.it}')
                ctx.seen('ess_in_history')

    def on_step(pre):
        ctx.equal(np.asarray(dyn.alpha), np.asarray(pre['alpha']), 'schedule', 'alpha changed during a step')
        seen[0] = np.array(dyn.energy)
    advance(dyn, smp, on_step, mode='optimize', sched=sched, before=before)
    before(None)
    ctx.sig(*signature(s), eta, hi)


def bisection(ctx, rng):
    M = sz(rng, 1, 7, BM)
    lo = rng.uniform(-50, 50, size=M) * 10.**rng.integers(-3, 4)
    L = 10.**rng.uniform(-3, 5, size=M)
    hi = lo + L
    r = lo + L * np.where(rng.random(M) < .1, rng.integers(0, 2, M), rng.random(M))
    sl = 10.**rng.uniform(-3, 3, size=M)
    kinds = rng.integers(0, 6, size=M)
    thresh = float(pick(rng, [1e-2, 1e-2, 1e-8, 1.]))
    max_it = int(pick(rng, [100, 100, 30, 10, 60]))
    shapes = []

    def f(x):
        shapes.append(np.shape(x))
        u = (x - r) / L
        out = np.empty(M)
        for m in range(M):
            v = u[m]
            k = kinds[m]
            out[m] = [-v, -np.sign(v) * np.abs(v)**3, -np.arctan(20 * v), -np.floor(8 * v), -np.expm1(np.clip(3 * v, -50, 50)),
                      0. if abs(v) < .2 else -v][k]
        return sl * out
    a, b = lo.copy(), hi.copy()
    kw = {}
    if not (thresh == 1e-2 and max_it == 100 and chance(rng, .5)):
        kw = dict(thresh=thresh, max_it=max_it)
    ctx.describe(M=M, kinds=kinds, thresh=thresh, max_it=max_it)
    x = bisection_solve(f, a, b, **kw)
    ctx.check(np.shape(x) == (M,), 'root-shape', str(np.shape(x)), stop=True)
    ctx.check(all(t == (M,) for t in shapes), 'argument-shape', str(set(shapes)))
    ctx.check(len(shapes) <= max_it + 2, 'too-many-evaluations', f'{len(shapes)} for max_it {max_it}')
    fx = f(x)
    res = L / 2.**max_it * 1.001 + 1e-9 * (np.abs(lo) + np.abs(hi))
    fl, fr = f(np.maximum(lo, x - res)), f(np.minimum(hi, x + res))
    eps = 1e-7 * sl
    for m in range(M):
        ctx.seen('bisection_runs')
        ok = abs(fx[m]) <= thresh or (fl[m] >= -eps[m] and fr[m] <= eps[m])
        ctx.check(bool(ok), 'root', f'run {m} kind {kinds[m]}: f({x[m]}) = {fx[m]}, root {r[m]} in [{lo[m]}, {hi[m]}]')
        ctx.check(lo[m] <= x[m] <= hi[m], 'root-outside-of-bracket', f'run {m}')
    ctx.sig('bisection', M, thresh, max_it, tuple(kinds))


FAMILIES = {'history': (history, 900), 'ess': (ess_direct, 300), 'ess_history': (ess_history, 200), 'bisection': (bisection, 200)}
