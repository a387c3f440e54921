"""C25: noise terms have the documented scaling and distribution."""
import numpy as np
from scipy import stats

import cbx.dynamics as cd
from cbx.noise import exponential_sampler

from ..core import Inconclusive
from ..drive import advance
from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, random_stops, PatternTerm
from ..ref import mat_sqrt, gibbs_weights, kernel_neg_log, expand

RULE = ('every noise term computed during random histories of all dynamics (noise model x norm x sampler x shape x batch x active '
        'subset) is compared with the formula of its model at the drift of that moment and the numbers drawn for it; scaling in dt '
        'and drift; large ensembles with the built-in samplers: standardised noise against the law, correlations between '
        'coordinates, particles, runs, steps and the two terms of the memory variants; signatures = configuration x model')
REQUIRE = {'terms': 2000, 'isotropic': 200, 'anisotropic': 200, 'constant': 200, 'covariance': 200, 'polar_covariance': 40,
           'optimization_mode': 30, 'subset': 100, 'batched': 100, 'multi_axis': 80, 'custom_norm': 60, 'large_energies': 60,
           'zero_drift': 60, 'scaling': 200, 'law_samples': 100000, 'laws': 20, 'two_terms': 5, 'laplace': 3}
ASSUMPTIONS = ['covariance noise is judged for partial batches only (energies of particles outside of the batch are stale)',
               'distribution tests reject at p < 1e-9, so that a correct sampler does not fail them in practice']
PLAIN = ['CBO', 'AdamCBO', 'PolarCBO', 'CBS', 'MirrorCBO', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'CBOMemory', 'PSO',
         'RegCombinationCBO']


class LogSampler:
    """standard normals; remembers what was drawn"""
    def __init__(self, rng):
        self.rng, self.log = rng, []

    def __call__(self, size=None):
        z = self.rng.standard_normal(size)
        self.log.append(np.array(z))
        return z


class NoiseMonitor:
    """stands between the dynamic and its noise model"""
    def __init__(self, dyn, inner, before, after):
        self.dyn, self.inner, self.before, self.after = dyn, inner, before, after
        self.calls = 0

    def __call__(self, dyn):
        self.calls += 1
        st = self.before(dyn)
        n = self.inner(dyn)
        self.after(dyn, st, n)
        return n

    def __getattr__(self, name):
        return getattr(self.inner, name)


def norm_p(p):
    def f(a, axis=-1, **kw):
        return (np.abs(a)**p).sum(axis=axis)**(1 / p)
    return f


def formula(kind, drift, dt, z, norm=None, S=None, alpha=None, mode='sampling'):
    if kind == 'isotropic':
        flat = drift.reshape(drift.shape[:2] + (-1,))
        return np.sqrt(dt) * expand(norm(flat, axis=-1), drift.ndim) * z
    if kind == 'anisotropic':
        return np.sqrt(dt) * drift * z
    if kind == 'constant':
        return np.sqrt(dt) * z
    n = np.einsum('kij,knj->kni' if S.ndim == 3 else 'knij,knj->kni', S, z)
    fac = 2 * dt * (1 + alpha[:, :, None]) if mode == 'sampling' else 2 * dt
    return np.sqrt(fac) * n


def case(ctx, rng):
    cls = pick(rng, PLAIN)
    cov = cls in ('CBO', 'AdamCBO', 'PolarCBO', 'CBS', 'MirrorCBO', 'DriftConstrainedCBO') and (chance(rng, .45) or cls == 'CBS')
    s = gen_spec(rng, classes=[cls], noises=None if cov else ['isotropic', 'anisotropic', 'constant'], multi=False if cov else None,
                 batch=False if cov else None, indep=False)
    kw = s['kw']
    if cov:
        kw['noise'] = pick(rng, ['covariance', 'sampling'])
        kw.pop('batch_args', None)
        if s['N'] > 2 and chance(rng, .4) and cls != 'CBS':
            kw['batch_args'] = dict(size=int(rng.integers(2, s['N'] + 1)), partial=True, seed=int(rng.integers(99)),
                                    var=pick(rng, ['resample', 'concat']))
        if cls == 'MirrorCBO' and 'correction' in kw:
            kw['correction'] = 'no_correction'
        if cls == 'PolarCBO' and kw['kernel'] == 'Constant':
            kw['kernel'] = 'Gaussian'
    kind = 'covariance' if kw['noise'] == 'sampling' else kw['noise']
    large = chance(rng, .2)
    if large:
        s['obj']['scale'] = float(pick(rng, [1e3, 1e6]))
        s['obj']['offset'] = float(pick(rng, [0., 1e6, -1e5]))
        ctx.seen('large_energies')
    if chance(rng, .1):
        s['x_kind'] = 'point'
    stops = random_stops(rng, s['M'], s['steps'])
    over = {'term_criteria': [PatternTerm(stops)]}
    norm = np.linalg.norm
    if kind == 'isotropic' and cls not in ('HyperSurfaceCBO',) and chance(rng, .3):
        norm = norm_p(float(pick(rng, [1., 3., 4.])))
        over['norm'] = norm
        ctx.seen('custom_norm')
    smp = LogSampler(np.random.default_rng(s['noise_seed']))
    x = None
    if s['x_kind'] == 'point':
        s['x_kind'] = 'uniform'
        from ..gen import start
        x = start(s)
        x[...] = x[:, :1]
        ctx.describe(start='one point')
    dyn, rec, _ = build(s, x=x, sampler=smp, **over)
    ctx.describe(**brief(s), stops=stops.tolist(), scale=s['obj']['scale'], norm=norm is not np.linalg.norm)
    mode = kw.get('mode', 'sampling')
    polar = cls == 'PolarCBO' and kind == 'covariance'
    f = lambda p: rec.f(p)  # noqa: E731

    def before(dyn):
        smp.log.clear()
        return dict(drift=np.array(dyn.drift), dt=dyn.dt, x=dyn.x.copy(), act=np.array(dyn.active_runs_idx))

    def after(dyn, st, n):
        drift, dt, act = st['drift'], st['dt'], st['act']
        n = np.asarray(n)
        ctx.seen('terms')
        ctx.seen(kind)
        ctx.seen('subset', len(act) < s['M'])
        ctx.seen('batched', dyn.batch_size < s['N'])
        ctx.seen('multi_axis', drift.ndim > 3)
        ctx.check(np.array_equal(dyn.drift, drift, equal_nan=True) and np.array_equal(dyn.x, st['x'], equal_nan=True), 'noise-changes-state')
        ctx.check(n.shape == drift.shape, 'noise-shape', f'{n.shape} for a drift of shape {drift.shape}', stop=True)
        if len(act) == 0:
            return
        drawn = sum(z.size for z in smp.log)
        ctx.check(drawn == drift.size, 'number-of-draws', f'{drawn} numbers of the configured sampler for {drift.size} coordinates', stop=True)
        z = smp.log[0] if len(smp.log) == 1 else np.concatenate([a.ravel() for a in smp.log])
        z = z.reshape(drift.shape)
        a, S = None, None
        if kind == 'covariance':
            a = np.asarray(dyn.alpha)[act]
            if polar:
                ctx.seen('polar_covariance')
                xc, xp = st['x'][dyn.consensus_idx], st['x'][dyn.particle_idx]
                K = kernel_neg_log(kw['kernel'], kw['kappa'], xp, xc)
                fac = 1. if kw['kernel_factor_mode'] == 'const' else a[:, :, None]
                w = gibbs_weights(f(xc)[:, None, :], a[:, :, None], fac * K).astype(float)
                D = xc[:, None] - np.einsum('kij,kja->kia', w, xc)[:, :, None]
                C = np.einsum('kij,kija,kijb->kiab', w, D, D)
            else:
                xc = st['x'][dyn.consensus_idx]
                w = gibbs_weights(f(xc), a).astype(float)
                D = xc - np.einsum('kj,kja->ka', w, xc)[:, None] if dyn_plain(kw) else drift
                C = np.einsum('kj,kja,kjb->kab', w, D, D)
            S = mat_sqrt(C)
            ctx.seen('optimization_mode', mode == 'optimization')
        exp = formula(kind, drift, dt, z, norm, S, a, mode)
        if not np.isfinite(exp).all():
            return
        scale = max(1e-300, np.abs(exp).max(), np.abs(drift).max())
        size = max(1., np.abs(st['x']).max())
        if kind == 'covariance':
            # the square root amplifies rounding of a degenerate covariance
            tol = 1e-6 * scale + 1e-7 * size * np.sqrt(dt * (1 + np.max(a))) * (1 + np.abs(z).max())
            if large:
                tol = tol + 1e-5 * size * np.sqrt(dt * (1 + np.max(a)))
        else:
            tol = 1e-9 * scale
        ctx.close(n, exp, 'noise-formula', f'{kind}', rtol=1e-9, atol=tol)
        flat = np.abs(drift).reshape(drift.shape[:2] + (-1,))
        if kind in ('isotropic', 'anisotropic'):
            dead = flat.max(-1) == 0
            if dead.any():
                ctx.seen('zero_drift', int(dead.sum()))
                ctx.check((n[dead] == 0).all(), 'noise-without-drift', kind)
        ctx.sig(*signature(s), kind, mode, large, norm is not np.linalg.norm, len(act) < s['M'])
    mon = NoiseMonitor(dyn, dyn.noise_callable, before, after)
    dyn.noise_callable = mon
    n, _ = advance(dyn, None, lambda pre: None, mode=pick(rng, ['loop', 'optimize']) if cls != 'CBS' else 'loop',
                   sched=param_sched(rng, 'dt', *(() if cls == 'CBS' else ('lamda', 'sigma')), default=.5))
    if mon.calls == 0 and n > 0:
        raise Inconclusive('the noise model was not used')


def dyn_plain(kw):
    return kw.get('correction', 'no_correction') == 'no_correction'


class Still:
    """sampler that repeats the same numbers"""
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, size=None):
        return np.random.default_rng(self.seed).standard_normal(size)


def scaling(ctx, rng):
    """same numbers, other time step / drift / position"""
    cls = pick(rng, ['CBO', 'CBO', 'AdamCBO', 'MirrorCBO', 'CBS', 'PolarCBO'])
    s = gen_spec(rng, classes=[cls], batch=False, multi=False if cls == 'CBS' else None)
    s['kw'].pop('correction', None)
    if cls == 'CBO' and len(s['d']) == 1 and chance(rng, .3):
        s['kw']['noise'] = 'covariance'
    kind = s['kw']['noise']
    seed = int(rng.integers(2**31))

    def first(**over):
        got = []
        s2 = dict(s, kw=dict(s['kw'], **{k: v for k, v in over.items() if k not in ('x',)}))
        dyn, rec, _ = build(s2, x=over.get('x'), sampler=Still(seed))
        dyn.noise_callable = NoiseMonitor(dyn, dyn.noise_callable, lambda d: None, lambda d, st, n: got.append(np.array(n)))
        dyn.step()
        if not got:
            raise Inconclusive('the noise model was not used')
        return got[0], dyn
    dt = s['kw']['dt']
    q = float(pick(rng, [4., .25, 9., 2.]))
    ctx.describe(**brief(s), factor=q)
    a, dyn = first()
    b, _ = first(dt=dt * q)
    sc = max(np.abs(a).max(), np.abs(b).max(), 1e-12)
    ctx.seen('scaling')
    if np.isfinite(a).all():
        ctx.close(b, np.sqrt(q) * a, 'time-step-scaling', f'{kind} dt {dt} -> {dt * q}', rtol=1e-9, atol=1e-9 * sc)
    ctx.sig('scaling', cls, kind, s['M'] > 1, len(s['d']), q)


class Gap:
    """large ensembles: sum of squared distances"""
    def value(self, z):
        return (z**2).sum(-1)

    def __call__(self, x):
        return self.value(x.reshape(x.shape[:2] + (-1,)))


PMIN = 1e-9


def law(ctx, rng):
    """built-in samplers: independence and normality of the standardised noise"""
    cls = pick(rng, ['CBO', 'CBO', 'PSO', 'CBOMemory', 'MirrorCBO', 'AdamCBO', 'CBS', 'PolarCBO'])
    d = pick(rng, [(1,), (2,), (3,), (2, 2)]) if cls not in ('CBS',) else (2,)
    M, N = pick(rng, [(1, 1500), (2, 800), (3, 500)])
    if cls == 'PolarCBO':
        M, N = pick(rng, [(1, 300), (2, 200)])
    kind = pick(rng, ['isotropic', 'anisotropic', 'constant'])
    if cls == 'CBS' or (cls == 'CBO' and len(d) == 1 and chance(rng, .3)):
        kind = 'covariance'
    if cls in ('CBOMemory', 'PSO'):
        kind = 'constant'       # the memory drift may vanish
    smp = pick(rng, ['default', 'default', 'seed', 'laplace'])
    kw = dict(seed=int(rng.integers(1000))) if smp == 'seed' else (dict(sampler=exponential_sampler()) if smp == 'laplace' else {})
    x = rng.uniform(-1, 1, (M, N) + d)
    stop = np.full(M, 3)
    if M > 1 and chance(rng, .5):
        stop[int(rng.integers(M))] = 1
    al = 1.
    dyn = getattr(cd, cls)(Gap(), f_dim='3D', x=x, noise=kind, verbosity=0, dt=.1, sigma=.3, alpha=al,
                           term_criteria=[PatternTerm(stop)], **({'mirrormap': 'L2'} if cls == 'MirrorCBO' else {}), **kw)
    ctx.describe(cls=cls, d=list(d), M=M, N=N, kind=kind, sampler=smp, stops=stop.tolist())
    draws = []

    def after(dyn, st, n):
        drift, n = np.array(dyn.drift), np.asarray(n)
        k = drift.shape[0]
        if kind == 'isotropic':
            z = n / (np.sqrt(.1) * expand(np.sqrt((drift.reshape(k, N, -1)**2).sum(-1)), n.ndim))
        elif kind == 'anisotropic':
            z = n / (np.sqrt(.1) * drift)
        elif kind == 'constant':
            z = n / np.sqrt(.1)
        else:
            xc = np.asarray(dyn.x)[dyn.consensus_idx]
            w = gibbs_weights(Gap()(xc), np.full((k, 1), al)).astype(float)
            D = xc - np.einsum('kj,kja->ka', w, xc)[:, None]
            S = mat_sqrt(np.einsum('kj,kja,kjb->kab', w, D, D))
            z = np.linalg.solve(S[:, None], (n / np.sqrt(2 * .1 * (1 + al)))[..., None])[..., 0]
        draws.append((dyn.it, np.array(dyn.active_runs_idx), z.reshape(k, N, -1)))
    dyn.noise_callable = NoiseMonitor(dyn, dyn.noise_callable, lambda d: None, after)
    while not dyn.terminate():
        dyn.step()
    if not draws:
        raise Inconclusive('the noise model was not used')
    ctx.seen('laws')
    Z = np.concatenate([z.ravel() for _, _, z in draws])
    ctx.check(np.isfinite(Z).all(), 'noise-not-finite', stop=True)
    n = Z.size
    ctx.seen('law_samples', n)
    if smp == 'laplace' and kind != 'covariance':
        ctx.seen('laplace')
        p = stats.kstest(Z, 'laplace').pvalue
        ctx.check(p > PMIN, 'distribution', f'noise of the two-sided exponential sampler is not Laplace distributed: p={p:.2e}, mean '
                  f'{Z.mean():.3f}, variance {Z.var():.3f}')
        var = 2.
    elif smp != 'laplace':
        p = stats.kstest(Z, 'norm').pvalue
        ctx.check(p > PMIN, 'distribution', f'standardised {kind} noise is not standard normal: p={p:.2e}, mean {Z.mean():.4f}, '
                  f'variance {Z.var():.4f}')
        var = 1.
    else:
        var = 2.
    # correlations at z > 6.5 sigma
    def corr(a, b, what):
        a, b = a.ravel(), b.ravel()
        r = (a * b).sum() / np.sqrt((a**2 * b**2).sum() + 1e-300)
        ctx.check(abs(r) < 6.5, 'dependence', f'{what}: correlation {np.corrcoef(a, b)[0, 1]:.3f} over {a.size} pairs ({kind}, {smp})')
        same = np.mean(np.abs(a - b) < 1e-12)
        ctx.check(same < .01, 'dependence', f'{what}: {same:.0%} of the samples are equal')
        sa, sb = np.abs(a), np.abs(b)
        ctx.check(np.mean(np.abs(sa - sb) < 1e-12) < .01, 'dependence', f'{what}: equal up to the sign')
    for i, (it, act, z) in enumerate(draws):
        if z.shape[-1] > 1:
            corr(z[..., 0], z[..., 1], 'first two coordinates')
            corr(z[..., 0], z[..., -1], 'first and last coordinate')
        corr(z[:, :-1], z[:, 1:], 'neighbouring particles')
        if z.shape[0] > 1:
            corr(z[0], z[-1], 'two runs')
        if i + 1 < len(draws):
            it2, act2, z2 = draws[i + 1]
            both = np.intersect1d(act, act2)
            if len(both):
                corr(z[np.isin(act, both)], z2[np.isin(act2, both)],
                     'the two terms of one step' if it == it2 else 'consecutive steps')
                ctx.seen('two_terms', it == it2)
    ctx.sig(cls, d, kind, smp, M, (stop < 3).any())


FAMILIES = {'terms': (case, 1500), 'scaling': (scaling, 300), 'law': (law, 48)}
