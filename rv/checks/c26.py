"""C26: optimizers converge and samplers sample on reference problems."""
import numpy as np

import cbx.dynamics as cd

from ..drive import advance
from ..gen import gen_spec, build, pick, chance, brief, signature, random_stops, PatternTerm, start
from ..ref import kernel_neg_log  # noqa: F401

RULE = ('fixed families of reference problems (sphere, Ackley, Rastrigin; constrained quadratics; Gaussian targets) solved by every '
        'dynamic with recommended parameters from random starts: rate of runs whose best energy / consensus reaches the minimum, '
        'judged over all runs of a family; noiseless histories of the consensus dynamics: the bounding box of a run never grows and '
        'plain runs contract with the exact factor; signatures = configuration x problem x dimension')
REQUIRE = {'runs': 1500, 'contracting_steps': 1000, 'exact_contraction': 200, 'sampling_runs': 20, 'constrained_runs': 100}
ASSUMPTIONS = ['"almost every run" is judged by rates far below the ones of the reference (0.8 instead of at least 0.95), over at '
               'least 40 runs of a configuration']


class Prob:
    def __init__(self, kind, xs):
        self.kind, self.xs = kind, xs

    def value(self, x):
        u = x - self.xs
        n = u.shape[-1]
        if self.kind == 'sphere':
            return (u**2).sum(-1)
        if self.kind == 'ackley':
            return -20 * np.exp(-.2 * np.sqrt((u**2).sum(-1) / n)) - np.exp(np.cos(2 * np.pi * u).sum(-1) / n) + 20 + np.e
        return (u**2 - 2.5 * np.cos(2 * np.pi * u) + 2.5).sum(-1)

    def __call__(self, x):
        return self.value(x.reshape(x.shape[:2] + (-1,)))


ANI = dict(noise='anisotropic', dt=.1, alpha=30.)
CFG = {
    'CBO-isotropic': ('CBO', dict(ANI, noise='isotropic', sigma=.7)),
    'CBO-anisotropic': ('CBO', dict(ANI, sigma=1.5)),
    'CBO-batches': ('CBO', dict(ANI, sigma=1.5, batch_args=dict(size=25, partial=True))),
    'CBO-batches-full': ('CBO', dict(ANI, sigma=1.5, batch_args=dict(size=25, partial=False))),
    'CBO-heavi_side': ('CBO', dict(ANI, sigma=1.5, correction='heavi_side')),
    'CBO-scheduled': ('CBO', dict(ANI, sigma=1.5, alpha=5.)),
    'AdamCBO': ('AdamCBO', dict(ANI, sigma=1., lamda=.1)),
    'CBOMemory': ('CBOMemory', dict(ANI, sigma=1., lamda_memory=.4)),
    'PSO': ('PSO', dict(ANI, sigma=1., m=.1)),
    'PolarCBO': ('PolarCBO', dict(ANI, sigma=1., kappa=1., kernel_factor_mode='const')),
    'PolarCBO-Laplace': ('PolarCBO', dict(ANI, sigma=1., kernel='Laplace', kappa=.5, kernel_factor_mode='const')),
    'CBS': ('CBS', dict(mode='optimization', dt=.1, alpha=10.)),
    'MirrorCBO-L2': ('MirrorCBO', dict(ANI, sigma=1.5, mirrormap='L2')),
    'MirrorCBO-ball': ('MirrorCBO', dict(ANI, sigma=1.5, mirrormap={'name': 'ProjectionBall', 'radius': 2.})),
    'MirrorCBO-box': ('MirrorCBO', dict(ANI, sigma=2., lamda=1., dt=.2, mirrormap='NonsmoothBarrier')),
    'DriftConstrainedCBO': ('DriftConstrainedCBO', dict(ANI, sigma=1.)),
    'RegCombinationCBO': ('RegCombinationCBO', dict(ANI, sigma=1.)),
}
KINDS = ['sphere', 'ackley', 'rastrigin']
GAP = .05


def best_of(dyn):
    return np.asarray(dyn.best_energy, dtype=float)


def solve(ctx, rng):
    name = pick(rng, list(CFG))
    cls, kw = CFG[name]
    kind, d = pick(rng, KINDS), int(pick(rng, [1, 2]))
    f = Prob(kind, rng.uniform(-.7, .7, d))
    M, N = 4, 50
    lim = .95 if name == 'MirrorCBO-box' else 2.
    x = rng.uniform(-lim, lim, (M, N, d))
    seed = int(rng.integers(2**31))
    dyn = getattr(cd, cls)(f, f_dim='3D', x=x, seed=seed, verbosity=0, max_it=100, **kw)
    ctx.describe(config=name, problem=kind, d=d, seed=seed)
    early = []
    orig = dyn.post_process

    def pp(dyn):
        orig(dyn)
        if dyn.it == 10:
            early.append(best_of(dyn).copy())
    dyn.post_process = pp
    res = dyn.optimize(sched='default' if name == 'CBO-scheduled' else None)
    best = best_of(dyn)
    ctx.check(np.isfinite(best).all(), 'best-energy-not-finite', f'{name} on {kind}: {best}', stop=True)
    ctx.check((best >= -1e-9).all(), 'below-minimum', f'{name} on {kind}: best energy {best}')
    if early:
        ctx.check((best <= early[0]).all(), 'best-energy-increases', f'{name}: {early[0]} -> {best}')
        ctx.data.setdefault('early', []).append((name, float(np.mean(np.log10(early[0] + 1e-8))), float(np.mean(np.log10(best + 1e-8)))))
    ok = best < (4 * GAP if name == 'MirrorCBO-box' else GAP)
    c = np.asarray(dyn.consensus)
    at = np.linalg.norm(c.reshape(M, -1, d) - f.xs, axis=-1).min(-1) < .3
    at_res = np.linalg.norm(np.asarray(res).reshape(M, d) - f.xs, axis=-1) < .3
    ctx.seen('runs', M)
    ctx.data.setdefault('runs', []).append((name, M, int(ok.sum()), int(at.sum()), int(at_res.sum())))
    ctx.sig(name, kind, d)


# ------------------------------------------------------------------ constrained problems
def constrained(ctx, rng):
    """a quadratic on a plane / sphere / the simplex: the known constrained minimiser is reached"""
    name = pick(rng, ['DriftConstrained-plane', 'DriftConstrained-sphere', 'RegCombination-plane', 'HyperSurface-sphere',
                      'HyperSurface-plane', 'Mirror-hyperplane', 'Mirror-simplex', 'Mirror-sphere', 'HyperSurface-Stiefel'])
    d = int(pick(rng, [2, 3]))
    M, N = 4, 50
    seed = int(rng.integers(2**31))
    a = rng.standard_normal(d)
    a = a / np.linalg.norm(a)
    b = float(rng.uniform(-.5, .5))
    xs = rng.uniform(-.8, .8, d)
    xs = xs + .4 * np.sign(xs)
    f = Prob('sphere', xs)
    x = rng.uniform(-1.5, 1.5, (M, N, d))
    kw = dict(noise='anisotropic', dt=.1, alpha=30., sigma=.7)
    plane = xs - (a @ xs - b) * a
    sphere = xs / np.linalg.norm(xs)
    thr = .2
    if name == 'DriftConstrained-plane':
        cls, sol = 'DriftConstrainedCBO', plane
        kw.update(constraints=[{'name': 'plane', 'a': a, 'b': b}], eps=.01, sigma=2.)
    elif name == 'DriftConstrained-sphere':
        cls, sol = 'DriftConstrainedCBO', sphere
        kw.update(constraints=[{'name': 'sphere', 'r': 1.}], eps=.01)
        x = x / np.linalg.norm(x, axis=-1, keepdims=True) * rng.uniform(.8, 1.2, (M, N, 1))
    elif name == 'RegCombination-plane':
        cls, sol = 'RegCombinationCBO', plane
        kw.update(constraints=[{'name': 'plane', 'a': a, 'b': b}], eps=1., nu=.1, sigma=2.5)
    elif name == 'HyperSurface-sphere':
        cls, sol = 'HyperSurfaceCBO', sphere
        kw.update(sdf={'name': 'sphere'}, noise='isotropic', sigma=.3)
        x = x / np.linalg.norm(x, axis=-1, keepdims=True)
    elif name == 'HyperSurface-plane':
        cls, sol = 'HyperSurfaceCBO', plane
        kw.update(sdf={'name': 'plane', 'a': a, 'b': b}, noise='isotropic', sigma=.5)
        x = x - ((x @ a) - b)[..., None] * a
    elif name == 'HyperSurface-Stiefel':
        cls = 'HyperSurfaceCBO'
        d = 4
        xs = np.linalg.qr(rng.standard_normal((2, 2)))[0].ravel()
        f, sol = Prob('sphere', xs), xs
        x = np.stack([np.linalg.qr(q)[0].ravel() for q in rng.standard_normal((M * N, 2, 2))]).reshape(M, N, 4)
        # both components of the orthogonal group are represented
        flip = rng.random((M, N)) < .5
        x[flip] = (x[flip].reshape(-1, 2, 2) * np.array([1., -1.])).reshape(-1, 4)
        kw.update(sdf={'name': 'Stiefel', 'nk': (2, 2)}, noise='isotropic', sigma=.2)
        thr = .3
    elif name == 'Mirror-hyperplane':
        cls, sol = 'MirrorCBO', plane
        kw.update(mirrormap={'name': 'ProjectionHyperplane', 'a': a, 'b': b}, sigma=2.)
        x = x - ((x @ a) - b)[..., None] * a
    elif name == 'Mirror-sphere':
        cls, sol = 'MirrorCBO', sphere
        kw.update(mirrormap={'name': 'ProjectionSphere', 'r': 1.}, noise='isotropic', sigma=.3)
        x = x / np.linalg.norm(x, axis=-1, keepdims=True)
    else:
        cls = 'MirrorCBO'
        sol = np.abs(xs) / np.abs(xs).sum()
        f = Prob('sphere', sol)
        x = rng.dirichlet(np.ones(d), (M, N))
        kw.update(mirrormap='EntropySimplex', sigma=.7, noise='isotropic')
    dyn = getattr(cd, cls)(f, f_dim='3D', x=x, seed=seed, verbosity=0, max_it=150, **kw)
    ctx.describe(config=name, d=d, seed=seed)
    dyn.optimize(sched=None)
    c = np.asarray(dyn.consensus).reshape(M, -1, d)[:, 0]
    err = np.linalg.norm(c - sol, axis=-1)
    ctx.seen('constrained_runs', M)
    ctx.data.setdefault('constrained', []).append((name, M, int((err < thr).sum())))
    ctx.sig(name, d)


# ------------------------------------------------------------------ sampling
def sampling(ctx, rng):
    d = int(pick(rng, [1, 2]))
    m = rng.uniform(-1, 1, d)
    q = np.linalg.qr(rng.standard_normal((d, d)))[0]
    C = q @ np.diag(rng.uniform(.3, 1.5, d)) @ q.T
    P = np.linalg.inv(C)
    M, N = 3, 300
    seed = int(rng.integers(2**31))
    alpha = float(pick(rng, [.5, 1., 3.]))

    def f(x):
        u = x - m
        return .5 * np.einsum('...i,ij,...j->...', u, P, u)
    x = m + rng.uniform(-1, 1, d) + rng.uniform(.5, 1.5) * rng.standard_normal((M, N, d))
    dyn = cd.CBS(f, f_dim='3D', x=x, seed=seed, mode='sampling', alpha=alpha, dt=.05, verbosity=0, max_it=10**6)
    ctx.describe(d=d, mean=m, cov=C, alpha=alpha, seed=seed)
    mean, cov, n = np.zeros((M, d)), np.zeros((M, d, d)), 0
    for k in range(500):
        dyn.terminate()
        dyn.step()
        if k >= 200:
            mean += dyn.x.mean(1)
            u = dyn.x - m
            cov += np.einsum('mni,mnj->mij', u, u) / N
            n += 1
    mean, cov = mean.mean(0) / n, cov.mean(0) / n
    s = np.sqrt(np.diag(C))
    dm = np.abs((mean - m) / s).max()
    L = np.linalg.inv(np.linalg.cholesky(C))
    ev = np.linalg.eigvalsh(L @ cov @ L.T)
    ctx.seen('sampling_runs', M)
    ctx.data.setdefault('sampling', []).append((float(dm), float(ev.min()), float(ev.max()), alpha))
    ctx.check(np.isfinite(dm) and dm < .5, 'sample-mean', f'mean {mean} of the samples of N({m}, ...): off by {dm:.2f} standard deviations')
    ctx.check(ev.min() > .6 and ev.max() < 1.6, 'sample-covariance', f'covariance of the samples relative to the target: {ev}')
    ctx.sig('sampling', d, alpha)


# ------------------------------------------------------------------ noiseless contraction
def contraction(ctx, rng):
    cls = pick(rng, ['CBO', 'CBO', 'PolarCBO', 'CBOMemory', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO'])
    s = gen_spec(rng, classes=[cls], noises=['isotropic', 'anisotropic'], steps=int(rng.integers(5, 40)))
    kw = s['kw']
    kw['sigma'] = 0.
    kw['lamda'] = float(pick(rng, [.5, 1., 2.]))
    kw['dt'] = float(pick(rng, [.01, .1, .5]))
    if cls == 'CBOMemory':
        kw['sigma_memory'] = 0.
    if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        kw['constraints'] = None
    if cls == 'MirrorCBO':
        kw['mirrormap'] = 'L2'
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, _ = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops.tolist())
    plain = cls in ('CBO', 'DriftConstrainedCBO', 'RegCombinationCBO') and kw.get('correction', 'no_correction') == 'no_correction' \
        and not (kw.get('batch_args') and kw['batch_args']['partial'] and kw['batch_args']['size'] < s['N'])
    M, N = s['M'], s['N']

    def box(x, y=None):
        p = x.reshape(M, N, -1)
        if y is not None:
            p = np.concatenate((p, y.reshape(M, N, -1)), axis=1)
        return p.min(1), p.max(1)

    def on_step(pre):
        ctx.seen('contracting_steps')
        mem = cls == 'CBOMemory'
        lo, hi = box(pre['x'], pre['y'] if mem else None)
        lo2, hi2 = box(dyn.x, dyn.y if mem else None)
        t = 1e-10 * (1 + np.abs(hi) + np.abs(lo))
        ctx.check((lo2 >= lo - t).all() and (hi2 <= hi + t).all(), 'bounding-box-grows', f"it {pre['it']}: [{lo}, {hi}] -> [{lo2}, {hi2}]")
        if plain:
            act = pre['active']
            q = 1 - pre['lamda'] * pre['dt']
            a, b = pre['x'][act], dyn.x[act]
            d0, d1 = a[:, :, None] - a[:, None, :], b[:, :, None] - b[:, None, :]
            ctx.close(d1, q * d0, 'contraction-rate', f"it {pre['it']}", rtol=1e-8, atol=1e-9 * (1 + np.abs(a).max(initial=0)))
            ctx.seen('exact_contraction')
    advance(dyn, None, on_step, mode=pick(rng, ['loop', 'optimize']), sched=None)
    ctx.sig(*signature(s), 'contraction', plain)


def finish(ctx, data, counts):
    def flat(k):
        return [e for part in data.get(k, []) for e in part]
    tot = {}
    for name, m, ok, at, at_res in flat('runs'):
        t = tot.setdefault(name, [0, 0, 0, 0])
        for i, v in enumerate((m, ok, at, at_res)):
            t[i] += v
    for name, (m, ok, at, at_res) in sorted(tot.items()):
        if m < 40:
            continue
        ctx.seen('judged_configurations')
        lim = .6 if name == 'MirrorCBO-box' else .8
        ctx.check(ok >= lim * m, 'does-not-converge:' + name, f'{name}: best energy reaches the minimum up to {GAP} in {ok} of {m} runs')
        ctx.check(at >= .7 * m, 'consensus-off:' + name, f'{name}: consensus close to the minimiser in {at} of {m} runs')
        ctx.check(at_res >= .8 * m, 'result-off:' + name, f'{name}: returned point close to the minimiser in {at_res} of {m} runs')
    impr = {}
    for name, a, b in flat('early'):
        impr.setdefault(name, []).append(a - b)
    for name, v in sorted(impr.items()):
        if len(v) >= 8:
            ctx.check(np.mean(v) > .2, 'does-not-improve:' + name, f'{name}: log10 of the best energy decreases by {np.mean(v):.2f} only '
                      'between iterations 10 and 100')
    con = {}
    for name, m, ok in flat('constrained'):
        t = con.setdefault(name, [0, 0])
        t[0] += m
        t[1] += ok
    for name, (m, ok) in sorted(con.items()):
        if m < 40:
            continue
        ctx.seen('judged_configurations')
        ctx.check(ok >= .7 * m, 'constrained-minimum-missed:' + name, f'{name}: {ok} of {m} runs end at the constrained minimiser')
    smp = flat('sampling')
    if len(smp) >= 8:
        ev = np.array([(a + b) / 2 for _, a, b, _ in smp])
        ctx.check(.85 < np.median(ev) < 1.2, 'sample-covariance-biased', f'median relative covariance {np.median(ev):.3f} over {len(smp)} targets')
        ctx.check(np.median([a for a, *_ in smp]) < .15, 'sample-mean-biased', f'{np.median([a for a, *_ in smp]):.3f}')
    if __import__('os').environ.get('RV_CAL'):
        import sys
        for n, (m, *r) in sorted(tot.items()):
            print(n, m, [round(v / m, 3) for v in r], round(np.mean(impr.get(n, [0])), 2), file=sys.stderr)
        for n, (m, ok) in sorted(con.items()):
            print(n, m, round(ok / m, 3), file=sys.stderr)
        a = np.array([v[:3] for v in smp])
        print(a.min(0), np.median(a, 0), a.max(0), file=sys.stderr)


FAMILIES = {'solve': (solve, 500), 'constrained': (constrained, 180), 'sampling': (sampling, 24), 'contraction': (contraction, 400)}
