"""C15: hypersurface dynamics stay on the surface and move along it."""
import copy

import numpy as np

from cbx.dynamics.hypersurfacecbo import get_sdf

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops
from ..drive import advance, moved
from ..ref import Law

RULE = ('projections and tangential projections of random spheres, planes and Stiefel manifolds judged by their defining properties '
        '(feasible, idempotent, nearest among feasible competitors, removes exactly the normal part); every step of random '
        'histories on all surfaces is checked for feasibility and compared with the projected update evaluated from the state '
        'before the step. Distinct by surface, dimension and configuration.')
REQUIRE = {'projections': 300, 'tangential': 300, 'feasible_particles': 2000, 'steps': 500, 'steps_sphere': 100, 'steps_plane': 100,
           'steps_Stiefel': 100, 'steps_aniso': 100, 'steps_subset': 50, 'steps_batched': 100, 'moved': 500, 'nearest_competitors': 1000}
ASSUMPTIONS = ['the curvature correction of the anisotropic noise is specified for sphere and plane only']


def random_sdf(rng):
    k = pick(rng, ['sphere', 'plane', 'Stiefel', 'none'])
    if k in ('sphere', 'none'):
        n = int(rng.integers(2, 6)) if chance(rng, .9) else int(pick(rng, [8, 12, 30]))
        return k, ({'name': 'sphere'} if k == 'sphere' else None), n
    if k == 'plane':
        n = sz(rng, 1, 6, BD)
        a = rng.standard_normal(n) * 10.**rng.integers(-1, 2)
        a[0] += np.sign(a[0]) * .1
        return k, {'name': 'plane', 'a': a, 'b': float(rng.uniform(-2, 2))}, n
    nk = pick(rng, [(2, 1), (3, 2), (2, 2), (4, 2), (5, 3), (3, 3)])
    return k, {'name': 'Stiefel', 'nk': nk}, nk[0] * nk[1]


def infeasible(sdf, x):
    """distance-like violation per point"""
    name = (sdf or {'name': 'sphere'})['name']
    if name == 'sphere':
        return np.abs(np.linalg.norm(x, axis=-1) - 1)
    if name == 'plane':
        a = np.asarray(sdf['a'])
        return np.abs((x * a).sum(-1) - sdf['b']) / np.linalg.norm(a)
    n, k = sdf['nk']
    X = x.reshape(x.shape[:-1] + (n, k))
    return np.abs(np.swapaxes(X, -1, -2) @ X - np.eye(k)).max((-1, -2))


def feasible(rng, sdf, shape):
    name = (sdf or {'name': 'sphere'})['name']
    x = rng.standard_normal(shape)
    if name == 'sphere':
        return x / np.linalg.norm(x, axis=-1, keepdims=True)
    if name == 'plane':
        a = np.asarray(sdf['a'])
        return x - (((x * a).sum(-1) - sdf['b']) / (a @ a))[..., None] * a
    n, k = sdf['nk']
    q = np.linalg.qr(x.reshape(-1, n, k))[0] * rng.choice([-1., 1.], size=(x.size // (n * k), 1, k))
    return q.reshape(shape)


def projections(ctx, rng):
    name, sdf, n = random_sdf(rng)
    g = get_sdf(copy.deepcopy(sdf))
    M, N = sz(rng, 1, 4, BM), sz(rng, 1, 6, BN)
    x = rng.standard_normal((M, N, n)) * 10.**rng.uniform(-2, 3)
    x0 = x.copy()
    ctx.describe(surface=name, n=n, shape=x.shape)
    p = np.asarray(g.proj(x))
    sc = 1 + np.abs(x).max()
    ctx.equal(x, x0, 'argument-modified')
    ctx.check(p.shape == x.shape, 'projection-shape', str(p.shape), stop=True)
    ctx.check(bool((infeasible(sdf, p) <= 1e-11 * sc).all()), 'projection-infeasible', f'{name}: {infeasible(sdf, p).max()}')
    ctx.close(np.asarray(g.proj(p)), p, 'projection-not-idempotent', name, rtol=1e-9, atol=1e-11 * sc)
    d = np.linalg.norm(x - p, axis=-1)
    for _ in range(8):
        q = feasible(rng, sdf, x.shape)
        if chance(rng, .5):     # close competitors
            q = q if name == 'Stiefel' else np.asarray(p + 1e-3 * sc * rng.standard_normal(x.shape))
            q = project_reference(sdf, q)
        ctx.seen('nearest_competitors', q.shape[0] * q.shape[1])
        ctx.check(bool((np.linalg.norm(x - q, axis=-1) >= d - 1e-9 * sc).all()), 'projection-not-nearest', name)
    ctx.seen('projections')
    # tangential projections at feasible points
    y = feasible(rng, sdf, x.shape)
    z = rng.standard_normal(x.shape)
    t = np.asarray(g.proj_tangent_space(y, z))
    ctx.check(t.shape == z.shape, 'tangential-shape', stop=True)
    if name in ('sphere', 'none', 'plane'):
        nrm = y if name != 'plane' else np.broadcast_to(np.asarray(sdf['a']) / np.linalg.norm(sdf['a']), y.shape)
        ctx.close((t * nrm).sum(-1), np.zeros(t.shape[:2]), 'not-tangential', name, atol=1e-10)
        ctx.close(t, z - nrm * (z * nrm).sum(-1, keepdims=True), 'removes-more-than-normal-part', name, atol=1e-10)
    else:
        n_, k_ = sdf['nk']
        Y, T, Z = (v.reshape(v.shape[:-1] + (n_, k_)) for v in (y, t, z))
        Yt, Tt = np.swapaxes(Y, -1, -2), np.swapaxes(T, -1, -2)
        ctx.close(Yt @ T + Tt @ Y, np.zeros(Yt.shape[:-2] + (k_, k_)), 'not-tangential', name, atol=1e-10)
        # the normal part is Y S with symmetric S
        D = Z - T
        S = Yt @ D
        ctx.close(S, np.swapaxes(S, -1, -2), 'removes-more-than-normal-part', name, atol=1e-10)
        ctx.close(Y @ S, D, 'removes-more-than-normal-part', name, atol=1e-10)
    # a tangent vector is kept
    ctx.close(np.asarray(g.proj_tangent_space(y, t)), t, 'tangent-vector-changed', name, atol=1e-10)
    ctx.seen('tangential')
    if name != 'Stiefel':
        gr = np.asarray(g.grad(y)) * np.ones(y.shape)
        nrm = y if name != 'plane' else np.broadcast_to(np.asarray(sdf['a']) / np.linalg.norm(sdf['a']), y.shape)
        ctx.close(gr, nrm, 'normal', name, atol=1e-10)
        P = np.asarray(g.get_proj_matrix(y))
        ctx.close(np.einsum('...ij,...j->...i', P, z), t, 'projection-matrix', name, atol=1e-9)
    ctx.sig('proj', name, n, x.shape)


def project_reference(sdf, x):
    name = (sdf or {'name': 'sphere'})['name']
    if name == 'sphere':
        return x / np.linalg.norm(x, axis=-1, keepdims=True)
    if name == 'plane':
        a = np.asarray(sdf['a'])
        return x - (((x * a).sum(-1) - sdf['b']) / (a @ a))[..., None] * a
    n, k = sdf['nk']
    u, _, vt = np.linalg.svd(x.reshape(x.shape[:-1] + (n, k)), full_matrices=False)
    return (u @ vt).reshape(x.shape)


class Exploded(Exception):
    pass


def step(ctx, rng):
    s = gen_spec(rng, classes=['HyperSurfaceCBO'], n=int(pick(rng, [9, 14, 30])) if chance(rng, .08) else None)
    sdf = s['kw'].get('sdf')
    name = (sdf or {'name': 'sphere'})['name']
    s['kw']['dt'] = float(pick(rng, [.01, .05, .2, 1.]))
    s['kw']['sigma'] = float(pick(rng, [0., .1, .3, 1., 1., 5.1]))
    law = Law(s, objective(s))
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops)
    sched = param_sched(rng, 'dt', 'lamda', 'sigma', 'alpha')
    law.fixed = sched is None

    def on_step(pre):
        out = law.predict(dyn, pre, smp)
        sel = np.zeros(s['M'] * s['N'], bool)
        sel[out['P'].ravel()] = True
        sel = sel.reshape(s['M'], s['N'])
        if np.abs(out['x']).max() > 1e6:
            ctx.seen('exploded')      # the default post processing bounds the particles
            raise Exploded
        bad = infeasible(sdf, dyn.x)
        ctx.check(bool((bad <= 1e-9 * (1 + np.abs(dyn.x).max())).all()), 'left-the-surface', f'iteration {pre["it"]}: {bad.max()}', stop=True)
        ctx.seen('feasible_particles', bad.size)
        # the last projection amplifies rounding when the unprojected point is close to where it is not unique
        w = np.ones((s['M'], s['N']), bool)
        if name != 'plane':
            far = np.full(s['M'] * s['N'], 1.)
            far[out['P']] = well_posed(law, dyn, pre, smp, out, sdf)
            w = far.reshape(w.shape) > 1e-3
        ctx.close(dyn.x, out['x'], 'step', f'iteration {pre["it"]} {name} {s["kw"]["noise"]}', rtol=1e-7, atol=1e-8, mask=w[..., None], stop=True)
        mv = moved(dyn.x, pre['x'])
        ctx.check(not (mv & ~sel).any(), 'unselected-particle-moved')
        ctx.seen('moved', mv.sum())
        ctx.seen('steps')
        ctx.seen('steps_' + name)
        if s['kw']['noise'] == 'anisotropic':
            ctx.seen('steps_aniso')
        if len(pre['active']) < s['M']:
            ctx.seen('steps_subset')
        if out['P'].shape[1] < s['N']:
            ctx.seen('steps_batched')
    try:
        advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)
    except Exploded:
        pass
    ctx.sig(*signature(s), name, s['kw']['dt'], s['kw']['sigma'])


def well_posed(law, dyn, pre, smp, out, sdf):
    """smallest singular value of the point that is projected, relative to its size"""
    x = pre['x'].reshape(-1, pre['x'].shape[-1])[out['P']]
    drift = out['drift']
    from ..ref import noise_term
    n = noise_term(law.kw['noise'], drift, pre['dt'], smp.numbers(drift.shape))
    # same pieces as in Law.hs_step, before the projection: recover it by the reference with a scale
    r = unprojected(law, x, drift, n, pre['lamda'], pre['dt'], pre['sigma'])
    name = (sdf or {'name': 'sphere'})['name']
    if name == 'sphere':
        nr = np.linalg.norm(r, axis=-1)
        return nr / (1 + nr)
    a, b = sdf['nk']
    sv = np.linalg.svd(r.reshape(r.shape[:-1] + (a, b)), compute_uv=False)
    return sv[..., -1] / (1 + sv[..., 0])


def unprojected(law, x, drift, n, lam, dt, sig):
    sdf = law.kw.get('sdf') or {'name': 'sphere'}
    w = -lam * dt * drift + sig * n
    d2 = (drift**2).sum(-1, keepdims=True)
    if sdf['name'] == 'sphere':
        t = w - x * (x * w).sum(-1, keepdims=True)
        if law.kw['noise'] == 'anisotropic':
            return x + t - dt * sig**2 / 2 * (d2 + drift**2 - 2 * ((drift * x)**2).sum(-1, keepdims=True)) * x
        return x + t - dt * sig**2 / 2 * (x.shape[-1] - 1) * d2 * x
    n_, k_ = sdf['nk']
    X, W = x.reshape(x.shape[:-1] + (n_, k_)), w.reshape(x.shape[:-1] + (n_, k_))
    Xt, Wt = np.swapaxes(X, -1, -2), np.swapaxes(W, -1, -2)
    t = (W - .5 * X @ (Wt @ X + Xt @ W)).reshape(x.shape)
    return x + t - dt * sig**2 / 2 * (2 * n_ - k_ - 1) / 2 * d2 * x


def off(ctx, rng):
    """an ensemble that starts off the surface: a moved particle lies on it"""
    s = gen_spec(rng, classes=['HyperSurfaceCBO'], n=int(pick(rng, [9, 14, 30])) if chance(rng, .08) else None)
    sdf = s['kw'].get('sdf')
    x = np.random.default_rng(s['x_seed']).standard_normal((s['M'], s['N']) + tuple(s['d'])) * float(pick(rng, [.1, 1., 5.]))
    dyn, rec, smp = build(s, x=x)
    ctx.describe(**brief(s))
    touched = np.zeros((s['M'], s['N']), bool)
    for i in range(s['steps']):
        smp.tick += 1
        x0 = dyn.x.copy()
        dyn.step()
        touched |= moved(dyn.x, x0)
        bad = infeasible(sdf, dyn.x)
        ctx.check(bool((bad[touched] <= 1e-9 * (1 + np.abs(dyn.x).max())).all()), 'left-the-surface', f'step {i}: {bad[touched].max() if touched.any() else 0}')
        ctx.seen('feasible_particles', touched.sum())
    ctx.sig('off', *signature(s))


FAMILIES = {'off': (off, 100), 'projections': (projections, 400), 'step': (step, 700)}
