"""C01: the consensus point is the Gibbs-weighted mean."""
import numpy as np

from cbx.dynamics.pdyn import compute_consensus_default
from cbx.dynamics.hypersurfacecbo import compute_consensus_rescale
import cbx.dynamics as cd

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, index_pairs
from ..drive import advance
from ..ref import gibbs, gibbs_weights

RULE = ('direct: random (energy, ensemble, alpha) triples over energy regimes (moderate, +-1e300, huge offsets, ties, '
        '+inf entries) for the plain, rescaled and torch consensus functions; dynamics: every step of random multi-run '
        'histories (plain, rescaled, memory, swarm; batches, subsets, schedules). Distinct by (variant, regime, shape class, '
        'alpha kind) resp. configuration signature; all are non-trivial unless N = 1.')
REQUIRE = {'weights': 5000, 'direct': 50, 'steps': 50, 'torch': 10, 'fitted_alphas': 100}
ASSUMPTIONS = ['at least one energy per batch is finite, and no energy is minus infinity']


def regime(rng, M, N):
    k = pick(rng, ['moderate', 'huge', 'tiny', 'offset', 'ties', 'inf', 'mixed', 'equal'])
    e = rng.standard_normal((M, N))
    amax = 1e5
    if k == 'huge':
        e = e * 10.**rng.uniform(10, 300)
    elif k == 'tiny':
        e = e * 10.**rng.uniform(-300, -5)
    elif k == 'offset':
        e = e + pick(rng, [1., -1.]) * 10.**rng.uniform(2, 20)
    elif k == 'ties':
        e = rng.integers(0, 3, (M, N)).astype(float)
    elif k == 'inf':
        e[rng.random((M, N)) < .4] = np.inf
        e[:, rng.integers(N)] = rng.standard_normal(M)
    elif k == 'mixed':
        e = e * 10.**rng.uniform(-20, 20, (M, N))
    elif k == 'equal':
        e = np.full((M, N), 3.7)
    return k, e


def alphas(rng, M):
    if chance(rng, .5):
        return np.full((M, 1), 10.**rng.uniform(-8, 5))
    return 10.**rng.uniform(-8, 5, (M, 1))


def hull(ctx, c, x, kind, u=0.):
    """c (M,1,...) inside the box of the particles; u: relative rounding of the weights (rounding of alpha*energy)"""
    lo, hi = x.min(axis=1, keepdims=True), x.max(axis=1, keepdims=True)
    u = np.minimum(u, 1e-2)
    tol = (1e-12 + u) * (np.abs(x).max(axis=1, keepdims=True)) * x.shape[1]
    ctx.check(np.isfinite(c).all(), kind + '-finite', f'consensus not finite: {c.ravel()[:4]}')
    ctx.check(((c >= lo - tol) & (c <= hi + tol)).all(), kind + '-hull', 'consensus outside of the box of its particles')


def probe(ctx, f, e, al, reg, conv=np.asarray, back=np.asarray):
    """the weights themselves: consensus of the unit vectors"""
    M, N = e.shape
    w = back(f(conv(e.copy()), conv(np.broadcast_to(np.eye(N), (M, N, N)).copy()), conv(al.copy()))[0])[:, 0]
    ref = gibbs_weights(e, al).astype(float)
    # relative rounding of alpha*energy
    u = 1e-9 + 1e-14 * (al * np.where(np.isfinite(e), np.abs(e), 0).max(axis=1, keepdims=True))
    u = np.broadcast_to(u, ref.shape)
    big = (ref > 1e-200) & (u < .1)
    ctx.check(bool((np.abs(w - ref)[big] <= (u * ref)[big]).all()), 'weights', f'{reg}: {w.ravel()[:4]} instead of {ref.ravel()[:4]}')
    ctx.check(bool((w[(ref < 1e-200) & (u < .1)] < 1e-190).all()), 'weights', f'{reg}: weight of a hopeless particle {w.max()}')
    ctx.check(bool((w >= 0).all()), 'weights', f'{reg}: negative weight')
    ctx.seen('weights', w.size)


def direct(ctx, rng):
    M, N = sz(rng, 1, 5, BM), int(pick(rng, [1, 2, 3, 5, 20])) if chance(rng, .96) else int(pick(rng, BN))
    d = pick(rng, [(1,), (2,), (3,), (2, 2), (1, 3)])
    x = rng.standard_normal((M, N) + d) * 10.**rng.uniform(-3, 4)
    if chance(rng, .2):
        x[:, N // 2] = x[:, 0]
    reg, e = regime(rng, M, N)
    al = alphas(rng, M)
    if reg != 'inf' and chance(rng, .3):       # the weights are neither equal nor degenerate, whatever the size of the energies
        al = 10.**rng.uniform(-1, 2.5) / np.maximum(np.ptp(e, axis=1, keepdims=True), 1e-280)
        ctx.seen('fitted_alphas')
    variant = pick(rng, ['default', 'checked', 'rescale'])
    f = {'default': compute_consensus_default(), 'checked': compute_consensus_default(check_coeffs=True),
         'rescale': compute_consensus_rescale}[variant]
    ctx.describe(variant=variant, regime=reg, M=M, N=N, d=d, alpha=al.ravel())
    e0, x0, al0 = e.copy(), x.copy(), al.copy()
    c, eo = f(e, x, al)
    ctx.seen('direct')
    probe(ctx, f, e, al, reg)
    ctx.sig(variant, reg, M > 1, min(N, 3), len(d), al.std() > 0)
    ctx.equal(e, e0, 'inputs-modified', 'energy')
    ctx.equal(x, x0, 'inputs-modified', 'particles')
    ctx.equal(al, al0, 'inputs-modified', 'alpha')
    ctx.equal(eo, e0, 'energy-passed-through')
    ctx.check(c.shape == (M, 1) + d, 'consensus-shape', c.shape, stop=True)
    sc = np.abs(x).max()
    hull(ctx, c, x, 'direct')
    ctx.close(c, gibbs(e, x, al), 'gibbs-mean', f'{variant} {reg}', rtol=1e-9, atol=1e-10 * sc)
    # constant added to all energies (whose rounding limits the accuracy)
    fin = np.where(np.isfinite(e), np.abs(e), 0)
    s = float(rng.standard_normal() * 10)
    if (al * (fin + abs(s))).max() * 1e-15 < 1e-6:
        c2, _ = f(e + s, x, al)
        ctx.close(c2, c, 'shift-invariance', f'{variant} {reg}', rtol=1e-5, atol=1e-5 * sc)
        ctx.seen('shifted')
    # limits
    ef = np.where(np.isfinite(e), e, np.nan)
    srt = np.sort(np.where(np.isfinite(e), e, np.inf), axis=1)
    for m in range(M):
        gap = srt[m, 1] - srt[m, 0] if N > 1 else np.inf
        if gap > 0 and al[m, 0] * gap > 60 + np.log(N):
            ctx.close(c[m, 0], x[m, np.nanargmin(ef[m])], 'limit-best', f'run {m}', rtol=1e-9, atol=1e-9 * sc)
            ctx.seen('limit_best')
        if np.isfinite(e[m]).all() and al[m, 0] * (srt[m, -1] - srt[m, 0]) < 1e-12:
            ctx.close(c[m, 0], x[m].mean(axis=0), 'limit-mean', f'run {m}', rtol=1e-6, atol=1e-6 * sc)
            ctx.seen('limit_mean')


def direct_torch(ctx, rng):
    import torch
    from cbx.utils.torch_utils import compute_consensus_torch
    M, N = sz(rng, 1, 5, BM), int(pick(rng, [1, 2, 5, 20])) if chance(rng, .96) else int(pick(rng, BN))
    d = pick(rng, [(1,), (2,), (2, 2)])
    x = rng.standard_normal((M, N) + d)
    reg, e = regime(rng, M, N)
    al = alphas(rng, M)
    if reg != 'inf' and chance(rng, .3):
        al = 10.**rng.uniform(-1, 2.5) / np.maximum(np.ptp(e, axis=1, keepdims=True), 1e-280)
    ctx.describe(variant='torch', regime=reg, M=M, N=N, d=d, alpha=al.ravel())
    c, eo = compute_consensus_torch(torch.tensor(e), torch.tensor(x), torch.tensor(al))
    ctx.seen('torch')
    ctx.sig('torch', reg, M > 1, min(N, 3), len(d), al.std() > 0)
    ctx.check(isinstance(c, torch.Tensor) and isinstance(eo, np.ndarray), 'torch-types', f'{type(c)} {type(eo)}')
    probe(ctx, compute_consensus_torch, e, al, reg, torch.tensor, lambda z: z.numpy())
    c = c.numpy()
    ctx.check(c.shape == (M, 1) + d, 'consensus-shape', c.shape, stop=True)
    hull(ctx, c, x, 'torch')
    ctx.close(c, gibbs(e, x, al), 'gibbs-mean', f'torch {reg}', rtol=1e-9, atol=1e-9)
    ctx.equal(eo, e, 'energy-passed-through')


def dynamics(ctx, rng):
    cls = pick(rng, ['CBO', 'HyperSurfaceCBO', 'CBOMemory', 'PSO', 'CBS', 'MirrorCBO', 'AdamCBO'])
    s = gen_spec(rng, classes=[cls], alphas=[1e-3, 1., 30., 1e4])
    if chance(rng, .3):
        s['obj']['scale'] = float(10.**rng.uniform(-5, 6))
    if chance(rng, .2):
        s['obj']['offset'] = float(pick(rng, [1e6, -1e6, 1e12, -1e17]))
    f = objective(s)
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops.tolist())
    mem = cls in ('CBOMemory', 'PSO')

    def on_step(pre):
        ctx.seen('steps')
        ctx.sig(*signature(s), len(pre['active']) < s['M'])
        C = index_pairs(dyn, dyn.consensus_idx)
        src = (pre['y'] if mem else pre['x']).reshape((-1,) + tuple(s['d']))
        xb = src[C]
        # memory: energies of the remembered positions
        e = f(xb)
        al = np.asarray(pre['alpha'])[pre['active']]
        c = dyn.consensus
        ctx.check(c.shape == (len(pre['active']), 1) + tuple(s['d']), 'consensus-shape',
                  f"{c.shape} for {len(pre['active'])} active runs", stop=True)
        hull(ctx, c, xb, 'dynamic')
        # rounding of the energies themselves (the oracle may evaluate in another order)
        u = (al * np.abs(e)).max() * 1e-14
        if u < 1e-3:
            ctx.close(c, gibbs(e, xb, al), 'dynamic-gibbs-mean', f"it {pre['it']}", rtol=1e-8 + 10 * u,
                      atol=(1e-9 + 10 * u) * max(1., np.abs(xb).max()))
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched='default' if chance(rng, .5) else None)


def torch_dynamics(ctx, rng):
    import torch
    from cbx.utils.torch_utils import to_torch_dynamic
    M, N, d = int(rng.integers(1, 4)), int(rng.integers(1, 8)), int(rng.integers(1, 4))
    x = rng.standard_normal((M, N, d))
    al = 10.**rng.uniform(-2, 3, (M, 1))
    w = rng.uniform(.5, 2, d)
    f = lambda z: (torch.tensor(w) * z**2).sum(-1)   # noqa: E731
    dyn = to_torch_dynamic(cd.CBO)(f, f_dim='3D', x=torch.tensor(x), alpha=torch.tensor(al), verbosity=0, max_it=5,
                                   sampler=lambda size: torch.tensor(rng.standard_normal(tuple(size))))
    ctx.describe(variant='torch dynamic', M=M, N=N, d=d)
    ctx.sig('torch-dyn', M, min(N, 3), d)
    while not dyn.terminate():
        xo = dyn.x.numpy().copy()
        dyn.step()
        ctx.seen('torch')
        ctx.close(dyn.consensus.numpy(), gibbs((w * xo**2).sum(-1), xo, al), 'dynamic-gibbs-mean', 'torch', rtol=1e-8,
                  atol=1e-9 * max(1., np.abs(xo).max()))


FAMILIES = {'direct': (direct, 3000), 'direct_torch': (direct_torch, 300), 'dynamics': (dynamics, 1200),
            'torch_dynamics': (torch_dynamics, 60)}
