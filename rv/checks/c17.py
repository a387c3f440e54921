"""C17: polarized consensus uses the kernel-localised Gibbs weights."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.dynamics.polarcbo import PolarCBO, compute_polar_consensus

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, start
from ..drive import advance, moved
from ..ref import Law, kernel_neg_log, gibbs_weights

RULE = ('all kernels on random ensembles (coincident particles, several axes, any width): range, diagonal, symmetry, monotonicity in the '
        'distance, agreement with the negative logarithm and with an independent formula; every step of random polarized histories '
        'against the weights evaluated in extended precision and the corresponding update; polarized runs with infinitely wide kernels '
        'against unpolarized twins. Distinct by kernel, width, shape and configuration.')
REQUIRE = {'kernel_values': 5000, 'steps': 500, 'steps_subset': 50, 'steps_batched': 100, 'steps_multiaxis': 50, 'wide_twins': 100,
           'hull': 2000, 'coincident': 50, 'steps_covariance': 50, 'custom_kernels': 30, 'shifted': 80, 'extreme': 100}
ASSUMPTIONS = ['the value of the constant kernel at distances within rounding of its radius is not judged']
KERNELS = ['Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz']


def kernels(ctx, rng):
    name = str(pick(rng, KERNELS))
    kappa = float(pick(rng, [1e-3, .1, .5, 1., 3., 50., np.inf]))
    d = pick(rng, [(1,), (2,), (3,), (2, 2), (1, 3)])
    M, N, B = sz(rng, 1, 4, BM), sz(rng, 1, 7, BN[:2]), None
    x = rng.uniform(-1, 1, (M, N) + d) * 10.**rng.integers(-2, 2)
    if chance(rng, .4):
        x[:, int(rng.integers(N))] = x[:, 0]
        ctx.seen('coincident')
    if chance(rng, .1):
        x[:] = x[:, :1]
    if chance(rng, .3):
        # far away from the origin
        x = x + rng.standard_normal(d) * 10.**rng.integers(2, 9)
        ctx.seen('shifted')
    k = PolarCBO.kernel_dict[name](kappa=kappa)
    ctx.describe(kernel=name, kappa=kappa, d=d, M=M, N=N)
    x0 = x.copy()
    a, b = x[:, :, None], x[:, None]          # value[m,i,j] = k(x_i, x_j)
    v, nl = np.asarray(k(a, b)), np.asarray(k.neg_log(a, b))
    ctx.check(v.shape == (M, N, N) and nl.shape == (M, N, N), 'kernel-shape', f'{name} {v.shape} {nl.shape}', stop=True)
    ref = kernel_neg_log(name, kappa, x, x)
    dist = np.sqrt(((x.reshape(M, N, 1, -1) - x.reshape(M, 1, N, -1))**2).sum(-1))
    ok = np.ones(v.shape, bool)
    if name == 'Constant':
        ok = np.abs(dist / kappa - 1) > 1e-9
    ctx.close(nl, ref, 'negative-logarithm', f'{name} kappa={kappa}', rtol=1e-9, atol=1e-12, mask=ok)
    ctx.close(v, np.exp(-ref), 'kernel-value', f'{name} kappa={kappa}', rtol=1e-9, atol=1e-12, mask=ok)
    ctx.close(v, np.exp(-nl), 'not-exp-of-negative-logarithm', f'{name} kappa={kappa}', rtol=1e-9, atol=1e-12)
    ctx.check(bool(((v >= 0) & (v <= 1 + 1e-15)).all()), 'kernel-range', f'{name} {v.min()} {v.max()}')
    ctx.check(bool((np.einsum('mii->mi', v) == 1).all()), 'kernel-diagonal', f'{name} {np.einsum("mii->mi", v)}')
    ctx.close(v, np.swapaxes(v, 1, 2), 'kernel-symmetry', name, rtol=1e-12, atol=1e-14)
    ctx.close(np.asarray(k(b, a)), v, 'kernel-symmetry', name, rtol=1e-12, atol=1e-14)
    for m in range(M):
        o = np.argsort(dist[m].ravel(), kind='stable')
        vs = v[m].ravel()[o]
        ctx.check(bool((np.diff(vs) <= 1e-9).all()), 'kernel-increasing', f'{name} run {m}')
    if kappa == np.inf:
        ctx.check(bool((v == 1).all()), 'kernel-value', 'infinite width')
    ctx.equal(x, x0, 'argument-modified')
    ctx.seen('kernel_values', v.size)
    ctx.sig('kernel', name, kappa, d, M, N)


def consensus(ctx, rng):
    """the consensus function on extreme energies and kernel values"""
    M, P, N = sz(rng, 1, 4, BM), sz(rng, 1, 5, BN[:1]), sz(rng, 1, 7, BN)
    d = pick(rng, [(1,), (2,), (2, 2)])
    x = rng.uniform(-1, 1, (M, N) + d)
    e = rng.standard_normal((M, N)) * 10.**rng.uniform(-3, 12, size=(M, 1))
    if chance(rng, .3):
        e = e + pick(rng, [1e6, -1e12, 1e20])
    if chance(rng, .2) and N > 1:
        e[:, 1:] = np.where(rng.random((M, N - 1)) < .3, np.inf, e[:, 1:])
    nl = rng.exponential(1., (M, P, N)) * 10.**rng.uniform(-2, 6, size=(M, P, 1))
    if chance(rng, .2) and N > 1:
        nl[..., 1:] = np.where(rng.random((M, P, N - 1)) < .3, np.inf, nl[..., 1:])
    al = 10.**rng.uniform(-3, 8, size=(M, 1, 1)) if chance(rng, .6) else float(10.**rng.uniform(-3, 8))
    kf = al if chance(rng, .5) else 1.
    ctx.describe(M=M, P=P, N=N, d=d)
    c, e2 = compute_polar_consensus(e, x, nl, alpha=al, kernel_factor=kf)
    w = gibbs_weights(e[:, None, :], al, np.asarray(kf) * nl).astype(float)
    want = np.einsum('kij,kj...->ki...', w, x)
    ctx.check(bool(np.isfinite(c).all()), 'consensus-not-finite', str(np.abs(e).max()), stop=True)
    # rounding of alpha*energy + kernel: relative to their size
    eg = e - e.min(axis=-1, keepdims=True)
    size = np.max(np.where(np.isfinite(eg), np.abs(eg), 0.)[:, None, :] * np.asarray(al) + np.where(np.isfinite(nl), nl, 0.) * np.asarray(kf), axis=-1)
    ok = (size * 1e-15 < 1e-8)
    ctx.close(c, want, 'consensus', 'direct', rtol=1e-7, atol=1e-7, mask=ok[(...,) + (None,) * len(d)])
    lo, hi = x.min(1, keepdims=True), x.max(1, keepdims=True)
    tol = 1e-10
    ctx.check(bool(((c >= lo - tol) & (c <= hi + tol)).all()), 'outside-of-hull')
    ctx.seen('hull', c.shape[0] * c.shape[1])
    ctx.seen('extreme')
    ctx.equal(np.asarray(e2), e, 'energies-changed')
    ctx.sig('direct', M, P, N, d)


class Custom:
    """a user supplied kernel"""

    def neg_log(self, x, y):
        return ((x - y)**4).sum(axis=tuple(range(3, np.ndim(x)))) if np.ndim(x) > 3 else (x - y)**4


def step(ctx, rng):
    s = gen_spec(rng, classes=['PolarCBO'])
    stops = random_stops(rng, s['M'], s['steps'])
    custom = chance(rng, .1) and s['kw']['kernel'] != 'Constant'
    over = {'kernel': Custom()} if custom else {}
    if custom:
        ctx.seen('custom_kernels')
    law = Law(s, objective(s))
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)], **over)
    ctx.describe(**brief(s), stops=stops, custom=custom)
    sched = param_sched(rng, 'dt', 'lamda', 'sigma', 'alpha')
    law.fixed = sched is None

    def on_step(pre):
        if custom:
            return on_custom(pre)
        out = law.predict(dyn, pre, smp)
        amb = ambiguous(pre, out)
        c, want = np.asarray(dyn.consensus), out['consensus']
        if not ctx.check(c.shape == want.shape, 'consensus-shape', f'{c.shape} instead of {want.shape}', stop=True):
            return
        ctx.check(bool(np.isfinite(c).all()), 'consensus-not-finite', stop=True)
        ctx.close(c, want, 'consensus', f'iteration {pre["it"]} {s["kw"]["kernel"]}', rtol=1e-7, atol=1e-8, mask=~amb, stop=True)
        hull(pre, out, c)
        full = np.zeros((s['M'] * s['N'],), bool)
        full[out['P']] = amb.reshape(amb.shape[:2])
        full = full.reshape(s['M'], s['N'])[(...,) + (None,) * len(s['d'])]
        ctx.close(dyn.x, out['x'], 'step', f'iteration {pre["it"]} {s["kw"]["kernel"]} {s["kw"]["noise"]}', rtol=1e-6, atol=1e-7, mask=~full, stop=True)
        count(pre, out)

    def hull(pre, out, c):
        xc = pre['x'].reshape((-1,) + pre['x'].shape[2:])[out['C']]
        lo, hi = xc.min(1, keepdims=True), xc.max(1, keepdims=True)
        ctx.check(bool(((c >= lo - 1e-10) & (c <= hi + 1e-10)).all()), 'outside-of-hull', f'iteration {pre["it"]}')
        ctx.seen('hull', c.shape[0] * c.shape[1])

    def ambiguous(pre, out):
        """consensus points decided by rounding: constant kernel at its radius"""
        amb = np.zeros(out['P'].shape, bool)
        if s['kw']['kernel'] == 'Constant':
            x = pre['x'].reshape(s['M'] * s['N'], -1)
            D = np.sqrt(((x[out['P']][:, :, None] - x[out['C']][:, None])**2).sum(-1)) / s['kw']['kappa']
            amb = (np.abs(D - 1) < 1e-9).any(-1)
            if s['kw']['noise'] == 'covariance':
                amb = np.broadcast_to(amb.any(-1, keepdims=True), amb.shape)
        return amb[(...,) + (None,) * len(s['d'])]

    def on_custom(pre):
        from ..gen import index_pairs
        C, P = index_pairs(dyn, dyn.consensus_idx), index_pairs(dyn, dyn.particle_idx)
        x = pre['x'].reshape((-1,) + pre['x'].shape[2:])
        xc, xp = x[C], x[P]
        k = ((xp[:, :, None] - xc[:, None])**4).reshape(xp.shape[0], xp.shape[1], xc.shape[1], -1).sum(-1)
        al = np.asarray(pre['alpha'])[pre['active']]
        fac = 1. if s['kw']['kernel_factor_mode'] == 'const' else al[:, :, None]
        w = gibbs_weights(objective(s)(xc)[:, None, :], al[:, :, None], fac * k).astype(float)
        ctx.close(np.asarray(dyn.consensus), np.einsum('kij,kj...->ki...', w, xc), 'consensus', 'custom kernel', rtol=1e-7, atol=1e-8)
        count(pre, dict(C=C, P=P))

    def count(pre, out):
        sel = np.zeros(s['M'] * s['N'], bool)
        sel[out['P'].ravel()] = True
        ctx.check(not (moved(dyn.x, pre['x']) & ~sel.reshape(s['M'], s['N'])).any(), 'unselected-particle-moved')
        ctx.seen('steps')
        if len(pre['active']) < s['M']:
            ctx.seen('steps_subset')
        if out['C'].shape[1] < s['N']:
            ctx.seen('steps_batched')
        if len(s['d']) > 1:
            ctx.seen('steps_multiaxis')
        if s['kw']['noise'] == 'covariance':
            ctx.seen('steps_covariance')
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)
    ctx.sig(*signature(s), s['kw']['kernel'], s['kw']['kappa'], s['kw']['kernel_factor_mode'])


def wide(ctx, rng):
    """with an infinitely wide kernel the dynamic is the unpolarized one"""
    s = gen_spec(rng, classes=['PolarCBO'])
    s['kw']['kappa'] = float(pick(rng, [np.inf, 1e12]))
    if s['kw']['kernel'] == 'Taz' or s['kw']['noise'] == 'covariance':     # (the root amplifies rounding)
        s['kw']['kappa'] = np.inf
    if s['kw']['noise'] == 'covariance':      # of the corrected drift without, of the ensemble with a kernel
        s['kw'].pop('correction', None)
        s['kw'].pop('correction_eps', None)
    stops = random_stops(rng, s['M'], s['steps'])
    ctx.describe(**brief(s), stops=stops)
    a, _, sa = build(s, term_criteria=[PatternTerm(stops)])
    t = copy.deepcopy(s)
    t['cls'] = 'CBO'
    for k in ('kappa', 'kernel', 'kernel_factor_mode'):
        t['kw'].pop(k)
    b, _, sb = build(t, term_criteria=[PatternTerm(stops)])
    log = []
    advance(a, sa, lambda pre: log.append((a.x.copy(), np.array(a.consensus))))
    i = [0]

    def on_step(pre):
        xa, ca = log[i[0]]
        i[0] += 1
        cb = np.asarray(b.consensus)
        ctx.close(ca, np.broadcast_to(cb, ca.shape), 'wide-kernel-consensus', f'step {i[0]}', rtol=1e-5, atol=1e-6)
        ctx.close(xa, b.x, 'wide-kernel-step', f'step {i[0]}', rtol=1e-5, atol=1e-6, stop=True)
    advance(b, sb, on_step)
    ctx.seen('wide_twins')
    ctx.sig('wide', *signature(s), s['kw']['kernel'])


FAMILIES = {'kernels': (kernels, 400), 'consensus': (consensus, 200), 'step': (step, 600), 'wide': (wide, 200)}
