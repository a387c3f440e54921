"""C31: particle initialisation has the requested shape, range and law."""
import numpy as np
from scipy import stats

import cbx.dynamics as cd
from cbx.utils import init_particles

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import pick, chance, BASE

RULE = ('ensembles requested from the helper and from dynamics for random shapes, boxes, deviations and seeds: shape, range, law '
        '(Kolmogorov-Smirnov per ensemble and merged), independence between coordinates, particles, runs and calls; user ensembles of '
        'every form are compared with the state of the dynamic and watched for aliasing; signatures = shape x method x form')
REQUIRE = {'helper': 400, 'normal': 150, 'uniform': 150, 'law_samples': 200000, 'dynamic': 300, 'seeded': 60, 'given': 400, 'promoted': 100,
           'aliasing': 400, 'rejected': 60, 'multi_axis': 60}
ASSUMPTIONS = ['distribution tests reject at p < 1e-9', 'a two-dimensional request for normal particles is one run: shape (1, N, d)']
PMIN = 1e-9


def independent(ctx, X, what):
    """X (M, N, n) standardised"""
    def corr(a, b, name):
        a, b = a.ravel(), b.ravel()
        if a.size < 50:
            return
        r = (a * b).sum() / np.sqrt((a**2 * b**2).sum() + 1e-300)
        ctx.check(abs(r) < 6.5, 'dependence', f'{what}, {name}: correlation {np.corrcoef(a, b)[0, 1]:.3f} over {a.size} pairs')
        ctx.check((a != b).mean() > .99, 'repetition', f'{what}, {name}: {np.mean(a == b):.0%} equal values')
    if X.shape[2] > 1:
        corr(X[..., 0], X[..., 1], 'coordinates')
        corr(X[..., 0], X[..., -1], 'coordinates')
    if X.shape[1] > 1:
        corr(X[:, :-1], X[:, 1:], 'particles')
    if X.shape[0] > 1:
        corr(X[0], X[-1], 'runs')
        corr(X[:-1], X[1:], 'runs')


def helper(ctx, rng):
    method = pick(rng, ['uniform', 'normal', 'default'])
    big = chance(rng, .2)
    if big:
        shape = pick(rng, [(1, 800, 2), (3, 300, 2), (2, 200, 4), (10, 50, 3), (1, 1500, 1), (500, 2, 2)])
    else:
        shape = (sz(rng, 1, 5, BM), sz(rng, 1, 8, BN), sz(rng, 1, 6, BD))
    kw = {}
    lo, hi, delta = -1., 1., 1.
    if chance(rng, .8):
        lo = float(pick(rng, [rng.uniform(-5, 5), 0., -1e-3, -1e6, 3]))
        hi = lo + float(pick(rng, [rng.uniform(.1, 5), 1e-6, 1e3]))
        kw.update(x_min=lo, x_max=hi)
    if chance(rng, .7):
        delta = float(pick(rng, [rng.uniform(.1, 4), 1e-3, 0., 50.]))
        kw['delta'] = delta
    if method != 'default':
        kw['method'] = method
    if not big and chance(rng, .25):
        shape = shape[1:]
    if not big and method != 'normal' and chance(rng, .15):
        shape = pick(rng, [(3,), (2, 3, 2, 2)])
    if chance(rng, .1):
        shape = list(shape)
    ctx.describe(shape=shape, **kw)
    x = init_particles(shape=shape, **kw) if chance(rng, .7) else init_particles(shape, **kw)
    y = init_particles(shape=shape, **kw)
    ctx.seen('helper')
    exp = tuple(shape)
    if method == 'normal' and len(exp) == 2:
        exp = (1,) + exp
    ctx.check(isinstance(x, np.ndarray) and x.shape == exp and x.dtype.kind == 'f', 'shape', f'{np.shape(x)} instead of {exp}', stop=True)
    ctx.check(np.isfinite(x).all(), 'not-finite')
    X = x if x.ndim == 3 else x.reshape((1, -1, x.shape[-1]))
    if method == 'normal':
        ctx.seen('normal')
        if delta == 0:
            ctx.check((x == 0).all(), 'deviation', 'deviation zero')
            return
        Z = X / delta
        ctx.check(np.abs(Z).max() < 9, 'range', f'{np.abs(Z).max():.1f} standard deviations')
        dist = 'norm'
    else:
        ctx.seen('uniform')
        ctx.check((x >= lo).all() and (x <= hi).all(), 'range', f'[{x.min()}, {x.max()}] in the box [{lo}, {hi}]')
        Z = (X - lo) / (hi - lo)
        dist = 'uniform'
    if X.size > 1:
        ctx.check((x != y).any(), 'repetition', 'two calls give the same ensemble')
        ctx.check(len(np.unique(X)) > .9 * X.size or hi - lo < 1e-5, 'repetition', f'{len(np.unique(X))} different values among {X.size}')
    key = 'merged-' + dist
    ctx.data.setdefault(key, []).append(Z.ravel()[:50].astype(float) if hi - lo > 1e-5 or dist == 'norm' else np.zeros(0))
    if X.size >= 300 and (dist == 'norm' or hi - lo > 1e-5):
        ctx.seen('law_samples', X.size)
        for j in range(min(3, Z.shape[2])):
            p = stats.kstest(Z[..., j].ravel(), dist).pvalue
            ctx.check(p > PMIN, 'distribution', f'{dist}: coordinate {j}: p={p:.1e}, mean {Z[..., j].mean():.3f}, deviation {Z[..., j].std():.3f}')
        independent(ctx, Z if dist == 'norm' else (Z - .5) * np.sqrt(12), 'helper')
    ctx.sig('helper', tuple(shape) if not big else 'big', method, sorted(kw))


class Plain:
    def __call__(self, x):
        return (x.reshape(x.shape[:2] + (-1,))**2).sum(-1)


def dynamic(ctx, rng):
    """ensembles made by a dynamic"""
    cls = pick(rng, BASE)
    M, N, d = int(rng.integers(1, 5)), int(rng.integers(1, 60)), int(rng.integers(2, 5))
    big = chance(rng, .1)
    if big:
        M, N, d = 3, 500, 2
    seed = int(rng.integers(0, 2**31)) if chance(rng, .5) else None
    if seed is not None and chance(rng, .2):
        seed %= 1000
    kw = dict(M=M, N=N, d=d, f_dim='3D', verbosity=0)
    if seed is not None:
        kw['seed'] = seed
    ctx.describe(cls=cls, M=M, N=N, d=d, seed=seed)
    a = getattr(cd, cls)(Plain(), **kw)
    b = getattr(cd, cls)(Plain(), **kw)
    ctx.seen('dynamic')
    for q in (a, b):
        ctx.check(q.x.shape == (M, N, d) and (q.M, q.N, tuple(q.d)) == (M, N, (d,)), 'shape', f'{q.x.shape}', stop=True)
        ctx.check((q.x >= -1).all() and (q.x <= 1).all(), 'range', f'[{q.x.min()}, {q.x.max()}]')
    if seed is not None:
        ctx.seen('seeded')
        ctx.equal(b.x, a.x, 'seed-not-used', f'seed {seed}')
        c = getattr(cd, cls)(Plain(), **dict(kw, seed=seed + 1))
        ctx.check((c.x != a.x).any(), 'seed-not-used', 'another seed gives the same ensemble')
    else:
        ctx.check((a.x != b.x).any(), 'repetition', 'two dynamics start with the same ensemble')
    if N * M * d > 1:
        ctx.check(len(np.unique(a.x)) > .9 * a.x.size, 'repetition')
    if seed is None or seed >= 1000:
        # small seeds repeat between cases: their ensembles are not independent
        ctx.data.setdefault('merged-dynamic', []).append(((a.x + 1) / 2).ravel()[:50])
    if a.x.size > 300:
        ctx.seen('law_samples', a.x.size)
        p = stats.kstest(((a.x + 1) / 2).ravel(), 'uniform').pvalue
        ctx.check(p > PMIN, 'distribution', f'start of a dynamic: p={p:.1e}, mean {a.x.mean():.3f}, deviation {a.x.std():.3f}')
        independent(ctx, a.x * np.sqrt(3), 'dynamic')
    ctx.sig('dynamic', cls, M > 1, min(N, 2), d, seed is not None)


def given(ctx, rng):
    """ensembles of the user"""
    multi = chance(rng, .2)
    cls = pick(rng, ['CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO'] if multi else BASE)
    M, N = sz(rng, 1, 4, BM), sz(rng, 1, 7, BN)
    d = pick(rng, [(2, 2), (3, 1), (2, 1, 2)]) if multi else (int(rng.integers(2, 5)) if chance(rng, .85) else int(rng.integers(5, 15)),)
    form = pick(rng, ['full', 'full', 'run', 'point'] if not multi else ['full'])
    if form == 'run':
        M = 1
    elif form == 'point':
        M = N = 1
    # inside of every domain
    x = rng.uniform(.05, .6, (M, N) + d)
    kind = pick(rng, ['array', 'list', 'ints', 'unsigned', 'float32', 'fortran', 'readonly', 'strided'])
    if kind == 'unsigned':
        x = np.ones((M, N) + d) if cls in ('MirrorCBO', 'HyperSurfaceCBO') else rng.integers(0, 2, (M, N) + d).astype(float)
    if kind == 'ints':
        x = np.ones((M, N) + d) if cls in ('MirrorCBO', 'HyperSurfaceCBO') else rng.integers(-3, 4, (M, N) + d).astype(float)
    u = x[0] if form == 'run' else (x[0, 0] if form == 'point' else x)
    if kind == 'list':
        u = u.tolist()
    elif kind == 'ints':
        u = u.astype(int)
    elif kind == 'unsigned':
        u = u.astype(pick(rng, [np.uint8, np.uint16, np.uint64, bool, np.int8]))
    elif kind == 'float32':
        u = u.astype(np.float32)
        x = u.astype(float).reshape(x.shape)
    elif kind == 'fortran':
        u = np.asfortranarray(u)
    elif kind == 'readonly':
        u = u.copy()
        u.setflags(write=False)
    elif kind == 'strided':
        w = np.zeros(u.shape[:-1] + (2 * u.shape[-1],))
        w[..., ::2] = u
        u = w[..., ::2]
    else:
        u = u.copy()
    keep = np.array(u)
    kw = dict(f_dim='3D', verbosity=0, max_it=3)
    if chance(rng, .5):
        # M, N and d of the constructor do not matter then
        kw.update(M=sz(rng, 1, 5, BM), N=sz(rng, 1, 9, BN), d=sz(rng, 1, 5, BD))
    if chance(rng, .5):
        kw['seed'] = 1
    noise = {} if cls in ('CBS', 'HyperSurfaceCBO') else dict(noise='constant', sigma=.5)
    ctx.describe(cls=cls, M=M, N=N, d=list(d), form=form, kind=kind, **{'arg_' + k: v for k, v in kw.items()})
    dyn = getattr(cd, cls)(Plain(), x=u, **kw, **noise)
    ctx.seen('given')
    ctx.seen('promoted', form != 'full')
    ctx.seen('multi_axis', multi)
    ctx.check(dyn.x.shape == (M, N) + d and (dyn.M, dyn.N, tuple(dyn.d)) == (M, N, d), 'shape', f'{dyn.x.shape} instead of {(M, N) + d}', stop=True)
    ctx.equal(np.asarray(dyn.x, float), x, 'start-changed', kind)
    if cls in ('CBOMemory', 'PSO'):
        ctx.equal(np.asarray(dyn.y, float), x, 'memory-start', kind)
    ctx.seen('aliasing')
    if isinstance(u, np.ndarray):
        ctx.check(not np.shares_memory(u, dyn.x), 'start-aliased', 'dyn.x shares memory with the array of the user')
        if cls in ('CBOMemory', 'PSO'):
            ctx.check(not np.shares_memory(dyn.x, dyn.y) and not np.shares_memory(u, dyn.y), 'memory-aliased')
    dyn.optimize()
    ctx.equal(np.array(u), keep, 'users-array-changed', 'after running the dynamic')
    if isinstance(u, np.ndarray) and u.flags.writeable:
        y, best = np.array(dyn.x), np.array(dyn.best_particle)
        u[...] = 7
        ctx.equal(dyn.x, y, 'start-aliased', 'changing the array of the user changes the particles')
        ctx.equal(dyn.best_particle, best, 'start-aliased', 'changing the array of the user changes the result')
    ctx.sig('given', cls, form, kind, M > 1, N > 1, len(d))


def rejected(ctx, rng):
    opt = pick(rng, [dict(shape=(3,), method='normal'), dict(shape=(2, 3, 4, 5), method='normal'), dict(shape=(2, 3, 4), method='gaussian'),
                     dict(shape=(2, 3), method=''), dict(shape=(2, 3, 4), method=None)])
    ctx.describe(**opt)
    try:
        x = init_particles(**opt)
    except RuntimeError:
        x = None
    ctx.seen('rejected')
    ctx.check(x is None, 'invalid-accepted', f'{opt} gives an array of shape {np.shape(x)}')
    try:
        cd.CBO(Plain(), f_dim='3D', M=2, N=3)
        ctx.check(False, 'invalid-accepted', 'a dynamic without dimension and start')
    except RuntimeError:
        ctx.seen('rejected')
    ctx.sig('rejected', sorted(opt))


def finish(ctx, data, counts):
    for key, dist in (('merged-uniform', 'uniform'), ('merged-norm', 'norm'), ('merged-dynamic', 'uniform')):
        Z = [z for part in data.get(key, []) for z in part]
        if not Z:
            continue
        Z = np.concatenate(Z)
        ctx.seen('merged_samples', Z.size)
        p = stats.kstest(Z, dist).pvalue
        ctx.check(p > PMIN, 'distribution', f'{key}: p={p:.1e} over {Z.size} samples, mean {Z.mean():.3f}')


FAMILIES = {'helper': (helper, 700), 'dynamic': (dynamic, 400), 'given': (given, 600), 'rejected': (rejected, 40)}
