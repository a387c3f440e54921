"""C19: benchmark objectives match their definition and their stated minima."""
import numpy as np

from ..bench import make, stated, NAMES
from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import pick, chance

RULE = ('all benchmark functions with default and random parameters on ensembles of every shape (singleton runs, particles, dimensions, '
        'points, lists of points, integer arrays, coincident and extreme points): every value against an independent scalar '
        'implementation of the documented formula; descent searches (random, grid, started at the minimisers and at the best points '
        'found) that look for values below the stated minimum. Distinct by function, parameters and shape.')
REQUIRE = {'values': 20000, 'functions': 24, 'singleton': 300, 'minimisers': 300, 'search_points': 200000, 'parametrised': 200,
           'integer_input': 30, 'points': 50}
ASSUMPTIONS = ['functions without documented formula are compared with the formula they implement on the reference commit',
               'the stated minimisers are rounded to the stated digits; a lower value counts from 1e-6 of its size (eggholder 1e-4)']


def values(ctx, rng, name=None):
    b = make(rng, name)
    shape = (int(pick(rng, [1, 1, 2, 3, 4])), int(pick(rng, [1, 1, 2, 3, 5, 8])) if chance(rng, .96) else int(pick(rng, BN)))
    k = pick(rng, ['ensemble', 'ensemble', 'list', 'point', 'deep'])
    shape = {'ensemble': shape, 'list': shape[1:], 'point': (), 'deep': shape + (2,)}[k]
    w = float(pick(rng, [.01, 1., b.wide]))
    x = rng.uniform(-w, w, shape + (b.n,))
    m = stated(b)
    if m is not None and chance(rng, .3):
        x = np.array(m[rng.integers(len(m), size=shape)], float) + rng.choice([0., 1e-8, 1e-3]) * rng.standard_normal(shape + (b.n,))
    if chance(rng, .1) and len(shape) > 1:
        x[:] = x[:1, :1]
    if chance(rng, .1):
        x = np.where(rng.random(x.shape) < .4, 0., x)
    if chance(rng, .1):
        x = rng.integers(-3, 4, x.shape)
        ctx.seen('integer_input')
    ctx.describe(function=b.name, shape=shape, n=b.n, key=b.key)
    x0 = x.copy()
    v = np.asarray(b.lib(x))
    ctx.check(v.shape == shape, 'value-shape', f'{b.name}: {v.shape} for {shape}', stop=True)
    ctx.equal(x, x0, 'argument-modified', b.name)
    ctx.check(bool(np.isfinite(v).all()), 'value-not-finite', f'{b.name} {x[~np.isfinite(v)][:2]}', stop=True)
    want = b.values(x)
    ctx.close(v, want, 'formula', f'{b.name} {b.key}', rtol=1e-7, atol=1e-7 * max(1., float(np.abs(want).max()) * 1e-6))
    ctx.seen('values', v.size)
    ctx.seen('value:' + b.name)
    if 1 in shape or b.n == 1:
        ctx.seen('singleton')
    if k == 'point':
        ctx.seen('points')
    if b.key:
        ctx.seen('parametrised')
    ctx.sig(b.name, b.key, shape, b.n)


def far(ctx, rng):
    """finite far away from the modes, where the post-processing still allows particles"""
    b = make(rng, str(pick(rng, [n for n in NAMES if n not in ('cross_in_tray', 'Holder_table')])))
    x = rng.uniform(-1, 1, (2, 4, b.n)) * 10.**float(rng.uniform(2, 8))
    v = np.asarray(b.lib(x))
    ctx.describe(function=b.name, n=b.n, key=b.key)
    ctx.check(v.shape == (2, 4) and bool(np.isfinite(v).all()), 'value-not-finite', f'{b.name} {v}', stop=True)
    if b.name in ('Bimodal', 'Unimodal', 'Multimodal', 'Quadratic', 'three_hump_camel', 'Banana', 'Rosenbrock', 'p_4th_order', 'Himmelblau'):
        ctx.close(v, b.values(x), 'formula', f'{b.name} far away', rtol=1e-6)
    ctx.seen('far')
    ctx.sig('far', b.name, b.key)


def minima(ctx, rng, name=None):
    """nothing in the domain is below the stated minimum"""
    for _ in range(20):
        b = make(rng, name)
        m = stated(b)
        if m is not None:
            break
    else:
        return
    ctx.describe(function=b.name, n=b.n, key=b.key)
    ctx.check(m.ndim == 2 and m.shape[1] == b.n, 'minima-shape', f'{b.name}: {m.shape} for dimension {b.n}', stop=True)
    dom = b.domain or [(-b.wide, b.wide)] * b.n
    lo, hi = np.array([d[0] for d in dom], float), np.array([d[1] for d in dom], float)
    ctx.check(bool(((m >= lo - 1e-9) & (m <= hi + 1e-9)).all()), 'minimiser-outside-of-domain', f'{b.name}: {m}')
    vals = b.values(m)
    ctx.check(bool(np.ptp(vals) <= b.tol * (1 + np.abs(vals).max())), 'stated-minimisers-differ', f'{b.name}: {vals}')
    low = vals.min()
    # values of the library: the formula is compared by the other family
    f = lambda z: np.asarray(b.lib(z[None]))[0]
    K = 4000
    x = np.concatenate([rng.uniform(lo, hi, (K, b.n)),
                        np.clip(m[rng.integers(len(m), size=K)] + rng.standard_normal((K, b.n)) * 10.**rng.uniform(-5, 0, (K, 1)) * (hi - lo) / 10, lo, hi)])
    n, s = 0, (hi - lo) / 20
    best = x
    for it in range(25):
        v = f(x)
        n += len(x)
        o = np.argsort(v)[:60]
        best = x[o]
        if v[o[0]] < low - b.tol * (1 + abs(low)):
            break
        x = np.clip(np.repeat(best, 10, axis=0) + s * .7**it * rng.standard_normal((600, b.n)), lo, hi)
        x[:60] = best
    v = f(best)
    i = int(v.argmin())
    ctx.seen('search_points', n)
    ctx.check(bool(v[i] >= low - b.tol * (1 + abs(low))), 'stated-minimum-is-not-global',
              f'{b.name} {b.key}: {v[i]} at {best[i]} is below {low} at {m[vals.argmin()]}')
    ctx.seen('minimisers', len(m))
    ctx.seen('minima:' + b.name)
    ctx.sig('minima', b.name, b.key)


def every(ctx, rng):
    """every function once by name, independent of the random choice"""
    name = NAMES[int(ctx.case[1]) % len(NAMES)]
    values(ctx, rng, name)
    minima(ctx, rng, name)


def finish(ctx, data, counts):
    n = sum(1 for k in NAMES if counts['value:' + k] > 0)
    counts['functions'] = n


FAMILIES = {'values': (values, 4500), 'every': (every, 4 * len(NAMES)), 'far': (far, 300), 'minima': (minima, 300)}
