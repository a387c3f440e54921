"""C18: objectives are applied to particles one by one whatever their interface."""
import numpy as np

import cbx.dynamics as cd
from cbx.utils.objective_handling import (_promote_objective, cbx_objective, cbx_objective_fh, cbx_objective_f1D,
                                          cbx_objective_f2D)

from ..bench import make, NAMES
from ..drive import advance
from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import gen_spec, build, objective, pick, chance, brief, signature, Obj, OBJ_KINDS, RecObj, TickSampler, PatternTerm

RULE = ('one mathematical objective offered through every interface (function of a point, a list of points, the ensemble; plain callables, '
        'objective classes, benchmark instances; values of mixed python and numpy types): the points the user code receives and the '
        'energies that come back are compared particle by particle for every shape; other particles of a call are replaced and the '
        'values must stay; ill-shaped objectives have to be rejected; whole optimizations agree over the interfaces; all numbers of points up to 1200 are offered. '
        'Distinct by interface, shape and objective.')
REQUIRE = {'energies': 10000, 'received_points': 5000, 'singleton': 200, 'replaced': 200, 'rejected': 200, 'accepted_unchecked': 30,
           'mixed_types': 100, 'twins': 60, 'counted_points': 500, 'benchmarks': 200, 'multiaxis': 50, 'typed': 100, 'counts': 3000}
ASSUMPTIONS = []


class Any:
    """a function of a single point with values of several types"""

    def __init__(self, o, kind):
        self.o, self.kind = o, kind

    def want(self, z):
        v = self.o.value(z)
        if self.kind == 'int-first':
            return np.where(z[..., 0] < 0, np.floor(v), v)
        if self.kind == 'bool':
            return (v > 1).astype(float)
        return v

    def __call__(self, z):
        v = self.want(z)
        if self.kind == 'int-first' and z[0] < 0:
            return int(v)
        if self.kind == 'bool':
            return bool(v)
        if self.kind == 'float':
            return float(v)
        if self.kind == 'array0':
            return np.array(v)
        if self.kind == 'array1':
            return np.array([v])
        return v


def shapes(rng):
    M, N, n = int(pick(rng, [1, 1, 2, 3, 5])), int(pick(rng, [1, 1, 2, 3, 4, 7])), int(pick(rng, [1, 1, 2, 3, 6]))
    if chance(rng, .04):
        return pick(rng, [(BM[0], N, n), (BM[1], N, n), (M, BN[0], n), (M, BN[2], n), (M, N, BD[1])])
    return M, N, n


def promote(ctx, rng):
    M, N, n = shapes(rng)
    o = Obj(str(pick(rng, OBJ_KINDS)), n, rng)
    fd = str(pick(rng, ['1D', '2D', '3D']))
    deep = fd == '3D' and chance(rng, .3)
    d = pick(rng, [(1, n), (n, 1), (1, n, 1)]) if deep else (n,)
    kind = str(pick(rng, ['numpy', 'float', 'int-first', 'bool', 'array0', 'array1'])) if fd == '1D' else 'numpy'
    a = Any(o, kind)
    log = []

    def user(z):
        log.append((np.shape(z), np.array(z)))
        if fd == '1D':
            return a(z)
        if fd == '2D':
            v = o.value(z)
            return v[:, None] if mode2 == 'column' else v
        return o(z)
    mode2 = str(pick(rng, ['flat', 'flat', 'column']))
    how = str(pick(rng, ['dynamic', 'particle', 'promote', 'class']))
    ctx.describe(M=M, N=N, d=d, interface=fd, kind=kind, how=how)
    x0 = rng.uniform(-1, 1, (M, N) + d)
    if how == 'dynamic':
        dyn = cd.CBO(user, f_dim=fd, x=x0, verbosity=0)
        f = dyn.f
    elif how == 'particle':
        f = cd.ParticleDynamic(user, f_dim=fd, x=x0, verbosity=0).f
    elif how == 'class':
        f = {'1D': cbx_objective_f1D, '2D': cbx_objective_f2D, '3D': cbx_objective_fh}[fd](user)
    else:
        f = _promote_objective(user, fd)
    log.clear()
    K, P = (M, N) if chance(rng, .5) else (int(rng.integers(1, 4)), int(rng.integers(1, 5)))
    x = rng.uniform(-1.5, 1.5, (K, P) + d)
    if chance(rng, .2):
        x = x[:, ::-1]                       # not contiguous
    if chance(rng, .2):
        x = np.asfortranarray(x)
    if chance(rng, .2):                      # the values do not inherit the type of the particles
        x = np.rint(3 * x).astype(pick(rng, [int, 'int32', 'float32', 'float16']))
        ctx.seen('typed')
    keep = x.copy()
    before = getattr(f, 'num_eval', None)
    v = np.asarray(f(x))
    got = list(log)
    want = a.want(np.reshape(x, (K, P, -1)))
    ctx.check(v.shape == (K, P), 'energy-shape', f'{fd} {how}: {v.shape} for {x.shape}', stop=True)
    ctx.close(v, want, 'energy', f'{fd} {how} {kind}', rtol=1e-12, atol=1e-12)
    ctx.equal(x, keep, 'argument-modified', fd)
    ctx.seen('energies', v.size)
    if before is not None and not deep:
        ctx.check(f.num_eval - before == K * P, 'points-counted', f'{f.num_eval - before} instead of {K * P}')
        ctx.seen('counted_points', K * P)
        if hasattr(f, 'reset') and chance(rng, .2):
            f.reset()
            ctx.check(f.num_eval == 0, 'points-counted', 'after a reset')
            f(x[:, :1])
            ctx.check(f.num_eval == K, 'points-counted', f'after a reset: {f.num_eval}')
    # what the user code received: every particle exactly once, with the documented shape
    tail, lead = {'1D': ((n,), 0), '2D': ((n,), 1), '3D': (d, 2)}[fd]
    ctx.check(all(len(s) == lead + len(tail) and s[lead:] == tail for s, _ in got), 'received-shape', f'{fd}: {[s for s, _ in got][:3]}')
    pts = np.concatenate([g.reshape(-1, n) for _, g in got])
    ctx.check(pts.shape[0] == K * P, 'received-points', f'{fd}: {pts.shape[0]} points instead of {K * P}', stop=True)
    key = lambda z: np.array(sorted(map(tuple, z.reshape(-1, n))))
    ctx.equal(key(pts), key(keep), 'received-points', fd)
    ctx.seen('received_points', K * P)
    if kind != 'numpy':
        ctx.seen('mixed_types')
    if 1 in (M, N, K, P) or n == 1:
        ctx.seen('singleton')
    if deep:
        ctx.seen('multiaxis')
    # lists of points and single points
    if fd in ('1D', '2D') and not deep:
        y = x[0]
        ctx.close(np.asarray(f(y)), want[:1], 'energy-of-list', fd, rtol=1e-12, atol=1e-12)
        ctx.close(np.asarray(f(y[0])), want[:1, :1], 'energy-of-point', fd, rtol=1e-12, atol=1e-12)
    ctx.sig(M, N, d, fd, kind, how, K, P)


class Counted(cbx_objective):
    """a user's own objective class"""

    def __init__(self, o):
        super().__init__()
        self.o = o

    def apply(self, x):
        return self.o.value(x)


def instances(ctx, rng):
    """objective instances (benchmarks, own classes): independent of the other particles, counting points"""
    M, N, n = shapes(rng)
    if chance(rng, .8):
        b = make(rng, NAMES[int(ctx.case[1]) % len(NAMES)])
        lib, n, name = b.lib, b.n, b.name
    else:
        lib, name = Counted(Obj(str(pick(rng, OBJ_KINDS)), n, rng)), 'own'
    ctx.seen('benchmarks')
    x = rng.uniform(-2, 2, (M, N, n))
    ctx.describe(function=name, M=M, N=N, d=n)
    lib.reset()
    v = np.asarray(lib(x))
    ctx.check(v.shape == (M, N), 'energy-shape', f'{name}: {v.shape} for {x.shape}', stop=True)
    ctx.check(lib.num_eval == M * N, 'points-counted', f'{name}: {lib.num_eval} instead of {M * N}')
    ctx.seen('counted_points', M * N)
    # alone, in a list and with other neighbours
    alone = np.array([[float(lib(x[m, i])) for i in range(N)] for m in range(M)])
    ctx.close(v, alone, 'value-depends-on-other-particles', name, rtol=1e-9, atol=1e-10)
    ctx.check(lib.num_eval == 2 * M * N, 'points-counted', f'{name}: {lib.num_eval} instead of {2 * M * N}')
    m, i = int(rng.integers(M)), int(rng.integers(N))
    y = rng.uniform(-2, 2, x.shape) * 10.**rng.integers(-2, 2)
    y[m, i] = x[m, i]
    ctx.close(np.asarray(lib(y))[m, i], v[m, i], 'value-depends-on-other-particles', name, rtol=1e-9, atol=1e-10)
    p = rng.permutation(N)
    ctx.close(np.asarray(lib(x[:, p])), v[:, p], 'value-depends-on-order', name, rtol=1e-9, atol=1e-10)
    ctx.seen('replaced')
    # the same values through a dynamic, whatever interface is declared
    fd = str(pick(rng, ['1D', '2D', '3D']))
    dyn = cd.CBO(lib, f_dim=fd, x=x, verbosity=0)
    lib.reset()
    e = np.asarray(dyn.f(x))
    ctx.close(e, v, 'energy', f'{name} declared {fd}', rtol=1e-9, atol=1e-10)
    ctx.check(lib.num_eval == M * N, 'points-counted', f'{name} declared {fd}: {lib.num_eval} instead of {M * N}')
    ctx.seen('energies', e.size)
    ctx.sig('instance', name, fd, M, N, n)


def reject(ctx, rng):
    """objectives of wrong output shape, not callable objects and unknown interfaces"""
    M, N, n = shapes(rng)
    fd = str(pick(rng, ['1D', '2D', '3D']))
    bad = {
        '1D': [lambda z: z if n > 1 else np.zeros(2), lambda z: np.zeros((2, 3)), lambda z: [1., 2.], lambda z: None],
        '2D': [lambda z: np.zeros(z.shape[0] + 1), lambda z: np.zeros((z.shape[0], 3)), lambda z: np.zeros(2 * z.shape[0]),
               lambda z: np.zeros(())],
        '3D': [lambda z: np.zeros(z.shape[:2] + (1,)), lambda z: np.zeros(z.shape[0]), lambda z: np.zeros(z.shape[1::-1] + (2,)),
               lambda z: np.zeros((z.shape[0], z.shape[1] + 1)), lambda z: np.zeros((z.shape[0] + 1, z.shape[1])), lambda z: np.zeros(()),
               lambda z: np.zeros((1, z.shape[0] * z.shape[1])), lambda z: np.zeros(z.shape)],
    }[fd]
    i = int(rng.integers(len(bad)))
    if fd == '2D' and i == 3 and M * N == 1 or fd == '3D' and i == 6 and M == 1:
        return
    if fd == '1D' and i == 3:
        # a function without value gives an array of objects: rejected or at least never silently a number
        return
    ctx.describe(M=M, N=N, d=n, interface=fd, bad=i)
    name = str(pick(rng, ['CBO', 'PSO', 'CBOMemory', 'AdamCBO', 'PolarCBO', 'MirrorCBO', 'CBS', 'DriftConstrainedCBO', 'ParticleDynamic',
                          'HyperSurfaceCBO', 'RegCombinationCBO']))
    kw = dict(f_dim=fd, verbosity=0)
    if chance(rng, .5):
        kw['x'] = rng.uniform(-1, 1, (M, N, n))
    else:
        kw.update(M=M, N=N, d=n)
    try:
        getattr(cd, name)(bad[i], **kw)
        ok = False
    except (ValueError, TypeError, IndexError):
        ok = True
    ctx.check(ok, 'wrong-shape-accepted', f'{name} {fd} #{i} M={M} N={N} n={n}')
    ctx.seen('rejected')
    for nope in (1., 'Rastrigin', None, np.zeros(3)):
        try:
            getattr(cd, name)(nope, **kw)
            ok = False
        except (TypeError, ValueError):
            ok = True
        ctx.check(ok, 'not-callable-accepted', f'{name} {nope!r}')
    for dim in ('0D', '4D', 2, None, ''):
        try:
            getattr(cd, name)(lambda z: 0., **dict(kw, f_dim=dim))
            ok = False
        except (TypeError, ValueError):
            ok = True
        ctx.check(ok, 'unknown-interface-accepted', f'{name} {dim!r}')
    # without the check nothing is evaluated at construction
    calls = []

    def f(z):
        calls.append(1)
        return (z**2).sum(-1)
    dyn = cd.CBO(f, check_f_dims=False, **kw)
    ctx.check(not calls and not dyn.num_f_eval.any(), 'evaluated-without-check', f'{len(calls)} calls, counter {dyn.num_f_eval}')
    ctx.seen('accepted_unchecked')
    ctx.sig('reject', name, fd, i, M, N, n)


def twins(ctx, rng):
    """the whole optimization is the same for all interfaces"""
    s = gen_spec(rng, f_dims=['1D'], multi=False, long=0.)
    ctx.describe(**brief(s))
    ref = None
    for fd in ('1D', '2D', '3D'):
        t = dict(s, f_dim=fd)
        dyn, rec, smp = build(t, term_criteria=[PatternTerm([s['steps']] * s['M'])])
        xs = []
        advance(dyn, smp, lambda pre: xs.append((dyn.x.copy(), dyn.best_energy.copy(), dyn.num_f_eval.copy())))
        if ref is None:
            ref = xs
            continue
        if s['cls'] in ('DriftConstrainedCBO', 'RegCombinationCBO') and len(s['kw'].get('constraints') or []):
            continue        # ill-conditioned systems amplify the rounding of the objective
        for k, (a, b) in enumerate(zip(ref, xs)):
            tol = 1e-6 if s['kw'].get('correction') == 'heavi_side_reg' or s['cls'] in ('AdamCBO', 'CBS', 'PolarCBO') or s['kw']['noise'] == 'covariance' else 1e-8
            if s['kw'].get('correction') != 'heavi_side':
                if not ctx.close(b[0], a[0], 'interface-changes-trajectory', f'{fd} step {k}', rtol=tol, atol=tol):
                    break
                ctx.close(b[1], a[1], 'interface-changes-best-energy', f'{fd} step {k}', rtol=tol, atol=tol)
            ctx.equal(b[2], a[2], 'interface-changes-evaluations', f'{fd} step {k}')
    ctx.seen('twins')
    ctx.sig('twins', *signature(s))


def count(ctx, rng):
    """every number of points: lists and ensembles of 1, 2, 3, ... particles"""
    k = int(ctx.case[1])
    n = int(pick(rng, [1, 2, 3]))
    o = Obj(str(pick(rng, OBJ_KINDS)), n, rng)
    name = NAMES[k % len(NAMES)]
    b = make(rng, name)
    fs = {'2D': _promote_objective(o.value, '2D'), '3D': cbx_objective_fh(o.value), 'own': Counted(o), 'bench': b.lib}
    lo = 12 * k + 1
    ctx.describe(points=[lo, lo + 11], function=name, d=n)
    for P in list(range(lo, lo + 12)) + [int(rng.integers(1500, 6000))]:
        for key, f in fs.items():
            q = b.n if key == 'bench' else n
            z = rng.uniform(-1.5, 1.5, (P, q))
            M = int(pick(rng, [1, P] + [m for m in (2, 3, 5, 7) if P % m == 0]))
            x = z.reshape(M, P // M, q)
            f.reset()
            v = np.asarray(f(x))
            if not ctx.check(v.shape == x.shape[:2], 'energy-shape', f'{key}: {v.shape} for {x.shape}'):
                continue
            want = o.value(z) if key != 'bench' else None
            if key == 'bench':      # the same points in two calls
                h = int(rng.integers(0, P + 1))
                want = np.concatenate([np.asarray(b.lib(u[None])).ravel() for u in (z[:h], z[h:]) if len(u)])
                ctx.check(f.num_eval == 2 * P, 'points-counted', f'{key}: {f.num_eval} instead of {2 * P}')
            else:
                ctx.check(f.num_eval == P, 'points-counted', f'{key}: {f.num_eval} instead of {P}')
            ctx.close(v.ravel(), want, 'energy', f'{key} {P} points as {x.shape}', rtol=1e-9, atol=1e-10)
            ctx.seen('counts')
            ctx.seen('counted_points', P)
    if k % 10 == 0:
        P = int(rng.integers(60, 400))
        x = rng.uniform(-1, 1, (1, P, n))
        ctx.close(np.asarray(_promote_objective(o.value, '1D')(x)), o.value(x), 'energy', f'1D {P} points', rtol=1e-12, atol=1e-12)
    ctx.sig('count', k)


FAMILIES = {'count': (count, 100), 'promote': (promote, 1200), 'instances': (instances, 480), 'reject': (reject, 300), 'twins': (twins, 120)}
