"""C27: dynamics respect the symmetries of the problem."""
import copy

import numpy as np

from ..core import StepLimit
from ..gen import gen_spec, build, pick, chance, brief, signature, random_stops, PatternTerm, objective, start

RULE = ('pairs of executions: a random history of a dynamic and its image under a symmetry (translation, energy offset, energy '
        'scale against alpha, dilation, orthogonal maps for isotropic noise, signed coordinate permutations, relabelled particles, '
        'relabelled runs, combinations), with transformed objective and noise, compared after every step and synchronised '
        'afterwards so that rounding cannot accumulate; signatures = configuration x symmetry')
REQUIRE = {'pairs': 1000, 'steps': 5000, 'translation': 150, 'offset': 150, 'scale': 150, 'dilation': 100, 'orthogonal': 100,
           'signed_permutation': 150, 'particles': 100, 'runs': 60, 'subset': 200, 'batched': 200, 'multi_axis': 100, 'constrained': 60,
           'moved': 3000}
ASSUMPTIONS = ['noise and evaluation points are compared up to rounding (relative 1e-6 of the size of the ensemble), not bit for bit']


class SymSampler:
    """numbers of every run are determined by (tick, draw within the tick); transformed by `tr`"""
    def __init__(self, seed, M, N, d, tr=None):
        self.seed, self.M, self.N, self.d, self.tr = seed, M, N, d, tr
        self.tick = self.draw = 0
        self.dyn = None

    def next(self):
        self.tick += 1
        self.draw = 0

    def __call__(self, size=None):
        if self.dyn is None:
            return np.random.default_rng(self.seed).standard_normal(size)
        size = tuple(size)
        z = np.random.default_rng([self.seed, self.tick, self.draw, size[1]]).standard_normal((self.M,) + size[1:])
        self.draw += 1
        if self.tr is not None:
            z = self.tr.noise(z)
        rows = np.array(self.dyn.active_runs_idx)
        if size[0] != len(rows):
            return np.random.default_rng([self.seed, self.tick]).standard_normal(size)
        return z[rows]


class Tr:
    """x' = s R (x permuted) + b  ,  e' = q e + o"""
    def __init__(self, M, N, d):
        n = int(np.prod(d))
        self.M, self.N, self.d, self.n = M, N, tuple(d), n
        self.R, self.b, self.s, self.q, self.o = np.eye(n), np.zeros(n), 1., 1., 0.
        self.particles, self.runs = np.arange(N), np.arange(M)
        self.componentwise = False      # anisotropic noise: drift times numbers, the drift carries the signs

    def coords(self, x, full=True):
        """coordinate part"""
        sh = x.shape
        return (self.s * x.reshape(sh[:-len(self.d)] + (self.n,)) @ self.R.T + (self.b if full else 0)).reshape(sh)

    def inv(self, x):
        """flat points (..., n) of the image to the original"""
        return ((x - self.b) @ self.R) / self.s

    def relabel(self, a):
        return a[self.runs][:, self.particles] if a.shape[1] == self.N else a[self.runs]

    def ensemble(self, x):
        return self.coords(self.relabel(x))

    def vector(self, v):
        return self.coords(self.relabel(v), full=False)

    def noise(self, z):
        z = z[self.runs]
        if z.shape[1] == self.N:
            z = z[:, self.particles]
        sh = z.shape
        R = np.abs(self.R) if self.componentwise else self.R
        return (z.reshape(sh[:2] + (self.n,)) @ R.T).reshape(sh)

    def energy(self, e):
        return self.q * (self.relabel(e)) + self.o


class TObj:
    """objective of the image"""
    def __init__(self, f, tr):
        self.f, self.tr = f, tr

    def value(self, z):
        return self.tr.q * self.f.value(self.tr.inv(z)) + self.tr.o

    def __call__(self, x):
        return self.value(np.reshape(x, x.shape[:2] + (-1,)))


CLS = ['CBO', 'CBO', 'CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO', 'PolarCBO', 'CBS', 'DriftConstrainedCBO', 'RegCombinationCBO',
       'MirrorCBO', 'HyperSurfaceCBO']


def haar(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def case(ctx, rng):
    cls = pick(rng, CLS)
    s = gen_spec(rng, classes=[cls], batch=None, wide=0., long=0.)
    kw = s['kw']
    if cls in ('CBO', 'PolarCBO') and len(s['d']) == 1 and chance(rng, .25):
        kw['noise'] = 'covariance'
        kw.pop('batch_args', None)
        kw['correction'] = 'no_correction'
    cons = None
    if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
        cons = [c for c in (kw.get('constraints') or []) if c['name'] != 'quadric']
        kw['constraints'] = cons or None
        kw['eps'] = max(kw['eps'], .1)
        kw['nu'] = 1.
        if cls == 'DriftConstrainedCBO':
            kw.pop('nu')
    if cls == 'MirrorCBO':
        kw['mirrormap'] = pick(rng, ['L2', {'name': 'L2', 'lamda': 2.}])
    if cls == 'HyperSurfaceCBO':
        if (kw.get('sdf') or {}).get('name') == 'Stiefel':
            kw['sdf'] = {'name': 'sphere'}
    if kw.get('kernel') == 'Constant':
        kw['kernel'] = 'Gaussian'
    d, M, N, n = tuple(s['d']), s['M'], s['N'], int(np.prod(s['d']))
    noise = kw['noise']
    eps_dep = kw.get('correction') in ('heavi_side_reg',)
    ok = ['offset', 'scale', 'signed_permutation']
    spheres = bool(cons) and any(c['name'] == 'sphere' for c in cons)
    hs = cls == 'HyperSurfaceCBO'
    sdf = (kw.get('sdf') or {'name': 'sphere'})['name'] if hs else None
    if not (spheres or hs):
        ok.append('translation')
    if not (cons or hs) and noise != 'constant' and cls != 'AdamCBO':
        ok.append('dilation')
    if noise != 'anisotropic' and cls != 'AdamCBO':
        ok.append('orthogonal')
    if not kw.get('batch_args'):
        ok.append('particles')
        ok.append('runs')
    if (cls == 'RegCombinationCBO' and cons) or (noise in ('covariance', 'sampling') and kw.get('mode') != 'optimization') or (
            cls == 'PolarCBO' and kw['kernel_factor_mode'] == 'alpha'):
        ok.remove('scale')      # alpha (or the scale of the objective) enters elsewhere, too
    names = [str(k) for k in rng.permutation(ok)[:pick(rng, [1, 1, 2, 3])]]
    if 'orthogonal' in names and 'signed_permutation' in names:
        names.remove('signed_permutation')
    tr = Tr(M, N, d)
    tr.componentwise = noise == 'anisotropic'
    kw2 = copy.deepcopy(kw)
    if 'orthogonal' in names:
        tr.R = haar(rng, n)
    if 'signed_permutation' in names:
        tr.R = np.eye(n)[rng.permutation(n)] * rng.choice([-1., 1.], n)
    if 'translation' in names:
        tr.b = rng.uniform(-3, 3, n)
    if 'dilation' in names:
        tr.s = float(pick(rng, [.1, .5, 3., 10., 1e-3, 1e-6, 1e4]))
        if 'kappa' in kw2 and kw['kernel'] != 'Taz':      # relative to the diameter
            kw2['kappa'] = kw['kappa'] * tr.s
    if 'offset' in names:
        tr.o = float(pick(rng, [-1e3, -5., .3, 100., 1e4]))
    if 'scale' in names:
        tr.q = float(pick(rng, [.01, .5, 7., 1e3]))
        kw2['alpha'] = np.asarray(kw['alpha']) / tr.q if np.ndim(kw['alpha']) else kw['alpha'] / tr.q
    if 'particles' in names:
        tr.particles = rng.permutation(N)
    if 'runs' in names:
        tr.runs = rng.permutation(M)
        if np.ndim(kw['alpha']):
            kw2['alpha'] = kw2['alpha'][tr.runs]
    if eps_dep:
        kw2['correction_eps'] = kw.get('correction_eps', 1e-3) * tr.q
    for c in (kw2.get('constraints') or []) + ([kw2['sdf']] if sdf == 'plane' else []):
        if c['name'] == 'plane':
            c['a'] = tr.R @ c['a']
            c['b'] = c['b'] + float(c['a'] @ tr.b)
    if kw2.get('lamda') is not None and cls == 'CBS':
        pass
    stops = random_stops(rng, M, s['steps'])
    seed = s['noise_seed']
    f = objective(s)
    x = start(s)
    s2 = dict(s, kw=kw2)
    sa, sb = SymSampler(seed, M, N, d), SymSampler(seed, M, N, d, tr)
    from ..gen import RecObj
    A, ra, _ = build(s, x=x, f=RecObj(f, s['f_dim']), sampler=sa, term_criteria=[PatternTerm(stops)])
    B, rb, _ = build(s2, x=tr.ensemble(x), f=RecObj(TObj(f, tr), s['f_dim']), sampler=sb, term_criteria=[PatternTerm(stops[tr.runs])])
    ctx.describe(**brief(s), symmetry=names, s=tr.s, q=tr.q, o=tr.o, b=tr.b, R=tr.R, stops=stops.tolist())
    sa.dyn, sb.dyn = A, B
    for k in names:
        ctx.seen(k)
    ctx.seen('pairs')
    ctx.seen('constrained', bool(cons) or hs)
    ctx.seen('multi_axis', len(d) > 1)
    sched = pick(rng, [None, 'default'])
    # rounding of alpha * energy enters the weights
    al = float(np.max(np.asarray(kw['alpha'])))
    k = 0
    while True:
        ta, tb = A.terminate(), B.terminate()
        ctx.check(ta == tb and np.array_equal(np.sort(tr.runs[B.active_runs_idx]), A.active_runs_idx), 'active-runs', stop=True)
        if ta:
            break
        k += 1
        if k > 50:
            raise StepLimit('symmetry')
        sa.next()
        sb.next()
        x0, e0 = A.x.copy(), np.array(A.energy)
        ev = A.num_f_eval.copy(), B.num_f_eval.copy()
        A.step()
        B.step()
        for q in (A, B):
            if sched:
                q.default_sched().update(q)
        al *= 1.05
        ctx.seen('steps')
        ctx.seen('moved', bool((A.x != x0).any()))
        ctx.seen('subset', len(A.active_runs_idx) < M)
        ctx.seen('batched', A.batch_size < N)
        size = tr.s * max(1., np.abs(x0).max(), np.abs(A.x).max())
        if size > 1e4 * tr.s:               # rounding decides
            ctx.seen('exploded')
            return
        en = np.asarray(A.energy)
        en = en[np.isfinite(en)]
        err = 1e-16 * al * (np.abs(en).max(initial=1.) + abs(tr.o) / tr.q + 10.) * 100
        # derivative of the objective times rounding of the points
        err += 1e-15 * al * 100 * (1 + np.abs(tr.b).max() / tr.s)
        tol = 1e-8 + err
        if noise == 'covariance' or cls == 'CBS':
            tol = 10 * tol + 1e-6
        if kw.get('correction') == 'heavi_side_reg':
            tol = tol + 1e-12 / kw.get('correction_eps', 1e-3) * (1 + abs(tr.o) / tr.q)
        if cls == 'AdamCBO':
            tol = tol + 1e-5
        if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
            tol = 10 * tol
        mask = None
        if cls == 'AdamCBO' or kw.get('correction') == 'heavi_side':
            mask = decided(A, f, tr, cls, e0)
        if mask is not None:
            ctx.seen('undecided', int((~mask).sum()))
        full = lambda m, a: None if m is None else tr.relabel(m)[(...,) + (None,) * len(d)]  # noqa: E731
        ctx.close(B.x, tr.ensemble(A.x), 'trajectory', f'{names} step {k}', rtol=tol, atol=tol * (size + np.abs(tr.b).max()), mask=full(mask, A.x))
        if getattr(A, 'y', None) is not None and cls != 'MirrorCBO':
            bad = np.abs(np.asarray(A.energy) - f(A.y)) > 1e-6 * (1 + np.abs(A.energy))
            if not bad.any() and mask is None:
                ctx.close(f_of(B.y, tr, f), f(tr.relabel(A.y)), 'memory-energies', f'{names} step {k}', rtol=1e-5, atol=1e-5 + 1e-12 * abs(tr.o) / tr.q)
        ca, cb = np.asarray(A.consensus), np.asarray(B.consensus)
        act = A.active_runs_idx
        if ca.shape[0] == len(act) == cb.shape[0]:
            cfull = np.zeros((M,) + ca.shape[1:])
            cfull[act] = ca
            ctx.close(cb, tr.coords(cfull[tr.runs][B.active_runs_idx] if ca.shape[1] != N or cls != 'PolarCBO'
                                    else tr.relabel(cfull)[B.active_runs_idx]), 'consensus', f'{names} step {k}', rtol=tol,
                      atol=tol * (size + np.abs(tr.b).max()))
        if mask is None:
            ctx.close(B.energy, tr.energy(A.energy), 'energies', f'{names} step {k}', rtol=1e-6,
                      atol=1e-6 * tr.q * (1 + np.abs(en).max(initial=0)) + 1e-10 * abs(tr.o))
            ctx.close(B.best_energy, tr.q * A.best_energy[tr.runs] + tr.o, 'best-energy', f'{names} step {k}', rtol=1e-6,
                      atol=1e-6 * tr.q * (1 + np.abs(en).max(initial=0)) + 1e-10 * abs(tr.o))
            ctx.close(B.update_diff, tr.s * np.asarray(A.update_diff)[tr.runs], 'update-diff', f'{names} step {k}', rtol=1e-6 + tol,
                      atol=10 * tol * (size + np.abs(tr.b).max()))
        ctx.equal(B.num_f_eval - ev[1], (A.num_f_eval - ev[0])[tr.runs], 'evaluations', f'{names} step {k}')
        # synchronise, so that the next step is compared on its own
        B.x = tr.ensemble(A.x)
        if cls in ('CBOMemory', 'PSO', 'MirrorCBO'):
            B.y = tr.ensemble(A.y) if cls != 'MirrorCBO' else tr_dual(tr, A, kw)
        if isinstance(getattr(A, 'v', None), np.ndarray):
            B.v = tr.vector(A.v) if cls == 'PSO' else tr_square(tr, A.v)
        if isinstance(getattr(A, 'm', None), np.ndarray):
            B.m = tr.vector(A.m)
        B.energy = tr.energy(np.asarray(A.energy))
        B.best_energy = tr.q * A.best_energy[tr.runs] + tr.o
        B.best_particle = tr.coords(A.best_particle[tr.runs])
    ctx.sig(*signature(s), tuple(sorted(names)), sched)


def f_of(y, tr, f):
    return f.value(tr.inv(y.reshape(y.shape[:2] + (-1,))))


def tr_dual(tr, A, kw):
    """dual variable of the L2 map: y = lamda x"""
    mm = kw['mirrormap']
    lam = mm.get('lamda', 1.) if isinstance(mm, dict) else 1.
    return lam * tr.coords(tr.relabel(A.y) / lam)


def tr_square(tr, v):
    """second moments transform with the squares of a signed permutation"""
    t = copy.copy(tr)
    t.R, t.b, t.s = tr.R**2, np.zeros(tr.n), tr.s**2
    return t.coords(tr.relabel(v))


def decided(A, f, tr, cls, e0):
    """(M, N) particles whose update is well conditioned"""
    if cls == 'AdamCBO':
        v = np.abs(A.v).reshape(A.v.shape[:2] + (-1,))
        return ~((np.sqrt(v) < 1e-5 * (1 + np.abs(A.x).max())).any(-1))
    c = np.asarray(A.consensus)
    z = np.full(A.x.shape[:2], np.inf)
    fc = f(np.broadcast_to(c, c.shape))
    act = A.active_runs_idx
    # the memory variants decide with the energies before the step
    e = e0 if cls in ('CBOMemory', 'PSO') else np.asarray(A.energy)
    if fc.shape[1] in (1, e.shape[1]):
        z[act] = np.abs(e[act] - fc)
    else:                           # consensus points of the particles of a batch
        idx = tuple(np.asarray(i) for i in A.consensus_idx[:2])
        z[idx] = np.abs(e[idx] - fc)
    return z > 1e-7 * (1 + np.abs(np.where(np.isfinite(e), e, 0))) + 1e-11 * abs(tr.o) / tr.q


FAMILIES = {'pairs': (case, 2000)}
