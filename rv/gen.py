"""Random configurations of the dynamics: a spec is plain data, build() makes the dynamic from it."""
import copy

import numpy as np

import cbx.dynamics as cd


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def sz(rng, lo, hi, big, p=.04):
    """a size below hi, sometimes a big one"""
    k = int(rng.integers(lo, hi))
    return int(pick(rng, big)) if chance(rng, p) else k


BM, BN, BD = [12, 40], [40, 150, 300], [9, 20]


# ---------------------------------------------------------------------------------------------
# objectives: pure functions of one particle, evaluated for any number of leading axes
class Obj:
    """value(z): z has shape (..., n) -> (...)"""

    def __init__(self, kind, n, rng, scale=1., offset=0., zoom=1.):
        self.kind, self.n, self.zoom = kind, n, zoom
        self.shift = rng.uniform(-.7, .7, size=n)
        self.w = rng.uniform(.3, 2., size=n)
        self.scale, self.offset = scale, offset

    def value(self, z):
        u = z / self.zoom - self.shift
        k = self.kind
        if k == 'quad':
            r = (self.w * u**2).sum(-1)
        elif k == 'rastrigin':
            r = (u**2 - 2. * np.cos(2 * np.pi * u) + 2.).sum(-1)
        elif k == 'abs':
            r = (self.w * np.abs(u)).sum(-1)
        elif k == 'quartic':
            r = ((u**2 - .5)**2 * self.w).sum(-1) + .1 * u[..., 0]
        elif k == 'wave':
            r = np.sin(3 * (self.w * u).sum(-1)) + .3 * (u**2).sum(-1)
        elif k == 'ackley':
            n = z.shape[-1]
            r = -20 * np.exp(-.2 * np.sqrt((u**2).sum(-1) / n)) - np.exp(np.cos(2 * np.pi * u).sum(-1) / n) + 20 + np.e
        else:
            raise ValueError(k)
        return self.scale * r + self.offset

    def __call__(self, x):
        """full ensemble (M, N, *d) -> (M, N)"""
        return self.value(np.reshape(x, x.shape[:2] + (-1,)))


OBJ_KINDS = ['quad', 'rastrigin', 'abs', 'quartic', 'wave', 'ackley']


class RecObj:
    """records every evaluation of an objective at the boundary, whatever the interface is"""

    def __init__(self, f, f_dim='3D', keep=True, torch=False, reuse=False):
        self.f, self.f_dim, self.keep, self.torch = f, f_dim, keep, torch
        self.buf = {} if reuse else None      # values are returned in the same array again and again
        self.calls = []     # arrays of evaluated points (copies)
        self.points = 0

    def __call__(self, x):
        if self.torch:
            import torch
            xn = x.detach().cpu().numpy()
        else:
            xn = np.asarray(x)
        if self.f_dim == '1D':
            n, v = 1, self.f.value(xn)
        elif self.f_dim == '2D':
            n, v = xn.shape[0], self.f.value(xn)
        else:
            n, v = xn.shape[0] * xn.shape[1], self.f(xn)
        self.points += n
        if self.keep:
            self.calls.append(np.array(xn, dtype=float))
        if self.torch:
            return torch.as_tensor(v, dtype=x.dtype)
        if self.buf is not None and self.f_dim != '1D':
            out = self.buf.setdefault(np.shape(v), np.zeros(np.shape(v)))
            out[...] = v
            return out
        return v

    def clear(self):
        self.calls, self.points = [], 0


# ---------------------------------------------------------------------------------------------
# samplers
class TickSampler:
    """standard normals determined by (tick, size): the oracle can ask for the same numbers again.

    mode 'free': every size gets its own array; mode 'rowconst': all rows (runs) get the same noise, so that a
    run sees the same noise whatever other runs are advanced with it.
    """

    def __init__(self, seed, mode='free', conv=None):
        self.seed, self.mode, self.conv = int(seed), mode, conv
        self.tick = 0
        self.calls = 0
        self.log = []

    def numbers(self, size):
        size = tuple(int(s) for s in (size if np.iterable(size) else (size,)))
        if self.mode == 'rowconst':
            r = np.random.default_rng([self.seed, self.tick, *size[1:]])
            z = r.standard_normal(size[1:])
            return np.array(np.broadcast_to(z, size))
        r = np.random.default_rng([self.seed, self.tick, *size])
        return r.standard_normal(size)

    def __call__(self, size=None):
        self.calls += 1
        z = self.numbers(size)
        return z if self.conv is None else self.conv(z)


# ---------------------------------------------------------------------------------------------
MAPS = [
    ('L2', {}), ('L2', {'lamda': 2.5}), ('ProjectionBall', {}), ('ProjectionBall', {'radius': .8}),
    ('ProjectionHyperplane', {}), ('ProjectionSphere', {}), ('ProjectionSphere', {'r': 1.7}), ('ProjectionSquare', {}),
    ('ProjectionSquare', {'r': 1.3}), ('LogBarrierBox', {}), ('NonsmoothBarrier', {}), ('ElasticNet', {}),
    ('ElasticNet', {'delta': .7, 'lamda': .3}), ('Entropy', {}), ('EntropySimplex', {})]

BASE = ['CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'CBS', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'MirrorCBO', 'PolarCBO',
        'RegCombinationCBO']


def random_constraints(rng, n, many=True):
    def one():
        k = pick(rng, ['plane', 'sphere', 'quadric'])
        if k == 'plane':
            a = rng.standard_normal(n)
            a[0] += .5
            return {'name': 'plane', 'a': a, 'b': float(rng.uniform(-.5, .5))}
        if k == 'sphere':
            return {'name': 'sphere', 'r': float(rng.uniform(.5, 1.5))}
        return {'name': 'quadric', 'A': rng.standard_normal((n, n)) + 2 * np.eye(n), 'b': .3 * rng.standard_normal(n),
                'c': float(rng.uniform(-1, 0))}
    m = int(rng.integers(0, 4)) if many else int(rng.integers(0, 2))
    return [one() for _ in range(m)]


def param_sched(rng, *names, default=.3, own=.2):
    """no schedule, the default one or a schedule of some of the parameters"""
    u = rng.random()
    if u < default:
        return 'default'
    if u > default + own:
        return None
    from cbx.scheduler import scheduler, multiply
    k = [str(n) for n in rng.permutation(list(names))[:int(rng.integers(1, min(3, len(names)) + 1))]]
    return scheduler([multiply(name=n, factor=float(pick(rng, [.6, .9, 1.2]))) for n in k])


def gen_spec(rng, classes=None, noises=None, corrections=None, batch=None, multi=None, M=None, N=None, n=None,
             max_M=4, max_N=9, per_run_alpha=None, steps=None, f_dims=None, indep=False, alphas=None, term=None,
             big=.03, wide=.12, long=.012, zoom=.06):
    """a random spec.  None means random, otherwise the given value / list of choices.
    big: probability of large ensembles, wide: probability of unusual parameters"""
    cls = pick(rng, classes or BASE)
    if chance(rng, big) and n is None and not multi:
        # one of the sizes is large, the others are small
        what = pick(rng, ['M', 'N', 'N', 'd'])
        if what == 'M' and M is None:
            M, N = int(pick(rng, [11, 33])), (N or int(pick(rng, [1, 2, 4])))
        elif what == 'N' and N is None:
            N, M = int(pick(rng, [40, 130, 260])), (M or int(pick(rng, [1, 2])))
            n = 2
        elif what == 'd' and cls != 'HyperSurfaceCBO':
            n = int(pick(rng, [12, 33, 60]))
            multi = False
    if M is None:
        M = int(rng.integers(5, 10)) if chance(rng, .12) and max_M >= 4 else int(rng.integers(1, max_M + 1))
    N = int(pick(rng, [1, 2, 3, 4, 5, 6, 7, max_N])) if N is None else N
    multiaxis = cls in ('CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO', 'MirrorCBO') and (
        chance(rng, .25) if multi is None else multi)
    if n is not None:
        d = (n,) if np.isscalar(n) else tuple(n)
    elif multiaxis:
        d = pick(rng, [(2, 2), (1, 3), (3, 1), (2, 1, 2)] * 3 + [(3, 4)])
    else:
        d = (int(pick(rng, [1, 2, 3, 5])),)
    s = dict(cls=cls, M=M, N=N, d=d)
    kw = {}
    # noise
    nz = ['isotropic', 'anisotropic', 'constant']
    if len(d) == 1:
        nz = nz + ['covariance']
    if cls == 'CBS':
        nz = ['covariance', 'sampling']
    if cls == 'HyperSurfaceCBO':
        nz = ['isotropic', 'anisotropic']
    if cls in ('CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO'):
        nz = [k for k in nz if k != 'covariance']
    if noises is not None:
        nz = [k for k in nz if k in noises] or nz[:1]
    kw['noise'] = pick(rng, nz)
    # batches
    can_batch = cls != 'CBS' and N > 1
    use_batch = can_batch and (chance(rng, .45) if batch is None else bool(batch))
    if kw['noise'] == 'covariance':
        use_batch = use_batch and cls == 'CBO' and False
    if use_batch:
        kw['batch_args'] = dict(size=int(rng.integers(1, N + 1)), partial=chance(rng, .6),
                                seed=int(rng.integers(1000)), var=pick(rng, ['resample', 'concat']))
        if chance(rng, .15):
            kw['batch_args'].pop('seed')
    # correction
    if cls in ('CBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'PolarCBO'):
        cs = ['no_correction', 'heavi_side', 'heavi_side_reg'] if corrections is None else corrections
        c = pick(rng, cs)
        if use_batch and not kw['batch_args']['partial'] and kw['batch_args']['size'] < N and cls in ('CBO', 'MirrorCBO', 'PolarCBO'):
            c = 'no_correction'     # energies of particles outside of the batch are not current
        kw['correction'] = c
        if c == 'heavi_side_reg' and chance(rng, .5):
            kw['correction_eps'] = float(pick(rng, [1e-3, .1, 1.]))
    # parameters
    kw['dt'] = float(pick(rng, [.01, .05, .1, .5]))
    kw['lamda'] = float(pick(rng, [.5, 1., 1., 2.]))
    kw['sigma'] = float(pick(rng, [0., .1, .5, 1.]))
    al = alphas or [1e-2, 1., 10., 50.]
    if (chance(rng, .3) if per_run_alpha is None else per_run_alpha):
        kw['alpha'] = np.array([[float(pick(rng, al))] for _ in range(M)])
    else:
        kw['alpha'] = float(pick(rng, al))
    if chance(rng, wide):           # one unusual parameter
        what = pick(rng, ['dt', 'dt', 'lamda', 'sigma', 'alpha'])
        if what == 'alpha':
            v = float(pick(rng, [0., 1e-5, 1e3, 1e5] if alphas is None else alphas))
            kw['alpha'] = np.full_like(kw['alpha'], v) if np.ndim(kw['alpha']) else v
        else:
            kw[what] = float(pick(rng, {'dt': [1e-4, .9, 1., 1.5], 'lamda': [0., .1, 4.], 'sigma': [.01, 3., 5.1]}[what]))
    # class specific
    nn = int(np.prod(d))
    if cls == 'CBOMemory' or cls == 'PSO':
        kw['lamda_memory'] = float(pick(rng, [0., .4, 1.]))
        if chance(rng, .5):
            kw['sigma_memory'] = float(pick(rng, [0., .2, .7]))
    if cls == 'PSO':
        kw['m'] = float(pick(rng, [.001, .2, .5]))
        if chance(rng, .4):
            kw['gamma'] = float(pick(rng, [.3, .8, 1., 0.]))
            if kw['gamma'] == 0:        # no friction: small steps, else the ensemble explodes
                kw['m'], kw['dt'] = max(kw['m'], .2), min(kw['dt'], .1)
    if cls == 'AdamCBO' and chance(rng, .6):
        kw['betas'] = (float(pick(rng, [.5, .9, .9, 0., .999, .9999])), float(pick(rng, [.9, .99, .99, .999, .9999])))
        kw['eps'] = float(pick(rng, [1e-8, 1e-3]))
    if cls == 'CBS':
        kw['mode'] = pick(rng, ['sampling', 'optimization'])
        kw.pop('sigma')
        kw.pop('lamda')
    if cls == 'DriftConstrainedCBO':
        cons = random_constraints(rng, nn)
        kw['constraints'] = cons if (cons or chance(rng, .5)) else None
        kw['eps'] = float(pick(rng, [.01, .1, 1.]))
        if indep and chance(rng, .5):
            kw['sigma_indep'] = float(pick(rng, [.2, 1.]))
            kw['eps_indep'] = float(pick(rng, [1e-3, .05]))
    if cls == 'RegCombinationCBO':
        cons = random_constraints(rng, nn, many=False)
        kw['constraints'] = cons if (cons or chance(rng, .5)) else None
        kw['eps'] = float(pick(rng, [.01, .1, 1., 1e16]))
        kw['nu'] = float(pick(rng, [.1, 1., 3.]))
    if cls == 'HyperSurfaceCBO':
        k = pick(rng, [None, 'sphere', 'plane', 'Stiefel'])
        if k == 'Stiefel' and kw['noise'] == 'anisotropic':
            kw['noise'] = 'isotropic'
        if k in (None, 'sphere') and nn == 1:
            d = (2,)
            s['d'], nn = d, 2
        if k == 'sphere':
            kw['sdf'] = {'name': 'sphere'}
        elif k == 'plane':
            a = rng.standard_normal(nn)
            a[0] += np.sign(a[0]) * .5
            kw['sdf'] = {'name': 'plane', 'a': a, 'b': float(rng.uniform(-.7, .7))}
        elif k == 'Stiefel':
            nk = pick(rng, [(2, 1), (3, 2), (2, 2), (4, 2)])
            d = (nk[0] * nk[1],)
            s['d'], nn = d, d[0]
            kw['sdf'] = {'name': 'Stiefel', 'nk': nk}
        kw['sigma'] = float(pick(rng, [0., .1, .3]))
        kw['dt'] = float(pick(rng, [.01, .05]))
    if cls == 'MirrorCBO':
        name, args = MAPS[int(rng.integers(len(MAPS)))]
        kw['mirrormap'] = dict(name=name, **args) if (args or chance(rng, .5)) else name
        if name == 'Entropy':
            kw['dt'] = .01
    if cls == 'PolarCBO':
        kw['kernel'] = pick(rng, ['Gaussian', 'Laplace', 'Constant', 'InverseQuadratic', 'Taz'])
        kw['kappa'] = float(pick(rng, [.3, 1., 3.]))
        kw['kernel_factor_mode'] = pick(rng, ['const', 'alpha'])
        if use_batch and kw['kernel'] == 'Constant':
            kw['batch_args']['partial'] = True   # a particle outside of the batch might have no neighbour at all
    s['kw'] = kw
    nn = int(np.prod(s['d']))
    s['obj'] = dict(kind=pick(rng, OBJ_KINDS), n=nn, seed=int(rng.integers(2**31)), scale=1., offset=float(
        pick(rng, [0., 0., 3., -2.])), zoom=1.)
    if cls in ('CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO') and chance(rng, zoom):
        s['obj']['zoom'] = float(pick(rng, [1e-3, 30., 1e3, 1e4]))
    s['f_dim'] = pick(rng, f_dims or (['1D', '2D', '3D'] if len(s['d']) == 1 else ['3D']))
    s['x_seed'] = int(rng.integers(2**31))
    s['x_kind'] = pick(rng, ['uniform', 'uniform', 'normal', 'clustered'])
    if cls in ('CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO', 'CBS') and s['obj']['zoom'] == 1. and chance(rng, .6 * zoom):
        s['x_kind'] = 'apart'       # the runs have energies of different magnitudes
    s['steps'] = int(rng.integers(3, 9)) if steps is None else steps
    if steps is None and chance(rng, long) and s['N'] < 20 and s['M'] < 10:
        s['steps'] = int(pick(rng, [40, 110]))
        kw['dt'] = min(kw['dt'], .05)
        kw['sigma'] = min(kw.get('sigma', 1.), .5)
        if cls == 'CBS':
            kw.pop('sigma')
    # ways to hand over the same things
    s['form'] = str(pick(rng, ['plain'] * 8 + ['fortran', 'readonly', 'strided', 'list']))
    s['reuse'] = chance(rng, .1)
    s['track'] = None
    if chance(rng, .12):
        names = ['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean']
        s['track'] = dict(names=[str(k) for k in rng.permutation(names)[:int(rng.integers(0, 4))]], save_int=int(pick(rng, [1, 2, 3])))
    s['verbosity'] = int(pick(rng, [0] * 8 + [1, 2]))
    s['noise_seed'] = int(rng.integers(2**31))
    return s


def objective(s):
    o = s['obj']
    return Obj(o['kind'], o['n'], np.random.default_rng(o['seed']), scale=o['scale'], offset=o['offset'], zoom=o.get('zoom', 1.))


def start(s):
    """initial ensemble of the spec; feasible for the hypersurface / barrier dynamics"""
    rng = np.random.default_rng(s['x_seed'])
    shape = (s['M'], s['N']) + tuple(s['d'])
    if s['x_kind'] == 'uniform':
        x = rng.uniform(-1, 1, shape)
    elif s['x_kind'] == 'normal':
        x = .5 * rng.standard_normal(shape)
    elif s['x_kind'] == 'apart':
        x = rng.uniform(-1, 1, shape) + 7. * np.arange(s['M']).reshape((-1,) + (1,) * (len(shape) - 1))
    else:
        x = rng.uniform(-.5, .5, (s['M'], 1) + tuple(s['d'])) + .05 * rng.standard_normal(shape)
    x = x * s['obj'].get('zoom', 1.)
    if s['cls'] == 'HyperSurfaceCBO':
        sdf = s['kw'].get('sdf') or {'name': 'sphere'}
        if sdf['name'] == 'sphere':
            x = x / np.linalg.norm(x, axis=-1, keepdims=True)
        elif sdf['name'] == 'plane':
            a = sdf['a']
            x = x - ((x * a).sum(-1, keepdims=True) - sdf['b']) / (a @ a) * a
        else:
            n, k = sdf['nk']
            u, _, vt = np.linalg.svd(x.reshape(-1, n, k), full_matrices=False)
            x = (u @ vt).reshape(x.shape)
    if s['cls'] == 'MirrorCBO':
        mm = s['kw']['mirrormap']
        name = mm['name'] if isinstance(mm, dict) else mm
        if name in ('LogBarrierBox', 'NonsmoothBarrier'):
            x = np.clip(x, -.95, .95)
        elif name == 'Entropy':
            x = np.abs(x) + .05
        elif name == 'EntropySimplex':
            x = np.abs(x) + .05
            x = x / x.sum(-1, keepdims=True)
    return x


def formed(x, form):
    """the same values in another memory layout"""
    if form == 'fortran':
        return np.asfortranarray(x)
    if form == 'readonly':
        x = x.copy()
        x.setflags(write=False)
    elif form == 'strided':
        y = np.zeros(x.shape[:1] + (2 * x.shape[1],) + x.shape[2:])
        y[:, ::2] = x
        return y[:, ::2]
    elif form == 'list':
        return x.tolist()
    return x


def build(s, x=None, f=None, **over):
    """(dynamic, recording objective, sampler)"""
    kw = copy.deepcopy(s['kw'])
    kw.update(over)
    rec = RecObj(objective(s), s['f_dim'], reuse=s.get('reuse', False)) if f is None else f
    sampler = kw.pop('sampler', None) or TickSampler(s['noise_seed'])
    x = start(s) if x is None else x
    cls = getattr(cd, s['cls'])
    kw.setdefault('verbosity', s.get('verbosity', 0))
    kw.setdefault('max_it', 10**6)
    if s.get('track') is not None:
        kw.setdefault('track_args', copy.deepcopy(s['track']))
    if isinstance(x, np.ndarray):
        x = formed(x, s.get('form', 'plain'))
    dyn = cls(rec, f_dim=s['f_dim'], x=x, sampler=sampler, **kw)
    return dyn, rec, sampler


def brief(s):
    return dict(cls=s['cls'], M=s['M'], N=s['N'], d=list(s['d']), f_dim=s['f_dim'], obj=s['obj']['kind'],
                x=s['x_kind'], steps=s['steps'], zoom=s['obj'].get('zoom', 1.), form=s.get('form'), reuse=s.get('reuse'), verbosity=s.get('verbosity'), histargs=s.get('track'),
                **{k: (v if not isinstance(v, np.ndarray) else v.ravel().tolist()) for k, v in s['kw'].items()})


def signature(s):
    b = s['kw'].get('batch_args') or {}
    return (s['cls'], s['kw'].get('noise') if isinstance(s['kw'].get('noise'), str) else 'callable',
            s['kw'].get('correction'), s['M'] > 1, min(s['N'], 3), len(s['d']), min(int(np.prod(s['d'])), 3),
            (b.get('partial'), b.get('var'), b.get('size', s['N']) < s['N'], s['N'] % max(1, b.get('size', 1)) == 0) if b else None,
            np.ndim(s['kw'].get('alpha', 0)), s['f_dim'])


# ---------------------------------------------------------------------------------------------
class PatternTerm:
    """terminates run m as soon as dyn.it >= stop[m]"""

    def __init__(self, stop):
        self.stop = np.asarray(stop)

    def __call__(self, dyn):
        return dyn.it >= self.stop


def random_stops(rng, M, steps):
    k = pick(rng, ['none', 'some', 'random', 'random'])
    stop = np.full(M, steps)
    if k == 'some' and M > 1:
        stop[rng.permutation(M)[:int(rng.integers(1, M))]] = int(rng.integers(0, steps))
    elif k == 'random':
        stop = rng.integers(0, steps + 1, size=M)
    return stop


def index_pairs(dyn, idx, full=False):
    """(run, particle) pairs an index of the dynamic selects, as an integer array of shape (k, b)"""
    ids = np.arange(dyn.M * dyn.N).reshape(dyn.M, dyn.N)
    return np.asarray(ids[idx])
