"""C21: dynamics on torch tensors follow the numpy dynamics."""
import copy

import numpy as np
import torch

import cbx.dynamics as cd
from cbx.scheduler import scheduler, multiply
from cbx import scheduler as sch
from cbx.utils import torch_utils as tu
from cbx.utils.termination import energy_tol_term, diff_tol_term, max_eval_term, max_it_term, energy_stagnation_term

from ..gen import gen_spec, pick, chance, brief, signature, objective, start, TickSampler, RecObj, PatternTerm, random_stops
from ..ref import gibbs, gibbs_weights, expand

RULE = ('twin executions of the same random configuration on numpy arrays and on torch tensors (converted class and the documented '
        'keyword route), with the same random numbers: the whole observable state is compared after every step and at the end; '
        'torch variants of consensus, polar consensus, norm, post-processing, effective sample size and samplers against the numpy '
        'oracles on hostile inputs; distinct signatures = configuration class')
REQUIRE = {'own_norm': 10, 'own_post': 10, 'steps': 800, 'steps_subset': 60, 'steps_batched': 150, 'float32': 8, 'routes': 40, 'direct_consensus': 100, 'polar': 60,
           'ess': 30, 'post': 60, 'samplers': 10, 'histories': 200, 'terminations': 100, 'mirror': 60}
ASSUMPTIONS = ['single-precision runs are compared for a few steps with a tolerance of 2e-4',
               'covariance noise, Heaviside corrections and the memory, swarm, Adam, hypersurface and combination dynamics have no torch path',
               'only the CPU device is available']

torch.set_num_threads(1)


def num(v):
    return v.detach().cpu().numpy() if isinstance(v, torch.Tensor) else np.asarray(v)


class TGauss:
    def __init__(self, kappa):
        self.k = kappa

    def neg_log(self, x, y):
        return ((x - y)**2).sum(dim=tuple(range(3, x.ndim))) / (2 * self.k**2)


def spec(rng):
    s = gen_spec(rng, classes=['CBO', 'CBO', 'MirrorCBO', 'DriftConstrainedCBO', 'CBS', 'PolarCBO'],
                 noises=['isotropic', 'anisotropic', 'constant'], corrections=['no_correction'], f_dims=['3D'], long=0.)
    kw = s['kw']
    if s['cls'] == 'DriftConstrainedCBO':
        kw['constraints'] = None
    if s['cls'] == 'CBS':
        kw['noise'] = pick(rng, ['isotropic', 'anisotropic', 'constant'])
        kw['mode'] = 'sampling'
    if s['cls'] == 'PolarCBO':
        kw['kernel'] = 'Gaussian'
    return s


def numpy_norm(x, axis=None, **k):
    return 1.5 * np.linalg.norm(x, axis=axis, **k)


def torch_norm(x, axis=None, **k):
    return 1.5 * tu.norm_torch(x, axis=axis, **k)


def numpy_post(dyn):
    dyn.x = np.clip(dyn.x, -.3, .6)


def torch_post(dyn):
    dyn.x = torch.clamp(dyn.x, min=-.3, max=.6)


def twins(s, dtype, route, extra, own=()):
    """numpy dynamic, torch dynamic"""
    f = objective(s)
    x0 = start(s)
    conv = lambda z: torch.tensor(z, dtype=dtype)
    kn, kt = copy.deepcopy(s['kw']), copy.deepcopy(s['kw'])
    sn, st = TickSampler(s['noise_seed']), TickSampler(s['noise_seed'], conv=conv)
    if np.ndim(kt['alpha']) > 0:
        kt['alpha'] = conv(kt['alpha'])
    if s['cls'] == 'PolarCBO':
        kt['kernel'] = TGauss(kt['kappa'])
        kt['compute_consensus'] = tu.compute_polar_consensus_torch
    if 'norm' in own:
        kn['norm'], kt['norm'] = numpy_norm, torch_norm
    if 'post' in own:
        kn['post_process'], kt['post_process'] = numpy_post, torch_post
    rn, rt = RecObj(f, '3D'), RecObj(f, '3D', torch=True)
    cls = getattr(cd, s['cls'])
    en, et = extra(), extra()
    x0t = conv(x0)
    if dtype == torch.float32:
        x0 = x0t.double().numpy()
    a = cls(rn, f_dim='3D', x=x0, sampler=sn, verbosity=0, **kn, **en)
    if route == 'class':
        b = tu.to_torch_dynamic(cls)(rt, f_dim='3D', x=x0t, sampler=st, verbosity=0, **kt, **et)
    else:
        kt.setdefault('compute_consensus', tu.compute_consensus_torch)
        b = cls(rt, f_dim='3D', x=x0t, sampler=st, verbosity=0, norm=tu.norm_torch, copy=torch.clone,
                post_process=tu.post_process_default_torch(), **kt, **et)
    return a, b, sn, st, rn, rt, x0t


def state(ctx, a, b, tol, where):
    for k in ('x', 'y', 'consensus', 'drift', 'best_particle', 'best_cur_particle', 'energy', 'best_energy', 'best_cur_energy', 'f_min',
              'update_diff', 'alpha', 't', 'dt', 'sigma', 'lamda'):
        if not hasattr(a, k) or getattr(a, k) is None:
            continue
        if not ctx.check(hasattr(b, k), 'torch-differs', f'{where}: no attribute {k}'):
            continue
        u, v = num(getattr(a, k)), num(getattr(b, k))
        sc = 1. + (np.abs(u[np.isfinite(u)]).max() if np.isfinite(u).any() else 0)
        ctx.close(v, u, 'torch-differs', f'{where}: {k}', rtol=tol, atol=tol * sc, stop=True)
    for k in ('num_f_eval', 'it', 'active_runs_idx', 'num_active_runs'):
        ctx.equal(num(getattr(b, k)), num(getattr(a, k)), 'torch-differs', f'{where}: {k}')
    for k in ('x', 'consensus', 'drift', 'best_particle'):
        if getattr(b, k, None) is not None:
            ctx.check(isinstance(getattr(b, k), torch.Tensor), 'torch-type', f'{where}: {k} is {type(getattr(b, k))}')
    for k in ('energy', 'best_energy', 'num_f_eval'):
        ctx.check(isinstance(getattr(b, k), np.ndarray), 'torch-type', f'{where}: {k} is {type(getattr(b, k))}')


def terms(rng, s, k):
    stops = random_stops(rng, s['M'], s['steps'])
    if k == 'pattern':
        return lambda: dict(term_criteria=[PatternTerm(stops)])
    if k == 'max_it':
        return lambda: dict(max_it=s['steps'])
    c = pick(rng, ['eval', 'diff', 'energy', 'stag'])
    n = int(rng.integers(1, 40))
    th = float(pick(rng, [.01, .05, .3]))
    pat = int(rng.integers(2, 4))

    def make():
        t = {'eval': lambda: max_eval_term(n), 'diff': lambda: diff_tol_term(th), 'energy': lambda: energy_tol_term(.3 + th),
             'stag': lambda: energy_stagnation_term(patience=pat, std_thresh=th)}[c]()
        return dict(term_criteria=[t, max_it_term(s['steps'])])
    return make


class Track:
    """tracks something of my own"""
    def init_history(self, dyn):
        dyn.history['own'] = []

    def update(self, dyn):
        dyn.history['own'].append(float(dyn.to_numpy(dyn.x).sum()))


def twin(ctx, rng):
    s = spec(rng)
    f32 = chance(rng, .08) and s['cls'] in ('CBO', 'CBS') and 'batch_args' not in s['kw']
    dtype, tol = torch.float64, 1e-8
    if f32:
        s['kw']['alpha'] = 1.
        s['steps'] = 2
        dtype, tol = torch.float32, 2e-4
        s['obj']['kind'] = 'quad'
    route = 'class' if chance(rng, .8) else 'kwargs'
    names = [n for n in ['x', 'consensus', 'energy', 'update_norm', 'drift', 'drift_mean', 'alpha'] if chance(rng, .5)]
    if route == 'kwargs':
        names = [n for n in names if n != 'drift_mean']
    si = int(rng.integers(1, 3))
    tk = pick(rng, ['pattern', 'pattern', 'max_it', 'crit']) if not f32 else 'max_it'
    tm = terms(rng, s, tk)
    if s['kw'].get('noise') == 'constant' and tk == 'crit':
        tm = terms(rng, s, 'pattern')
    track_args = dict(names=names, save_int=si)

    def extra():
        t = dict(track_args)
        if route == 'class':
            t['extra_tracks'] = [Track()]
        return dict(tm(), track_args=t)

    ctx.describe(**brief(s), route=route, dtype=str(dtype), term=tk, track=names, save_int=si)
    own = [k for k in ('norm', 'post') if route == 'class' and chance(rng, .08)]
    for k in own:
        ctx.seen('own_' + k)
    a, b, sn, st, rn, rt, x0t = twins(s, dtype, route, extra, own)
    keep = x0t.clone()
    state(ctx, a, b, tol, 'start')
    sched = pick(rng, [None, 'default', 'multiply', 'sigma'])
    mk = {None: lambda: scheduler([]), 'default': None, 'multiply': lambda: scheduler([multiply(name='alpha', factor=1.3, maximum=25.)]),
          'sigma': lambda: scheduler([multiply(name='sigma', factor=.9), multiply(name='alpha', factor=1.1)])}[sched]
    if sched == 'sigma' and s['cls'] == 'CBS':
        mk, sched = (lambda: scheduler([])), None
    sa, sb = (mk(), mk()) if mk else (a.default_sched(), b.default_sched())
    for k in range(s['steps'] + 2):
        ta, tb = a.terminate(), b.terminate()
        ctx.equal(num(b.active_runs_idx), num(a.active_runs_idx), 'torch-differs', f'active runs before step {k}', stop=True)
        if ta or tb:
            ctx.check(ta == tb, 'torch-differs', 'termination')
            break
        sn.tick += 1
        st.tick += 1
        a.step()
        b.step()
        sa.update(a)
        sb.update(b)
        state(ctx, a, b, tol, f'after step {k}')
        ctx.seen('steps')
        if f32:
            ctx.seen('float32')
        if len(a.active_runs_idx) < s['M']:
            ctx.seen('steps_subset')
        if a.batch_size < a.N:
            ctx.seen('steps_batched')
    ctx.seen('terminations')
    if s['cls'] == 'MirrorCBO':
        ctx.seen('mirror')
    if route == 'kwargs':
        ctx.seen('routes')
    for m in range(s['M']):
        u, v = a.term_reason[m], b.term_reason[m]
        ctx.check((u is None) == (v is None) and (u is None or np.array_equal(u, v)), 'torch-differs', f'term_reason {u} {v}')
    ctx.check(torch.equal(keep, x0t), 'initial-tensor-modified')
    ctx.check(sorted(a.history) == sorted(b.history), 'torch-differs', f'history {sorted(a.history)} {sorted(b.history)}')
    for k in a.history:
        u, v = a.history[k], b.history.get(k, [])
        if not ctx.check(len(u) == len(v), 'torch-differs', f'history {k}: {len(v)} instead of {len(u)}'):
            continue
        if k == 'particle_idx':
            continue
        for i, (p, q) in enumerate(zip(u, v)):
            p, q = num(p), num(q)
            sc = 1. + (np.abs(p[np.isfinite(p)]).max() if np.isfinite(p).any() else 0)
            ctx.close(q, p, 'torch-differs', f'history {k}[{i}]', rtol=tol, atol=tol * sc)
        ctx.seen('histories')
    # the objective saw the same points
    ctx.check(rn.points == rt.points, 'torch-differs', f'{rt.points} evaluated points instead of {rn.points}')
    if route == 'class':
        r = b.to_numpy(b.x)
        ctx.check(isinstance(r, np.ndarray) and np.array_equal(r, num(b.x)), 'to-numpy')
    ctx.sig(*signature(s), route, str(dtype), tk, sched, str(s['kw'].get('mirrormap'))[:25])


def optimize(ctx, rng):
    """the complete optimization returns the same"""
    s = spec(rng)
    route = 'class'
    if s['cls'] == 'PolarCBO':
        s['kw']['alpha'] = float(np.max(s['kw']['alpha']))
    tm = terms(rng, s, 'max_it')
    a, b, sn, st, rn, rt, _ = twins(s, torch.float64, route, lambda: tm())
    ctx.describe(**brief(s))
    # all ticks are the same, so the steps reuse the same numbers in both
    ka = kb = {}
    if chance(rng, .3) and s['cls'] != 'CBS':
        ka, kb = dict(sched=scheduler([])), dict(sched=scheduler([]))
    ra, rb = a.optimize(**ka), b.optimize(**kb)
    state(ctx, a, b, 1e-8, 'end')
    ctx.close(num(rb), num(ra), 'torch-differs', 'result of optimize', rtol=1e-8, atol=1e-8)
    ctx.check(isinstance(rb, torch.Tensor), 'torch-type', f'result {type(rb)}')
    ctx.seen('optimized')
    ctx.sig('opt', *signature(s))


def direct(ctx, rng):
    """torch variants on hostile inputs"""
    k, n = int(rng.integers(1, 4)), int(rng.integers(1, 9))
    d = pick(rng, [(1,), (3,), (2, 2)])
    x = rng.standard_normal((k, n) + d) * 10.**rng.uniform(-2, 3)
    e = rng.standard_normal((k, n)) * 10.**rng.uniform(-2, 6) + pick(rng, [0., 1e4, -1e6])
    alpha = 10.**rng.uniform(-3, 6, size=(k, 1))
    if chance(rng, .3):
        e[:, rng.integers(n)] = 1e30
    if chance(rng, .2):
        e[:] = e[:, :1]
    if chance(rng, .2):
        alpha[:] = float(alpha[0, 0])
    ctx.describe(k=k, n=n, d=d, e=e, alpha=alpha)
    te, tx = torch.tensor(e), torch.tensor(x)
    te0, tx0 = te.clone(), tx.clone()
    al = torch.tensor(alpha)
    c, er = tu.compute_consensus_torch(te, tx, al)
    ctx.check(isinstance(c, torch.Tensor) and isinstance(er, np.ndarray), 'torch-type', f'{type(c)} {type(er)}')
    ctx.equal(er, e, 'torch-consensus-energy')
    w = gibbs_weights(e, alpha)
    # conditioning of the weights: rounding of alpha*energy
    pert = 4e-16 * np.abs(alpha * np.where(np.abs(e) < 1e20, e, 0)).max() * 4 + 1e-13
    ctx.close(num(c), (expand(w, x.ndim) * x).sum(1, keepdims=True).astype(float), 'torch-consensus', rtol=1e-9, atol=(min(pert, 10.) + 1e-12) * np.abs(x).max())
    ctx.check(torch.equal(te, te0) and torch.equal(tx, tx0), 'argument-modified')
    ctx.seen('direct_consensus')
    K = rng.uniform(0, 30, (k, n, n))
    if chance(rng, .3):
        K *= 1e3
    fac = pick(rng, ['one', 'alpha'])
    e2 = rng.standard_normal((k, n))
    a2 = 10.**rng.uniform(-3, 2, size=(k, 1))
    kf = 1. if fac == 'one' else a2[:, :, None]
    c, er = tu.compute_polar_consensus_torch(torch.tensor(e2), tx, torch.tensor(K), alpha=torch.tensor(a2)[:, :, None],
                                             kernel_factor=1. if fac == 'one' else torch.tensor(kf))
    w = gibbs_weights(e2[:, None, :], a2[:, :, None], kf * K).astype(float)
    ctx.close(num(c), np.einsum('kij,kj...->ki...', w, x), 'torch-polar-consensus', rtol=1e-8, atol=1e-8 * np.abs(x).max())
    ctx.equal(er, e2, 'torch-polar-energy')
    ctx.seen('polar')
    # norm
    ctx.close(num(tu.norm_torch(tx.reshape(k, n, -1), axis=-1)), np.linalg.norm(x.reshape(k, n, -1), axis=-1), 'torch-norm')

    # post processing
    class D:
        pass
    q = rng.standard_normal((k, n) + d) * 10.**rng.uniform(0, 10)
    flat = q.ravel()
    for v in (np.nan, np.inf, -np.inf):
        if chance(rng, .6):
            flat[int(rng.integers(flat.size))] = v
    th = float(pick(rng, [1e8, 1e3, 2.]))
    dn, dt = D(), D()
    dn.x, dt.x = q.copy(), torch.tensor(q)
    (tu.post_process_default_torch(max_thresh=th) if th != 1e8 else tu.post_process_default_torch())(dt)
    ctx.close(num(dt.x), np.clip(np.where(np.isnan(q), th, q), -th, th), 'torch-post-process', rtol=1e-12)
    ctx.seen('post')
    ctx.sig('direct', k > 1, min(n, 3), len(d), fac, th)


def ess(ctx, rng):
    """effective sample size for tensors is the one for arrays"""
    M, N = int(rng.integers(1, 4)), int(rng.integers(2, 15))
    e = rng.uniform(0, 5, (M, N)) * 10.**rng.uniform(-1, 2)
    eta = float(pick(rng, [.1, .3, .5, .8]))
    mx = float(pick(rng, [1e5, 1e7, 50.]))
    it = int(pick(rng, [15, 30, 60]))

    class D:
        pass
    dn, dt = D(), D()
    dn.M = dt.M = M
    dn.energy, dt.energy = e, e.copy()
    dn.alpha, dt.alpha = np.ones((M, 1)), torch.ones((M, 1), dtype=torch.float64)
    dn.x, dt.x = np.zeros((M, N, 2)), torch.zeros((M, N, 2), dtype=torch.float64)
    ctx.describe(M=M, N=N, eta=eta, maximum=mx, it=it)
    sch.effective_sample_size(eta=eta, maximum=mx, solve_max_it=it).update(dn)
    t = tu.effective_sample_size(eta=eta, maximum=mx, solve_max_it=it)
    t.update(dt)
    ctx.check(isinstance(dt.alpha, torch.Tensor) and dt.alpha.dtype == torch.float64, 'torch-type', f'alpha {type(dt.alpha)}')
    ctx.close(num(dt.alpha), np.asarray(dn.alpha), 'torch-effective-sample-size', rtol=1e-9)
    ctx.check(np.array_equal(dt.energy, e), 'argument-modified')
    ctx.seen('ess')
    # within a run
    s = gen_spec(rng, classes=['CBO'], noises=['isotropic'], corrections=['no_correction'], f_dims=['3D'], batch=False, steps=3, N=6)
    a, b, sn, st, _, _, _ = twins(s, torch.float64, 'class', lambda: dict(max_it=3))
    ua, ub = sch.effective_sample_size(maximum=1e4), tu.effective_sample_size(maximum=1e4)
    for _ in range(3):
        sn.tick += 1
        st.tick += 1
        a.step()
        b.step()
        ua.update(a)
        ub.update(b)
        ctx.close(num(b.alpha), num(a.alpha), 'torch-effective-sample-size', 'in a run', rtol=1e-6)
        if not np.allclose(num(b.alpha), num(a.alpha), rtol=1e-12):
            break
    ctx.sig('ess', M > 1, eta, mx)


def samplers(ctx, rng):
    """default random numbers of torch dynamics have the documented distribution"""
    seed = int(rng.integers(2**31))
    D = tu.to_torch_dynamic(cd.CBO)
    f = lambda x: (x**2).sum(-1).sum(-1) if x.ndim > 3 else (x**2).sum(-1)
    M, N, d = int(rng.integers(1, 4)), 2000, 3
    dyn = D(f, f_dim='3D', M=M, N=N, d=d, verbosity=0, seed=seed, max_it=2)
    ctx.describe(M=M, N=N, d=d, seed=seed)
    x = num(dyn.x)
    ctx.check(isinstance(dyn.x, torch.Tensor) and x.shape == (M, N, d), 'torch-initial', f'{type(dyn.x)} {x.shape}', stop=True)
    ctx.check(bool((np.abs(x) <= 1).all()), 'torch-initial', 'outside of the unit box')
    n = x.size
    for p in (1, 2, 3, 4):
        mean, var = (np.array([0, 1 / 3, 0, 1 / 5])[p - 1], np.array([1 / 3, 4 / 45, 1 / 7, 16 / 225])[p - 1])
        ctx.check(abs((x**p).mean() - mean) < 7 * np.sqrt(var / n), 'torch-initial', f'moment {p} is {(x**p).mean()}')
    shape = tuple(pick(rng, [(4, 5000), (2, 500, 20), (2, 100, 10, 10), (20000,)]))
    z = num(dyn.sampler(size=shape))
    ctx.check(z.shape == shape, 'torch-sampler', str(z.shape))
    for p, mean, var in ((1, 0, 1), (2, 1, 2), (3, 0, 15), (4, 3, 96)):
        ctx.check(abs((z**p).mean() - mean) < 7 * np.sqrt(var / z.size), 'torch-sampler', f'moment {p} is {(z**p).mean()}')
    ctx.check(abs((z[..., 1:] * z[..., :-1]).mean()) < 7 / np.sqrt(z.size), 'torch-sampler', 'serial correlation')
    z2 = num(dyn.sampler(size=shape))
    ctx.check(abs((z * z2).mean()) < 7 / np.sqrt(z.size), 'torch-sampler', 'successive draws are correlated')
    torch.manual_seed(seed)
    w = num(tu.exponential_torch('cpu')(size=shape))
    ctx.check(w.shape == shape, 'torch-sampler', str(w.shape))
    for p, mean, var in ((1, 0, 2), (2, 2, 20), (3, 0, 720)):
        ctx.check(abs((w**p).mean() - mean) < 7 * np.sqrt(var / w.size), 'torch-sampler', f'exponential: moment {p} is {(w**p).mean()}')
    ctx.check(abs(np.abs(w).mean() - 1) < 7 / np.sqrt(w.size), 'torch-sampler', 'exponential: mean size')
    ctx.seen('samplers')
    ctx.sig('samplers', M)


FAMILIES = {'twin': (twin, 700), 'optimize': (optimize, 150), 'direct': (direct, 300), 'ess': (ess, 60), 'samplers': (samplers, 24)}
