"""Reference one-step laws (the documented updates), evaluated from the observed state before a step."""
import numpy as np

from .gen import index_pairs

LD = np.longdouble


def expand(a, ndim):
    """(k, b) -> (k, b, 1, ...) with ndim axes"""
    return np.asarray(a)[(...,) + (None,) * (ndim - 2)]


def gibbs_weights(energy, alpha, extra=0.):
    """weights exp(-alpha*energy - extra)/sum over the last axis, in extended precision"""
    energy = np.asarray(energy, dtype=LD)
    with np.errstate(all='ignore'):
        w = np.asarray(alpha, dtype=LD) * (energy - energy.min(axis=-1, keepdims=True)) + np.asarray(extra, dtype=LD)
    w = w - w.min(axis=-1, keepdims=True)
    e = np.exp(-w)
    return e / e.sum(axis=-1, keepdims=True)


def gibbs(energy, x, alpha):
    w = gibbs_weights(energy, alpha)
    return (expand(w, x.ndim) * x).sum(axis=1, keepdims=True).astype(float)


def mat_sqrt(A):
    B, V = np.linalg.eigh(A)
    return np.einsum('...ij,...j,...kj->...ik', V, np.sqrt(np.maximum(B, 0)), V)


SNAP = ['x', 'y', 'v', 'm', 'energy', 'alpha', 'dt', 'lamda', 'sigma', 'it', 't', 'best_energy', 'best_particle',
        'num_f_eval', 'lamda_memory', 'sigma_memory', 'gamma', 'eps', 'correction_eps']


def snapshot(dyn):
    """copies of the public state of a dynamic"""
    out = {}
    for k in SNAP:
        if hasattr(dyn, k):
            v = getattr(dyn, k)
            if hasattr(v, 'detach'):
                v = v.detach().cpu().numpy().copy()
            elif isinstance(v, np.ndarray):
                v = v.copy()
            out[k] = v
    out['active'] = np.array(dyn.active_runs_idx)
    return out


def noise_term(kind, drift, dt, z, cov=None, alpha=None, mode='sampling'):
    if callable(kind):
        raise ValueError('callable noise')
    if kind == 'isotropic':
        nrm = np.sqrt((drift.reshape(drift.shape[:2] + (-1,))**2).sum(-1))
        return np.sqrt(dt) * z * expand(nrm, drift.ndim)
    if kind == 'anisotropic':
        return np.sqrt(dt) * z * drift
    if kind == 'constant':
        return np.sqrt(dt) * z
    if kind in ('covariance', 'sampling'):
        S = mat_sqrt(cov)
        if S.ndim == 3:
            n = np.einsum('kij,knj->kni', S, z)
        else:
            n = np.einsum('knij,knj->kni', S, z)
        fac = 2 * dt * (1 + alpha[..., None]) if mode == 'sampling' else 2 * dt * np.ones_like(alpha)[..., None]
        return np.sqrt(fac) * n
    raise ValueError(kind)


class Law:
    """predicts one step of a dynamic built by gen.build"""

    def __init__(self, spec, f):
        self.spec, self.f = spec, f      # f: pure objective (M,N,*d)->(M,N)
        self.kw = spec['kw']
        self.adam_m = self.adam_v = None
        self.fixed, self.first = False, True     # fixed: nothing changes the parameters

    def configured(self, pre):
        """the parameters as they were configured (documented defaults)"""
        kw, M = self.kw, pre['x'].shape[0]
        out = dict(pre, dt=kw.get('dt', .01), lamda=kw.get('lamda', 1.), sigma=kw.get('sigma', 5.1))
        a = kw.get('alpha', 1.)
        out['alpha'] = np.full((M, 1), float(a)) if np.ndim(a) == 0 else np.asarray(a, float)
        cls = self.spec['cls']
        if cls == 'CBS':
            out['sigma'] = 1.
        if cls in ('CBOMemory', 'PSO'):
            out['lamda_memory'] = kw.get('lamda_memory', .4)
            sm = kw.get('sigma_memory')
            out['sigma_memory'] = out['lamda_memory'] * out['sigma'] if sm is None else sm
        if cls == 'PSO':
            g = kw.get('gamma')
            out['gamma'] = 1 - kw.get('m', .001) if g is None else g
        if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'):
            out['eps'] = kw.get('eps', .01)
        out['correction_eps'] = kw.get('correction_eps', 1e-3)
        return out

    def heavi(self, e, c, drift, eps):
        """correction factor (k,b) and where it is decided by rounding"""
        k = self.kw.get('correction', 'no_correction')
        if k == 'no_correction':
            return np.ones(e.shape), np.zeros(e.shape, bool)
        fc = self.f(c)
        z = e - fc
        if k == 'heavi_side':
            amb = np.abs(z) <= 1e-9 * (1 + np.abs(e) + np.abs(fc))
            return (z > 0).astype(float), amb
        with np.errstate(over='ignore'):
            h = .5 + .5 * np.tanh(z / eps)
        # conditioning: rounding of z relative to eps
        amb = np.abs(z) * 0 + (1e-15 * (1 + np.abs(e) + np.abs(fc)) / eps) > 1e-6
        return h, amb

    def predict(self, dyn, pre, sampler):
        """dict with the predicted full arrays and the pairs that move"""
        cls = self.spec['cls']
        if self.first and pre['it'] == 0 or self.fixed:
            pre = self.configured(pre)
        self.first = False
        M, N = pre['x'].shape[:2]
        d = pre['x'].shape[2:]
        nd = len(d)
        x = pre['x'].reshape((M * N,) + d)
        C, P = index_pairs(dyn, dyn.consensus_idx), index_pairs(dyn, dyn.particle_idx)
        act = pre['active']
        alpha = np.asarray(pre['alpha'])[act]
        dt, lam, sig = pre['dt'], pre['lamda'], pre['sigma']
        xn = pre['x'].copy().reshape((M * N,) + d)
        out = dict(C=C, P=P, amb=np.zeros((M * N,), bool))
        z = None
        kind = self.kw.get('noise', 'isotropic')

        def noise(drift, **k):
            return noise_term(kind, drift, dt, sampler.numbers(drift.shape), **k)

        xc, xp = x[C], x[P]
        same = C.shape == P.shape and (C == P).all()
        if cls in ('CBO', 'AdamCBO', 'CBS', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'MirrorCBO', 'RegCombinationCBO'):
            fobj = self.f
            e = self.objective_on(xc)
            c = gibbs(e, xc, alpha)
            out['consensus'], out['e'] = c, e
            drift = xp - c
            if cls in ('CBO', 'CBS', 'MirrorCBO') and self.kw.get('correction', 'no_correction') != 'no_correction':
                assert same
                H, amb = self.heavi(e, c, drift, pre.get('correction_eps', 1e-3))
                drift = expand(H, drift.ndim) * drift
                out['amb'][P] = amb
            cov = {}
            if kind in ('covariance', 'sampling'):
                w = gibbs_weights(e, alpha).astype(float)
                cov = dict(cov=np.einsum('kn,kni,knj->kij', w, drift, drift), alpha=alpha,
                           mode=self.kw.get('mode', 'sampling'))
            n = noise(drift, **cov)
            if cls in ('CBO', 'CBS'):
                xn[P] = xp - lam * dt * drift + sig * n
            elif cls == 'AdamCBO':
                b1, b2 = self.kw.get('betas', (.9, .99))
                eps = self.kw.get('eps', 1e-8)
                if self.adam_m is None:
                    self.adam_m = np.zeros_like(x)
                    self.adam_v = np.zeros_like(x)
                self.adam_m[P] = b1 * self.adam_m[P] + (1 - b1) * drift
                self.adam_v[P] = b2 * self.adam_v[P] + (1 - b2) * drift**2
                k = pre['it'] + 1
                mh, vh = self.adam_m[P] / (1 - b1**k), self.adam_v[P] / (1 - b2**k)
                xn[P] = xp - lam * mh / (np.sqrt(vh) + eps) + sig * n
                out['scale'] = lam / eps
            elif cls == 'MirrorCBO':
                y = pre['y'].reshape((M * N,) + d).copy()
                y[P] = y[P] - lam * dt * drift + sig * n
                out['y'] = y.reshape((M, N) + d)
                xn = None
            elif cls == 'DriftConstrainedCBO':
                xn[P] = self.dc_step(xp, drift, n, lam, dt, sig, pre['eps'])
            elif cls == 'RegCombinationCBO':
                xn[P] = self.rc_step(xp, drift, n, lam, dt, sig, pre['eps'])
            elif cls == 'HyperSurfaceCBO':
                xn[P] = self.hs_step(xp, drift, n, lam, dt, sig)
        elif cls == 'PolarCBO':
            e = self.objective_on(xc)
            K = kernel_neg_log(self.kw['kernel'], self.kw['kappa'], xp, xc)
            fac = 1. if self.kw.get('kernel_factor_mode', 'alpha') == 'const' else alpha[:, :, None]
            w = gibbs_weights(e[:, None, :], alpha[:, :, None], fac * K).astype(float)
            c = np.einsum('kij,kj...->ki...', w, xc)
            out['consensus'], out['e'], out['w'] = c, e, w
            drift = xp - c
            if self.kw.get('correction', 'no_correction') != 'no_correction':
                assert same
                H, amb = self.heavi(e, c, drift, pre.get('correction_eps', 1e-3))
                drift = expand(H, drift.ndim) * drift
                out['amb'][P] = amb
            cov = {}
            if kind in ('covariance', 'sampling'):
                D = xc[:, None] - c[:, :, None]
                cov = dict(cov=np.einsum('kij,kija,kijb->kiab', w, D, D), alpha=alpha)
            n = noise(drift, **cov)
            xn[P] = xp - lam * dt * drift + sig * n
        elif cls == 'CBOMemory':
            y, en = pre['y'].reshape((M * N,) + d), pre['energy'].reshape(-1)
            c = gibbs(en[C], y[C], alpha)
            out['consensus'] = c
            drift = xp - c
            if self.kw.get('correction', 'no_correction') != 'no_correction':
                H, amb = self.heavi(en[P], c, drift, pre.get('correction_eps', 1e-3))
                drift = expand(H, drift.ndim) * drift
                out['amb'][P] = amb
            x1 = xp - lam * dt * drift + sig * noise(drift)
            dm = x1 - y[P]
            xn[P] = x1 - pre['lamda_memory'] * dt * dm + pre['sigma_memory'] * noise(dm)
        elif cls == 'PSO':
            y, v = pre['y'].reshape((M * N,) + d), pre['v'].reshape((M * N,) + d).copy()
            en = pre['energy'].reshape(-1)
            c = gibbs(en[C], y[C], alpha)
            out['consensus'] = c
            drift, dm = xp - c, xp - y[P]
            H, amb = self.heavi(en[P], c, drift, pre.get('correction_eps', 1e-3))
            out['amb'][P] = amb
            m, g = self.kw['m'], pre['gamma']
            v[P] = (m * v[P] - expand(H, drift.ndim) * lam * dt * drift - pre['lamda_memory'] * dt * dm +
                    sig * noise(drift) + pre['sigma_memory'] * noise(dm)) / (m + g * dt)
            xn[P] = xp + dt * v[P]
            out['v'] = v.reshape((M, N) + d)
        else:
            raise ValueError(cls)
        if xn is not None:
            out['x'] = np.clip(np.nan_to_num(xn, nan=1e8), -1e8, 1e8).reshape((M, N) + d)
        out['amb'] = out['amb'].reshape(M, N)
        out['drift'] = drift
        return out

    # --- pieces
    def objective_on(self, x):
        v = self.f(x)
        if self.spec['cls'] == 'RegCombinationCBO':
            G = self.constraints()
            if G:
                v = v + sum(g.value(x)**2 for g in G) / self.kw.get('nu', 1.)
        return v

    def constraints(self):
        return [RefConstraint(c) for c in (self.kw.get('constraints') or [])]

    def dc_step(self, x, drift, n, lam, dt, sig, eps):
        G = self.constraints()
        rhs = lam * dt * drift + sig * n
        A = np.broadcast_to(np.eye(x.shape[-1]), x.shape + (x.shape[-1],)).copy()
        for g in G:
            v, gr, H = g.value(x), g.grad(x), g.hess(x)
            rhs = rhs + dt / eps * 2 * v[..., None] * gr
            A = A + dt / eps * 2 * (gr[..., :, None] * gr[..., None, :] + v[..., None, None] * H)
        self.last_cond = np.linalg.cond(A)
        return x - np.linalg.solve(A, rhs[..., None])[..., 0]

    def rc_step(self, x, drift, n, lam, dt, sig, eps):
        """x' solves x' = x - lam dt drift + noise - 2 dt/eps g(x) grad g(x') , grad g affine"""
        xt = x - lam * dt * drift + sig * n
        self.last_cond = np.ones(x.shape[:2])
        G = self.constraints()
        if not G or eps >= 1e15:
            return xt
        g = G[0]
        v = g.value(x)
        H, g0 = g.hess(x), g.grad(np.zeros_like(x))      # grad g(x') = H x' + g0
        A = np.eye(x.shape[-1]) + 2 * dt / eps * v[..., None, None] * H
        self.last_cond = np.linalg.cond(A)
        return np.linalg.solve(A, (xt - 2 * dt / eps * v[..., None] * g0)[..., None])[..., 0]

    def hs_step(self, x, drift, n, lam, dt, sig):
        sdf = self.kw.get('sdf') or {'name': 'sphere'}
        w = -lam * dt * drift + sig * n
        d2 = (drift**2).sum(-1, keepdims=True)
        aniso = self.kw['noise'] == 'anisotropic'
        if sdf['name'] == 'sphere':
            t = w - x * (x * w).sum(-1, keepdims=True)
            if aniso:
                cor = dt * sig**2 / 2 * (d2 + drift**2 - 2 * ((drift * x)**2).sum(-1, keepdims=True)) * x
            else:
                cor = dt * sig**2 / 2 * (x.shape[-1] - 1) * d2 * x
            r = x + t - cor
            return r / np.linalg.norm(r, axis=-1, keepdims=True)
        if sdf['name'] == 'plane':
            a = np.asarray(sdf['a'], float)
            u = a / np.linalg.norm(a)
            r = x + w - u * (w * u).sum(-1, keepdims=True)
            return r - u * ((r * u).sum(-1, keepdims=True) - sdf['b'] / np.linalg.norm(a))
        n_, k_ = sdf['nk']
        X, W = x.reshape(x.shape[:-1] + (n_, k_)), w.reshape(x.shape[:-1] + (n_, k_))
        Xt, Wt = np.swapaxes(X, -1, -2), np.swapaxes(W, -1, -2)
        t = (W - .5 * X @ (Wt @ X + Xt @ W)).reshape(x.shape)
        r = x + t - dt * sig**2 / 2 * (2 * n_ - k_ - 1) / 2 * d2 * x
        u, s, vt = np.linalg.svd(r.reshape(x.shape[:-1] + (n_, k_)), full_matrices=False)
        return (u @ vt).reshape(x.shape)


class RefConstraint:
    def __init__(self, c):
        self.c = c

    def value(self, x):
        c = self.c
        if c['name'] == 'plane':
            return ((x * c['a']).sum(-1) - c['b']) / np.linalg.norm(c['a'])
        if c['name'] == 'sphere':
            return (x**2).sum(-1) - c['r']**2
        b = c['b'] if c.get('b') is not None else np.zeros(x.shape[-1])
        return np.einsum('...i,ij,...j->...', x, c['A'], x) + (x * b).sum(-1) + c.get('c', 0)

    def grad(self, x):
        c = self.c
        if c['name'] == 'plane':
            return np.broadcast_to(c['a'] / np.linalg.norm(c['a']), x.shape)
        if c['name'] == 'sphere':
            return 2 * x
        b = c['b'] if c.get('b') is not None else np.zeros(x.shape[-1])
        return np.einsum('ij,...j->...i', c['A'] + c['A'].T, x) + b

    def hess(self, x):
        c = self.c
        n = x.shape[-1]
        if c['name'] == 'plane':
            return np.zeros(x.shape + (n,))
        if c['name'] == 'sphere':
            return np.broadcast_to(2 * np.eye(n), x.shape + (n,))
        return np.broadcast_to(c['A'] + c['A'].T, x.shape + (n,))


def kernel_neg_log(name, kappa, xp, xc):
    """(k, p, c) negative logarithm of the kernel between moved particles and batch particles"""
    k = xp.shape[0]
    a, b = xp.reshape(k, xp.shape[1], 1, -1), xc.reshape(k, 1, xc.shape[1], -1)
    dist = np.sqrt(((a - b)**2).sum(-1))
    if name == 'Gaussian':
        return dist**2 / (2 * kappa**2)
    if name == 'Laplace':
        return dist / kappa
    if name == 'Constant':
        with np.errstate(over='ignore'):
            return np.where(dist / kappa < 1, 0., np.where(dist / kappa > 1, np.inf, 1.))
    if name == 'InverseQuadratic':
        return np.log1p((dist / kappa)**2)
    if name == 'Taz':
        mx = dist.max(axis=(1, 2), keepdims=True)
        return (dist / np.where(mx > 0, mx, 1.) / kappa)**2
    raise ValueError(name)
