"""C13: regularised objectives add exactly the weighted penalty."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.regularizers import regularize_objective, regularization_paramter_scheduler, select_reg_func
from cbx.scheduler import scheduler, multiply
from cbx.utils.objective_handling import cbx_objective_fh

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import gen_spec, pick, chance, brief, signature, objective, start, TickSampler, RecObj
from ..ref import LD, RefConstraint

RULE = ('random penalties (support, l1, plane, sphere, quadric, custom; by name, dictionary or callable), exponents, scalar and per-run '
        'weights and ensembles incl. points on the target sets: every value is compared with its formula; random histories with '
        'the weight schedule: theta and the weights of every run are compared with the rule evaluated in extended precision. '
        'Distinct by penalty, exponent, weight kind and schedule parameters.')
REQUIRE = {'values': 5000, 'on_target': 500, 'per_run_weights': 100, 'schedule_updates': 1000, 'weight_raised': 300,
           'weight_kept': 300, 'bound_reached': 50, 'combination': 50, 'equalities': 20, 'underflow_updates': 20}
ASSUMPTIONS = ['the comparison of the mean violation with 1/sqrt(theta) is not judged where both agree up to rounding']


class Pen:
    """an independent implementation of the penalties"""

    def __init__(self, rng, n, names=('L0', 'L1', 'Plane', 'Sphere', 'Quadric', 'custom')):
        self.n, self.name = n, str(pick(rng, list(names)))
        k = self.name
        self.w = 1.
        self.form = 'dict'
        if k in ('L0', 'L1'):
            self.w = float(pick(rng, [1., 1., 2.5, .1]))
            self.arg = dict(name=k, lamda=self.w)
            if self.w == 1. and chance(rng, .5):
                self.arg = k
        elif k == 'Plane':
            self.a, self.b = rng.standard_normal(n) + .1, float(rng.uniform(-1, 1))
            self.arg = dict(name=k, a=self.a.copy(), b=self.b)
            if chance(rng, .2):
                self.a, self.b, self.arg = np.ones(n), 0., k
        elif k == 'Sphere':
            self.r = float(pick(rng, [1., .5, 2.]))
            self.arg = dict(name=k, r=self.r)
            if self.r == 1. and chance(rng, .5):
                self.arg = k
        elif k == 'Quadric':
            self.A, self.b, self.c = rng.standard_normal((n, n)), rng.standard_normal(n), float(rng.uniform(-1, 0))
            self.arg = dict(name=k, A=self.A.copy(), b=self.b.copy(), c=self.c)
            if chance(rng, .3):
                self.b = np.zeros(n)
                self.arg.pop('b')
        else:
            self.arg = lambda x: np.abs(x[..., 0] - .3)

    def __call__(self, x):
        k = self.name
        if k == 'L0':
            return self.w * (np.abs(x) > 1e-7).sum(-1)
        if k == 'L1':
            return self.w * np.abs(x).sum(-1)
        if k == 'Plane':
            return np.abs((self.a * x).sum(-1) - self.b) / np.sqrt((self.a**2).sum())
        if k == 'Sphere':
            return np.abs(np.sqrt((x**2).sum(-1)) - self.r)
        if k == 'Quadric':
            return np.abs(np.einsum('...i,ij,...j->...', x, self.A, x) + (x * self.b).sum(-1) + self.c)
        return np.abs(x[..., 0] - .3)

    def onto(self, x):
        """some points of the target set"""
        k = self.name
        if k in ('L0', 'L1'):
            return np.zeros_like(x)
        if k == 'Plane':
            return x - (((self.a * x).sum(-1) - self.b) / (self.a @ self.a))[..., None] * self.a
        if k == 'Sphere':
            return x / np.linalg.norm(x, axis=-1, keepdims=True) * self.r
        if k == 'Quadric':
            # along the ray through x, where there is an intersection
            q = np.einsum('...i,ij,...j->...', x, self.A, x)
            l = (x * self.b).sum(-1)
            D = l**2 - 4 * q * self.c
            with np.errstate(all='ignore'):
                t = (-l + np.sqrt(D)) / (2 * q)
            return np.where(np.isfinite(t)[..., None], t[..., None] * x, np.nan)
        x = x.copy()
        x[..., 0] = .3
        return x


def ensemble(rng, M, N, n):
    x = rng.uniform(-2, 2, (M, N, n)) * 10.**rng.integers(-2, 3)
    if chance(rng, .4):
        x = np.where(rng.random(x.shape) < .4, 0., x)
    if chance(rng, .2):
        x = np.where(rng.random(x.shape) < .3, x * 1e-4 + np.sign(x) * 1e-6, x)
    # no coordinates that are neither zero nor clearly nonzero
    return np.where(np.abs(x) < 5e-7, 0., x)


def values(ctx, rng):
    M, N, n = sz(rng, 1, 5, BM), sz(rng, 1, 8, BN), sz(rng, 1, 5, BD)
    pen = Pen(rng, n)
    p = pick(rng, [1, 1, 2, 2, 3, .5, .25])
    x = ensemble(rng, M, N, n)
    w = rng.uniform(.5, 2, n)

    def f(z):
        return (w * z**2).sum(-1) - 1.
    obj = cbx_objective_fh(f)
    kind = pick(rng, ['scalar', 'scalar', 'per_run', 'broadcast'])
    lam = float(pick(rng, [0., .5, 1., 1e6]))
    reg = regularize_objective(obj, pen.arg, lamda=lam, p=p) if not (p == 1 and lam == 1. and chance(rng, .5)) else \
        regularize_objective(obj, pen.arg)
    ctx.describe(pen=pen.name, p=p, lamda=lam, weights=kind, M=M, N=N, n=n)
    lamv = np.full((M, 1), lam)
    if kind == 'broadcast':
        reg.broadcast_lamda(x)
        reg.broadcast_lamda(x)
        ctx.check(np.shape(reg.lamda) == (M, 1), 'weights-shape', str(np.shape(reg.lamda)), stop=True)
    if kind == 'per_run':
        lamv = rng.uniform(0, 5, (M, 1))
        reg = regularize_objective(obj, pen.arg, lamda=lamv.copy(), lamda_broadcasted=True, p=p)
    if kind != 'scalar':
        ctx.seen('per_run_weights')
    x0 = x.copy()
    got = np.asarray(reg(x))
    want = f(x) + lamv * pen(x)**p
    sc = 1e-9 * (1 + lamv.max()) * (1 + np.abs(x).max()**2)**max(1, p)
    ctx.close(got, want, 'regularised-value', f'{pen.name} p={p} weights {kind}', rtol=1e-9, atol=sc * 1e-3)
    ctx.seen('values', got.size)
    ctx.equal(x, x0, 'ensemble-modified')
    ctx.equal(np.asarray(obj(x)), f(x), 'original-objective-changed')
    # the penalty itself
    R = select_reg_func(pen.arg)
    r = np.asarray(R(x))
    ctx.check(r.shape == (M, N), 'penalty-shape', f'{r.shape}', stop=True)
    ctx.check(bool((r >= 0).all()), 'penalty-negative', f'{pen.name}')
    ctx.close(r, pen(x), 'penalty', pen.name, rtol=1e-9, atol=1e-9 * (1 + np.abs(x).max()**2))
    t = pen.onto(x)
    good = np.isfinite(t).all(-1)
    if good.any() and pen.name != 'Sphere' or (np.linalg.norm(x, axis=-1) > 0).all():
        t = np.where(good[..., None], t, 0.)
        v = np.asarray(R(t))
        ctx.seen('on_target', good.sum())
        ctx.check(bool((v[good] <= 1e-7 * (1 + np.abs(t).max()**2)).all()), 'penalty-on-target', f'{pen.name}: {v[good].max() if good.any() else 0}')
    # single points and plain ensembles
    for y in (x[0], x[0, 0], x[:, 0]):
        ctx.close(np.asarray(R(y)), pen(y), 'penalty', f'{pen.name} at points of shape {y.shape}', rtol=1e-9, atol=1e-9 * (1 + np.abs(x).max()**2))
    if pen.name == 'Plane':
        c = float(pick(rng, [.5, -2., 3.]))        # a normal given by a single number
        R1 = select_reg_func(dict(name='Plane', a=c, b=pen.b))
        for y in (x, x[0], x[0, 0]):
            ctx.close(np.asarray(R1(y)), np.abs(c * y.sum(-1) - pen.b) / (abs(c) * np.sqrt(n)), 'penalty', f'Plane with normal {c} at points of shape '
                      f'{y.shape}', rtol=1e-9, atol=1e-9 * (1 + np.abs(x).max()))
    far = pen(x) > 1e-6 * (1 + np.abs(x).max()**2)
    ctx.check(bool((r[far] > 0).all()), 'penalty-zero-off-target', pen.name)
    # the number of evaluations is that of the original objective
    k = obj.num_eval
    ctx.check(reg.num_eval == k, 'evaluation-counter', f'{reg.num_eval} instead of {k}')
    ctx.sig('values', pen.name, p, kind, M > 1, n, lam)


def mean_violation(kind, E, R, alpha):
    if kind == 'simple':
        return np.asarray(R, dtype=LD).mean(-1)
    w = -np.asarray(alpha, dtype=LD) * np.asarray(E, dtype=LD)
    w = np.exp(w - w.max(-1, keepdims=True))
    return (w * R).sum(-1) / w.sum(-1)


def schedule(ctx, rng):
    """weight schedule in an optimization"""
    s = gen_spec(rng, classes=['CBO', 'CBO', 'AdamCBO', 'CBOMemory', 'PolarCBO'], multi=False, f_dims=['3D'], corrections=['no_correction'])
    n, M = s['d'][0], s['M']
    pen = Pen(rng, n, names=('L1', 'Plane', 'Sphere', 'Quadric', 'custom'))
    p = pick(rng, [1, 2])
    rule = pick(rng, ['weighted', 'weighted', 'simple'])
    a = dict(theta=float(pick(rng, [1., .1, 30., 1e4])), factor_theta=float(pick(rng, [1.1, 2., 1.5])),
             factor_lamda=float(pick(rng, [1.1, 3., 1.5])), theta_max=float(pick(rng, [1e5, 1e5, 40.])),
             lamda_max=float(pick(rng, [1e15, 1e15, 5.])))
    a['theta'] = min(a['theta'], a['theta_max'])
    lam0 = float(pick(rng, [1., .1, 4., 1., .1, 4., 1e-4]))
    off = float(pick(rng, [0., 0., 0., 2e4]))     # large energies: all weights underflow without care
    base = objective(s)
    if chance(rng, .3):                             # runs with energies of different magnitudes
        off = rng.choice([0., 2e3, -3e3, 2e4], size=(M, 1))

    def f(x):
        return base(x) + off
    reg = regularize_objective(f, pen.arg, lamda=lam0, p=p)
    sch = regularization_paramter_scheduler(rule_mean=rule, **a)
    al = multiply(name='alpha', factor=float(pick(rng, [1.05, .7])))
    order = pick(rng, ['reg', 'reg-alpha', 'alpha-reg'])
    alpha_f = al.factor
    kw = copy.deepcopy(s['kw'])
    smp = TickSampler(s['noise_seed'])
    steps = s['steps'] + 3
    dyn = getattr(cd, s['cls'])(reg, f_dim='3D', x=start(s), sampler=smp, max_it=steps, verbosity=0, **kw)
    ctx.describe(**brief(s), pen=pen.name, p=p, rule=rule, lamda0=lam0, offset=off, order=order, **a)
    lam, theta = np.full(M, lam0), np.full(M, a['theta'])
    unknown = np.zeros(M, bool)
    real = sch.update

    def update(d):
        alpha = np.array(d.alpha, dtype=float)
        R, x = pen(d.x), np.array(d.x)
        E = f(x) + np.reshape(d.f.lamda, (-1, 1)) * R**p
        m = mean_violation(rule, E, R, alpha).astype(float)
        real(d)
        ctx.seen('schedule_updates', M)
        if np.any(off):
            ctx.seen('underflow_updates')
        ctx.equal(d.x, x, 'ensemble-modified', 'by the schedule')
        got_l, got_t = np.asarray(d.f.lamda), np.asarray(sch.theta)
        if not ctx.check(got_l.shape == (M, 1) and got_t.shape == (M,), 'weights-shape', f'{got_l.shape} {got_t.shape}', stop=True):
            return
        for r in range(M):
            t = 1 / np.sqrt(theta[r])
            amb = abs(m[r] - t) <= 1e-6 * (1 + t)
            if amb:
                ctx.seen('undecided')
                lam[r], theta[r] = got_l[r, 0], got_t[r]
                continue
            if m[r] <= t:
                theta[r] *= a['factor_theta']
                ctx.seen('weight_kept')
            else:
                theta[r] /= a['factor_theta']
                lam[r] *= a['factor_lamda']
                ctx.seen('weight_raised')
            if theta[r] > a['theta_max'] or lam[r] > a['lamda_max']:
                ctx.seen('bound_reached')
            theta[r] = min(theta[r], a['theta_max'])
            lam[r] = min(max(lam[r], 0.), a['lamda_max'])
        ctx.close(got_l[:, 0], lam, 'weight', f'iteration {d.it}, mean violation {m}', rtol=1e-10, atol=0., stop=True)
        ctx.close(got_t, theta, 'theta', f'iteration {d.it}, mean violation {m}', rtol=1e-10, atol=0., stop=True)
        ctx.check(bool((got_l <= a['lamda_max'] * (1 + 1e-12)).all() and (got_l >= 0).all()
                       and (got_t <= a['theta_max'] * (1 + 1e-12)).all()), 'bound-exceeded')
        # the objective of the next step uses the weights of the runs
        ctx.close(np.asarray(d.f(x)), f(x) + lam[:, None] * R**p, 'regularised-value', 'after the update', rtol=1e-9, atol=1e-9)
        ctx.close(np.asarray(d.f.original_func(x)), f(x), 'original-objective-changed', rtol=1e-13)
    sch.update = update
    lst = {'reg': [sch], 'reg-alpha': [sch, al], 'alpha-reg': [al, sch]}[order]
    smp.tick = 1
    dyn.optimize(sched=scheduler(lst))
    ctx.sig('schedule', s['cls'], pen.name, p, rule, a['factor_theta'], a['factor_lamda'], bool(np.any(off)), M > 1, order)


def combination(ctx, rng):
    """the penalised-combination dynamic minimises f + g^2/nu"""
    s = gen_spec(rng, classes=['RegCombinationCBO'], f_dims=['2D', '3D', '1D'])
    kw = copy.deepcopy(s['kw'])
    rec = RecObj(objective(s), s['f_dim'])
    dyn = cd.RegCombinationCBO(rec, f_dim=s['f_dim'], x=start(s), sampler=TickSampler(1), max_it=10**6, verbosity=0, **kw)
    ctx.describe(**brief(s))
    x = np.random.default_rng(s['x_seed']).uniform(-1.5, 1.5, (s['M'], s['N'], s['d'][0]))
    G = [RefConstraint(c) for c in (s['kw'].get('constraints') or [])]
    f = objective(s)
    want = f(x) + sum((g.value(x)**2 for g in G), np.zeros((s['M'], s['N']))) / s['kw']['nu']
    ctx.close(np.asarray(dyn.f(x)) + np.zeros_like(want), want, 'regularised-value', 'combination', rtol=1e-9, atol=1e-9)
    x1 = dyn.x.copy()
    dyn.step()
    idx = np.isfinite(dyn.energy)
    want = f(x1) + sum((g.value(x1)**2 for g in G), np.zeros(x1.shape[:2])) / s['kw']['nu']
    ctx.close(dyn.energy[idx], want[idx], 'regularised-value', 'energies of the step', rtol=1e-9, atol=1e-9)
    ctx.seen('combination')
    ctx.sig('combination', *signature(s), len(G))


def equality(ctx, rng):
    """the mean violation equals its bound: the weights are kept"""
    M, N, n = sz(rng, 1, 4, BM), sz(rng, 1, 5, BN), sz(rng, 1, 3, BD)
    c = float(pick(rng, [.5, .25, 1., 2.]))
    theta, ft, lam = 1 / c**2, float(pick(rng, [2., 1.5])), float(pick(rng, [1., .3]))
    reg = regularize_objective(lambda z: (z**2).sum(-1), lambda z: np.full(np.shape(z)[:-1], c), lamda=lam)
    sch = regularization_paramter_scheduler(rule_mean='simple', theta=theta, factor_theta=ft, factor_lamda=3., theta_max=1e6)
    d = cd.CBO(reg, f_dim='3D', M=M, N=N, d=n, seed=1, verbosity=0)
    ctx.describe(M=M, N=N, n=n, value=c, theta=theta, factor=ft, lamda=lam)
    d.step()
    sch.update(d)
    ctx.close(np.asarray(d.f.lamda) + np.zeros((M, 1)), np.full((M, 1), lam), 'weight', 'mean violation equal to its bound', rtol=1e-12)
    ctx.close(np.asarray(sch.theta) + np.zeros(M), np.full(M, theta * ft), 'theta', 'mean violation equal to its bound', rtol=1e-12)
    d.step()
    sch.update(d)       # now it is above
    ctx.close(np.asarray(d.f.lamda) + np.zeros((M, 1)), np.full((M, 1), 3 * lam), 'weight', 'mean violation above its bound', rtol=1e-12)
    ctx.close(np.asarray(sch.theta) + np.zeros(M), np.full(M, theta), 'theta', 'mean violation above its bound', rtol=1e-12)
    ctx.seen('equalities')
    ctx.sig('equality', M, N, n, c, ft, lam)


def subset(ctx, rng):
    """per-run weights while some runs are terminated"""
    x = np.random.default_rng(3).uniform(-1, 1, (3, 4, 2))
    reg = regularize_objective(lambda z: (z**2).sum(-1), 'L1', lamda=1.)
    dyn = cd.CBO(reg, f_dim='3D', x=x, verbosity=0, seed=1, term_criteria=[lambda d: np.array([d.it >= 2, d.it >= 4, d.it >= 4])])
    try:
        dyn.optimize(sched=scheduler([regularization_paramter_scheduler()]))
    except ValueError as e:
        ctx.fail('per-run-weights-with-terminated-runs', str(e))
    ctx.sig('subset')


FAMILIES = {'subset': (subset, 1), 'values': (values, 700), 'equality': (equality, 40), 'schedule': (schedule, 450), 'combination': (combination, 120)}
