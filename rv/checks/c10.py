"""C10: ensembles stay finite and inside the post-processing bound; the caller's objects are not modified."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.dynamics.pdyn import post_process_default

from ..gen import gen_spec, build, pick, chance, brief, signature, objective, start, RecObj, TickSampler, BASE

RULE = ('random histories of all dynamics with injected faults: objectives returning nan/+-inf/1e300 at random calls or points, '
        'samplers and custom noise returning nan/inf/huge numbers, extreme parameters, user thresholds; after every step every '
        'coordinate is checked, and every object the caller passed in is compared with a copy taken before. Distinct by '
        'configuration signature and fault; non-trivial when a fault was actually delivered.')
REQUIRE = {'steps': 1000, 'faults_delivered': 500, 'coordinates_at_bound': 100, 'caller_objects': 500, 'direct_in_bound': 1000,
           'torch_steps': 50, 'fault_objective': 100, 'fault_sampler': 50, 'fault_param': 50}
ASSUMPTIONS = ['a configuration whose linear algebra rejects not-a-number input loudly (covariance noise, Stiefel projection) is '
               'not combined with not-a-number energies or samples: a step that raises is not completed']

BAD = [np.nan, np.inf, -np.inf, 1e300, -1e300, 1e308]


class FaultyObj:
    """delivers bad values at random calls / points"""

    def __init__(self, s, rng, values, torch=False):
        self.f, self.rng, self.values = objective(s), rng, values
        self.mode = pick(rng, ['points', 'run', 'all', 'after'])
        self.first = int(rng.integers(0, 4))
        self.calls = self.delivered = 0
        self.torch = torch

    def __call__(self, x):
        xn = x.detach().cpu().numpy() if self.torch else x
        with np.errstate(all='ignore'):
            e = np.array(self.f(xn), dtype=float)
        self.calls += 1
        if self.calls > self.first:
            if self.mode == 'points':
                k = self.rng.random(e.shape) < .4
            elif self.mode == 'run':
                k = np.zeros(e.shape, bool)
                k[int(self.rng.integers(e.shape[0]))] = True
            elif self.mode == 'all':
                k = np.full(e.shape, bool(self.rng.random() < .5))
            else:
                k = np.ones(e.shape, bool)
            v = self.values[self.rng.integers(len(self.values), size=e.shape)]
            e = np.where(k, v, e)
            self.delivered += int(k.sum())
        if self.torch:
            import torch
            return torch.as_tensor(e, dtype=x.dtype)
        return e


class FaultySampler(TickSampler):
    def __init__(self, seed, rng, values):
        super().__init__(seed)
        self.rng, self.values, self.delivered, self.on = rng, values, 0, False

    def __call__(self, size=None):
        z = super().__call__(size)
        if self.on and self.rng.random() < .6:
            k = self.rng.random(z.shape) < .3
            z = np.where(k, self.values[self.rng.integers(len(self.values), size=z.shape)], z)
            self.delivered += int(k.sum())
        return z


def snap(o):
    return copy.deepcopy(o)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a is b or a == b


def singular_free(s):
    """whether the step of this configuration does not factorise matrices made from energies or samples"""
    sdf = s['kw'].get('sdf') or {}
    return s['kw']['noise'] not in ('covariance', 'sampling') and sdf.get('name') != 'Stiefel'


def case(ctx, rng):
    s = gen_spec(rng, classes=BASE, f_dims=['3D'])
    fault = pick(rng, ['objective', 'objective', 'sampler', 'param', 'noise'])
    if fault == 'noise' and s['cls'] == 'CBS':
        fault = 'objective'
    nanfree = not singular_free(s)
    vals = np.array([v for v in BAD if not (nanfree and not np.isfinite(v))])
    if nanfree and fault in ('sampler', 'noise'):
        vals = np.array([1e20, -1e20, 1e60])
    if nanfree and fault == 'objective':
        vals = np.array([1e300, -1e300, 1e150])
    if s['cls'] in ('DriftConstrainedCBO', 'RegCombinationCBO') and s['kw'].get('constraints'):
        # linear systems with entries up to 1e32 may be numerically singular
        s['kw']['constraints'] = [c for c in s['kw']['constraints'] if c['name'] == 'plane'] or None
    k = int(rng.integers(len(vals))) if chance(rng, .6) else None
    vals = vals if k is None else vals[k:k + 1]
    over, x = {}, start(s)
    thresh = pick(rng, [None, None, None, None, 1e3, 1e3, 2.5, 2.5, 1e8, .3, 1e-4, 1e-7])
    if s['cls'] in ('MirrorCBO', 'HyperSurfaceCBO') and thresh is not None and thresh < 1e3:
        thresh = 1e3
    if fault == 'param':
        which = pick(rng, ['sigma', 'lamda', 'dt', 'alpha', 'alpha'])
        if s['cls'] == 'CBS' and which in ('sigma', 'lamda'):
            which = 'alpha'
        v = {'sigma': [1e10, 1e100, 1e-300], 'lamda': [1e10, 1e-300, 1e100], 'dt': [1e10, 1e100, 1e-300],
             'alpha': [1e15, 1e300, 1e-300, 1e-12]}[which]
        if nanfree or s['kw'].get('constraints'):
            v = {'sigma': [1e10, 1e-300], 'lamda': [1e10, 1e-300], 'dt': [1e6, 1e-300], 'alpha': [1e15, 1e300, 1e-12]}[which]
        val = float(pick(rng, v))
        over[which] = np.full((s['M'], 1), val) if which == 'alpha' and chance(rng, .5) else val
        ctx.seen('fault_param')
    f = FaultyObj(s, rng, vals) if fault == 'objective' else RecObj(objective(s), '3D', keep=False)
    if fault == 'sampler':
        over['sampler'] = FaultySampler(s['noise_seed'], rng, vals)
    if fault == 'noise':
        cnt = [0]

        def noise(dyn):
            z = np.array(dyn.drift)
            kk = rng.random(z.shape) < .3
            cnt[0] += int(kk.sum())
            return np.where(kk, vals[rng.integers(len(vals), size=z.shape)], z)
        over['noise'] = noise
    if thresh is not None:
        over['post_process'] = post_process_default(max_thresh=thresh, copy_nan_to_num=True)
    T = 1e8 if thresh is None else thresh
    ctx.describe(**brief(s), fault=fault, values=vals, thresh=thresh, over={a: b for a, b in over.items() if a in (
        'sigma', 'lamda', 'dt', 'alpha')})
    # everything the caller hands over
    kw = copy.deepcopy(s['kw'])
    kw.update(over)
    passed = dict(kw, x=x)
    if chance(rng, .3):
        passed['track_args'] = {'names': ['x', 'energy'], 'save_int': 2}
    before = {a: snap(b) for a, b in passed.items() if isinstance(b, (np.ndarray, dict, list, tuple))}
    smp = passed.pop('sampler', None) or TickSampler(s['noise_seed'])
    dyn = getattr(cd, s['cls'])(f, f_dim='3D', sampler=smp, max_it=10**6, verbosity=0, **passed)
    ctx.check(not np.shares_memory(dyn.x, x), 'initial-array-shared')
    sched = dyn.default_sched() if chance(rng, .4) else None
    if isinstance(smp, FaultySampler):
        smp.on = True
    for i in range(s['steps']):
        smp.tick += 1
        dyn.step()
        if sched is not None:
            sched.update(dyn)
        ctx.seen('steps')
        xx = dyn.x
        ctx.check(xx.shape == x.shape, 'shape-changed', f'{xx.shape} instead of {x.shape}', stop=True)
        if not ctx.check(bool(np.isfinite(xx).all()), 'not-finite', f'step {i}: {xx[~np.isfinite(xx)][:3]}', stop=True):
            return
        ctx.check(bool((np.abs(xx) <= T).all()), 'bound-exceeded', f'step {i}: {np.abs(xx).max()} > {T}', stop=True)
        ctx.seen('coordinates_at_bound', (np.abs(xx) == T).sum())
    n = getattr(f, 'delivered', 0) + getattr(smp, 'delivered', 0) + (cnt[0] if fault == 'noise' else 0) + (fault == 'param')
    ctx.seen('faults_delivered', n)
    if n:
        ctx.seen('fault_' + fault) if fault != 'param' else None
        ctx.sig(*signature(s), fault, thresh, repr(vals.tolist()))
    for a, b in before.items():
        ctx.seen('caller_objects')
        ctx.check(same(passed[a], b), 'caller-object-modified', f'{a}: {passed[a]} instead of {b}')


class Holder:
    pass


def direct(ctx, rng):
    """post-processing itself: values within the bound stay bit for bit, others are moved to the bound"""
    T = float(pick(rng, [1e8, 1e8, 3., 1e-3, 1e300]))
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 4)))
    x = rng.standard_normal(shape) * 10.**rng.uniform(-12, 12, size=shape)
    x = np.where(rng.random(shape) < .3, np.array([np.nan, np.inf, -np.inf, 1e300, -1e300, -0., T, -T])[rng.integers(8, size=shape)], x)
    which = pick(rng, ['numpy', 'numpy_copy', 'default', 'torch'])
    ctx.describe(which=which, T=T, shape=shape)
    h = Holder()
    if which == 'torch':
        import torch
        from cbx.utils.torch_utils import post_process_default_torch
        dtype = pick(rng, [torch.float64, torch.float32])
        h.x = torch.tensor(x, dtype=dtype)
        ref = h.x.numpy().copy()
        if dtype == torch.float32:
            T = float(np.float32(min(T, 1e30)))
        post_process_default_torch(max_thresh=T)(h)
        out = h.x.numpy()
    else:
        h.x = x.copy()
        ref = x
        if which == 'default':
            T = 1e8
            post_process_default()(h)
        else:
            post_process_default(max_thresh=T, copy_nan_to_num=(which == 'numpy_copy'))(h)
        out = h.x
    inb = np.abs(ref) <= T
    ctx.equal(out[inb], ref[inb], 'value-within-bound-changed')
    ctx.check(bool((np.signbit(out[inb]) == np.signbit(ref[inb])).all()), 'value-within-bound-changed', 'sign')
    ctx.seen('direct_in_bound', inb.sum())
    ctx.check(bool(np.isfinite(out).all() and (np.abs(out) <= T).all()), 'bound-exceeded', f'{which} {T}: {out.ravel()}')
    up, lo = ref > T, ref < -T
    ctx.check(bool((out[up] == T).all() and (out[lo] == -T).all()), 'not-moved-to-the-bound', f'{which} {T}')
    ctx.check(bool((np.abs(out[np.isnan(ref)]) <= T).all()), 'bound-exceeded', 'nan')
    ctx.sig('direct', which, T, shape)


def torch_case(ctx, rng):
    import torch
    from cbx.utils.torch_utils import to_torch_dynamic
    s = gen_spec(rng, classes=['CBO'], noises=['isotropic', 'anisotropic', 'constant'],
                 corrections=['no_correction'], per_run_alpha=False, f_dims=['3D'])
    vals = np.array(BAD)
    f = FaultyObj(s, rng, vals, torch=True)
    dtype = pick(rng, [torch.float32, torch.float64])
    x = torch.tensor(start(s), dtype=dtype)
    x0 = x.clone()
    ctx.describe(**brief(s), dtype=str(dtype))
    kw = copy.deepcopy(s['kw'])
    if chance(rng, .3):
        kw['sigma'] = 1e30
    dyn = to_torch_dynamic(cd.CBO)(f, f_dim='3D', x=x, seed=int(rng.integers(1000)), max_it=10**6, verbosity=0, **kw)
    for i in range(s['steps']):
        dyn.step()
        ctx.seen('torch_steps')
        v = dyn.x.double().numpy()
        ctx.check(bool(np.isfinite(v).all()), 'not-finite', f'torch step {i}', stop=True)
        ctx.check(bool((np.abs(v) <= 1e8).all()), 'bound-exceeded', f'torch step {i}', stop=True)
    ctx.check(bool((x == x0).all()), 'caller-object-modified', 'torch x')
    ctx.seen('faults_delivered', f.delivered)
    ctx.sig('torch', *signature(s))


FAMILIES = {'faults': (case, 1600), 'direct': (direct, 300), 'torch': (torch_case, 60)}
