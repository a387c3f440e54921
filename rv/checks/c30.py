"""C30: invalid configurations are rejected, documented ones are accepted."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.correction import heavi_side_reg_correction
from cbx.noise import anisotropic_noise, exponential_sampler
from cbx.objectives import Rastrigin, Ackley, Himmelblau
from cbx.utils.history import track
from cbx.utils.objective_handling import cbx_objective
from cbx.utils.resampling import resampling, loss_update_resampling
from cbx.utils.termination import max_it_term, energy_tol_term
from cbx.dynamics.polarcbo import Gaussian_kernel, Laplace_kernel
from cbx.dynamics.mirrorcbo import L2, ProjectionBall

from ..gen import gen_spec, build, pick, chance, brief, signature, objective, start, RecObj, TickSampler, BASE, Obj, PatternTerm, random_stops, index_pairs
from ..drive import advance
from ..ref import Law

RULE = ('documented options combined at random over all dynamics; construction has to succeed, every given object has to be used, every '
        'parameter has to enter the first step (compared with the law of the dynamic for these parameters); for every dynamic and option '
        'a family of invalid values, which have to raise at construction, next to a valid one which must not; signatures = '
        'dynamic x option values')
REQUIRE = {'accepted': 1200, 'steps_as_configured': 500, 'rejected': 1500, 'valid_twins': 1000, 'defaults': 100, 'observed:noise': 50,
           'observed:correction': 30, 'observed:compute_consensus': 40, 'observed:post_process': 60, 'observed:sampler': 60,
           'observed:norm': 40, 'observed:copy': 40, 'observed:extra_track': 40, 'observed:term': 60, 'observed:kernel': 20,
           'observed:mirrormap': 20, 'observed:objective_object': 60, 'observed:eval_points': 30, 'documented_defaults': 200, 'eval_point_steps': 200, 'eval_point_subsets': 100}
ASSUMPTIONS = ['options are judged for the dynamics whose documentation or class lists them; an invalid value may be reported by any '
               'exception, but has to be reported by the constructor']


class Used:
    """a callable that counts its calls"""
    def __init__(self, fn):
        self.fn, self.n = fn, 0

    def __call__(self, *a, **k):
        self.n += 1
        return self.fn(*a, **k)

    def __getattr__(self, name):
        return getattr(self.__dict__['fn'], name)


class UsedKernel:
    def __init__(self, k):
        self.k, self.n = k, 0

    def __call__(self, x, y):
        self.n += 1
        return self.k(x, y)

    def neg_log(self, x, y):
        self.n += 1
        return self.k.neg_log(x, y)


class UsedMap:
    def __init__(self, m):
        self.m, self.n = m, 0

    def __call__(self, t):
        return self.m(t)

    def grad(self, t):
        self.n += 1
        return self.m.grad(t)

    def grad_conj(self, y):
        self.n += 1
        return self.m.grad_conj(y)


class UsedTrack(track):
    def __init__(self):
        self.inits, self.n = 0, 0

    def init_history(self, dyn):
        self.inits += 1
        dyn.history['mine'] = []

    def update(self, dyn):
        self.n += 1
        dyn.history['mine'].append(dyn.it)


class MyObjective(cbx_objective):
    def __init__(self, f):
        super().__init__()
        self.g = f

    def apply(self, x):
        return self.g.value(x.reshape(x.shape[:2] + (-1,)))


def plain_consensus(energy, x, alpha):
    a = np.asarray(alpha)
    w = np.exp(-a * (energy - energy.min(-1, keepdims=True)))
    w = w / w.sum(-1, keepdims=True)
    return (w[(...,) + (None,) * (x.ndim - 2)] * x).sum(1, keepdims=True), energy


def matrix(ctx, rng):
    """random combination of documented options"""
    s = gen_spec(rng, indep=False)
    kw, cls, M, N = s['kw'], s['cls'], s['M'], s['N']
    over, used = {}, {}
    law = True
    opts = set()

    def use(name, obj, key=None):
        used[name] = obj
        over[key or name] = obj
        opts.add(name)
    if chance(rng, .2) and cls not in ('HyperSurfaceCBO', 'CBS') and kw['noise'] != 'covariance':
        kind = kw['noise']
        use('noise', Used(lambda dyn: np.sqrt(dyn.dt) * .1 * np.cos(dyn.drift)))
        law = False
        del kind
    if chance(rng, .25) and cls in ('CBO', 'MirrorCBO', 'CBOMemory', 'PSO'):
        use('correction', Used(lambda dyn, x: .5 * x))
        kw['correction'] = 'no_correction'
        law = False
    if chance(rng, .2) and cls in ('CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'CBS'):
        use('compute_consensus', Used(plain_consensus))
    if chance(rng, .25):
        from cbx.dynamics.pdyn import post_process_default
        use('post_process', Used(post_process_default()))
    if chance(rng, .25):
        smp = TickSampler(s['noise_seed'])
        use('sampler', Used(smp))
    if chance(rng, .2):
        use('norm', Used(np.linalg.norm))
    if chance(rng, .2):
        use('copy', Used(np.copy))
    tr = None
    if chance(rng, .3):
        tr = UsedTrack()
        names = [str(n) for n in rng.permutation(['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean'])[:int(rng.integers(0, 4))]]
        if cls == 'PolarCBO':
            names = [n for n in names if n in ('x', 'energy', 'update_norm')]
        si = int(pick(rng, [1, 1, 2]))
        over['track_args'] = {'names': names, 'extra_tracks': [tr], 'save_int': si}
        used['extra_track'] = tr
        opts.add('track')
    terms = None
    if chance(rng, .3):
        t = Used(max_it_term(4))
        extra = [pick(rng, [{'name': 'energy-tol', 'energy_tol': -1e9}, 'max eval' if N < 100 else {'name': 'max eval', 'max_eval': 10**5}, {'name': 'diff_tol', 'diff_tol': -1.}, {'name': 'max-time', 'max_time': 1e9}, energy_tol_term(-1e9),
                            {'name': 'energy stagnation', 'patience': 50}])]
        terms = [t] + extra
        over['term_criteria'] = terms
        used['term'] = t
        opts.add('term')
    else:
        over['max_it'] = 4
    if cls == 'PolarCBO' and chance(rng, .5):
        use('kernel', UsedKernel(pick(rng, [Gaussian_kernel, Laplace_kernel])(kappa=kw['kappa'])))
        law = False
    if cls == 'MirrorCBO' and chance(rng, .4):
        use('mirrormap', UsedMap(pick(rng, [L2(), L2(lamda=2.), ProjectionBall(radius=2.)])))
        law = False
    form = None
    if chance(rng, .2):
        form = 'objective_object'
    if chance(rng, .25) and cls not in ('CBOMemory', 'PSO', 'PolarCBO'):
        over['save_consensus_eval_points'] = True
        opts.add('eval_points')
    over['verbosity'] = int(pick(rng, [0, 0, 1, 2]))
    if np.ndim(kw['alpha']) == 0 and kw['alpha'] == int(kw['alpha']) and chance(rng, .4):      # numbers come in many types
        kw['alpha'] = pick(rng, [int, np.int64, np.int32, np.float32])(kw['alpha'])
    f = objective(s)
    x = start(s)
    kind = pick(rng, ['array', 'array', 'list', 'readonly', 'view'])
    given = x.tolist() if kind == 'list' else x
    if kind == 'readonly':
        given = x.copy()
        given.setflags(write=False)
    if kind == 'view':
        given = np.concatenate((x, x), axis=0)[::2][:M] if M > 1 else x
        x = np.array(given)
    ctx.describe(**brief(s), options=sorted(opts), start=kind, objective_form=form)
    s0 = dict(s)
    if form:
        s0['f_dim'] = '3D'
        rec = MyObjective(f)
    else:
        rec = RecObj(f, s['f_dim'])
    if 'sampler' not in over:
        over['sampler'] = TickSampler(s['noise_seed'])
    inner = over['sampler'].fn if isinstance(over['sampler'], Used) else over['sampler']
    dyn, _, _ = build(s0, x=given, f=rec, **over)
    ctx.seen('accepted')
    ctx.check(dyn.M == M and dyn.N == N and tuple(dyn.d) == tuple(s['d']) and dyn.x.shape == (M, N) + tuple(s['d']), 'shape',
              f'{dyn.x.shape}')
    ctx.equal(dyn.x, np.asarray(x, float), 'start-not-used', kind)
    if form:
        n0 = rec.num_eval
    for k in ('dt', 'lamda', 'alpha'):
        if k in kw and not (cls == 'CBS'):
            ctx.close(np.broadcast_to(np.asarray(getattr(dyn, k), float), (M, 1)) if k == 'alpha' else getattr(dyn, k),
                      np.broadcast_to(np.asarray(kw[k], float), (M, 1)) if k == 'alpha' else kw[k], 'parameter-lost', k)
    L = Law(s, f)
    inner.tick += 1
    from ..ref import snapshot
    dyn.terminate()
    pre = snapshot(dyn)
    dyn.step()
    if law and cls in ('CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'PolarCBO', 'CBS', 'DriftConstrainedCBO', 'RegCombinationCBO', 'HyperSurfaceCBO'):
        p = L.predict(dyn, pre, inner)
        if 'x' in p and np.isfinite(p['x']).all():
            size = max(1., np.abs(pre['x']).max(), np.abs(p['x']).max())
            tol = 1e-6 * getattr(L, 'last_cond', np.ones(1)).max() if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else 1e-6
            if cls == 'DriftConstrainedCBO' and kw.get('constraints') is None:
                pass
            amb = p['amb']
            if cls == 'AdamCBO':
                v = np.abs(L.adam_v).reshape(M, N, -1) * (1 / (1 - kw.get('betas', (.9, .99))[1]))
                amb = amb | (np.sqrt(v) < 1e-5 * size).any(-1)
            if (tol < 1e-3):
                ok = np.isclose(dyn.x, p['x'], rtol=tol, atol=tol * size) | amb[(...,) + (None,) * len(s['d'])]
                ctx.seen('steps_as_configured')
                ctx.check(ok.all(), 'step-not-as-configured', f'{(~ok).sum()} coordinates differ from the law of the given parameters')
    res = dyn.optimize() if cls != 'CBS' else dyn.optimize()
    ctx.check(np.isfinite(np.asarray(dyn.x)).all() and np.isfinite(np.asarray(res)).all(), 'not-finite')
    ctx.check(dyn.it == 4, 'limit-not-effective', f'{dyn.it} iterations instead of 4')
    for k, u in used.items():
        n = u.n
        ctx.seen('observed:' + k, n > 0)
        if k == 'norm' and n == 0:
            continue
        if k == 'copy' and n == 0:
            continue
        ctx.check(n > 0, 'option-ignored:' + k, f'{k} was given, but never called in {dyn.it} steps')
    if tr is not None:
        exp = (dyn.it + si - 1) // si
        ctx.check(tr.inits == 1 and tr.n == exp, 'extra-track', f'{tr.n} updates in {dyn.it} steps (save_int {si})')
        ctx.check(all(n in dyn.history for n in names) and 'mine' in dyn.history, 'tracking-ignored', f'{names}: {sorted(dyn.history)}')
        ctx.check(not (set(dyn.history) - set(names)) & {'x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean'}, 'tracking-extra',
                  f'{names}: {sorted(dyn.history)}')
    if 'post_process' in used:
        ctx.check(used['post_process'].n == 4, 'post-process-count', f"{used['post_process'].n} calls in 4 steps")
    if form:
        ctx.seen('observed:objective_object')
        ctx.check(rec.num_eval > n0, 'option-ignored:objective', '')
    if 'eval_points' in opts:
        ctx.seen('observed:eval_points')
        ctx.check(getattr(dyn, 'consensus_eval_points', None) is not None and dyn.consensus_eval_points.shape == dyn.x.shape,
                  'option-ignored:save_consensus_eval_points')
    ctx.sig(*signature(s), tuple(sorted(opts)), kind, form)


def defaults(ctx, rng):
    """only the necessary arguments"""
    cls = pick(rng, BASE)
    d = int(pick(rng, [2, 3, 5]))
    kind = pick(rng, ['d', 'MNd', 'x1', 'x2', 'x3'])
    f = pick(rng, ['fun', 'Rastrigin', 'Ackley', 'lambda'])
    obj = {'fun': lambda x: float((x**2).sum()), 'lambda': lambda x: np.sum(np.abs(x)), 'Rastrigin': Rastrigin(), 'Ackley': Ackley()}[f]
    kw = {}
    M, N = 1, 20
    if kind == 'd':
        kw['d'] = d
    elif kind == 'MNd':
        M, N = int(rng.integers(1, 4)), int(rng.integers(1, 12))
        kw.update(M=M, N=N, d=d)
    elif kind == 'x1':
        N = 1
        kw['x'] = rng.uniform(.1, .5, d)
    elif kind == 'x2':
        N = 6
        kw['x'] = rng.uniform(.1, .5, (N, d))
    else:
        M, N = 2, 5
        kw['x'] = rng.uniform(.1, .5, (M, N, d))
    if f in ('Rastrigin', 'Ackley'):
        kw['f_dim'] = '3D'
    if chance(rng, .3):
        kw['seed'] = 3
    ctx.describe(cls=cls, kind=kind, f=f, d=d)
    if cls == 'RegCombinationCBO' and chance(rng, .5):
        kw['constraints'] = []
    most = int(pick(rng, [10] * 6 + [0, 1, 3]))
    dyn = getattr(cd, cls)(obj, max_it=most, **kw)
    ctx.check(dyn.x.shape == (M, N, d), 'shape', f'{dyn.x.shape}')
    if 'x' not in kw:
        ctx.check((np.abs(dyn.x) <= 1).all(), 'start-outside-of-box')
    res = dyn.optimize()
    ctx.seen('defaults')
    ctx.check(dyn.it == most and np.isfinite(dyn.x).all(), 'defaults-broken', f'{dyn.it} iterations')
    ctx.check(np.asarray(res).shape == (M, d), 'result-shape', f'{np.asarray(res).shape}')
    ctx.check(isinstance(repr(dyn), str) and len(repr(dyn)) > 10, 'representation')
    ctx.sig('defaults', cls, kind, f, 'seed' in kw)


DOCUMENTED = dict(noise='isotropic', dt=.01, alpha=1., sigma=5.1, lamda=1., correction='no_correction', correction_eps=1e-3,
                  save_consensus_eval_points=False)


def documented_defaults(ctx, rng):
    """an option that is left out and an option that is given its documented default are the same"""
    cls = pick(rng, BASE)
    d = int(pick(rng, [1, 2, 3])) + (cls == 'HyperSurfaceCBO')
    M, N = int(rng.integers(1, 4)), int(rng.integers(2, 9))
    doc = dict(DOCUMENTED)
    if cls == 'CBS':
        for k in ('noise', 'sigma', 'lamda', 'correction', 'correction_eps', 'save_consensus_eval_points'):
            doc.pop(k)
    if cls in ('CBOMemory', 'PSO'):
        doc.pop('lamda')
    if cls == 'AdamCBO':
        doc.update(betas=(.9, .99), eps=1e-8)
    if cls == 'PolarCBO':
        doc.update(kappa=1.)
    seed = int(rng.integers(100))
    x = rng.uniform(.1, .9, (M, N, d))
    base = dict(seed=seed, max_it=int(rng.integers(1, 5)), verbosity=0)
    f = Obj(pick(rng, ['quad', 'rastrigin', 'abs']), d, rng)
    b = {}
    if chance(rng, .5) and cls != 'CBS':
        size = int(rng.integers(1, N + 1))
        b = dict(size=size)
        doc['batch_args'] = dict(size=size, partial=True, seed=42, var='resample')
        if chance(rng, .3):
            b = dict(size=N) if chance(rng, .5) else {}
            doc['batch_args']['size'] = N
    if chance(rng, .5):
        doc['f_dim'] = '1D'
    # a random part of the documented options
    k = [str(n) for n in rng.permutation(sorted(doc))]
    some = k if chance(rng, .3) else k[:int(rng.integers(1, len(k) + 1))]
    if b and 'batch_args' not in some:
        some.append('batch_args')
    ctx.describe(cls=cls, M=M, N=N, d=d, given=sorted(some), batch=b)
    one = getattr(cd, cls)(f.value, x=x, **base, **(dict(batch_args=b) if b else {}))
    two = getattr(cd, cls)(f.value, x=x, **base, **{n: copy.deepcopy(doc[n]) for n in some})
    one.optimize()
    two.optimize()
    ctx.close(one.x, two.x, 'documented-default', f'{sorted(some)}: particles', rtol=1e-12, atol=1e-13)
    ctx.equal(one.num_f_eval, two.num_f_eval, 'documented-default', 'evaluations')
    ctx.close(one.best_energy, two.best_energy, 'documented-default', 'best energy', rtol=1e-12, atol=1e-13)
    # sizes
    if chance(rng, .3):
        u = getattr(cd, cls)(f.value, d=d, seed=seed, verbosity=0)
        v = getattr(cd, cls)(f.value, d=d, M=1, N=20, f_dim='1D', seed=seed, verbosity=0)
        ctx.equal(u.x, v.x, 'documented-default', 'M, N')
        ctx.check(u.x.shape == (1, 20, d), 'documented-default', f'shape {u.x.shape}')
    if chance(rng, .1):
        # limits above the default one
        lim = int(pick(rng, [1, 999, 1001, 1500, 5000]))
        w = getattr(cd, cls)(f.value, x=x[:1, :2], seed=seed, max_it=lim, verbosity=0)
        for at in (lim - 1, lim):
            w.it = at
            ctx.check(bool(w.terminate()) == (at >= lim), 'option-ignored:max_it', f'max_it={lim} in iteration {at}')
    ctx.seen('documented_defaults')
    ctx.sig('doc', cls, tuple(sorted(some)), bool(b))


def eval_points(ctx, rng):
    """the saved points are those at which the energies of the consensus were evaluated"""
    s = gen_spec(rng, classes=['CBO', 'CBO', 'AdamCBO', 'CBS', 'DriftConstrainedCBO', 'MirrorCBO', 'RegCombinationCBO', 'HyperSurfaceCBO'])
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, save_consensus_eval_points=True, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops)
    ref = np.full(dyn.x.shape, np.nan)
    n = int(np.prod(s['d']))

    def on_step(pre):
        J = index_pairs(dyn, dyn.consensus_idx)
        ref.reshape(-1, n)[J.ravel()] = pre['x'].reshape(-1, n)[J.ravel()]
        done = ~np.isnan(ref).reshape(s['M'], s['N'], -1).any(-1)
        p = np.asarray(dyn.consensus_eval_points)
        if ctx.check(p.shape == ref.shape, 'option-ignored:save_consensus_eval_points', f'{p.shape}', stop=True):
            ctx.equal(p[done], ref[done], 'evaluation-points', f"iteration {pre['it']}")
            if np.shape(dyn.energy) == (s['M'], s['N']) and s['cls'] not in ('RegCombinationCBO',):
                ctx.close(rec.f(p)[done], np.asarray(dyn.energy)[done], 'energy-of-evaluation-points', f"iteration {pre['it']}",
                          rtol=1e-10, atol=1e-10)
        ctx.seen('eval_point_steps')
        ctx.seen('eval_point_subsets', J.size < s['M'] * s['N'])
    advance(dyn, smp, on_step)
    ctx.sig('points', *signature(s))


GOODF = lambda x: float((x**2).sum())  # noqa: E731
INVALID = {
    # option: (dynamics or None for all, invalid values, a valid value or a function, extra arguments)
    'noise': (None, ['isotropc', 'Isotropic', '', 'gaussian', 5, 3.5, [], {'name': 'isotropic'}, None], 'isotropic'),
    'correction': (None, ['heavyside', 'none', '', 'heavi_side_', 7, [], {'name': 'heavi_side'}, None], 'no_correction'),
    'f_dim': (None, ['0D', '4D', '', 2, None, '1d', 'D2'], '1D'),
    'kernel': (['PolarCBO'], ['gaussian', '', 'Gauss', 'RBF', 'none', 'const', 'constant', 'laplace', 'taz', 'Inverse'], 'Gaussian'),
    'mirrormap': (['MirrorCBO'], ['l2', '', 'Projection', {'name': 'ball'}, {'radius': 2.}, {'name': 'L2', 'lambda': 2.}], 'L2'),
    'constraints': (['DriftConstrainedCBO', 'RegCombinationCBO'],
                    [[{'name': 'planes', 'a': np.ones(2), 'b': 0.}], [{'a': np.ones(2)}], [{'name': 'sphere', 'radius': 1.}],
                     [{'name': 'none'}]], [{'name': 'sphere', 'r': 1.}]),
    'sdf': (['HyperSurfaceCBO'], [{'name': 'Sphere'}, {'name': 'ball'}, {'a': 1.}, {'name': 'plane', 'c': 1.}], {'name': 'sphere'}),
    'term_criteria': (None, [['maxit'], ['max_iter'], [{'name': 'energy'}], [{'max_it': 5}], [{'name': 'max_it', 'max_iter': 5}],
                             ['max-it', 'stagnation'], ['Max-it']], ['max-it']),
    'unknown': (None, [{'lambda_': 1.}, {'Sigma': 1.}, {'particles': 3}, {'noize': 'isotropic'}, {'batch_size': 4}], {}),
    'dimension': (None, [None], 2),
    'f': (None, [None, 'f', 5, np.ones(3), [1, 2]], GOODF),
    'shape': (None, ['vector', 'scalar', 'transposed', 'axis', 'longer', 'list3D'], 'right'),
    'mode': (['CBS'], [], 'sampling'),
}


def bad_objective(kind, M, N, d):
    """objectives returning something of a wrong shape, with the f_dim they are for"""
    return {
        'right': ('3D', lambda x: (x**2).sum(-1)),
        'vector': ('3D', lambda x: x**2),
        'scalar': ('3D', lambda x: (x**2).sum()),
        'transposed': ('3D', lambda x: (x**2).sum(-1).T),
        'axis': ('3D', lambda x: (x**2).sum(1)),
        'longer': ('2D', lambda x: np.concatenate([(x**2).sum(-1), [0.]])),
        'list3D': ('1D', lambda x: x**2),
    }[kind]


def invalid(ctx, rng):
    opt = pick(rng, [k for k in INVALID if k != 'mode'])
    classes, bad, good = INVALID[opt]
    cls = pick(rng, classes or BASE)
    M, N, d = pick(rng, [(1, 4, 2), (2, 5, 3), (3, 4, 2)])
    if not len(bad):
        return
    value = bad[int(rng.integers(len(bad)))]
    for v, ok in ((value, False), (good, True)):
        kw = dict(M=M, N=N, d=d, verbosity=0, max_it=3)
        f = GOODF
        if opt == 'unknown':
            kw.update(v)
        elif opt == 'dimension':
            kw['d'] = v
        elif opt == 'f':
            f = v
        elif opt == 'shape':
            kw['f_dim'], f = bad_objective(v, M, N, d)
        elif opt == 'f_dim':
            kw['f_dim'] = v
        elif opt == 'term_criteria':
            kw.pop('max_it')
            kw[opt] = copy.deepcopy(v)
        else:
            kw[opt] = copy.deepcopy(v)
        if opt == 'noise' and ok and cls == 'CBS':
            kw['noise'] = 'covariance'
        ctx.describe(cls=cls, option=opt, value=str(value), valid=ok)
        try:
            getattr(cd, cls)(f, **kw)
            raised = None
        except Exception as e:
            raised = e
        if ok:
            ctx.seen('valid_twins')
            ctx.check(raised is None, 'valid-rejected:' + opt, f'{cls}({opt}={v!r}) raises {raised!r}')
        else:
            ctx.seen('rejected')
            ctx.check(raised is not None, 'invalid-accepted:' + opt, f'{cls}({opt}={v!r}) is accepted')
    ctx.sig('invalid', opt, cls, str(value)[:40])


FAMILIES = {'matrix': (matrix, 1500), 'defaults': (defaults, 150), 'invalid': (invalid, 2200), 'documented': (documented_defaults, 400),
            'points': (eval_points, 250)}
