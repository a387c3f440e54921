"""C11: a seed determines the whole run, and instances share no state."""
import copy
import hashlib
import os
import subprocess
import sys

import numpy as np

import cbx.dynamics as cd
from cbx.utils.resampling import resampling, ensemble_update_resampling, loss_update_resampling

from ..core import REPO, VERIF
from ..gen import gen_spec, pick, chance, brief, signature, objective, start, RecObj, PatternTerm, BASE

RULE = ('pairs of seeded dynamics with equal arguments (all dynamics, noises, batches, resamplings, given or seeded initial '
        'ensembles), executed in a random interleaving with the construction and execution of foreign dynamics and with draws '
        'from and reseeding of the global generators; trajectories, results, histories and the state of the global generators '
        'are compared bit for bit. Distinct by configuration signature and schedule; non-trivial when noise moved the ensemble.')
REQUIRE = {'twins': 500, 'foreign_steps': 1000, 'global_draws': 500, 'seeded_init': 100, 'different_seed_pairs': 200,
           'torch_twins': 20, 'shared_config': 100, 'steps': 3000, 'global_state_checks': 500, 'processes': 2}
ASSUMPTIONS = ['the objective is deterministic and the caller does not pass a sampler of his own']


def make(s, seed, x, shared=None, torch=False, **over):
    """a seeded dynamic of the spec; shared: the caller's configuration objects are used as they are"""
    kw = shared if shared is not None else copy.deepcopy(s['kw'])
    args = dict(kw)
    args.update(over)
    f = RecObj(objective(s), s['f_dim'], keep=False, torch=torch)
    if x is not None:
        args['x'] = x
    else:
        args.update(M=s['M'], N=s['N'], d=s['d'][0])
    cls = getattr(cd, s['cls'])
    if torch:
        from cbx.utils.torch_utils import to_torch_dynamic
        cls = to_torch_dynamic(cls)
    return cls(f, f_dim=s['f_dim'], seed=seed, max_it=10**6, verbosity=0, **args)


def num(v):
    return v.detach().cpu().numpy() if hasattr(v, 'detach') else np.asarray(v)


def state(dyn):
    out = {}
    for k in ('x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'alpha', 'num_f_eval', 'consensus', 'update_diff'):
        v = getattr(dyn, k, None)
        if v is not None:
            out[k] = np.array(num(v))
    return out


def compare(ctx, a, b, when):
    for k in a:
        if k in b:
            ctx.equal(b[k], a[k], 'twin-differs', f'{k} {when}')


def hist_equal(ctx, h1, h2):
    ctx.check(set(h1) == set(h2), 'twin-history-differs', f'{sorted(h1)} {sorted(h2)}')
    for k in h1:
        if k == 'particle_idx':
            continue
        if ctx.check(len(h1[k]) == len(h2[k]), 'twin-history-differs', f'{k}: {len(h1[k])} / {len(h2[k])}'):
            for i, (a, b) in enumerate(zip(h1[k], h2[k])):
                ctx.equal(num(b), num(a), 'twin-history-differs', f'{k}[{i}]')


class Noise:
    """everything that happens between two steps of a twin"""

    def __init__(self, ctx, rng, torch=False):
        self.ctx, self.rng, self.torch = ctx, rng, torch
        self.pool = []

    def __call__(self):
        ctx, rng = self.ctx, self.rng
        k = pick(rng, ['draw', 'seed', 'new', 'step', 'step', 'nothing'])
        if k == 'draw':
            np.random.standard_normal(int(rng.integers(1, 9)))
            if self.torch:
                import torch
                torch.randn(3)
            ctx.seen('global_draws')
        elif k == 'seed':
            np.random.seed(int(rng.integers(2**31)))
            if self.torch:
                import torch
                torch.manual_seed(int(rng.integers(2**31)))
            ctx.seen('global_draws')
        elif k == 'new' and len(self.pool) < 4:
            s = gen_spec(rng, classes=BASE, indep=True)
            seed = pick(rng, [None, 1, 2, int(rng.integers(100))])
            self.pool.append((make(s, seed, start(s) if (chance(rng, .5) or len(s['d']) > 1 or s['cls'] in (
                'HyperSurfaceCBO', 'MirrorCBO')) else None), s))
            ctx.seen('foreign_instances')
        elif k == 'step' and self.pool:
            d, s = self.pool[int(rng.integers(len(self.pool)))]
            if d.it < s['steps']:
                d.step()
                if chance(rng, .5):
                    d.default_sched().update(d)
                ctx.seen('foreign_steps')
            if chance(rng, .1):
                d.reset()


def spec(rng, **k):
    s = gen_spec(rng, indep=True, **k)
    if s['cls'] == 'DriftConstrainedCBO' and s['kw'].get('sigma_indep'):
        s['kw']['eps_indep'] = .05
    return s


def twins(ctx, rng):
    s = spec(rng, classes=BASE)
    if s['kw'].get('batch_args') and chance(rng, .1):
        s['kw']['batch_args'].pop('size', None)     # all particles, in random order
    given = chance(rng, .6) or len(s['d']) > 1 or s['cls'] in ('HyperSurfaceCBO', 'MirrorCBO')
    x = start(s) if given else None
    seed = pick(rng, [0, 1, 42, int(rng.integers(2**31))])
    track = {'names': ['x', 'energy', 'update_norm', 'consensus']} if chance(rng, .5) else None
    stops = rng.integers(1, s['steps'] + 1, size=s['M'])
    sched = chance(rng, .5)
    over = dict(track_args=track, term_criteria=[PatternTerm(stops)])
    share = chance(rng, .3)
    shared = copy.deepcopy(s['kw']) if share else None
    if share:
        ctx.seen('shared_config')
    keep = copy.deepcopy(s['kw'])
    post = chance(rng, .25)
    order = pick(rng, ['sequential', 'lockstep', 'random'])
    ctx.describe(**brief(s), seed=seed, given=given, order=order, shared=share, post=post, sched=sched)

    def mk():
        o = dict(over)
        if post:
            o['post_process'] = resampling([ensemble_update_resampling(pick_thresh), loss_update_resampling(2)], sigma_indep=.3)
        return make(s, seed, x, shared, **o)
    pick_thresh = pick(rng, [.05, 10.])
    between = Noise(ctx, rng)
    if chance(rng, .5):
        between()
    dyns = [mk()]
    if order == 'sequential':
        pass
    else:
        for _ in range(int(rng.integers(0, 3))):
            between()
        dyns.append(mk())
    trace = [[], []]

    def go(i):
        d = dyns[i]
        if d.terminate():
            return False
        d.step()
        if sched:
            d.default_sched().update(d)
        trace[i].append(state(d))
        ctx.seen('steps')
        return True
    if order == 'sequential':
        g0 = np.random.get_state()
        while go(0):
            pass
        g1 = np.random.get_state()
        ctx.seen('global_state_checks')
        ctx.check(all(np.array_equal(a, b) for a, b in zip(g0, g1)), 'global-generator-used', 'by steps of a seeded dynamic')
        for _ in range(int(rng.integers(1, 8))):
            between()
        g0 = np.random.get_state()
        dyns.append(mk())
        g1 = np.random.get_state()
        ctx.seen('global_state_checks')
        ctx.check(all(np.array_equal(a, b) for a, b in zip(g0, g1)), 'global-generator-used', 'by the construction of a seeded dynamic')
        while go(1):
            between()
    else:
        alive = [True, True]
        while any(alive):
            i = int(rng.integers(2)) if order == 'random' else 0
            for j in ((0, 1) if order == 'lockstep' else (i,)):
                if alive[j]:
                    alive[j] = go(j)
                if chance(rng, .6):
                    between()
    a, b = dyns
    ctx.seen('twins')
    if not given:
        ctx.seen('seeded_init')
    ctx.check(len(trace[0]) == len(trace[1]), 'twin-differs', f'{len(trace[0])} / {len(trace[1])} steps')
    for i, (p, q) in enumerate(zip(*trace)):
        compare(ctx, p, q, f'after step {i}')
    hist_equal(ctx, a.history, b.history)
    ctx.check(not np.shares_memory(a.x, b.x), 'twins-share-memory')
    if share:
        ctx.check(repr(shared) == repr(keep), 'configuration-modified', f'{shared} instead of {keep}')
    if trace[0]:
        ctx.sig(*signature(s), order, given, share, post)


def different(ctx, rng):
    """different seeds give different noise (and different seeded initial ensembles)"""
    s = spec(rng, classes=[c for c in BASE if c != 'HyperSurfaceCBO'], N=4, corrections=['no_correction'])
    s['kw']['dt'] = .1
    s['obj']['zoom'] = 1.           # a kernel might separate all particles otherwise
    if s['cls'] != 'CBS':
        s['kw']['sigma'] = .5
        if s['kw']['noise'] == 'anisotropic' or s['kw']['noise'] == 'covariance':
            s['kw']['noise'] = 'isotropic'
    s['kw']['alpha'] = 1.
    if s['cls'] == 'CBOMemory':     # nor may the memory step take the particles back
        s['kw'].update(lamda_memory=.4)
    if s['cls'] == 'PolarCBO':      # no drift and no noise for a particle without neighbours
        s['kw'].update(kernel='Gaussian', kappa=max(1., s['kw'].get('kappa', 1.)))
    if s['cls'] == 'MirrorCBO' and s['d'][-1] == 1:     # a simplex of one point
        s['kw']['mirrormap'] = 'L2'
    s['x_kind'] = 'normal'
    x = start(s)
    a = int(rng.integers(100))
    # seeds that agree in their lower digits are different seeds, too
    b = a + int(pick(rng, [1, 100, 100, 2**8, 2**16, 2**31, 2**32, 2**63]))
    if s['kw'].get('batch_args'):
        s['kw']['batch_args']['partial'] = True
    ctx.describe(**brief(s), seeds=[a, b])
    d1, d2, d3 = make(s, a, x), make(s, b, x), make(s, a, x)
    for d in (d1, d2, d3):
        for _ in range(2):
            d.step()
    ctx.seen('different_seed_pairs')
    key = 'y' if s['cls'] == 'MirrorCBO' else 'x'
    if s['N'] == 1:
        return
    bs = (s['kw'].get('batch_args') or {}).get('size', 9)
    if bs > 1:
        ctx.check(not np.array_equal(getattr(d1, key), getattr(d2, key)), 'different-seeds-same-noise', f'{a} {b}')
        # the batches have a seed of their own
        ctx.sig('diff', *signature(s))
    ctx.equal(getattr(d3, key), getattr(d1, key), 'twin-differs', 'same seed')
    if len(s['d']) == 1 and s['cls'] not in ('MirrorCBO', 'HyperSurfaceCBO'):
        e1, e2, e3 = make(s, a, None), make(s, b, None), make(s, a, None)
        ctx.check(not np.array_equal(e1.x, e2.x), 'different-seeds-same-initial-ensemble')
        ctx.equal(e3.x, e1.x, 'twin-differs', 'initial ensemble')
        # the noise is not a copy of the initial ensemble's randomness
        ctx.seen('seeded_init')


def unseeded(ctx, rng):
    """dynamics without a seed: each has a generator of its own, seeded neighbours do not influence them"""
    s = spec(rng, classes=['CBO', 'CBOMemory', 'PSO', 'PolarCBO', 'AdamCBO'], N=4, noises=['constant'], batch=False,
             corrections=['no_correction'])
    # the noise has to be visible: the memory step must not take the particles back, a kernel must not isolate them
    s['kw'].update(sigma=1., dt=.1, alpha=1.)
    s['obj']['zoom'] = 1.
    if s['cls'] == 'CBOMemory':
        s['kw'].update(lamda_memory=.4, sigma_memory=.5)
    if s['cls'] == 'PolarCBO':
        s['kw'].update(kernel='Gaussian', kappa=max(1., s['kw'].get('kappa', 1.)))
    s['x_kind'] = 'normal'
    x = start(s)
    ctx.describe(**brief(s))
    d1, d2 = make(s, None, x), make(s, None, x)
    for d in (d1, d2):
        d.step()
    ctx.check(not np.array_equal(d1.x, d2.x), 'unseeded-dynamics-share-the-noise')
    # initial ensembles of unseeded dynamics come from the global generator: seeded neighbours do not consume it
    if len(s['d']) == 1:
        r = int(rng.integers(2**31))
        np.random.seed(r)
        a = make(s, None, None).x
        np.random.seed(r)
        n = make(s, 3, None)
        n.step()
        b = make(s, None, None).x
        ctx.equal(b, a, 'seeded-neighbour-changes-initial-ensemble')
        ctx.seen('global_state_checks')
    ctx.sig('unseeded', *signature(s))


def torch_twins(ctx, rng):
    import torch
    s = gen_spec(rng, classes=['CBO'], noises=['isotropic', 'anisotropic', 'constant'], corrections=['no_correction'],
                 per_run_alpha=False, f_dims=['3D'])
    s['kw']['sigma'] = .5
    seed = int(rng.integers(2**31))
    given = chance(rng, .5) or len(s['d']) > 1
    ctx.describe(**brief(s), seed=seed, given=given)
    between = Noise(ctx, rng, torch=True)

    def run():
        x = torch.tensor(start(s)) if given else None
        d = make(s, seed, x, torch=True)
        tr = [state(d)]
        for _ in range(s['steps']):
            d.step()
            tr.append(state(d))
            between()
        return tr
    a = run()
    for _ in range(5):
        between()
    b = run()
    ctx.seen('torch_twins')
    for i, (p, q) in enumerate(zip(a, b)):
        compare(ctx, p, q, f'torch, step {i}')
    g0 = torch.get_rng_state()
    make(s, seed, torch.tensor(start(s)) if given else None, torch=True).step()
    ctx.check(bool((torch.get_rng_state() == g0).all()), 'global-generator-used', 'torch')
    ctx.seen('global_state_checks')
    ctx.sig('torch', *signature(s), given)


def digest_of(n, seed):
    """digest of a family of seeded executions (called in processes with different hash seeds)"""
    h = hashlib.sha256()
    for i in range(n):
        rng = np.random.default_rng([seed, i])
        s = spec(rng, classes=BASE)
        given = len(s['d']) > 1 or s['cls'] in ('HyperSurfaceCBO', 'MirrorCBO')
        d = make(s, 7 + i, start(s) if given else None)
        for _ in range(4):
            d.step()
        h.update(d.x.tobytes())
        h.update(d.best_energy.tobytes())
    return h.hexdigest()


def processes(ctx, rng):
    """the same seeded executions in two other processes"""
    seed = int(rng.integers(2**31))
    ctx.describe(seed=seed)
    out = []
    for hs in ('0', '12345'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        # the second process has done other things before
        code = (f'from rv.checks.c11 import digest_of; import numpy as np; np.random.seed({hs}); '
                f'{hs} and digest_of(30, {seed + 10**9}); print(digest_of(25, {seed}))')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=VERIF, env=env, capture_output=True, text=True, timeout=50)
        if not ctx.check(r.returncode == 0, 'execution-failed', r.stderr[-800:]):
            return
        out.append(r.stdout.strip())
        ctx.seen('processes')
    ctx.check(out[0] == out[1], 'processes-differ', str(out))
    ctx.sig('processes', seed)


FAMILIES = {'processes': (processes, 1), 'twins': (twins, 900), 'different': (different, 300), 'unseeded': (unseeded, 100),
            'torch': (torch_twins, 40)}
