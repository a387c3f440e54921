"""C03: memory variants remember true historical bests and follow their law."""
import numpy as np

from cbx.dynamics.pdyn import post_process_default

from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, start, RecObj
from ..drive import advance, moved
from ..ref import Law

RULE = ('every step of random histories of CBOMemory and PSO (noise x correction x batches x active subsets x shapes x post-processing '
        'that moves particles) is compared with the law; remembered positions and energies are compared with a log of all positions '
        'every particle visited. Distinct by configuration signature; non-trivial when a memory improved in the step.')
REQUIRE = {'steps': 200, 'improved': 100, 'kept': 100, 'steps_batched': 20, 'steps_subset': 20, 'steps_pso': 50,
           'steps_heavi': 20, 'infinite_energies': 100, 'tiny_energies': 100}
ASSUMPTIONS = ['objective values are finite or +inf, finite for some start particle of every run']


class Walls:
    """the objective is infinite in some slabs, never at the first particle's start"""

    def __init__(self, f, w):
        self.f, self.w = f, w

    def value(self, z):
        return np.where(np.sin(self.w * np.asarray(z)[..., 0]) > .3, np.inf, self.f.value(z))

    def __call__(self, x):
        return self.value(np.reshape(x, x.shape[:2] + (-1,)))


def case(ctx, rng):
    cls = pick(rng, ['CBOMemory', 'PSO'])
    s = gen_spec(rng, classes=[cls])
    tiny = chance(rng, .1)
    if tiny:           # improvements far below one
        s['obj'].update(scale=float(10.**-rng.integers(6, 16)), offset=0.)
        s['kw']['alpha'] = s['kw']['alpha'] / s['obj']['scale']
    f = objective(s)
    walls = chance(rng, .15)
    if walls:
        s['kw'].pop('batch_args', None)
        s['kw']['correction'] = 'no_correction'
        if not np.all(s['kw']['alpha']):
            s['kw']['alpha'] = 1.
        f = Walls(f, float(pick(rng, [3., 9.])))
        x = start(s).reshape(s['M'], s['N'], -1)
        walls = np.isfinite(f.value(x)).any(1).all()
        f = f if walls else objective(s)
    law = Law(s, f)
    law_scale = s['obj']['scale'] if tiny else 1.
    stops = random_stops(rng, s['M'], s['steps'])
    M, N = s['M'], s['N']
    evaluated = {}
    kind = pick(rng, ['default', 'default', 'clip', 'kick'])
    default = post_process_default()

    def post(dyn):
        evaluated['x'] = dyn.x.copy()     # positions at which the step evaluated the objective
        default(dyn)
        if kind == 'clip':
            dyn.x = np.clip(dyn.x, -.8, .8)
        elif kind == 'kick':
            dyn.x = dyn.x + .1 * np.sin(7 * dyn.x)

    # drop in replacement of the drift law: the memory is judged on its own in the other kinds
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)], post_process=post,
                          f=RecObj(f, s['f_dim'], reuse=s['reuse']) if walls else None)
    ctx.describe(**brief(s), stops=stops.tolist(), post=kind, walls=bool(walls))
    x0 = dyn.x.copy()
    sc0 = max(1., np.abs(x0).max())
    ctx.equal(dyn.y, x0, 'initial-memory')
    ctx.close(dyn.energy, f(x0), 'initial-memory-energy', rtol=1e-12, atol=1e-12)
    visited = [x0]
    emin = f(x0)
    was = [np.ones((M, N), bool)]
    st = dict(emin=emin)

    def on_step(pre):
        ctx.seen('steps')
        ctx.seen('steps_pso', cls == 'PSO')
        ctx.seen('steps_subset', len(pre['active']) < M)
        ctx.seen('steps_batched', dyn.batch_size < N)
        ctx.seen('steps_heavi', s['kw']['correction'] != 'no_correction')
        p = law.predict(dyn, pre, smp)
        sel = np.zeros(M * N, bool)
        sel[p['P'].ravel()] = True
        sel = sel.reshape(M, N)
        xe = evaluated['x']
        ctx.check(not (moved(xe, pre['x']) & ~sel).any(), 'unselected-particle-moved')
        ctx.check(not (moved(dyn.y, pre['y']) & ~sel).any(), 'unselected-memory-changed')
        scale = max(sc0, np.abs(pre['x']).max(), np.abs(xe).max())
        mask = ~p['amb'][(...,) + (None,) * len(s['d'])]
        tol = 1e-8
        if scale > 1e6:                       # rounding decides about corrections and memories
            ctx.seen('steps_exploded')
            mask = np.zeros((), bool)
        ctx.close(xe, p['x'], 'step-law', f"{cls} it {pre['it']}", rtol=tol, atol=tol * scale, mask=mask)
        if cls == 'PSO':
            vs = max(1., np.abs(pre['v']).max(), np.abs(dyn.v).max())
            ctx.close(dyn.v, p['v'], 'velocity-law', f"it {pre['it']}", rtol=tol, atol=tol * max(vs, scale), mask=mask)
        ctx.close(dyn.consensus, p['consensus'], 'consensus-of-memories', f"it {pre['it']}", rtol=1e-7, atol=1e-8 * scale)
        # memory
        visited.append(xe)
        was.append(sel)
        e = f(xe)
        st['emin'] = np.where(sel & (e < st['emin']), e, st['emin'])
        tole = 1e-11 * (law_scale + np.abs(st['emin']))
        ctx.check((dyn.energy <= pre['energy']).all(), 'remembered-energy-increased', f"it {pre['it']}")
        ctx.seen('infinite_energies', np.isinf(e).sum())
        ctx.close(dyn.energy, st['emin'], 'remembered-energy-is-minimum', f"it {pre['it']}", rtol=1e-11, atol=1e-11 * law_scale)
        ctx.close(f(dyn.y), dyn.energy, 'energy-of-remembered-position', f"it {pre['it']}", rtol=1e-11, atol=1e-11 * law_scale)
        ctx.seen('tiny_energies', tiny)
        ch = moved(dyn.y, pre['y'])
        imp = dyn.energy < pre['energy']
        ctx.seen('improved', imp.sum())
        ctx.seen('kept', (sel & ~imp).sum())
        ctx.check(not (ch & ~imp & (np.abs(e - pre['energy']) > tole)).any(), 'memory-changed-without-improvement')
        hit = np.zeros((M, N), bool)
        for w, v in zip(was, visited):
            hit |= w & ~moved(dyn.y, v)
        ctx.check(hit.all(), 'remembered-position-never-visited', f"it {pre['it']} particle {np.argwhere(~hit)[:1].tolist()}")
        if imp.any():
            ctx.sig(*signature(s), kind, len(pre['active']) < M)
    sched = param_sched(rng, 'dt', 'lamda', 'sigma', 'lamda_memory', 'sigma_memory')
    law.fixed = sched is None
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)


def pull(ctx, rng):
    """without noise and correction both terms pull towards their targets"""
    cls = pick(rng, ['CBOMemory', 'PSO'])
    s = gen_spec(rng, classes=[cls], corrections=['no_correction'], batch=False)
    which = pick(rng, ['consensus', 'memory'])
    over = dict(sigma=0., sigma_memory=0., dt=float(pick(rng, [.01, .1])),
                lamda=1. if which == 'consensus' else 0., lamda_memory=1. if which == 'memory' else 0.)
    s['kw'].update(over)
    dyn, rec, smp = build(s)
    ctx.describe(**brief(s), which=which)
    if which == 'memory':
        # move the particles away from their memories
        dyn.x = dyn.x + .3 * rng.standard_normal(dyn.x.shape)
    pre = dict(x=dyn.x.copy(), y=dyn.y.copy())
    smp.tick += 1
    dyn.step()
    target = dyn.consensus if which == 'consensus' else pre['y']
    a = np.sqrt(((pre['x'] - target).reshape(s['M'], s['N'], -1)**2).sum(-1))
    b = np.sqrt(((dyn.x - target).reshape(s['M'], s['N'], -1)**2).sum(-1))
    ctx.seen('pull')
    ctx.sig('pull', cls, which, s['M'] > 1, min(s['N'], 3), len(s['d']))
    ctx.check((b <= a * (1 + 1e-12)).all(), 'pushed-away-from-target', f'{cls} {which}: {a.max()} -> {b.max()}')
    ctx.check((b[a > 1e-6] < a[a > 1e-6]).all(), 'no-pull-towards-target', f'{cls} {which}')


FAMILIES = {'law': (case, 1800), 'pull': (pull, 200)}
