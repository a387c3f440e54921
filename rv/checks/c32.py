"""C32: dynamics written by the user get the services of the framework."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.scheduler import scheduler, multiply
from cbx.utils.history import track

from ..gen import (gen_spec, param_sched, pick, chance, brief, signature, objective, start, RecObj, TickSampler, PatternTerm,  # noqa: F401
                   random_stops, index_pairs, Obj, BASE)
from ..ref import gibbs, noise_term, expand

RULE = ('classes derived from ParticleDynamic, CBXDynamic and all shipped dynamics: update rules of the users own (random search, '
        'gradient free descent, jumps to the consensus, evaluation without consensus), overridden hooks, own default schedules, own '
        'track classes and keys; every step is compared with the law of the user evaluated from the state at the hook, and the services '
        '(hook order, clock, counters, update norm, best values, history, criteria, freezing, post processing, results) with an '
        'independent bookkeeping; objects are optimized in several calls with different schedules; transparent subclasses have to reproduce the trajectory of their base bit for bit. Distinct by '
        'base class, law and configuration.')
REQUIRE = {'steps': 3000, 'hooks': 3000, 'own_law_steps': 1500, 'own_law_moved': 1000, 'subset': 200, 'batched': 300, 'own_schedule': 60,
           'own_track': 150, 'derived_twins': 150, 'updates_best': 500, 'post_processed': 300, 'random_search': 200, 'printed': 30, 'phases': 400, 'phase_changes': 200}
ASSUMPTIONS = ['the update rule of the user evaluates the objective with eval_f or compute_consensus and moves particles with the index '
               'of the dynamic, as the documentation shows']


class Lowest(track):
    """a track of the users own"""

    def init_history(self, dyn):
        dyn.history['lowest'] = []

    def update(self, dyn):
        dyn.history['lowest'].append(np.array(dyn.x).min(axis=(1, 2)))


class Halved(track):
    """replaces the track of a key of the base class; looks at several attributes of the dynamic"""

    def init_history(self, dyn):
        dyn.history['energy'] = []

    def update(self, dyn):
        dyn.history['energy'].append((.5 * dyn.energy, dyn.best_energy.copy(), np.array(dyn.best_particle), dyn.num_f_eval.copy(),
                                      np.array(dyn.update_diff), dyn.it))


class Unbound:
    """the class itself is handed over, as in the documentation"""
    log = None

    def init_history(dyn):
        dyn.history['unbound'] = []

    def update(dyn):
        dyn.history['unbound'].append(np.array(dyn.x).max())


LAWS = ['documented', 'noiseless', 'jump', 'no_consensus', 'mean']


def own_class(base, law, log, own_default, own_keys):
    """a dynamic of the users own"""
    class Mine(base):
        if own_keys:
            # a new key, and a key of the base class with a track of the users own
            known_tracks = {**base.known_tracks, 'lowest': Lowest, 'energy': Halved}

        def pre_step(self):
            log.append(('pre', self.it))
            super().pre_step()

        def inner_step(self):
            log.append(('inner', self.it, np.array(self.x_old), np.array(self.x)))
            p = self.particle_idx
            if law == 'no_consensus':
                e = self.eval_f(self.x[p])
                self.energy[p] = e
                best = e.argmin(-1)
                self.drift = self.x[p] - self.x[p][np.arange(len(best)), best][:, None]
            else:
                self.compute_consensus()
                self.drift = self.x[p] - self.consensus
            if law == 'documented':
                self.s = self.sigma * self.noise()
                self.x[p] = self.x[p] - self.correction(self.lamda * self.dt * self.drift) + self.s
            elif law == 'jump':
                self.x[p] = self.consensus + self.sigma * self.noise()
            elif law == 'mean':
                self.x[p] = .5 * (self.x[p] + self.x[p].mean(axis=1, keepdims=True)) - self.lamda * self.dt * self.drift
            else:
                self.x[p] = self.x[p] - self.lamda * self.dt * self.drift

        def post_step(self):
            log.append(('post', self.it, np.array(self.x)))
            super().post_step()

    if own_default:
        def default_sched(self):
            return scheduler([multiply(name='sigma', factor=.5), multiply(name='alpha', factor=2., maximum=1e3)])
        Mine.default_sched = default_sched
    return Mine


def own(ctx, rng):
    s = gen_spec(rng, classes=['CBO'], noises=['isotropic', 'anisotropic', 'constant'], corrections=['no_correction'])
    s['track'] = None
    base = pick(rng, ['CBXDynamic', 'CBXDynamic', 'CBXDynamic', 'CBO'])
    law = pick(rng, LAWS)
    kw = copy.deepcopy(s['kw'])
    own_default, own_keys = chance(rng, .5), chance(rng, .5)
    M, N, d = s['M'], s['N'], tuple(s['d'])
    log = []
    cls = own_class(getattr(cd, base), law, log, own_default, own_keys)
    names = ['x', 'energy', 'update_norm'] + (['lowest'] if own_keys else [])
    if base == 'CBXDynamic' and chance(rng, .5) and law != 'no_consensus':
        names.append('consensus')
    si = int(pick(rng, [1, 1, 2, 3]))
    extra = pick(rng, [None, None, 'instance', 'class'])
    ta = dict(names=names, save_int=si)
    if extra == 'instance':
        ta['extra_tracks'] = [Lowest()]
    if extra == 'class':
        ta['extra_tracks'] = [Unbound]
    stops = random_stops(rng, M, s['steps'])
    post = chance(rng, .4)
    box = float(pick(rng, [.3, 1., 5.]))
    posted = []

    def post_process(dyn):
        posted.append(dyn.it)
        dyn.x = np.clip(dyn.x, -box, box)
    smp = TickSampler(s['noise_seed'])
    rec = RecObj(objective(s), s['f_dim'])
    f = objective(s)
    given = {k: (list(v) if isinstance(v, list) else v) for k, v in ta.items()}
    keys = set(cd.CBXDynamic.known_tracks), set(getattr(cd, base).known_tracks)
    dyn = cls(rec, f_dim=s['f_dim'], x=start(s), sampler=smp, term_criteria=[PatternTerm(stops)], track_args=ta, verbosity=0,
              **(dict(post_process=post_process) if post else {}), **kw)
    ctx.describe(**brief(s), base=base, law=law, own_default=own_default, own_keys=own_keys, extra=extra, save_int=si, stops=stops, post=post, box=box)
    ctx.check((set(cd.CBXDynamic.known_tracks), set(getattr(cd, base).known_tracks)) == keys, 'base-class-changed', 'known tracks')
    ev0 = dyn.num_f_eval.copy()
    ev = np.zeros(M, int)
    best_e, best_x = np.full(M, np.inf), np.array(dyn.x[:, 0])
    energy = np.full((M, N), np.inf)
    hist = {k: [np.array(dyn.x)] if k == 'x' else [] for k in ('x', 'energy', 'update_norm', 'lowest', 'unbound', 'consensus')}
    snaps = []
    lam, dt0 = kw.get('lamda', 1.), kw.get('dt', .01)
    mode = pick(rng, ['optimize', 'loop'])
    use_default = mode == 'optimize' and chance(rng, .6)
    sig = kw.get('sigma', 5.1)
    al = np.broadcast_to(np.asarray(kw['alpha'], float), (M, 1)).copy()
    state = dict(sig=sig, al=al, t=0.)
    real = cls.step
    nd = len(d)

    def step():
        it = dyn.it
        x0, act = dyn.x.copy(), np.array(dyn.active_runs_idx)
        where = f'{base} {law} iteration {it}'
        ctx.equal(act, np.where(it < stops)[0], 'active-runs', where)
        log.clear()
        posted.clear()
        smp.tick += 1
        real(dyn)
        ctx.seen('steps')
        names_ = [e[0] for e in log]
        ctx.check(names_ == ['pre', 'inner', 'post'], 'hook-order', f'{where}: {names_}', stop=True)
        ctx.seen('hooks', 3)
        ctx.check([e[1] for e in log] == [it] * 3, 'hook-order', f'{where}: the counter changed between the hooks', stop=True)
        ctx.equal(log[1][2], x0, 'old-particles', where)
        ctx.equal(log[1][3], x0, 'old-particles', where + ' (moved before the update)')
        C, P = index_pairs(dyn, dyn.consensus_idx), index_pairs(dyn, dyn.particle_idx)
        if not ctx.check(np.isin(P // N, act).all() and np.isin(C // N, act).all(), 'terminated-run-selected', where, stop=True):
            return
        ctx.seen('subset', len(act) < M)
        ctx.seen('batched', P.shape[1] < N or C.shape[1] < N)
        # the law of the user
        flat = x0.reshape((M * N,) + d)
        want = flat.copy()
        xp, xc = flat[P], flat[C]
        if law == 'no_consensus':
            E, Q = f(xp), P
            b = E.argmin(-1)
            drift = xp - xp[np.arange(len(b)), b][:, None]
        else:
            E, Q = f(xc), C
            c = gibbs(E, xc, state['al'][act])
            drift = xp - c
            ctx.close(np.asarray(dyn.consensus), c, 'consensus', where, rtol=1e-8, atol=1e-9 * max(1., np.abs(x0).max()))
        dt, kind = dt0, kw.get('noise')
        if law == 'documented':
            want[P] = xp - lam * dt * drift + state['sig'] * noise_term(kind, drift, dt, smp.numbers(drift.shape))
        elif law == 'jump':
            want[P] = c + state['sig'] * noise_term(kind, drift, dt, smp.numbers(drift.shape))
        elif law == 'mean':
            want[P] = .5 * (xp + xp.mean(axis=1, keepdims=True)) - lam * dt * drift
        else:
            want[P] = xp - lam * dt * drift
        want = want.reshape(x0.shape)
        size = max(1., np.abs(x0).max(), np.abs(want).max())
        ctx.close(log[2][2], want, 'own-update-law', where, rtol=1e-7, atol=1e-8 * size, stop=True)
        ctx.seen('own_law_steps')
        mv = (log[2][2] != x0).reshape(M, N, -1).any(-1)
        ctx.seen('own_law_moved', mv.any())
        sel = np.zeros(M * N, bool)
        sel[P.ravel()] = True
        # exactly the selected particles may move; a post processing (the default one bounds the particles) looks at everybody
        final = np.clip(log[2][2], -box, box) if post else np.clip(log[2][2], -1e8, 1e8)
        ctx.equal(dyn.x, final, 'particles-after-the-step', where)
        ctx.check(not (mv & ~sel.reshape(M, N)).any(), 'unselected-particle-moved', where)
        if post:
            ctx.check(len(posted) == 1, 'post-processing-calls', f'{where}: {len(posted)}')
            ctx.seen('post_processed')
        # services
        ctx.check(dyn.it == it + 1, 'iteration-counter', f'{where}: {dyn.it}')
        state['t'] += dt
        ctx.close(dyn.t, state['t'], 'time', where, rtol=1e-12)
        ev[act] += Q.shape[1]
        ctx.equal(dyn.num_f_eval - ev0, ev, 'evaluations', where)
        energy.reshape(-1)[Q] = E
        ctx.close(np.asarray(dyn.energy), energy, 'energy', where, rtol=1e-9, atol=1e-9)
        u = np.sqrt(((final - x0).reshape(M, -1)**2).sum(-1)) / N
        ctx.close(np.asarray(dyn.update_diff), u, 'update-norm', where, rtol=1e-9, atol=1e-12 * size)
        sub = np.full((M, N), np.inf)
        sub.reshape(-1)[Q] = E
        better = sub.min(-1) < best_e
        ctx.seen('updates_best', better.sum())
        for m in np.where(better)[0]:
            best_e[m], best_x[m] = sub[m].min(), x0[m, sub[m].argmin()]
        ctx.close(np.asarray(dyn.best_energy), best_e, 'best-energy', where, rtol=1e-9, atol=1e-9)
        fin = np.isfinite(best_e)
        ctx.close(f(np.asarray(dyn.best_particle)[:, None])[fin, 0], best_e[fin], 'best-particle-has-not-the-best-energy', where, rtol=1e-9, atol=1e-9)
        if it % si == 0:
            hist['x'].append(final.copy())
            hist['energy'].append(np.array(dyn.energy))
            snaps.append((.5 * np.array(dyn.energy), best_e.copy(), np.array(dyn.best_particle), dyn.num_f_eval.copy(), u, it))
            hist['update_norm'].append(u)
            hist['lowest'].append(final.min(axis=(1, 2)))
            hist['unbound'].append(final.max())
            if law != 'no_consensus':
                hist['consensus'].append((act, c))

    if mode == 'optimize':
        dyn.step = step
        own_sched = scheduler([multiply(name='lamda', factor=1.)])
        if use_default:
            upd = dyn.default_sched()
            ctx.seen('own_schedule', own_default)
            real_step = dyn.step
            n = [0]

            def stepped():
                # the default schedule of the class has acted between the steps
                if n[0] > 0:
                    if own_default:
                        state['sig'] = state['sig'] * .5
                        state['al'] = np.minimum(state['al'] * 2., 1e3)
                    else:
                        state['al'] = np.minimum(state['al'] * 1.05, 1e5)
                n[0] += 1
                real_step()
                if n[0] > 200:
                    raise RuntimeError('endless')
            dyn.step = stepped
            del upd
            res = dyn.optimize()
        else:
            res = dyn.optimize(sched=pick(rng, [None, own_sched]))
        ctx.equal(np.asarray(res), np.asarray(dyn.best_particle), 'result')
    else:
        while not dyn.terminate():
            step()
    ctx.check(dyn.it == stops.max(), 'loop-ends', f'{dyn.it} iterations, criteria {stops}')
    ctx.check(ta == given, 'track-arguments-modified', f'{ta} instead of {given}')
    for k in names + (['lowest'] if extra == 'instance' else []) + (['unbound'] if extra == 'class' else []):
        h = dyn.history.get(k)
        if not ctx.check(h is not None and len(h) == len(hist[k]) * (2 if k == 'lowest' and own_keys and extra == 'instance' else 1), 'history', f'{k}: {None if h is None else len(h)} entries instead of {len(hist[k])}', stop=True):
            return
        if k == 'lowest' and own_keys and extra == 'instance':
            continue
        for i, (a, b) in enumerate(zip(h, hist[k])):
            if k == 'energy' and own_keys:
                for name, u, v in zip(('energies', 'best energies', 'best particles', 'evaluations', 'update norms', 'iterations'), a, snaps[i]):
                    ctx.close(np.asarray(u), np.asarray(v), 'track-sees-old-values', f'{name} in entry {i}', rtol=1e-9, atol=1e-9)
            elif k == 'consensus':
                ctx.close(np.asarray(a)[..., :], b[1], 'history', f'consensus[{i}]', rtol=1e-7, atol=1e-8 * max(1., np.abs(b[1]).max())) \
                    if np.shape(a) == b[1].shape else None
            else:
                ctx.close(np.asarray(a), b, 'history', f'{k}[{i}]', rtol=1e-9, atol=1e-9)
        ctx.seen('own_track', k in ('lowest', 'unbound') or (k == 'energy' and own_keys))
    ctx.sig('own', base, law, *signature(s), own_default, own_keys, extra, si, post)


def search(ctx, rng):
    """a dynamic that knows nothing about consensus: random search"""
    M, N, d = int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(1, 5))
    steps = int(rng.integers(2, 15))
    f = Obj(pick(rng, ['quad', 'rastrigin', 'abs', 'wave']), d, rng)
    log = []

    class Search(cd.ParticleDynamic):
        def inner_step(self):
            log.append((np.array(self.x_old), np.array(self.x)))
            self.energy = self.f(self.x)
            trial = self.x + .3 * self.sampler(size=self.x.shape)
            better = self.f(trial) < self.energy
            self.x = np.where(better[..., None], trial, self.x)
    fd = pick(rng, ['1D', '2D', '3D'])
    rec = RecObj(f, fd)
    x = rng.uniform(-2, 2, (M, N, d))
    tol = float(pick(rng, [-1e9, .5, 1.]))
    smp = TickSampler(int(rng.integers(2**31)))
    si = int(pick(rng, [1, 2]))
    seeded = chance(rng, .3)
    kw = dict(seed=int(rng.integers(1000))) if seeded else dict(sampler=smp)
    terms = [{'name': 'max-it', 'max_it': steps}, {'name': 'energy-tol', 'energy_tol': tol}]
    post = chance(rng, .4)
    moved = []

    def clip(dyn):
        moved.append(dyn.it)
        dyn.x = np.clip(dyn.x, -1., 1.)
    if post:
        kw['post_process'] = clip
    ctx.describe(M=M, N=N, d=d, steps=steps, f_dim=fd, tol=tol, save_int=si, seeded=seeded, post=post)

    def mk():
        return Search(rec, f_dim=fd, x=x, term_criteria=copy.deepcopy(terms), verbosity=0,
                      track_args=dict(names=['x', 'energy', 'update_norm'], save_int=si), **kw)
    dyn = mk()
    best = np.full(M, np.inf)
    bx = x[:, 0].copy()
    kept = []
    n = [0]

    def step():
        smp.tick += 1
        x0, it = dyn.x.copy(), dyn.it
        log.clear()
        cd.ParticleDynamic.step(dyn)
        ctx.seen('steps')
        ctx.seen('random_search')
        n[0] += 1
        ctx.check(len(log) == 1, 'hook-order', f'{len(log)} updates in a step', stop=True)
        ctx.equal(log[0][0], x0, 'old-particles')
        ctx.equal(log[0][1], x0, 'old-particles')
        e0 = f(x0)
        ctx.check(dyn.it == it + 1, 'iteration-counter')
        ctx.close(dyn.energy, e0, 'energy', rtol=1e-10, atol=1e-10)
        if post:
            # when the particles are processed relative to the tracks is not fixed for this class
            ctx.check(len(moved) == n[0], 'post-processing-calls', f'{len(moved)} after {n[0]} steps')
            ctx.check(bool((np.abs(dyn.x) <= 1).all()), 'particles-after-the-step', f'{np.abs(dyn.x).max()}')
            ctx.seen('post_processed')
        elif not seeded:
            tr = x0 + .3 * smp.numbers(x0.shape)
            ctx.equal(dyn.x, np.where((f(tr) < e0)[..., None], tr, x0), 'own-update-law', f'iteration {it}')
        ctx.check(post or bool((f(dyn.x) <= e0 + 1e-12).all()), 'own-update-law', 'the random search is not monotone')
        u = np.sqrt(((dyn.x - x0).reshape(M, -1)**2).sum(-1)) / N
        if not post:
            ctx.close(np.asarray(dyn.update_diff), u, 'update-norm', rtol=1e-10, atol=1e-13)
        b = e0.min(-1) < best
        bx[b] = x0[np.arange(M), e0.argmin(-1)][b]
        best[b] = e0.min(-1)[b]
        ctx.seen('updates_best', b.sum())
        ctx.close(np.asarray(dyn.best_energy), best, 'best-energy', rtol=1e-10, atol=1e-10)
        ctx.close(np.asarray(dyn.best_particle), bx, 'best-particle', rtol=0, atol=0, mask=None) if not _ties(e0) else None
        if it % si == 0:
            kept.append((dyn.x.copy(), e0, u))
    dyn.step = step
    res = dyn.optimize()
    ctx.equal(np.asarray(res), np.asarray(dyn.best_particle), 'result')
    ctx.check(dyn.it == steps or bool((best < tol).all()), 'loop-ends', f'{dyn.it} iterations of {steps}, best {best}')
    ctx.check(dyn.it > 0, 'loop-ends')
    for i, k in enumerate(('x', 'energy', 'update_norm')):
        h = dyn.history[k]
        want = ([x] if k == 'x' else []) + [q[i] for q in kept]
        if ctx.check(len(h) == len(want), 'history', f'{k}: {len(h)} entries instead of {len(want)}') and (not post or k == 'energy'):
            for j, a in enumerate(h):
                ctx.close(np.asarray(a), want[j], 'history', f'{k}[{j}]', rtol=1e-10, atol=1e-10)
    if seeded:
        twin = mk()
        while twin.it < dyn.it:
            twin.step()
        ctx.equal(twin.x, dyn.x, 'seed-ignored')
    ctx.sig('search', M, min(N, 3), d, fd, tol, si, seeded)


def _ties(e):
    s = np.sort(e, axis=-1)
    return e.shape[-1] > 1 and bool((np.abs(s[:, 1] - s[:, 0]) < 1e-9).any())


def derived(ctx, rng):
    """hooks that only look do not change a shipped dynamic; hooks that act are taken into account"""
    s = gen_spec(rng, classes=[c for c in BASE if c != 'CBS'])
    base = getattr(cd, s['cls'])
    stops = random_stops(rng, s['M'], s['steps'])
    seen = []
    act = pick(rng, ['look', 'look', 'shift'])
    if s['cls'] in ('HyperSurfaceCBO', 'MirrorCBO', 'PSO', 'CBOMemory'):
        act = 'look'

    class Watcher(base):
        def pre_step(self):
            seen.append('pre')
            super().pre_step()

        def inner_step(self):
            seen.append('inner')
            super().inner_step()
            if act == 'shift':
                self.x = self.x + .125

        def post_step(self):
            seen.append('post')
            super().post_step()

        def print_cur_state(self):
            seen.append('print')
    ctx.describe(**brief(s), stops=stops, act=act)
    verb = int(pick(rng, [0, 1]))
    pi = int(pick(rng, [1, 2, 5]))
    out = []
    for cls in (base, Watcher):
        kw = copy.deepcopy(s['kw'])
        smp = TickSampler(s['noise_seed'])
        rec = RecObj(objective(s), s['f_dim'])
        dyn = cls(rec, f_dim=s['f_dim'], x=start(s), sampler=smp, term_criteria=[PatternTerm(stops)], verbosity=verb, **kw)
        dyn_x = []
        real = dyn.step

        def step():
            smp.tick += 1
            before = dyn.x.copy()
            real()
            dyn_x.append((before, dyn.x.copy(), np.array(dyn.best_energy), np.array(dyn.num_f_eval)))
        if cls is base and act == 'shift':
            continue
        dyn.step = step
        seen.clear()
        dyn.optimize(print_int=pi)
        out.append(dyn_x)
        if cls is Watcher:
            n = int(stops.max())
            hooks = [k for k in seen if k != 'print']
            ctx.check(hooks == ['pre', 'inner', 'post'] * n, 'hook-order', f'{hooks[:8]} in {n} steps', stop=True)
            ctx.seen('hooks', 3 * n)
            ctx.seen('steps', n)
            p = seen.count('print')
            ctx.check(p == (n + pi - 1) // pi, 'print-interval', f'{p} reports in {n} steps with interval {pi}')
            ctx.seen('printed', p)
    if act == 'look':
        ctx.check(len(out[0]) == len(out[1]), 'twin-differs', f'{len(out[0])} / {len(out[1])} steps', stop=True)
        for i, (a, b) in enumerate(zip(*out)):
            for k, u, v in zip(('particles', 'particles', 'best energies', 'evaluations'), a, b):
                ctx.equal(v, u, 'twin-differs', f'{k} in step {i}')
        ctx.seen('derived_twins')
    else:
        # one step of the base from the same state, then the shift
        for i, (x0, x1, _, _) in enumerate(out[0]):
            if i == 0:
                kw = copy.deepcopy(s['kw'])
                smp = TickSampler(s['noise_seed'])
                one = base(RecObj(objective(s), s['f_dim']), f_dim=s['f_dim'], x=start(s), sampler=smp, term_criteria=[PatternTerm(stops)],
                           verbosity=0, **kw)
                one.terminate()
                smp.tick += 1
                one.step()
                ctx.close(x1, np.clip(one.x + .125, -1e8, 1e8), 'own-update-law', 'first step', rtol=1e-12, atol=1e-12 * max(1., np.abs(x1).max()))
    ctx.sig('derived', *signature(s), act, pi)


def phases(ctx, rng):
    """several optimizations of one object, each with its own schedule"""
    name = pick(rng, ['CBO', 'CBXDynamic', 'PolarCBO', 'CBOMemory', 'AdamCBO', 'PSO', 'DriftConstrainedCBO', 'MirrorCBO'])
    base = getattr(cd, name)
    M, N, d = int(rng.integers(1, 4)), int(rng.integers(1, 7)), int(rng.integers(1, 4))
    mine = chance(rng, .5)
    cls = base
    if mine:
        class cls(base):
            def default_sched(self):
                return scheduler([multiply(name='lamda', factor=.9)])
    val = dict(alpha=float(pick(rng, [.5, 1., 3.])), sigma=float(pick(rng, [.1, 1.])), lamda=float(pick(rng, [.5, 1.])), dt=.01)
    term = [0]
    f = Obj(pick(rng, ['quad', 'rastrigin', 'abs']), d, rng)
    dyn = cls(f, f_dim='3D', M=M, N=N, d=d, seed=int(rng.integers(1000)), verbosity=0, term_criteria=[lambda q: np.full(M, q.it >= term[0])],
              **val)
    val = dict(val)
    plan = []
    for _ in range(int(rng.integers(2, 6))):
        kind = pick(rng, ['default', 'default', 'omitted', 'none', 'own', 'own', 'empty'])
        names = list(rng.permutation(['alpha', 'sigma', 'lamda', 'dt'])[:rng.integers(1, 3)])
        plan.append((kind, [(str(n), float(pick(rng, [.5, .9, 1.1, 2.])), float(pick(rng, [1e5, 2.]))) for n in names], int(rng.integers(0, 5)),
                     chance(rng, .4)))
    ctx.describe(cls=name, own_default=mine, M=M, N=N, d=d, plan=plan, start=dict(val))
    it, t = 0, 0.
    for i, (kind, upd, steps, reset) in enumerate(plan):
        if reset and i > 0:
            dyn.reset()
            it, t = 0, 0.
        term[0] = it + steps
        ups = {'default': [('lamda', .9, 1e5)] if mine else [('alpha', 1.05, 1e5)], 'none': [], 'empty': [], 'own': upd}
        ups['omitted'] = ups['default']
        if kind == 'omitted':
            res = dyn.optimize()
        else:
            sched = {'default': 'default', 'none': None, 'empty': scheduler([]),
                     'own': scheduler([multiply(name=n, factor=q, maximum=b) for n, q, b in upd])}[kind]
            res = dyn.optimize(sched=sched)
        for _ in range(steps):
            t += val['dt']
            for n, q, b in ups[kind]:
                val[n] = np.minimum(val[n] * q, b)
        it += steps
        where = f'call {i + 1} ({kind})'
        ctx.check(dyn.it == it, 'loop-ends', f'{where}: {dyn.it} instead of {it}')
        ctx.close(dyn.t, t, 'time', where, rtol=1e-12)
        for n, v in val.items():
            ctx.close(np.asarray(getattr(dyn, n), float), np.broadcast_to(v, np.shape(getattr(dyn, n))), 'schedule-of-another-call', f'{where}: {n}', rtol=1e-12)
        ctx.equal(np.asarray(res), np.asarray(dyn.best_particle), 'result')
        ctx.seen('phases')
        ctx.seen('phase_changes', i > 0 and plan[i - 1][0] != kind)
    ctx.sig('phases', name, mine, tuple(p[0] for p in plan), tuple(p[3] for p in plan))


FAMILIES = {'own': (own, 900), 'search': (search, 250), 'derived': (derived, 350), 'phases': (phases, 200)}
