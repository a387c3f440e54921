"""C28: termination criteria fire exactly on their documented condition."""
import numpy as np

import cbx.dynamics as cd
from cbx.utils import termination as T

from ..core import StepLimit
from ..gen import gen_spec, build, pick, chance, brief, signature, objective, random_stops, PatternTerm

RULE = ('random histories of every dynamic with one to four criteria given by name, dictionary or object; before every decision the '
        'conditions are recomputed run by run from the recorded history (iterations, time, energies, positions, evaluations, energies '
        'of the consensus points), then compared with the raw answer of each criterion, the active runs and the recorded reasons; '
        'criteria are asked repeatedly between two steps; others are only observed while the history goes on after they were met; '
        'signatures = configuration x criteria x outcome')
REQUIRE = {'decisions': 5000, 'fired': 1000, 'mixed': 500, 'max_it': 400, 'max_time': 300, 'energy_tol': 400, 'diff_tol': 400,
           'max_eval': 400, 'energy_stagnation': 400, 'stagnation_fired': 100, 'asked_twice': 500, 'by_name': 50, 'by_dict': 300,
           'by_object': 300, 'several_reasons': 100, 'observed': 2000, 'no_longer_met': 200, 'subset': 1000, 'different_counts': 100}
ASSUMPTIONS = ['values within 1e-9 (relative) of a threshold are not judged',
               'max_eval looks ahead by the ensemble evaluation of one step (not by evaluations of corrections)']
NAMES = {k: [k.replace('_', c) for c in '_- '] for k in ('energy_tol', 'diff_tol', 'max_eval', 'max_it', 'max_time',
                                                       'energy_stagnation')}
DEFAULT = {'energy_tol': {'energy_tol': 1e-7}, 'diff_tol': {'diff_tol': 1e-7}, 'max_eval': {'max_eval': 1000}, 'max_it': {'max_it': 1000},
           'max_time': {'max_time': 10.}, 'energy_stagnation': {'patience': 20, 'std_thresh': 1e-9}}
CLASS = {'energy_tol': T.energy_tol_term, 'diff_tol': T.diff_tol_term, 'max_eval': T.max_eval_term, 'max_it': T.max_it_term,
         'max_time': T.max_time_term, 'energy_stagnation': T.energy_stagnation_term}


class Rec:
    def __init__(self, term):
        self.term, self.out = term, []

    def __call__(self, dyn):
        r = self.term(dyn)
        self.out.append(np.array(r))
        return r


class History:
    """what happened, as seen from outside"""
    def __init__(self, dyn, f, batch):
        self.M, self.N, self.f, self.batch = dyn.M, dyn.N, f, batch
        self.it, self.t = 0, 0.
        self.diff = np.full(dyn.M, np.inf)
        self.cons = [[] for _ in range(dyn.M)]    # energies of the consensus, per run

    def step(self, pre, dyn, act, dt):
        self.it += 1
        self.t += dt
        self.diff = np.sqrt(((dyn.x - pre).reshape(self.M, -1)**2).sum(-1)) / self.N
        c = np.asarray(dyn.consensus)
        e = self.f(c).mean(-1)
        for i, m in enumerate(act):
            self.cons[m].append(float(e[i]))

    def condition(self, kind, par, dyn):
        """(fires, ambiguous) per run"""
        M = self.M
        no = np.zeros(M, bool)
        if kind == 'max_it':
            if par['max_it'] is None:
                return no, no
            return np.full(M, self.it >= par['max_it']), no
        if kind == 'max_time':
            return np.full(M, self.t >= par['max_time']), np.full(M, abs(self.t - par['max_time']) < (1e-9 if self.t * 64 % 1 else 0))
        if kind == 'energy_tol':
            e = np.asarray(dyn.energy).min(-1)
            return e < par['energy_tol'], np.abs(e - par['energy_tol']) < 1e-10 * (1 + np.abs(e))
        if kind == 'diff_tol':
            return self.diff < par['diff_tol'], np.abs(self.diff - par['diff_tol']) < 1e-9 * par['diff_tol']
        if kind == 'max_eval':
            return np.asarray(dyn.num_f_eval) + self.batch > par['max_eval'], no
        p = par['patience']
        fire, amb = no.copy(), no.copy()
        for m in range(M):
            if len(self.cons[m]) >= p:
                w = np.array(self.cons[m][-p:])
                s = np.sqrt(np.mean((w - w.mean())**2))
                fire[m] = s < par['std_thresh']
                amb[m] = abs(s - par['std_thresh']) < 1e-6 * par['std_thresh'] + 1e-13 * (1 + np.abs(w).max())
                if p == 1:
                    fire[m], amb[m] = 0 < par['std_thresh'], False
        return fire, amb


def random_parameters(rng, s, E, B):
    kind = pick(rng, list(CLASS))
    if kind == 'max_it':
        par = {'max_it': pick(rng, [None, 0, 1, 2, 5, 9, int(rng.integers(0, 20))])}
    elif kind == 'max_time':
        par = {'max_time': float(s['kw']['dt'] * (rng.uniform(-.5, 20) if chance(rng, .6) else rng.integers(0, 15)))}
    elif kind == 'energy_tol':
        par = {'energy_tol': float(rng.uniform(E.min() - 1, np.median(E)))}
    elif kind == 'diff_tol':
        par = {'diff_tol': float(10**rng.uniform(-4, 1))}
    elif kind == 'max_eval':
        par = {'max_eval': int(rng.integers(0, 25 * B))}
    else:
        par = {'patience': int(rng.integers(1, 7)), 'std_thresh': float(10**rng.uniform(-4, 0.5))}
    return kind, par


def random_criterion(ctx, rng, s, E, B):
    kind, par = random_parameters(rng, s, E, B)
    form = pick(rng, ['name', 'dict', 'dict', 'object', 'object', 'partial'])
    name = pick(rng, NAMES[kind])
    ctx.seen({'name': 'by_name', 'object': 'by_object'}.get(form, 'by_dict'))
    if form == 'name':
        return kind, DEFAULT[kind], name
    if form == 'dict':
        return kind, par, dict(par, name=name)
    if form == 'partial':
        keep = {k: v for k, v in par.items() if chance(rng, .5)}
        return kind, dict(DEFAULT[kind], **keep), dict(keep, name=name)
    if chance(rng, .3):
        return kind, par, CLASS[kind](*par.values())
    return kind, par, CLASS[kind](**par)


def case(ctx, rng):
    s = gen_spec(rng)
    if chance(rng, .4):
        s['kw']['sigma'] = 0. if s['cls'] != 'CBS' else s['kw'].get('sigma', 0.)
        if s['cls'] == 'CBS':
            s['kw'].pop('sigma')
    if s['cls'] == 'RegCombinationCBO':
        s['kw']['constraints'] = None
    f = objective(s)
    from ..gen import start
    x = start(s)
    E = f(x)
    b = s['kw'].get('batch_args') or {}
    B = min(b.get('size', s['N']), s['N'])
    if s['cls'] in ('CBOMemory', 'PSO') and not b.get('partial', True):
        B = s['N']
    crit = [random_criterion(ctx, rng, s, E, B) for _ in range(pick(rng, [1, 1, 2, 3]))]
    watched = []
    if chance(rng, .4):
        # only observed: nothing but the pattern ends the runs
        watched = [random_parameters(rng, s, E, B) for _ in range(pick(rng, [1, 2, 3]))]
        crit = []
    stops = random_stops(rng, s['M'], 25)
    given = [c[2] for c in crit] + [PatternTerm(stops)]
    s['steps'] = 25
    before = [dict(g) if isinstance(g, dict) else g for g in given]
    dyn, rec, smp = build(s, x=x, term_criteria=given)
    ctx.check(all(a == b or a is b for a, b in zip(before, given)), 'criteria-changed', f'{before} -> {given}')
    ctx.describe(**brief(s), criteria=[(k, p) for k, p, _ in crit], observed=watched, stops=stops.tolist())
    ctx.check(len(dyn.term_criteria) == len(given), 'number-of-criteria', stop=True)
    for g, t in zip(given, dyn.term_criteria):
        if callable(g):
            ctx.check(g is t, 'object-replaced')
    if chance(rng, .3):
        # runs may have spent different numbers of evaluations (user code, restarts)
        dyn.num_f_eval += rng.integers(0, 8 * B, size=s['M'])
        ctx.seen('different_counts')
    recs = [Rec(t) for t in dyn.term_criteria]
    dyn.term_criteria = list(recs)
    H = History(dyn, rec.f, B)
    # criteria that are only asked, so that the history goes on after they were met
    watch = [(k, CLASS[k](**p), p) for k, p in watched]
    gone = np.zeros(s['M'], bool)
    steps = 0
    was = {}
    while True:
        for i, (k, t, p) in enumerate(watch):
            got = np.broadcast_to(np.asarray(t(dyn)).astype(bool), (s['M'],))
            fire, amb = H.condition(k, p, dyn)
            wrong = (got != fire) & ~amb & ~gone
            ctx.check(not wrong.any(), 'wrong-decision:' + k, f'it {H.it}: observed criterion met for {np.where(got)[0].tolist()}, its '
                      f'condition holds for {np.where(fire)[0].tolist()} (running {np.where(~gone)[0].tolist()})')
            ctx.seen('decisions')
            ctx.seen(k)
            ctx.seen('observed')
            if i in was:
                ctx.seen('no_longer_met', int((was[i] & ~fire & ~gone).sum()))
            was[i] = fire
        conds = [H.condition(k, p, dyn) for k, p, _ in crit] + [(H.it >= stops, np.zeros(s['M'], bool))]
        act0 = np.array(dyn.active_runs_idx)
        times = pick(rng, [1, 1, 2])
        ctx.seen('asked_twice', times - 1)
        evals = np.array(dyn.num_f_eval)
        for q in range(times):
            for r in recs:
                r.out.clear()
            done = dyn.terminate()
            for i, r in enumerate(recs):
                ctx.check(len(r.out) == 1, 'criterion-not-asked-once', f'{len(r.out)} times')
                got = np.broadcast_to(np.asarray(r.out[0]).astype(bool), (s['M'],)) if np.ndim(r.out[0]) == 0 else r.out[0].astype(bool)
                ctx.check(got.shape == (s['M'],), 'answer-shape', str(got.shape), stop=True)
                fire, amb = conds[i]
                kind = crit[i][0] if i < len(crit) else 'pattern'
                if kind == 'max_eval':
                    # a criterion before this one may have evaluated the consensus
                    fire, amb = H.condition(kind, crit[i][1], dyn)
                    if any(k == 'energy_stagnation' for k, _, _ in crit):
                        f0, _ = conds[i]
                        amb = fire != f0
                    conds[i] = (fire, amb)
                ctx.seen('decisions')
                ctx.seen(kind)
                live = ~gone
                if len(act0) < s['M']:
                    ctx.seen('subset')
                wrong = (got != fire) & ~amb & live
                ctx.check(not wrong.any(), 'wrong-decision:' + kind, f'it {H.it}: fired for {np.where(got)[0].tolist()}, its condition holds for '
                          f'{np.where(fire)[0].tolist()} (running {np.where(live)[0].tolist()})')
                if kind == 'energy_stagnation' and (fire & live).any():
                    ctx.seen('stagnation_fired')
                if 0 < (fire & live).sum() < live.sum():
                    ctx.seen('mixed')
                ctx.seen('fired', int((fire & live).sum()))
        ev = np.array(dyn.num_f_eval) - evals
        nst = sum(k == 'energy_stagnation' for k, _, _ in crit) if H.it else 0
        # every stagnation criterion evaluates the consensus at most once per step
        per = np.asarray(dyn.consensus).shape[1] if dyn.consensus is not None else 0
        ctx.check((ev >= 0).all() and (ev <= nst * per).all(), 'evaluations-of-criteria', f'{ev.tolist()} evaluations for {nst} criteria')
        any_fire = np.any([c[0] for c in conds], axis=0)
        any_amb = np.any([c[1] for c in conds], axis=0)
        active = np.zeros(s['M'], bool)
        active[dyn.active_runs_idx] = True
        wrong = (active == any_fire) & ~any_amb & ~gone
        ctx.check(not wrong.any(), 'active-runs', f'it {H.it}: active {np.where(active)[0].tolist()}, criteria hold for {np.where(any_fire)[0].tolist()}')
        ctx.check(bool(done) == (not active.any()), 'loop-decision')
        for m in np.where(~active & ~gone & ~any_amb)[0]:
            ids = [i for i, c in enumerate(conds) if c[0][m]]
            ctx.seen('several_reasons', len(ids) > 1)
            ctx.check(dyn.term_reason[m] is not None and list(np.asarray(dyn.term_reason[m])) == ids, 'term-reason',
                      f'run {m}: {dyn.term_reason[m]} instead of {ids}')
        gone |= ~active
        if done:
            break
        steps += 1
        if steps > 40:
            raise StepLimit('criteria')
        smp.tick += 1
        pre, dt, act = dyn.x.copy(), dyn.dt, np.array(dyn.active_runs_idx)
        dyn.step()
        H.step(pre, dyn, act, dt)
    ctx.sig(*signature(s), tuple(sorted(k for k, _, _ in crit)), tuple(sorted(k for k, _ in watched)), tuple(sorted(set(int(r[0]) for r in dyn.term_reason if r is not None))))


def defaults(ctx, rng):
    """criteria without arguments: 1000 iterations"""
    dyn = cd.CBO(lambda x: (x**2).sum(-1), f_dim='3D', d=1, M=int(rng.integers(1, 4)), N=2, verbosity=0)
    it = int(pick(rng, [998, 999, 1000, 1001]))
    ctx.describe(it=it)
    dyn.it = it
    for c in (T.max_it_term(), T.select_term('max-it'), T.select_term({'name': 'max-it'})):
        ctx.equal(np.asarray(c(dyn)).astype(bool) & np.ones(dyn.M, bool), np.full(dyn.M, it >= 1000), 'wrong-decision:max_it', f'default arguments, {it} iterations')
    ctx.check(bool(dyn.terminate()) == (it >= 1000), 'wrong-decision:max_it', f'dynamic without arguments, {it} iterations')
    ctx.sig('defaults', it, dyn.M)


FAMILIES = {'criteria': (case, 2000), 'defaults': (defaults, 16)}
