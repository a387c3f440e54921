"""C04: runs advanced together do not influence each other."""
import copy

import numpy as np

from cbx.scheduler import scheduler, effective_sample_size, multiply
from cbx.utils.resampling import resampling, ensemble_update_resampling, consensus_stagnation, loss_update_resampling
from cbx.utils.termination import select_term
from cbx.regularizers import regularization_paramter_scheduler

from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm, random_stops, BASE, TickSampler, start
from ..drive import advance

RULE = ('paired executions: M runs together vs every run alone (same particles, parameters and noise per run; criteria, schedules, '
        'resampling included), runs permuted, and one run perturbed while the others have to keep their trajectories. Distinct by '
        'configuration signature and the extras; non-trivial when at least two runs exist.')
REQUIRE = {'alone_steps': 500, 'permuted_steps': 100, 'perturbed_steps': 200, 'subset_steps': 100, 'with_schedule': 50,
           'with_resampling': 30, 'stopped_by_criterion': 50}
ASSUMPTIONS = ['noise is a deterministic function of step, particle and coordinate so that joint and single executions see the same']


def pattern_for(stops, rows):
    return PatternTerm(np.asarray(stops)[rows])


def extras(rng, s, joint_lambda=True):
    """plain description of criteria, schedules and post processing (made fresh for every execution)"""
    e = dict(term=None, sched=None, post=None)
    if chance(rng, .5):
        e['term'] = pick(rng, [{'name': 'energy-tol', 'energy_tol': float(rng.uniform(0, 1.))},
                               {'name': 'diff-tol', 'diff_tol': float(10.**rng.uniform(-3, 0))},
                               {'name': 'energy-stagnation', 'patience': int(rng.integers(1, 4)), 'std_thresh': float(10.**rng.uniform(-3, 0))},
                               {'name': 'max-eval', 'max_eval': int(rng.integers(10, 60))}])
        if s['cls'] == 'PolarCBO' and e['term']['name'] == 'energy-stagnation':
            e['term'] = None
    k = pick(rng, [None, None, 'default', 'ess', 'multiply'])
    if k == 'ess' and not s['kw'].get('batch_args'):
        e['sched'] = 'ess'
    elif k in ('default', 'multiply'):
        e['sched'] = k
    if chance(rng, .25):
        e['post'] = pick(rng, ['update', 'consensus', 'loss'])
        if s['cls'] == 'PolarCBO' and e['post'] == 'consensus':
            e['post'] = 'loss'
    return e


def make(e, stops):
    crit = [PatternTerm(stops)]
    if e['term']:
        crit.append(select_term(dict(e['term'])))
    sched = {None: None, 'default': 'default', 'ess': scheduler([effective_sample_size(maximum=1e3, eta=.6)]),
             'multiply': scheduler([multiply(name='alpha', factor=1.3, maximum=20.)])}[e['sched']]
    over = {}
    if e['post']:
        r = {'update': lambda: ensemble_update_resampling(.3), 'consensus': lambda: consensus_stagnation(2, .3),
             'loss': lambda: loss_update_resampling(2)}[e['post']]()
        over['post_process'] = resampling([r], sigma_indep=.4, track_best_consensus=e.get('track', False))
    return crit, sched, over


KEYS = ['x', 'y', 'v', 'm', 'best_energy', 'best_particle', 'energy', 'alpha', 'num_f_eval', 'update_diff']


def trajectory(s, x, e, stops, alpha=None, noise_rows=None, f=None):
    """list of states (dict of arrays), one per step, and per-run stop iterations"""
    crit, sched, over = make(e, stops)
    s = copy.deepcopy(s)
    if alpha is not None:
        s['kw']['alpha'] = alpha
    smp = TickSampler(s['noise_seed'], mode='rowconst')
    if noise_rows is not None:
        smp = noise_rows(smp)
    dyn, rec, smp = build(s, x=x.copy(), sampler=smp, term_criteria=crit, **over)
    out, last = [], np.zeros(dyn.M, int)

    def on_step(pre):
        st = {}
        for k in KEYS:
            v = getattr(dyn, k, None)
            if isinstance(v, np.ndarray) and v.shape[:1] == (dyn.M,):
                st[k] = v.copy()
        last[pre['active']] = dyn.it
        st['active'] = pre['active']
        out.append(st)
    advance(dyn, smp, on_step, mode='loop', sched=sched, limit=100)
    return out, last, dyn


def sub_alpha(s, rows):
    a = s['kw']['alpha']
    return a[rows].copy() if isinstance(a, np.ndarray) else a


def ambiguous(s):
    return s['kw'].get('correction') == 'heavi_side'


def compare(ctx, s, joint, jrow, alone, arow, steps, kind, scale):
    rt = 1e-6 if s['cls'] != 'AdamCBO' else 1e-4
    if s['kw'].get('noise') == 'covariance' or s['cls'] in ('CBS', 'RegCombinationCBO', 'DriftConstrainedCBO'):
        rt = 1e-4
    for t in range(steps):
        for k in alone[t]:
            if k == 'active':
                continue
            if k == 'alpha' and alone[t][k].shape != joint[t][k].shape[:0] + alone[t][k].shape:
                continue
            a, b = joint[t][k][jrow], alone[t][k][arow]
            sc = scale if k in ('x', 'y', 'v', 'best_particle', 'm') else max(1., float(np.abs(b[np.isfinite(b)]).max()) if np.isfinite(b).any() else 1.)
            if not ctx.close(a, b, kind, f'{k} of run {jrow} after step {t + 1}', rtol=rt, atol=rt * sc):
                return False
    return True


def alone(ctx, rng):
    s = gen_spec(rng, classes=BASE, batch=False, M=int(rng.integers(2, 5)) if chance(rng, .85) else int(rng.integers(5, 11)), indep=True)
    s['kw'].pop('batch_args', None)
    if s['cls'] == 'AdamCBO':
        s['kw']['eps'] = 1e-3
    s['steps'] = int(rng.integers(3, 7))
    e = extras(rng, s)
    M = s['M']
    stops = random_stops(rng, M, s['steps'])
    x = start(s)
    ctx.describe(**brief(s), stops=stops.tolist(), extras=e)
    J, jlast, jd = trajectory(s, x, e, stops)
    scale = max([1.] + [float(np.abs(t['x']).max()) for t in J])
    ctx.seen('with_schedule', e['sched'] is not None)
    ctx.seen('with_resampling', e['post'] is not None)
    ctx.seen('stopped_by_criterion', (jlast < stops).sum())
    if J:
        ctx.sig(*signature(s), tuple(str(v)[:12] for v in e.values()))
    if scale > 1e6:
        return
    for m in range(M):
        A, alast, ad = trajectory(s, x[m:m + 1], e, stops[m:m + 1], alpha=sub_alpha(s, [m]))
        ctx.seen('alone_steps', len(A))
        if not ctx.check(alast[0] == jlast[m], 'run-stops-at-another-iteration',
                         f'run {m}: {jlast[m]} together, {alast[0]} alone'):
            return
        if not compare(ctx, s, J, m, A, 0, min(len(A), len(J)), 'differs-from-run-alone', scale):
            return
    ctx.seen('subset_steps', sum(len(t['active']) < M for t in J))


def permuted(ctx, rng):
    s = gen_spec(rng, classes=BASE, batch=False, M=int(rng.integers(2, 5)) if chance(rng, .85) else int(rng.integers(5, 11)))
    s['kw'].pop('batch_args', None)
    s['steps'] = int(rng.integers(3, 6))
    if s['cls'] == 'AdamCBO':
        s['kw']['eps'] = 1e-3
    e = extras(rng, s)
    M = s['M']
    stops = random_stops(rng, M, s['steps'])
    x = start(s)
    p = rng.permutation(M)
    ctx.describe(**brief(s), stops=stops.tolist(), extras=e, permutation=p.tolist())
    J, jl, _ = trajectory(s, x, e, stops)
    K, kl, _ = trajectory(s, x[p], e, stops[p], alpha=sub_alpha(s, p))
    scale = max([1.] + [float(np.abs(t['x']).max()) for t in J])
    if scale > 1e6:
        return
    if not ctx.check(np.array_equal(kl, jl[p]), 'run-stops-at-another-iteration', f'{kl} vs {jl[p]}'):
        return
    ctx.seen('permuted_steps', len(J))
    if J:
        ctx.sig('perm', *signature(s))
    for i in range(M):
        if not compare(ctx, s, K, i, J, int(p[i]), min(len(J), len(K)), 'permuting-runs-changes-results', scale):
            return


def perturbed(ctx, rng):
    """another ensemble (and stopping time) in one run does not change the others; includes mini-batches and run dependent noise"""
    s = gen_spec(rng, classes=BASE, M=int(rng.integers(2, 5)) if chance(rng, .85) else int(rng.integers(5, 11)), indep=False)
    if s['cls'] == 'AdamCBO':
        s['kw']['eps'] = 1e-3
    s['steps'] = int(rng.integers(3, 7))
    e = extras(rng, s)
    M = s['M']
    stops = random_stops(rng, M, s['steps'])
    stops2 = stops.copy()
    m0 = int(rng.integers(M))
    x = start(s)
    s2 = copy.deepcopy(s)
    s2['x_seed'] += 1
    x2 = x.copy()
    x2[m0] = start(s2)[m0]
    if chance(rng, .3) and s['cls'] not in ('HyperSurfaceCBO', 'MirrorCBO'):
        x2[m0] *= 50.       # a run with much larger energies
    if chance(rng, .3):
        stops2[m0] = int(rng.integers(0, s['steps'] + 1))
    ctx.describe(**brief(s), stops=stops.tolist(), stops2=stops2.tolist(), extras=e, perturbed=m0)
    J, jl, _ = trajectory(s, x, e, stops)
    K, kl, _ = trajectory(s, x2, e, stops2)
    scale = max([1.] + [float(np.abs(np.delete(t['x'], m0, axis=0)).max()) for t in J])
    if scale > 1e6:
        return
    others = [m for m in range(M) if m != m0]
    if not ctx.check(np.array_equal(kl[others], jl[others]), 'run-stops-at-another-iteration', f'{kl} vs {jl}'):
        return
    n = min(len(J), len(K))
    ctx.seen('perturbed_steps', n)
    ctx.seen('with_schedule', e['sched'] is not None)
    ctx.seen('with_resampling', e['post'] is not None)
    if n:
        ctx.sig('pert', *signature(s), tuple(str(v)[:12] for v in e.values()))
    for m in others:
        if not compare(ctx, s, J, m, K, m, n, 'depends-on-another-run', scale):
            return


def penalty(ctx, rng):
    """penalty weights and tolerances belong to single runs"""
    from cbx.regularizers import regularize_objective
    M, N, n = int(rng.integers(2, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    x = rng.uniform(-2, 2, (M, N, n))
    import cbx.dynamics as cd
    rule = pick(rng, ['weighted', 'simple'])
    reg = pick(rng, ['Sphere', 'L1', {'name': 'Plane', 'a': np.ones(n), 'b': .5}])
    args = dict(theta=float(pick(rng, [1., 10.])), theta_max=float(pick(rng, [20., 1e5])), factor_theta=1.5,
                factor_lamda=float(pick(rng, [1.1, 3.])), lamda_max=float(pick(rng, [8., 1e15])), rule_mean=rule)
    w = rng.uniform(.5, 2., n)
    ctx.describe(M=M, N=N, n=n, reg=reg, **args)

    def run(x):
        f = regularize_objective(lambda z: (w * z**2).sum(-1), reg, lamda=1., p=1)
        sch = regularization_paramter_scheduler(**args)
        smp = TickSampler(5, mode='rowconst')
        dyn = cd.CBO(f, f_dim='3D', x=x.copy(), alpha=2., sigma=.3, dt=.1, verbosity=0, max_it=6, sampler=smp)
        out = []
        while not dyn.terminate():
            smp.tick += 1
            dyn.step()
            sch.update(dyn)
            out.append((dyn.x.copy(), np.array(dyn.f.lamda), np.array(sch.theta)))
        return out
    J = run(x)
    ctx.sig('penalty', rule, str(reg)[:8], M, min(N, 2), n)
    for m in range(M):
        A = run(x[m:m + 1])
        ctx.seen('alone_steps', len(A))
        for t in range(len(A)):
            ctx.close(J[t][1][m], A[t][1][0], 'differs-from-run-alone', f'penalty weight of run {m} step {t}')
            ctx.close(J[t][2][m], A[t][2][0], 'differs-from-run-alone', f'theta of run {m} step {t}')
            ctx.close(J[t][0][m], A[t][0][0], 'differs-from-run-alone', f'x of run {m} step {t}', rtol=1e-6, atol=1e-6)


FAMILIES = {'alone': (alone, 700), 'permuted': (permuted, 250), 'perturbed': (perturbed, 700), 'penalty': (penalty, 60)}
