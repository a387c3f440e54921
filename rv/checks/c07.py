"""C07: function evaluation accounting is exact, the budget is respected."""
import numpy as np

from cbx.utils.objective_handling import cbx_objective, cbx_objective_fh
from cbx.utils.resampling import resampling, loss_update_resampling, ensemble_update_resampling
from cbx.utils.termination import select_term
from cbx.regularizers import regularization_paramter_scheduler

from ..gen import gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, BASE, RecObj, Obj
from ..drive import advance

RULE = ('random histories of all dynamics (corrections, stagnation criteria, resampling, penalty schedules) with an objective that '
        'counts the points it receives; every point is attributed to the run whose particle or consensus it is (bit for bit). '
        'Distinct by configuration signature and the extra evaluators present.')
REQUIRE = {'steps': 300, 'attributed_points': 3000, 'consensus_points': 100, 'budget_steps': 200, 'budget_stops': 100,
           'objective_counters': 100, 'resets': 50}
ASSUMPTIONS = ['schedules that evaluate the ensemble are used while all runs are active',
               'counters of objectives are compared for particles with one axis']


class Counting(cbx_objective):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def apply(self, x):
        return self.rec(x)


def case(ctx, rng):
    s = gen_spec(rng, classes=BASE, indep=True)
    M, N, n = s['M'], s['N'], int(np.prod(s['d']))
    stops = random_stops(rng, M, s['steps'])
    crit = [PatternTerm(stops)]
    extra = []
    polar = s['cls'] == 'PolarCBO'
    if chance(rng, .4) and not polar:
        crit.append(select_term({'name': 'energy-stagnation', 'patience': 2, 'std_thresh': 1e-6}))
        extra.append('stagnation')
    over = {}
    if chance(rng, .3) and not polar:
        over['post_process'] = resampling([pick(rng, [loss_update_resampling(2), ensemble_update_resampling(1e3)])],
                                          track_best_consensus=True, sigma_indep=.3)
        extra.append('resampling')
    sched = 'default' if chance(rng, .3) else None
    if s['cls'] == 'RegCombinationCBO' and s['kw']['constraints'] and chance(rng, .7):
        # penalty weights of single runs need all runs (see known_findings.json)
        crit = [PatternTerm(np.full(M, s['steps']))]
        over.pop('post_process', None)
        from cbx.scheduler import scheduler
        sched = scheduler([regularization_paramter_scheduler(rule_mean=pick(rng, ['weighted', 'simple']))])
        extra = ['penalty']
    wrap = s['f_dim'] == '3D' and chance(rng, .5)
    rec = RecObj(objective(s), s['f_dim'])
    f = Counting(rec) if wrap else rec
    check = not chance(rng, .15)
    over['check_f_dims'] = check
    dyn, _, smp = build(s, f=f, term_criteria=crit, **over)
    ctx.describe(**brief(s), stops=stops.tolist(), extra=extra, check_f_dims=check)
    mem = s['cls'] in ('CBOMemory', 'PSO')
    # construction
    ctx.equal(np.asarray(dyn.num_f_eval), np.full(M, N * (int(check) + int(mem))), 'count-after-construction')
    ctx.check(rec.points == M * N * (int(check) + int(mem)), 'evaluations-at-construction', rec.points)
    total = rec.points
    rec.clear()
    st = dict(before=np.array(dyn.num_f_eval), pre=None, total=total)

    def attribute(pre):
        """points per run since the last call"""
        per, unknown = np.zeros(M, int), 0
        where = {}

        def add(arr, runs, kind):
            pts = np.ascontiguousarray(arr).reshape(len(runs), -1, n)
            for r, m in enumerate(runs):
                for k in range(pts.shape[1]):
                    where.setdefault(pts[r, k].tobytes(), {}).setdefault(m, kind)
        allr = range(M)
        add(pre['x'], allr, 'particle')
        add(dyn.x, allr, 'particle')
        if hasattr(dyn, 'x_old'):
            add(dyn.x_old, allr, 'particle')
        if 'xp' in st:
            add(st['xp'], allr, 'particle')
        c = np.asarray(dyn.consensus)
        if len(c) == len(pre['active']):
            add(c, pre['active'], 'consensus')
        amb = 0
        for call in rec.calls:
            for p in np.ascontiguousarray(call).reshape(-1, n):
                ms = where.get(p.tobytes(), {})
                if len(ms) == 1:
                    (m, kind), = ms.items()
                    per[m] += 1
                    ctx.seen('attributed_points')
                    ctx.seen('consensus_points', kind == 'consensus')
                elif ms:
                    amb += 1
                else:
                    unknown += 1
        return per, unknown + amb

    def flush(pre, when):
        now = np.array(dyn.num_f_eval)
        per, unknown = attribute(pre)
        inc = now - st['before']
        st['total'] += rec.points
        ctx.check(inc.sum() == rec.points, 'counter-total', f'{when}: counted {inc}, evaluated {rec.points} points', stop=True)
        if unknown == 0:
            ctx.equal(inc, per, 'counter-per-run', f"{when} of it {pre['it']}")
        else:
            ctx.seen('unattributed_points', unknown)
            ctx.check((inc >= per).all(), 'counter-per-run', f'{when}: counted {inc}, at least {per}')
        st['before'] = now
        rec.clear()

    pp = dyn.post_process

    def keep(d):
        st['xp'] = d.x.copy()
        pp(d)
    dyn.post_process = keep

    def before(pre):
        if st['pre'] is not None:
            # evaluations between the steps (criteria, schedules) belong to runs of the last step
            flush(st['pre'], 'between steps')
        else:
            rec.clear() if rec.points == 0 else ctx.fail('evaluation-before-first-step', rec.points)

    def on_step(pre):
        ctx.seen('steps')
        ctx.sig(*signature(s), tuple(extra), len(pre['active']) < M)
        flush(pre, 'step')
        st['pre'] = pre
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched, before=before)
    if st['pre'] is not None:
        flush(st['pre'], 'last decision')
    ctx.check(int(np.sum(dyn.num_f_eval)) == st['total'], 'counter-total', 'whole run')
    if chance(rng, .3):      # starting the clock again does not undo evaluations
        had = np.array(dyn.num_f_eval)
        dyn.reset()
        ctx.equal(np.asarray(dyn.num_f_eval), had, 'counter-after-reset')
        ctx.seen('resets')
    g = dyn.f
    g = getattr(g, 'original_func', g)
    if hasattr(g, 'num_eval') and len(s['d']) == 1:    # a counter can not know how many axes a particle has
        ctx.seen('objective_counters')
        ctx.check(int(g.num_eval) == st['total'], 'objective-counter', f"{g.num_eval} instead of {st['total']}")


def budget(ctx, rng):
    small = chance(rng, .4)       # partial batches leave a step within the budget that a full evaluation exceeds
    s = gen_spec(rng, classes=['CBOMemory', 'PSO'] if small and chance(rng, .6) else BASE, batch=True if small else None)
    M, N = s['M'], s['N']
    check = chance(rng, .7)
    b = int(pick(rng, [0, N, 2 * N, 3 * N, 17, 40, 5 * N + 1, 100]))
    crit = [{'name': pick(rng, ['max-eval', 'max eval', 'max_eval']), 'max_eval': b}, {'name': 'max-it', 'max_it': 40}]
    stops = rng.integers(0, 30, size=M)
    if chance(rng, .5):
        crit.insert(0, PatternTerm(stops))
    else:
        stops = np.full(M, 1000)
    dyn, rec, smp = build(s, term_criteria=crit, check_f_dims=check)
    ctx.describe(**brief(s), max_eval=b, check_f_dims=check)
    mem = s['cls'] in ('CBOMemory', 'PSO')
    ba = s['kw'].get('batch_args') or {}
    B = min(ba.get('size', N), N)
    if mem and not ba.get('partial', True):
        B = N

    def before(pre):
        for m in range(M):
            act = m in pre['active']
            ctx.seen('budget_steps')
            fits = dyn.num_f_eval[m] + B <= b
            if act:
                ctx.check(fits, 'budget-exceeded', f'run {m}: {dyn.num_f_eval[m]} evaluations used, next step needs {B}, budget {b}')
            else:
                ctx.seen('budget_stops')
                ctx.check(not fits or dyn.it >= stops[m], 'stopped-within-budget', f'run {m}: {dyn.num_f_eval[m]} + {B} <= {b}')
    rec.clear()
    advance(dyn, smp, lambda pre: None, mode=pick(rng, ['loop', 'optimize']), before=before)
    for m in range(M):
        ctx.seen('budget_stops')
        ctx.check(dyn.num_f_eval[m] + B > b or dyn.it >= 40 or dyn.it >= stops[m], 'stopped-within-budget', f'run {m} at the end')
    ctx.sig('budget', *signature(s), b // max(1, B))


def counters(ctx, rng):
    """counters of objective objects for direct calls"""
    n = int(rng.integers(1, 5))
    f = Obj('quad', n, rng)
    kind = pick(rng, ['fh', 'own', '1D', '2D', 'benchmark'])
    from cbx.utils import objective_handling as oh
    if kind == 'fh':
        g = cbx_objective_fh(f.value)
    elif kind == 'own':
        g = Counting(f.value)
    elif kind == '1D':
        g = oh._promote_objective(f.value, '1D')
    elif kind == '2D':
        g = oh._promote_objective(f.value, '2D')
    else:
        import cbx.objectives as o
        g = o.Rastrigin()
    ctx.describe(objective=kind, dim=n)
    total = 0
    for _ in range(4):
        shape = pick(rng, [(n,), (3, n), (1, n), (2, 4, n), (1, 1, n), (5, 1, n)])
        k = int(np.prod(shape[:-1], dtype=int))
        g(rng.standard_normal(shape))
        total += k
        ctx.check(int(g.num_eval) == total, 'objective-counter', f'{kind} {shape}: {g.num_eval} instead of {total}')
        ctx.seen('objective_counters')
        ctx.sig('counter', kind, shape)
    g.reset()
    ctx.check(int(g.num_eval) == 0, 'objective-counter-reset')


FAMILIES = {'accounting': (case, 1500), 'budget': (budget, 700), 'counters': (counters, 100)}
