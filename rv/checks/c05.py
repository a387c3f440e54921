"""C05: terminated runs are frozen, the loop ends exactly when all runs are done."""
import numpy as np

from cbx.utils.resampling import resampling, ensemble_update_resampling, loss_update_resampling

from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm, BASE
from ..drive import advance

RULE = ('random histories of all dynamics with several criteria (random patterns incl. non-monotone ones, built-in criteria, '
        'post-processing): every criterion call is logged and the log decides which steps were allowed and which runs had to '
        'stay frozen bit for bit between two consecutive decisions. Distinct by configuration signature and set of frozen runs.')
REQUIRE = {'steps': 200, 'frozen_run_steps': 300, 'reactivated': 10, 'loops_ended': 100, 'reasons': 200, 'many_criteria': 100}
ASSUMPTIONS = []


class RecTerm:
    """logs the answers of a criterion"""

    def __init__(self, inner, log, i):
        self.inner, self.log, self.i = inner, log, i

    def __call__(self, dyn):
        r = np.array(self.inner(dyn), dtype=bool)
        self.log.append((self.i, dyn.it, np.broadcast_to(r, (dyn.M,)).copy()))
        return r


class TableTerm:
    def __init__(self, table):
        self.table = table    # (steps+1, M)

    def __call__(self, dyn):
        return self.table[min(dyn.it, len(self.table) - 1)].copy()


FROZEN = ['x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'num_f_eval']


def frozen_state(dyn):
    out = {}
    for k in FROZEN:
        v = getattr(dyn, k, None)
        if isinstance(v, np.ndarray) and v.shape[:1] == (dyn.M,):
            out[k] = v.copy()
    return out


def case(ctx, rng):
    from cbx.utils.termination import select_term
    s = gen_spec(rng, classes=BASE, indep=True)
    M, T = s['M'], s['steps']
    table = np.zeros((T + 1, M), bool)
    k = pick(rng, ['monotone', 'monotone', 'flicker'])
    if k == 'monotone':
        for m in range(M):
            table[int(rng.integers(0, T + 1)):, m] = True
    else:
        table = rng.random((T + 1, M)) < .4
    table[-1] = True
    log = []
    crit = [TableTerm(table)]
    if chance(rng, .4):
        crit.append(PatternTerm(rng.integers(0, 2 * T, size=M)))
    if chance(rng, .4):
        crit.append(select_term(pick(rng, [{'name': 'energy-tol', 'energy_tol': .3}, {'name': 'diff-tol', 'diff_tol': .05},
                                           {'name': 'max-eval', 'max_eval': int(rng.integers(5, 60))},
                                           {'name': 'max-it', 'max_it': int(rng.integers(0, T + 2))},
                                           {'name': 'energy-stagnation', 'patience': 2, 'std_thresh': .05}])))
    if chance(rng, .25):        # many criteria, some of them hold together
        for _ in range(int(rng.integers(2, 6))):
            crit.append(TableTerm(table) if chance(rng, .3) else PatternTerm(rng.integers(0, 2 * T, size=M)))
        ctx.seen('many_criteria')
    crit = [crit[i] for i in rng.permutation(len(crit))]
    over = {}
    pp = pick(rng, ['none', 'none', 'resampling', 'prox' if s['cls'] == 'CBO' else 'none'])
    if s['cls'] == 'CBO' and chance(rng, .4):
        pp = 'prox'
    if pp == 'resampling':
        over['post_process'] = resampling([ensemble_update_resampling(pick(rng, [.05, 1e3])), loss_update_resampling(2)],
                                          sigma_indep=.5, track_best_consensus=chance(rng, .5) and s['cls'] != 'PolarCBO')
    elif pp == 'prox' and s['cls'] == 'CBO':
        from cbx.dynamics import mirrorcbo as mc
        name, kw = pick(rng, [('ProjectionBall', dict(radius=.7)), ('ElasticNet', dict(delta=.3)), ('L2', dict(lamda=1.5)), ('ProjectionBall', {})])
        over['post_process'] = mc.MirrorMaptoPostProcessProx(getattr(mc, name))(**kw)
    recs = [RecTerm(c, log, i) for i, c in enumerate(crit)]
    dyn, rec, smp = build(s, term_criteria=recs, **over)
    ctx.describe(**brief(s), kind=k, criteria=[type(c).__name__ for c in crit], post=pp)
    st = dict(prev=None, inactive=None)

    def decision():
        """combined answer of the last call of every criterion"""
        last = {}
        for i, it, r in log:
            last[i] = (it, r)
        if len(last) < len(crit):
            return None
        return np.stack([last[i][1] for i in range(len(crit))], axis=1), [last[i][0] for i in range(len(crit))]

    def compare(prev, now, runs, when):
        for key in prev:
            if key in now:
                ctx.equal(now[key][runs], prev[key][runs], 'terminated-run-changed', f'{key} {when}')

    def before(pre):
        now = frozen_state(dyn)
        d = decision()
        ctx.check(d is not None, 'step-without-consulting-criteria', stop=True)
        fired, its = d
        ctx.check(all(i == dyn.it for i in its), 'criteria-not-consulted-for-this-step', f'{its} at {dyn.it}')
        done = fired.any(axis=1)
        ctx.check(not done.all(), 'step-although-all-runs-terminated', f'it {dyn.it}')
        if st['prev'] is not None:
            compare(st['prev'], now, st['inactive'], f'before it {dyn.it}')
            ctx.seen('reactivated', (st['inactive'] & ~done).sum())
        reasons(fired)
        st['prev'], st['inactive'] = now, done
        ctx.seen('frozen_run_steps', done.sum())
        if done.any():
            ctx.sig(*signature(s), pp, int(done.sum()))

    def reasons(fired):
        for m in range(M):
            if fired[m].any():
                ctx.seen('reasons')
                r = dyn.term_reason[m]
                ctx.check(r is not None and np.array_equal(np.atleast_1d(r), np.where(fired[m])[0]), 'term-reason',
                          f'run {m}: {r} instead of {np.where(fired[m])[0]}')
        ever = np.zeros(M, bool)
        for i, it, r in log:
            ever |= r
        for m in np.where(~ever)[0]:
            ctx.check(dyn.term_reason[m] is None, 'term-reason', f'run {m} never terminated: {dyn.term_reason[m]}')

    def on_step(pre):
        ctx.seen('steps')

    n, _ = advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize', 'optimize']),
                   sched='default' if chance(rng, .3) else None, before=before)
    fired, its = decision()
    ctx.check(fired.any(axis=1).all() and all(i == dyn.it for i in its), 'loop-ended-early', f'after {n} steps: {fired}')
    ctx.check(dyn.it == n, 'iteration-count', f'{dyn.it} after {n} steps')
    reasons(fired)
    if st['prev'] is not None:
        compare(st['prev'], frozen_state(dyn), st['inactive'], 'at the end')
    ctx.seen('loops_ended')
    if not any(type(c).__name__ == 'TableTerm' for c in crit):
        return
    # all runs are done: nothing happens anymore
    a = frozen_state(dyn)
    if s['cls'] == 'CBS' or chance(rng, .5):
        dyn.optimize()
        b = frozen_state(dyn)
        compare({k: v for k, v in a.items() if k != 'num_f_eval'}, b, np.ones(M, bool), 'by an optimization that had nothing to do')


def max_it(ctx, rng):
    """the default criterion: exactly max_it iterations, never more"""
    s = gen_spec(rng, classes=BASE)
    n = int(rng.integers(0, 9))
    mode = pick(rng, ['argument', 'name', 'combined'])
    stop = None
    over = dict(max_it=n)
    if mode == 'name':
        over = dict(term_criteria=[{'name': pick(rng, ['max-it', 'max it', 'max_it']), 'max_it': n}])
    elif mode == 'combined':
        stop = rng.integers(0, 9, size=s['M'])
        over = dict(term_criteria=[PatternTerm(stop), {'name': 'max-it', 'max_it': n}])
    dyn, rec, smp = build(s, **over)
    ctx.describe(**brief(s), max_it=n, given=mode, stop=stop)
    steps, _ = advance(dyn, smp, lambda pre: None, mode=pick(rng, ['loop', 'optimize']), limit=50)
    want = n if stop is None else min(n, int(stop.max()))
    ctx.check(steps == want and dyn.it == want, 'number-of-iterations', f'{steps} steps, it {dyn.it}, expected {want}')
    ctx.seen('loops_ended')
    ctx.sig('max_it', s['cls'], mode, n)


FAMILIES = {'freeze': (case, 1500), 'max_it': (max_it, 200)}
