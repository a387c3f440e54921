"""C29: stepwise, split and resumed runs are equivalent to one optimization."""
import numpy as np

from cbx.scheduler import scheduler, multiply, effective_sample_size, param_update
from cbx.utils.termination import max_it_term

from ..core import StepLimit
from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm

RULE = ('the same problem (same start, same seed of the built-in sampler) is run in one call of the optimization loop, by hand step by '
        'step, in several calls with growing limits, interrupted by an exception between two steps and resumed, and with a reset in '
        'between; every step is recorded and all recorded states, counters and results are compared; signatures = configuration x '
        'mode x schedule x criteria')
REQUIRE = {'pairs': 800, 'manual': 150, 'raw_steps': 60, 'split': 150, 'interrupted': 100, 'reset': 100, 'steps': 8000, 'subset': 500,
           'batched': 300, 'scheduled': 300, 'split_points': 300, 'no_op_calls': 100}
ASSUMPTIONS = ['AdamCBO is not compared after a reset: its bias correction depends on the iteration count by definition']
STATE = ['x', 'y', 'v', 'm', 'energy', 'best_energy', 'best_particle', 'best_cur_energy', 'best_cur_particle', 'f_min', 'update_diff', 'alpha',
         'consensus', 'num_f_eval', 'sigma', 'dt', 'lamda', 'it', 't']


def state(dyn):
    out = {}
    for k in STATE:
        v = getattr(dyn, k, None)
        if v is not None:
            out[k] = np.array(v)
    return out


class Log:
    """records the state after every step"""
    def __init__(self, ctx, dyn, limit=200):
        self.ctx, self.dyn, self.states, self.limit = ctx, dyn, [], limit
        orig = dyn.step

        def step():
            if len(self.states) >= self.limit:
                raise StepLimit(f'more than {limit} steps')
            it, t, dt = dyn.it, dyn.t, dyn.dt
            orig()
            ctx.seen('steps')
            ctx.seen('subset', len(dyn.active_runs_idx) < dyn.M)
            ctx.seen('batched', dyn.batch_size < dyn.N)
            ctx.check(dyn.it == it + 1, 'iteration-count', f'{it} -> {dyn.it}')
            ctx.check(abs(dyn.t - t - dt) <= 1e-12 * (1 + abs(t)), 'time', f'{t} -> {dyn.t} with dt={dt}')
            self.states.append(state(dyn))
        dyn.step = step


def compare(ctx, a, b, what, skip=()):
    for k in a:
        if k in skip:
            continue
        if not ctx.check(k in b, 'state-differs:' + k, f'{what}: missing'):
            continue
        if a[k].dtype.kind in 'iu':
            ctx.equal(b[k], a[k], 'state-differs:' + k, what)
        else:
            ctx.close(b[k], a[k], 'state-differs:' + k, what, rtol=1e-8, atol=1e-10)


def compare_logs(ctx, A, B, what, skip=()):
    ctx.check(len(A.states) == len(B.states), 'number-of-steps', f'{what}: {len(A.states)} and {len(B.states)}', stop=True)
    for i, (a, b) in enumerate(zip(A.states, B.states)):
        n = ctx.counts['violations']
        compare(ctx, a, b, f'{what}, step {i + 1}', skip)
        if ctx.counts['violations'] > n:
            return


class Interrupt(Exception):
    pass


class Interrupted(param_update):
    """raises once, in between the k-th and the next step, before anything is changed"""
    def __init__(self, k):
        super().__init__(name='alpha')
        self.k, self.n, self.raised = k, 0, False

    def update(self, dyn):
        self.n += 1
        if self.n == self.k and not self.raised:
            self.raised = True
            raise Interrupt()


class Count(param_update):
    def __init__(self):
        super().__init__(name='alpha')
        self.n = 0

    def update(self, dyn):
        self.n += 1


def schedules(rng, cls):
    """a function making a fresh schedule (the same every time), and its argument of optimize"""
    k = pick(rng, ['none', 'default', 'multiply', 'several', 'ess'])
    if cls == 'CBS' and k == 'ess':
        k = 'ess-object'

    def make(dyn):
        if k == 'default':
            return dyn.default_sched()
        if k == 'multiply':
            return scheduler([multiply(name='alpha', factor=1.3, maximum=60.)])
        if k == 'several':
            return scheduler([multiply(name='sigma', factor=.9), multiply(name='dt', factor=.95), multiply(name='alpha', factor=1.1)])
        if k in ('ess-object', 'ess'):
            return scheduler([effective_sample_size()])
        return scheduler([])
    arg = {'none': None, 'default': 'default', 'ess': 'effective'}.get(k)
    return k, make, arg


def case(ctx, rng):
    s = gen_spec(rng, indep=True)
    M = s['M']
    T = int(rng.integers(1, 14))
    seed = int(rng.integers(1000))
    stops = rng.integers(0, 2 * T + 1, size=M) if chance(rng, .6) else np.full(M, 10**6)
    more = []
    if chance(rng, .4):
        more.append(pick(rng, [{'name': 'diff_tol', 'diff_tol': 10**rng.uniform(-3, -.5)},
                               {'name': 'energy_stagnation', 'patience': int(rng.integers(1, 5)), 'std_thresh': 10**rng.uniform(-2, .3)},
                               {'name': 'max_eval', 'max_eval': int(rng.integers(5, 12 * max(2, s['N'])))},
                               {'name': 'max_time', 'max_time': float(T * s['kw']['dt'] * rng.uniform(.3, 1.2))}]))
    skind, make, arg = schedules(rng, s['cls'])
    track = pick(rng, [None, {'names': ['x', 'energy', 'update_norm'], 'save_int': int(pick(rng, [1, 1, 2, 3]))}])

    def new(limit, **kw):
        from cbx.noise import get_noise  # noqa: F401
        import cbx.dynamics as cd
        from ..gen import RecObj, objective, start
        import copy
        k = copy.deepcopy(s['kw'])
        k.update(kw)
        lim = max_it_term(limit)
        dyn = getattr(cd, s['cls'])(RecObj(objective(s), s['f_dim']), f_dim=s['f_dim'], x=start(s), seed=seed, track_args=track,
                                    term_criteria=[lim, PatternTerm(stops)] + [dict(c) for c in more], **k)
        return dyn, lim
    ctx.describe(**brief(s), limit=T, stops=stops.tolist(), more=more, sched=skind, track=track)
    ctx.seen('scheduled', skind != 'none')
    a, _ = new(T, verbosity=int(pick(rng, [0, 1, 2])))
    A = Log(ctx, a)
    kw = {}
    if s['cls'] != 'CBS' and chance(rng, .5):
        kw['print_int'] = int(pick(rng, [1, 2, 100]))
    cnt = Count()
    if arg is None and skind != 'none':
        sc = make(a)
        sc.var_params.append(cnt)
        ra = a.optimize(sched=sc, **kw)
        ctx.check(cnt.n == len(A.states), 'schedule-not-once-per-step', f'{cnt.n} updates for {len(A.states)} steps')
    else:
        ra = a.optimize(sched=arg, **kw)
    ctx.check(len(A.states) <= T, 'limit-exceeded', f'{len(A.states)} of {T}')
    fin_a = state(a)
    n = len(A.states)
    modes = ['manual', 'split', 'interrupted', 'reset']
    if n == T and (stops > T).all() and not more:
        modes.append('raw_steps')
    for mode in [modes[i] for i in rng.permutation(len(modes))[:2]]:
        ctx.seen('pairs')
        ctx.seen(mode)
        skip, rb = (), None
        b, lim = new(T, verbosity=0)
        B = Log(ctx, b)
        sc = make(b)
        if mode == 'manual':
            while not b.terminate():
                b.step()
                sc.update(b)
                if chance(rng, .2):
                    b.terminate()
            rb = b.best_particle
        elif mode == 'raw_steps':
            for _ in range(T):
                b.step()
                sc.update(b)
            rb = b.best_particle
        elif mode == 'split':
            points = sorted(set(rng.integers(0, T + 1, size=int(rng.integers(1, 4))).tolist())) + [T]
            for p in points:
                ctx.seen('split_points')
                lim.max_it = p
                if chance(rng, .3) and p > b.it:
                    while not b.terminate():
                        b.step()
                        sc.update(b)
                    rb = b.best_particle
                else:
                    rb = b.optimize(sched=sc if arg is None and skind != 'none' else arg)
                ctx.check(b.it <= p, 'limit-exceeded', f'{b.it} of {p}')
                if chance(rng, .3):
                    ctx.seen('no_op_calls')
                    k0, before = len(B.states), state(b)
                    b.optimize(sched=arg)
                    ctx.check(len(B.states) == k0, 'step-after-limit', f'{len(B.states) - k0} steps')
                    compare(ctx, before, state(b), 'call of a finished optimization')
        elif mode == 'interrupted':
            if n == 0:
                return
            it = Interrupted(int(rng.integers(1, n + 1)))
            stopped = scheduler([it] + list(sc.var_params))
            try:
                rb = b.optimize(sched=stopped)
                ctx.check(False, 'interrupt-swallowed', f'the exception of the schedule at step {it.k} did not reach the caller')
            except Interrupt:
                pass
            sc.update(b)        # what the interrupted iteration still had to do
            rb = b.optimize(sched=stopped)
        else:
            if n == 0:
                return
            k = int(rng.integers(1, n + 1))
            lim.max_it = k
            b.optimize(sched=sc if arg is None and skind != 'none' else arg)
            if b.it < k:
                continue
            before = state(b)
            b.reset()
            after = state(b)
            ctx.check(b.it == 0 and b.t == 0, 'reset', f'it={b.it}, t={b.t}')
            compare(ctx, before, after, 'reset', skip=('it', 't'))
            ctx.check(all(len(v) <= 1 for v in b.history.values()), 'reset-history', {q: len(v) for q, v in b.history.items()})
            if s['cls'] == 'AdamCBO' or any(c['name'] in ('energy_stagnation', 'max_time') for c in more):
                continue
            lim.max_it = T - k
            b.term_criteria[1] = PatternTerm(stops - k)
            rb = b.optimize(sched=sc if arg is None and skind != 'none' else arg)
            skip = ('it', 't')
        compare_logs(ctx, A, B, mode, skip)
        fin_b = state(b)
        compare(ctx, fin_a, fin_b, f'{mode}, at the end', skip)
        if rb is not None:
            ctx.close(rb, ra, 'result', mode, rtol=1e-8, atol=1e-10)
        if mode in ('manual', 'split', 'interrupted'):
            for m in range(M):
                p, q = a.term_reason[m], b.term_reason[m]
                ctx.check((p is None) == (q is None) and (p is None or np.array_equal(p, q)), 'term-reason', f'{mode}: run {m}: {q} instead of {p}')
        if mode != 'reset':
            ctx.check(sorted(a.history) == sorted(b.history), 'history', f'{mode}: {sorted(b.history)}')
            for k in a.history:
                same = len(a.history[k]) == len(b.history[k]) and all(
                    np.allclose(np.asarray(p, float), np.asarray(q, float), rtol=1e-8, atol=1e-10, equal_nan=True)
                    for p, q in zip(a.history[k], b.history[k]))
                ctx.check(same, 'history', f'{mode}: {k}')
        ctx.sig(*signature(s), mode, skind, tuple(c['name'] for c in more), bool((stops < 10**6).any()))


FAMILIES = {'pairs': (case, 900)}
