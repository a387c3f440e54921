"""C06: reported best value and best particle are consistent and monotone."""
import numpy as np

from cbx.dynamics.pdyn import post_process_default
from cbx.utils.resampling import resampling, loss_update_resampling

from ..gen import gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, BASE
from ..drive import advance
from ..ref import Law

RULE = ('random histories of all dynamics with a recording objective; evaluated points that are positions of a particle of a run '
        '(bit for bit) enter the run\'s log of obtained values and the reported best is compared with the log after every step. '
        'Distinct by configuration signature and improvement pattern; non-trivial when the best of some run changed.')
REQUIRE = {'steps': 300, 'improvements': 300, 'stagnant_steps': 100, 'results': 100, 'logged_values': 3000, 'tiny_scale': 20, 'wide_range': 100}
ASSUMPTIONS = ['the objective does not change during the run (no schedule of penalty weights) and has no NaN values']


def rows(x):
    """bytes of every point of an array (..., d...) flattened to points of length n"""
    return [p.tobytes() for p in np.ascontiguousarray(x)]


def case(ctx, rng):
    s = gen_spec(rng, classes=BASE, indep=True)
    tiny = chance(rng, .1) and s['cls'] != 'RegCombinationCBO'
    if tiny:
        s['obj'].update(scale=float(pick(rng, [1e-9, 1e-13])), offset=0.)
    wide = not tiny and chance(rng, .1) and s['cls'] != 'RegCombinationCBO'
    if wide:
        s['obj'].update(scale=float(pick(rng, [1., 1e4, 1e9])), offset=float(pick(rng, [-1e9, -1e7, 1e7, 0.])))
    f = objective(s)
    law = Law(s, f)
    val = law.objective_on      # what the dynamic minimises (with penalty for the combination method)
    M, N, n = s['M'], s['N'], int(np.prod(s['d']))
    stops = random_stops(rng, M, s['steps'])
    over, pp = {}, pick(rng, ['none', 'none', 'kick', 'resampling'])
    default = post_process_default()
    inner = {}

    def post(dyn):
        inner['x'] = dyn.x.copy()
        default(dyn)
        if pp == 'kick' and s['cls'] not in ('MirrorCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO'):
            dyn.x = .9 * dyn.x
    over['post_process'] = post
    if pp == 'resampling':
        res = resampling([loss_update_resampling(2)], sigma_indep=.5)

        def post2(dyn):
            post(dyn)
            res(dyn)
        over['post_process'] = post2
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)], **over)
    ctx.describe(**brief(s), stops=stops.tolist(), post=pp)
    best = np.full(M, np.inf)
    arg = [None] * M
    mem = s['cls'] in ('CBOMemory', 'PSO')
    if mem:
        best = val(dyn.x).min(axis=1)

    def on_step(pre):
        ctx.seen('steps')
        where = {}
        # memory variants evaluate after the move, the others before it
        for src in ((dyn.x, inner['x']) if mem else (pre['x'], getattr(dyn, 'x_old', pre['x']))):
            pts = np.ascontiguousarray(src).reshape(M, N, n)
            for m in range(M):
                for k in range(N):
                    where.setdefault(pts[m, k].tobytes(), set()).add(m)
        upper = best.copy()          # certainly obtained
        lower = best.copy()          # possibly obtained (points shared by runs)
        for c in rec.calls:
            pts = np.ascontiguousarray(c).reshape(-1, n)
            v = val(pts.reshape((1, -1) + tuple(s['d'])).reshape(1, -1, n))[0] if len(s['d']) == 1 else \
                f(pts.reshape((1, -1) + tuple(s['d'])))[0]
            for p, e in zip(pts, v):
                ms = where.get(p.tobytes(), ())
                for m in ms:
                    lower[m] = min(lower[m], e)
                if len(ms) == 1:
                    upper[next(iter(ms))] = min(upper[next(iter(ms))], e)
                    ctx.seen('logged_values')
        rec.clear()
        be = np.asarray(dyn.best_energy)
        tol = 1e-11 * ((s['obj']['scale'] if tiny else 1) + np.abs(np.where(np.isfinite(lower), lower, 0)))
        ctx.seen('tiny_scale', tiny)
        ctx.seen('wide_range', wide)
        ctx.check((be <= pre['best_energy']).all(), 'best-energy-increased', f"{pre['best_energy']} -> {be}")
        ctx.check(((be <= upper + tol) & (be >= lower - tol)).all(), 'best-energy-is-minimum',
                  f"it {pre['it']}: reported {be}, obtained {lower}")
        imp = be < pre['best_energy']
        ctx.seen('improvements', imp.sum())
        ctx.seen('stagnant_steps', (~imp).sum())
        if imp.any():
            ctx.sig(*signature(s), pp, bool((~imp).any()))
        check_best(be)
        best[:] = be

    def check_best(be):
        bp = np.asarray(dyn.best_particle)
        if not ctx.check(bp.shape == (M,) + tuple(s['d']), 'best-particle-shape', bp.shape):
            return
        fin = np.isfinite(be)
        v = val(bp[:, None])[:, 0]
        ctx.close(v[fin], be[fin], 'value-of-best-particle', rtol=1e-10, atol=1e-10 * (s['obj']['scale'] if tiny else 1))

    rec.clear()
    n_steps, out = advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize', 'optimize']),
                           sched='default' if chance(rng, .3) else None)
    if out is not None:
        ctx.seen('results')
        ctx.equal(np.asarray(out), np.asarray(dyn.best_particle), 'returned-result')
        fin = np.isfinite(dyn.best_energy)
        ctx.close(val(np.asarray(out)[:, None])[:, 0][fin], np.asarray(dyn.best_energy)[fin], 'value-of-result',
                  rtol=1e-10, atol=1e-10)


def resumed(ctx, rng):
    """the best is kept over a reset and a second optimization and is not changed by moving the ensemble afterwards"""
    s = gen_spec(rng, classes=BASE)
    law = Law(s, objective(s))
    dyn, rec, smp = build(s, term_criteria=[{'name': 'max-it', 'max_it': 3}])
    ctx.describe(**brief(s))
    advance(dyn, smp, lambda p: None)
    be, bp = dyn.best_energy.copy(), dyn.best_particle.copy()
    dyn.reset()
    # the best position is not a view of the ensemble
    dyn.x[...] = dyn.x + (1e-3 if s['cls'] not in ('HyperSurfaceCBO', 'MirrorCBO') else 0)
    ctx.equal(dyn.best_particle, bp, 'best-particle-aliases-ensemble')
    advance(dyn, smp, lambda p: None, mode='optimize')
    ctx.check((dyn.best_energy <= be).all(), 'best-energy-increased', 'after reset')
    same = dyn.best_energy == be
    ctx.equal(dyn.best_particle[same], bp[same], 'best-particle-changed-without-improvement')
    ctx.close(law.objective_on(dyn.best_particle[:, None])[:, 0], dyn.best_energy, 'value-of-best-particle', rtol=1e-10, atol=1e-10)
    ctx.seen('results')


FAMILIES = {'log': (case, 1500), 'resumed': (resumed, 150)}
