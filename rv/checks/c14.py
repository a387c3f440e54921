"""C14: constraint functions, derivatives and implicit steps are consistent."""
import copy

import numpy as np

from cbx.constraints import get_constraints, MultiConstraint, NoConstraint

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, random_constraints
from ..drive import advance, moved
from ..ref import Law, RefConstraint

RULE = ('random planes, spheres and (non-symmetric) quadrics, lists of them, points of magnitude 1e-3 to 1e3, ensembles of any shape: '
        'values against formulas, derivatives against central differences of the real value function, solves by substitution into '
        'the linear system; every step of random histories of the constrained dynamics against the semi-implicit update evaluated '
        'from the state before the step. Distinct by constraint types, shapes and configuration.')
REQUIRE = {'derivatives': 250, 'solves': 500, 'lists': 200, 'steps_dc': 200, 'steps_rc': 200, 'steps_no_constraint': 100,
           'steps_subset': 50, 'steps_batched': 100, 'moved': 500, 'nonsymmetric': 40}
ASSUMPTIONS = ['steps whose linear system has a condition number above 1e8 or that start beyond 1e5 are not compared']


def lib(cs):
    return get_constraints([None if c is None else dict(c) for c in cs])


def pts(rng, n):
    M, N = sz(rng, 1, 4, BM), sz(rng, 1, 5, BN)
    x = rng.uniform(-1, 1, (M, N, n)) * 10.**rng.integers(-2, 3)
    if chance(rng, .2):
        x[0, 0] = 0.
    return x


def derivatives(ctx, rng):
    n = sz(rng, 1, 6, BD)
    k = 0
    cs = []
    while not cs:
        cs = random_constraints(rng, n)
    c = cs[0]
    if c['name'] == 'quadric' and chance(rng, .3):
        c.pop('b')
    if c['name'] == 'quadric' and chance(rng, .3):
        c.pop('c')
    if c['name'] == 'quadric':
        ctx.seen('nonsymmetric')
    keep = copy.deepcopy(c)
    g, ref = lib([c])[0], RefConstraint(c)
    x = pts(rng, n)
    x0 = x.copy()
    ctx.describe(constraint=c['name'], n=n, shape=x.shape)
    s = 1 + np.abs(x).max()**2
    v = np.asarray(g(x))
    ctx.close(v, ref.value(x), 'value', c['name'], rtol=1e-9, atol=1e-9 * s, stop=True)
    ctx.close(np.asarray(g.squared(x)), ref.value(x)**2, 'square', c['name'], rtol=1e-8, atol=1e-9 * s**2)
    # central differences of the real value function: exact for quadratic functions up to rounding
    h = max(1., np.abs(x).max()) * 1e-2
    I = np.eye(n)
    fd = np.stack([(np.asarray(g(x + h * I[i])) - np.asarray(g(x - h * I[i]))) / (2 * h) for i in range(n)], axis=-1)
    gr = np.asarray(g.grad(x)) + np.zeros(x.shape)
    sc = 10 * s / h * 1e-10
    ctx.close(gr, fd, 'gradient', c['name'], rtol=1e-7, atol=1e-7 + sc)
    ctx.close(np.asarray(g.grad_squared(x)) + np.zeros(x.shape), 2 * v[..., None] * fd, 'gradient-of-square', c['name'], rtol=1e-7,
              atol=1e-7 * s * (1 + np.abs(x).max()))
    H = np.empty(x.shape + (n,))
    v0 = np.asarray(g(x))
    for i in range(n):
        for j in range(n):
            H[..., i, j] = (np.asarray(g(x + h * (I[i] + I[j]))) - np.asarray(g(x + h * (I[i] - I[j]))) - np.asarray(
                g(x - h * (I[i] - I[j]))) + np.asarray(g(x - h * (I[i] + I[j])))) / (4 * h * h)
    hs = np.broadcast_to(np.asarray(g.hessian(x)), x.shape + (n,))
    ctx.close(hs, H, 'hessian', c['name'], rtol=1e-6, atol=1e-6 + 1e-11 * s / h**2)
    H2 = 2 * (fd[..., :, None] * fd[..., None, :] + v[..., None, None] * H)
    ctx.close(np.broadcast_to(np.asarray(g.hessian_squared(x)), H2.shape), H2, 'hessian-of-square', c['name'], rtol=1e-6,
              atol=1e-6 * s * (1 + s))
    ctx.close(np.broadcast_to(np.asarray(g.call_times_hessian(x)), H2.shape), v[..., None, None] * H, 'value-times-hessian', c['name'],
              rtol=1e-6, atol=1e-6 * s)
    # the true gradient of the square, by differences of the square
    hh = 1e-4 * max(1., np.abs(x).max())
    f2 = np.stack([(np.asarray(g.squared(x + hh * I[i])) - np.asarray(g.squared(x - hh * I[i]))) / (2 * hh) for i in range(n)], axis=-1)
    ctx.close(np.asarray(g.grad_squared(x)) + np.zeros(x.shape), f2, 'gradient-of-square', 'difference quotient', rtol=1e-4, atol=1e-4 * s * (1 + np.abs(x).max()))
    ctx.equal(x, x0, 'points-modified')
    ctx.check(repr(keep) == repr(c), 'configuration-modified')
    ctx.seen('derivatives')
    ctx.sig('der', c['name'], n, x.shape)


def residual(ctx, A, sol, rhs, kind, msg):
    """A sol = rhs"""
    cond = np.linalg.cond(A)
    r = np.einsum('...ij,...j->...i', A, sol)
    ok = cond < 1e8
    if sol.shape != rhs.shape:
        ctx.fail(kind, f'{msg}: shape {sol.shape} instead of {rhs.shape}')
        return
    sc = 1e-6 * (np.abs(rhs).max(-1) + np.abs(A).max((-1, -2)) * np.abs(sol).max(-1) + 1e-9)
    bad = (np.abs(r - rhs).max(-1) > sc) & ok
    ctx.check(not bad.any(), kind, f'{msg}: residual {np.abs(r - rhs).max(-1)[bad][:3]} for right-hand side {np.abs(rhs).max(-1)[bad][:3]}')
    ctx.seen('solves', ok.sum())


def solves(ctx, rng):
    n = sz(rng, 1, 6, BD)
    cs = random_constraints(rng, n)
    if chance(rng, .15):
        cs = cs + random_constraints(rng, n) + random_constraints(rng, n)
    mixed = list(cs)
    for _ in range(int(rng.integers(0, 3)) if chance(rng, .3) else 0):     # missing constraints are skipped
        mixed.insert(int(rng.integers(0, len(mixed) + 1)), None)
    G = MultiConstraint(lib(mixed))
    ref = [RefConstraint(c) for c in cs]
    x = pts(rng, n)
    xt = rng.standard_normal(x.shape)
    fac = float(pick(rng, [1e-3, .1, 1., 10.]))
    ctx.describe(constraints=[c['name'] for c in cs], n=n, shape=x.shape, factor=fac)
    x0, xt0 = x.copy(), xt.copy()
    z = np.zeros(x.shape[:-1])
    s = 1 + np.abs(x).max()**4
    v = sum((r.value(x) for r in ref), z)
    v2 = sum((r.value(x)**2 for r in ref), z)
    g2 = sum((2 * r.value(x)[..., None] * r.grad(x) for r in ref), np.zeros(x.shape))
    I = np.zeros(x.shape + (n,))
    h2 = sum((2 * (r.grad(x)[..., :, None] * r.grad(x)[..., None, :] + r.value(x)[..., None, None] * r.hess(x)) for r in ref), I)
    h = sum((r.hess(x) for r in ref), I)
    vh = sum((r.value(x)[..., None, None] * r.hess(x) for r in ref), I)
    full = lambda a, sh: np.asarray(a) + np.zeros(sh)
    a = 1e-9 * s
    ctx.close(full(G(x), z.shape), v, 'sum', 'value', rtol=1e-9, atol=a)
    ctx.close(full(G.squared(x), z.shape), v2, 'sum', 'square', rtol=1e-9, atol=a)
    ctx.close(full(G.grad_squared_sum(x), x.shape), g2, 'sum', 'gradient of square', rtol=1e-9, atol=a)
    ctx.close(full(G.hessian_squared_sum(x), I.shape), h2, 'sum', 'hessian of square', rtol=1e-9, atol=a)
    ctx.close(full(G.hessian_sum(x), I.shape), h, 'sum', 'hessian', rtol=1e-9, atol=1e-9)
    ctx.close(full(G.call_times_hessian_sum(x), I.shape), vh, 'sum', 'value times hessian', rtol=1e-9, atol=a)
    ctx.seen('lists')
    E = np.eye(n)
    residual(ctx, E + fac * h2, np.asarray(G.solve_Id_hessian_squared_sum(x, xt, factor=fac)), xt, 'solve', 'Id + hessian of square')
    residual(ctx, E + fac * vh, np.asarray(G.solve_Id_call_times_hessian(x, xt, factor=fac)), xt, 'solve', 'Id + value*hessian')
    if len(cs) <= 1:
        # x' = x_tilde - 2 factor g(x) grad g(x')
        r = ref[0] if cs else None
        val = r.value(x) if cs else z
        A = E + 2 * fac * val[..., None, None] * (r.hess(x) if cs else I)
        b = xt - 2 * fac * val[..., None] * (r.grad(np.zeros_like(x)) if cs else 0.)
        residual(ctx, np.broadcast_to(A, I.shape), np.asarray(G.solve_Id_plus_call_grad(x, xt, factor=fac)), b, 'solve', 'Id + value*gradient')
    else:
        try:
            G.solve_Id_plus_call_grad(x, xt, factor=fac)
            ctx.fail('unsupported-accepted', 'several constraints in solve_Id_plus_call_grad')
        except ValueError:
            pass
    ctx.equal(x, x0, 'points-modified')
    ctx.equal(xt, xt0, 'points-modified')
    nc = NoConstraint()
    ctx.check(not np.any(nc(x)) and nc(x).shape == z.shape and not np.any(nc.grad(x)) and not np.any(nc.hessian_squared(x)), 'no-constraint')
    ctx.sig('solve', tuple(c['name'] for c in cs), n, x.shape, fac)


class Neg:
    def __init__(self, smp):
        self.smp = smp

    def numbers(self, size):
        return -self.smp.numbers(size)


def step(ctx, rng):
    s = gen_spec(rng, classes=['DriftConstrainedCBO', 'RegCombinationCBO'], indep=True)
    kw = s['kw']
    if s['cls'] == 'RegCombinationCBO' and chance(rng, .3):
        kw['eps'] = float(pick(rng, [5e3, 1e6, 1e12]))
    if s['cls'] == 'DriftConstrainedCBO' and chance(rng, .15):
        kw['eps'] = float(pick(rng, [1e-7, 1e-5, 1e4]))
    if s['cls'] == 'RegCombinationCBO' and chance(rng, .15):
        kw['nu'] = float(pick(rng, [1e-3, 30.]))
    if kw.get('constraints') and chance(rng, .1):
        i = int(rng.integers(0, len(kw['constraints']) + 1))
        kw['constraints'] = kw['constraints'][:i] + [None] + kw['constraints'][i:]
    if not kw.get('constraints') and chance(rng, .5):
        kw['constraints'] = [None]
    cons = [c for c in (kw.get('constraints') or []) if c is not None]
    ref_spec = copy.deepcopy(s)
    ref_spec['kw']['constraints'] = cons
    law = Law(ref_spec, objective(s))
    plain = copy.deepcopy(ref_spec)
    plain['cls'] = 'CBO'
    l2, l3 = Law(plain, objective(s)), Law(plain, objective(s))
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops)
    sched = param_sched(rng, 'dt', 'lamda', 'sigma', 'alpha')
    law.fixed = l2.fixed = l3.fixed = sched is None

    def on_step(pre):
        if np.abs(pre['x']).max() > 1e5:
            ctx.seen('steps_exploded')      # rounding decides
            return
        if kw.get('sigma_indep'):
            pre = dict(pre, x=np.asarray(dyn.x_old).copy())      # the independent noise comes first
            ctx.seen('steps_indep')
        out = law.predict(dyn, pre, smp)
        C, P = out['C'], out['P']
        cond = np.ones(s['M'] * s['N'])
        if len(cons) or s['cls'] == 'RegCombinationCBO':
            cond[P] = np.broadcast_to(law.last_cond, P.shape)
        ok = (cond < 1e8).reshape(s['M'], s['N'])
        x = out['x']
        scale = 1 + np.abs(x).max(-1, keepdims=True)
        ctx.close(dyn.x / scale, x / scale, 'step', f'iteration {pre["it"]} {[c["name"] for c in cons]}', rtol=1e-6, atol=1e-8,
                  mask=ok[..., None], stop=True)
        if not cons:
            # the plain consensus step
            o2, o3 = l2.predict(dyn, pre, smp), l3.predict(dyn, pre, Neg(smp))
            # the symmetric noise may enter with either sign
            w = o2['x'] if np.allclose(dyn.x, o2['x'], rtol=1e-9, atol=1e-10) else o3['x']
            ctx.close(dyn.x, w, 'no-constraint-step', f'iteration {pre["it"]}', rtol=1e-9, atol=1e-10)
            ctx.seen('steps_no_constraint')
        sel = np.zeros(s['M'] * s['N'], bool)
        sel[P.ravel()] = True
        mv = moved(dyn.x, pre['x'])
        ctx.check(not (mv & ~sel.reshape(mv.shape)).any(), 'unselected-particle-moved')
        ctx.seen('moved', mv.sum())
        ctx.seen('steps_dc' if s['cls'] == 'DriftConstrainedCBO' else 'steps_rc')
        if len(pre['active']) < s['M']:
            ctx.seen('steps_subset')
        if P.shape[1] < s['N']:
            ctx.seen('steps_batched')
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)
    ctx.sig(*signature(s), tuple(c['name'] for c in cons), kw['eps'])


FAMILIES = {'derivatives': (derivatives, 300), 'solves': (solves, 300), 'step': (step, 700)}
