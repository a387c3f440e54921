"""C16: mirror maps are consistent and mirror iterates stay feasible."""
import copy

import numpy as np

import cbx.dynamics as cd
from cbx.dynamics import mirrorcbo as mc

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import param_sched, gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops, start, TickSampler, RecObj
from ..drive import advance, moved
from ..ref import Law

RULE = ('all mirror maps with random parameters on dual points of magnitude 0 to 1e8 (incl. zeros, ties, coordinate axes): feasibility, '
        'nearest-point and idempotence of projections, inverse and monotonicity relations, derivatives; every step of random '
        'mirror histories against the consensus step on the dual variable and an independent image map; mirror twins with the '
        'unit quadratic map against plain CBO. Distinct by map, parameters, shapes, configuration.')
REQUIRE = {'maps_feasible': 3000, 'projection_maps': 200, 'nearest_competitors': 1000, 'inverse': 500, 'monotone': 500, 'derivatives': 200,
           'steps': 500, 'steps_subset': 50, 'steps_batched': 100, 'moved': 500, 'plain_twins': 50, 'prox': 50, 'bregman': 200}
ASSUMPTIONS = ['the entropy map is used with dual values below 500 (its image grows exponentially)',
               'the map weighted_L2 announces itself as not implemented and is not covered']

NAMES = ['ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare', 'ProjectionStiefel', 'LogBarrierBox',
         'NonsmoothBarrier', 'L2', 'ElasticNet', 'Entropy', 'EntropySimplex']
PROJ = {'ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare', 'ProjectionStiefel'}


class RefMap:
    """independent description of a map"""

    def __init__(self, name, n, **a):
        self.name, self.n, self.a = name, n, a

    @staticmethod
    def random(rng, n, name=None):
        name = str(pick(rng, NAMES)) if name is None else name
        a = {}
        if name == 'ProjectionBall':
            if chance(rng, .7):
                a['radius'] = float(pick(rng, [.3, 1., 2.5]))
            if chance(rng, .5):
                a['center'] = pick(rng, [rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), .75, -2.])
        elif name == 'ProjectionHyperplane':
            if chance(rng, .8):
                a['a'] = rng.standard_normal(n) + .2
            if chance(rng, .7):
                a['b'] = float(rng.uniform(-1, 1))
        elif name in ('ProjectionSphere', 'ProjectionSquare'):
            if chance(rng, .7):
                a['r'] = float(pick(rng, [.4, 1., 3.]))
        elif name == 'ProjectionStiefel':
            a['nk'] = {1: (1, 1), 2: (2, 1), 3: (3, 1), 4: (2, 2), 6: (3, 2)}.get(n, (n, 1))
        elif name == 'L2':
            if chance(rng, .6):
                a['lamda'] = float(pick(rng, [.5, 1., 3.]))
        elif name == 'ElasticNet':
            if chance(rng, .7):
                a['delta'] = float(pick(rng, [.5, 2.]))
                a['lamda'] = float(pick(rng, [.2, 1.]))
        return RefMap(name, n, **a)

    def lib(self, rng):
        a = copy.deepcopy(self.a)
        if self.name == 'ProjectionStiefel':
            return mc.ProjectionStiefel(**a)
        k = pick(rng, ['dict', 'class'])
        if k == 'dict':
            return mc.get_mirror_map(dict(name=self.name, **a))
        return mc.mirror_dict[self.name](**a)

    # constraint violation of points (..., n) -> (...)
    def infeasible(self, x):
        a, k = self.a, self.name
        if k == 'ProjectionBall':
            return np.maximum(np.linalg.norm(x - a.get('center', 0.), axis=-1) - a.get('radius', 1.), 0)
        if k == 'ProjectionHyperplane':
            w = np.broadcast_to(a.get('a', 1.), (self.n,))
            return np.abs((x * w).sum(-1) - a.get('b', 0)) / np.linalg.norm(w)
        if k == 'ProjectionSphere':
            return np.abs(np.linalg.norm(x, axis=-1) - a.get('r', 1.))
        if k == 'ProjectionSquare':
            return np.abs(np.abs(x).max(-1) - a.get('r', 1.))
        if k == 'ProjectionStiefel':
            X = x.reshape(x.shape[:-1] + a['nk'])
            return np.abs(np.swapaxes(X, -1, -2) @ X - np.eye(a['nk'][1])).max((-1, -2))
        if k in ('LogBarrierBox', 'NonsmoothBarrier'):
            return np.maximum(np.abs(x).max(-1) - 1, 0)
        if k == 'Entropy':
            return np.maximum(-x.min(-1), 0)
        if k == 'EntropySimplex':
            return np.maximum(np.maximum(-x.min(-1), 0), np.abs(x.sum(-1) - 1))
        return np.zeros(x.shape[:-1])

    def competitor(self, rng, shape):
        """random feasible points"""
        a, k = self.a, self.name
        z = rng.standard_normal(shape)
        if k == 'ProjectionBall':
            u = z / np.linalg.norm(z, axis=-1, keepdims=True)
            return a.get('center', 0.) + a.get('radius', 1.) * u * rng.random(shape[:-1] + (1,))**.3
        if k == 'ProjectionHyperplane':
            w = np.broadcast_to(a.get('a', 1.), (self.n,))
            return z - (((z * w).sum(-1) - a.get('b', 0)) / (w @ w))[..., None] * w
        if k == 'ProjectionSphere':
            return a.get('r', 1.) * z / np.linalg.norm(z, axis=-1, keepdims=True)
        if k == 'ProjectionSquare':
            r = a.get('r', 1.)
            x = rng.uniform(-r, r, shape)
            i = rng.integers(0, self.n, shape[:-1])
            np.put_along_axis(x, i[..., None], np.where(rng.random(shape[:-1]) < .5, r, -r)[..., None], -1)
            return x
        if k == 'ProjectionStiefel':
            n, q = a['nk']
            Q = np.linalg.qr(z.reshape(-1, n, q))[0]
            return Q.reshape(shape)
        raise ValueError(k)

    def image(self, y):
        """the image of dual points"""
        a, k = self.a, self.name
        if k == 'ProjectionBall':
            c, r = a.get('center', 0.), a.get('radius', 1.)
            d = np.linalg.norm(y - c, axis=-1, keepdims=True)
            return np.where(d > r, c + (y - c) * (r / np.maximum(d, 1e-300)), y)
        if k == 'ProjectionHyperplane':
            w = np.broadcast_to(a.get('a', 1.), (self.n,)).astype(float)
            return y - (((y * w).sum(-1) - a.get('b', 0)) / (w @ w))[..., None] * w
        if k == 'ProjectionSphere':
            return a.get('r', 1.) * y / np.linalg.norm(y, axis=-1, keepdims=True)
        if k == 'ProjectionSquare':
            r = a.get('r', 1.)
            x = np.clip(y, -r, r)
            i = np.abs(x).argmax(-1)[..., None]
            np.put_along_axis(x, i, np.where(np.take_along_axis(x, i, -1) < 0, -r, r), -1)
            return x
        if k == 'LogBarrierBox':
            return y / (1 + np.hypot(1, y))
        if k == 'NonsmoothBarrier':
            ay = np.maximum(np.abs(y), 1.)
            return np.sign(y) * (1 - 1 / np.sqrt(ay))
        if k == 'L2':
            return y / a.get('lamda', 1.)
        if k == 'ElasticNet':
            d, l = a.get('delta', 1.), a.get('lamda', 1.)
            return d * (np.maximum(y - l, 0) - np.maximum(-y - l, 0))
        if k == 'Entropy':
            return np.exp(y - 1)
        if k == 'EntropySimplex':
            e = np.exp(y - y.max(-1, keepdims=True))
            return e / e.sum(-1, keepdims=True)
        raise ValueError(k)


def dual_points(rng, name, shape):
    y = rng.standard_normal(shape) * 10.**rng.uniform(-4 if chance(rng, .8) else -14, 8, size=shape[:-1] + (1,))
    if chance(rng, .4):
        y = np.where(rng.random(shape) < .3, 0., y)
    if chance(rng, .2):
        y = np.sign(y) * np.abs(y).max(-1, keepdims=True)
    if chance(rng, .2):
        y[0, 0] = 0.
    if name == 'Entropy':
        y = np.clip(y, -1e8, 400)
    return np.clip(y, -1e8, 1e8)


def maps(ctx, rng):
    n = int(pick(rng, [1, 2, 3, 4, 6])) if chance(rng, .96) else int(pick(rng, BD))
    R = RefMap.random(rng, n)
    G = R.lib(rng)
    shape = (sz(rng, 1, 4, BM), sz(rng, 1, 6, BN), n)
    y = dual_points(rng, R.name, shape)
    y0 = y.copy()
    ctx.describe(map=R.name, n=n, shape=shape, args={k: v for k, v in R.a.items()})
    x = np.asarray(G.grad_conj(y))
    ctx.equal(y, y0, 'argument-modified', R.name)
    ctx.check(x.shape == shape, 'image-shape', f'{R.name}: {x.shape}', stop=True)
    ctx.check(bool(np.isfinite(x).all()), 'image-not-finite', f'{R.name}: {y[~np.isfinite(x)][:3]}', stop=True)
    sc = 1 + np.abs(x).max(-1) + (1e-4 * np.abs(y).max(-1) if R.name == 'ProjectionHyperplane' else 0.)
    bad = R.infeasible(x) > 1e-10 * sc
    ctx.check(not bad.any(), 'image-infeasible', f'{R.name}: {R.infeasible(x)[bad][:3]} for {y[bad][:2]}')
    ctx.seen('maps_feasible', x.shape[0] * x.shape[1])
    if R.name in PROJ:
        ctx.seen('projection_maps')
        again = np.asarray(G.grad_conj(x.copy()))
        ctx.close(again, x, 'projection-not-idempotent', R.name, rtol=1e-8, atol=1e-9 * sc.max())
        d = np.linalg.norm(x - y, axis=-1)
        for j in range(6):
            c = R.competitor(rng, shape)
            if j % 2 and R.name != 'ProjectionStiefel':
                c = R.image(x + 1e-2 * rng.standard_normal(shape))     # close competitors
            ctx.seen('nearest_competitors', d.size)
            ctx.check(bool((np.linalg.norm(c - y, axis=-1) >= d - 1e-9 * (1 + np.abs(y).max(-1) + np.abs(c).max(-1))).all()), 'projection-not-nearest', R.name)
        ctx.close(np.asarray(G.grad(y)), y, 'gradient-of-projection-map', R.name)
        if R.name == 'ProjectionBall':
            r, mid = R.a.get('radius', 1.), R.a.get('center', 0.)
            z = rng.standard_normal(shape)
            z = z / np.linalg.norm(z, axis=-1, keepdims=True) * r * rng.uniform(.2, 1.8, shape[:2] + (1,)) + mid
            v, nz = np.asarray(G(z)), np.linalg.norm(z - mid, axis=-1)
            far = np.abs(nz - r) > 1e-3
            want = np.where(nz > r, np.inf, .5 * np.linalg.norm(z, axis=-1)**2)
            ctx.check(bool(np.allclose(v[far], want[far])), 'indicator-value', f'{v} {want}')
    else:
        ctx.close(x, R.image(y), 'image', R.name, rtol=1e-9, atol=1e-12)
        # monotone conjugate gradient
        q = dual_points(rng, R.name, shape)
        xq = np.asarray(G.grad_conj(q))
        ip = ((x - xq) * (y - q)).sum(-1)
        ctx.check(bool((ip >= -1e-9 * np.abs((x - xq) * (y - q)).sum(-1) - 1e-13 * (1 + np.abs(y) + np.abs(q)).sum(-1)).all()), 'conjugate-gradient-not-monotone', R.name)
        ctx.seen('monotone')
    ctx.sig('map', R.name, n, shape, repr(sorted(R.a)))


def interior(rng, name, shape):
    if name in ('LogBarrierBox', 'NonsmoothBarrier'):
        return rng.uniform(-.98, .98, shape)
    if name == 'Entropy':
        return rng.uniform(.05, 5, shape)
    if name == 'EntropySimplex':
        z = rng.uniform(.02, 1, shape)
        return z / z.sum(-1, keepdims=True)
    return rng.uniform(-3, 3, shape)


def smooth(ctx, rng):
    """maps that are given by a function: gradients, inverse, monotonicity, Bregman distances"""
    n = sz(rng, 1, 5, BD)
    R = RefMap.random(rng, n, name=str(pick(rng, ['LogBarrierBox', 'NonsmoothBarrier', 'L2', 'ElasticNet', 'Entropy', 'EntropySimplex'])))
    G = R.lib(rng)
    shape = (sz(rng, 1, 4, BM), sz(rng, 1, 6, BN), n)
    ctx.describe(map=R.name, n=n, shape=shape, args=R.a)
    p, q = interior(rng, R.name, shape), interior(rng, R.name, shape)
    p = np.where(np.abs(p) < 1e-2, .1, p) if R.name in ('NonsmoothBarrier', 'ElasticNet') else p
    p0 = p.copy()
    gp, gq = np.asarray(G.grad(p)), np.asarray(G.grad(q))
    ctx.equal(p, p0, 'argument-modified', R.name)
    ctx.check(gp.shape == shape, 'gradient-shape', str(gp.shape), stop=True)
    tol = 1e-5 if R.name == 'Entropy' else 1e-8
    ctx.close(np.asarray(G.grad_conj(gp)), p, 'conjugate-gradient-does-not-invert-gradient', R.name, rtol=tol, atol=tol)
    ctx.seen('inverse', shape[0] * shape[1])
    ctx.check(bool((((gp - gq) * (p - q)).sum(-1) >= -1e-9 * np.abs((gp - gq) * (p - q)).sum(-1)).all()), 'gradient-not-monotone', R.name)
    ctx.seen('monotone')
    if R.name == 'EntropySimplex':
        return ctx.sig('smooth', R.name, n, shape)
    h = 1e-5
    I = np.eye(n)
    v = np.asarray(G(p))
    ctx.check(v.shape == shape[:2], 'value-shape', str(v.shape), stop=True)
    if np.all(np.abs(p) > 2e-3) and (R.name not in ('LogBarrierBox', 'NonsmoothBarrier') or np.all(np.abs(p) < .97)):
        fd = np.stack([(np.asarray(G(p + h * I[i])) - np.asarray(G(p - h * I[i]))) / (2 * h) for i in range(n)], axis=-1)
        ctx.close(gp, fd, 'gradient', R.name, rtol=1e-3, atol=1e-4)
        ctx.seen('derivatives')
        if R.name in ('LogBarrierBox', 'L2', 'NonsmoothBarrier'):
            z = p[0]
            H = np.asarray(G.hessian(z))
            fd = np.stack([(np.asarray(G.grad(z + h * I[i])) - np.asarray(G.grad(z - h * I[i]))) / (2 * h) for i in range(n)], axis=-1)
            if ctx.check(H.shape == z.shape + (n,), 'hessian-shape', f'{R.name}: {H.shape} for {z.shape}'):
                ctx.close(H, fd, 'hessian', R.name, rtol=1e-3, atol=1e-4)
    # convexity: Bregman distances are nonnegative and match their definition
    B = np.asarray(G.Bregman_distance(p, q))
    want = v - np.asarray(G(q)) - (gq * (p - q)).sum(-1)
    ctx.close(B, want, 'bregman', R.name, rtol=1e-9, atol=1e-9 * (1 + np.abs(gq).max()))
    ctx.check(bool((B >= -1e-6 * (1 + np.abs(v) + np.abs(gq).max())).all()), 'bregman-negative', f'{R.name}: {B.min()}')
    ctx.seen('bregman', B.size)
    if R.name == 'L2':
        ctx.close(v, R.a.get('lamda', 1.) / 2 * (p**2).sum(-1), 'value', R.name)
    if R.name == 'ElasticNet':
        ctx.close(v, (p**2).sum(-1) / (2 * R.a.get('delta', 1.)) + R.a.get('lamda', 1.) * np.abs(p).sum(-1), 'value', R.name)
    ctx.sig('smooth', R.name, n, shape)


def step(ctx, rng):
    s = gen_spec(rng, classes=['MirrorCBO'])
    mm = s['kw']['mirrormap']
    a = dict(mm) if isinstance(mm, dict) else {'name': mm}
    if a['name'] == 'ProjectionBall' and chance(rng, .4):
        a['center'] = pick(rng, [rng.uniform(-.5, .5, s['d'][-1]), rng.uniform(-.5, .5, s['d'][-1]), .5])
        s['kw']['mirrormap'] = dict(a)
    if a['name'] == 'ProjectionHyperplane' and chance(rng, .6):
        a.update(a=rng.standard_normal(s['d'][-1]) + .2, b=.3)
        s['kw']['mirrormap'] = dict(a)
    R = RefMap(n=s['d'][-1], **a)
    law = Law(s, objective(s))
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops)
    x0 = start(s)
    # the dual variable starts at the gradient
    if a['name'] in PROJ:
        ctx.close(dyn.y, x0, 'initial-dual', a['name'])
    elif a['name'] not in ('Entropy', 'NonsmoothBarrier', 'ElasticNet'):
        ctx.close(R.image(dyn.y), x0, 'initial-dual', a['name'], rtol=1e-7, atol=1e-8)
    sched = param_sched(rng, 'dt', 'lamda', 'sigma', 'alpha')
    law.fixed = sched is None

    def on_step(pre):
        out = law.predict(dyn, pre, smp)
        amb = out['amb'][(...,) + (None,) * len(s['d'])]
        scale = 1 + np.abs(pre['y'])
        ctx.close(dyn.y / scale, out['y'] / scale, 'dual-step', f'iteration {pre["it"]} {a["name"]}', rtol=1e-8, atol=1e-10, mask=~amb, stop=True)
        act = pre['active']
        want = pre['x'].copy()
        with np.errstate(all='ignore'):
            im = np.clip(R.image(dyn.y[act]), -1e8, 1e8)
        want[act] = im
        ok = np.ones(want.shape, bool)
        if a['name'] == 'ProjectionSquare':      # ties decide which coordinate is moved to the boundary
            r = a.get('r', 1.)
            c = np.sort(np.abs(np.clip(dyn.y, -r, r)), axis=-1)
            if c.shape[-1] > 1:
                ok &= ((c[..., -1] == r) | (c[..., -1] - c[..., -2] > 1e-9))[..., None]
        if a['name'] == 'ProjectionSphere':
            ok &= np.linalg.norm(dyn.y, axis=-1, keepdims=True) > 1e-9
        ctx.close(dyn.x, want, 'particles-are-not-the-image', f'iteration {pre["it"]} {a["name"]}', rtol=1e-8, atol=1e-9, mask=ok, stop=True)
        inact = np.setdiff1d(np.arange(s['M']), act)
        ctx.equal(dyn.x[inact], pre['x'][inact], 'terminated-run-changed')
        ctx.equal(dyn.y[inact], pre['y'][inact], 'terminated-run-changed')
        bad = R.infeasible(dyn.x[act])
        if a['name'] != 'Entropy':
            ctx.check(bool((bad <= 1e-8 * (1 + np.abs(dyn.y).max() * 1e-3)).all()), 'iterate-infeasible', f'{a["name"]} {bad.max()}')
        sel = np.zeros(s['M'] * s['N'], bool)
        sel[out['P'].ravel()] = True
        my = moved(dyn.y, pre['y'])
        ctx.check(not (my & ~sel.reshape(my.shape)).any(), 'unselected-dual-moved')
        ctx.seen('moved', my.sum())
        ctx.seen('steps')
        if len(inact):
            ctx.seen('steps_subset')
        if out['P'].shape[1] < s['N']:
            ctx.seen('steps_batched')
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)
    ctx.sig(*signature(s), repr(sorted((k, np.size(v)) for k, v in a.items())), a['name'])


def plain(ctx, rng):
    """with the unit quadratic map the dynamic is plain consensus-based optimization"""
    s = gen_spec(rng, classes=['MirrorCBO'])
    s['kw']['mirrormap'] = pick(rng, [None, 'None', 'L2', {'name': 'L2'}, {'name': 'L2', 'lamda': 1.}])
    s['kw']['dt'] = .05
    stops = random_stops(rng, s['M'], s['steps'])
    ctx.describe(**brief(s), stops=stops)
    a, _, sa = build(s, x=start(dict(s, cls='CBO')), term_criteria=[PatternTerm(stops)])
    t = copy.deepcopy(s)
    t['cls'] = 'CBO'
    t['kw'].pop('mirrormap')
    b, _, sb = build(t, term_criteria=[PatternTerm(stops)])
    na, _ = advance(a, sa, lambda pre: None)
    nb, _ = advance(b, sb, lambda pre: None)
    ctx.check(na == nb, 'unit-quadratic-map-differs', f'{na} {nb} steps')
    tol = 1e-5 if s['kw'].get('correction') == 'heavi_side_reg' else 1e-8
    if s['kw'].get('correction') != 'heavi_side':
        ctx.close(a.x, b.x, 'unit-quadratic-map-differs', 'x', rtol=tol, atol=tol)
        ctx.close(a.best_energy, b.best_energy, 'unit-quadratic-map-differs', 'best energy', rtol=tol, atol=tol)
    ctx.equal(a.num_f_eval, b.num_f_eval, 'unit-quadratic-map-differs', 'evaluations')
    ctx.seen('plain_twins')
    ctx.sig('plain', *signature(s))


def prox(ctx, rng):
    """projections used as post-processing: particles of active runs are feasible after every step"""
    s = gen_spec(rng, classes=['CBO', 'CBOMemory', 'AdamCBO'], multi=False)
    R = RefMap.random(rng, s['d'][0], name=str(pick(rng, ['ProjectionBall', 'ProjectionHyperplane', 'ProjectionSphere', 'ProjectionSquare'])))
    cls = mc.MirrorMaptoPostProcessProx(getattr(mc, R.name))
    stops = random_stops(rng, s['M'], s['steps'])
    before = []

    class Watched(cls):
        def __call__(self, dyn):
            before.append(np.array(dyn.x))
            super().__call__(dyn)
    dyn, _, smp = build(s, term_criteria=[PatternTerm(stops)], post_process=Watched(**copy.deepcopy(R.a)))
    plain_map = getattr(mc, R.name)(**copy.deepcopy(R.a))
    ctx.describe(**brief(s), map=R.name, args=R.a, stops=stops)

    def on_step(pre):
        act = pre['active']
        bad = R.infeasible(dyn.x[act])
        ctx.check(bool((bad <= 1e-9 * (1 + np.abs(dyn.x).max())).all()), 'post-processed-infeasible', f'{R.name} {bad.max()}')
        if ctx.check(len(before) > 0, 'post-processing-not-called'):
            want = plain_map.grad_conj(before[-1][act])
            ctx.close(dyn.x[act], want, 'post-processed-elsewhere', R.name, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()))
            before.clear()
        inact = np.setdiff1d(np.arange(s['M']), act)
        ctx.equal(dyn.x[inact], pre['x'][inact], 'terminated-run-changed')
        ctx.seen('prox')
    advance(dyn, smp, on_step)
    ctx.sig('prox', *signature(s), R.name)


FAMILIES = {'maps': (maps, 700), 'smooth': (smooth, 400), 'step': (step, 600), 'plain': (plain, 100), 'prox': (prox, 100)}
