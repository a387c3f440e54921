"""C24: success evaluation classifies exactly the runs meeting the criteria."""
import contextlib
import io

import numpy as np

import cbx.dynamics as cd
from cbx.utils import success as su

from ..drive import advance, Watch
from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm, random_stops, objective, start

RULE = ('random histories of every dynamic and dynamics whose best particles are placed at chosen distances around the tolerance '
        '(inside, outside, nearly on it, in every norm), evaluated by one to three criteria; reference classification run by run; '
        'printed output and unchanged state; distinct signatures = configuration x criteria x outcome')
REQUIRE = {'default_arguments': 30, 'evaluations': 500, 'runs_in': 200, 'runs_out': 200, 'close_calls': 100, 'mixed': 60, 'multi_axis': 40, 'torch': 10, 'printed': 50,
           'after_runs': 100, 'several_criteria': 100, 'equalities': 100, 'while_running': 60, 'some_running': 20}
ASSUMPTIONS = ['distances within 1e-12 (relative) of the tolerance are not judged, except equalities of dyadic numbers']


def pnorm(v, p):
    v = np.abs(np.asarray(v, dtype=np.longdouble)).ravel()
    if p == np.inf:
        return float(v.max())
    if p == -np.inf:
        return float(v.min())
    return float((v**p).sum()**(np.longdouble(1) / p))


class RefDist:
    def __init__(self, x_true, tol, p, exact=False):
        self.x_true, self.tol, self.p, self.exact = np.asarray(x_true, float).ravel(), tol, p, exact

    def __call__(self, dyn, f):
        b = np.asarray(dyn.to_numpy(dyn.best_particle), dtype=float)
        D = np.array([pnorm(b[m].ravel() - self.x_true, self.p) for m in range(dyn.M)])
        amb = np.zeros(dyn.M, bool) if self.exact else np.abs(D - self.tol) < 1e-12 * (1 + self.tol)
        return D < self.tol, amb, D


class RefValue:
    def __init__(self, t, exact=False):
        self.t, self.exact = t, exact

    def __call__(self, dyn, f):
        b = np.asarray(dyn.to_numpy(dyn.best_particle), dtype=float)
        v = np.array([float(f.value(b[m].ravel())) for m in range(dyn.M)])
        amb = np.zeros(dyn.M, bool) if self.exact else np.abs(v - self.t) < 1e-12 * (1 + abs(self.t))
        return v < self.t, amb, v


class Own:
    """a criterion of the user"""
    def __init__(self, ok):
        self.ok = np.asarray(ok)

    def __call__(self, dyn):
        idx = np.where(self.ok)[0]
        return {'idx': idx, 'num': len(idx), 'rate': len(idx) / dyn.M}


def result(ctx, res, ok, amb, M, where):
    idx = np.asarray(res['idx'])
    ctx.check(idx.ndim == 1 and len(set(idx.tolist())) == len(idx) and (len(idx) == 0 or (idx.min() >= 0 and idx.max() < M)), 'indices',
              f'{where}: {idx}', stop=True)
    got = np.zeros(M, bool)
    got[idx.astype(int)] = True
    bad = (got != ok) & ~amb
    ctx.check(not bad.any(), 'wrong-classification', f'{where}: successful runs {idx.tolist()} instead of {np.where(ok)[0].tolist()}')
    ctx.check(res['num'] == len(idx), 'number', f"{where}: {res['num']} for {idx.tolist()}")
    ctx.check(abs(res['rate'] - len(idx) / M) < 1e-12, 'rate', f"{where}: {res['rate']} for {len(idx)} of {M}")
    ctx.seen('runs_in', int(ok.sum()))
    ctx.seen('runs_out', int((~ok).sum()))
    if 0 < ok.sum() < M:
        ctx.seen('mixed')


def evaluate(ctx, rng, dyn, f, crits, refs, own=None, names=''):
    """each criterion alone, then together"""
    M = dyn.M
    w = Watch(dyn)
    oks, ambs = [], []
    for c, r in zip(crits, refs):
        ok, amb, val = r(dyn, f)
        res = c(dyn)
        result(ctx, res, ok, amb, M, type(c).__name__)
        if isinstance(r, RefDist):
            ctx.close(res['normdiff'], val, 'distances', f'norm {r.p}', rtol=1e-9, atol=1e-12)
        oks.append(ok)
        ambs.append(amb)
    if own is not None:
        crits, oks, ambs = crits + [Own(own)], oks + [own], ambs + [np.zeros(M, bool)]
    k = [int(i) for i in rng.permutation(len(crits))]
    ok, amb = np.all(oks, axis=0), np.any(ambs, axis=0)
    v = pick(rng, [None, 0, 1, 2])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ev = su.evaluation(criteria=[crits[i] for i in k], **({} if v is None else dict(verbosity=v)))
        res = ev(dyn)
    result(ctx, res, ok, amb, M, 'evaluation')
    text = buf.getvalue()
    if v == 0:
        ctx.check(text == '', 'verbosity', f'prints with verbosity 0: {text[:80]!r}')
    elif v is not None and v >= 1 or v is None:
        ctx.check(str(res['num']) in text and str(res['rate']) in text, 'verbosity', f'result is not printed with verbosity {v}')
        ctx.seen('printed')
    w.verify(ctx, 'evaluation')
    ctx.seen('evaluations')
    if len(crits) > 1:
        ctx.seen('several_criteria')
    return ok


PS = [np.inf, 2, 1, 3]


def placed(ctx, rng):
    """best particles at chosen distances"""
    M = sz(rng, 1, 8, [30, 120], .06)
    d = pick(rng, [(1,), (2,), (5,), (2, 2), (1, 3), (3, 1), (1, 1)])
    n = int(np.prod(d))
    torch_v = chance(rng, .08)
    xt = rng.uniform(-1, 1, d)
    p = pick(rng, PS)
    tol = float(pick(rng, [.25, .25, 1e-3, 2.]))
    u = rng.standard_normal((M, n))
    if chance(rng, .3):
        u = np.eye(n)[rng.integers(n, size=M)] * rng.choice([-1, 1], size=(M, 1))
    u = u / np.array([pnorm(v, p) for v in u])[:, None]
    r = tol * rng.choice([0., .5, 1 - 1e-6, 1 + 1e-6, 1.5, 40.], size=M)
    ctx.seen('close_calls', int((np.abs(r / tol - 1) < 1e-3).sum()))
    b = xt[None] + (r[:, None] * u).reshape((M,) + d)
    N = sz(rng, 1, 4, BN)
    x = np.repeat(b[:, None], N, axis=1)
    from ..gen import Obj
    f = Obj('quad', n, rng)
    calls = pick(rng, ['3D', '1D', '2D']) if len(d) == 1 and not torch_v else '3D'
    fn = {'3D': lambda z: f(np.asarray(z)), '2D': lambda z: f.value(z), '1D': lambda z: f.value(z)}[calls]
    if torch_v:
        import torch
        from cbx.utils.torch_utils import to_torch_dynamic
        dyn = to_torch_dynamic(cd.CBO)(lambda z: torch.tensor(f(z.numpy())), f_dim='3D', x=torch.tensor(x), verbosity=0)
        ctx.seen('torch')
    else:
        dyn = cd.CBO(fn, f_dim=calls, x=x, verbosity=0)
    ctx.describe(M=M, d=d, p=str(p), tol=tol, distances=r, f_dim=calls, torch=torch_v)
    form = pick(rng, ['array', 'list', 'row'])
    a = xt if form == 'array' else (xt.tolist() if form == 'list' else xt[None])
    kw = {}
    if tol != .25 or chance(rng, .5):
        kw['tol'] = tol
    if p != np.inf or chance(rng, .5):
        kw['p'] = p
    crits, refs = [su.dist_to_min(a, **kw)], [RefDist(xt, tol, p)]
    if chance(rng, .6):
        v = np.sort(f(b[:, None].reshape(M, 1, n))[:, 0])
        i = int(rng.integers(M))
        t = float(pick(rng, [v[i] + 1e-7, v[i] - 1e-7, .1, v.mean()]))
        crits.append(su.value_thresh() if t == .1 and chance(rng, .5) else su.value_thresh(thresh=t))
        refs.append(RefValue(t))
    if chance(rng, .3):
        crits, refs = crits[::-1], refs[::-1]
    if chance(rng, .3):
        p2 = pick(rng, PS)
        crits.append(su.dist_to_min(xt, tol=2 * tol, p=p2))
        refs.append(RefDist(xt, 2 * tol, p2))
    own = rng.random(M) < .7 if chance(rng, .3) else None
    ok = evaluate(ctx, rng, dyn, f, crits, refs, own)
    if len(d) > 1:
        ctx.seen('multi_axis')
    # the plain functions
    if not torch_v:
        res = su.dist_to_min_success(np.array(dyn.best_particle), xt, tol=tol, p=p)
        k, amb, D = RefDist(xt, tol, p)(dyn, f)
        result(ctx, res, k, amb, M, 'dist_to_min_success')
        if chance(rng, .3):
            # a position that is not a number is not close to anything
            bad = np.array(dyn.best_particle)
            j = int(rng.integers(M))
            bad.reshape(M, -1)[j, int(rng.integers(n))] = np.nan
            away = su.dist_to_min_success(bad, pick(rng, [xt, np.zeros(d)]), tol=pick(rng, [tol, 1e3]), p=p)
            ctx.check(j not in np.asarray(away['idx']).tolist(), 'nan-counts-as-success', f'run {j}')
            ctx.seen('not_a_number')
        t = float(f(b.reshape(M, 1, n)).mean())
        res = su.value_success(np.array(dyn.best_particle)[:, None], dyn.f, thresh=t)
        k, amb, _ = RefValue(t)(dyn, f)
        result(ctx, res, k, amb, M, 'value_success')
    ctx.sig('placed', M, d, str(p), tol, form, calls, tuple(ok.tolist()))


def runs(ctx, rng):
    """after optimizations, with runs that terminated at different times"""
    s = gen_spec(rng)
    f = objective(s)
    stops = random_stops(rng, s['M'], s['steps'])
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops)
    n = int(np.prod(s['d']))
    xt = f.shift.reshape(s['d'])

    cut = int(rng.integers(0, s['steps'])) if chance(rng, .5) else 10**9
    while dyn.it < cut and not dyn.terminate():
        smp.tick += 1
        dyn.step()
    if 0 < len(dyn.active_runs_idx):
        ctx.seen('while_running')
    if 0 < len(dyn.active_runs_idx) < s['M']:
        ctx.seen('some_running')
    b = np.asarray(dyn.best_particle, dtype=float)
    p = pick(rng, PS)
    D = np.array([pnorm(b[m].ravel() - f.shift, p) for m in range(s['M'])])
    tol = float(np.median(D)) * float(pick(rng, [1.0001, .7, 1.3])) + 1e-9
    V = np.array([float(f.value(b[m].ravel())) for m in range(s['M'])])
    t = float(np.median(V)) + float(pick(rng, [-.1, 1e-6, .3]))
    crits, refs = [su.dist_to_min(xt, tol=tol, p=p)], [RefDist(xt, tol, p)]
    if s['cls'] != 'RegCombinationCBO' or not s['kw'].get('constraints'):
        crits.append(su.value_thresh(t))
        refs.append(RefValue(t))
    w = evaluate(ctx, rng, dyn, f, crits, refs)
    ctx.seen('after_runs')
    if n != s['d'][0]:
        ctx.seen('multi_axis')
    # evaluation between two parts of an optimization has no influence
    if chance(rng, .3):
        a, _, sa = build(s, max_it=s['steps'])
        c, _, sc = build(s, max_it=s['steps'])
        buf = io.StringIO()
        while not a.terminate():
            sa.tick += 1
            sc.tick += 1
            c.terminate()
            a.step()
            c.step()
            with contextlib.redirect_stdout(buf):
                su.evaluation(criteria=crits)(a)
        ctx.equal(a.x, c.x, 'evaluation-changes-trajectory')
        ctx.equal(a.num_f_eval, c.num_f_eval, 'evaluation-changes-trajectory', 'evaluations')
        ctx.equal(a.best_energy, c.best_energy, 'evaluation-changes-trajectory', 'best energy')
    ctx.sig('runs', *signature(s), str(p), tuple(w.tolist()))


def exact(ctx, rng):
    """distances and values that equal the tolerance and the threshold are not below them (dyadic numbers, no rounding)"""
    M, d = int(rng.integers(1, 6)), int(pick(rng, [1, 2, 3]))
    xt = rng.integers(-8, 9, d) / 4.
    tol = float(pick(rng, [.25, .5, 2.]))
    p = pick(rng, [np.inf, 1, 2])
    k = rng.integers(d, size=M)
    r = tol * rng.choice([.5, 1., 1., 1.5], size=M)
    b = xt[None] + np.eye(d)[k] * (r * rng.choice([-1, 1], size=M))[:, None]

    class Line:
        """first coordinate"""
        def value(self, z):
            return np.asarray(z)[..., 0] * 1.
    f = Line()
    dyn = cd.CBO(lambda z: f.value(z), f_dim='2D', x=np.repeat(b[:, None], 2, axis=1), verbosity=0)
    t = float(b[int(rng.integers(M)), 0])
    ctx.describe(M=M, d=d, p=str(p), tol=tol, distances=r, thresh=t)
    crits, refs = [su.dist_to_min(xt, tol=tol, p=p), su.value_thresh(thresh=t)], [RefDist(xt, tol, p, True), RefValue(t, True)]
    ok = evaluate(ctx, rng, dyn, f, crits, refs)
    ctx.seen('equalities', int((r == tol).sum() + (b[:, 0] == t).sum()))
    ctx.sig('exact', M, d, str(p), tol, tuple(r.tolist()), tuple(ok.tolist()))


def defaults(ctx, rng):
    """criteria without arguments use the documented signature: distance .25 in the maximum norm, value .1"""
    M, d = int(rng.integers(1, 6)), int(pick(rng, [1, 2, 3]))
    xt = rng.integers(-8, 9, d) / 4.
    r = rng.choice([.125, .1875, .2, .3, .375, .5, 1.], size=M)
    b = xt[None] + np.eye(d)[rng.integers(d, size=M)] * (r * rng.choice([-1, 1], size=M))[:, None]
    x = np.repeat(b[:, None], 2, axis=1)
    f = lambda z: (np.asarray(z)**2).sum(-1) * .04
    ctx.describe(M=M, d=d, distances=r)
    v = f(b)
    for res, good in ((su.dist_to_min_success(b.copy(), xt), r < .25), (su.value_success(b.copy(), f), v < .1)):
        ctx.equal(np.sort(np.asarray(res['idx'])), np.where(good)[0], 'wrong-classification', 'default arguments')
    dyn = cd.CBO(f, f_dim='3D', x=x, verbosity=0)
    dyn.step()
    # the criteria judge the best particles
    bp = np.asarray(dyn.best_particle)
    for c, good in ((su.dist_to_min(xt), np.abs(bp - xt).max(-1) < .25), (su.value_thresh(), f(bp) < .1)):
        ctx.equal(np.sort(np.asarray(c(dyn)['idx'])), np.where(good)[0], 'wrong-classification', 'default arguments')
    ctx.seen('default_arguments')
    ctx.sig('defaults', M, d, tuple(r.tolist()))


FAMILIES = {'placed': (placed, 600), 'defaults': (defaults, 60), 'runs': (runs, 300), 'exact': (exact, 120)}
