"""C23: plots show the data of the chosen run, iteration and dimensions."""
import copy
import os
import shutil
import tempfile

import numpy as np

import matplotlib
matplotlib.use('Agg')
from matplotlib.figure import Figure      # noqa: E402
import matplotlib.pyplot as plt           # noqa: E402

import cbx.plotting as cp                 # noqa: E402

from ..gen import sz, gen_spec, build, pick, chance, brief, signature, Obj, PatternTerm, index_pairs, TickSampler   # noqa: E402
from ..drive import Watch                 # noqa: E402

RULE = ('live plots next to random histories and plots of recorded histories (all dynamics with a drift, batches, several runs, one to '
        'five dimensions, random pairs of dimensions): artist offsets, arrow roots and tips after every update against the state of '
        'the chosen run; filled contours: every polygon vertex of the background lies in the level range of its band; dynamic and '
        'history are compared before and after; distinct signatures = configuration x plot options')
REQUIRE = {'frames': 800, 'frames_consensus': 400, 'frames_drift': 300, 'frames_batched': 100, 'history_frames': 400, 'contours': 60,
           'lines': 30, 'run_plots': 15, 'saved': 5, 'live_1d': 30}
ASSUMPTIONS = ['filled contours are linear interpolations on the documented grid (linear and quadratic objectives)',
               'before the first step there is no consensus or drift to be shown']


def offsets(a):
    return np.ma.filled(np.asarray(a.get_offsets(), dtype=float), np.nan)


def axes():
    return Figure().subplots()


def pairs(shape, idx):
    ids = np.arange(shape[0] * shape[1]).reshape(shape[:2])
    return np.asarray(ids[idx])


def frame(ctx, p, dims, run, row, x, c, dr, pidx, f, energy_1d, where, either=None):
    """compares the artists with positions x (M,N,d), consensus and drift rows (active,...,d)"""
    M, N, d = x.shape
    got = offsets(p.scx)

    def expect(x):
        if d == 1:
            return np.stack([x[run, :, 0], f(x)[run] if energy_1d else np.zeros(N)], axis=-1)
        return x[run][:, dims]
    want = expect(x)
    if either is not None and got.shape == want.shape and not np.allclose(got, want):
        want = expect(either)
    ctx.close(got, want, 'particle-artist', where, rtol=1e-9, atol=1e-12)
    ctx.seen('frames')
    if c is not None and p.plot_consensus:
        got = offsets(p.scc)
        want = np.stack([c[row, :, 0], np.zeros(c.shape[1])], axis=-1) if d == 1 else c[row][:, dims]
        ctx.close(got, want, 'consensus-artist', where, rtol=1e-9, atol=1e-12)
        ctx.seen('frames_consensus')
    if dr is not None and d > 1 and p.plot_drift:
        q = p.quiver
        root = x.reshape(M * N, d)[pairs(x.shape, pidx)[row]]
        ctx.close(offsets(q), root[:, dims], 'drift-root', where, rtol=1e-9, atol=1e-12)
        U, V = np.asarray(q.U, float).ravel(), np.asarray(q.V, float).ravel()
        want = -dr[row][:, dims]
        if ctx.check(U.shape == V.shape == want[:, 0].shape, 'drift-arrows', f'{where}: {U.shape} arrows instead of {want.shape[0]}'):
            ctx.close(np.stack([U, V], -1), want, 'drift-arrows', where, rtol=1e-9, atol=1e-12)
        # arrows are drawn to scale, so that they end at the consensus
        ctx.check(q.scale == 1 and q.scale_units == 'xy' and q.angles == 'xy', 'drift-scale', f'{q.scale} {q.scale_units} {q.angles}')
        ctx.seen('frames_drift')
        if root.shape[0] < N:
            ctx.seen('frames_batched')


CLS = ['CBO', 'CBO', 'CBOMemory', 'PSO', 'CBS', 'DriftConstrainedCBO', 'HyperSurfaceCBO', 'MirrorCBO', 'PolarCBO', 'RegCombinationCBO',
       'AdamCBO']


def options(rng, d):
    dims = None
    if d > 1 and chance(rng, .7):
        dims = [int(i) for i in rng.permutation(d)[:2]]
    return dims, chance(rng, .7), chance(rng, .7), chance(rng, .6)


def setup(rng):
    s = gen_spec(rng, classes=CLS, multi=False, steps=int(rng.integers(2, 5)), f_dims=['1D', '2D', '3D'], zoom=0.)
    if s['cls'] == 'RegCombinationCBO':
        s['kw']['constraints'] = None      # the promoted objective is not the plain one
    s['obj']['kind'] = 'quad'
    return s


def objargs(rng, d, small=True):
    a = {}
    if chance(rng, .6):
        a.update(x_min=float(rng.uniform(-3, -1)), x_max=float(rng.uniform(1, 3)))
    if d > 1 and chance(rng, .4):
        a['y_min'] = float(pick(rng, [0., -2., -.5]))
    if d > 1 and chance(rng, .4):
        a['y_max'] = float(pick(rng, [0. if a.get('y_min', -1.) < 0 else 2., 2., 1.5]))
    a['num_pts'] = sz(rng, 4, 12, [61, 75, 120])
    return a


def window(a):
    x0, x1 = a.get('x_min', -1.), a.get('x_max', 1.)
    y0, y1 = a.get('y_min'), a.get('y_max')
    return x0, x1, x0 if y0 is None else y0, x1 if y1 is None else y1


def limits(ctx, p, a, d):
    x0, x1, y0, y1 = window(a)
    ctx.close(p.ax.get_xlim(), (x0, x1), 'window', 'x limits')
    if d > 1:
        ctx.close(p.ax.get_ylim(), (y0, y1), 'window', 'y limits')


def live(ctx, rng):
    s = setup(rng)
    d = s['d'][0]
    dims, pc, pd, e1 = options(rng, d)
    run = int(rng.integers(s['M']))
    k0 = int(rng.integers(0, 3))
    a = objargs(rng, d)
    own = {'color': 'red'} if chance(rng, .3) else None
    ctx.describe(**brief(s), dims=dims, run=run, warm=k0, consensus=pc, drift=pd, energy_1d=e1, objective_args=a)
    dyn, rec, smp = build(s)
    twin, _, smp2 = build(s)

    def step():
        smp.tick += 1
        smp2.tick += 1
        dyn.step()
        twin.step()
    for _ in range(k0):
        step()
    ax = axes()
    args = dict(objective_args=a, particle_args=dict(s=3), consensus_args=dict(s=5))
    if own:
        args['drift_args'] = own
    keep = copy.deepcopy(args)
    w = Watch(dyn)
    run_kw = {} if run == 0 and chance(rng, .5) else dict(num_run=run)
    p = cp.PlotDynamic(dyn, dims=dims, ax=ax, plot_consensus=pc, plot_drift=pd, eval_energy_1d=e1, **run_kw, **args)
    p.init_plot()
    D = dims or [0, 1]
    f = rec.f
    limits(ctx, p, a, d)
    if k0 > 0:
        frame(ctx, p, D, run, run, dyn.x_old, dyn.consensus, dyn.drift, dyn.particle_idx, f, e1, 'initial plot')
    else:
        frame(ctx, p, D, run, run, dyn.x, None, None, None, f, e1, 'initial plot')
    background(ctx, p.ax, f, d, D, a)
    for i in range(s['steps']):
        step()
        w2 = Watch(dyn)
        p.update(wait=1e-6)
        frame(ctx, p, D, run, run, dyn.x_old, dyn.consensus, dyn.drift, dyn.particle_idx, f, e1, f'update {i}')
        w2.verify(ctx, f'update {i}')
    if k0 == 0 and s['steps'] == 0:
        w.verify(ctx, 'initial plot')
    ctx.equal(dyn.x, twin.x, 'plot-changes-trajectory')
    ctx.equal(dyn.num_f_eval, twin.num_f_eval, 'plot-changes-trajectory', 'evaluations')
    ctx.equal(dyn.best_energy, twin.best_energy, 'plot-changes-trajectory', 'best energy')
    ctx.check(args == keep, 'caller-arguments-modified', str(args))
    if d == 1:
        ctx.seen('live_1d')
    ctx.sig('live', *signature(s), str(dims), pc, pd, k0 > 0, run)


def background(ctx, ax, f, d, dims, a):
    """the objective in the background of a plot, f: (M,N,d)->(M,N)"""
    from matplotlib.contour import QuadContourSet
    x0, x1, y0, y1 = window(a)
    if d == 1:
        if not ctx.check(len(ax.lines) >= 1, 'background-missing'):
            return
        X, Y = (np.asarray(v, float) for v in (ax.lines[0].get_xdata(), ax.lines[0].get_ydata()))
        ctx.close([X.min(), X.max()], [x0, x1], 'background-window', '1D')
        ctx.close(Y, f(X[None, :, None])[0], 'background-values', '1D')
        ctx.check(len(X) == a.get('num_pts', 200), 'background-resolution', str(len(X)))
        ctx.seen('lines')
        return
    cs = [c for c in ax.collections if isinstance(c, QuadContourSet)]
    if not ctx.check(len(cs) >= 1, 'background-missing'):
        return
    contour(ctx, cs[0], f, d, dims, (x0, x1, y0, y1), a.get('num_pts', 50))


def contour(ctx, cf, f, d, dims, win, num):
    x0, x1, y0, y1 = win
    hx, hy = (x1 - x0) / (num - 1), (y1 - y0) / (num - 1)
    tol = 1.1 * (hx**2 + hy**2)        # interpolation error of quadratics with second derivatives up to 4, two directions
    L = np.asarray(cf.levels)
    V = []
    for i, path in enumerate(cf.get_paths()):
        if path.codes is not None:
            v = path.vertices[path.codes != 79]
        else:
            v = path.vertices
        if len(v) == 0:
            continue
        V.append(v)
        z = np.zeros((1, len(v), d))
        z[0][:, dims] = v
        e = f(z)[0]
        ctx.check(bool(((e >= L[i] - tol) & (e <= L[i + 1] + tol)).all()), 'background-values',
                  f'band [{L[i]}, {L[i + 1]}] contains points with values in [{e.min()}, {e.max()}]')
    if not ctx.check(len(V) > 0, 'background-missing'):
        return
    V = np.concatenate(V)
    ctx.close([V[:, 0].min(), V[:, 0].max(), V[:, 1].min(), V[:, 1].max()], list(win), 'background-window', '2D', rtol=1e-9, atol=1e-9)
    ctx.seen('contours')


def backgrounds(ctx, rng):
    """the plotting functions of objectives"""
    d = int(pick(rng, [1, 2, 3, 4]))
    kind = pick(rng, ['quad', 'linear'])
    if kind == 'quad':
        o = Obj('quad', d, rng)
        f = o
    else:
        c = rng.uniform(-2, 2, d)
        f = lambda z: (z * c).sum(-1)
    a = objargs(rng, d)
    if chance(rng, .3):
        a.pop('num_pts')
    dims = [int(i) for i in rng.permutation(d)[:2]] if d > 1 and (d > 2 or chance(rng, .5)) else None
    ctx.describe(d=d, kind=kind, args=a, dims=dims)
    keep = copy.deepcopy(a)
    ax = axes()
    use_gca = chance(rng, .15)
    if use_gca:
        ax = plt.figure().add_subplot()
    try:
        kw = {} if use_gca else dict(ax=ax)
        if d == 1:
            cp.plot_1D(f, **kw, **a)
            background(ctx, ax, f, 1, None, a)
        else:
            lev = dict(levels=int(rng.integers(3, 30))) if chance(rng, .5) else {}
            kd = dict(dims=dims) if dims is not None else {}
            cf = cp.contour_2D(f, d=d, **kw, **kd, **a, **lev)
            contour(ctx, cf, f, d, dims or [0, 1], window(a), a.get('num_pts', 50))
            background(ctx, ax, f, d, dims or [0, 1], a)
    finally:
        plt.close('all')
    ctx.check(a == keep, 'caller-arguments-modified')
    ctx.sig('bg', d, kind, sorted(a), str(dims))


class Seen(cp.PlotDynamicHistory):
    def decorate_at_ind(self, i):
        super().decorate_at_ind(i)
        self.seen_frames.append((i, offsets(self.scx), self.ax.get_title()))


def history(ctx, rng):
    s = setup(rng)
    d = s['d'][0]
    dims, pc, pd, e1 = options(rng, d)
    run = int(rng.integers(s['M']))
    own = chance(rng, .15)
    names = ['x'] + (['consensus'] if pc or chance(rng, .3) else []) + (['drift'] if pd or chance(rng, .3) else [])
    missing = chance(rng, .15)
    if missing:
        names = ['x']
    names = [str(names[i]) for i in rng.permutation(len(names))]
    a = objargs(rng, d)
    ctx.describe(**brief(s), dims=dims, run=run, consensus=pc, drift=pd, energy_1d=e1, objective_args=a, names=names, particles=own)
    dyn, rec, smp = build(s, max_it=s['steps'], track_args=dict(names=names))
    X, C, DR, PI = [dyn.x.copy()], [], [], []
    while not dyn.terminate():
        smp.tick += 1
        dyn.step()
        X.append(dyn.x.copy())
        C.append(dyn.consensus.copy())
        DR.append(dyn.drift.copy())
        PI.append(pairs(X[0].shape, dyn.particle_idx).copy())
    ids = np.arange(X[0].shape[0] * X[0].shape[1])
    f = rec.f
    kw = {}
    if own:
        X = [x + .25 for x in X]
        kw['particles'] = X
    w = Watch(dyn)
    ax = axes()
    p = Seen(dyn, num_run=run, dims=dims, ax=ax, plot_consensus=pc, plot_drift=pd, eval_energy_1d=e1, objective_args=a, **kw)
    p.seen_frames = []
    D = dims or [0, 1]
    limits(ctx, p, a, d)
    background(ctx, ax, f, d, D, a)
    if missing:
        ctx.check(not p.plot_consensus and not p.plot_drift, 'plots-of-data-that-was-not-recorded')
    ctx.check(p.max_it == len(X) - 1, 'history-length', f'{p.max_it} of {len(X) - 1}')

    def judge(i, where):
        x = X[i]
        M, N = x.shape[:2]
        want = np.stack([x[run, :, 0], f(x)[run] if e1 else np.zeros(N)], -1) if d == 1 else x[run][:, D]
        ctx.close(offsets(p.scx), want, 'particle-artist', where, rtol=1e-9, atol=1e-12)
        ctx.seen('history_frames')
        ctx.seen('frames')
        if p.plot_consensus:
            c = C[i]
            want = np.stack([c[run, :, 0], np.zeros(c.shape[1])], -1) if d == 1 else c[run][:, D]
            ctx.close(offsets(p.scc), want, 'consensus-artist', where, rtol=1e-9, atol=1e-12)
            ctx.seen('frames_consensus')
        if p.plot_drift and d > 1:
            root = x.reshape(len(ids), d)[PI[i][run]]
            ctx.close(offsets(p.quiver), root[:, D], 'drift-root', where, rtol=1e-9, atol=1e-12)
            got = np.stack([np.asarray(p.quiver.U, float).ravel(), np.asarray(p.quiver.V, float).ravel()], -1)
            ctx.close(got, -DR[i][run][:, D], 'drift-arrows', where, rtol=1e-9, atol=1e-12)
            ctx.seen('frames_drift')
            if root.shape[0] < N:
                ctx.seen('frames_batched')
    judge(0, 'initial plot')
    for i in rng.permutation(p.max_it):
        p.plot_at_ind(int(i))
        judge(int(i), f'index {i}')
    if chance(rng, .3):
        freq = int(rng.integers(1, 4)) if chance(rng, .8) else int(rng.integers(4, 12))
        save = None
        tmp = tempfile.mkdtemp(prefix='rv-c23-')
        try:
            if chance(rng, .5):
                save = dict(fname=os.path.join(tmp, 'frame_'), dpi=20)
                keep = dict(save)
                plt.figure(p.ax.figure) if False else None
            p.run_plots(freq=freq, wait=1e-6, save_args=save)
            want = [i for i in range(p.max_it) if i % freq == 0]
            ctx.check([q[0] for q in p.seen_frames] == want, 'frames-shown', f'{[q[0] for q in p.seen_frames]} instead of {want}')
            for i, o, title in p.seen_frames:
                x = X[i]
                ref = np.stack([x[run, :, 0], f(x)[run] if e1 else np.zeros(x.shape[1])], -1) if d == 1 else x[run][:, D]
                ctx.close(o, ref, 'particle-artist', f'animation frame {i}', rtol=1e-9, atol=1e-12)
                ctx.check(str(i) in title, 'title', f'{title!r} at {i}')
            if save is not None:
                files = sorted(os.listdir(tmp))
                ctx.check(files == sorted(f'frame_{i}.png' for i in want), 'saved-frames', str(files))
                ctx.check(save == keep, 'caller-arguments-modified')
                ctx.seen('saved')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            plt.close('all')
        ctx.seen('run_plots')
    w.verify(ctx, 'history')
    ctx.sig('history', *signature(s), str(dims), pc, pd, run, own, missing)


def rejected(ctx, rng):
    """what can not be plotted is rejected"""
    s = gen_spec(rng, classes=['CBO'], multi=False)
    dyn, _, _ = build(s, max_it=2, track_args=dict(names=['energy']))
    try:
        cp.PlotDynamicHistory(dyn, ax=axes())
        ctx.fail('missing-history-accepted')
    except RuntimeError:
        pass
    s = gen_spec(rng, classes=['CBO'], multi=True)
    dyn, _, _ = build(s)
    try:
        cp.PlotDynamic(dyn, ax=axes())
        ctx.fail('several-axes-accepted', str(s['d']))
    except ValueError:
        pass
    ctx.describe(d=s['d'])
    ctx.seen('rejected')
    ctx.sig('rejected', s['d'])


def terminated(ctx, rng):
    """after another run has terminated (known finding: rows of consensus and drift belong to active runs only)"""
    from cbx.dynamics import CBO
    f = lambda x: ((x - .2)**2).sum(-1)
    x = np.random.default_rng(0).uniform(-1, 1, (3, 5, 2))
    dyn = CBO(f, f_dim='3D', x=x, verbosity=0, term_criteria=[PatternTerm([1, 4, 4])], sampler=TickSampler(1),
              track_args=dict(names=['x', 'consensus', 'drift']), sigma=.2)
    p = None
    ok = True
    why = ''
    while not dyn.terminate():
        dyn.sampler.tick += 1
        dyn.step()
        if p is None:
            p = cp.PlotDynamic(dyn, num_run=1, ax=axes(), plot_consensus=True, plot_drift=True)
            p.init_plot()
        p.update(wait=1e-6)
        row = int(np.searchsorted(dyn.active_runs_idx, 1))
        if not (np.allclose(offsets(p.scc), dyn.consensus[row]) and np.allclose(offsets(p.quiver), dyn.x_old[1])):
            ok, why = False, f'live plot at iteration {dyn.it}'
    ctx.describe(runs=3, plotted_run=1, first_run_terminates_at=1)
    h = cp.PlotDynamicHistory(dyn, num_run=1, ax=axes(), plot_consensus=True, plot_drift=True)
    h.plot_at_ind(2)
    if not np.allclose(offsets(h.quiver), dyn.history['x'][2][1]):
        ok, why = False, 'plot of the history'
    ctx.check(ok, 'wrong-run-after-termination', why)
    ctx.seen('terminated')


def sparse(ctx, rng):
    """history with a save interval (known finding: positions and consensus of an entry belong to different iterations)"""
    from cbx.dynamics import CBO
    f = lambda x: ((x - .2)**2).sum(-1)
    x = np.random.default_rng(0).uniform(-1, 1, (1, 5, 2))
    dyn = CBO(f, f_dim='3D', x=x, verbosity=0, max_it=9, sampler=TickSampler(1),
              track_args=dict(names=['x', 'consensus', 'drift'], save_int=3), sigma=.2)
    dyn.optimize()
    h = cp.PlotDynamicHistory(dyn, ax=axes(), plot_consensus=True, plot_drift=True)
    h.plot_at_ind(1)
    tips = offsets(h.quiver) + np.stack([h.quiver.U, h.quiver.V], -1)
    ctx.describe(save_int=3)
    ctx.check(np.allclose(tips, offsets(h.scc)), 'arrows-miss-consensus-of-sparse-history', 'arrows from the particles do not end at the consensus')
    ctx.seen('sparse')


FAMILIES = {'live': (live, 220), 'history': (history, 220), 'backgrounds': (backgrounds, 120), 'rejected': (rejected, 10),
            'terminated': (terminated, 1), 'sparse': (sparse, 1)}
