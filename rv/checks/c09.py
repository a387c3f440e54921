"""C09: the recorded history is a faithful, immutable record."""
import copy

import numpy as np

from cbx.utils.history import track

from ..gen import gen_spec, build, pick, chance, brief, signature, PatternTerm, random_stops, BASE, index_pairs
from ..drive import advance

RULE = ('random histories of all dynamics with random tracked quantities and save intervals: snapshots taken by the harness around '
        'every step are the reference for the recorded entries; the same run without tracking must give the same trajectory. '
        'Distinct by configuration signature, tracked names and interval; non-trivial when something was recorded.')
REQUIRE = {'tracked_entries': 2000, 'reset_histories': 100, 'untracked_twins': 100, 'skipped_iterations': 300, 'extra': 50, 'recorded_indices': 500, 'long_histories': 8}
ASSUMPTIONS = []

KNOWN = ['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean']
ATTR = ['best_energy', 'best_particle', 'alpha', 'num_f_eval', 'sigma', 'best_cur_energy']


class Extra(track):
    """a user defined tracker"""

    def __init__(self, log):
        self.log = log

    def init_history(self, dyn):
        dyn.history['mine'] = []
        self.log.append('init')

    def update(self, dyn):
        dyn.history['mine'].append(dyn.x.mean())
        self.log.append(dyn.it)


def deep_equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b, equal_nan=True)
    return a is b or a == b


def value(dyn, key, pre):
    """the tracked quantity at the iteration that was just performed"""
    if key == 'x':
        return dyn.x.copy()
    if key == 'y':
        return dyn.y.copy()
    if key == 'energy':
        return np.copy(dyn.energy)
    if key == 'update_norm':
        # norm of the ensemble update per particle
        return np.sqrt(((dyn.x - pre['x_start'](dyn)).reshape(dyn.M, -1)**2).sum(-1)) / dyn.N
    if key == 'consensus':
        return np.copy(dyn.consensus)
    if key == 'drift':
        return np.copy(dyn.drift)
    if key == 'drift_mean':
        return np.abs(dyn.drift).mean(axis=(-2, -1))
    if key in ('alpha', 'sigma'):
        return np.copy(pre[key])       # in force in the step
    if key == 'mine':
        return dyn.x.mean()
    return np.copy(getattr(dyn, key))


def case(ctx, rng):
    s = gen_spec(rng, classes=BASE)
    k = s['steps'] = int(rng.integers(3, 12))
    if chance(rng, .03) and s['M'] * s['N'] < 60:
        k = s['steps'] = int(rng.integers(60, 130))
        s['kw']['dt'] = min(s['kw']['dt'], .02)
        ctx.seen('long_histories')
    names = [n for n in KNOWN + (['y'] if s['cls'] == 'MirrorCBO' else []) if chance(rng, .6)] + [n for n in ATTR if chance(rng, .2)]
    rng.shuffle(names)
    names = [str(n) for n in names]
    save = int(pick(rng, [1, 1, 2, 3, 5, 20]))
    log = []
    args = dict(names=names)
    if save != 1 or chance(rng, .3):
        args['save_int'] = save
    extra = chance(rng, .4)
    if extra:
        args['extra_tracks'] = [Extra(log)]
        ctx.seen('extra')
    default = chance(rng, .15)
    if default:
        names, save, extra, args = ['update_norm', 'energy'], 1, False, None
        if s['cls'] == 'CBS':
            names = []
    given = copy.copy(args)
    if given is not None:
        given = {a: (list(b) if isinstance(b, list) else b) for a, b in args.items()}
    stops = random_stops(rng, s['M'], k)
    sched = 'default' if chance(rng, .4) else None
    mode = pick(rng, ['loop', 'optimize'])
    ended = pick(rng, ['pattern', 'pattern', 'max_it', 'dict'])
    ending = dict(pattern=dict(term_criteria=[PatternTerm(stops)]), max_it=dict(max_it=k),
                  dict=dict(term_criteria=[{'name': 'max-it', 'max_it': k}, PatternTerm(stops)]))[ended]
    dyn, rec, smp = build(s, track_args=args, **ending)
    ctx.describe(**brief(s), names=names, save_int=save, extra=extra, stops=stops.tolist(), ended=ended)
    keys = names + (['mine'] if extra else [])
    want = {n: [] for n in keys}
    if 'x' in want:
        want['x'].append(dyn.x.copy())
    x_old = {}
    pidx = []

    def before(pre):
        x_old['x'] = pre['x']

    def on_step(pre):
        pre = dict(pre)
        pre['x_start'] = lambda d: x_old['x']
        if pre['it'] % save == 0:
            for n in keys:
                want[n].append(value(dyn, n, pre))
            if 'drift' in keys:        # the drift comes with the particles it belongs to
                pidx.append(index_pairs(dyn, dyn.particle_idx).copy())
        else:
            ctx.seen('skipped_iterations')
    steps, _ = advance(dyn, smp, on_step, mode=mode, sched=sched, before=before)

    def verify(when):
        h = dyn.history
        ctx.check(set(h) - {'particle_idx'} == set(keys), 'recorded-quantities', f'{when}: {sorted(h)} instead of {sorted(keys)}')
        for n in keys:
            if not ctx.check(len(h[n]) == len(want[n]), 'number-of-entries',
                             f'{when}: {n} has {len(h[n])} entries instead of {len(want[n])} after {steps} steps, save_int {save}'):
                continue
            for i, (a, b) in enumerate(zip(h[n], want[n])):
                ctx.seen('tracked_entries')
                if n in ('update_norm', 'drift_mean', 'mine'):
                    ctx.close(a, b, 'entry-differs', f'{when}: {n}[{i}]', rtol=1e-9, atol=1e-12)
                elif not ctx.equal(np.asarray(a), b, 'entry-differs', f'{when}: {n}[{i}]'):
                    break
        if 'particle_idx' in h and ctx.check(len(h['particle_idx']) == len(pidx), 'number-of-entries', f'{when}: particle_idx'):
            for i, (a, b) in enumerate(zip(h['particle_idx'], pidx)):
                ctx.seen('recorded_indices')
                a = index_pairs(dyn, a)
                ctx.check(a.shape == b.shape and np.array_equal(a, b), 'entry-differs', f'{when}: particle_idx[{i}]')
    verify('after the run')
    if any(want.values()):
        ctx.sig(*signature(s), tuple(sorted(names)), save, extra)
    # later changes of the dynamic do not reach the record
    keep = {a: np.array(getattr(dyn, a)) for a in ('x', 'energy', 'best_energy', 'best_particle') if hasattr(dyn, a)}
    for a in ('x', 'energy', 'best_energy', 'best_particle', 'consensus', 'drift', 'alpha', 'y', 'update_diff'):
        v = getattr(dyn, a, None)
        if a in ('drift', 'update_diff'):     # new arrays in every step
            continue
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            v += 17.
    verify('after changing the dynamic in place')
    for a, v in keep.items():
        getattr(dyn, a)[...] = v
    # the caller's configuration
    if args is not None:
        ctx.check(deep_equal(args, given), 'configuration-modified', f'{args} instead of {given}')
    # the same run without tracking
    if chance(rng, .5):
        d2, _, smp2 = build(s, track_args={'names': []}, **ending)
        n2, _ = advance(d2, smp2, lambda pre: None, mode=mode, sched=sched)
        ctx.seen('untracked_twins')
        ctx.check(n2 == steps, 'tracking-changes-the-run', f'{steps} steps with, {n2} without tracking')
        ctx.equal(keep['x'], d2.x, 'tracking-changes-the-run', 'x')
        ctx.equal(keep['best_energy'], d2.best_energy, 'tracking-changes-the-run', 'best_energy')
        ctx.equal(dyn.num_f_eval, d2.num_f_eval, 'tracking-changes-the-run', 'num_f_eval')
    # reset: an empty history with the same configuration
    old = dyn.history
    lens = {n: len(old[n]) for n in old}
    dyn.reset()
    ctx.seen('reset_histories')
    for n in keys:
        want[n] = [dyn.x.copy()] if n == 'x' else []
    pidx.clear()
    steps = 0
    verify('after reset')
    ctx.check({n: len(old[n]) for n in old} == lens, 'reset-modifies-old-history')
    dyn.term_criteria = [PatternTerm(np.full(s['M'], int(rng.integers(1, 5))))]
    steps, _ = advance(dyn, smp, on_step, mode=mode, before=before)
    verify('after reset and new run')
    if args is not None:
        ctx.check(deep_equal(args, given), 'configuration-modified', 'by reset')


def shared_config(ctx, rng):
    """one configuration object used for several dynamics"""
    s = gen_spec(rng, classes=BASE)
    log = []
    args = dict(names=['x', 'energy'], extra_tracks=[Extra(log)], save_int=int(pick(rng, [1, 2])))
    ctx.describe(**brief(s))
    for i in range(3):
        dyn, rec, smp = build(s, term_criteria=[PatternTerm(np.full(s['M'], 3))], track_args=args)
        n, _ = advance(dyn, smp, lambda pre: None)
        want = sum(1 for t in range(n) if t % args['save_int'] == 0)
        ctx.check(len(dyn.history['energy']) == want and len(dyn.history['x']) == want + 1 and len(dyn.history['mine']) == want,
                  'number-of-entries', f"dynamic {i}: { {k: len(v) for k, v in dyn.history.items()} }, expected {want}")
        ctx.check(len(args['extra_tracks']) == 1 and args['names'] == ['x', 'energy'], 'configuration-modified', str(args))
    ctx.seen('extra')
    ctx.sig('shared', *signature(s))


FAMILIES = {'record': (case, 1200), 'shared': (shared_config, 100)}
