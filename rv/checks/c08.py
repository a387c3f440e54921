"""C08: mini-batches are valid, unbiased partitions and only batches move."""
import numpy as np

from ..gen import sz, gen_spec, build, pick, chance, brief, signature, PatternTerm, random_stops, index_pairs, RecObj, Obj
from ..drive import advance, moved
import cbx.dynamics as cd

RULE = ('batches are read off the points the objective receives (bit for bit attribution to particles) in every step and fed to a '
        'trace checker: distinct indices, partition of complete shuffles, equal usage; moved and evaluated sets. Large ensembles '
        'of runs test the distribution of batches. Distinct by (class, N, size, mode, partial, active subset).')
REQUIRE = {'steps': 500, 'epochs': 200, 'straddling': 30, 'partial_steps': 100, 'full_steps': 100, 'subset_steps': 50,
           'bias_tests': 8}
ASSUMPTIONS = ['statistical tests use thresholds of more than 6 standard deviations']


def trace(ctx, rng):
    cls = pick(rng, ['CBO', 'CBO', 'AdamCBO', 'CBOMemory', 'PSO', 'MirrorCBO', 'DriftConstrainedCBO', 'PolarCBO',
                     'RegCombinationCBO', 'HyperSurfaceCBO'])
    N = sz(rng, 2, 12, [31, 41, 64, 131], .06)
    s = gen_spec(rng, classes=[cls], noises=['constant', 'isotropic'], N=N, batch=True, corrections=['no_correction'], f_dims=['3D'])
    s['x_kind'] = 'uniform'
    if cls == 'MirrorCBO':
        s['kw']['mirrormap'] = {'name': 'L2'}
    if cls == 'HyperSurfaceCBO':
        if s['d'][0] == 1:
            s['d'] = (3,)
            s['obj']['n'] = 3
        s['kw']['sdf'] = {'name': 'plane', 'a': np.ones(int(np.prod(s['d']))), 'b': 0.}
    s['kw']['noise'] = 'constant' if cls != 'HyperSurfaceCBO' else 'isotropic'
    s['kw']['sigma'] = .05
    s['kw']['sigma_memory'] = .05
    if cls not in ('CBOMemory', 'PSO'):
        s['kw'].pop('sigma_memory')
    s['kw']['dt'] = .05
    s['kw']['lamda'] = 1.
    s['kw']['eps'] = 1. if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else s['kw'].get('eps', 1e-8)
    if cls not in ('DriftConstrainedCBO', 'RegCombinationCBO', 'AdamCBO'):
        s['kw'].pop('eps')
    b = s['kw']['batch_args']
    for key in ('partial', 'var', 'seed'):
        if chance(rng, .1):
            b.pop(key, None)
    if cls == 'PolarCBO':
        s['kw']['kernel'] = 'Gaussian'
    size = b['size']
    if chance(rng, .15):
        size = b['size'] = int(N + rng.integers(0, 4))
    B = min(size, N)
    partial, var = b.get('partial', True), b.get('var', 'resample')
    M = s['M']
    steps = int(rng.integers(4, 14))
    stops = random_stops(rng, M, steps) if chance(rng, .5) else np.full(M, steps)
    s['kw']['batch_args'] = dict(b)
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)])
    ctx.describe(**brief(s), stops=stops.tolist())
    mem = cls in ('CBOMemory', 'PSO')
    seq = [[] for _ in range(M)]      # batches of every run while it was never skipped
    n = int(np.prod(s['d']))
    moves = s['kw']['noise'] == 'constant' or N > 1
    hist = [0] * M

    def on_step(pre):
        ctx.seen('steps')
        act = pre['active']
        ctx.seen('subset_steps', len(act) < M)
        ctx.sig(cls, N, B, partial, var, len(act) < M)
        C = index_pairs(dyn, dyn.consensus_idx)
        ctx.check(C.shape == (len(act), B), 'batch-shape', f'{C.shape} instead of {(len(act), B)}', stop=True)
        ctx.check((C // N == act[:, None]).all(), 'batch-of-wrong-run', stop=True)
        J = C % N
        # the batch is what is evaluated for the consensus
        if not mem:
            old = np.ascontiguousarray(pre['x']).reshape(M, N, n)
            seen = {}
            for call in rec.calls:
                for p in np.ascontiguousarray(call).reshape(-1, n):
                    seen[p.tobytes()] = seen.get(p.tobytes(), 0) + 1
            for r, m in enumerate(act):
                ev = [j for j in range(N) if old[m, j].tobytes() in seen]
                ctx.check(sorted(ev) == sorted(set(J[r].tolist())), 'evaluated-set', f'run {m}: evaluated {ev}, batch {J[r]}')
                ctx.check(all(seen[old[m, j].tobytes()] == 1 for j in ev), 'evaluated-twice', f'run {m}')
            ctx.check(sum(seen.values()) == len(act) * B, 'evaluated-points', f'{sum(seen.values())} instead of {len(act) * B}')
        rec.clear()
        # what moves
        mv = moved(dyn.x, pre['x'])
        want = np.zeros((M, N), bool)
        if partial or B == N:
            ctx.seen('partial_steps')
            for r, m in enumerate(act):
                want[m, J[r]] = True
        else:
            ctx.seen('full_steps')
            want[act] = True
        ctx.check(not (mv & ~want).any(), 'particle-outside-batch-moved', f"it {pre['it']}")
        if s['kw']['noise'] == 'constant':
            ctx.check((mv == want).all(), 'batch-particle-did-not-move', f"it {pre['it']}: {np.argwhere(want & ~mv)[:3].tolist()}")
        # trace of batches
        for r, m in enumerate(act):
            j = J[r].tolist()
            ctx.check(len(set(j)) == len(j), 'duplicate-in-batch', f'run {m} it {pre["it"]}: {j} ({var})')
            ctx.check(min(j) >= 0 and max(j) < N, 'invalid-index', j)
            if hist[m] == pre['it']:      # no step missed so far
                seq[m].append(j)
                hist[m] += 1

    rec.clear()
    advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), limit=60)
    if B == N:
        return
    for m in range(M):
        if var == 'concat':
            flat = [j for b_ in seq[m] for j in b_]
            for k in range(0, len(flat) - N + 1, N):
                ctx.seen('epochs')
                ctx.check(sorted(flat[k:k + N]) == list(range(N)), 'epoch-is-not-a-permutation', f'run {m}: {flat[k:k + N]}')
            ctx.seen('straddling', N % B != 0 and len(flat) > N)
            use = np.bincount(flat, minlength=N) if flat else np.zeros(N)
            ctx.check(use.max() - use.min() <= 1 or not len(flat), 'unequal-usage', f'run {m}: {use}')
        else:
            k = N // B
            for i in range(0, len(seq[m]), k):
                e = [j for b_ in seq[m][i:i + k] for j in b_]
                ctx.seen('epochs')
                ctx.check(len(set(e)) == len(e), 'particle-used-twice-in-a-pass', f'run {m}: {e}')


def bias(ctx, rng):
    """inclusion frequencies, independence of runs and of consecutive shuffles"""
    M, N = 4000, int(rng.integers(3, 9))
    B = int(rng.integers(1, N))
    var = pick(rng, ['resample', 'concat'])
    f = Obj('quad', 1, rng)
    x = rng.standard_normal((M, N, 1))
    dyn = cd.CBO(f, f_dim='3D', x=x, batch_args=dict(size=B, var=var, seed=int(rng.integers(10**6))), verbosity=0, sigma=.1,
                 noise='constant')
    ctx.describe(M=M, N=N, size=B, var=var)
    masks = []
    for _ in range(2 * (-(-N // B)) + 1):
        old = dyn.x.copy()
        dyn.step()
        masks.append(moved(dyn.x, old))
    ctx.seen('bias_tests')
    ctx.sig(N, B, var)
    p = B / N
    sd = np.sqrt(p * (1 - p) / M)
    for t, mk in enumerate(masks):
        ctx.check((np.abs(mk.mean(axis=0) - p) < 6.5 * sd).all(), 'inclusion-frequency',
                  f'step {t}: {mk.mean(axis=0)} instead of {p:.3f}')
        # different runs use different batches
        if 0 < B < N:
            a, b_ = mk[0::2], mk[1::2]
            agree = (a & b_).sum(1).mean() / B
            s2 = np.sqrt(p * (1 - p) / len(a) / B) * 6.5 + .02
            ctx.check(abs(agree - p) < s2, 'runs-share-batches', f'overlap {agree} instead of {p}')
    # pairs: within one batch all pairs are equally likely
    if B >= 2:
        mk = masks[0].astype(float)
        pair = (mk.T @ mk) / M
        q = B * (B - 1) / (N * (N - 1))
        off = ~np.eye(N, dtype=bool)
        ctx.check((np.abs(pair[off] - q) < 6.5 * np.sqrt(q * (1 - q) / M) + 1e-9).all(), 'pair-frequency', f'{pair[off]} vs {q}')
    # a new pass is a new shuffle
    k = -(-N // B)
    same = (masks[0] == masks[k if var == 'concat' else N // B]).all(axis=1).mean()
    if 1 < N // B or (var == 'resample' and B < N):
        from math import comb
        expect = 1 / comb(N, B)
        if var == 'resample':
            ctx.check(abs(same - expect) < .05, 'pass-is-not-reshuffled', f'{same} of the runs repeat their batch, expected {expect}')


def whole(ctx, rng):
    """size None or at least N means no batching"""
    s = gen_spec(rng, classes=['CBO', 'PSO', 'CBOMemory'], batch=False, corrections=['no_correction'])
    s['kw']['noise'] = 'constant'
    s['kw']['sigma'] = .1
    N = s['N']
    s['kw']['batch_args'] = pick(rng, [None, {}, {'size': None}, {'size': N}, {'size': N + 3}, {'size': N, 'partial': False}])
    dyn, rec, smp = build(s)
    ctx.describe(**brief(s))
    for _ in range(3):
        old = dyn.x.copy()
        smp.tick += 1
        dyn.step()
        ctx.check(moved(dyn.x, old).all(), 'batch-particle-did-not-move')
        ctx.seen('steps')


FAMILIES = {'trace': (trace, 1500), 'bias': (bias, 16), 'whole': (whole, 60)}
