"""C22: neural network parameter vectors round-trip."""
from collections import OrderedDict

import numpy as np
import torch
import torch.nn as nn

import cbx.dynamics as cd
from cbx.utils import torch_utils as tu

from ..gen import sz, BM, BN, BD  # noqa: F401
from ..gen import pick, chance

RULE = ('random stacks of models (dense, convolutional, recurrent, normalised, tied sizes, no bias, scalar parameters), all or a random '
        'subset of parameters in random order: layout partition, bit equality of the parameters cut out of the vectors, outputs, '
        'losses and accuracies against the original models; training runs of a dynamic on parameter vectors; distinct '
        'signatures = architecture x selection x batch shape')
REQUIRE = {'models': 300, 'layouts': 100, 'outputs': 300, 'losses': 300, 'accuracies': 60, 'partial': 40, 'permuted': 40, 'training': 10,
           'vectors': 100, 'many_classes': 15}
ASSUMPTIONS = ['models whose buffers do not differ; a partial selection takes the remaining parameters from the model passed for evaluation',
               'outputs of batched evaluations are compared up to the rounding of the vectorised kernels']

torch.set_num_threads(1)


class Scalar(nn.Module):
    def __init__(self, n, k):
        super().__init__()
        self.s = nn.Parameter(torch.randn(()))
        self.w = nn.Parameter(torch.randn(n, k))
        self.e = nn.Parameter(torch.randn(1, 1, 1))
        self.h = nn.Parameter(torch.randn(k, 2, 1, 2, 3))        # like the kernels of convolutions

    def forward(self, x):
        return (x * self.s) @ self.w + self.e[0] + self.h[:, 1, 0, 0, 2]


class Named(nn.Module):
    """names whose order differs from the registration order"""
    def __init__(self, n, k):
        super().__init__()
        self.zz = nn.Linear(n, 4)
        self.aa = nn.Linear(4, 4)
        self.mm = nn.Linear(4, k, bias=False)

    def forward(self, x):
        return self.mm(torch.tanh(self.aa(torch.relu(self.zz(x)))))


def make(kind, n, k=3):
    if kind == 'linear':
        return nn.Linear(n, k)
    if kind == 'mlp':
        return nn.Sequential(nn.Linear(n, 5), nn.ReLU(), nn.Linear(5, k))
    if kind == 'square':       # parameters of the same shape
        return nn.Sequential(nn.Linear(n, n), nn.Tanh(), nn.Linear(n, n), nn.Tanh(), nn.Linear(n, k, bias=False))
    if kind == 'deep':         # many parameters
        m = [nn.Linear(n, 3)]
        for _ in range(5):
            m += [nn.Tanh(), nn.Linear(3, 3)]
        return nn.Sequential(*m, nn.Tanh(), nn.Linear(3, k))
    if kind == 'conv':
        return nn.Sequential(nn.Unflatten(1, (1, n)), nn.Conv1d(1, 2, 1), nn.ReLU(), nn.Flatten(), nn.Linear(2 * n, k))
    if kind == 'conv3d':
        return nn.Sequential(nn.Unflatten(1, (1, 1, 1, n)), nn.Conv3d(1, 2, (1, 1, min(n, 2))), nn.Tanh(), nn.Flatten(), nn.Linear(2 * (n - min(n, 2) + 1), k))
    if kind == 'norm':
        return nn.Sequential(nn.Linear(n, 4), nn.LayerNorm(4), nn.Linear(4, k))
    if kind == 'scalar':
        return Scalar(n, k)
    if kind == 'named':
        return Named(n, k)
    raise ValueError(kind)


KINDS = ['linear', 'mlp', 'square', 'deep', 'conv', 'conv3d', 'norm', 'scalar', 'named']


def stack(ctx, rng, k=3):
    kind = pick(rng, KINDS)
    n = sz(rng, 1, 6, BD)
    N = int(pick(rng, [1, 2, 3, 6])) if chance(rng, .96) else 24
    dtype = pick(rng, [torch.float32, torch.float64])
    torch.manual_seed(int(rng.integers(2**31)))
    models = [make(kind, n, k).to(dtype) for _ in range(N)]
    return kind, n, N, dtype, models


def selection(rng, models):
    names = [p for p, _ in models[0].named_parameters()]
    k = pick(rng, ['all', 'all', 'permuted', 'partial'])
    if k == 'permuted':
        names = [names[i] for i in rng.permutation(len(names))]
    elif k == 'partial':
        if len(names) == 1:
            k = 'all'
        else:
            m = int(rng.integers(1, len(names)))
            names = [names[i] for i in rng.permutation(len(names))[:m]]
    return k, names


def layout(ctx, models, names, pprop, d):
    """the recorded layout partitions the vector"""
    P = dict(models[0].named_parameters())
    ctx.check(isinstance(pprop, (dict, OrderedDict)) and list(pprop) == list(names), 'layout-names', f'{list(pprop)} for {names}', stop=True)
    pos = 0
    for p in names:
        shape, a, b = pprop[p][0], pprop[p][-2], pprop[p][-1]
        ctx.check(tuple(shape) == tuple(P[p].shape), 'layout-shape', f'{p}: {tuple(shape)} instead of {tuple(P[p].shape)}')
        ctx.check(a == pos, 'layout-gap', f'{p} starts at {a}, the previous parameter ends at {pos}')
        ctx.check(b - a == P[p].numel(), 'layout-size', f'{p}: {b - a} entries for {P[p].numel()} parameters')
        pos = b
    ctx.check(pos == d, 'layout-does-not-cover', f'{pos} of {d} entries')
    ctx.seen('layouts')


def roundtrip(ctx, rng):
    kind, n, N, dtype, models = stack(ctx, rng)
    sel, names = selection(rng, models)
    B = int(pick(rng, [1, 2, 7, 7, 130]))
    ctx.describe(kind=kind, inputs=n, models=N, selection=names, dtype=str(dtype), batch=B)
    before = [{k: v.detach().clone() for k, v in m.state_dict().items()} for m in models]
    w = tu.flatten_parameters(models, names)
    P0 = dict(models[0].named_parameters())
    d = sum(P0[p].numel() for p in names)
    ctx.check(isinstance(w, torch.Tensor) and tuple(w.shape) == (N, d), 'vector-shape', f'{tuple(w.shape)} instead of {(N, d)}', stop=True)
    ctx.check(w.dtype == dtype and not w.requires_grad, 'vector-type', f'{w.dtype} {w.requires_grad}')
    named = sel != 'all' or chance(rng, .5)
    pprop = tu.get_param_properties(models, pnames=names) if named else tu.get_param_properties(models)
    layout(ctx, models, names, pprop, d)
    # every parameter is found where the layout says, bit for bit
    for i, m in enumerate(models):
        Q = dict(m.named_parameters())
        for p in names:
            cut = w[i, pprop[p][-2]:pprop[p][-1]].view(pprop[p][0])
            ctx.check(torch.equal(cut, Q[p].detach()), 'vector-entries', f'model {i}: {p}')
        ctx.seen('models')
    # outputs
    x = torch.randn(B, n, dtype=dtype)
    base = models[int(rng.integers(N))]
    refs = []
    tol = dict(rtol=1e-4, atol=1e-5) if dtype == torch.float32 else dict(rtol=1e-9, atol=1e-10)
    for i, m in enumerate(models):
        ref = make(kind, n).to(dtype)
        ref.load_state_dict(base.state_dict())
        ref.load_state_dict({p: dict(m.named_parameters())[p].detach() for p in names}, strict=False)
        refs.append(ref)
        with torch.no_grad():
            out = tu.eval_model(x, base, w[i], pprop)
            want = ref(x)
        ctx.close(out.numpy(), want.numpy(), 'outputs', f'model {i}', **(dict(rtol=1e-5, atol=1e-6) if dtype == torch.float32 else dict(rtol=1e-12, atol=1e-13)))
        ctx.seen('outputs')
    with torch.no_grad():
        outs = tu.eval_models(x, base, w, pprop)
        want = torch.stack([r(x) for r in refs])
    ctx.check(tuple(outs.shape) == tuple(want.shape), 'outputs-shape', f'{tuple(outs.shape)} instead of {tuple(want.shape)}', stop=True)
    ctx.close(outs.numpy(), want.numpy(), 'batched-outputs', kind, **tol)
    # losses
    ln = pick(rng, ['ce', 'mse', 'nll', 'own'])
    y = torch.randint(0, 3, (B,))
    if ln == 'mse':
        y = torch.randn(B, 3, dtype=dtype)
    loss = {'ce': nn.CrossEntropyLoss(), 'mse': nn.MSELoss(), 'nll': lambda o, t: nn.functional.nll_loss(torch.log_softmax(o, -1), t, reduction='sum'),
            'own': lambda o, t: (o.abs().amax(dim=-1) * (1 + t)).mean()}[ln]
    L = tu.eval_losses(x, y, loss, base, w, pprop)
    with torch.no_grad():
        want = torch.stack([loss(r(x), y) for r in refs])
    ctx.check(tuple(L.shape) == (N,), 'losses-shape', str(tuple(L.shape)), stop=True)
    ctx.close(L.numpy(), want.numpy(), 'batched-losses', f'{kind} {ln}', **tol)
    for i in range(N):
        one = tu.eval_loss(x, y, loss, base, w[i], pprop)
        ctx.close(float(one), float(want[i]), 'loss', f'{kind} {ln}', **tol)
        ctx.check(not one.requires_grad, 'loss-with-gradient')
        ctx.seen('losses')
    # a vector that belongs to no model
    v = torch.randn(N, d, dtype=dtype)
    ref = make(kind, n).to(dtype)
    for i in range(N):
        ref.load_state_dict(base.state_dict())
        sd, pos = {}, 0
        for p in names:
            k = P0[p].numel()
            sd[p] = v[i, pos:pos + k].reshape(P0[p].shape)
            pos += k
        ref.load_state_dict(sd, strict=False)
        with torch.no_grad():
            ctx.close(tu.eval_model(x, base, v[i], pprop).numpy(), ref(x).numpy(), 'outputs', 'of a new vector', **tol)
    ctx.seen('vectors')
    for m, b in zip(models, before):
        same = all(torch.equal(v, b[k]) for k, v in m.state_dict().items())
        ctx.check(same, 'models-modified', kind)
    # the vector is a copy
    w += 1
    for m, b in zip(models, before):
        ctx.check(all(torch.equal(v, b[k]) for k, v in m.state_dict().items()), 'models-modified', 'by changing the vector')
    if sel == 'partial':
        ctx.seen('partial')
    if sel == 'permuted':
        ctx.seen('permuted')
    ctx.sig(kind, n, N, sel, tuple(names), B, ln, str(dtype))


def accuracy(ctx, rng):
    classes = int(pick(rng, [2, 3, 3, 10, 11, 14, 30]))
    kind, n, N, dtype, models = stack(ctx, rng, classes)
    sel, names = selection(rng, models)
    w = tu.flatten_parameters(models, names)
    pprop = tu.get_param_properties(models, pnames=names)
    sizes = [int(rng.integers(1, 8)) for _ in range(int(rng.integers(1, 5)))]      # batches of different sizes
    xs = [torch.randn(k, n, dtype=dtype) for k in sizes]
    base = models[0]
    i = int(rng.integers(N))
    ref = make(kind, n, classes).to(dtype)
    ref.load_state_dict(base.state_dict())
    ref.load_state_dict({p: dict(models[i].named_parameters())[p].detach() for p in names}, strict=False)
    ys, hits, total, margin = [], 0, 0, np.inf
    for x in xs:
        with torch.no_grad():
            o = ref(x)
        c = o.argmax(dim=1)
        y = torch.where(torch.rand(len(c)) < float(rng.random()), c, torch.randint(0, classes, (len(c),)))
        ys.append(y)
        hits += int((c == y).sum())
        total += len(c)
        t = o.topk(2, dim=1).values
        margin = min(margin, float((t[:, 0] - t[:, 1]).min()))
    if margin < 1e-4:
        return      # a tie decides
    if chance(rng, .5):
        loader = list(zip(xs, ys))
    else:
        data = torch.utils.data.TensorDataset(torch.cat(xs), torch.cat(ys))
        loader = torch.utils.data.DataLoader(data, batch_size=int(rng.integers(1, 6)))
    ctx.describe(kind=kind, inputs=n, models=N, selection=names, sizes=sizes, classes=classes)
    for _ in range(2):
        acc = tu.eval_acc(base, w[i], pprop, loader)
        ctx.close(float(acc), hits / total, 'accuracy', f'{hits} of {total}', rtol=1e-6)
    ctx.seen('accuracies')
    ctx.seen('many_classes', classes > 10)
    ctx.sig('acc', kind, classes, len(sizes), total, hits)


def training(ctx, rng):
    """the parameter vectors as particles of a dynamic"""
    kind, n, N, dtype, models = stack(ctx, rng)
    names = [p for p, _ in models[0].named_parameters()]
    w = tu.flatten_parameters(models, names)
    pprop = tu.get_param_properties(models, pnames=names)
    x, y = torch.randn(8, n, dtype=dtype), torch.randint(0, 3, (8,))
    loss = nn.CrossEntropyLoss()
    base = models[0]

    def f(u):
        return torch.stack([tu.eval_losses(x, y, loss, base, v, pprop) for v in u])
    M = int(rng.integers(1, 3))
    w0 = w.clone()
    kw = dict(f_dim='3D', x=w[None].repeat(M, 1, 1), noise='anisotropic', sigma=.1, dt=.1, alpha=20., max_it=4, verbosity=0, seed=int(rng.integers(1000)))
    ctx.describe(kind=kind, inputs=n, models=N, M=M, dtype=str(dtype))
    sampler = lambda size: torch.randn(tuple(size), dtype=dtype)
    torch.manual_seed(int(rng.integers(2**31)))
    if chance(rng, .5):
        dyn = tu.to_torch_dynamic(cd.CBO)(f, sampler=sampler, **kw)
    else:
        kw.pop('seed')
        dyn = cd.CBO(f, norm=tu.norm_torch, copy=torch.clone, sampler=sampler, compute_consensus=tu.compute_consensus_torch,
                     post_process=tu.post_process_default_torch(), **kw)
    ref = make(kind, n).to(dtype)
    tol = 1e-4 if dtype == torch.float32 else 1e-9

    def value(v):
        sd, pos = {}, 0
        for p, q in ref.named_parameters():
            sd[p] = v[pos:pos + q.numel()].reshape(q.shape)
            pos += q.numel()
        ref.load_state_dict(sd)
        with torch.no_grad():
            return float(loss(ref(x), y))
    while not dyn.terminate():
        xo = dyn.x.clone()
        dyn.step()
        for m in range(M):
            e = [value(xo[m, i]) for i in range(N)]
            ctx.close(np.asarray(dyn.energy[m], dtype=float), e, 'training-energies', f'run {m}', rtol=tol, atol=tol)
            ctx.close(float(dyn.best_energy[m]), value(dyn.best_particle[m]), 'training-best', f'run {m}', rtol=tol, atol=tol)
    ctx.check(torch.equal(w, w0), 'models-modified', 'initial vectors')
    ctx.seen('training')
    ctx.sig('train', kind, n, N, M)


FAMILIES = {'roundtrip': (roundtrip, 350), 'accuracy': (accuracy, 150), 'training': (training, 40)}
