"""Advances a dynamic while a monitor looks at the state around every step."""
import numpy as np

from .core import StepLimit
from .ref import snapshot


def advance(dyn, sampler, on_step, mode='loop', sched=None, limit=200, before=None):
    """mode 'loop': terminate/step/schedule by hand, mode 'optimize': the real optimization loop.
    Returns (number of steps, result of optimize or None)"""
    n = [0]

    def around(step):
        n[0] += 1
        if n[0] > limit:
            raise StepLimit(f'more than {limit} steps')
        if sampler is not None:
            sampler.tick += 1
        pre = snapshot(dyn)
        if before is not None:
            before(pre)
        step()
        on_step(pre)

    if mode == 'optimize':
        orig = dyn.step
        dyn.step = lambda: around(orig)
        try:
            res = dyn.optimize(sched=sched)
        finally:
            del dyn.step
        return n[0], res
    while not dyn.terminate():
        around(dyn.step)
        if sched is not None:
            (dyn.default_sched() if sched == 'default' else sched).update(dyn)
    return n[0], None


def moved(a, b):
    """(M,N) whether any coordinate differs"""
    return (a != b).reshape(a.shape[:2] + (-1,)).any(-1)


class Watch:
    """state of a dynamic that observers must not change"""
    def __init__(self, dyn):
        self.dyn = dyn
        self.a = self.take()

    def take(self):
        out = {}
        for k, v in vars(self.dyn).items():
            if isinstance(v, np.ndarray):
                out[k] = v.copy()
            elif isinstance(v, (int, float, str, tuple)) or v is None:
                out[k] = v
            elif k == 'history':
                out[k] = {n: [np.array(e) if isinstance(e, np.ndarray) else e for e in h] for n, h in v.items()}
        return out

    def verify(self, ctx, where):
        b = self.take()
        for k in self.a:
            if not ctx.check(k in b, 'observer-changes-dynamic', f'{where}: {k} vanished'):
                continue
            u, v = self.a[k], b[k]
            if k == 'history':
                same = sorted(u) == sorted(v) and all(
                    len(u[n]) == len(v[n]) and all(np.array_equal(p, q, equal_nan=True) if isinstance(p, np.ndarray) else p is q
                                                   for p, q in zip(u[n], v[n])) for n in u)
            elif isinstance(u, np.ndarray):
                same = u.shape == v.shape and np.array_equal(u, v, equal_nan=u.dtype.kind == 'f')
            elif isinstance(u, tuple):
                same = u is v
            else:
                same = u == v or u is v or (u != u and v != v)
            ctx.check(bool(same), 'observer-changes-dynamic', f'{where}: {k}')
