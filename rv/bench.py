"""Independent definitions of the benchmark functions: one point at a time, documented formulas."""
import math

import numpy as np

import cbx.objectives as co

from .gen import pick, chance


class Bench:
    """lib: the benchmark object; f: independent formula of one point; domain: (low, high) per coordinate the minima refer to
    (None: the whole space); minima: stated global minimisers or None; wide: radius within which values are asked for"""

    def __init__(self, name, lib, f, n, minima=None, domain=None, wide=50., stated=None, tol=1e-6, key=()):
        self.name, self.lib, self.f, self.n, self.domain, self.wide = name, lib, f, n, domain, wide
        self.minima, self.tol, self.key = minima, tol, key

    def values(self, x):
        y = np.reshape(x, (-1, x.shape[-1]))
        return np.array([float(self.f([float(c) for c in p])) for p in y]).reshape(x.shape[:-1])


def sq(z):
    return math.fsum(c * c for c in z)


def rastrigin(z, b=0., c=0., A=10.):
    return math.fsum((u - b)**2 + A - A * math.cos(2 * math.pi * (u - b)) for u in z) + c


def ackley(z, A=20., b=.2, c=2 * math.pi, m=0.):
    n = len(z)
    m = np.broadcast_to(m, (n,))
    u = [a - float(k) for a, k in zip(z, m)]
    return -A * math.exp(-b * math.sqrt(sq(u) / n)) - math.exp(math.fsum(math.cos(c * a) for a in u) / n) + A + math.e


def logsum(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(a - m) for a in v))


def gauss_logpdf(z, m, C):
    d = np.asarray(z, float) - m
    return float(-.5 * (d @ np.linalg.solve(C, d) + np.log(np.linalg.det(C)) + len(z) * math.log(2 * math.pi)))


def snow(z, al):
    x, y = al * z[0], al * z[1]
    r, ph = math.hypot(x, y), math.atan2(y, x)
    v = [r**8 - r**4 + math.sqrt(abs(math.cos(ph + i * math.pi / 3))) * r**.3 for i in range(3)]
    return min(v + [.8])


def egg(z):
    x, y = z
    return -(y + 47) * math.sin(math.sqrt(abs(y + x / 2 + 47))) - x * math.sin(math.sqrt(abs(x - (y + 47))))


def random_cov(rng):
    a = rng.standard_normal((2, 2))
    return a @ a.T + .2 * np.eye(2)


NAMES = ['three_hump_camel', 'McCormick', 'Rosenbrock', 'Himmelblau', 'Rastrigin', 'Rastrigin_multimodal', 'Ackley',
         'Ackley_multimodal', 'accelerated_sinus', 'nd_sinus', 'p_4th_order', 'Quadratic', 'Banana', 'Bimodal', 'Unimodal',
         'Multimodal', 'Bukin6', 'cross_in_tray', 'Easom', 'drop_wave', 'Holder_table', 'snowflake', 'eggholder', 'Michalewicz']


def make(rng, name=None, default=False):
    name = str(pick(rng, NAMES)) if name is None else name
    nd = int(pick(rng, [1, 2, 2, 3, 5])) if chance(rng, .95) else 20
    par = not default and chance(rng, .75)

    def u(lo, hi):
        return float(rng.uniform(lo, hi))
    if name == 'three_hump_camel':
        return Bench(name, co.three_hump_camel(), lambda z: 2 * z[0]**2 - 1.05 * z[0]**4 + z[0]**6 / 6 + z[0] * z[1] + z[1]**2, 2,
                     minima=[[0, 0]])
    if name == 'McCormick':
        return Bench(name, co.McCormick(), lambda z: math.sin(z[0] + z[1]) + (z[0] - z[1])**2 - 1.5 * z[0] + 2.5 * z[1] + 1, 2,
                     minima=[[-.54719, -1.54719]], domain=[(-1.5, 4), (-3, 4)])
    if name == 'Rosenbrock':
        a, b = (u(-2, 2), u(.5, 200)) if par else (1., 100.)
        return Bench(name, co.Rosenbrock(**(dict(a=a, b=b) if par else {})), lambda z: (a - z[0])**2 + b * (z[1] - z[0]**2)**2, 2,
                     minima=[[a, a**2]], key=(par,))
    if name == 'Himmelblau':
        s = float(pick(rng, [.1, .5, 2., 3.])) if par else 1.
        return Bench(name, co.Himmelblau(**(dict(factor=s) if par else {})),
                     lambda z: ((s * z[0])**2 + s * z[1] - 11)**2 + (s * z[0] + (s * z[1])**2 - 7)**2, 2, minima='attr', key=(s,))
    if name == 'Rastrigin':
        b, c, A = (u(-2, 2), u(-5, 5), float(pick(rng, [0., 1., 10., 30.]))) if par else (0., 0., 10.)
        return Bench(name, co.Rastrigin(**(dict(b=b, c=c, A=A) if par else {})), lambda z: rastrigin(z, b, c, A), nd,
                     minima=([[b] * nd] if nd != 2 else 'attr'), key=(par, nd))
    if name in ('Rastrigin_multimodal', 'Ackley_multimodal'):
        k = int(rng.integers(1, 4))
        V = rastrigin if name[0] == 'R' else ackley
        if not par:
            return Bench(name, getattr(co, name)(), V, nd, minima='attr1', key=(nd,))
        al = [u(.3, 3.) for _ in range(k)]
        z0 = rng.uniform(-3, 3, (k, nd)) if chance(rng, .7) else None
        zz = np.zeros((k, nd)) if z0 is None else z0
        return Bench(name, getattr(co, name)(alpha=al if chance(rng, .5) else np.array(al), **({} if z0 is None else dict(z=z0.copy()))),
                     lambda z: math.prod(V([a * (p - q) for p, q in zip(z, w)]) for a, w in zip(al, zz)), nd,
                     minima='attr' if z0 is not None else 'attr1', key=(k, nd, z0 is None))
    if name == 'Ackley':
        if not par:
            return Bench(name, co.Ackley(), ackley, nd, minima=[[0.] * nd], key=(nd,))
        A, b, c = u(1, 30), u(.05, 1.), u(.5, 7.)
        m = (u(-1, 1) if chance(rng, .5) else rng.uniform(-1, 1, nd)) if chance(rng, .7) else None
        mm = 0. if m is None else m
        return Bench(name, co.Ackley(A=A, b=b, c=c, **({} if m is None else dict(minimum=m))), lambda z: ackley(z, A, b, c, mm), nd,
                     minima='attr', key=(nd, np.ndim(m) if m is not None else None))
    if name == 'accelerated_sinus':
        a = u(.2, 5) if par else 1.

        def f(z):
            r = math.sqrt(sq(z))
            return math.sin(a * r / (1 + r * r)) + 1
        return Bench(name, co.accelerated_sinus(**(dict(a=a) if par else {})), f, nd, key=(par, nd))
    if name == 'nd_sinus':
        return Bench(name, co.nd_sinus(), lambda z: (math.sin(.09 * sq(z) / len(z)) + 1) * ((.3 * z[0])**4 - (.3 * z[0])**2 + 1), nd,
                     key=(nd,))
    if name == 'p_4th_order':
        return Bench(name, co.p_4th_order(), lambda z: math.fsum(c**4 for c in z) - sq(z) + 1, nd, key=(nd,))
    if name == 'Quadratic':
        a = u(-3, 3) if par else 1.
        return Bench(name, co.Quadratic(**(dict(alpha=a) if par else {})), lambda z: a * a * sq(z), nd, minima=[[0.] * nd], key=(nd, par))
    if name == 'Banana':
        m, s, sp = (u(-1, 1), u(.2, 2), u(.5, 4)) if par else (0, .5, 2)
        return Bench(name, co.Banana(**(dict(m=m, sigma=s, sigma_prior=sp) if par else {})),
                     lambda z: ((z[1] - 1)**2 - (z[0] - 2.5) - 1 - m)**2 / (2 * s * s) + sq(z) / (2 * sp * sp), 2, key=(par,))
    if name == 'Bimodal':
        a, b = (rng.uniform(-2, 2, 2), rng.uniform(-2, 2, 2)) if par else ([1., 1.5], [-1.2, -.7])
        kw = (dict(a=list(a), b=list(b)) if chance(rng, .5) else dict(a=np.array(a), b=np.array(b))) if par else {}
        return Bench(name, co.Bimodal(**kw), lambda z: -logsum([
            -(z[0] - a[0])**2 - (z[1] - a[1])**2 / .2, math.log(.5) - (z[0] - b[0])**2 / 8 - (z[1] - b[1])**2 / .5]), 2, key=(par,))
    if name == 'Unimodal':
        a = rng.uniform(-2, 2, 2) if par else [-1.2, -.7]
        kw = (dict(a=list(a)) if chance(rng, .5) else dict(a=np.array(a))) if par else {}
        return Bench(name, co.Unimodal(**kw), lambda z: math.log(2) + (z[0] - a[0])**2 / 8 + (z[1] - a[1])**2 / .5, 2, key=(par,))
    if name == 'Multimodal':
        k = int(rng.integers(1, 4))
        ms, Cs = ([rng.uniform(-2, 2, 2) for _ in range(k)], [random_cov(rng) for _ in range(k)]) if par else ([np.zeros(2)], [np.eye(2)])
        return Bench(name, co.Multimodal(**(dict(means=[m.copy() for m in ms], covs=[c.copy() for c in Cs]) if par else {})),
                     lambda z: -logsum([gauss_logpdf(z, m, C) for m, C in zip(ms, Cs)]), 2, key=(par, k))
    if name == 'Bukin6':
        return Bench(name, co.Bukin6(), lambda z: 100 * math.sqrt(abs(z[1] - .01 * z[0]**2)) + .01 * abs(z[0] + 10), 2, minima='attr')
    if name == 'cross_in_tray':
        return Bench(name, co.cross_in_tray(), lambda z: -1e-4 * (abs(math.sin(z[0]) * math.sin(z[1]) * math.exp(
            abs(100 - math.hypot(*z) / math.pi))) + 1)**.1, 2, minima='attr', domain=[(-10, 10)] * 2)
    if name == 'Easom':
        return Bench(name, co.Easom(), lambda z: -math.cos(z[0]) * math.cos(z[1]) * math.exp(-(z[0] - math.pi)**2 - (z[1] - math.pi)**2), 2,
                     minima='attr', wide=10.)
    if name == 'drop_wave':
        return Bench(name, co.drop_wave(), lambda z: -(1 + math.cos(12 * math.hypot(*z))) * math.exp(-sq(z) / (2 * (1 + .001 * sq(z)))), 2,
                     minima='attr', wide=10.)
    if name == 'Holder_table':
        s = float(pick(rng, [.5, 2., 3.])) if par else 1.
        t = (u(-2, 2) if chance(rng, .5) else rng.uniform(-2, 2, 2)) if par else 0.
        tt = np.broadcast_to(t, (2,))

        def f(z):
            x, y = s * (z[0] - tt[0]), s * (z[1] - tt[1])
            return -abs(math.sin(x) * math.cos(y) * math.exp(abs(1 - math.hypot(x, y) / math.pi)))
        return Bench(name, co.Holder_table(**(dict(factor=s, shift=t) if par else {})), f, 2, minima='attr',
                     domain=[(float(c) - 10 / s, float(c) + 10 / s) for c in tt], key=(s, np.ndim(t)))
    if name == 'snowflake':
        al = float(pick(rng, [.25, 1., 2.])) if par else .5
        return Bench(name, co.snowflake(**(dict(alpha=al) if par else {})), lambda z: snow(z, al), 2, minima='attr', wide=5., key=(al,))
    if name == 'eggholder':
        return Bench(name, co.eggholder(), egg, 2, minima='attr', domain=[(-512, 512)] * 2, wide=600., tol=1e-4)
    if name == 'Michalewicz':
        d = nd if par else 2
        m = int(pick(rng, [1, 5, 10, 10, 20])) if par else 10
        return Bench(name, co.Michalewicz(**(dict(d=d, m=m) if par else {})), lambda z: -math.fsum(
            math.sin(c) * math.sin((i + 1) * c * c / math.pi)**(2 * m) for i, c in enumerate(z)), d, minima='attr',
            domain=[(0, math.pi)] * d, wide=4., key=(d, m))
    raise ValueError(name)


def stated(b):
    """the stated minimisers as an array (k, n), None if nothing is stated"""
    m = b.minima
    if m is None:
        return None
    if isinstance(m, str):
        a = getattr(b.lib, 'minima', None)
        if a is None:
            return None
        a = np.asarray(a, float)
        if a.ndim < 2:
            a = np.broadcast_to(a, (1, b.n))
        if a.shape[-1] == 1 and b.n > 1:
            a = np.broadcast_to(a, (a.shape[0], b.n))
        return a
    return np.asarray(m, float)
