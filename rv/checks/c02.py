"""C02: every CBO / AdamCBO step follows the documented update law."""
import numpy as np

from ..gen import gen_spec, build, pick, chance, brief, signature, objective, PatternTerm, random_stops
from ..drive import advance, moved
from ..ref import Law

RULE = ('every step of random histories of CBO and AdamCBO (noise x correction x batch mode x subset of active runs x schedule x '
        'shape) is compared with the law evaluated from the state observed before the step. Distinct by configuration '
        'signature; a step counts as non-trivial when at least one particle moved.')
REQUIRE = {'steps': 200, 'steps_heavi': 20, 'steps_subset': 20, 'steps_batched': 20, 'steps_adam': 20, 'moved': 100}
ASSUMPTIONS = ['the Heaviside correction is not combined with full updates of mini-batches (energies outside of the batch are '
               'stale there by design)', 'the noise n is the noise of the corrected drift']


def case(ctx, rng):
    cls = pick(rng, ['CBO', 'CBO', 'AdamCBO'])
    s = gen_spec(rng, classes=[cls])
    law = Law(s, objective(s))
    stops = random_stops(rng, s['M'], s['steps'])
    custom = chance(rng, .25)
    over = {}
    if custom:
        # a custom noise callable: its value has to enter the step multiplied by sigma
        q = rng.standard_normal()
        s['kw']['noise'] = 'isotropic'
        over['noise'] = lambda dyn: q * np.sin(dyn.drift) + .1 * dyn.dt
    ccor = cls == 'CBO' and chance(rng, .15)
    if ccor:
        s['kw']['correction'] = 'no_correction'
        over['correction'] = lambda dyn, z: .3 * z + .01
    dyn, rec, smp = build(s, term_criteria=[PatternTerm(stops)], **over)
    ctx.describe(**brief(s), stops=stops.tolist(), custom_noise=custom, custom_correction=ccor)
    from cbx.scheduler import scheduler, multiply
    sched = pick(rng, [None, 'default', scheduler([multiply(name='sigma', factor=.8), multiply(name='dt', factor=.9)]),
                       scheduler([multiply(name='lamda', factor=1.1), multiply(name='alpha', factor=2.)])])

    law.fixed = sched is None

    def on_step(pre):
        ctx.seen('steps')
        heavi = s['kw'].get('correction', 'no_correction') != 'no_correction'
        ctx.seen('steps_heavi', heavi)
        ctx.seen('steps_subset', len(pre['active']) < s['M'])
        ctx.seen('steps_batched', dyn.batch_size < s['N'])
        ctx.seen('steps_adam', cls == 'AdamCBO')
        p = law.predict(dyn, pre, smp)
        P = p['P']
        if custom or ccor:
            xs = pre['x'].reshape((-1,) + tuple(s['d']))
            drift = p['drift']
            if ccor:
                drift = .3 * drift + .01
            dt = pre['dt']
            if custom:
                n = q * np.sin(drift) + .1 * dt
            else:
                from ..ref import noise_term, gibbs_weights
                cov = {}
                if s['kw']['noise'] == 'covariance':
                    al = np.asarray(pre['alpha'])[pre['active']]
                    w = gibbs_weights(p['e'], al).astype(float)
                    cov = dict(cov=np.einsum('kn,kni,knj->kij', w, drift, drift), alpha=al, mode='sampling')
                n = noise_term(s['kw']['noise'], drift, dt, smp.numbers(drift.shape), **cov)
            xn = pre['x'].reshape((-1,) + tuple(s['d'])).copy()
            if cls == 'CBO':
                xn[P] = xs[P] - pre['lamda'] * dt * drift + pre['sigma'] * n
            else:
                k = pre['it'] + 1
                b1, b2 = s['kw'].get('betas', (.9, .99))
                mh, vh = law.adam_m[P] / (1 - b1**k), law.adam_v[P] / (1 - b2**k)
                xn[P] = xs[P] - pre['lamda'] * mh / (np.sqrt(vh) + s['kw'].get('eps', 1e-8)) + pre['sigma'] * n
            p['x'] = xn.reshape(pre['x'].shape)
        mv = moved(dyn.x, pre['x'])
        ctx.seen('moved', mv.any())
        if mv.any():
            ctx.sig(*signature(s), custom, ccor, len(pre['active']) < s['M'])
        sel = np.zeros(s['M'] * s['N'], bool)
        sel[P.ravel()] = True
        sel = sel.reshape(s['M'], s['N'])
        act = np.zeros(s['M'], bool)
        act[pre['active']] = True
        ctx.check(not (sel & ~act[:, None]).any(), 'terminated-run-selected')
        ctx.check(not (mv & ~sel).any(), 'unselected-particle-moved', f"it {pre['it']}: {np.argwhere(mv & ~sel)[:3]}")
        scale = max(1., np.abs(pre['x']).max(), np.abs(dyn.x).max())
        if scale > 1e6:
            ctx.seen('steps_exploded')      # the bound of the default post processing
            return
        tol = 1e-6 if s['kw']['noise'] == 'covariance' else 1e-8
        if cls == 'AdamCBO':
            # the ratio is ill conditioned where the momentum is of rounding size
            eps = s['kw'].get('eps', 1e-8)
            k = pre['it'] + 1
            v = law.adam_v / (1 - s['kw'].get('betas', (.9, .99))[1]**k)
            small = (np.sqrt(v) < 1e-5 * scale).reshape(dyn.x.shape)
            p['amb'] = p['amb'] | small.reshape(s['M'], s['N'], -1).any(-1) if eps < 1e-5 else p['amb']
        mask = ~p['amb'][(...,) + (None,) * len(s['d'])]
        # a run whose Heaviside decision is ambiguous has an ambiguous covariance as well
        ctx.close(dyn.x, p['x'], 'step-law', f"{cls} it {pre['it']}", rtol=tol, atol=tol * scale, mask=mask)
        c = np.asarray(dyn.consensus)
        ctx.close(c, p['consensus'], 'consensus-used', f"it {pre['it']}", rtol=1e-7, atol=1e-8 * scale)
    n, _ = advance(dyn, smp, on_step, mode=pick(rng, ['loop', 'optimize']), sched=sched)


FAMILIES = {'law': (case, 2500)}
