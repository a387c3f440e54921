#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one entry for every property that has a check module."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
TECH = {
 'C01': 'runtime monitor: extended-precision Gibbs oracle on every consensus of random histories and on direct calls',
 'C02': 'runtime monitor: reference one-step law evaluated from the observed state, compared after every step',
 'C03': 'runtime monitor: reference memory/swarm law plus offline best-so-far checker over the objective call log',
 'C04': 'runtime monitor: differential executions (joint vs alone, permuted runs, perturbed neighbour run)',
 'C05': 'runtime monitor: per-run state freeze checker and loop trace specification over term-criterion decisions',
 'C06': 'runtime monitor: offline best-so-far checker over the recorded evaluation log',
 'C07': 'runtime monitor: counting objective at the boundary vs reported counters, budget trace checker',
 'C08': 'runtime monitor: batch trace checker (distinctness, partition per epoch, moved/evaluated sets)',
 'C09': 'runtime monitor: snapshot log vs recorded history, differential execution with and without tracking',
 'C10': 'runtime monitor: finiteness/bound assertions after every step under fault-injecting objectives and noise',
 'C11': 'runtime monitor: bitwise differential executions with interleaved foreign instances and perturbed global state',
 'C12': 'runtime monitor: parameter trace checker and effective-sample-size oracle after every schedule update',
 'C13': 'runtime monitor: penalty oracle on regularised objectives and trace checker of the weight schedule',
 'C14': 'runtime monitor: derivative oracles (complex/finite differences), linear-solve residuals, reference step',
 'C15': 'runtime monitor: surface membership assertions and reference projected step after every step',
 'C16': 'runtime monitor: mirror-map contract assertions on hostile inputs and reference mirror step',
 'C17': 'runtime monitor: kernel contract assertions and extended-precision polar Gibbs oracle in every step',
 'C18': 'runtime monitor: boundary-recording objectives compared across interfaces and ensemble shapes',
 'C19': 'runtime monitor: independent formula oracle and domain search below the stated minima',
 'C20': 'runtime monitor: resampling trace checker (selected runs, noise scale, counters, best tracking)',
 'C21': 'runtime monitor: differential executions numpy vs torch',
 'C22': 'runtime monitor: differential evaluation of flattened and original models, layout partition checker',
 'C23': 'runtime monitor: artist data inspected after every plot/animation frame vs recorded history',
 'C24': 'runtime monitor: independent classification of every run vs the returned dictionaries',
 'C25': 'runtime monitor: noise vs recorded sampler draws, statistical tests on large single draws',
 'C26': 'runtime monitor: convergence/contraction monitors and sample-moment tests over many runs',
 'C27': 'runtime monitor: metamorphic paired executions (translation, shift, scaling, permutation, rotation)',
 'C28': 'runtime monitor: reference evaluation of every criterion at every iteration of random histories',
 'C29': 'runtime monitor: differential executions (stepwise, split, resumed, reset)',
 'C30': 'runtime monitor: configuration matrix with effect oracles and rejection oracles',
 'C31': 'runtime monitor: shape/range assertions and distribution tests on initial ensembles',
 'C32': 'runtime monitor: user-written dynamics observed at their hooks vs independent bookkeeping, transparent twins',
}
NOTE = ('Oracle over executions of the real code: complete for the executions observed, no claim about the others. '
        'Reach comes from the randomised configuration space described in DESIGN.md.')
NOT_APPLICABLE = []


def main():
    checks = []
    for pid in sorted(TECH):
        if not os.path.exists(os.path.join(ROOT, 'rv', 'checks', pid.lower() + '.py')):
            continue
        checks.append(dict(property=pid, quick_cmd=f'./run.sh {pid} quick', thorough_cmd=f'./run.sh {pid} thorough',
                           technique=TECH[pid], level='exploration', level_note=NOTE))
    have = {c['property'] for c in checks}
    na = NOT_APPLICABLE + [dict(property=p, reason='no check built yet') for p in sorted(TECH) if p not in have]
    m = dict(version=1, setup_cmd='./run.sh setup', checks=checks, not_applicable=na,
             notes='No hooks in /repo: events are observed at public extension points. run.sh <ID> <tier> --replay FILE repeats '
                   'the case of a violation; RV_REPO=/path runs a check against a scratch copy.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
