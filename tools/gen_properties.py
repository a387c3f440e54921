#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing; the output is committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'properties.jsonl')
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

D = 'cbx/dynamics/'
prop('C01', 'Consensus point is the Gibbs-weighted mean of its ensemble',
 """In every run the consensus point is the mean of that run's (batch of) particles weighted by exp(-alpha*energy)
 normalised over the batch, for every array backend and for the plain, rescaled and memory variants. It is therefore finite and lies in the convex
 hull of those particles for all energies of which at least one is finite and none is -inf or NaN, and every positive alpha, however large alpha*energy is, and it does not change when a constant is
 added to all energies. As alpha tends to infinity it approaches the best particle of the batch, as alpha tends to 0 the plain average.""",
 ['inputs', 'configurations', 'histories'],
 'all ensembles (M,N,d) including single particles, ties, duplicates and multi-axis d; all energies incl. +-1e300 scale and +inf entries; all alpha>0, scalar or per run',
 'tests compare a couple of hand-made ensembles with moderate alpha; overflow/underflow regimes, per-run alpha and subsets of active runs are unsampled',
 [D+'pdyn.py', D+'hypersurfacecbo.py', D+'cbo_memory.py', D+'pso.py', 'cbx/utils/torch_utils.py'],
 [('log-sum-exp softmax', D+'pdyn.py:compute_consensus_default'), ('rescaled variant', D+'hypersurfacecbo.py:compute_consensus_rescale'), ('torch variant', 'cbx/utils/torch_utils.py:compute_consensus_torch')],
 ['dyn.consensus after each step', 'direct calls of the consensus functions'])

prop('C02', 'Each CBO step follows the documented update law',
 """One step of consensus-based optimization replaces every selected particle x by x - lambda*dt*H*(x-c) + sigma*n, where c is the consensus point
 evaluated at the positions and parameters in force at the start of the step, H the configured (identity, Heaviside or smoothed Heaviside) correction and n the
 configured noise; the Adam variant replaces the drift term by its bias-corrected momentum ratio. Particles that are not selected, and runs
 that are terminated, do not move.""",
 ['histories', 'configurations', 'inputs'],
 'every step of every run, under every combination of noise, correction, batching, parameter schedule, number of runs and particle shape',
 'tests check single steps with fixed seeds for a few settings; combinations of correction x batching x multi-run x schedules are not exercised',
 [D+'cbo.py', D+'pdyn.py', D+'adamcbo.py', 'cbx/correction.py'],
 [('Euler-Maruyama step', D+'cbo.py:cbo_update'), ('corrections', 'cbx/correction.py'), ('moment updates', D+'adamcbo.py:update_moments')],
 ['x before/after step()', 'drift, consensus, recorded noise and objective calls'])

prop('C03', 'Memory dynamics keep true historical bests and follow their law',
 """In the memory variants (CBO with memory effects and particle swarm optimization) every particle carries the best position it has visited: its remembered energy never increases, always equals the objective at
 the remembered position, and equals the minimum of the objective over the initial position and all positions at which the dynamic evaluated it for that particle since. The consensus point is formed from the remembered
 positions, and each step applies the documented update in which, without noise, both the consensus and the memory term pull the particle toward their target.""",
 ['histories', 'configurations', 'inputs'],
 'all multi-step histories, any numbers of runs/particles, batches, terminated subsets, lambda/sigma/memory parameters',
 'tests run a handful of steps and check shapes/one formula; histories with batching or partially terminated runs crash or are untested',
 [D+'cbo_memory.py', D+'pso.py'],
 [('memory update', D+'cbo_memory.py:inner_step'), ('swarm velocity update', D+'pso.py:inner_step')],
 ['dyn.x, dyn.y, dyn.v, dyn.energy after each step', 'objective call log'])

prop('C04', 'Runs advanced together do not influence each other',
 """Advancing M runs in one object gives, for every run, the trajectory it would have if it were advanced alone with the same initial particles,
 parameters and noise: nothing computed for one run (energies, consensus, covariance, kernel, schedule, constraint handling, resampling or termination decision) depends on the particles of another run.
 Permuting the runs permutes the results.""",
 ['histories', 'configurations', 'inputs'],
 'all dynamics, noise models, kernels, corrections, schedulers, constraint types and termination patterns, with any M >= 2',
 'tests use M>1 mostly for shapes; cross-run leakage through reductions over the wrong axis or mis-indexed active runs needs paired executions',
 [D+'pdyn.py', D+'polarcbo.py', D+'cbo_memory.py', D+'pso.py', D+'driftconstrainedcbo.py', D+'hypersurfacecbo.py', 'cbx/scheduler.py', 'cbx/noise.py'],
 [('run axis', D+'pdyn.py:CBXDynamic'), ('active run indices', D+'pdyn.py:select_active_runs')],
 ['paired executions: joint vs. separate, and joint vs. perturbed-neighbour'])

prop('C05', 'Terminated runs are frozen; the loop ends exactly when all runs are done',
 """While one of its termination criteria holds for a run, that run's particles, memory, best value and evaluation count stay unchanged while other runs continue, and the
 indices of the criteria that fired are recorded as its termination reason. The optimization loop performs a step if and only if some run satisfies no criterion, hence never more than
 the configured maximal number of iterations.""",
 ['histories', 'configurations', 'schedules'],
 'all per-run termination patterns (any order, any subset, all at once, at iteration zero), all dynamics, batching modes and criteria lists',
 'tests terminate a single run or all runs simultaneously; partial termination of a subset of runs is reached by almost no test',
 [D+'pdyn.py', 'cbx/utils/termination.py'],
 [('active-run selection', D+'pdyn.py:select_active_runs'), ('index sets', D+'pdyn.py:set_batch_idx_unbatched/_batched')],
 ['per-run state before/after each step', 'dyn.term_reason, dyn.it'])

prop('C06', 'Reported best value and best particle are consistent and monotone',
 """For every run (of an objective without NaN values) the best energy never increases during an optimization, equals the smallest objective value the run has obtained for one of its particles so far, and the reported best particle is a position at which the objective
 attains exactly that value. The result returned by an optimization is that best particle.""",
 ['histories', 'configurations', 'inputs'],
 'all dynamics, batching, noise, post-processing, schedules, multi-run histories, objectives incl. flat and +inf valued ones',
 'tests check one or two steps of basic CBO; the pairing of energies and positions over long batched histories is not observed',
 [D+'pdyn.py', D+'cbo_memory.py', D+'pso.py', D+'cbs.py'],
 [('best tracking', D+'pdyn.py:update_best_cur_particle, update_best_particle'), ('return value', D+'pdyn.py:optimize')],
 ['dyn.best_energy, dyn.best_particle after each step', 'log of all objective evaluations'])

prop('C07', 'Function-evaluation accounting is exact and the budget is respected',
 """The evaluation counter of each run equals the number of points of that run at which the objective was evaluated by the dynamic's ensemble evaluations, memory initialisation and corrections, and the counter of an objective of points with one axis equals the number of points it was applied to.
 With a maximal evaluation budget a run is stopped before its next ensemble evaluation would exceed the budget, and not earlier.""",
 ['histories', 'configurations', 'inputs'],
 'all dynamics, corrections, batch sizes, terminated subsets, particle shapes, budgets',
 'tests check the counter after one step for M=1-like settings; corrections, partial batches and terminated runs are not combined',
 [D+'pdyn.py', 'cbx/correction.py', D+'pso.py', D+'cbo_memory.py', 'cbx/utils/termination.py', 'cbx/utils/objective_handling.py'],
 [('per-run counter', D+'pdyn.py:eval_f'), ('budget criterion', 'cbx/utils/termination.py:max_eval_term')],
 ['objective call log tagged by run', 'dyn.num_f_eval'])

prop('C08', 'Mini-batches are valid, unbiased partitions and only batches move',
 """Every step uses, for each active run, a batch of the configured size made of distinct valid particle indices; within one pass through a freshly shuffled index list no particle is used twice, and in the mode that
 carries left-over indices over, consecutive batches consume complete shuffles so that every particle is used equally often. With partial updates exactly the batch particles move and only they are evaluated; with
 full updates all particles of active runs move toward the consensus of the batch.""",
 ['histories', 'configurations', 'schedules'],
 'all N, batch sizes (dividing N or not, equal to N or larger), both refill modes, partial or full, any active-run pattern, any seed',
 'tests look at the first batch or two for one size',
 [D+'pdyn.py'],
 [('batch index generation', D+'pdyn.py:init_batch_idx, set_batch_idx_batched')],
 ['dyn.consensus_idx / evaluated points / moved particles in every step'])

prop('C09', 'Recorded history is a faithful, immutable record',
 """Each tracked quantity has exactly one entry per tracked iteration (every save-interval-th, positions additionally having the initial ensemble first), and each entry equals the value the quantity had at that iteration, unaffected
 by anything that happens later. Tracking does not influence the dynamics and does not modify the caller's configuration, and a reset starts an empty history with the same configuration.""",
 ['histories', 'configurations'],
 'all track names, custom trackers, save intervals, dynamics, resets in the middle, long runs',
 'tests check lengths after a few steps; aliasing of stored arrays needs comparison with independently taken snapshots over a history',
 ['cbx/utils/history.py', D+'pdyn.py'],
 [('trackers', 'cbx/utils/history.py'), ('track/reset', D+'pdyn.py:init_history, track, reset')],
 ['dyn.history vs snapshots taken by the harness after each step'])

prop('C10', 'Ensembles stay finite and inside the post-processing bound',
 """After every step all particle coordinates are finite numbers within the configured threshold, whatever the objective returns (huge, infinite or not-a-number values), and whatever the parameters or noise are. Particles
 already within the bound are not changed by the post-processing, and the caller's initial array and parameter objects are never modified.""",
 ['inputs', 'fault_sequences', 'configurations'],
 'all finite initial ensembles, objectives failing with nan/inf/1e308 at any subset of calls or points, extreme parameters and noise, all dynamics',
 'tests check one NaN replacement; faulty objectives in the middle of a run are not injected',
 [D+'pdyn.py', D+'regcombinationcbo.py', 'cbx/utils/torch_utils.py'],
 [('post processing', D+'pdyn.py:post_process_default')],
 ['dyn.x after each step'])

prop('C11', 'A seed determines the whole run, and instances share no state',
 """Two optimizations constructed with the same arguments including the seed, and deterministic objective, produce identical trajectories, results and histories, independent of the global random state and of whatever other optimizations are created or advanced in between. Different
 seeds give different noise, and neither construction nor execution of one dynamic with an explicit seed changes another instance's results.""",
 ['schedules', 'configurations', 'histories'],
 'all dynamics and noise models; all interleavings of constructing and stepping several instances; arbitrary draws from the global generators in between',
 'tests seed the global generator and never interleave instances',
 [D+'pdyn.py', 'cbx/noise.py', D+'driftconstrainedcbo.py'],
 [('per-instance generator', D+'pdyn.py:set_array_backend_funs'), ('batch generator', D+'pdyn.py:init_batch_idx')],
 ['trajectories of twin instances'])

prop('C12', 'Parameter schedulers follow their rule and respect their bounds',
 """A multiplicative schedule changes exactly the named parameter by exactly the given factor per iteration and never exceeds its maximum; a list of schedules acts as their composition, once per iteration. The effective-sample-size schedule sets
 for each run an alpha inside its bounds at which the effective sample size of the current energies equals the requested fraction of particles up to the solver's tolerance and resolution whenever such an alpha exists, and the bound otherwise; the
 bisection solver finds, for each run separately, the root of any non-increasing function bracketed by its interval to the requested tolerance as far as its number of steps allows.""",
 ['histories', 'inputs', 'configurations'],
 'all parameters, factors, bounds, energies, eta, numbers of runs; any monotone function and bracket',
 'tests solve one or two toy roots and one multiply',
 ['cbx/scheduler.py', 'cbx/utils/torch_utils.py', D+'pdyn.py'],
 [('multiply/ensure_max', 'cbx/scheduler.py'), ('bisection', 'cbx/scheduler.py:bisection_solve')],
 ['parameter value after each iteration'])

prop('C13', 'Regularised objectives add exactly the weighted penalty',
 """A regularised objective evaluates to f(x) + lambda*R(x)^p for each particle of each run, with R the configured penalty (which is nonnegative and zero exactly on its target set) and lambda the weight of that run, without changing the original objective. The penalty-weight schedule
 raises a run's weight by the configured factor exactly when its (weighted) mean constraint violation exceeds the tolerance 1/sqrt(theta), adapts theta accordingly, and never leaves the configured bounds.""",
 ['inputs', 'histories', 'configurations'],
 'all ensembles, penalties (support, l1, plane, sphere, quadric, custom), exponents, scalar or per-run weights, schedules over many iterations',
 'tests evaluate one or two regularised points',
 ['cbx/regularizers.py', D+'regcombinationcbo.py'],
 [('regularised objective', 'cbx/regularizers.py:regularize_objective'), ('weight schedule', 'cbx/regularizers.py:regularization_paramter_scheduler')],
 ['objective values', 'weights after each iteration'])

prop('C14', 'Constraint functions, derivatives and implicit steps are consistent',
 """For every constraint the gradient and Hessian of the constraint and of its square are the true derivatives, combined constraints are the sums of their parts, and each implicit solve returns the solution of its linear system. A step of the
 drift-constrained and of the penalised-combination dynamics is exactly the documented semi-implicit update built from them, which with no constraint is the plain consensus step (with the mirrored noise).""",
 ['inputs', 'configurations', 'histories'],
 'all points, all planes/spheres/quadrics (non-symmetric matrices included), lists of constraints, step sizes and multi-run, batched ensembles',
 'tests compare single constraints at few points for symmetric data',
 ['cbx/constraints.py', D+'driftconstrainedcbo.py', D+'regcombinationcbo.py'],
 [('derivatives', 'cbx/constraints.py'), ('implicit solve', 'cbx/constraints.py:MultiConstraint'), ('step', D+'driftconstrainedcbo.py:dc_inner_step')],
 ['function values vs finite differences', 'x before/after step()'])

prop('C15', 'Hypersurface dynamics stay on the surface and move along it',
 """After every step of the hypersurface dynamic every moved particle lies on the chosen surface (sphere, plane or Stiefel manifold) up to rounding, projections are idempotent and return the nearest surface point, and tangential projections remove exactly the normal part. The step itself is the
 projection of the documented update (tangential drift toward the consensus plus tangential noise minus the curvature correction).""",
 ['inputs', 'configurations', 'histories'],
 'all surfaces, dimensions, noise models, parameters, numbers of runs, initial ensembles on the surface',
 'tests check the norm after one step on the sphere',
 [D+'hypersurfacecbo.py'],
 [('projection', D+'hypersurfacecbo.py:proj'), ('step', D+'hypersurfacecbo.py:inner_step')],
 ['x after each step', 'direct calls of the distance objects'])

prop('C16', 'Mirror maps are consistent and mirror iterates stay feasible',
 """For every mirror map the conjugate gradient maps any finite dual point into the feasible set (ball, box, simplex, sphere, plane, square boundary, positive orthant, ...) with finite coordinates, it inverts the gradient (projections: it is the nearest-point map and idempotent), and gradients of convex maps are monotone. The mirror dynamic performs
 the consensus step on its dual variable and its particles are always the image of the dual variable; with the quadratic map of unit weight it coincides with plain consensus-based optimization.""",
 ['inputs', 'configurations', 'histories'],
 'all mirror maps with all parameters; dual points of magnitude 0 to 1e8; multi-step histories with any noise, batching and number of runs',
 'tests run a few steps for some maps; inverse/monotone/feasibility relations are checked at a few random points',
 [D+'mirrorcbo.py'],
 [('conjugate gradients', D+'mirrorcbo.py'), ('step', D+'mirrorcbo.py:mirror_step')],
 ['map values', 'dyn.y and dyn.x after each step'])

prop('C17', 'Polarized consensus uses the kernel-localised Gibbs weights',
 """In the polarized dynamic each particle's consensus is the mean of its run's particles weighted by kernel(x_i,x_j)*exp(-alpha*energy_j) (kernel optionally to the power alpha), hence finite and inside the convex hull. Every kernel is symmetric, lies in [0,1], equals one on the
 diagonal, is non-increasing in the distance, and equals the exponential of minus its negative logarithm; with infinitely wide kernels the dynamic coincides with the unpolarized one.""",
 ['inputs', 'configurations', 'histories'],
 'all kernels, widths, scaling modes, ensembles with coincident particles, multi-run ensembles, covariance noise',
 'tests evaluate one kernel on small arrays',
 [D+'polarcbo.py'],
 [('kernels', D+'polarcbo.py'), ('polar consensus', D+'polarcbo.py:compute_polar_consensus')],
 ['kernel values', 'dyn.consensus after each step'])

prop('C18', 'Objectives are applied to particles one by one whatever their interface',
 """An objective given as a function of one point, of a list of points, or of the full ensemble yields the same energies: entry (m,n) is the objective at particle n of run m, for every ensemble shape including single runs, particles or dimensions. The values never depend on other particles in the call,
 inputs are not modified, objectives of wrong output shape are rejected at construction, and evaluation counters count points.""",
 ['inputs', 'configurations'],
 'all shapes (M,N,d), (N,d), (d,) and multi-axis particles; all interface kinds and benchmark classes',
 'tests use one or two shapes',
 ['cbx/utils/objective_handling.py', D+'pdyn.py', 'cbx/objectives.py'],
 [('promotion', 'cbx/utils/objective_handling.py'), ('shape check', D+'pdyn.py:check_f_dims')],
 ['returned energies', 'arguments received by the user function'])

prop('C19', 'Benchmark objectives match their definition and their stated minima',
 """Every benchmark function returns, for an ensemble of any shape, exactly one finite value per particle equal to its documented formula with the parameters of that instance. Where minimisers are stated, they are global minimisers: no point
 of the documented domain has a lower value (up to the stated digits), for every admissible parameter choice.""",
 ['inputs', 'configurations'],
 'all benchmark classes, all parameters, random and structured search points, ensembles incl. singleton axes',
 'tests evaluate shapes and few values with default parameters',
 ['cbx/objectives.py'],
 [('formulas and minima', 'cbx/objectives.py')],
 ['returned values'])

prop('C20', 'Resampling touches exactly the stagnating, still active runs',
 """A resampling step perturbs exactly the active runs selected by its criteria (ensemble update of the last step below its tolerance, consensus moved less than its tolerance in all of the last patience updates, best loss not improved during the configured patience), adding noise of standard deviation sigma*sqrt(dt) per coordinate, and counts one resampling for each of them. All other
 runs keep their particles bit for bit, and the tracked best consensus energy of a run never increases and belongs to the tracked best consensus.""",
 ['histories', 'configurations', 'schedules'],
 'all criteria and combinations, thresholds, patterns of stagnation, terminated subsets, repeated resampling',
 'tests trigger one resampling in one run',
 ['cbx/utils/resampling.py', D+'driftconstrainedcbo.py'],
 [('criteria', 'cbx/utils/resampling.py'), ('independent noise', D+'driftconstrainedcbo.py:indep_noise_step')],
 ['x before/after post-processing', 'num_resampling'])

prop('C21', 'Torch-backed dynamics compute the same as the numpy ones',
 """A dynamic that supports torch (basic, sampling, polarized, mirror and unconstrained drift-constrained ones, without covariance noise and corrections) produces after conversion to the torch backend, for the same initial ensemble, parameters, objective and noise, the same trajectory, consensus points, energies, best values, evaluation counts and termination as the numpy version up to floating-point precision. Results remain torch tensors, bookkeeping arrays numpy arrays.""",
 ['histories', 'configurations', 'inputs'],
 'all torch-convertible dynamics, noise models, batching, schedules, multi-run ensembles',
 'tests check that torch dynamics run; no lock-step comparison',
 ['cbx/utils/torch_utils.py', D+'pdyn.py'],
 [('conversion', 'cbx/utils/torch_utils.py:to_torch_dynamic')],
 ['paired numpy/torch executions'])

prop('C22', 'Neural-network parameter vectors round-trip losslessly',
 """For models without buffers of their own, flattening a stack of models into parameter vectors and evaluating a model from such a vector gives exactly the outputs of the original model; the recorded layout partitions the vector without gaps or overlaps for any selection and order of parameters (parameters that are not selected come from the base model). Batched evaluations of losses equal the
 losses of the individual models, and accuracies equal the fraction of correctly classified samples.""",
 ['inputs', 'programs', 'configurations'],
 'all model architectures built from parameterised layers, any number of models, any parameter subset order, any loader batch size',
 'tests use one architecture',
 ['cbx/utils/torch_utils.py'],
 [('flatten/eval', 'cbx/utils/torch_utils.py:flatten_parameters, get_param_properties, eval_model')],
 ['model outputs'])

prop('C23', 'Plots show the data of the chosen run, iteration and dimensions',
 """The particle, consensus and drift artists of a plot (of a live dynamic, or of a history recorded in every iteration while all runs were active) hold the coordinates of the chosen run and dimensions at the displayed iteration (drift arrows start at the particles they belong to and point toward the consensus), and the background shows the objective over
 the requested window. Plotting changes neither the dynamic nor its history.""",
 ['histories', 'configurations'],
 'all runs, iterations, dimension choices, windows, live or from history, batched or not',
 'tests check that plotting does not raise or only first offsets',
 ['cbx/plotting.py'],
 [('artists', 'cbx/plotting.py:PlotDynamic, PlotDynamicHistory')],
 ['matplotlib artist data (Agg)'])

prop('C24', 'Success evaluation classifies exactly the runs meeting the criteria',
 """The success evaluation returns exactly the indices of the runs whose best particle meets every given criterion (distance to the given point in the given norm below the tolerance, objective value below the threshold), and its number and rate agree with these indices. Evaluation changes nothing in the dynamic's trajectory and honours the requested verbosity.""",
 ['inputs', 'configurations'],
 'all numbers of runs, dimensions, norms, tolerances and criteria combinations incl. singleton axes',
 'tests evaluate one criterion on one array',
 ['cbx/utils/success.py'],
 [('criteria', 'cbx/utils/success.py')],
 ['returned dictionaries'])

prop('C25', 'Noise terms have the documented scaling and distribution',
 """Each noise term is sqrt(dt) times standard-normal samples drawn independently for every coordinate of every moved particle, multiplied by the particle's distance to its consensus (isotropic), by each coordinate's drift (anisotropic), by one (constant), or by the symmetric square root of the weighted covariance with the documented
 sampling/optimization factor (covariance). It vanishes where the drift vanishes (except the constant one), scales with the square root of the time step, and uses the sampler and norm the dynamic was configured with.""",
 ['inputs', 'configurations', 'histories'],
 'all drifts, shapes (multi-axis included), time steps, alphas, active subsets and batches',
 'tests check shapes and one formula',
 ['cbx/noise.py', D+'pdyn.py', D+'polarcbo.py'],
 [('noise models', 'cbx/noise.py'), ('covariance square root', D+'pdyn.py:update_covariance, compute_mat_sqrt')],
 ['noise arrays for recorded sampler draws'])

prop('C26', 'Optimizers converge and samplers sample on reference problems',
 """On convex and standard multimodal reference problems with recommended parameters, each optimizer brings the best energy of (almost) every run close to the global minimum within a bounded number of iterations, and improves with more iterations. Without noise each run contracts: its ensemble's bounding box never grows and
 its diameter decreases geometrically; consensus-based sampling reproduces mean and covariance of Gaussian targets.""",
 ['histories', 'configurations'],
 'fixed finite families of reference problems, seeds, dimensions and dynamics; bounded number of iterations (progress is bounded, no claim about eventual convergence)',
 'tests check no convergence, only shapes and single steps',
 [D+'cbo.py', D+'pdyn.py', D+'polarcbo.py', D+'mirrorcbo.py', D+'cbs.py', D+'pso.py', D+'cbo_memory.py'],
 [('all dynamics', 'cbx/dynamics/')],
 ['best energies, spreads, sample moments'])

prop('C27', 'Dynamics respect the symmetries of the problem',
 """Translating the initial ensemble together with the objective translates the whole trajectory, dilating both dilates it (scale-free noise), adding a constant to the objective leaves it unchanged, scaling the objective by s and alpha by 1/s leaves it unchanged, and relabelling particles or runs relabels the trajectory, given correspondingly transformed noise. Rotations of the
 coordinate system commute with the isotropic dynamics (on the sphere and on rotated planes too), coordinate permutations and reflections with all.""",
 ['inputs', 'configurations', 'histories'],
 'all dynamics to which the transformation applies, ensembles, transformations, parameters',
 'tests never compare two transformed executions',
 [D+'cbo.py', D+'pdyn.py', D+'polarcbo.py', D+'pso.py', D+'cbo_memory.py', D+'adamcbo.py', 'cbx/noise.py'],
 [('all dynamics', 'cbx/dynamics/')],
 ['paired executions'])

prop('C28', 'Termination criteria fire exactly on their documented condition',
 """Each built-in criterion, selected by any of its names, by a dictionary or as an object, fires for a run if and only if its condition holds for that run at that moment: iteration or time limit reached, best current energy below tolerance, ensemble update below tolerance, evaluation budget that one more evaluation of the step's ensemble would exceed, or
 the consensus energies of the last patience iterations having standard deviation below the threshold. A criterion never fires because of another run's values and never during the first patience iterations for stagnation.""",
 ['histories', 'configurations', 'inputs'],
 'all criteria, thresholds, patience values, multi-run histories with subsets terminated, batched histories',
 'tests call each criterion once on a dummy object',
 ['cbx/utils/termination.py', D+'pdyn.py'],
 [('criteria', 'cbx/utils/termination.py')],
 ['criterion outputs vs. reference recomputation at every iteration'])

prop('C29', 'Stepwise, split and resumed runs are equivalent to one optimization',
 """Calling single steps with the schedule applied after each, one call of the optimization loop, several calls with successively larger iteration limits, or continuing after an exception between two steps all produce the same trajectory, counters and results. Iteration count and simulated time advance by exactly one step (dt) per iteration,
 and a reset sets both to zero without altering the particles.""",
 ['histories', 'schedules', 'crash_points'],
 'all split points of all histories, for all dynamics and default or custom schedules, including stopping at any iteration and resuming',
 'tests call optimize or step, never compare them',
 [D+'pdyn.py', D+'cbs.py'],
 [('loop', D+'pdyn.py:optimize, step, reset')],
 ['paired executions'])

prop('C30', 'Invalid configurations are rejected, documented ones are accepted',
 """Every documented way to configure a dynamic (names, dictionaries, callables for noise, correction, kernel, mirror map, constraints, termination, tracking, post-processing, parameters as numbers, alpha also per run) is accepted for every dynamic that supports it and takes effect. Unknown names of a noise, correction, kernel, mirror map, constraint, surface, criterion, objective interface or keyword, missing dimensions,
 non-callable objectives and objectives of wrong shape raise an error at construction instead of being silently ignored.""",
 ['configurations'],
 'the product of all documented options over all dynamics, and a family of invalid values for each option',
 'tests probe a few of the options for basic CBO',
 [D+'pdyn.py', 'cbx/noise.py', 'cbx/correction.py', D+'mirrorcbo.py', D+'polarcbo.py', 'cbx/constraints.py', 'cbx/utils/termination.py', 'cbx/utils/particle_init.py'],
 [('option parsing', D+'pdyn.py')],
 ['exceptions and effects at construction'])

prop('C31', 'Particle initialisation has the requested shape, range and law',
 """Initial ensembles have exactly the requested shape (a two-dimensional request for normal particles being one run) and are independent uniform samples of the requested box or normal samples with the requested standard deviation. An ensemble given by the user is used as is (a single point or a single run being promoted to a full ensemble) and copied.""",
 ['inputs', 'configurations'],
 'all shapes, boxes, deviations and methods, for the helper and for dynamics built from (M,N,d) or x',
 'tests check shapes',
 ['cbx/utils/particle_init.py', D+'pdyn.py'],
 [('initialisation', 'cbx/utils/particle_init.py:init_particles'), ('promotion', D+'pdyn.py:init_x')],
 ['returned arrays'])

prop('C32', 'Dynamics written by the user get the services of the framework',
 """A dynamic derived from ParticleDynamic, CBXDynamic or a shipped dynamic runs under the same framework: every step calls pre_step, inner_step and
 post_step once and in this order, inner_step sees the particles unchanged and their copy in x_old, and the update rule of the user is what moves the
 particles. Iteration counter, time, evaluation counters, update norm, best energies and particles, history with the user's own tracks, termination
 of single runs, post processing, reports and the result of optimize are those of the derived class, whose own default_sched and known_tracks are used
 without changing the base class. Overriding a hook with one that only observes and calls its base does not change the trajectory.""",
 ['histories', 'configurations', 'inputs'],
 'every step of every run of derived classes with own update rules (with or without consensus or noise), own schedules, tracks and hooks, any base, batches, subsets of active runs, post processing',
 'tests only contain the shipped dynamics; a derived class relies on the order of the hooks and on what is up to date in each of them',
 [D+'pdyn.py', D+'cbo.py', 'cbx/utils/history.py'],
 [('step and hooks', D+'pdyn.py:ParticleDynamic.step'), ('services after the step', D+'pdyn.py:ParticleDynamic.post_step'), ('optimization loop', D+'pdyn.py:ParticleDynamic.optimize'), ('tracks', D+'pdyn.py:init_history')],
 ['state at the hooks of the derived class', 'dyn attributes, history and results'])

with open(OUT, 'w') as fh:
    for d in P:
        fh.write(json.dumps(d) + '\n')
print(len(P), 'properties')
