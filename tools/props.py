"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/probnum/"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[S + f for f in files],
                             mechanism=[dict(name=n, where=S + w) for n, w in mech],
                             observe_at=observe or ["public API return values"],
                             hook_needed=None),
                _technique=technique, _note=note)


PROPS = [
P("C01", "Linear operator expressions act exactly like their dense matrices",
  "Any expression built from linear operators (sums, differences, negation, scalar multiples, products, transposes, inverses, type casts, Kronecker and block structure, selections, embeddings, sparse or dense matrices, mixed dtypes, lazy or eager products) has the shape and the values of the same expression over dense matrices, whether it is densified, applied from the left or right to vectors, matrices or stacks, or applied along an axis. Applying or combining operators never modifies operands. Operands whose shapes do not fit are rejected, never silently broadcast.",
  ["inputs", "programs"], "all operator expressions, dtypes, operand shapes and application modes",
  "The tests fix a few dozen hand-picked operators and pairs; the dispatch table has hundreds of type pairs, each interacting with dtype, shape, laziness and nesting.",
  ["linops/_linear_operator.py", "linops/_arithmetic.py", "linops/_arithmetic_fallbacks.py", "linops/_kronecker.py", "linops/_scaling.py", "linops/_block.py", "linops/_vectorize.py", "linops/_utils.py"],
  [("pairwise arithmetic dispatch", "linops/_arithmetic.py"), ("matmul/apply/transposed application", "linops/_linear_operator.py"), ("vectorisation of mat-mat products", "linops/_vectorize.py")],
  "property-based testing: random operator expressions, differential against dense numpy",
  "Exploration: ~11k expressions per quick run against a dense reference; trusts numpy; tolerance scaled by the magnitude of the expression."),
P("C02", "Derived quantities and structure claims match the dense matrix",
  "For every operator, rank, determinant, log-determinant, trace, diagonal, eigenvalues, condition numbers, inverse, linear solves, symmetrization and Cholesky factors agree with those of its dense matrix, and quantities that do not exist (non-square, singular, indefinite) raise a linear-algebra error instead of returning a value. Every structural claim an operator makes about itself (symmetric, triangular, positive definite) is true of its dense matrix. Contradictory or impossible claims are rejected.",
  ["inputs", "programs"], "all square and rectangular operator expressions and all derived quantities",
  "Specialised formulas exist per operator class and combination; tests evaluate them on a handful of well-behaved float64 instances.",
  ["linops/_linear_operator.py", "linops/_kronecker.py", "linops/_scaling.py", "linops/_block.py", "linops/_arithmetic_fallbacks.py"],
  [("derived quantities", "linops/_linear_operator.py"), ("structured formulas", "linops/_kronecker.py"), ("property inference", "linops/_block.py")],
  "property-based testing: random operator expressions, derived quantities differential against dense LAPACK",
  "Exploration; numerically undecidable queries (ill-conditioned) are counted as not decided."),
P("C03", "Operators are values: answers do not depend on query history",
  "In any history of queries, truthful property assignments and derivations on a set of linear operators, every answer equals the answer for the dense matrix, however often and in whatever order things were asked before. Caching a result, factorizing, transposing or failing an operation never changes what the operator or any operator derived from it represents.",
  ["histories"], "all interleavings of queries, property assignments and derivations on related operators",
  "Tests query fresh operators once; caches of dense forms, factors, determinants and flags are shared between an operator and its transpose/inverse/casts, so failures need particular orders.",
  ["linops/_linear_operator.py", "linops/_scaling.py", "linops/_kronecker.py", "linops/_block.py"],
  [("result caches", "linops/_linear_operator.py"), ("transposed/inverse/cast wrappers", "linops/_linear_operator.py")],
  "stateful property-based testing: histories over a pool of related operators against dense models",
  "Exploration of ~7k histories per quick run."),
P("C04", "Arithmetic on Gaussian random variables is the exact linear pushforward",
  "For Normal random variables of any shape, with dense, Kronecker or other linear-operator moments and with or without a cached Cholesky factor, adding, subtracting, negating, scaling, shifting by constants, and multiplying with matrices or linear operators from either side gives the Normal whose mean and covariance are those of the exact linear transformation, composed over whole chains of operations. A Cholesky factor carried along always factorizes the covariance of the result, and the operands keep their moments.",
  ["inputs", "programs"], "all chains of arithmetic operations on Normal and constant operands, all shapes and representations of the moments",
  "Tests check single operations on fixed vectors; moment representation, cached factors, shapes and operation order multiply.",
  ["randvars/_normal.py", "randvars/_constant.py", "randvars/_arithmetic.py", "randvars/_random_variable.py"],
  [("pairwise random variable arithmetic", "randvars/_arithmetic.py"), ("Normal moments and Cholesky cache", "randvars/_normal.py")],
  "property-based testing: chains of operations against moments of the exact linear map",
  "Exploration; model propagates dense mean and covariance; tolerance relative to the magnitude of the moments."),
P("C05", "Views, densities and statistics describe the same distribution",
  "Indexing, masking, reshaping and transposing a random variable yields the distribution of the indexed, reshaped, transposed realization. mean, mode, median, var, std, cov, entropy, pdf, logpdf, cdf, logcdf, quantile, in_support, pmf and logpmf agree with each other and with the closed-form densities of the Normal, Categorical or point-mass distribution, for every batch of arguments. Arithmetic on generic random variables acts on their realizations.",
  ["inputs", "programs"], "all index expressions, shapes, distribution representations and argument batches",
  "A view of a random variable has to transform mean, covariance, factors, support and sampling coherently; tests cover isolated pairs.",
  ["randvars/_normal.py", "randvars/_constant.py", "randvars/_categorical.py", "randvars/_random_variable.py", "randvars/_arithmetic.py", "randvars/_utils.py"],
  [("views of Normals", "randvars/_normal.py"), ("generic random variables", "randvars/_random_variable.py"), ("events and probabilities", "randvars/_categorical.py")],
  "property-based testing: model-based views and closed-form densities",
  "Exploration; densities through scipy on the dense covariance restricted to well-conditioned cases."),
P("C06", "Samples have the requested shape and stated moments and depend only on the seed",
  "Sampling any random variable with a size returns an array of shape size plus the shape of the variable with its dtype, reproducible from the generator's seed alone. Normal samples are exactly mean plus a square root of the covariance times the standard normal draws, so they reproduce the stated covariance for every representation of it. Categorical samples come from the support with the stated probabilities, constants sample to themselves, and sampling never changes the variable.",
  ["inputs", "histories"], "all random variables, sizes, seeds and interleavings of sampling with other queries",
  "Statistical tests on one distribution with loose tolerance cannot tell a wrong square root; structured covariances take separate code paths.",
  ["randvars/_normal.py", "randvars/_categorical.py", "randvars/_constant.py", "randvars/_random_variable.py", "randvars/_utils.py"],
  [("sampling", "randvars/_normal.py"), ("sample size handling", "randvars/_random_variable.py")],
  "property-based testing: exact whitening of samples with a recorded standard-normal stream, seed replay",
  "Exploration; known finding: a Normal sampled with size=1 drops the axis (existing tests require it)."),
P("C07", "Functions add and scale pointwise; Gaussian processes evaluate coherently",
  "Sums, differences, negations and scalar multiples of functions (including the zero function) evaluate pointwise to the same combination of values, for every input batch shape, and functions or inputs whose shapes do not fit are rejected. A Gaussian process evaluated at any batch of inputs is the Normal whose mean, covariance, variance and standard deviation are those of its mean and covariance function at these inputs, entry by entry also for vector-valued processes, and sampling it at inputs equals sampling that Normal.",
  ["inputs", "programs"], "all function expressions, input batches, covariance functions and output shapes",
  "Special-cased sums with zero functions or nested sums and the ordering of outputs against batches only show on particular shapes.",
  ["functions/_function.py", "functions/_algebra.py", "functions/_algebra_fallbacks.py", "functions/_zero.py", "randprocs/_gaussian_process.py", "randprocs/_random_process.py"],
  [("function algebra dispatch", "functions/_algebra.py"), ("process evaluation", "randprocs/_gaussian_process.py")],
  "property-based testing: random function expressions and processes against pointwise references",
  "Exploration."),
P("C08", "Covariance functions equal their closed forms in every evaluation mode",
  "Each covariance function (exponentiated quadratic, Matern and product Matern of any smoothness, rational quadratic, white noise, linear, polynomial) and every sum, product and scalar multiple of them evaluates to its defining formula at every pair of inputs, with broadcasting of the batch dimensions, any input shape and dtype, and an omitted second argument meaning equal arguments. The dense matrix and the linear operator contain exactly these values in the documented order, are symmetric positive semi-definite for a single input set, and inputs of the wrong shape are rejected.",
  ["inputs", "programs"], "all covariance function expressions, parameters, input shapes, batch shapes and dtypes",
  "Tests compare evaluation modes with each other on few parameters; formulas, per-dimension scales and shortcut paths must agree with the definition everywhere.",
  ["randprocs/covfuncs/_covariance_function.py", "randprocs/covfuncs/_covariance_linear_operator.py", "randprocs/covfuncs/_matern.py", "randprocs/covfuncs/_product_matern.py", "randprocs/covfuncs/_exponentiated_quadratic.py", "randprocs/covfuncs/_rational_quadratic.py", "randprocs/covfuncs/_white_noise.py", "randprocs/covfuncs/_linear.py", "randprocs/covfuncs/_polynomial.py", "randprocs/covfuncs/_arithmetic_fallbacks.py"],
  [("shape checks and matrix assembly", "randprocs/covfuncs/_covariance_function.py"), ("sum, product, scaling", "randprocs/covfuncs/_arithmetic_fallbacks.py")],
  "property-based testing: kernel expressions against scalar closed forms",
  "Exploration; KeOps products of the lazy operator are not exercised (they need a compiler at run time), dense forms are."),
P("C10", "Discrete Gaussian transitions predict, condition, smooth and sample exactly",
  "For every linear Gaussian transition y = H(t) x + v(t) (time-varying or not, biased or noise-free, rectangular, any diffusion scale), forward_rv returns the exact Gaussian of y with the exact cross-covariance and gain, backward_realization the exact conditional of x given y, and backward_rv the exact Rauch-Tung-Striebel smoothing distribution. The classic, square-root, Joseph and matrix-free implementations agree, with or without a reused forward result; smoothing a list and transforming base-measure draws forward or backward yields the exact joint distribution of the chain. Returned Cholesky factors factorize the returned covariance and inputs are not modified.",
  ["inputs", "programs"], "all transition matrices, noises, dimensions, time points, diffusions, implementation pairs and state distributions",
  "The tests compare implementations with each other on one random model per fixture; bias terms, diffusion scaling, rectangular observation models and sampling factors need exact references on many models.",
  ["randprocs/markov/_transition.py", "randprocs/markov/discrete/_linear_gaussian.py", "randprocs/markov/discrete/_lti_gaussian.py", "randprocs/markov/discrete/_nonlinear_gaussian.py", "randprocs/markov/discrete/_condition_state.py", "utils/linalg/_cholesky_updates.py"],
  [("forward and backward steps", "randprocs/markov/discrete/_linear_gaussian.py"), ("list smoothing and joint sampling", "randprocs/markov/_transition.py")],
  "property-based testing: random models, differential against dense Gaussian conditioning",
  "Exploration of ~11k models per quick run; predicted covariances are kept well conditioned."),
P("C11", "Continuous-time priors are discretised exactly; diffusions calibrated",
  "The discretisation of any linear time-invariant SDE equals the exact solution: transition matrix exp(F dt), shift and process noise given by the variation-of-constants integrals. Integrated Wiener, integrated Ornstein-Uhlenbeck and Matern priors propagate and smooth in preconditioned coordinates exactly as their SDE demands for any number of derivatives, dimension and step, also when forward results are reused; the Matern prior reproduces the Matern kernel; the moment equations of time-varying linear SDEs are solved to tolerance and coordinate changes are inverse to each other; constant and piecewise-constant diffusions report, after any history of accepted and rejected estimates, the running mean or the right-continuous step function, and sample paths follow the joint law of the process from its initial argument.",
  ["inputs", "histories"], "all linear SDEs, integrator orders, dimensions, steps, state distributions, and histories of diffusion estimates",
  "Tests check a few orders at one step, compare implementations sharing the same code, and never use force vectors, reuse of gains, or histories of estimates.",
  ["randprocs/markov/continuous/_lti_sde.py", "randprocs/markov/continuous/_linear_sde.py", "randprocs/markov/continuous/_mfd.py", "randprocs/markov/continuous/_diffusions.py", "randprocs/markov/integrator/_iwp.py", "randprocs/markov/integrator/_ioup.py", "randprocs/markov/integrator/_matern.py", "randprocs/markov/integrator/_preconditioner.py", "randprocs/markov/integrator/_integrator.py", "randprocs/markov/_markov.py"],
  [("matrix fraction decomposition", "randprocs/markov/continuous/_mfd.py"), ("preconditioned steps", "randprocs/markov/integrator/_iwp.py"), ("diffusion calibration", "randprocs/markov/continuous/_diffusions.py")],
  "property-based testing: random SDEs against matrix exponential and Gauss-Legendre quadrature; histories of diffusion estimates against a list model",
  "Exploration; moment equations checked to 1e-5, sampling statistically at 7 sigma with fixed seeds."),
P("C12", "Kalman filter, smoother and dense output equal batch Gaussian regression",
  "For every Gauss-Markov prior (continuous, integrator or discrete, time-varying), every time grid and every sequence of linear Gaussian measurements, the Kalman filter states equal the conditional of the prior on the data seen so far and the Kalman smoother states the conditional on all data, whichever forward and backward implementation is used. Dense output between, before (where supported) and after grid points, for scalars or arrays in any order, equals the exact conditional there; joint samples follow the exact joint posterior in the order requested. Diffusion models scale the right intervals, merged regression problems are time-sorted unions of the parts, and processing step by step equals processing at once.",
  ["inputs", "histories"], "all Gauss-Markov priors, time grids, measurement models, data, query locations and implementation pairs",
  "Existing tests compare RMSE or one dense-output scenario; off-by-one time or interval indices need time-varying models and irregular grids.",
  ["filtsmooth/gaussian/_kalman.py", "filtsmooth/gaussian/_kalmanposterior.py", "filtsmooth/_timeseriesposterior.py", "filtsmooth/utils/_merge_regression_problems.py", "problems/_problems.py"],
  [("filter recursion", "filtsmooth/gaussian/_kalman.py"), ("interpolation and sampling", "filtsmooth/gaussian/_kalmanposterior.py")],
  "property-based testing: random state-space models, differential against dense joint Gaussian conditioning",
  "Exploration; sampling compared exactly through base-measure transformation."),
P("C14", "Nonlinear filters apply their linearisation, iteration and resampling rules",
  "Extended Kalman filtering replaces a nonlinear model by its first-order Taylor expansion at the current mean, unscented filtering by moment matching over the sigma points, exactly, for discrete and continuous models, and both reduce to Kalman filtering on affine models. Iterated updates and iterated smoothing relinearise at the latest estimate until the stopping criterion (relative and absolute tolerance) holds and at convergence are fixed points, that is, Gauss-Newton MAP estimates. Particle filters return normalised weights equal to the accumulated importance weights, resample exactly when the effective number falls below the threshold, propagate the resampled particles, and are reproducible from the seed.",
  ["inputs", "histories", "schedules"], "all nonlinear models with Jacobians, priors, data, stopping tolerances, particle numbers, thresholds and seeds",
  "Tests measure RMSE on a pendulum; a slightly wrong linearisation point, weight or iteration order still filters well there.",
  ["filtsmooth/gaussian/approx/_extendedkalman.py", "filtsmooth/gaussian/approx/_unscentedkalman.py", "filtsmooth/optim/_stopping_criterion.py", "filtsmooth/optim/_state_space_optimizer.py", "filtsmooth/optim/_gauss_newton.py", "filtsmooth/particle/_particle_filter.py", "filtsmooth/particle/_importance_distributions.py"],
  [("linearisation", "filtsmooth/gaussian/approx/_extendedkalman.py"), ("weights and resampling", "filtsmooth/particle/_particle_filter.py")],
  "property-based testing: random nonlinear models against finite references (Taylor, sigma points, Gauss-Newton, importance weights)",
  "Exploration; particle weights compared up to the documented 1e-14 offset."),
P("C15", "ODE solvers step through every stop to the final time under the step rule",
  "Every ODE solver returns a strictly increasing grid that starts at the initial time, ends at the (current) final time, never passes it, also not in the first step, and contains every requested time stop inside the interval, for sorted stops in any iterable, repeated, empty or out of range. Attempted steps follow the step rule: constant steps are constant except where stops or the end shorten them; adaptive steps are accepted exactly if the scaled error is below one, retried from the same state otherwise, and scaled by the safety and limit factors within the admissible range. Callbacks act once per accepted step, in order, and the modified state and problem are what the solver continues with.",
  ["inputs", "schedules", "histories"], "all problems, step rules, sequences of error estimates, time stops and callbacks",
  "The tests use a single problem with benign stops; endpoints, repeated stops, callbacks changing the problem and error sequences need generated schedules.",
  ["diffeq/_odesolver.py", "diffeq/stepsize/_steprule.py", "diffeq/stepsize/_propose_firststep.py", "diffeq/callbacks/_discrete_callback.py", "diffeq/_utils.py", "diffeq/_probsolve_ivp.py", "diffeq/_perturbsolve_ivp.py"],
  [("solution_generator, perform_full_step, time stops", "diffeq/_odesolver.py"), ("step selection", "diffeq/stepsize/_steprule.py")],
  "property-based testing: scripted error sequences and callbacks against a reference step-selection model",
  "Exploration; sorted time stops only."),
P("C16", "ODE filters compute the calibrated Gaussian posterior they define",
  "On its own grid the ODE filter solution equals extended Kalman filtering of the integrator prior on the ODE residual being zero: linearised at the predicted mean to zeroth (EK0) or first (EK1) order, for autonomous and time-dependent vector fields, with diffusions calibrated per step or globally by quasi maximum likelihood, smoothed with the same calibrated diffusions, with accepted steps meeting the tolerance. States, derivatives, dense output and samples are the exact marginals of that posterior, the filtering solution is the unsmoothed one, and the mean approximates the true ODE solution in line with step size or tolerance. Initialisation routines, information operators and the conversion of an initial value problem into a regression problem return what they state.",
  ["inputs", "programs"], "all vector fields with Jacobians, integrator priors, orders, step rules, diffusion models, initialisations and query times",
  "Tests check that solutions are roughly accurate; covariances, calibration, time arguments and smoothing consistency are not compared with an independent reference.",
  ["diffeq/odefilter/_odefilter.py", "diffeq/odefilter/_odefilter_solution.py", "diffeq/odefilter/approx_strategies/_ek.py", "diffeq/odefilter/information_operators/_ode_residual.py", "diffeq/odefilter/information_operators/_approx_information_operator.py", "diffeq/odefilter/init_routines/_stack.py", "diffeq/odefilter/init_routines/_non_probabilistic_fit.py", "diffeq/odefilter/utils/_problem_utils.py"],
  [("attempt_step and postprocess", "diffeq/odefilter/_odefilter.py"), ("residual information", "diffeq/odefilter/information_operators/_ode_residual.py")],
  "property-based testing: random initial value problems, differential against a dense reference filter, calibration and smoother",
  "Exploration; known finding F04: vanishing residuals. Automatic-differentiation initialisation needs jax, which is not installed."),
P("C17", "Runge-Kutta and perturbed-step solvers do exactly the perturbed steps",
  "The wrapped Runge-Kutta solver performs the steps of its tableau and its dense output is the method's interpolant. The perturbed-step solver draws one perturbation per attempted step, integrates over the perturbed step, assigns the result to the unperturbed time, keeps scales and interpolants of accepted steps only, and its dense output is the interpolant rescaled to the unperturbed interval, continuous through all grid points. The perturbations follow the stated uniform and log-normal distributions, are reproducible from the generator, vanish with the noise scale, and a solver object can be reused.",
  ["inputs", "histories"], "all problems, methods, step rules, perturbation sequences, seeds and query times",
  "Tests check single steps and a few interpolation points; rejected steps and interleavings of scales and interpolants need generated histories.",
  ["diffeq/perturbed/scipy_wrapper/_wrapped_scipy_solver.py", "diffeq/perturbed/scipy_wrapper/_wrapped_scipy_odesolution.py", "diffeq/perturbed/step/_perturbedstepsolver.py", "diffeq/perturbed/step/_perturbedstepsolution.py", "diffeq/perturbed/step/_perturbation_functions.py", "diffeq/_perturbsolve_ivp.py"],
  [("perturbed attempts", "diffeq/perturbed/step/_perturbedstepsolver.py"), ("rescaled interpolation", "diffeq/perturbed/step/_perturbedstepsolution.py")],
  "property-based testing: scripted perturbations against an independent Runge-Kutta implementation; goodness-of-fit of the perturbations",
  "Exploration; known finding F05: slope reuse after rejected or perturbed steps (the check accepts exactly that behaviour or the correct one)."),
P("C18", "Linear solvers iterate exact Gaussian conditioning on their observations",
  "Every probabilistic linear solver state equals the exact Gaussian posterior given the actions taken and the observations made: solution-based solvers condition the belief over x on projected residuals, matrix-based ones condition the (symmetric) matrix-variate beliefs over A or its inverse on matrix-vector products, with observation noise if given, for any prior, action sequence and matrix representation (dense, sparse, operator). Conjugate-gradient actions are A-conjugate and solve a positive definite system in at most n exact steps; random unit vectors follow the requested sampling distribution and cycle without replacement. Residual, solution error, iteration and action histories in the state are what they claim, and the loop ends exactly at the first state in which the (arbitrarily composed) stopping criterion holds; BayesCG, ProbabilisticKaczmarz, MatrixBasedPLS and SymMatrixBasedPLS are these components with the stated policies.",
  ["inputs", "programs", "histories"], "all linear systems, representations, priors, action sequences, noise levels and boolean compositions of stopping criteria",
  "Tests run a few random systems to convergence, where any consistent update converges; posterior covariances along the way, singular or vanishing residuals and composed criteria need an exact reference.",
  ["linalg/solvers/_probabilistic_linear_solver.py", "linalg/solvers/_state.py", "linalg/solvers/belief_updates/solution_based/_projected_residual_belief_update.py", "linalg/solvers/belief_updates/matrix_based/_matrix_based_linear_belief_update.py", "linalg/solvers/belief_updates/matrix_based/_symmetric_matrix_based_linear_belief_update.py", "linalg/solvers/beliefs/_linear_system_belief.py", "linalg/solvers/policies/_conjugate_gradient.py", "linalg/solvers/policies/_random_unit_vector.py", "linalg/solvers/stopping_criteria/_residual_norm.py", "linalg/solvers/stopping_criteria/_posterior_contraction.py", "_pnmethod/_stopping_criterion.py"],
  [("solve_iterator", "linalg/solvers/_probabilistic_linear_solver.py"), ("belief updates", "linalg/solvers/belief_updates")],
  "property-based testing: scripted action sequences, differential against dense Gaussian conditioning; stopping decisions against a reference evaluation",
  "Exploration; comparison of a run ends once its observations become linearly dependent (the sequential update divides by round-off there)."),
P("C19", "problinsolve returns the solution and the posterior it reports",
  "problinsolve solves every symmetric positive definite system, given as array, sparse matrix or linear operator, with one or several right-hand sides, exact or random: the returned solution meets the reported convergence criterion with the reported residual norm, in at most the allowed number of iterations, with an error bounded accordingly. Along the iteration the search directions, step sizes and residuals satisfy the recursion of the method, and the beliefs over A, its inverse and the solution are the exact symmetric matrix-variate posteriors for the prior given by x0, A0 or Ainv0. Inputs are not modified and malformed inputs are rejected with the stated error.",
  ["inputs", "histories"], "all positive definite systems, representations, right-hand sides, priors, initial guesses and tolerances",
  "Tests solve well-posed systems to convergence; covariances after one step, initial guesses of particular direction, vanishing right-hand sides and random right-hand sides are not exercised.",
  ["linalg/_problinsolve.py", "linalg/solvers/matrixbased.py"],
  [("interface and prior construction", "linalg/_problinsolve.py"), ("iteration and beliefs", "linalg/solvers/matrixbased.py")],
  "property-based testing: random systems and priors, per-iteration differential against dense symmetric matrix-variate conditioning",
  "Exploration; calibrated uncertainty is only bounded, not compared."),
P("C20", "Bayesian quadrature returns the exact posterior over the integral",
  "For every supported pair of kernel and integration measure, every set of nodes and function values, jitter and scale estimation, the integral belief is the Gaussian process posterior of the integral: mean z K^-1 f, variance s(kPP - z K^-1 z) with s one or the maximum likelihood scale. It does not depend on the order of the nodes or on how they were batched, predictions of the integrand are the matching posterior and integrate to the integral mean, the mean is linear in the data and exact on the span of the kernel functions, and changes of variables, additional data and scaled data act as they must. Multilevel quadrature sums the independent levels, states keep the whole history, inputs stay unmodified and inconsistent inputs are rejected.",
  ["inputs", "histories"], "all kernels, measures, dimensions, node sets, data, batch partitions, jitters and scale options",
  "Tests check that integrals of smooth functions are about right, which holds for many wrong variances, scales or batch updates.",
  ["quad/_bayesquad.py", "quad/solvers/_bayesian_quadrature.py", "quad/solvers/_bq_state.py", "quad/solvers/belief_updates/_standard_update.py", "quad/solvers/belief_updates/_belief_update.py"],
  [("belief update and prediction", "quad/solvers/belief_updates/_standard_update.py"), ("interfaces", "quad/_bayesquad.py")],
  "property-based testing: differential against dense conditioning with numerically integrated kernels; metamorphic relations",
  "Exploration; Gram matrices with condition number below 1e7."),
P("C21", "Kernel embeddings and measures are the integrals they stand for",
  "For every supported kernel (exponentiated quadratic, Matern in one dimension, product Matern with smoothness 1/2 to 7/2) and measure (Lebesgue on any box, normalised or not; any Gaussian), kernel_mean is the integral of the kernel over its first argument at any point, inside or outside of the domain, and kernel_variance the double integral; they are consistent with each other, additive in the domain, and unsupported combinations are refused. The measures' densities integrate to their mass and vanish outside the domain, samples lie in the domain, follow the measure and are reproducible, and domains are validated and expanded as documented.",
  ["inputs"], "all kernel parameters, domains, means, covariances, dimensions and evaluation points",
  "Tests compare with numerical integrals at a single lengthscale and smoothness per kernel and never leave the domain.",
  ["quad/kernel_embeddings/_kernel_embedding.py", "quad/kernel_embeddings/_expquad_gauss.py", "quad/kernel_embeddings/_expquad_lebesgue.py", "quad/kernel_embeddings/_matern_lebesgue.py", "quad/integration_measures/_integration_measure.py", "quad/integration_measures/_lebesgue_measure.py", "quad/integration_measures/_gaussian_measure.py", "quad/_utils.py"],
  [("closed-form embeddings", "quad/kernel_embeddings"), ("measures", "quad/integration_measures")],
  "property-based testing: closed forms against composite Gauss-Legendre quadrature of textbook kernels",
  "Exploration; relative accuracy 1e-9, lengthscales 1/8 to 8, boxes up to width 4."),
P("C22", "The quadrature loop selects nodes, spends its budget and stops as specified",
  "bayesquad evaluates the integrand at the given nodes, then at the initial design, then in batches chosen by the policy, and stops exactly at the first state that satisfies one of the given (or default) stopping criteria; the information returned counts evaluations and iterations, and the belief is the posterior given all evaluations. Van der Corput nodes are the mapped binary sequence continued at the current number of nodes; random policies and Monte Carlo designs sample the measure reproducibly; Latin designs put one node into each slice of each axis; acquisition policies return a maximiser over their candidates, no worse than any start of the optimiser, inside the domain. The acquisition functions equal predictive variance times squared density, the relative reduction of the integral variance by one more observation, and the mutual information, for every state including the prior.",
  ["inputs", "schedules", "histories"], "all problems, policies, designs, batch sizes, stopping options and states",
  "Tests call policies in isolation and check shapes; named acquisition policies, stopping at the first satisfied criterion and acquisition values need the whole loop and an exact reference.",
  ["quad/solvers/_bayesian_quadrature.py", "quad/solvers/policies/_max_aquisition_policy.py", "quad/solvers/policies/_van_der_corput_policy.py", "quad/solvers/policies/_random_policy.py", "quad/solvers/initial_designs/_latin_design.py", "quad/solvers/initial_designs/_mc_design.py", "quad/solvers/acquisition_functions/_integral_variance_reduction.py", "quad/solvers/acquisition_functions/_mutual_information.py", "quad/solvers/acquisition_functions/_predictive_variance.py", "quad/solvers/stopping_criteria/_rel_mean_change.py"],
  [("loop and integrate", "quad/solvers/_bayesian_quadrature.py"), ("acquisition functions", "quad/solvers/acquisition_functions")],
  "property-based testing: recorded evaluation histories replayed through a reference model of posterior and stopping rules",
  "Exploration; decisions within round-off of a threshold are inconclusive, optimiser policies for a vanishing integrand or an optimiser that gives up (RuntimeError) are not judged."),
P("C13", "Time series of states are kept, indexed, evaluated and merged faithfully",
  "A posterior over time is an append-only, ordered history: appended locations must strictly increase, the states and locations read back (by index, slice, iteration, length) are those appended, a frozen posterior refuses further additions and leaves the object unchanged, what is handed out cannot be used to change the history, and dense evaluation at sorted times returns one value per time, in order, interpolated between the two neighbouring states and extrapolated only outside of the data; unsorted times are refused. Lists of random variables expose mean, cov, var and std as the stacked statistics of the current entries after any sequence of list operations. Merging regression problems keeps every observation exactly once with its own measurement model, in time order, for any number of data sets, and refuses shared locations and inconsistent shapes.",
  ["histories", "inputs"], "all sequences of append, freeze, index and evaluation operations; all collections of data sets",
  "Tests build each object once and read it once; stale statistics after mutation, merges with per-step models and refused operations that leave traces only show over histories.",
  ["filtsmooth/_timeseriesposterior.py", "randvars/_randomvariablelist.py", "filtsmooth/utils/_merge_regression_problems.py", "problems/_problems.py"],
  [("append, freeze, evaluate", "filtsmooth/_timeseriesposterior.py"), ("merge", "filtsmooth/utils/_merge_regression_problems.py")],
  "model-based property testing: operation histories mirrored in a plain Python list",
  "Exploration."),
P("C23", "Zoo problems are what they document, and reference solutions solve them",
  "For all parameters, each zoo problem is the documented problem: right-hand sides of initial value problems agree with their formulas, their Jacobians and Hessians with derivatives of the right-hand side, stated solutions with the equation and the initial value; quadrature problems' integrals are the integrals of their integrands over their domains, also after the transformation to a Gaussian measure; random matrices have the promised definiteness, spectrum and sparsity; linear systems satisfy A x = b; state-space models have the documented dynamics, dispersions scaled by process_diffusion, measurement models, initial distributions and data on the requested grid, generated reproducibly.",
  ["inputs"], "all problem parameters, dimensions, initial values, time grids, noise levels and seeds",
  "Tests instantiate the problems with defaults and check types; a wrong Jacobian, solution or moment formula for other parameters is invisible.",
  ["problems/zoo/diffeq/_ivp_examples.py", "problems/zoo/quad/_quadproblems_uniform.py", "problems/zoo/quad/_quadproblems_gaussian.py", "problems/zoo/quad/_emukit_problems.py", "problems/zoo/linalg/_random_spd_matrix.py", "problems/zoo/linalg/_random_linear_system.py", "problems/zoo/filtsmooth/_filtsmooth_problems.py"],
  [("initial value problems", "problems/zoo/diffeq/_ivp_examples.py"), ("integrals", "problems/zoo/quad"), ("state-space models", "problems/zoo/filtsmooth")],
  "property-based testing: closed forms against numerical differentiation, integration and simulation",
  "Exploration; suitesparse_matrix needs network access and is not covered."),
P("C24", "Linear-algebra helpers compute what they are named after",
  "cholesky_update returns the lower triangular factor with nonnegative diagonal of the sum of the given outer products (any shapes, rank-deficient and zero included); tril_to_positive_tril flips signs without changing the product. Inner products and induced norms, for identity, array or operator metrics, satisfy their definition with broadcasting; (modified, double) Gram-Schmidt returns the component orthogonal to the basis under the given product, normalised on request, for any dtype. as_shape, as_numpy_scalar and as_colvec return the documented canonical form and reject everything else; no input is modified.",
  ["inputs"], "all matrices, bases, inner products, dtypes and shape-like values",
  "Tests use full-rank random floats; degenerate factors, integer input and non-Euclidean products go unexercised although every filter and solver depends on them.",
  ["utils/linalg/_cholesky_updates.py", "utils/linalg/_inner_product.py", "utils/linalg/_orthogonalize.py", "utils/argutils.py", "utils/arrayutils.py"],
  [("cholesky_update", "utils/linalg/_cholesky_updates.py"), ("Gram-Schmidt", "utils/linalg/_orthogonalize.py")],
  "property-based testing: defining identities over generated factors, bases and metrics",
  "Exploration."),
P("C25", "Configuration is scoped; stopping criteria form a Boolean algebra",
  "An option has the value last assigned in the innermost active scope: leaving a context, normally, by exception, nested or out of order of suspension, restores every option to its value on entry, a failing entry or assignment changes nothing, unknown options are refused, and options are registered once. Options affect only what they document: products of matrices are numerically the same with lazy_matrix_matrix_matmul on or off. Stopping criteria composed with &, | and ~ evaluate like the Boolean formula of their parts, on any arguments, and composing does not change the parts.",
  ["histories", "inputs"], "all histories of registrations, assignments and nested contexts; all Boolean compositions of criteria",
  "Tests enter one context and leave it; nesting, exceptions and partial failures are histories.",
  ["_config.py", "_pnmethod/_stopping_criterion.py"],
  [("context manager", "_config.py"), ("composition", "_pnmethod/_stopping_criterion.py")],
  "model-based property testing: histories mirrored in a stack of dictionaries; truth tables",
  "Exploration."),
P("C26", "Methods depend only on arguments and generator, and leave inputs alone",
  "Every solver, filter, quadrature, sampler and problem generator is a function of its arguments and the random generator passed to it: the same call with a generator in the same state gives the same result, on the same objects (whatever was computed with them before) and on freshly built ones; it neither reads nor advances NumPy's global random state, does not modify arrays, options or priors passed in, and leaves the global configuration unchanged.",
  ["inputs", "histories"], "all entry points over generated problems, generator states and preceding calls",
  "Tests call each method once per object; state carried over between calls, hidden global randomness and in-place updates of inputs need repeated calls under a changed environment.",
  ["linalg/_problinsolve.py", "linalg/solvers/_probabilistic_linear_solver.py", "quad/_bayesquad.py", "diffeq/_probsolve_ivp.py", "diffeq/_perturbsolve_ivp.py", "filtsmooth/gaussian/_kalman.py", "filtsmooth/particle/_particle_filter.py", "randvars/_random_variable.py", "randprocs/_random_process.py"],
  [("sampling", "randvars/_random_variable.py"), ("solver loops", "_pnmethod")],
  "property-based testing: metamorphic re-execution under a changed global state, snapshots of inputs",
  "Exploration; results compared to 1e-8 relative."),
]
