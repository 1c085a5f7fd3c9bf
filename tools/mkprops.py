import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
N='src/numerics/'; V='src/var_bayes/'; D='src/dynamics/'
solv=[N+f for f in ('ode_solver.py','euler.py','heun.py','runge_kutta2.py','runge_kutta4.py')]
p('C01','The forward sweep integrates the moment equations of the linear SDE',
 "For every integration method (Euler, Heun, midpoint RK2, classical RK4), for scalar and for multi-dimensional states, the forward sweep returns means and covariances which start at the given initial moments and whose every step is exactly one step of that method for dm/dt = -A(t)m + b(t) and dS/dt = -A(t)S - S A(t)^T + Sigma. Intermediate stages evaluate A and b at the stage's time (grid values at the end points, the average of the two neighbouring grid values at the mid point). Every grid point is filled, and the scalar case is the multi-dimensional one with D = 1 (2aS for the variance).",
 ['inputs','configurations'],"every A(t), b(t), m0, S0, Sigma, every grid length and dimension, four methods, 1D and nD",
 "The tests never call an integrator; a sample of matrices would in any case miss errors that cancel for symmetric A, constant A(t), diagonal S or D=1.",
 solv,[('right-hand sides of the moment ODEs','src/numerics/ode_solver.py: OdeSolver.fun_mt, fun_st'),('stepping loops','src/numerics/{euler,heun,runge_kutta2,runge_kutta4}.py: solve_fwd')],
 observe=['the arrays returned by the forward ODE object'])
p('C02','The backward sweep integrates the adjoint equations with observation jumps',
 "For every integration method and state dimension, the backward sweep returns multipliers lambda(t), Psi(t) whose value at the final time is the observation-energy gradient there, and whose every step back from t to t-1 is exactly one step of that method for dlambda/dt = A^T lambda - dE/dm and dPsi/dt = Psi A + A^T Psi - dE/dS. The jump (observation-energy gradient) of the grid point that is reached is then added, so that each observation, including one at the first or last grid point, enters exactly once. Stage values of A, dE/dm and dE/dS are taken at the stage's time.",
 ['inputs','configurations'],"every A(t), energy gradients, observation gradients, grid length, dimension; four methods, 1D and nD",
 "The tests never run a backward sweep; errors such as A versus A^T or an off-by-one jump vanish for symmetric A or for samples without observations at the edges.",
 solv,[('right-hand sides of the adjoint ODEs','src/numerics/ode_solver.py: OdeSolver.fun_lam, fun_psi'),('stepping loops','src/numerics/{euler,heun,runge_kutta2,runge_kutta4}.py: solve_bwd')])
p('C03','Gaussian moments and their derivative tables are the exact ones, orders 0-8',
 "For any arrays of means and variances, the moment of order n (0..8) is the n-th non-central moment of a Gaussian, and the mean/variance derivative of order n (1..8) is the exact derivative of that moment with respect to the mean/variance. Any other order raises ValueError, and mean and variance arrays of different shape are refused with RuntimeError.",
 ['inputs'],"all means, variances (real arrays of any length), all integer orders",
 "The tests compare orders up to 2 (and an error path) at sampled points; the high-order coefficients, which the Double-Well energy relies on, are never checked.",
 [V+'gaussian_moments.py'],[('moment table','GaussianMoments.__call__'),('derivative tables','GaussianMoments.dm, GaussianMoments.ds'),('shape guard','GaussianMoments.__init__')])
e1='E_q[(f(x) + a x - b)^2] / (2 sigma)'
p('C04','DW and OU energies match their drift, and their gradients match the energy',
 "For the Double-Well (drift 4x(theta - x^2)) and the Ornstein-Uhlenbeck process (drift -theta x) the SDE energy is the time integral (trapezoidal, piecewise between observation times) of E_q[(f(x) + a x - b)^2] / (2 sigma) under the Gaussian marginals, and the returned drift averages are E_q[f] and E_q[df/dx]. The returned gradients with respect to mean and variance are the exact derivatives of the integrand at every time point. Those with respect to the drift parameter and the noise variance are the exact derivatives of the returned energy.",
 ['inputs'],"all linear parameters a(t), offsets b(t), marginal moments m(t), s(t), drift and noise parameters, grids and observation times",
 "No test touches an energy function; a sampled comparison would need a reference implementation and misses terms which vanish for a=0, b=0 or theta=1.",
 [D+'double_well.py',D+'ornstein_uhlenbeck.py',V+'gaussian_moments.py'],[('closed-form moments of the residual','DoubleWell.energy, OrnsteinUhlenbeck.energy')])
p('C05','Lorenz-63 energy is the exact Gaussian expectation; its gradients match it',
 "For Lorenz-63 the SDE energy is the time integral of 0.5 * sum_i (Sigma^-1)_ii E_q[(f_i(x) + (A x)_i - b_i)^2] with the expectations taken exactly under N(m, S), and the returned drift averages are E_q[f] and E_q[df/dx]. The gradients with respect to m and to the symmetric matrix S (each off-diagonal element carrying half of the derivative with respect to the shared value) are the exact derivatives of the integrand at every time point. The gradients with respect to the three drift parameters are those of the returned energy, and the noise gradient is -0.5 Sigma^-1 diag(integral of E_q[(f+Ax-b)^2]) Sigma^-1.",
 ['inputs'],"all A(t) (3x3, not necessarily symmetric), b(t), m(t), symmetric S(t), drift parameters, noise matrices, grids",
 "The hand-expanded formulas have several hundred monomials; no test evaluates them and a sampled check misses any term that a special A, S or parameter switches off.",
 [D+'lorenz_63.py'],[('hand-expanded expectation and derivative formulas','Lorenz63.energy, energy_dm_ds, Efg_drift_theta')])
p('C06','Lorenz-96 drift, Jacobian, and unscented energy/gradients are consistent',
 "For Lorenz-96 of every dimension the drift is (x[i+1] - x[i-2]) x[i-1] - x[i] + theta with cyclic indices, for single states and for batches alike; the returned drift average is its exact Gaussian expectation, and the returned Jacobian is the derivative of the drift at the mean. The SDE energy is the time integral of 0.5 * sum_i (Sigma^-1)_ii UT[(f_i(x) + (A x)_i - b_i)^2], with UT the unscented average. The gradients with respect to m and S are the Gaussian identities 0.5 (UT[v S^-1 x] - UT[v] S^-1 m) and 0.25 (UT[v S^-1 (x-m)(x-m)^T S^-1] - UT[v] S^-1), v being the weighted squared residual.",
 ['inputs'],"every dimension D >= 10, all A(t), b(t), m(t), S(t), theta, noise matrices, batch sizes",
 "No test touches the model; cyclic wrap-around, batch axis handling and the index of each Jacobian entry must hold at every index of every dimension.",
 [D+'lorenz_96.py',V+'variational.py'],[('cyclic shifts','l96, shift_vectors, E96_drift_dx'),('unscented expectations','Lorenz96.energy, E96_drift, grad_Esde_dm_ds')])
p('C07','The observation energy is the Gaussian likelihood and matches its gradients',
 "The observation energy is the expected negative log-likelihood sum_n E_q[0.5 (y_n - H x)^T R^-1 (y_n - H x)] + 0.5 M (d_o log 2 pi + log|R|) with mean and covariance taken at the observation times, for scalar and multi-dimensional states and any linear operator H. The gradients with respect to mean and covariance are its exact derivatives: -H^T R^-1 (y_n - H m) and 0.5 H^T R^-1 H at each observation time, and exactly zero at every other grid point.",
 ['inputs'],"all observations, observation times, noise (co)variances, operators H, moments, grid lengths",
 "No test builds a likelihood; with H = I, diagonal R and constant S most mistakes are invisible.",
 [V+'gaussian_like.py',V+'likelihood.py'],[('energy','GaussianLikelihood.gauss_1d, gauss_nd'),('gradients','GaussianLikelihood.gradients_1d, gradients_nd'),('default operator','Likelihood.__init__')])
p('C08','The initial-state energy is the Gaussian KL divergence and matches its gradients',
 "The initial-state energy is KL( N(m0,S0) || N(mu0,tau0) ) for scalar and for multi-dimensional states, so it is zero when the two Gaussians coincide. The returned gradients are its exact derivatives with respect to m0 and S0 plus the initial Lagrange multipliers lambda(0), Psi(0).",
 ['inputs'],"all m0, S0, mu0, tau0 (positive definite, not necessarily diagonal), multipliers, dimensions",
 "No test builds the prior term; a factor or transposition error changes no test.",
 [V+'prior_kl0.py'],[('KL energy','PriorKL0.gauss_1d, gauss_nd'),('gradients','PriorKL0.gradients_1d, gradients_nd')])
p('C09','The gradient is assembled from the Lagrangian at every time, in the right slot',
 "For every time point the gradient handed to the optimiser is dt * (dEsde/dA - lambda m^T - 2 Psi S) for the linear parameters and dt * (dEsde/db + lambda) for the offsets, with dEsde/db = Sigma^-1 (-E[f] - A m + b) and dEsde/dA = Sigma^-1 (E[df/dx] + A) S - dEsde/db m^T. It has the same layout as the parameter vector (all A(t), row-major, first, then all b(t)), the same as the one used to unpack the vector for the energy, the initial guess and the saved results. The scalar case is the same expression with D = 1.",
 ['inputs','configurations'],"all parameter vectors, moments, multipliers, grid lengths, dimensions D",
 "No test evaluates the gradient; a layout or transposition mistake is invisible for D=1 or symmetric matrices.",
 [V+'variational.py',V+'simulation.py'],[('unpacking and assembly','VarGP.free_energy, gradient, initialization'),('per-time gradients','VarGP._grad_at, _dEsde_da, _dEsde_db'),('unpacking of the optimum','Simulation.run')])
p('C10','Free energy is the sum of three coherent terms; stored posterior belongs to it',
 "The value that is minimised is exactly the initial-state energy plus the SDE energy plus the observation energy, all evaluated on the one pair of marginals produced by the forward sweep of the given parameters from the stored initial moments, with the multipliers from the backward sweep of the same evaluation. The gradient, when asked to re-evaluate, uses the state of that point, and otherwise the state of the last evaluation. What the simulation reports after optimising (parameters, minimum, moments, multipliers) all belongs to the returned parameter vector.",
 ['inputs','histories'],"all parameter vectors and all sequences of energy / gradient evaluations (including a rejected last step of the optimiser)",
 "No test builds the variational object; a stale array only shows up for particular evaluation histories.",
 [V+'variational.py',V+'simulation.py'],[('evaluation pipeline','VarGP.free_energy'),('cached state','VarGP.output'),('result assembly','Simulation.run')],
 state=[('output','moments, drift averages and multipliers of the last evaluation','src/var_bayes/variational.py')])
p('C11','The optimiser never moves uphill and returns a point with its own value',
 "The optimiser accepts a trial point only if the objective there is not larger than at the current point, never makes more iterations than its limit, and returns a parameter vector together with the objective value of exactly that vector. The objective and the gradient are always evaluated at matching points: whenever the gradient relies on the state of the last objective evaluation, that evaluation was at the same point. The caller's starting vector is left unchanged.",
 ['inputs','histories'],"every objective/gradient pair, start point, option set and every sequence of accepted and rejected steps",
 "The optimiser's tests are not in the stable set and follow single convex or smooth runs; acceptance and bookkeeping must hold on every path through the loop.",
 [N+'optim_scg.py',V+'simulation.py'],[('acceptance test and bookkeeping','SCG.__call__'),('call protocol with the variational object','Simulation.run')])
p('C12','A run with a given seed is reproducible',
 "With an explicit seed (zero included) everything random in a run - start value, sample path, observation noise, initial moments - is drawn from one generator created from that seed, and no other source of nondeterminism (global random state, clock, hash order, uninitialised memory, process identity, concurrency) can influence the results. Repeating the run from the same parameters therefore gives the same trajectory, observations and estimates; without a seed the generator is fresh.",
 ['inputs','configurations','histories'],"all seeds, models, configurations and repetitions",
 "Tests draw no random numbers; reproducibility is a statement about all sources of nondeterminism, which no finite number of runs exhausts.",
 [D+'stochastic_process.py',D+'double_well.py',D+'ornstein_uhlenbeck.py',D+'lorenz_63.py',D+'lorenz_96.py',V+'simulation.py'],[('seeded generator','StochasticProcess.__init__, rng'),('draws','make_trajectory, collect_obs, Simulation.setup')])
p('C13','Noise is validated before it is stored, and its inverse is never stale',
 "No dynamical system can be constructed with, or later assigned, a system noise that is not positive (scalar) or not a symmetric positive definite matrix of the right shape (matrix): such values are refused with an exception and the object keeps its previous noise. A scalar, a vector (diagonal) or a full matrix is accepted at construction of the multi-dimensional systems; the OU drift parameter must be positive; Lorenz-96 needs at least 10 dimensions. After construction and after every assignment the exposed inverse noise is the inverse of the exposed noise.",
 ['inputs','histories'],"all noise/drift values and all sequences of constructions and assignments, accepted or refused",
 "No test builds a dynamical system; the invariant concerns every sequence of assignments including refused ones.",
 [D+'double_well.py',D+'ornstein_uhlenbeck.py',D+'lorenz_63.py',D+'lorenz_96.py'],[('constructor and setter guards','__init__, sigma.setter, theta.setter of each class'),('cached inverse','sig_inv / inverse_sigma')],
 state=[('_sigma','system noise','src/dynamics'),('sig_inv','cached inverse','src/dynamics')])
p('C14',"Sample paths are Euler-Maruyama paths with the model's drift and noise Sigma dt",
 "Each sample path satisfies x[t] = x[t-1] + f(x[t-1]) dt + e[t] at every grid point, with the model's own drift (Double-Well 4x(theta - x^2), OU theta(mu - x), Lorenz-63, Lorenz-96), the step of the time grid, and e[t] a fresh Gaussian vector of covariance Sigma dt taken from the system's generator and independent of the initial state. The path has exactly one value per point of the time window that is stored with it, the window being the grid from t0 in steps of dt, and both are replaced together.",
 ['inputs','configurations'],"all t0, tf, dt, noise matrices (not only diagonal), drift parameters, seeds",
 "No test creates a path; the covariance of the driving noise is a property of the distribution, which finitely many draws cannot settle.",
 [D+'double_well.py',D+'ornstein_uhlenbeck.py',D+'lorenz_63.py',D+'lorenz_96.py',D+'stochastic_process.py'],[('simulation loops','make_trajectory of each class'),('stored path and window','StochasticProcess.sample_path, time_window')])
p('C15','Observations are noisy copies of the path at valid, distinct, increasing times',
 "Collected observations are the values of the sample path at the returned time indices (restricted to the observed components when a mask is given) plus Gaussian noise of the returned noise covariance, which is the configured one (scalar times identity, diagonal vector, or the diagonal of a matrix), the noise being drawn from the generator of the process. The number of observations is density times window length, rounded down; the indices are increasing, distinct and equally spaced strictly between index 0 and the size of the window. The stored path and window and the caller's arguments are never modified, a density above the sampling rate raises ValueError, and asking before a path exists raises NotImplementedError.",
 ['inputs','configurations'],"all paths, windows, densities, noise specifications, masks, 1D and nD",
 "No test collects observations; aliasing with the stored path or a noise scale error needs particular masks or noise shapes.",
 [D+'stochastic_process.py'],[('sampling of observations','StochasticProcess.collect_obs')])
p('C16','Evaluating energies, gradients and sweeps never modifies its inputs',
 "Evaluating a forward or backward sweep, an energy, a likelihood, a prior term, the free energy, its gradient, the initial guess, a moment or a numerical utility leaves the arrays passed in, and the model, likelihood and prior objects involved, unchanged; only the variational object's own record of the last evaluation is updated. Returned arrays are not views of the caller's parameter arrays that later evaluations write to. Hence evaluating twice at the same point gives the same result.",
 ['inputs','histories'],"all inputs and all sequences of evaluations",
 "Tests check return values of fresh inputs only; aliasing defects need a later evaluation or a shared array to show.",
 [N+f for f in ('euler.py','heun.py','runge_kutta2.py','runge_kutta4.py','ode_solver.py','utilities.py')]+[V+f for f in ('variational.py','gaussian_like.py','prior_kl0.py','gaussian_moments.py')]+[D+f for f in ('double_well.py','ornstein_uhlenbeck.py','lorenz_63.py','lorenz_96.py')],
 [('fresh result arrays in each evaluation','solve_fwd/solve_bwd, energy, gradients, free_energy, gradient, my_trapz, ut_approx, finite_diff')])
p('C17','Every configuration value is required up front and reaches its own consumer',
 "Every top-level setting that a simulation reads is among the keys that are checked before anything runs, and a missing one is refused with ValueError. Each setting reaches exactly the component that it configures (model, noise, drift, seed, time window, solver method and step for both sweeps, prior mean and covariance, observation density, noise and operator), unchanged and not swapped with another. A run with observations supplied by the user defines everything that a run with simulated observations defines, so both can be carried out, and uses the supplied observations.",
 ['configurations','inputs'],"all configurations (models, methods, time windows, priors, operators) with and without supplied observations",
 "No test runs a simulation from a configuration; swapped or dropped settings only show for configurations where the two differ.",
 ['vgpa_main.py',V+'simulation.py'],[('required keys','validate_input_parameters_file'),('distribution of settings','Simulation.setup, Simulation.run')])
p('C18','A failed run is reported as a failure by the command line program',
 "If the parameter file is missing, incomplete or not given, or if building, running or saving the simulation fails at any point, the command line program ends with a non-zero exit status and does not report completion. A successful run sets up, runs and saves the simulation in this order, once each, under the configured name, and only then reports completion with status zero.",
 ['fault_sequences','configurations'],"every stage at which an exception can be raised (each call of the program's main sequence), every kind of ordinary exception",
 "The program is not tested at all; each fault point needs its own injected failure.",
 ['vgpa_main.py'],[('error handling','main, validate_input_parameters_file and the script part')])
p('C19','Saving writes every result under its key, and loading returns every key',
 "Saving writes each entry of the simulation's output - scalar or array, any shape - as one dataset under the same key with the same values, into the file named after the simulation (an existing file of that name is replaced); with nothing to save no file is written. Loading returns every dataset of the file under its own key, and requires a file name.",
 ['inputs','histories'],"all output dictionaries (any keys, scalars and arrays of any shape)",
 "No test saves or loads; a skipped key or altered value is only seen for particular outputs.",
 [V+'simulation.py'],[('writer','Simulation.save'),('reader','load')])
p('C20','Numerical utilities compute exactly what the inference relies on',
 "For all valid inputs: the inverse helper returns the inverse and the inverse of the lower Cholesky factor; the log-determinant helper returns log det of a scalar, a diagonal vector or a square matrix and refuses non-square ones; the trapezoid helper gives the integral over the whole interval however it is split at the given times. The unscented transform uses 2D+1 points with weights summing to one that reproduce mean and covariance of the input exactly for linear functions, and returns the weighted mean and covariance of the output. The finite-difference helper returns central differences of every component.",
 ['inputs'],"all scalars, vectors, matrices, split times, functions and dimensions",
 "The tests check a few matrices and one unsplit integral; the unscented transform is not tested at all, and splits at arbitrary times are not covered.",
 [N+'utilities.py'],[('helpers','chol_inv, log_det, my_trapz, ut_approx, finite_diff, safe_log')])
p('C21','Results that do not exist yet are never handed out',
 "Asking a dynamical system for its sample path, time window, time step or observations before they have been created raises NotImplementedError, whichever of the two (path, window) is missing for observations. Once set, the path and the window that are returned are the ones that were set, and the time step is the (positive) spacing of the window.",
 ['histories'],"all orders of creation and access",
 "No test touches these accessors; each order of operations needs its own test.",
 [D+'stochastic_process.py'],[('guards','StochasticProcess.sample_path, time_window, time_step, collect_obs')])
p('C22','Names select their own implementation; unknown names and bad steps are refused',
 "Each documented model name (DW, OU, L63, L96) and integration method name (euler, heun, rk2, rk4), in any letter case, selects exactly its own implementation, and both sweeps of one simulation use the same method, step and dimensionality. An unknown name raises ValueError, and so does a time step that is not strictly positive, in either sweep and in the integrators themselves.",
 ['configurations','inputs'],"all names in all letter cases, unknown names, all time steps",
 "No test selects a model or method by name.",
 [N+'utilities.py',N+'ode_solver.py',V+'fwd_ode.py',V+'bwd_ode.py',V+'simulation.py'],[('method table','num_integration, FwdOde, BwdOde'),('model table','dynamical_systems, Simulation._stochastic_model'),('step guard','OdeSolver.__init__, FwdOde.__init__, BwdOde.__init__')])
p('C23','The initial guess is the documented smooth posterior through the observations',
 "The starting vector of the optimiser has the layout of the parameter vector, with A = Sigma / (2 S_init) (S_init = 0.25 per component) at every time point, and is finite for every admissible configuration. The offsets follow the (not-a-knot) cubic spline through the observations: the spline itself in one dimension, and its slope plus A times its value (A times its value at the last point) otherwise.",
 ['inputs','configurations'],"all observation sets, time windows, noise matrices, dimensions",
 "No test builds the initial guess; a time point that is left unset or a shifted slope only changes where the optimisation starts.",
 [V+'variational.py'],[('initial guess','VarGP.initialization')])
# not applicable
p('N01','Optimisation converges to a stationary point of the free energy',
 "For every configuration the optimiser reaches a parameter vector at which the gradient vanishes up to tolerance.",
 ['inputs','histories'],"all configurations and start points","Convergence depends on run-time numerics; tests sample a few functions.",
 [N+'optim_scg.py'],[('SCG','src/numerics/optim_scg.py')])
p('N02','Posterior covariances stay positive definite along every sweep',
 "For every admissible configuration the marginal covariances produced by the forward sweep are symmetric positive definite at all times.",
 ['inputs'],"all parameter vectors visited","Depends on step size and values of A(t) along the run.",
 solv,[('forward sweep','solve_fwd')])
p('N03','The unscented averages are accurate for the Lorenz-96 energy',
 "The unscented averages used for Lorenz-96 equal the Gaussian expectations up to a bounded error.",
 ['inputs'],"all moments and parameters","Approximation error of fourth-order polynomials under a third-order rule, unbounded over inputs.",
 [D+'lorenz_96.py',N+'utilities.py'],[('ut_approx','src/numerics/utilities.py')])
p('N04','The gradient equals the derivative of the discretised free energy',
 "The gradient agrees with finite differences of the free energy for every step size.",
 ['inputs'],"all parameter vectors and step sizes","The continuous-time adjoint is discretised separately, so the two agree only up to O(dt).",
 [V+'variational.py'],[('VarGP.gradient','src/var_bayes/variational.py')])
p('N05','The time grid ends exactly at the configured final time',
 "The time window covers [t0, tf] with the last grid point equal to tf for every t0, tf, dt.",
 ['inputs'],"all floating point t0, tf, dt","Floating-point behaviour of the grid construction.",
 [D+'double_well.py'],[('make_trajectory','src/dynamics')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
