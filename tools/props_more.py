P('C10', 'The implicit Euler step solves its own defining equation',
  'An implicit Euler step returns the state that minimises the residual of the implicit relation: new state minus old state minus dt times the field at the end time and the new state. The search starts from the old state, runs on a value separate from the caller\'s state, optimises only that value, and clears its gradient before each evaluation.',
  ['inputs', 'programs'], 'every field, also time-dependent, state, time and step size',
  'Tests run one autonomous field with a loose tolerance; evaluating the field at the start time or accumulating gradients still ends near the reference there.',
  [N + 'solvers/ode.py'],
  [('residual and search', N + 'solvers/ode.py: ImplicitEuler.step, _residual')],
  VG + 'objective handed to the optimiser read off the graph of a step and compared with the implicit relation',
  'Decides objective, starting point, optimised value and gradient clearing for all fields; convergence of the optimiser itself is not decided (see DESIGN.md).' + TRUST)

P('C11', 'The leapfrog scheme is symplectic and visits the grid',
  'An asynchronous leapfrog step is the documented kick-drift combination of the field at the half-step time, for fields of first and second order; applying it with a negated step undoes it exactly. Symplectic integration takes exactly one step per grid interval, carries velocity along with position, and returns the times and states of the grid in order.',
  ['inputs', 'programs', 'configurations'], 'every field, state, step size and grid, both orders of the system',
  'Tests integrate one oscillator and compare final states; losing exact reversibility or evaluating the field off the half-step changes results by less than their tolerance.',
  [N + 'solvers/ode.py', N + 'odeint.py'],
  [('leapfrog step', N + 'solvers/ode.py: AsynchronousLeapfrog.step'), ('driver', N + 'odeint.py: odeint_symplectic, _fixed_odeint, _adaptive_odeint')],
  VG + 'polynomial identities on the step (including composition with its inverse) and congruence of the driver loop',
  'Decides the step formula, exact reversibility and the fixed-step driver recurrence for all fields and grids.' + TRUST)

P('C12', 'A hypersolver step is its base step plus the learned correction',
  'One hypersolver step equals the step of its base solver (Euler, midpoint, RK4) on the same stages plus the learned correction scaled by the step size to the power order plus one; with a zero correction it is exactly the base step. The correction is evaluated on the current time and state.',
  ['inputs', 'programs'], 'every field, correction network, state, time and step size',
  'Tests only check that a hypersolver runs; scaling with a wrong power or evaluating the network elsewhere is learnt around and invisible.',
  [N + 'solvers/hyper.py'],
  [('corrected step', N + 'solvers/hyper.py: step of HyperEuler, HyperMidpoint, HyperRungeKutta4')],
  VG + 'graph of the hypersolver step compared with base step plus scaled correction',
  'Decides the relation between hypersolver and base solver for all fields and corrections.' + TRUST)

CO = 'torchdyn/core/'

P('C15', 'A solver name means its documented method',
  'Every documented name of an ODE, parallel, stochastic solver or interpolator builds the method of that name, in the dtype asked for, and unknown names are refused. Each solver declares the order and stepping class (fixed or adaptive) of its method, whose coefficients are created in the precision of the solver, never rounded to a lower one. Coarse and fine methods of parallel solvers are the ones given, by name or as objects, and step-size factors and stepping class reach the solver.',
  ['configurations', 'programs'], 'every solver name, dtype and combination of solver options',
  'Tests construct a handful of solvers by name and compare end points; another method of similar accuracy, a tableau rounded to single precision or an ignored coarse method stay inside their tolerance.',
  [N + 'solvers/ode.py', N + 'solvers/sde.py', N + 'solvers/templates.py', N + 'solvers/_constants.py', N + 'interpolators.py'],
  [('registries', N + 'solvers/ode.py: str_to_solver, str_to_ms_solver; solvers/sde.py: sde_str_to_solver; interpolators.py: str_to_interp'), ('constructors', N + 'solvers/ode.py: __init__ of the solver classes; solvers/templates.py')],
  VG + 'registries evaluated for every documented name, constructor state and tableau precision compared with the contract',
  'All documented names are enumerated; options symbolic.' + TRUST)

P('C16', 'The adjoint system is the adjoint of the vector field',
  'The system integrated backward by the adjoint method has as rates: the vector field at the current time and state (for the state); minus the transposed Jacobian of the field with respect to the state applied to the adjoint, minus the gradient of the integral loss if there is one; and minus the transposed Jacobian with respect to each parameter. The interpolated adjoint uses the same rates along the interpolated trajectory. Parameters the field does not use contribute zero instead of failing, and all components keep their place.',
  ['inputs', 'programs', 'configurations'], 'every field, loss, adjoint state, time and set of parameters',
  'Tests compare gradients with autograd at a loose tolerance on one small network; a missing loss term, a wrong sign on a parameter block or a field with unused parameters is not among them.',
  [N + 'sensitivity.py'],
  [('adjoint dynamics', N + 'sensitivity.py: adjoint_dynamics in _gather_odefunc_adjoint and _gather_odefunc_interp_adjoint')],
  VG + 'vector-Jacobian products kept as graph nodes; the graph of the adjoint rates compared with the reference formulation',
  'Decides the adjoint system for all fields and losses; numerical agreement with backpropagation follows only up to the solver\'s error, which is not decided.' + TRUST)

P('C17', 'Incoming gradients enter the adjoint sweep where they belong',
  'The backward pass starts from the gradient of the last returned state, integrates from each returned time back to the one before it, and adds at every returned time the gradient of the state returned there, exactly once, down to the start of the integration interval. The resulting gradients of initial state, parameters and end times are read from their own places in the swept system. The interpolated adjoint follows a spline through all stored states at their own times, in increasing order of time.',
  ['inputs', 'histories'], 'every number of returned times, every incoming gradient, both directions of time',
  'Tests put a loss on the final state only, or on the sum over the trajectory with equal weights; gradients placed at a neighbouring time or counted twice are invisible there.',
  [N + 'sensitivity.py'],
  [('backward sweep', N + 'sensitivity.py: backward of the autograd functions in _gather_odefunc_adjoint, _gather_odefunc_interp_adjoint')],
  VG + 'loop of the backward pass compared by congruence with the reference sweep',
  'Decides the sweep as a recurrence over any number of returned times, with the integrations between them kept abstract.' + TRUST)

P('C18', 'Adjoint solves use the solver and tolerances meant for them',
  'The forward pass of an adjoint-differentiated solve runs the forward solver with the forward tolerances and returns exactly its result; every backward integration uses the adjoint solver, the adjoint tolerances and the same adjoint system, with error control over state and adjoint at least. Each differentiable input receives the gradient computed for it and every other input none. The same holds for multiple shooting problems.',
  ['configurations', 'programs'], 'every combination of sensitivity, problem type, solvers and tolerances',
  'Tests give the same solver and tolerances to both passes, so that an exchange cannot be seen.',
  [N + 'sensitivity.py'],
  [('forward and backward calls', N + 'sensitivity.py: forward and backward in _gather_odefunc_adjoint, _gather_odefunc_interp_adjoint, _gather_odefunc_adjoint')],
  VG + 'every option symbolic, calls that reach the integrators compared with the options they must carry',
  'All four combinations of sensitivity and problem type with all options symbolic.' + TRUST)

P('C19', 'Options given to a problem reach the numerical routine',
  'A call of an ODE, multiple shooting or SDE problem, a Neural ODE, a Neural SDE or a multiple shooting layer makes exactly one call of the matching numerical routine, with the wrapped vector field, initial state, grid, solver, tolerances, interpolator, requested times, shooting guess, iteration counts, Brownian motion and extra arguments it was given, for every sensitivity; the result is passed back in the documented form (times and solution, or solution only). Documented defaults apply where nothing is given, and the adjoint solver defaults to the forward one.',
  ['configurations', 'programs'], 'every combination of class, sensitivity and option values',
  'Tests use defaults for most options, so dropping or exchanging one of them changes nothing they observe.',
  [CO + 'problems.py', CO + 'neuralde.py'],
  [('plumbing', CO + 'problems.py: ODEProblem, MultipleShootingProblem, SDEProblem; core/neuralde.py: NeuralODE, NeuralSDE, MultipleShootingLayer')],
  VG + 'public entry points evaluated with every option symbolic, arguments of the numerical call compared',
  'Each class and sensitivity with all options symbolic. Known gaps of the library (extra arguments in adjoint modes, seminorm flag) are outside the statement and listed in DESIGN.md.' + TRUST)

P('C23', 'The vector field wrapper calls the field faithfully',
  'A vector field is called with time exactly when its signature takes time, and with the state it is asked at; the value it returns is the derivative, extended for systems of higher order by the blocks of the state that are derivatives of the ones before, and for integral losses (differentiated by autograd) by the loss at the current time and state, on a state without the loss column. The wrapper counts every evaluation once and hands the current time to submodules that depend on it.',
  ['inputs', 'programs', 'configurations'], 'every field and signature, order 1 to 3, with and without integral loss, every state',
  'Tests use first-order fields and final values; a block shifted by one, a loss evaluated on the augmented state or a stale time in a submodule is only visible for other configurations.',
  [CO + 'defunc.py', CO + 'utils.py'],
  [('wrapper', CO + 'defunc.py: DEFuncBase.forward, DEFunc.forward, higher_order_forward'), ('signature', CO + 'utils.py: standardize_vf_call_signature')],
  VG + 'value of a wrapped call compared with the documented combination of calls of the field',
  'Orders 1 to 3, both kinds of callables, loss of one and two dimensions, fields symbolic.' + TRUST)

P('C24', 'A model prepares an integration completely',
  'Before each solve a Neural ODE settles the integration interval (the one given, else its own, else from 0 to 1), hands the data part of the initial state (without the columns reserved for integral loss and traces of preceding modules) to every data-control module without letting gradients through, draws fresh noise for every trace estimator that needs it, one row per sample and once per solve, and leaves the initial state untouched. Loss and sensitivity of the wrapped field are those of the model, and the parameters differentiated by the adjoint are all current parameters of the field in order, or the given ones after registering each once, or a placeholder. Neural SDEs settle interval and control likewise and refuse higher orders.',
  ['inputs', 'histories', 'configurations'], 'every arrangement of control and trace modules, sensitivity, loss, sequence of solves',
  'Tests run one arrangement of modules, once; noise kept between solves, a column too many in the control or stale parameters show only in others.',
  [CO + 'neuralde.py', CO + 'problems.py'],
  [('preparation', CO + 'neuralde.py: NeuralODE._prep_integration, NeuralSDE._prep_sdeint'), ('parameters', CO + 'problems.py: ODEProblem.__init__, _autograd_func')],
  VG + 'state of the model and its submodules after a call, per arrangement of modules, compared with the contract',
  'Enumerates arrangements of up to two trace modules before and one after a control module, all sensitivities.' + TRUST)

P('C13', 'Parallel-in-time solvers correct as documented and reach the fine solution',
  'A sweep of the Parareal solver sets every shooting value to the coarse propagation of its corrected predecessor plus the difference between fine and coarse propagation of the previous iterate; a sweep of the discrete-adjoint solver uses the fine propagation plus the Jacobian of that propagation applied to the correction of the predecessor. Values already exact are kept, so that with as many sweeps as subintervals the result is the sequential fine solution, value by value; without a guess the first iterate is the coarse solution on the same grid, and guess, iteration and step counts reach the solver. Drivers that integrate many grids at once advance every problem on its own grid.',
  ['inputs', 'histories', 'configurations'], 'every field, initial state, grid, shooting guess, number of iterations and pair of solvers',
  'Tests integrate one oscillator until convergence; a correction taken from a neighbouring interval or a sweep too few is corrected by the next sweep and ends near the same values.',
  [N + 'solvers/ode.py', N + 'solvers/templates.py', N + 'odeint.py'],
  [('sweeps', N + 'solvers/ode.py: MSZero.root_solve, MSBackward.root_solve'), ('entry', N + 'odeint.py: odeint_mshooting, _shifted_fixed_odeint, _jagged_fixed_odeint')],
  VG + 'sweeps compared with the reference recurrences by congruence (writing the loops out when congruence does not settle it), finite termination at the fine solution checked for up to four shooting values',
  'Sweeps decided for any number of intervals and iterations; exactness enumerated for two to four shooting values.' + TRUST)

P('C20', 'A stochastic step is its documented scheme on one Brownian increment',
  'One step of each stochastic solver is its scheme: Euler-Maruyama adds drift times dt and diffusion times the increment; Euler-Heun averages the diffusion at the state and at the predictor; the derivative-free Milstein schemes add half the slope of the diffusion along the support state times the squared increment, minus dt in the Ito form only. Each step uses exactly one increment of the given Brownian motion, over exactly the step, and no other randomness; without diffusion it is the Euler step of the drift.',
  ['inputs', 'programs'], 'every drift, diffusion, state, time, step size and noise realisation',
  'Tests run a solver and look at shapes or at moments with wide margins; a missing correction term or an increment over the wrong interval cannot be told from noise.',
  [N + 'solvers/sde.py'],
  [('steps', N + 'solvers/sde.py: step of EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich')],
  VG + 'graph of a step, with drift, diffusion and Brownian motion uninterpreted, compared with the scheme; Brownian evaluations enumerated',
  'Decides the step formulas for all equations; strong and weak convergence orders follow from the literature and are not decided.' + TRUST)

P('C21', 'A stochastic solver accepts exactly the equations it is made for',
  'Euler-Maruyama and the Ito form of Milstein accept Ito equations only, Euler-Heun and the Stratonovich form of Milstein accept Stratonovich equations only, each with a known type of noise; any other combination is refused when the solver is built, also when the solver is chosen by name.',
  ['inputs', 'configurations'], 'every combination of solver, interpretation of the equation and type of noise',
  'Tests build matching pairs only; a guard that accepts everything, or the wrong interpretation, silently solves another equation.',
  [N + 'solvers/sde.py', N + 'sdeint.py'],
  [('guards', N + 'solvers/sde.py: constructors'), ('by name', N + 'sdeint.py: sdeint; solvers/sde.py: sde_str_to_solver')],
  VG + 'reachability of a normal return from construction for every combination',
  'All solvers, names, interpretations and noise types are enumerated.' + TRUST)

P('C22', 'Stochastic integration walks the grid with the given equation and noise',
  'Stochastic integration takes one step per interval of the grid, from the current time, with the step to the next grid time, and returns the states at the requested times (all grid times unless given) in order, with those times; requested times off the grid are refused, as are adaptive stepping and a grid per sample. Plain equations with drift, diffusion and noise description are wrapped, incomplete ones refused; drift and diffusion are called with time exactly if they take it, and evaluations are counted. A solver given by name is built with the equation, Brownian motion and precision of the call.',
  ['inputs', 'programs', 'configurations'], 'every equation, grid, set of requested times and Brownian motion',
  'Tests use uniform grids and look at final shapes; a step size kept from the first interval or states reported at neighbouring times are not seen.',
  [N + 'sdeint.py', N + 'solvers/sde.py', CO + 'defunc.py'],
  [('driver', N + 'sdeint.py: sdeint, _fixed_sdeint, check_sde'), ('wrapper', CO + 'defunc.py: SDEFunc')],
  VG + 'driver loop compared with the reference recurrence by congruence; wrapper evaluated for every signature',
  'Decides the recurrence for any grid length and requested times in increasing time.' + TRUST)

M, L = 'torchdyn/models/', 'torchdyn/nn/'
DENSE = 'Value graphs (symbolic evaluation of the source) compared with a reference formulation by congruence and, where that does not settle it, entry by entry at small shapes with symbolic entries: '

P('C25', 'A continuous flow carries minus the divergence of its field',
  'A continuous normalizing flow returns the field at the data columns of the state, preceded by a column with minus the trace of its Jacobian there: the exact trace for the default estimator, and noise times Jacobian times noise, with the noise drawn for the model, for the stochastic estimator; a custom estimator is given output, input and noise and used in its place. Both terms can be differentiated further, for any state and also when the caller has disabled gradients. A stochastic estimator without a noise distribution is refused.',
  ['inputs', 'programs', 'configurations'], 'every field, state, batch and dimension, noise and estimator',
  'Tests look at one trained density in two dimensions; a missing term of the trace, a detached state or noise of another sample changes a loss that is noisy anyway.',
  [M + 'cnf.py'],
  [('flow', M + 'cnf.py: CNF.forward'), ('estimators', M + 'cnf.py: autograd_trace, hutch_trace')],
  DENSE + 'the flow and its estimators; modes and flags of every derivative taken',
  'The field is an uninterpreted function; entrywise comparison covers batches 1 to 2 and 1 to 3 data dimensions. That noise times Jacobian times noise has the trace as expectation is textbook and not decided.' + TRUST)

P('C26', 'Energy models follow the gradient structure of their energy',
  'Gradient flows return minus the gradient of their energy; Hamiltonian networks return the gradient with respect to momenta and minus that with respect to positions; conservative flows return a skew-symmetric matrix of the state applied to the gradient, so that energy does not change along either; Lagrangian networks return velocities and the accelerations of the Euler-Lagrange equations. Each sample depends on its own state only. All can be differentiated further, for any state and also when the caller has disabled gradients.',
  ['inputs', 'programs'], 'every energy, interconnection, state, batch and even dimension',
  'Tests train briefly in two dimensions, where blocks are scalars and transposing or exchanging them often goes unseen.',
  [M + 'energy.py'],
  [('models', M + 'energy.py: GNF, HNN, ConservativeLinearSNF, LNN')],
  DENSE + 'fields of the four models; rate of change of the energy simplified to zero',
  'Energies are uninterpreted functions of a row; batches 1 to 2 and dimensions up to 4. Conservation is that of the exact field, not of a numerical trajectory.' + TRUST)

P('C29', 'Layers place augmented, time and control values where they belong',
  'Augmentation puts zeros, or the value of the given function of the input, before or after the input along the chosen dimension, as many as asked for; depth concatenation appends the time of the current evaluation, and data control the control of the current solve, as further entries. The input itself is passed on unchanged and gradients reach it, the function, the time and the control.',
  ['inputs', 'histories', 'configurations'], 'every input, dimension, order and number of added entries, sequence of evaluations',
  'Tests use the default dimension and two-dimensional inputs; values placed on the other side, along another dimension or left from the previous call are only seen with others.',
  [L + 'node_layers.py'],
  [('layers', L + 'node_layers.py: Augmenter, DepthCat, DataControl')],
  DENSE + 'outputs of the layers for every order and dimension of three-dimensional inputs, also when called again',
  'Shapes are concrete, entries symbolic.' + TRUST)

P('C30', 'Depth-varying layers use weights expanded in their basis at the current depth',
  'Galerkin layers apply a linear map or convolution to the data columns (channels) of the input, where every entry of weight and bias is the sum, over families and orders, of its own learned coefficient times the basis function, evaluated at dilation times the depth carried in the last column (channel) plus shift. The bases are cosines and sines, powers, Chebyshev polynomials, and Gaussian, linear and multiquadric radial functions, of as many orders as declared, spread evenly from zero to the degree. Dilation and shift start at one and zero and are learned exactly when asked for, as centers and scales of adaptive radial bases can be.',
  ['inputs', 'configurations'], 'every basis, degree, depth, layer size and coefficient',
  'Tests evaluate freshly made layers, whose coefficients are all zero, and look at shapes.',
  [L + 'galerkin.py'],
  [('bases', L + 'galerkin.py: GaussianRBF, VanillaRBF, MultiquadRBF, Fourier, Polynomial, Chebychev'), ('layers', L + 'galerkin.py: GalLayer.calculate_weights, GalLinear, GalConv2d')],
  DENSE + 'basis values, and weights as functions of symbolic coefficients, for all bases and several degrees',
  'Degrees up to 6, small layers; entries symbolic. The convolution itself is that of torch.' + TRUST)

P('C28', 'What the caller passes in is left as it was',
  'Integrating (deterministic, stochastic, hybrid, parallel), taking a solver step, interpolating, evaluating a model, layer or field wrapper and running an adjoint pass never write in place into what the caller passed: state, time grid, requested times, extra arguments, incoming gradients or first stage, nor into tensors the caller\'s own functions returned. Lists and dictionaries of the caller and default arguments are left unchanged as well, so that no call influences a later one through them. Switching on the gradient flag of a state is the only exception.',
  ['inputs', 'histories', 'programs'], 'every call, every input, also when the same tensors are used again afterwards',
  'Tests rarely look at their inputs after a call, and an in-place update of a shared tensor shows only when the caller, or the stored solution, uses it again.',
  [N + 'odeint.py', N + 'sdeint.py', N + 'utils.py', N + 'interpolators.py', N + 'sensitivity.py', N + 'solvers/ode.py', N + 'solvers/hyper.py', N + 'solvers/sde.py', CO + 'problems.py', CO + 'neuralde.py', CO + 'defunc.py', 'torchdyn/models/cnf.py', 'torchdyn/models/energy.py', 'torchdyn/nn/node_layers.py', 'torchdyn/nn/galerkin.py'],
  [('in-place updates', N + 'sensitivity.py: backward; ' + N + 'solvers/ode.py: root_solve; ' + N + 'odeint.py: _shifted_fixed_odeint; torchdyn/nn/galerkin.py: calculate_weights')],
  'effect and alias analysis over the value graphs: every in-place write of the analysed functions is traced to the objects whose storage it may reach',
  'Effects of every analysed function, with aliasing through views, assignments, branches and loops; one obligation per function.' + TRUST)

P('C27', 'Results carry gradients to states and parameters',
  'With gradients enabled, no step, integration (forward or reversed in time, hybrid, stochastic, symplectic, at requested times), dense output, model call or trajectory computes its solution from a state, from a value of the vector field or jump map, or from learned weights without recording gradients: the solution depends differentiably on the initial state and on everything the field depends on, also after a stored stage is reused and after an event was located. The same holds for vector fields and layers the library builds: augmented, depth-dependent, data-controlled, Galerkin, normalizing flows and energy models. Excepted are times, step sizes and error estimates, the control copied from the input, and solvers documented to find their stages by an inner optimisation.',
  ['inputs', 'histories', 'configurations', 'programs'], 'every vector field, solver, sequence of accepted and rejected steps and events, layer and model',
  'A severed gradient changes no value; tests call backward but rarely compare gradients, and a solution cut at one reused stage or after one event still has a graph.',
  [N + 'odeint.py', N + 'sdeint.py', N + 'interpolators.py', N + 'solvers/ode.py', N + 'solvers/hyper.py', N + 'solvers/sde.py', CO + 'problems.py', CO + 'neuralde.py', CO + 'defunc.py', 'torchdyn/models/cnf.py', 'torchdyn/models/energy.py', 'torchdyn/nn/node_layers.py', 'torchdyn/nn/galerkin.py'],
  [('drivers', N + 'odeint.py: odeint, odeint_symplectic, odeint_hybrid, _adaptive_odeint, _fixed_odeint; ' + N + 'sdeint.py: sdeint'), ('layers and models', CO + 'defunc.py: DEFunc.forward; torchdyn/models/cnf.py: CNF.forward; torchdyn/models/energy.py; torchdyn/nn/')],
  'gradient-flow analysis over the value graphs: values computed under disabled gradients, detached or copied as constants are marked, and marked values that the solution uses are reported',
  'Every way from the solution back to its inputs, through loops, branches, stored stages and package calls; whether the numbers are right gradients of the exact solution is not decided.' + TRUST)

P('C31', 'Root finding iterates the documented quasi-Newton method',
  'Starting from the inverse of the Jacobian of every sample, each step moves by minus the step fraction times the inverse Jacobian estimate applied to the residual, evaluates the function there, and corrects the estimate, sample by sample, by the rank-one term of the chosen Broyden method for the move made and the change of the residual it caused. The search stops as converged only when, for every sample, the residual is below its absolute tolerance and its tolerance relative to the first residual, and the move below its own two, and otherwise after the given number of iterations; the point returned is the last one reached. Backtracking shrinks the fraction, down to the least one, until the squared residual is not larger than that at the base point; unknown methods are refused.',
  ['inputs', 'histories', 'configurations'], 'every function, start, tolerance, number of iterations, method and search',
  'Tests run three functions to convergence, which a wrong update, a transposed Jacobian or a weakened criterion only slows down or ends early.',
  [N + 'solvers/root.py'],
  [('steps', N + 'solvers/root.py: Broyden.step, BroydenFull.update_jacobian, BroydenBad.update_jacobian'), ('iteration', N + 'solvers/root.py: root_find, TerminationCondition.check, NaiveSearch.search')],
  VG + 'steps, corrections, termination after one and several checks, backtracking loop and the iteration',
  'Corrections and directions are compared entrywise for up to 2 samples of 2 dimensions. The interpolation formulas of the Armijo search and the point at which the iteration starts its line search are not decided (they deviate from the literature, see DESIGN.md); convergence is not decided.' + TRUST)

P('C32', 'Toy datasets have the shape, labels and noise they are described by',
  'Each generated dataset has exactly the number of points asked for, in the dimension asked for, with one label per point. Its points are the described curves or clusters (concentric spheres of the two radii, half circles, two opposite spirals, gaussians on a ring or along a spiral with interpolated radius and spread) displaced by the described random draws times the noise level; the points of every group carry its label, for odd and even counts. The generator passes all options on to the dataset named.',
  ['inputs', 'configurations'], 'every count, dimension, radius, spread, noise level and random draw',
  'Tests do not look at the datasets; what is random can only be sampled, and a shared offset or a swapped label of one group looks plausible.',
  ['torchdyn/datasets/static_datasets.py'],
  [('generators', 'torchdyn/datasets/static_datasets.py: generate_concentric_spheres, generate_moons, generate_spirals, generate_gaussians, generate_gaussians_spiral'), ('dispatch', 'torchdyn/datasets/static_datasets.py: ToyDataset.generate')],
  DENSE + 'points and labels as functions of symbolic radii, spreads, noise level and random draws',
  'Up to 6 points in 2 and 3 dimensions; draws symbolic, in the order in which the generators make them. The dataset sampled from a density estimate of a logo is not decided.' + TRUST)

P('C33', 'Benchmark systems are the published equations',
  'Lorenz, Van der Pol (with its parameter), Rabinovich-Fabrikant, linear growth and decay, and sine systems return, for every state with any number of leading dimensions, their published right-hand sides in the shape of the state. Fourier systems are the sum of the two harmonics over all frequencies at the given time, at one time or row by row at several, coupled ones passed through their mixing layer; drawing parameters again uses the same distributions and shapes. Linear and network systems keep the dimension of the state and ignore the time, and bounded ones have a bounded output.',
  ['inputs'], 'every state, time, parameter and leading shape',
  'Tests use the systems as test problems for solvers against each other, so a wrong equation is solved consistently.',
  [N + 'systems.py'],
  [('systems', N + 'systems.py')],
  DENSE + 'right-hand sides with symbolic states, times and coefficients, for one, two and three dimensional states',
  'Up to 3 harmonics and 3 times, states of at most three dimensions; entries symbolic.' + TRUST)

P('C34', 'Everything the package refers to exists',
  'On every path of every function, also those no test reaches, a name read has been given a value on some way there, an imported name is defined by the module it is taken from, an attribute of the object itself or of a package module is one that it can have, and calls of package functions, constructors, own methods and inherited constructors fit the parameters of what they call, for every class that inherits the calling method. So rarely used options, error branches, models and plots do not fail with a missing name, attribute or argument.',
  ['programs', 'configurations'], 'every function, branch and class of the package',
  'Tests import the package and run the common paths; a missing name in another branch shows only when a user takes it.',
  ['torchdyn/'],
  [('package', 'torchdyn/: all modules')],
  'custom lint over the syntax trees of the whole package: scopes with flow-sensitive binding, resolution of imports and class hierarchies (bases of installed libraries through their sources), arity of resolvable calls',
  'Attributes and calls of objects whose class is not evident from the source (locals, results of calls) are left to the other checks; four known findings are listed.' + TRUST)

P('C35', 'Double-precision problems are solved in double precision',
  'When the initial state, the grid and the values of the field are in double precision and the solver is named, every quantity on the way to the solution is kept in double precision: method coefficients, times, step widths, stages, interpolation coefficients, requested times given as lists, grids of parallel solvers, stochastic steps and the backward passes of adjoints. No operation rounds a double precision value to single precision, stores one in a single precision tensor, or combines it with a constant or time that has been rounded to single precision; only constants of the step size controller may be. The solution has the precision of the initial state also for single precision states and for grids of the other precision.',
  ['inputs', 'configurations'], 'every named solver, driver and sensitivity, every state, grid and field',
  'Tests run in one precision with tolerances far above the rounding error of the other.',
  [N + 'odeint.py', N + 'sdeint.py', N + 'sensitivity.py', N + 'interpolators.py', N + 'utils.py', N + 'solvers/ode.py', N + 'solvers/templates.py', N + 'solvers/sde.py', N + 'solvers/_constants.py', CO + 'problems.py'],
  [('drivers', N + 'odeint.py: odeint, odeint_symplectic, odeint_hybrid, odeint_mshooting'), ('controller', N + 'utils.py: adapt_step'), ('solvers by name', N + 'solvers/ode.py: str_to_solver'), ('conversion', N + 'solvers/templates.py: sync_device_dtype')],
  'dtype inference by abstract interpretation: the promotion rules of torch (dimensioned against zero-dimensional tensors) over the value graph of every driver, with a fixpoint over loops; every arithmetic operation, conversion, creation and store is an obligation, grouped by entry point and function',
  'Values of dtypes the analysis cannot determine are not reported. Solvers constructed by the user keep the precision they were constructed with.' + TRUST)

P('C36', 'Results do not depend on earlier calls',
  'The result of a solve, step, model call or backward pass depends on its own arguments, settings and parameters only: it is the same when the same objects have been called before with another state, grid, field, control or guess, and when other objects have been made and used. For continuous adjoints it is also the same when another solve comes between the two passes, when passes are taken in another order, and when the backward pass is taken again. Nothing kept on solvers, problems, models, classes or modules carries values over (step sizes, derivatives, coefficients, grids, controls, caches).',
  ['histories', 'inputs'], 'every sequence of earlier calls with other inputs', 'Tests make fresh objects and call them once, or compare two calls with the same inputs.',
  [N + 'odeint.py', N + 'sdeint.py', N + 'sensitivity.py', N + 'interpolators.py', N + 'solvers/ode.py', N + 'solvers/hyper.py', N + 'solvers/sde.py', N + 'solvers/root.py', CO + 'problems.py', CO + 'neuralde.py', 'torchdyn/models/energy.py', 'torchdyn/models/cnf.py', 'torchdyn/nn/node_layers.py', 'torchdyn/nn/galerkin.py'],
  [('drivers', N + 'odeint.py'), ('solver objects', N + 'solvers/ode.py'), ('models', CO + 'neuralde.py: NeuralODE, MultipleShootingLayer, NeuralSDE'), ('problems', CO + 'problems.py'), ('backward passes', N + 'sensitivity.py')],
  'two-run value-graph comparison: the abstract heap after calls on one set of symbolic inputs is kept, the call under study is evaluated in it and in the fresh heap, and the two value graphs (loops included) are compared by congruence; in-place changes of shared constants, attributes, closures, class and module variables, and memoising decorators are part of the heap',
  'One earlier call stands for any number when its effect on the heap is idempotent. Random draws are inputs, not results. Changing the precision between calls of one solver object is outside (see C35).' + TRUST)

# properties that the family of technique does not decide
NA = 'not decided: '
P('N01', 'The global error of adaptive integration is proportional to the tolerance',
  'For smooth non-stiff problems the difference between an adaptive solution and the exact one shrinks in proportion to the requested tolerances.',
  ['inputs'], 'every smooth field, interval and tolerance', 'Tests compare two solvers on a few fields at one tolerance.',
  [N + 'odeint.py', N + 'utils.py'], [('step control', N + 'utils.py: adapt_step, init_step')], '', '',
  na='the error of a trajectory depends on the size and derivatives of the field along it, which no static argument bounds; the parts visible in the source (orders and error estimates C01-C02, the acceptance and step-size rules C04, C07) are checked instead')

P('N02', 'Adaptive integration ends',
  'For every Lipschitz field and positive tolerance an adaptive integration reaches the end of its interval after finitely many attempted steps.',
  ['inputs', 'histories'], 'every field and tolerance', 'Tests run on a few benign fields.',
  [N + 'odeint.py'], [('loop', N + 'odeint.py: _adaptive_odeint')], '', '',
  na='there is no ranking function over the integers: termination depends on how the error ratio of the field behaves as the step shrinks; stiff or discontinuous fields do make the loop run indefinitely')

P('N03', 'Adjoint and direct gradients agree up to the tolerance',
  'The gradients returned by the adjoint methods and those of differentiating through the solver differ by no more than their discretization errors.',
  ['inputs'], 'every field, loss and tolerance', 'Tests compare them for one network with loose thresholds.',
  [N + 'sensitivity.py'], [('backward passes', N + 'sensitivity.py')], '', '',
  na='the size of a discretization error is a runtime quantity; that the backward passes integrate the exact adjoint equations over the exact intervals is decided by C16-C18 instead')

P('N04', 'Stochastic integration converges in distribution at its declared order',
  'Refining the step of a stochastic solver makes the sample paths converge to those of the equation at the declared strong order.',
  ['inputs'], 'every drift, diffusion and Brownian path', 'Tests look at shapes and a few seeds.',
  [N + 'solvers/sde.py'], [('solvers', N + 'solvers/sde.py')], '', '',
  na='a statement about distributions of runtime random numbers; the step formulas, increments and interpretation that imply it are decided by C20-C22')

P('N05', 'Stochastic trace estimates are unbiased and of useful variance',
  'Averaged over the noise, the stochastic estimate of the divergence in a normalizing flow equals the exact trace.',
  ['inputs'], 'every field and noise distribution with unit covariance', 'Tests compare one average with a threshold.',
  ['torchdyn/models/cnf.py'], [('estimator', 'torchdyn/models/cnf.py: hutch_trace')], '', '',
  na='unbiasedness is a property of the noise distribution the user passes in; that the estimate is the quadratic form of the Jacobian with that noise, freshly drawn once per solve, is decided by C24 and C25')

P('N06', 'Root finding converges',
  'For functions with a regular root near the start the root finder ends by convergence within its number of iterations.',
  ['inputs'], 'every smooth function with a regular root near the start', 'Tests run three functions.',
  [N + 'solvers/root.py'], [('iteration', N + 'solvers/root.py: root_find')], '', '',
  na='local convergence depends on the function given; the quasi-Newton steps, updates and termination test are decided by C31')

P('N07', 'Energy models conserve their energy along numerical trajectories',
  'Along trajectories integrated with a symplectic solver the learned energy of a Hamiltonian model stays within a bounded band.',
  ['inputs', 'histories'], 'every energy, start and step size', 'Tests do not integrate energy models.',
  ['torchdyn/models/energy.py', N + 'odeint.py'], [('models', 'torchdyn/models/energy.py')], '', '',
  na='a bound over trajectories of arbitrary length depends on the learned energy and the step size; that the fields are those of the energy, hence conservative, is decided by C26, and the symplectic steps by C12')

P('N08', 'Parallel sweeps reach a given tolerance faster than sequential integration',
  'For contracting problems a few sweeps of multiple shooting bring the shooting values within the tolerance of the sequential fine solution.',
  ['inputs'], 'every contracting field and number of subintervals', 'Tests compare one problem.',
  [N + 'solvers/ode.py', N + 'odeint.py'], [('sweeps', N + 'solvers/ode.py: MSZero, MSBackward')], '', '',
  na='the speed of convergence depends on the field; the update formulas and the exactness after as many sweeps as subintervals are decided by C13')

P('N09', 'Inner optimisations of implicit solvers find the stages',
  'The stages of implicit and parallel implicit steps solve the stage equations up to the tolerance of the inner optimisation.',
  ['inputs'], 'every field and step size', 'Tests run one linear problem.',
  [N + 'solvers/ode.py'], [('stages', N + 'solvers/ode.py: root_solve, ImplicitEuler, ParallelImplicitEuler')], '', '',
  na='whether an iterative optimiser reaches a residual is a runtime quantity; that the residual it minimises is that of the stage equation, and that the result is what the step uses, is decided by C10')
