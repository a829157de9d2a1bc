SV = D + "_solver/"
prop(
    "C10",
    "A solve that is stopped and continued is the uninterrupted solve",
    "If a solve is interrupted after any of its steps (by an event or by running out of its step budget) and continued from the value, solver state, controller state and jump flag that it returned, then the remaining steps, values and outcome are those of the uninterrupted solve. This holds for every solver and every step size controller, forwards and backwards in time.",
    ["histories", "crash_points", "configurations"],
    "every interruption point of every history of steps within the bound, every solver and step size controller",
    "The tests continue one solve once; whether the returned states are complete depends on the history before and at the interruption.",
    [INT, D + "_step_size_controller", SV.rstrip("/")],
    [("solver_state, controller_state, made_jump in and out", INT + ": diffeqsolve")],
    "exhaustive enumeration of interruption points x histories on the real code, against the uninterrupted execution",
    "All cuts of all histories within bounds; oracle is the uninterrupted run of the real code (itself pinned by C01-C08).",
)
prop(
    "C11",
    "The elements of a batch do not influence each other",
    "Every element of a batched (vmapped) solve has the times, values, dense output, statistics, outcome, event mask and states that it has when it is solved alone, whatever the others do: need more or fewer steps, reject, fail, run out of steps, are stopped by an event, or have an empty interval.",
    ["schedules", "histories", "configurations"],
    "every ordered batch of behaviours within the bound, for every kind of solve",
    "Tests batch identical or similar problems; leakage needs a particular combination of neighbours.",
    [INT, D + "_misc.py", SV.rstrip("/"), D + "_adjoint.py"],
    [("unvmap'd predicates, buffered while loop, event root finding", INT + ": body_fun, loop"), ("FSAL predicates", SV + "runge_kutta.py")],
    "exhaustive enumeration of batches of behaviours on the real code, against each element alone",
    "All ordered batches of 3 (4) behaviours per kind of solve.",
)
prop(
    "C12",
    "Every way of differentiating a solve gives its derivative",
    "Differentiating through a solve, in forward or reverse mode, with any number of checkpoints, gives the derivative of exactly the numbers that the solve computed with respect to the initial value, the parameters and the times, whatever the history of accepted and rejected steps. The continuous adjoint converges to the true gradient for every choice of outputs, the implicit adjoint gives the derivative of the steady state, and a located event time has the derivative that the implicit function theorem says.",
    ["histories", "configurations", "inputs"],
    "every adjoint method, every history of steps, every number of checkpoints, every choice of outputs within the bound",
    "Tests compare a few gradients for one or two solvers without rejections; a wrong derivative leaves every value right.",
    [D + "_adjoint.py", INT, D + "_event.py"],
    [("loops and custom derivative rules of the adjoints", D + "_adjoint.py")],
    "exhaustive enumeration of histories x adjoints x checkpoints on the real code, against a hand-unrolled reference",
    "The reference is an unrolled sequence of the solver's steps differentiated by JAX. Trusts JAX's differentiation of straight-line code.",
)
prop(
    "C13",
    "A Brownian path is one function of time, however it is queried",
    "All answers of one Brownian path are consistent: increments over adjacent intervals add up, space-time and space-time-time Levy areas obey Chen's relations, the value does not depend on the order, number or batching of queries or on which other quantities are asked for, and each leaf of a PyTree is a separate path. Solving an equation driven by nothing else reproduces the path itself, whatever steps were taken, accepted or rejected, in either direction.",
    ["inputs", "histories", "configurations"],
    "all triples of query times from a grid, all kinds of Levy area, structures, tree depths, all histories of steps",
    "Tests sample a few times and look at statistics; inconsistencies appear only for particular positions relative to the tree.",
    [D + "_brownian/tree.py", D + "_brownian/path.py", D + "_brownian/base.py", D + "_custom_types.py"],
    [("VirtualBrownianTree evaluation", D + "_brownian/tree.py"), ("UnsafeBrownianPath", D + "_brownian/path.py")],
    "exhaustive enumeration of query triples and step histories on the real code, against Chen's relations",
    "All triples of the grid; oracle is exact algebra (self-tested on polynomials).",
)
prop(
    "C14",
    "A Brownian path has exactly the law of Brownian motion and its Levy areas",
    "At all query times, and not only at those that the path's discretisation singles out, increments and Levy areas of a Brownian path have exactly the joint normal law of Brownian motion: increments over disjoint intervals are independent with variance equal to their length, and space-time and space-time-time Levy areas have their exact variances and covariances with each other and with every increment. Different leaves and components are independent.",
    ["inputs", "configurations"],
    "all pairs of intervals between the nodes of trees up to a depth and points inside their cells, all kinds of Levy area",
    "Tests are statistical at a few times (and excluded here for time), so that small or rare errors of the law cannot be seen.",
    [D + "_brownian/tree.py", D + "_brownian/path.py"],
    [("conditional laws of midpoints and interior points", D + "_brownian/tree.py: _brownian_arch, _evaluate_leaf"), ("UnsafeBrownianPath", D + "_brownian/path.py")],
    "exhaustive enumeration of pairs of query intervals on the real code with normal draws replaced by symbols, against exact covariances",
    "Every answer is a linear function of independent draws; covariances are exact inner products of the coefficient vectors. Trusts jax.random.normal.",
)
prop(
    "C16",
    "Every deterministic solver has its stated order, error estimate and stability",
    "For every smooth vector field, one step of each deterministic solver agrees with the exact solution up to the order that it states, its error estimate is the difference to an embedded method of its stated order, and its dense output is accurate to the stated order of the interpolation. Multi-term (implicit-explicit) methods have their order for every splitting, stiffly accurate and A- or L-stable methods are, reversible ones reverse, and symplectic ones are symplectic.",
    ["inputs", "programs", "configurations"],
    "all vector fields, via all order conditions (rooted trees, coloured for several terms), up to the order of each method",
    "Tests measure convergence on one or two equations; a wrong coefficient or interpolation can leave those unaffected, as most order conditions vanish for them.",
    [SV.rstrip("/"), D + "_local_interpolation.py"],
    [("Butcher tableaus and stage loops", SV + "runge_kutta.py and one file per method"), ("local interpolants", D + "_local_interpolation.py")],
    "exhaustive enumeration of rooted trees (order conditions), each evaluated by stepping the real solver on the tree system",
    "All trees up to order p+1 (two-coloured for IMEX), the step of the real solver is the object checked; stability on a grid.",
)
prop(
    "C15",
    "Interpolated data is what was observed, whatever is missing",
    "For every pattern of missing observations, linear interpolation fills each gap by the line between the neighbouring observations, rectilinear interpolation by the last observation, and the Hermite spline with backward differences is the continuously differentiable spline through the observations that are there. Missing values at the start and at the end are left missing, replaced or filled forward exactly as asked, and never is an observed value altered. The interpolating paths evaluate, differentiate and take increments of exactly these functions, from the left and from the right at every knot, channel by channel and leaf by leaf.",
    ["inputs", "configurations"],
    "all patterns of missing values up to a length, all options, uniform and uneven times, all knots and points between them, both limits",
    "Tests interpolate one pattern of missing values of data that is itself linear, for which most errors are invisible.",
    [D + "_global_interpolation.py", D + "_misc.py"],
    [("linear_interpolation, rectilinear_interpolation, backward_hermite_coefficients", D + "_global_interpolation.py"), ("fill_forward", D + "_misc.py")],
    "exhaustive enumeration of patterns of missing values on the real code, against the definition of the interpolation",
    "All 2^T patterns for T up to 6 (9); reference computed from the observed knots only.",
)
prop(
    "C17",
    "Every SDE solver converges to its solution (Ito or Stratonovich), at its order",
    "For every smooth drift and diffusion, a step of each SDE solver agrees with the stochastic Taylor expansion of the Ito or Stratonovich solution, whichever the solver documents, as far as its stated strong order for that kind of noise (general, commutative, additive) requires: path by path up to that order, and in the mean beyond it. Its error estimate, where there is one, vanishes with the order of the embedded method.",
    ["inputs", "programs", "configurations"],
    "all coefficients, via all coloured rooted trees up to the weight that the order needs; a grid of driving increments and Levy areas; 1 to 3 steps",
    "The tests estimate rates statistically for single equations (and are excluded here for time); a wrong coefficient can hide below the noise or vanish for that equation.",
    [SV.rstrip("/"), D + "_term.py"],
    [("stochastic Runge-Kutta stages and tableaus", SV + "srk.py"), ("Milstein, Euler-Heun, reversible Heun steps", SV + "milstein.py, euler_heun.py, reversible_heun.py")],
    "exhaustive enumeration of coloured rooted trees x driving paths, each evaluated by stepping the real solver, against iterated integrals",
    "All trees to weight 2p+1 for one noise (general: two noises); commuting noises by three nonlinear systems.",
)
prop(
    "C18",
    "Langevin solvers integrate the underdamped Langevin equation at their order",
    "For every potential, friction and damping, a step of each Langevin solver agrees with the underdamped Langevin equation driven by the same Brownian path up to its stated strong order, and is exact for free motion with friction, for every step size, tiny or large, forwards and backwards in time. The motion does not depend on whether friction and damping are given as scalars, arrays or PyTrees, nor on the sizes of the steps taken before.",
    ["inputs", "histories", "configurations"],
    "potentials, friction, damping, shapes of the driving path, step sizes over twelve decades, sequences of step sizes",
    "The tests compare rates for a few potentials (and are excluded here for time); coefficients switch between a series and a closed form, and are cached between steps.",
    [SV + "foster_langevin_srk.py", SV + "align.py", SV + "should.py", SV + "quicsort.py", D + "_term.py"],
    [("coefficients, series and closed form, cached per step size", SV + "foster_langevin_srk.py"), ("steps", SV + "align.py, should.py, quicsort.py")],
    "exhaustive enumeration of potentials x parameters x path shapes x scales on the real solvers, against the exact motion along a polynomial path",
    "Order observed over 5 scales for every combination; the reference is an accurate integration along the same path.",
)
TERM = D + "_term.py"
prop(
    "C19",
    "The solution does not depend on how the equation is written",
    "A right hand side may be written as one term or as a sum of terms (nested, in any order), with its vector field as an array, a PyTree or any kind of linear operator, driven by a path, a callable or an ODE made out of a control, and with or without a fused vector-field-times-control product; every way of writing the same equation has the same solution, with every solver, along every history of steps, and the same gradients. Products of vector fields and controls are the plain (never conjugated) contraction over the dimensions of the control, and shapes or structures that do not match are refused.",
    ["configurations", "histories", "inputs"],
    "every way of writing an equation, every solver, every history of steps, all shapes of states and controls within the bound",
    "Tests use one form per equation; a term that mishandles its sum, order, transpose or conjugate in one form only gives a plausible wrong solution.",
    [TERM, SV.rstrip("/"), D + "_adjoint.py"],
    [("prod, vf_prod, contr, to_ode, MultiTerm, AdjointTerm", TERM), ("solvers' use of terms", SV + "runge_kutta.py, milstein.py, srk.py")],
    "exhaustive enumeration of forms x solvers x histories on the real code, against each other and a direct contraction",
    "Relational: all forms agree within rounding along the same scripted history; contraction oracle in numpy. Quick replaces Brownian paths by smooth ones with exact areas.",
)
prop(
    "C20",
    "The solution does not depend on how the state is arranged",
    "Solving an equation with its state as a vector, a matrix, scalars, a nested PyTree with empty parts, or as complex instead of pairs of real numbers gives the same times, values, dense output and statistics, arranged in the same way as the initial state; equations whose components do not interact may be solved one component at a time. Outputs have the structure, shapes and precision of the initial state (at least the precision of the times), and times and states may be Python, NumPy or JAX numbers of any kind.",
    ["inputs", "configurations", "histories"],
    "every arrangement of the state, every solver, every history of steps within the bound, all kinds of numbers",
    "Tests use few shapes per solver; a solver that mixes up leaves, axes or conjugates is right for the shape that is tested.",
    [INT, TERM, SV.rstrip("/"), D + "_local_interpolation.py", D + "_misc.py"],
    [("PyTree arithmetic of the solvers", SV.rstrip("/")), ("promotion of times and states", INT + ": diffeqsolve")],
    "exhaustive enumeration of arrangements x solvers x histories on the real code, against the flat vector",
    "Relational: equal within rounding (nonlinear solves within their tolerance; adaptive step sizes amplify rounding).",
)
prop(
    "C21",
    "A failed nonlinear solve or a step out of the domain is never taken for a step",
    "If a step's nonlinear equations are not solved, or the step lands where the vector field is undefined, infinite or overflows, then that step is not accepted by an adaptive controller: it is retried with a smaller, finite step, and the solve ends successfully with a solution of the requested accuracy whenever small steps succeed; with constant steps the failure is reported. The default root finder reports success only near a root (to its tolerance), and takes the tolerances that the step size controller was given.",
    ["fault_sequences", "inputs", "histories"],
    "all steps sizes at which failures start, kinds of failure, solvers, controllers; all problems of a grid for the root finder",
    "Tests solve equations on which no step fails; what happens after a failure depends on where and in which stage it happens.",
    [D + "_root_finder", D + "_step_size_controller/pid.py", SV + "implicit_euler.py", SV + "runge_kutta.py"],
    [("convergence and divergence tests", D + "_root_finder/_verychord.py"), ("tolerances", D + "_root_finder/_with_tols.py"), ("infinite error of failed steps", SV + "runge_kutta.py, implicit_euler.py"), ("error scaling", D + "_step_size_controller/pid.py")],
    "exhaustive enumeration of injected faults x solvers x controllers on the real code; of root finding problems against true roots",
    "All failure limits x first steps x controllers within bounds; roots by exact bisection. VeryChord's own convergence estimate is a documented heuristic (bound documented).",
)
prop(
    "C22",
    "Progress meters tell the truth and change nothing",
    "A progress meter shows the fraction of the interval that is done: it starts at zero, never goes back, shows what was reached as often as it was asked to, ends at the end with all of its resources released, and for a batch shows the slowest element. Attaching a meter changes neither solutions nor derivatives, and several meters, in any interleaving of solves or threads, do not disturb each other.",
    ["schedules", "histories", "configurations"],
    "all histories of steps, all interleavings of the lives of meters, all thread schedules up to a preemption bound",
    "Tests look at one run; mix-ups between meters need a particular interleaving.",
    [D + "_progress_meter.py", INT],
    [("meters and the shared table", D + "_progress_meter.py"), ("init, step, close", INT)],
    "exhaustive enumeration of histories and of thread schedules (controlled scheduler) on the real code, against reference machines",
    "Schedules: preemption at every source line of the module, up to 2 (3) preemptions. tqdm is replaced by a recording stand-in.",
)
prop(
    "C23",
    "What would give a wrong answer is refused, and nothing else is",
    "A solve, path or interpolation is refused with an error exactly if what is asked for has no meaning: equations that a solver is not for, noise without the Levy areas or the additivity that it needs, adaptive steps without error estimates or over paths that are not fixed, outputs that an adjoint cannot differentiate, times that are out of order, out of range or of the wrong sign, and events, derivatives or coefficients of the wrong kind, shape or value. Everything meaningful is accepted; failed solves raise exactly if `throw=True`.",
    ["configurations", "inputs"],
    "all combinations of solvers, equations, noises, controllers, adjoints, outputs; all short sequences of times",
    "Tests try a handful of refusals; the tables have thousands of combinations.",
    [INT, D + "_adjoint.py", SV.rstrip("/"), D + "_saveat.py", D + "_event.py", D + "_brownian", D + "_global_interpolation.py", D + "_step_size_controller"],
    [("checks of the arguments", INT + ": diffeqsolve, _check"), ("restrictions of adjoints", D + "_adjoint.py"), ("restrictions of solvers", SV.rstrip("/"))],
    "exhaustive enumeration of the table of combinations on the real code, against a reference predicate",
    "Complete tables within the listed forms (quick: subset of the adjoints and forms for slow solvers).",
)
prop(
    "C24",
    "Work shared between steps never changes a step",
    "Every step of a solve - its value, error estimate and dense output - is the step that a fresh solver makes from the same value over the same interval, whatever was accepted, rejected or retried before it. Slopes carried over from one step to the next, solver states, cached coefficients and conditionally evaluated stages only save work, including where the vector field jumps.",
    ["histories", "configurations"],
    "every one-step solver, every history of accepted and rejected steps, jumps of the vector field, way of executing stages",
    "Stale work is used only after particular histories (rejection, then growth, then a jump), which tests do not enumerate.",
    [SV.rstrip("/"), INT],
    [("first same as last, stage caching", SV + "runge_kutta.py"), ("coefficients by step size", SV + "foster_langevin_srk.py"), ("made_jump", INT)],
    "exhaustive enumeration of histories on the real code, against fresh solvers step by step",
    "All histories of depth 4 (5); oracle is a single fresh step of the real solver (whose correctness is pinned by C16-C18).",
)
prop(
    "C25",
    "Solutions do not depend on the units of time and state",
    "Stating the same problem in other units of time or of the state gives the same solve in those units: the same accepted and rejected steps, saved values, dense output, events, statistics, Brownian paths and interpolated data, for every solver and controller. No hidden absolute threshold decides anything; only tolerances and step sizes the user gives do.",
    ["configurations", "histories"],
    "units of time and state over 26 orders of magnitude, solvers, histories of steps, controllers, directions",
    "Tests use times and states of order one, where absolute thresholds are invisible.",
    [SV.rstrip("/"), INT, D + "_step_size_controller", D + "_brownian", D + "_misc.py", D + "_global_interpolation.py"],
    [("root finds of stages", SV + "runge_kutta.py"), ("interpolation", D + "_misc.py: linear_rescale"), ("Brownian paths", D + "_brownian/tree.py"), ("coefficients by step size", SV + "foster_langevin_srk.py")],
    "exhaustive enumeration of units x configurations x histories on the real code, against the same solve in reference units",
    "Five units of time and three of the state; initial step selection (whose heuristic has an absolute fallback by design) is not covered; quick: subset of the solvers.",
)
