FE = "finite_element/"

prop("C14", "Rates depend on time and value only",
     "Evaluating a right hand side or flux does not change its arguments and gives the same result whatever was evaluated before, in between and however the arrays are changed in place afterwards. "
     "Results handed out earlier are not altered by later evaluations.",
     ["inputs", "histories"], "any two states, inflow data as arbitrary functions of time, every scheme, all orders of up to three evaluations",
     "Tests evaluate a fresh object once; stale caches and shared buffers show only for sequences of evaluations.",
     [FV + "solver.py", SWE + "solver/", FE + "flux_approximation.py", FE + "scalar/solver/", "core/boundary.py"],
     [("cached flux approximation", "finite_element/flux_approximation.py"), ("re-assembled artificial diffusion", "finite_element/artificial_diffusion.py")],
     ["right hand side of a solver", "numerical flux arguments"])

prop("C15", "Histories record what happened and solvers can start over",
     "The recorded times and values are exactly the sequence of states a solution went through, and resetting to an earlier time forgets what came later. "
     "A solver started over with new initial data proceeds exactly as a freshly built one.",
     ["inputs", "histories"], "all sequences of up to three updates and resets with any times and values; one or two steps before starting over with any data",
     "Tests run a single update and never start over; leftovers of earlier runs show only in sequences.",
     ["core/discrete_solution.py", "core/solver.py", FV + "solver.py", FE + "solver.py", "core/ode_solver.py"],
     [("histories", "core/discrete_solution.py"), ("starting over", "core/solver.py")],
     ["value, time and histories", "solution value after a step"])

prop("C16", "Meshes tile the domain and grids nest",
     "The cells of a uniform mesh tile its interval with equal lengths, refined and coarsened meshes nest, and a point is located in exactly the cells that contain it. "
     "Coarsening averages groups of fine cells: it keeps integrals, means and bounds, and restriction back to the fine grid is consistent.",
     ["inputs", "configurations"], "every interval, mesh size, refinement and coarsening degree within bounds, every point and every cell value",
     "Tests use the unit interval and a few sizes.",
     ["core/mesh.py", "core/discrete_solution.py", "core/index_mapping.py", FV + "space.py"],
     [("uniform mesh", "core/mesh.py"), ("coarsening of solutions", "core/discrete_solution.py")],
     ["cells, cell indices", "coarse values"])

prop("C17", "Finite element unknowns are numbered consistently",
     "Local unknowns of all cells map onto all global unknowns, neighbouring cells share exactly the unknown between them and the last cell wraps around to the first unknown. "
     "Neighbours of an unknown are those of its cells, and local extrema are taken over exactly them.",
     ["inputs", "configurations"], "every mesh size up to a thousand, every degree, every cell and local index, every vector of values",
     "Tests list the numbers of two small meshes.",
     [FE + "index_mapping.py", FE + "space.py", "core/local_bounds.py", "core/index_mapping.py"],
     [("index mapping", "finite_element/index_mapping.py"), ("neighbour tables", "core/index_mapping.py")],
     ["global indices", "neighbours", "local extrema"])

prop("C18", "Finite element operators are the exact integrals of the basis",
     "Applied to any nodal values, the mass, lumped mass, discrete gradient and flux gradient operators give the exact integrals, for every cell length. "
     "The mass is symmetric positive, the gradient skew-symmetric with zero sums, and artificial diffusion symmetric with zero row sums dominating the gradient.",
     ["inputs", "configurations"], "every domain length, nodal values, mesh sizes and degrees within bounds",
     "Tests compare matrices entrywise for two meshes of unit length.",
     [FE + "mass.py", FE + "lumped_mass.py", FE + "discrete_gradient.py", FE + "artificial_diffusion.py", FE + "flux_gradient.py", FE + "system.py", "core/quadrature.py"],
     [("local assembly", "finite_element/system.py"), ("Rusanov diffusion", "finite_element/artificial_diffusion.py")],
     ["operators applied to vectors"])

prop("C19", "Finite element schemes conserve mass and the Galerkin ones energy",
     "The rates of every finite element scheme integrate to zero, and Runge-Kutta steps keep the integral of the solution. "
     "The Galerkin rate solves the weak form exactly; for advection and for Burgers' equation with exact flux integrals it keeps the L2 norm.",
     ["inputs", "configurations"], "every vector of nodal values within bounds, all degrees, schemes and step sizes",
     "Tests compare rates for a handful of vectors.",
     [FE + "scalar/solver/", FE + "flux_gradient.py", FE + "mass.py"],
     [("Galerkin right hand side", "finite_element/scalar/solver/cg.py"), ("antisymmetric corrections", "finite_element/scalar/solver/mcl.py")],
     ["right hand side of a solver", "solution value after a step"])

prop("C20", "Bound preserving finite element schemes obey a local maximum principle",
     "After an Euler step within the time step bound, every nodal value of the low order and of the limited finite element scheme lies between the smallest and largest old value of the adjacent cells' unknowns. "
     "The suggested adaptive step is exactly the largest one for which theory guarantees this.",
     ["inputs", "configurations"], "every vector of nodal values, advection and Burgers' equation, every step size within the bound",
     "Tests compare single updates with stored numbers.",
     [FE + "scalar/solver/cg_low.py", FE + "scalar/solver/mcl.py", "core/local_bounds.py"],
     [("flux limiting", "finite_element/scalar/solver/mcl.py"), ("optimal time step", "finite_element/scalar/solver/cg_low.py")],
     ["solution value after a step", "time step suggestions"])

prop("C21", "Data, bases and quadratures represent functions exactly",
     "Gaussian quadratures integrate polynomials up to their degree exactly with positive weights, and cell averages and nodal values taken from a function are the ones of that function. "
     "Finite element bases are nodal and sum to one, and finite element and finite volume elements and their derivatives evaluate to the represented functions.",
     ["inputs", "configurations"], "every interval and mesh width, all polynomials up to the degree of exactness, every point, all degrees and node numbers within bounds",
     "Tests integrate a few monomials over the unit interval and evaluate bases at single points.",
     ["core/quadrature.py", "core/interpolate.py", FE + "space.py", FV + "space.py", FE + "discrete_l2_product.py"],
     [("Gaussian quadrature", "core/quadrature.py"), ("cell averages", "core/interpolate.py")],
     ["integrals", "nodal values and cell averages", "element evaluation"])

prop("C22", "Norms, errors and convergence orders are what they are called",
     "The L1, L2 and maximum norms of elements equal the integrals and maxima they stand for. Errors are norms of the difference to the exact solution or between two solutions, "
     "and convergence orders are the base two logarithms of the ratio of successive errors.",
     ["inputs", "configurations"], "every mesh, every cell or nodal value within bounds, any errors",
     "Tests evaluate norms of single functions on the unit interval.",
     ["core/norm.py", "command/error.py"],
     [("norms", "core/norm.py"), ("convergence orders", "command/error.py")],
     ["norm values", "error and order tables"])

prop("C26", "Energy is kept by conservative and never created by dissipative schemes",
     "The energy conservative shallow water scheme keeps the total energy over any bottom in periodic domains and between walls, and the entropy stable scheme never creates energy on a flat bottom. "
     "The local Lax-Friedrichs scheme of scalar conservation laws and low order finite elements for advection never create L2 energy.",
     ["inputs", "configurations"], "all wet states, bottoms and gravities on meshes within bounds, all scalar values",
     "Tests compare rates for a few states and never look at energies.",
     [SWE + "solver/energy_stable.py", "finite_volume/shallow_water/core.py", FV + "scalar/solver/", FE + "scalar/solver/cg_low.py"],
     [("energy stable flux", "finite_volume/shallow_water/solver/energy_stable.py")],
     ["right hand side of a solver", "entropy variables"])

prop("C27", "Solutions with different time steps are compared on a common time axis",
     "Interpolation in time and space returns the piecewise linear interpolant of the recorded solution, agreeing with it at recorded times and points. "
     "Error evolutions are the relative errors formed with it at the requested times, and average curves the mean over all of them.",
     ["inputs", "histories"], "all recorded times and values and all interpolation times within bounds, in every order",
     "Tests interpolate one small history at a few times.",
     ["command/error_evolution.py", "core/interpolate.py", "core/discrete_solution.py"],
     [("temporal interpolation", "core/interpolate.py"), ("error evolution", "command/error_evolution.py")],
     ["interpolated values", "error evolutions"])

prop("C23", "Recorded subgrid fluxes are what a coarse scheme lacks",
     "Training data pair the cell averages around a node with the difference of the fine and the coarse flux at this node, at every recorded time. "
     "A coarse scheme corrected by these fluxes, or by a network predicting them, reproduces the averaged fine solution exactly.",
     ["inputs", "histories"], "all wet states, meshes, coarsening degrees, input radii and nodes within bounds; any recorded sequence of states",
     "Tests compare data of two steps of one run with stored numbers.",
     ["command/generate_data.py", FV + "numerical_flux.py", SWE + "solver/reduced_model.py", "core/vector_coarsener.py"],
     [("recording of neighbours", "command/generate_data.py"), ("corrected fluxes", "finite_volume/numerical_flux.py")],
     ["subgrid flux data", "solution value after a step of a reduced solver"])

prop("C24", "The command line solves what it was asked for",
     "Options accept exactly the admissible numbers, and every solver listed is built with its own options, whatever names and values they have. "
     "End time, CFL number, mesh size and scheme parameters take effect as given, zero included, and executing a command solves every solver until the end time.",
     ["inputs", "configurations"], "every number given as text (nan and infinities included), any sequence of up to three solvers with options within bounds",
     "There are no tests of the command line apart from two number types.",
     ["parser.py", "core/solver.py", "core/type.py", "command/calculate.py", "command/generate_data.py", FV + "solver.py"],
     [("splitting of solver options", "core/solver.py"), ("number types", "core/type.py")],
     ["parsed arguments", "time steps of the solvers built"])

prop("C28", "Figures, animations and saved curves show what was computed",
     "Every solver solved is drawn, under its own label, with its grid and its values (water level including the bottom, discharge and velocity for shallow water) next to exact solution and initial data, "
     "and saved curves are the drawn ones. Every frame of an animation shows the solutions at the time it states; error plots show the errors of the solutions they belong to.",
     ["inputs", "histories"], "all values, bottoms, recorded times and start times on meshes and histories within bounds, with and without exact solution and initial data",
     "There are no tests of plots or animations.",
     ["command/plot.py", "command/animate.py", "command/error_evolution.py"],
     [("curves", "command/plot.py"), ("frames", "command/animate.py"), ("error curves", "command/error_evolution.py")],
     ["curves handed to matplotlib", "saved plot data"])

prop("C29", "Training data are filtered, and networks fed, as stated",
     "Deleting curvatures keeps exactly the rows with both curvatures below their thresholds, unchanged and in order, and analyses plot the stored entries. "
     "Training sees every row asked for, through scalings which prediction inverts: a network saved and loaded again predicts the subgrid flux in the units of the data.",
     ["inputs", "configurations"], "all entries of data files, step lengths, thresholds and scalings within bounds; every number of skipped rows; any network function",
     "There are no tests of these commands.",
     ["command/delete_curvature.py", "command/analyze_curvature.py", "command/analyze_data.py", "command/train_network.py", SWE + "solver/reduced_model.py", "core/data.py"],
     [("curvature filter", "command/delete_curvature.py"), ("training", "command/train_network.py"), ("predicted subgrid flux", SWE + "solver/reduced_model.py")],
     ["rows of the file written", "arguments of the training", "predicted fluxes"])

prop("C30", "Parameter studies vary what they say and average what they computed",
     "Each variation draws its initial data from the benchmark with the parameter value it is named after, from the seed and until the end time asked for, and stores its results below the directory given. "
     "Its averages are the means of the errors of its own solutions, whatever was studied before.",
     ["inputs", "configurations"], "all states, rates of change and end times within bounds; every variation, alone and in sequence",
     "There are no tests of this command.",
     ["command/parameter_variation_test.py", "command/error_evolution.py"],
     [("variations", "command/parameter_variation_test.py"), ("averages", "command/error_evolution.py")],
     ["benchmarks drawn", "curves handed to matplotlib", "paths written"])

prop("C31", "Shallow water heights and velocities stay within their local bounds",
     "After an explicit Euler step of the local Lax-Friedrichs, low order or limited shallow water scheme over a flat bottom, within the time step bound, every water height lies between the smallest and the largest of "
     "the cell's old height and the heights of the two intermediate states at its faces. The same holds for every velocity.",
     ["inputs", "configurations"], "every wet state, step size and boundary for the unlimited schemes; one height or velocity at a time for the limited one",
     "Tests compare single steps with stored numbers; bounds are violated only for particular data at particular faces.",
     [SWE + "solver/mcl.py", SWE + "solver/low_order.py", SWE + "solver/lax_friedrichs.py", "finite_volume/scalar/solver/mcl.py", "core/riemann_solver.py"],
     [("height and velocity limiter", SWE + "solver/mcl.py"), ("flux limiter", "finite_volume/scalar/solver/mcl.py"), ("bar states", "core/riemann_solver.py")],
     ["solution value after a step"])

prop("C32", "Schemes do not depend on the units of measurement",
     "Expressing the same problem in other units of length, height and time (with gravity and the cell width converted) changes the rates of change computed by every finite volume and finite element scheme by the conversion factor and by nothing else. "
     "The largest admissible time step of a finite element scheme is converted like a time.",
     ["inputs", "configurations"], "six changes of units, all wet states and bottoms within bounds; limited schemes with one value varying at a time",
     "Tests use one system of units: gravity 9.812 or 1, and cells of few widths.",
     ["finite_volume/numerical_flux.py", "finite_volume/scalar/solver/", SWE + "solver/", FE + "scalar/solver/", "finite_volume/shallow_water/core.py"],
     [("right hand sides", "finite_volume/numerical_flux.py"), ("energy diffusion", SWE + "solver/energy_stable.py"), ("antidiffusion", SWE + "solver/lax_wendroff.py"), ("time step bound", FE + "scalar/solver/cg_low.py")],
     ["rates of change of the solver built", "largest time step"])

prop("C33", "Schemes compute the formulas they are named after",
     "The rates of change of the central, local Lax-Friedrichs, low order, energy stable, antidiffusive, limited and continuous Galerkin schemes are those of the published formulas: physical fluxes, wave speeds, "
     "diffusion, bottom terms, limiter bounds, mass and gradient matrices. The Lax-Wendroff scheme is less diffusive than Lax-Friedrichs by an amount that belongs to the step being taken.",
     ["inputs", "configurations"], "all wet states and bottoms within bounds for unlimited schemes; limited ones with one value varying at a time; both scalar problems and degrees 1 to 3",
     "Tests compare with stored numbers for one set of data, so a wrong term which vanishes there goes unnoticed.",
     ["finite_volume/numerical_flux.py", "finite_volume/scalar/", SWE + "core.py", SWE + "solver/", "finite_element/flux_gradient.py", "finite_element/artificial_diffusion.py", FE + "scalar/solver/"],
     [("fluxes", "finite_volume/numerical_flux.py"), ("shallow water terms", SWE + "numerical_flux.py"), ("limiter", SWE + "solver/mcl.py"), ("finite element rates", "finite_element/flux_gradient.py")],
     ["rates of change of the solver built"])

prop("C25", "Benchmarks state the problems, and the exact solutions, they claim",
     "Exact solutions agree with the initial data at the start and solve the equation: transport, characteristics until the shock forms, steady and moving water, and the dam break with its rarefaction and shock. "
     "Parameters of a benchmark, zero included, are those asked for, a seed fixes the random ones, and every key the command line lists gives its problem.",
     ["inputs", "configurations"], "all points and times of the domain, all parameter values and end times within bounds; every benchmark and key",
     "Tests look at a few points of a few benchmarks.",
     ["benchmark/advection.py", "benchmark/burgers.py", "benchmark/shallow_water.py", "command/calculate.py", "parser.py"],
     [("exact solutions", "benchmark/shallow_water.py"), ("characteristics", "benchmark/burgers.py"), ("keys", "parser.py")],
     ["values of exact solutions and initial data", "initial state of the solver built"])
