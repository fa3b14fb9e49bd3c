"""Single source of properties.jsonl and MANIFEST.json.
python3 tools/props.py rewrites both; a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note="", tech=None, na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], state=state or [], note=note, tech=tech, na=na))


TECH = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into the real code; recorded traces decided by TLC against the specification"

prop("C01", "State checkpoints round-trip",
     "A state logged under a label and a time step reads back with exactly the values last logged there, by any later reader, whatever was logged before or after under other labels, steps, precisions or ranks. Reading something that was never logged leaves a failure the caller can see, never another state's data. ASCII logs lose no more than the precision they print with.",
     ["histories", "inputs"], "every sequence of open/log/read over all labels, time steps, lengths, ranks and floating-point bit patterns, with readers opened at any moment",
     "the unit test logs a handful of short random vectors under one label; it cannot cover interleavings of labels and steps, special values, long names or re-logging",
     ["src/common/data_logging.hpp"], [("BinaryLogger/ASCIILogger save, load, logState, loadState", "src/common/data_logging.hpp"), ("ParaViewLogger", "src/common/data_logging.hpp")],
     ["logState / loadState calls", "files in the logger's directory"], [dict(name="store", meaning="last logged value per (kind,label,step,rank)", where="files on disk")],
     "Store.tla keeps the last value logged per key; every read of the real loggers is compared bit for bit (ASCII: to the printed precision). TLC enumerates all short histories and samples long ones.")

prop("C02", "Backtracking line search honours its acceptance and safeguards",
     "A backtracking search started on a descent direction returns a step length only if the merit function there is finite and satisfies the sufficient-decrease condition, and returns zero when it gives up. Each trial after the first is the minimum of the quadratic or cubic interpolant of the data seen so far, confined to the safeguarding fractions of the previous trial. It never evaluates more often than its iteration limit and returns the first trial that qualifies.",
     ["inputs", "configurations", "histories"], "every merit function (as the sequence of values it returns, including infinities and NaNs), every parameter set and both interpolation orders",
     "the tests run a few smooth functions; the guarantee is over all value sequences",
     ["src/common/linesearch.hpp", "src/common/linesearch.cpp"], [("BacktrackingLineSearch::search, interpolate, quadInterp, cubicInterp", "src/common/linesearch.cpp")],
     ["calls of the merit function and the returned step"], [],
     "LineSearch.tla prescribes each trial from the history of trials in IEEE double arithmetic and which trial is accepted. TLC enumerates outcome sequences; the real search is driven through them and random functions.")

prop("C03", "Nonlinear solvers tell the truth and only accept decreasing steps",
     "A Newton solve reports convergence exactly when the residual at the state it returns meets the requested tolerance, and the iteration count and final residual norm it reports are those of the returned state. It never takes more iterations than its limit, and every globalised step it accepts satisfies the sufficient-decrease condition of its globalisation; when no acceptable step exists it stops, reporting failure, at the last accepted state. The merit function handed to a line search has the value and slope of the residual norm along the step, over all ranks.",
     ["inputs", "histories", "configurations"], "every residual operator (as the sequence of residuals and Jacobians it returns), starting point, tolerance, iteration limit and globalisation parameter",
     "the tests solve one or two smooth systems to convergence; failures, limits, stagnation and non-finite residuals are never reached",
     ["src/common/relaxed_newton.hpp", "src/common/relaxed_newton.cpp", "src/common/inexact_newton.hpp", "src/common/inexact_newton.cpp", "src/common/linesearch.hpp"],
     [("RelaxedNewton::Mult", "src/common/relaxed_newton.cpp"), ("InexactNewton::Mult, ComputeStepSize", "src/common/inexact_newton.cpp"), ("Phi", "src/common/linesearch.hpp")],
     ["residual evaluations, Jacobian requests, linear solves", "converged flag, iteration count, final norm"], [],
     "Newton.tla is the state machine of the two solvers; operator, Jacobian and linear solver are instrumented stand-ins whose calls are the trace.")

prop("C04", "Time marching visits the right times and logs what it promises",
     "An unsteady solve runs its initial hook once, then for every step the step-size, iteration and exit hooks in that order, and its terminal hook once; every hook sees the current number of steps, time and state. Time advances by exactly the step taken. The library's own step is the requested one, shortened so as not to pass the final time unless exact-t-final is off; the march ends when the final time is reached or after max-iter steps, and hands back the state of the last step. Each logger holds exactly the records its options select, each with the state and time of its moment: the initial state under step 0 at the initial time, the state before the i-th step under i, the final state under the number of steps taken (1 for a steady solve), and an adjoint solution under its own label.",
     ["configurations", "histories"], "every initial time, later final time, time step, iteration limit, sequence of requested steps and exits, logging option combination, steady or unsteady mode, and sequence of solves",
     "tests run one fixed time step and never inspect the records",
     ["src/common/abstract_solver.hpp", "src/common/abstract_solver.cpp", "src/common/data_logging.hpp"], [("AbstractSolver2::solveForState, solveForAdjoint and the hooks", "src/common/abstract_solver.cpp")],
     ["hook calls", "log records", "returned state"], [dict(name="records", meaning="time and state per (logger,label,step)", where="logger files")],
     "March.tla is the state machine of the time loop with its logging options, including the set of all records that may exist; a solver subclass records the hooks and the records are read back after every solve.")

prop("C05", "Time integrators perform the scheme they name",
     "Each time-integration scheme the solver offers by name (RK1, RK4, MIDPOINT, RRK, RRKMIDPOINT, RRK6, PTC, steady) requests the slopes of exactly its published stages, at their states and times and for their implicit step, and combines them by its published weights, for a residual that may be explicit, implicit, linear or nonlinear in the state; an accepted step advances time by the step it was asked to take (relaxation schemes: by the relaxation factor times it). The slope each stage obtains solves the stage equations. A scheme name that is not offered is rejected with an error instead of silently using another scheme.",
     ["inputs", "configurations"], "every residual, state, time, step size and scheme name",
     "tests integrate one ODE with one scheme and check an error norm against a tolerance",
     ["src/common/ode.hpp", "src/common/ode.cpp", "src/common/evolver.cpp"], [("FirstOrderODE::solve / setTimestepper", "src/common/ode.cpp")],
     ["residual evaluations and the state after each step"], [], "Ode.tla holds every scheme as a tableau (their order conditions are model-checked) and recomputes each stage request and update from the slopes the real solver obtained, in IEEE doubles.")

prop("C06", "Relaxation Runge-Kutta conserves or dissipates entropy exactly",
     "A relaxation Runge-Kutta step scales the ordinary Runge-Kutta increment by a factor for which the change in entropy over the step equals the entropy change estimated from the stages (each evaluated at its own stage state, slope and time), up to the tolerance of the search, and advances time by the same factor times the step. For a smooth system and a small step the factor is close to one, not the trivial zero. If the factor cannot be found the step reports failure and leaves state and time untouched.",
     ["inputs", "histories"], "every residual with an entropy, state, and step size",
     "one test per scheme with a loose bound",
     ["src/common/ode.cpp", "src/common/ode.hpp", "src/utils/utils.cpp"], [("RRKImplicitMidpointSolver::Step, RRK6Solver::Step", "src/common/ode.cpp")],
     ["entropy evaluations and the state and time after each step"], [], "The relaxation part of Ode.tla: TLC recomputes the entropy balance at the returned factor from the recorded entropies and stage entropy changes.")

prop("C07", "The time-dependent residual composes spatial residual and mass matrix",
     "The residual solved at each implicit stage is the spatial residual evaluated at state + dt * increment, at the time and with the other inputs last set, plus the mass matrix (identity if none is given) times the unknown increment; its Jacobian with respect to the increment is the mass matrix plus dt times the spatial Jacobian there (applied matrix free when the mass matrix is a block operator), and with a zero step it reduces to the explicit problem: spatial residual at the state plus mass times increment, with the mass matrix as Jacobian. Vectors set as inputs are referred to, so their present values count. Inputs and options set on the composed residual reach the spatial residual, and its entropy functions, size and preconditioner are those of the spatial residual. A mass matrix and Jacobian of kinds that cannot be combined are an error.",
     ["inputs", "histories"], "every sequence of setting times, steps and states, and evaluating residuals, Jacobians and derivatives",
     "tests evaluate one composition once",
     ["src/common/ode.hpp", "src/common/ode.cpp"], [("TimeDependentResidual", "src/common/ode.hpp"), ("TimeDependentJacobian", "src/common/ode.cpp")],
     ["calls on the parts, returned vectors"], [], "TimeRes.tla is the composed residual as a state machine over set inputs; TLC recomputes every residual and Jacobian product of generated histories in IEEE doubles (matrix-free products to the error of the documented finite difference).")

prop("C08", "Operator sums and matrix-free Jacobians act as the linear maps they stand for",
     "Applying a weighted sum of two operators returns exactly the weighted sum of what each returns, whatever the weights (also zero), sizes (also rectangular) and redefinitions, and whatever the result vector held before; operators of different size are rejected and leave the sum as it was. A matrix-free Jacobian applied to a vector returns scaling times the directional derivative of its residual at the base state last set, to the accuracy of the documented finite-difference step over all ranks, plus the explicit part; its diagonal block is scaling times the residual's own block plus the explicit block, also when asked for again. No application depends on, or alters the result of, earlier applications.",
     ["inputs", "histories"], "every pair of operators, weights (including zero) and sequence of re-weighting and application",
     "no test applies an operator twice or with zero weights",
     ["src/common/matrix_operators.hpp", "src/common/matrix_operators.cpp"], [("SumOfOperators", "src/common/matrix_operators.cpp"), ("JacobianFree", "src/common/matrix_operators.cpp")],
     ["operator applications"], [], "OpAlg.tla keeps what every operator was last defined as; TLC recomputes every application and block of generated histories, on one and two ranks.")

prop("C09", "Block-Jacobi preconditioning solves each diagonal block independently",
     "Applying the block preconditioner (or its transpose) gives, in every block of the unknowns, the result of that block's own solver (or its transpose) applied to that block of the right-hand side and nothing else, starting from zero whatever the result vector held before; a block without solver is copied. Setting the operator sets up each solver for its own diagonal block of a block operator or matrix-free Jacobian and rejects anything else. Solvers are destroyed with the preconditioner, or when replaced, exactly when it owns them.",
     ["inputs", "configurations"], "every block layout, operator and right-hand side, with sparse and dense blocks",
     "no test of the preconditioner",
     ["src/common/mfem_extensions.hpp", "src/common/mfem_extensions.cpp"], [("BlockJacobiPreconditioner", "src/common/mfem_extensions.cpp")], [], [], "BlockJac.tla keeps which solver stands at which block and for which matrix it was set up; stand-in solvers record set-up and destruction.")

prop("C10", "A form is a function of its named inputs, each as last given",
     "A nonlinear residual form, a linear (load) form and a functional output evaluate as a function of their named inputs alone: each input (number or field, mesh coordinates and state included) has the value it was last given, whatever history of settings, evaluations, linearisations and errors came before, whatever the order or grouping the inputs were given in, and whatever happens to the caller's vectors afterwards. Inputs no term declares are ignored; an input's name of one term (\"h:gap\") reaches that term only; a form evaluated or linearised without a state raises MISOException. Setting or evaluating never changes the caller's inputs. On essential degrees of freedom a residual is the state minus the boundary value and a load contributes nothing; loads are added to what the vector holds.",
     ["inputs", "histories"], "every set of inputs, terms and sequence of settings",
     "tests set one or two inputs once",
     ["src/physics/miso_input.cpp", "src/physics/miso_integrator.cpp", "src/physics/miso_nonlinearform.cpp", "src/common/miso_linearform.cpp", "src/common/functional_output.cpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/thermal/thermal_integ.cpp"],
     [("setValueFromInputs, setVectorFromInputs, setInputs", "src/physics/miso_input.cpp")], [], [], "Forms of one to three of MISO's electromagnetic, thermal and common terms (all but those whose sources the overlay cannot compile), on 2-D and 3-D meshes, straight and curved, with element and boundary attribute subsets and internal boundaries; every value compared with a form built anew and given the same inputs once. Loads and functionals on one rank.")

prop("C11", "Outputs are evaluated and differentiated as registered",
     "Evaluating a named output returns the value of the output registered under that name at the inputs given so far; its derivative with respect to a number is added to the variable it is given and its Jacobian products are accumulated into the buffers they are given, at those inputs and of that output and input alone. Asking for an unknown output, creating an output twice, an unknown kind of output, or giving a field where a number belongs is an error that changes no other output. The residual's value, global norm, linearisation and Jacobian products are those of the inputs given, and derivative requests on an unsteady problem are errors.",
     ["histories", "inputs"], "every sequence of creating, setting options of, evaluating and differentiating outputs and the residual, with any grouping of the inputs, on any number of ranks",
     "tests create one output and evaluate it once",
     ["src/common/abstract_solver.cpp", "src/common/miso_output.hpp"], [("createOutput, calcOutput, calcOutputPartial", "src/common/abstract_solver.cpp")], [], [], "spec/Facade.tla: a solver with named model outputs of every size and a model residual, integers exact; FacadeMC checks that a step about one output leaves the others alone and that derivatives are those of the values. Generated histories run AbstractSolver2 (serial and on 2 ranks) and TLC decides every value, buffer and error. EntropyOutput and the real functionals are C25/C28 matters.")

prop("C12", "Type-erased wrappers forward every call to the object they hold",
     "A residual, output, load or integrator wrapped in its type-erased holder behaves as the object itself: every operation reaches that object exactly once, with the arguments given (an operator application as an evaluation at that state), its result, its writes and its exceptions come back unchanged, a list of integrators is told in order, and an operation the object does not provide does the documented default (nothing, null, or an error) without touching it. Moving or copying a holder keeps the same object, a holder ends its object exactly once (an integrator is only referred to), and getConcrete yields that object or, for any other type, an error.",
     ["histories", "inputs"], "every sequence of operations on wrapped objects of every concrete type, including moves and casts back",
     "tests wrap one object of a kind",
     ["src/common/miso_residual.hpp", "src/common/miso_output.hpp", "src/physics/miso_load.hpp"], [("MISOResidual", "src/common/miso_residual.hpp"), ("MISOOutput", "src/common/miso_output.hpp"), ("MISOLoad", "src/physics/miso_load.hpp")], [], [], "spec/Wrap.tla: objects, the optional operations they provide, holders; WrapMC model-checks ownership (one owner, ended once). Generated histories of make/move/copy/drop/call run the real holders around instrumented objects of 7 interface variants per kind; the calls the objects saw, results, buffers and destructions are decided by TLC.")

prop("C13", "User options override defaults key by key and configure the solvers named",
     "The options a solver runs with are the documented defaults merged with the user's options at every depth (RFC 7396): each key the user gave has the user's value, a null removes the key, every other default survives and nothing else appears; neither the defaults nor another solver's options ever change. The options are printed exactly as they are, if printing is on and the solver is not silent. Linear and nonlinear solvers built from options are of the type named, with the tolerances, iteration limit, restart length, print level, forcing-term and line-search settings given (and the documented defaults for those left out), use the preconditioner or linear solver they are given, and start from zero; adjoint problems are solved by the solver named by adj-solver. An unknown type of linear solver, nonlinear solver, line search or time integrator is an error.",
     ["configurations"], "every options tree",
     "tests use a few option files",
     ["src/common/default_options.cpp", "src/common/mfem_extensions.cpp", "src/common/abstract_solver.cpp"], [("getDefaultOptions, merge in the solver's constructor", "src/common"), ("constructLinearSolver, constructPreconditioner, constructNonlinearSolver", "src/common/mfem_extensions.cpp")], [], [], "spec/Options.tla over JsonPatch.tla; OptionsMC checks the merge path by path on every pair of small trees. Generated histories run the real AbstractSolver2 and factories; every setting is read back from the mfem/hypre objects and decided by TLC. spec/defaults.json is the documented default tree.")

prop("C14", "Nearest-neighbour queries return a nearest point",
     "A query of the k-d tree returns a stored datum whose point is at minimal distance to the query and reports that distance, however many points there are, in whatever order they were added and however they coincide; querying never loses or duplicates points. Querying an empty tree is an error.",
     ["inputs", "histories"], "every multiset of points in every dimension and every query, and repeated finalisation and queries",
     "the test builds one regular grid",
     ["src/utils/kdtree.hpp"], [("kdtree add/finalize/nearest", "src/utils/kdtree.hpp")], [], [], "spec/KdTree.tla: points, finalized tree and queries; KdTreeMC verifies that for every median split (any choice of median among ties) the pruned search returns a nearest point. Histories of construction (add / node vector / iterators), adds, refinalization and queries are generated from the specification and every recorded query is checked in exact IEEE arithmetic to be at minimal distance with the data of such a point. Precondition: after add, finalize before querying.")

prop("C15", "Attribute lists select exactly the attributes they name",
     "Marking boundary or domain attributes from a list, from the keywords for all and none, or from an options entry marks exactly the attributes named and no others; a list with an attribute the mesh does not have, and an unknown keyword, is an error. A term added to a residual form, load or functional for a list of attributes acts on exactly the elements, boundary or internal boundary faces with those attributes, each once, whatever other terms the form has, and essential true degrees of freedom are exactly those of the boundaries named.",
     ["configurations", "inputs"], "every attribute set and selection",
     "tests use one or two boundary lists",
     ["src/utils/utils.hpp", "src/utils/utils.cpp", "src/physics/miso_nonlinearform.hpp", "src/physics/miso_nonlinearform.cpp", "src/common/miso_linearform.hpp", "src/common/miso_linearform.cpp", "src/common/functional_output.hpp", "src/common/functional_output.cpp"], [("attrVecToArray, getMFEMBoundaryArray", "src/utils/utils.cpp"), ("addDomainIntegrator and its siblings", "src/physics/miso_nonlinearform.hpp")], [], [], "spec/Markers.tla keeps the attributes of a mesh's elements and the selection of every term; TLC checks the design on a small mesh and generates histories of marking, building residuals, loads and functionals, adding restricted terms, reselecting and evaluating; the driver replays them on real meshes with inner boundaries with terms that record which elements they visit, and TLC validates marks, visits, touched rows and essential dofs")

prop("C16", "Scalar root finders return a bracketed root or say they failed",
     "Bisection on an interval over which the function changes sign returns a point within tolerance of a sign change inside that interval, including when a root lies at an end point or the values are very small or large. The secant solver follows the secant of its two latest points and returns one only if the function there or its last change meets the tolerance; when the iteration limit is reached first, or the interval brackets nothing, both report failure rather than a number.",
     ["inputs"], "every function (as the sequence of values it returns), interval, tolerance and iteration limit",
     "the tests solve one smooth equation",
     ["src/utils/utils.hpp", "src/utils/utils.cpp"], [("bisection, secant", "src/utils/utils.cpp")], [], [], "RootFinder.tla prescribes every evaluation point from the history and which point may be returned; TLC enumerates sign and magnitude patterns of the values.")

prop("C17", "Fields round-trip between true and local degrees of freedom",
     "Distributing a field's true degrees of freedom and collecting them again returns the same values on every rank and mesh (states by the prolongation and its restriction, duals by their transposes, so pairings are kept); projecting a function sets the values the function has at the degrees of freedom, on every rank, and returns the true ones. A field asked for by family, degree and number of components is of that kind and starts at zero; one made on the space of another has the same degrees of freedom and its own values; a moved field keeps its values, name and mesh. A solver's fields are those created under each name: state, boundary values, adjoint, residual, the mesh coordinates (which are where the mesh is, always) and external fields, each of its own shape. Setting, starting from or measuring one field changes no other, except that setting the state also sets the boundary values; an inverted mesh or an unknown mesh file is an error.",
     ["inputs", "histories"], "every mesh, element kind and order, vector dimension, field name set and sequence of field operations",
     "tests use one mesh and field",
     ["src/physics/finite_element_vector.hpp", "src/physics/finite_element_vector.cpp", "src/physics/finite_element_state.hpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_dual.hpp", "src/physics/pde_solver.cpp"],
     [("FiniteElementVector, FiniteElementState, FiniteElementDual", "src/physics"), ("PDESolver field registry", "src/physics/pde_solver.cpp")], [], [], "Fields.tla: fields as shapes (prolongation and restriction rows over all ranks) and values, and every operation on them; FieldsMC verifies round trips, duality of states and duals and the frame of each operation; FieldsTrace replays generated histories on the real classes on 1 and 2 ranks, conforming and nonconforming meshes, and compares every field after every step")

prop("C18", "Summation-by-parts elements satisfy the summation-by-parts identities",
     "Every SBP element (segments and triangles of degree 0-4, tetrahedra of degree 0-1, from SBPCollection or DSBPCollection) is a summation-by-parts operator: positive diagonal norm, equal to the node weights, exact for polynomials of degree 2p-1; weak derivatives that differentiate polynomials of degree p exactly and whose symmetric part is the boundary integral; a projection that removes exactly the polynomials of degree p, orthogonally in the norm. All member functions are consistent with those operators for every input and any state of the result buffer: strong/weak matrices, rows and transposes, applications to multi-component data (multWeakOperator accumulates Q u or -Q'u; norm, inverse norm, projection overwrite, also in place), nodal applications, physical-space entries and their reverse sweep, shape functions (unit at own nodes; degree-p interpolation elsewhere), shape derivatives (row of D at nodes, error elsewhere), point lookup. On meshes, nodes of neighbouring elements and of boundary elements share a degree of freedom exactly when they coincide, whatever the vertex orderings; never for the discontinuous collection.",
     ["configurations", "inputs"], "every element kind, degree and polynomial",
     "tests check a sample of the identities with loose tolerances",
     ["src/common/sbp_fe.hpp", "src/common/sbp_fe.cpp", "src/common/sbp_operators.hpp"], [("SBPSegmentElement, SBPTriangleElement, SBPTetrahedronElement", "src/common/sbp_fe.cpp")], [], [], "spec/Sbp.tla states the SBP axioms over the element read from the code and the semantics of all operations on a shared buffer; SbpMC checks them on an integer instance (boundary operator, accumulation, skewness, row sums). Generated histories of operations and all (sampled in quick) vertex orderings of two neighbouring elements are executed and every result is checked against the specification by TLC to 1e-10.")

prop("C19", "Quadrature and orthogonal polynomials are exact to the promised degree",
     "The Gauss-Lobatto rule of every size from two points has distinct points in increasing order with both ends, positive weights summing to two, and integrates every polynomial of degree up to twice the number of points minus three exactly. The Jacobi polynomials, the Proriol polynomials on the triangle and on the tetrahedron are the orthonormal polynomials of their indices at every point of the domain, degenerate vertices and edges included, and the Vandermonde matrices hold exactly those of the degree, in the documented order, whatever the result buffers held before.",
     ["configurations", "inputs"], "every rule size and polynomial degree",
     "no test, or one degree",
     ["src/common/orthopoly.hpp", "src/common/orthopoly.cpp"], [("getLobattoQuadrature, jacobiPoly, prorioPoly, getVandermonde...", "src/common/orthopoly.cpp")], [], [], "spec/Ortho.tla gives each polynomial in barycentric coordinates with integer coefficients; OrthoMC proves them orthonormal for the explored degrees by exact integration of polynomials in TLC. Calls with generated parameters and points (vertices, edges, interior, near-degenerate) are evaluated by the code and checked against the specification to 1e-10; Lobatto rules of 2..64 points against the moments.")

prop("C20", "Flow fluxes, sources and exact solutions mean what the equations say",
     "For every admissible gas state in one to three dimensions and every direction: conversion between conservative, primitive and entropy variables is exact both ways and agrees with the stated definitions of pressure, sound speed, entropy and spectral radius; each two-point flux equals the physical flux when the states agree and is symmetric where it claims to be; the Ismail-Roe flux satisfies the entropy-conservation identity with the flux potential, and its dissipation is never negative in the entropy norm; wall, far-field, free-stream, vortex and control boundary fluxes are the physical flux of the state they prescribe; the viscous flux, wall conditions, penalty and dual flux are those of a Newtonian ideal gas; the source of each manufactured solution is the residual of the equations on its exact solution. Instantiating a function with automatic-differentiation scalars gives the same values.",
     ["inputs"], "every pair of admissible states and every direction in one to three dimensions",
     "tests check a few fixed states",
     ["src/physics/fluidflow/euler_fluxes.hpp", "src/physics/fluidflow/navier_stokes_fluxes.hpp"], [("calcEulerFlux, calcIsmailRoeFlux, calcEntropyVars, ...", "src/physics/fluidflow/euler_fluxes.hpp")], [], [], "Gas.tla states the ideal-gas definitions in IEEE double arithmetic; GasMC checks their mutual consistency (Roe, waves, entropy identity) on a small grid; TLC validates every recorded evaluation against the reference. Exact solutions are compared with sources through 4th-order stencils recorded by the driver. Constants: gamma = 1.4.")

prop("C21", "Distance to a surface is the true minimum distance",
     "The distance reported from any point of the plane to a surface is the distance to the closest point of that surface: whatever curve or selection of boundary attributes the surface was made from, whatever the order and direction of its elements, whether or not the closest point lies on the element that holds the closest node, inside an element or at its end. A surface keeps the shape it had when it was made (its source mesh may move or go away), earlier questions do not change later answers, and dimensions that are not supported are refused. Curved elements are covered for points closer than their radius of curvature.",
     ["inputs", "configurations"], "every surface mesh (straight or curved, selected by any boundary subset) and query point",
     "tests measure distances to a full circle or sphere",
     ["src/common/surface.hpp", "src/common/surface_def.hpp"], [("Surface constructors, calcDistance, solveDistance, buildKDTree", "src/common/surface_def.hpp")], [], [], "Surface.tla: exact point-segment distance in double arithmetic for straight elements, nested sampling of the polynomial for degree 2 and 3 (documented: tested for degree 1 and 2). SurfaceMC checks the closed form on an integer grid exhaustively. kd-tree itself is C14.")

prop("C22", "Lumped mass matrices are diagonal, positive and conservative",
     "The diagonal mass integrator assembles, on any element of any supported kind, a diagonal matrix whose entries are the quadrature weight times the Jacobian determinant of each node, repeated for every vector component, so that it is positive and sums to the element's volume times the number of components.",
     ["inputs", "configurations"], "every element shape, degree, geometry and number of components",
     "no test covers it",
     ["src/physics/diag_mass_integ.hpp", "src/physics/diag_mass_integ.cpp"], [("DiagMassIntegrator::AssembleElementMatrix", "src/physics/diag_mass_integ.cpp")], [], [], "spec/DiagMass.tla; DiagMassMC verifies on an integer instance that each component's mass is the volume of the elements assembled. Histories (integrators, meshes of one or two segments, triangles or tetrahedra of every SBP degree, unit/affine/stretched to 1e8/curved/embedded geometry, 1-5 components, both step modes, reused result matrix) are executed; TLC recomputes every entry from the Jacobian and compares the assembled form's total. Inverted elements are outside the property.")

prop("C23", "A coefficient evaluates to the data of the element's component's material",
     "A solver's materials are the library merged (RFC 7396) with the material data its components specify, in the order of the components, whichever constructor is used. Data given for a material belongs to the material of that name in that solver only: neither the library nor any other solver changes. A coefficient built for a property evaluates on an element to the value that the material of the component owning the element's attribute has for that property, zero where no component with that property owns the attribute; mixtures evaluate by their rule (weighted average, lower Hashin-Shtrikman bound, and the derivatives of both by the weight) at the last value of the input they are weighted by (one half before any), and no other input affects them. Two components with the property on one attribute are refused. Every mixture in the library refers to data its parts have, and every curve has consistent knots and control points; the library's data is that of the data sheet.",
     ["configurations"], "every set of components, materials and user overrides",
     "tests use one material set",
     ["src/common/material_library.hpp", "src/common/material_library.cpp", "src/physics/pde_solver.cpp", "src/common/coefficient.hpp", "src/common/coefficient.cpp"], [("material_library", "src/common/material_library.cpp"), ("PDESolver::PDESolver", "src/physics/pde_solver.cpp"), ("constructMaterialCoefficient, MeshDependentCoefficient", "src/common/coefficient.cpp")], [], [], "spec/Materials.tla + JsonPatch.tla: TLC exhaustively checks override locality on short histories; the traces of real PDESolver constructions and constructMaterialCoefficient evaluations are replayed against it, with spec/materials.json as the data sheet.")

prop("C24", "Error norms measure the difference they claim",
     "The norm of a field, or of its difference from a function, is the p-norm (or maximum) over the quadrature points of the component asked for, or of the length of the vector if none is: zero for a field that equals the function there, scaling with the difference, subadditive, never less than that of a component, the maximum bounding every pointwise difference; where quadrature weights are negative the norm carries the sign of the sum. Every rank is given the same number, that of the whole mesh, and asking changes no field. The error of a state of a solver is that norm of the state given, or for a vector or a function of the whole vector the length of the difference over all ranks; a vector of the wrong size is an error.",
     ["inputs", "configurations"], "every field, function, norm, component selection, element kind and mesh",
     "tests compare one norm against a tabulated value",
     ["src/physics/finite_element_state.hpp", "src/physics/finite_element_state.cpp", "src/common/abstract_solver.cpp", "src/physics/pde_solver.cpp"], [("calcLpNorm, calcL2Error, calcLpError, calcStateError", "src/physics/finite_element_state.cpp")], [], [], "Norms.tla defines a field by its quadrature points (weight, value, function value); NormsMC verifies zero-iff-equal, homogeneity, triangle inequality, component and maximum bounds, and that norms of the ranks combine to that of the whole; NormsTrace checks every norm the real functions return (1 and 2 ranks; every family, exponent, component, form; negative weights) against the points, which the driver evaluates from shape functions")

prop("C25", "Derivatives of forms, loads and functionals are those of their values",
     "Every derivative MISO offers of a residual form, load or functional - Jacobian and its transpose, Jacobian-vector and vector-Jacobian products with respect to the state, the mesh coordinates, any other field and any scalar, partial derivatives of functionals - is the derivative of the value the form evaluates to, at the inputs last given (for state products of a residual: at the inputs it was last linearised about), for any combination of terms, attribute subsets, element types, essential degrees of freedom and materials; products are added to what the buffer holds. The adjoint obtained through setUpAdjointSystem, a linear solve and finalizeAdjointSystem satisfies the transposed linearised equations on all degrees of freedom, essential ones included. A product before any linearisation is an error.",
     ["inputs", "configurations"], "every integrator, mesh, field, input and direction",
     "tests difference one perturbation with a loose tolerance",
     ["src/physics/miso_nonlinearform.cpp", "src/common/miso_linearform.cpp", "src/common/functional_output.cpp", "src/physics/mfem_common_integ.cpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/thermal/thermal_integ.cpp"],
     [("MISONonlinearForm, MISOLinearForm, FunctionalOutput", "src/physics")], [], [], "Compared with fourth-order central differences of freshly built forms; combinations MISO does not provide (aborts or no registered sensitivity; listed in DESIGN.md) are not asked for. One rank.")

prop("C26", "Projecting a field removes exactly its divergence, also in reverse mode",
     "A Nedelec field passed through the divergence-free projector has, weakly, no divergence in the interior and differs from the input by the gradient of a potential that vanishes on the boundary (the irrotational projector returns that gradient). So projecting twice equals projecting once and a field without divergence is unchanged. The vector-Jacobian product with respect to the input field is the transpose of that map, the one with respect to the mesh coordinates is the derivative of the projection, both accumulate into the buffer they are given, and other names contribute nothing. After new mesh coordinates are announced through setInputs the projection is that of the moved mesh.",
     ["inputs", "configurations"], "every mesh, order and field",
     "no test of the projector",
     ["src/utils/div_free_projector.hpp", "src/utils/div_free_projector.cpp", "src/utils/irrotational_projector.hpp"], [("DivergenceFreeProjector::Mult", "src/utils/div_free_projector.cpp")], [], [], "spec/Projector.tla characterises the two projections and their transpose by witnesses (a potential that vanishes on the boundary with the given weak divergence), with the mesh version the projector has set up as state; TLC checks the design exhaustively on small integer matrices and generates histories of build, move, notify, mult and vjp; the driver replays them on real meshes (tri, quad, tet, hex, thin, curved) and every recorded call is validated by TLC against weak divergence, gradient and finite differences of the projection itself")

prop("C28", "Flow residuals conserve, keep free streams and dissipate entropy discretely",
     "For the SBP discretization of the Euler and Navier-Stokes equations, on every mesh of the supported elements: a uniform state is steady (on periodic meshes, and against far-field boundaries that hold the same state); the residual totals of a closed domain are zero for every conserved component, with slip walls for mass and energy. With the Ismail-Roe flux and no stabilization or viscosity the product of the entropy variables with the residual is zero, local projection stabilization and interface dissipation make it non-negative and vanish on the states they leave alone, and the viscous terms produce exactly the stress and heat-flux entropy production of the Navier-Stokes equations with the documented (Sutherland or constant) viscosity. calcEntropyChange equals that product, calcEntropy is the mass-weighted sum of the mathematical entropy, the mass matrix is diagonal and the same for every component. The Jacobian of the residual and the state derivatives of drag and lift are the derivatives of their values. Drag, lift, entropy and boundary-entropy outputs equal the boundary or domain integrals they document, the CFL step is the smallest over the pairs of nodes, and results do not depend on the number of ranks.",
     ["inputs", "configurations"], "every mesh, degree, state, flux, stabilization coefficient and set of boundary conditions",
     "the identities hold only to rounding and only if metric terms, operators, two-point fluxes and signs agree everywhere; the tests that exercise the flow residuals do not build here",
     ["src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/flow_residual.hpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/physics/fluidflow/inviscid_integ_def.hpp", "src/physics/fluidflow/navier_stokes_integ_def.hpp", "src/physics/fluidflow/viscous_integ_def.hpp", "src/common/sbp_fe.cpp"], [("FlowResidual::evaluate_, getJacobian_, calcEntropyChange_, minCFLTimeStep", "src/physics/fluidflow/flow_residual.cpp"), ("DyadicFluxIntegrator, InviscidBoundaryIntegrator, InviscidFaceIntegrator, LPSIntegrator", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("SymmetricViscousIntegrator and viscous boundary integrators", "src/physics/fluidflow/viscous_integ_def.hpp")], [], [], "spec/FlowRes.tla states the discrete identities as predicates over configuration, state class and recorded vectors; TLC checks a small integer SBP model exhaustively (conservation, entropy conservation, dissipation sign) and generates configurations and histories (mesh, degree, flux, boundaries, stabilization, viscosity, states); the driver runs the real residual serially and on 2 ranks and TLC decides every record, finite differences included")

prop("C27", "Material models evaluate and differentiate to their published formulas",
     "A material coefficient built from components and the material library uses, on each attribute, the model of the component that owns it, with parameters taken from the component, else the library, else the documented default; a material given as a name, or with no model, has the library's constant, and an unknown model is an error. Its value, and every first and second derivative it offers with respect to temperature, frequency and flux, are those of the model's formula at the given state - zero flux and states beyond the end of the measured curve included - and zero on attributes no component owns. A continuation parameter scales only the part it belongs to. Evaluating a coefficient changes neither it nor what it reports afterwards.",
     ["inputs", "configurations"], "every model, set of parameters, attribute assignment and state",
     "no test builds the conductivity, reluctivity, remanent flux, demagnetization and CAL2 coefficients over components and library together, and none differentiates them twice",
     ["src/physics/electromagnetics/conductivity_coefficient.cpp", "src/physics/electromagnetics/reluctivity_coefficient.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp", "src/physics/electromagnetics/demag_flux_coefficient.cpp", "src/physics/electromagnetics/pm_demag_constraint_coeff.cpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/cal2_ke_coefficient.cpp", "src/common/coefficient.cpp"],
     [("getModels, Eval, EvalStateDeriv, Eval2ndDerivS", "src/physics/electromagnetics/reluctivity_coefficient.cpp"), ("MeshDependentCoefficient, ParametricCoefficient", "src/common/coefficient.cpp")], [], [], "spec/MatModels.tla states which component owns an attribute, parameter precedence and each model's formula as second-order jets (Jets.tla); TLC checks the resolution rules exhaustively, generates constructions and evaluation histories, and decides every recorded value and derivative in IEEE arithmetic")

prop("C29", "Flow control couples controller and flow exactly as the passive PID law says",
     "The flow-control residual is the flow residual, its actuator boundary blown by a controller, followed by the controller's own two equations. In every history of given inputs (state, gains, filter constants, target entropy, storage matrix, actuator position, open or closed loop) the control part is the passive PID law of what was given last: rates, blowing velocity, storage and growth of storage follow the documented formulas with the error of the measured boundary entropy; with the loop open the error plays no part, and the loop stays open until it is closed. The coupled residual measures the boundary entropy itself at its own state, its flow part is the flow residual under the velocity the controller computes from it, shaped around the actuator's position (or its default). Mass, Jacobian and preconditioner blocks, entropy, entropy change and entropy supply are the block forms of the parts. An input or option that is refused is an error and changes nothing, sizes and offsets agree, and so do results on 2 ranks.",
     ["inputs", "histories", "configurations"], "every sequence of inputs, evaluations, Jacobians and time steps, for every set of gains and boundary conditions",
     "the tests that would exercise the coupled residual do not build here, and they check one state at one set of gains",
     ["src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_residual.hpp", "src/physics/fluidflow/euler_integ_def.hpp"],
     [("ControlResidual::evaluate, getJacobian, calcEntropy, calcEntropyChange", "src/physics/fluidflow/flow_control_residual.cpp"), ("FlowControlResidual, the coupled block residual", "src/physics/fluidflow/flow_control_residual.cpp"), ("ControlBC, Supply", "src/physics/fluidflow/euler_integ_def.hpp")], [], [], "spec/FlowControl.tla is the controller and the coupled system as a state machine over what was given; TLC checks it exhaustively over a small field (the loop stays open until closed, refused inputs change nothing, storage), generates histories, and decides each recorded residual, Jacobian block, entropy and supply in IEEE arithmetic, serially and on 2 ranks")

prop("C30", "Fields transferred to another space have its values, in both modes",
     "Transferring a finite element field to a discontinuous space gives, at every node of every element of that space, the field's value there, its curl there, or the length of its curl, under the map of the element at the mesh coordinates last given - for scalar and edge elements of every degree, straight and curved meshes in two and three dimensions, whatever the ordering and orientation of the degrees of freedom. The reverse mode with respect to the state and to the mesh coordinates adds to what it is handed exactly the derivative of the transfer at what was last given, is a number where the length of the curl is zero (the curl contributes nothing there), subtracts the seed for the output itself and leaves anything else alone. Inputs given by name stay given, and need not outlive the call.",
     ["inputs", "histories", "configurations"], "every mesh, pair of spaces, state, coordinates and seed",
     "the tests do not build here and compare one affine mesh against one other projection, away from zero fields",
     ["src/utils/l2_transfer_operator.cpp", "src/utils/l2_transfer_operator.hpp"],
     [("ScalarIdentityOperator, IdentityOperator, CurlOperator, CurlMagnitudeOperator", "src/utils/l2_transfer_operator.cpp"), ("L2TransferOperator::apply, vectorJacobianProduct", "src/utils/l2_transfer_operator.cpp")], [], [], "spec/Transfer.tla states the maps (covariant, Piola, turned gradient) and what stays given over any field; TLC checks them over a small field (tangential and normal products are kept, differences between vertices are reproduced) and in 3D, generates configurations and histories, and decides each recorded field and derivative in IEEE arithmetic from the recorded reference bases")

prop("C31", "Warped meshes follow their surface and solve the elastic problem inside",
     "A mesh warper takes the surface of the mesh where the guess has it and puts the nodes inside where the linear elastic solid, at rest at the mesh coordinates, is in equilibrium: rigid and affine motions of the surface are reproduced inside, an unmoved surface leaves the mesh as it was. The surface indices it reports are those of the boundary nodes, each once, and index the volume coordinates and the state alike, whatever the degree and the ordering of the mesh's own nodes. Residuals are the equilibrium inside and the distance from the given surface on it; derivatives along the state and the surface, in both modes, add to what they are handed the exact derivatives at the last linearization; adjoints solve the transposed problem and leave their seed alone, and give the sensitivity of what a solve returns. The number of ranks does not matter.",
     ["inputs", "histories", "configurations"], "every mesh, degree, surface motion, seed and order of calls",
     "the tests do not build here and warp one mesh by one scaling",
     ["src/utils/mesh_warper/mesh_warper.cpp", "src/utils/mesh_warper/mesh_warper.hpp", "src/utils/mesh_warper/mesh_move_integ.cpp", "src/utils/mesh_warper/mesh_move_integ.hpp"],
     [("MeshWarper, MeshWarperResidual", "src/utils/mesh_warper/mesh_warper.cpp"), ("ElasticityPositionIntegrator", "src/utils/mesh_warper/mesh_move_integ.cpp")], [], [], "spec/Warp.tla states the stiffness, rows, derivatives and their histories over any field; TLC checks it over a small field (symmetry, rigid and affine motions), generates configurations and histories, and decides each recorded residual, solution, derivative and adjoint in IEEE arithmetic from the recorded reference derivatives; runs on one and two ranks are compared")

prop("C32", "OpenMDAO components answer for what they are given, in both modes",
     "The components that make a solver, a functional or a mesh warper part of an OpenMDAO model declare every input they depend on with the size the solver gives it, and hand each of them to the solver under its name with the values given now, contiguous whatever the storage of the model's vectors. Residuals, solutions and functionals are those of these values; solves start from the outputs given (a warper's, from the surface given). Linear products are those of the last linearization: they add to what is handed over, only for what is asked for, in forward and reverse mode, functionals' summed over the ranks; an adjoint answers the seed whatever was there before, also a zero one; inputs are left as they were. A derivative the solver does not implement raises NotImplementedError, unless partials are being checked. Mesh components publish the coordinates under the name of the physics, and the groups of a builder connect what one stage produces to what the next consumes.",
     ["inputs", "histories", "configurations"], "every component, set of dependencies, order of calls, seed and selection of derivatives",
     "no test runs here: the tests need OpenMDAO and the bindings",
     ["miso/miso_state.py", "miso/miso_output.py", "miso/mesh_warper.py", "miso/mphys/miso_builder.py"],
     [("MISOState, MISOMesh", "miso/miso_state.py"), ("MISOFunctional", "miso/miso_output.py"), ("MISOMeshWarper", "miso/mesh_warper.py"), ("MISOBuilder and its groups", "miso/mphys/miso_builder.py")], [], [], "spec/Component.tla states what components answer over a solver with integer physics in which every input matters; TLC checks it (transposes, additivity, nothing from nothing), generates configurations and legal call orders, and decides each recorded call of the real components, which run over stand-ins for OpenMDAO and the bindings with the same physics")

prop("C33", "Coil currents and magnets are those of their groups; loads are divergence-free",
     "Every coil group has one current density; the elements with an attribute of the group have it in the direction of their source at that point (along an axis, about an axis, through a box, around a racetrack, up and down the slots of a stator and about the slots' axes beyond it, with the number of slots and the stack length given last), the others have none. A magnet has the remnant flux of its material at the temperature of the point, in the direction of its group (radial, about the axis or along one), with the derivatives by temperature and position of that product. Inputs change the densities and parameters they name and report whether something changed; cached densities come back. A load is minus the part of the densities, tested with the basis of the space, that no gradient of a function vanishing on the boundary sees: linear in the densities, zero at the essential degrees of freedom, subtracted from what is handed over, and that of the densities, parameters and mesh coordinates of the moment. Derivatives along a group's density, which leave the densities as they were, and along the mesh coordinates are those of the load, added to what is handed over; by anything else they are zero.",
     ["inputs", "histories", "configurations"], "every assignment of sources to attributes, mesh, degree, input and order of calls",
     "the tests do not build here and compare a few integrals of one configuration",
     ["src/physics/electromagnetics/current_source_functions.cpp", "src/physics/electromagnetics/current_source_functions.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/current_load.hpp", "src/physics/electromagnetics/magnetic_source_functions.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp", "src/common/coefficient.cpp"],
     [("CurrentDensityCoefficient", "src/physics/electromagnetics/current_source_functions.cpp"), ("CurrentLoad", "src/physics/electromagnetics/current_load.cpp"), ("MagnetizationCoefficient", "src/physics/electromagnetics/magnetic_source_functions.cpp"), ("VectorMeshDependentCoefficient", "src/common/coefficient.cpp"), ("VectorFEMassIntegratorMeshSens, VectorFEDomainLFIntegratorMeshSens", "src/physics/mfem_common_integ.cpp")], [], [], "spec/CurrentSource.tla states densities, their cache and the load held against what it depends on; TLC checks it (fresh loads, linearity, transposed derivatives), generates histories, and decides each recorded density against the directions it defines, each load against the characterisation of the divergence-free part (with a witness it verifies), and each derivative against differences of these")

prop("C34", "Losses, heat sources and forces are their formulas and differentiate exactly",
     "The direct current loss per volume of a winding is that of its wires in parallel at the current and resistance given, the alternating current loss that of the eddies in every strand of every turn of every slot at the mean square flux and frequency given, the core loss the integral of the material's loss law over the parts selected; the heat sources are the same losses spread over the mesh and tested with the basis of the temperature, zero where it is prescribed, and their sum is the sum of the three. Force and torque are the derivatives of the energy along displacements of the moving parts along and about the axis given. Each is a function of its named inputs - numbers, fields, mesh coordinates - at the values last given, whichever was given first and however often it was evaluated, and its derivatives in forward and reverse mode by every input it names are exactly those of that function, added in reverse to what is handed over.",
     ["inputs", "histories", "configurations"], "every mesh, material, selection of parts, set of inputs and order of evaluations and derivatives",
     "the tests do not build here and compare one cube at one set of values",
     ["src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/common_outputs.cpp"],
     [("DCLossFunctional, ACLossFunctional, CoreLossFunctional", "src/physics/electromagnetics/electromag_outputs.cpp"), ("DCLossDistribution, ACLossDistribution, CoreLossDistribution, EMHeatSourceOutput", "src/physics/electromagnetics/electromag_outputs.cpp"), ("ForceFunctional, TorqueFunctional", "src/physics/electromagnetics/electromag_outputs.cpp"), ("the loss integrators and their sensitivities", "src/physics/electromagnetics/electromag_integ.cpp")], [], [], "spec/EMOutputs.tla states the losses as formulas of integrals, the powers of the numbers in them, the fields of virtual displacements and what stays given; TLC checks it (inputs keep their values, values are functions of them, powers agree with formulas), generates histories, and decides each recorded value, and each derivative against difference quotients of freshly built outputs")

prop("C35", "The thermal residual is the terms its options ask for, minus its load",
     "The residual of heat conduction contains exactly the terms its options ask for, with the attributes and numbers given or their defaults: conduction always, convection and outflux where named, the interior penalty coupling for discontinuous spaces under all of their names, prescribed temperatures weakly there and by rows in continuous spaces, and for each named interface its own transfer in place of the continuous coupling. A load given once stays subtracted until another is given, except on rows whose temperature is prescribed; it is a copy, the caller's stays as it was. Derivatives in both modes, Jacobians, their transposes and adjoints are those of the sum at the last linearization, minus the identity off these rows for the load, and add to what they are handed. The preconditioner is of the kind asked for.",
     ["configurations", "inputs", "histories"], "every set of options, mesh, degree, order of inputs, evaluations and derivatives",
     "the tests that would build the residual do not build here, and use one set of options each",
     ["src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_residual.hpp"],
     [("ThermalResidual's constructor, setInputs, evaluate, products", "src/physics/thermal/thermal_residual.cpp"), ("constructPreconditioner", "src/physics/thermal/thermal_residual.hpp")], [], [], "spec/ThermalRes.tla states the terms of every set of options, the load and what stays given; TLC checks it for all small options, generates histories, and decides each recorded residual and derivative of the real class against the sum of exactly these terms, built anew at that point, and against minus the identity")

prop("C36", "The magnetostatic residual is its field terms driven by its currents and magnets",
     "The residual of a magnetic potential contains exactly the terms its options ask for: curl-curl in space, the gradient term in the plane with the interior penalty and weak boundary terms for discontinuous spaces, with the penalty given or its default; and it is driven by the currents and magnets in all of the attributes their groups name, at the densities, temperature, state and coordinates last given, but not on rows whose potential is prescribed. Its derivative by the current density of a group, in both modes, is what a unit of that density adds to the load, whatever other currents or magnets there are, and leaves the densities as they were; other derivatives, Jacobians and adjoints are those of field terms and sources together, at the last linearization. The preconditioner is of the kind asked for.",
     ["configurations", "inputs", "histories"], "every set of options, mesh, degree, order of inputs, evaluations and derivatives",
     "the tests that would build the residual do not build here, and do not put currents and magnets together",
     ["src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetostatic_residual.hpp", "src/physics/electromagnetics/magnetostatic_load.hpp"],
     [("MagnetostaticResidual's constructor, setInputs, evaluate, products", "src/physics/electromagnetics/magnetostatic_residual.cpp"), ("MagnetostaticLoad", "src/physics/electromagnetics/magnetostatic_load.hpp")], [], [], "spec/MagRes.tla states the terms and sources of every set of options; TLC checks it for all small options (a derivative that carries the magnets along is refused), generates histories, and decides each recorded residual and derivative against the sum of exactly these terms and sources, built anew at that point")

def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": p["state"],
                                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                           "thorough_cmd": "python3 checks/%s.py --thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["tech"] or TECH, "level": "model_checking",
                           "level_note": p["note"] + " Bounded: exhaustive for the constants in the .cfg files, sampled beyond; trusts TLC, the IEEE double operators in java/IEEE.java, the driver's recording and shim/adept.h."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "No check built yet."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "TLA+ with TLC. No hooks in /repo: drivers observe public interfaces. A check builds what it needs from /repo's working tree."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
