"""One entry per property: which harness decides it, and which translation
units of /repo/src it links (everything else of /repo is added on demand)."""
CHECKS = {}
def check(pid, harness, repo, rule, **kw):
    CHECKS[pid] = dict(harness=harness, repo=repo, rule=rule, **kw)

check("C01", "kdtree", [], "random point clouds (uniform, lattice, duplicated, collinear, sorted) in 1-3 D, built three ways, then 25 queries each (inside, far outside, on a node, midway between nodes); non-trivial when at least one query was decided",
      require_groups=["kd1", "kd2", "kd3"], require_counters=["queries", "queries-with-ties"])
check("C02", "linesearch", ["common/linesearch.cpp"], "random merit functions (quadratic to quartic, exponential, oscillating, jumping, infinite or NaN beyond a threshold, ascent directions) and random search options; every evaluation the search makes is recorded and the recorded trace is judged; non-trivial when the trace was decided",
      require_groups=["trace", "dyadic", "merit"], require_counters=["backtracked", "degenerate-cubics", "failed-searches", "quadratic-interpolations", "cubic-interpolations", "nonfinite-phi"])
check("C03", "roots", ["utils/utils.cpp"], "random functions (linear, cubic, exponential, arctangent, step, wiggly, sinh) with the root inside, at an end, at the midpoint or outside the bracket, random tolerances and limits; every evaluation is recorded; non-trivial when the result was decided",
      require_counters=["met-ftol", "met-xtol", "root-at-an-end", "no-sign-change", "limit-reached", "parabolas"])
check("C04", "markers", ["utils/utils.cpp"], "random attribute lists (with repeats, empty, out of range), keywords and malformed JSON; random vectors with and without aliasing",
      require_counters=["invalid-selections", "valid-selections"])
check("C06", "orthopoly", ["common/orthopoly.cpp", "utils/utils.cpp"], "Lobatto rules with 2..60 nodes (2..120 thorough), random Jacobi polynomials against the explicit sum, simplex bases of every degree to 12/10/6 against exact quadrature",
      require_counters=["rules", "jacobi-values", "bases"])
check("C07", "sbp", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"], "all 12 operators (segments and triangles of degree 0..4, tetrahedra of degree 0..1) against monomial quadrature, differentiation and boundary integrals; random states, metrics and evaluation points",
      require_counters=["elements", "operator-products", "metric-entries", "shape-evaluations"])
check("C08", "sbpmesh", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"], "random line, triangle and tetrahedron meshes with arbitrary vertex numbering, element vertex order and perturbed vertices, every supported degree; non-trivial when the mesh was judged",
      require_groups=["conforming", "discontinuous", "orientation"], require_counters=["shared-dof-visits", "boundary-dofs", "triangle-meshes", "tet-meshes", "line-meshes", "dg-meshes"])
check("C05", "logging", [], "random histories of saves and reads (fields, steps, ranks, sizes 0..3000, values including signed zeros, subnormals and the extremes) through both formats, against a model; ParaView saves of registered fields",
      require_groups=["ascii", "binary", "paraview"], require_counters=["saves", "reads", "overwrites", "paraview-snapshots", "paraview-points"])
check("C09", "diagmass", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/diag_mass_integ.cpp"], "random line, triangle and tetrahedron meshes (straight and curved), every degree, 1..5 states, with and without local time-step scaling",
      require_counters=["mass-matrices", "curved-meshes", "local-time-step"])
check("C10", "projector", ["utils/div_free_projector.cpp", "utils/irrotational_projector.cpp", "physics/mfem_common_integ.cpp", "physics/miso_input.cpp", "utils/utils.cpp", "common/coefficient.cpp"], "random edge-element fields of degree 1..3 on triangle, quadrilateral, tetrahedron and hexahedron meshes, straight and warped, before and after moving the mesh; non-trivial when the projections were judged",
      require_counters=["fields", "mesh-moves", "interior-test-functions", "mesh-derivatives", "derivatives-asked-first"])
check("C11", "ode", ["common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random systems of 1..6 equations (generic, entropy-conservative, entropy-dissipative), identity or sparse mass, every integrator, 1..4 steps of varying size from random times; non-trivial when at least one step was judged",
      require_groups=["steps", "residual", "steady", "order", "options"], require_counters=["relaxed-steps", "conservative-steps", "dissipative-steps", "implicit-hypre-mass", "rates", "steps-RRK6"])
check("C12", "newton", ["common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random systems (affine, cubic, arctangent, exponential, without a root; symmetric and not) from near and far guesses with exact and inexact linear solves, random tolerances and limits; every evaluation and linearisation recorded; random sparse matrices for every linear solver",
      require_groups=["relaxed", "inexact", "linear", "options"], require_counters=["backtracks", "converged", "not-converged", "failed-searches", "affine", "monotone", "rootless", "abstol", "interpolated-shrinks"])
check("C13", "operators", ["common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random operators (square and rectangular), coefficients including zero and almost zero, random block structures with dense and distributed blocks, result vectors pre-filled with garbage and NaN",
      require_groups=["sum", "jacfree", "spacetime", "blockjac"], require_counters=["sums-with-a-vanishing-term", "small-scales-that-matter", "rectangular-sums", "products", "products-with-zero-scale", "hypre-blocks", "dense-blocks", "block-space-time", "preconditioned-jacobian-free"])
check("C14", "fluxes", [], "random pairs of states in 1-3 D (far apart, close together down to 1e-13, equal; subsonic to supersonic), random directions of any length; non-trivial when the fluxes were judged",
      require_groups=["logavg", "variables", "interior", "boundary"], require_counters=["states", "flux-pairs", "equal-states", "boundary-states", "supersonic", "supersonic-outflow", "entropy-fixed-waves", "at-the-switch"])
check("C15", "fluxes", [], "random states, gradients, viscosities, Prandtl numbers and wall normals in 1-3 D; manufactured and exact solutions at random points against high-order differences",
      require_groups=["viscous", "exact"], require_counters=["viscous-states", "manufactured-points"])
check("C16", "flowinteg", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random elements, boundary and interior faces of random meshes in 1-3 D, every SBP degree, random states (mild and strong variation), every flow integrator; non-trivial when the integrators were judged",
      require_groups=["volume", "boundary", "face"], require_counters=["elements-1d", "elements-2d", "elements-3d", "boundary-faces", "interior-faces", "jacobian-directions", "functional-gradients", "linear-fields"])
check("C17", "flowres", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp", "physics/diag_mass_integ.cpp", "physics/fluidflow/flow_residual.cpp", "physics/miso_nonlinearform.cpp", "common/functional_output.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp"], "random meshes in 1-3 D with random boundary attributes, random degree, basis, variables, flux, stabilisation and boundary conditions, random states, times and controls; the assembled residual, its Jacobian, entropy, mass, outputs and time step judged against explicit loops; non-trivial when the residual was judged",
      require_groups=["residual", "structure", "degree0", "outputs", "options"], require_counters=["curved-meshes", "residuals", "jacobian-directions", "entropy-rates", "free-streams", "closed-boxes", "entropy-conserved", "entropy-dissipated", "outputs", "refusals", "preconditioners", "discontinuous", "viscous", "entropy-variables", "inputs-that-matter"])
check("C18", "forms", ["physics/miso_nonlinearform.cpp", "common/miso_linearform.cpp", "common/functional_output.cpp", "physics/miso_integrator.cpp", "physics/miso_input.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "utils/utils.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp"], "random meshes with random element, boundary and internal-boundary attributes, continuous and discontinuous spaces, 1..4 random terms (domain, boundary, interior-face, internal-boundary; restricted to attributes or not) with scalar, field and option inputs, random essential boundaries and prescribed values, several rounds of new inputs; directly and through the type-erased wrappers; non-trivial when the form was judged",
      require_groups=["residual", "products", "adjoint", "load", "output", "dispatch", "inputs"], require_counters=["residuals", "re-evaluations", "marked-domain-terms", "marked-boundary-terms", "jump-terms", "internal-boundary-terms", "type-erased", "essential-dofs", "products", "relinearizations", "scalar-products-with-essential-dofs", "products-with-essential-values", "adjoints-with-essential-dofs", "loads-with-essential-dofs", "outputs", "outputs-of-a-named-state", "re-marked", "scalar-output-products", "dispatched-calls"])
FORMS = ["physics/miso_nonlinearform.cpp", "common/miso_linearform.cpp", "common/functional_output.cpp", "physics/miso_integrator.cpp", "physics/miso_input.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "utils/utils.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp"]
check("C19", "commonout", FORMS + ["physics/common_outputs.cpp", "physics/mfem_common_integ.cpp", "common/coefficient.cpp"], "random straight and curved triangle, quadrilateral, tetrahedron and hexahedron meshes with random attributes, fields of degree 1..3, densities and mixtures, aggregation parameters, attribute restrictions; every value against a pointwise integral, every derivative against extrapolated differences; non-trivial when the value was judged",
      require_groups=["volume", "mass", "average", "curl", "aggregate", "normalflux", "meshsens", "loads"], require_counters=["restricted-outputs", "type-erased", "mixtures", "curl-averages", "curl-aggregates", "aggregates-of-a-named-field", "boundary-fluxes", "bilinear-terms", "linear-terms", "load-forms", "derivatives"])
check("C20", "coeffs", FORMS + ["common/coefficient.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("reluctivity_coefficient", "conductivity_coefficient", "remnant_flux_coefficient", "demag_flux_coefficient", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient", "current_source_functions", "magnetic_source_functions")], "random attribute maps, materials, components and options; random points of random curved elements; every value against an independent formula and every derivative against extrapolated differences; non-trivial when the coefficient was judged",
      require_groups=["containers", "vectors", "products", "construct", "reluctivity", "temperature", "demag", "hysteresis", "eddy", "current", "magnet"], require_counters=["defaulted", "empty", "lognu", "bh", "zero-flux", "beyond-the-curve", "restored-with-stator", "stator-inputs", "single-attribute", "demag-single-attribute", "Hashin-Shtrikman", "source-cwStator", "source-team13", "source-ring", "refusals", "constraints", "polynomial-losses"])
check("C21", "emforms", FORMS + ["common/coefficient.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient")], "random straight and curved meshes of every shape with random attributes, scalar potentials and edge elements of degree 1..3, materials that vary by attribute, field strength and position, random scale factors, penalties, markers and displacements; values against pointwise integrals, every derivative against extrapolated differences; non-trivial when the term was judged",
      require_groups=["volume", "boundary", "interior", "source", "energy", "norms", "force"], require_counters=["edge-forms", "potential-forms", "restricted-terms", "interior-faces", "internal-boundaries", "magnetization-loads", "zero-fields", "forces", "torques", "air-restricted-torques", "derivatives"])
check("C22", "losses", FORMS + ["common/coefficient.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient")], "random straight and curved meshes with random attributes, temperature and peak-flux fields of degree 1..3, conductivities and core-loss coefficients that vary by attribute and state (own ones and ones read from a material library), random winding data, attribute selections; values against pointwise integrals of the loss densities, derivatives with respect to every field and winding datum against extrapolated differences; non-trivial when the loss was judged",
      require_counters=["dc-losses", "dc-heat", "ac-losses", "ac-heat", "core-losses", "core-heat", "core-losses-from-the-library", "steinmetz-losses", "heat-sources", "constraints", "restricted-terms", "scalar-derivatives", "load-derivatives"])
check("C23", "thermal", FORMS + ["common/coefficient.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp", "physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient")], "random straight and curved meshes (order 1..3) of every shape with random attributes and internal boundaries, continuous and discontinuous temperatures of degree 1..3, random conductivities per component, random boundary and interface conditions given in every accepted form, loads, essential values, and scalar inputs; residuals against pointwise integrals of the weak form the options describe, every derivative against extrapolated differences; non-trivial when the residual was judged",
      require_groups=["interface", "wall", "projection", "residual"], require_counters=["contact-interfaces", "fluid-interfaces", "convection-walls", "outflux-walls", "projections", "restricted-terms", "cg-residuals", "dg-residuals", "with-convection", "with-outflux", "with-essential-values", "with-weak-values", "with-interfaces", "with-load", "scalar-sensitivities", "vector-sensitivities", "preconditioners"])
check("C24", "magnet", FORMS + ["common/coefficient.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp", "utils/irrotational_projector.cpp", "utils/div_free_projector.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient", "remnant_flux_coefficient", "current_source_functions", "magnetic_source_functions", "current_load", "magnetic_load", "magnetostatic_residual")], "random straight and curved meshes of every shape with random attributes, out-of-plane potentials (continuous and discontinuous, degree 1..3) and edge elements (degree 1..2), materials that saturate, random current groups and source shapes, magnets of every direction with temperature dependent remanence, boundary options, preconditioner choices; values against pointwise integrals and a dense projection of the current, every derivative against extrapolated differences; non-trivial when the residual or load was judged",
      require_groups=["plane", "coils", "space"], require_counters=["temperature-changes", "cg-residuals", "dg-residuals", "edge-residuals", "with-currents", "with-magnets", "currents-with-magnets", "with-essential-values", "with-weak-values", "current-loads", "solenoidal-loads", "combined-loads", "moves", "load-mesh-sensitivities", "current-products", "scalar-sensitivities", "vector-sensitivities", "preconditioners", "refusals"])
check("C25", "warp", FORMS + ["common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "common/ode.cpp", "common/evolver.cpp", "common/coefficient.cpp", "physics/pde_solver.cpp", "utils/mesh_warper/mesh_move_integ.cpp", "utils/mesh_warper/mesh_warper.cpp"], "random straight and curved triangle, quadrilateral, tetrahedron and hexahedron meshes, with and without nodes of their own, boundary attributes in any number; surfaces left alone, moved by affine maps or scattered, several in a row on one warper, arbitrary interior guesses; residual, solution, products, adjoint and total derivative against a dense elasticity matrix assembled on the initial mesh; non-trivial when a surface was extended",
      require_groups=["plane", "space"], require_counters=["affine-motions", "random-motions", "identities", "arbitrary-guesses", "residuals", "solves", "products", "adjoints", "resolved-derivatives", "gmres"])
check("C26", "driver", ["common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random nonlinear systems of 1..5 equations behind the solver driver: time marches with four integrators from random times to random final times (whole and broken numbers of steps, a step longer than the interval, step limits, step sizes and exits of the derived solver), steady solves and adjoints, with no, one or two loggers of any setting; random histories of output calls; random option trees; every hook, evaluation and snapshot recorded; non-trivial when the trace was judged",
      require_groups=["march", "steady", "outputs", "states", "options"], require_counters=["steps", "truncated-steps", "exact-ends", "step-limit-reached", "snapshots", "steady-solves", "adjoints", "products", "unsteady-refusals", "duplicates", "unknown-outputs", "output-calls", "option-sets", "later-options", "inputs-forwarded"])
check("C27", "thermsolve", FORMS + ["common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "common/ode.cpp", "common/evolver.cpp", "common/coefficient.cpp", "physics/pde_solver.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp", "physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp", "physics/thermal/thermal.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient")], "slabs of one to four layers with random conductivities, contact resistances and fluid gaps, and every kind of end condition (given as options or as inputs), against series thermal resistances; random straight and curved meshes of every shape with random boundary conditions, loads and inputs: residuals, guess independence, essential values, outputs, total derivatives by the adjoint against differences of solves, moved meshes against solvers built there; non-trivial when a solve was judged",
      require_groups=["slab", "general"], require_counters=["contact-resistances", "fluid-gaps", "convective-ends", "essential-ends", "flux-ends", "weak-ends", "essential-solves", "values-as-inputs", "values-set", "slabs-with-interfaces", "solves", "loads", "adjoints", "totals-dirichlet_bc", "totals-mesh_coords", "totals-scalar", "totals-thermal_load", "moves", "inverted-meshes", "refusals", "named-fields", "output-average_state", "output-max_state", "output-thermal_flux"])
check("C28", "magsolve", FORMS + ["common/abstract_solver.cpp", "common/default_options.cpp", "common/material_library.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "common/linesearch.cpp", "common/ode.cpp", "common/evolver.cpp", "common/coefficient.cpp", "physics/pde_solver.cpp", "physics/common_outputs.cpp", "physics/mfem_common_integ.cpp", "utils/irrotational_projector.cpp", "utils/div_free_projector.cpp", "utils/l2_transfer_operator.cpp"] + ["physics/electromagnetics/" + f + ".cpp" for f in ("electromag_integ", "electromag_outputs", "pm_demag_constraint_coeff", "cal2_kh_coefficient", "cal2_ke_coefficient", "remnant_flux_coefficient", "demag_flux_coefficient", "current_source_functions", "magnetic_source_functions", "current_load", "magnetic_load", "magnetostatic_residual", "conductivity_coefficient", "reluctivity_coefficient", "magnetostatic")], "layered slabs of one to six materials with currents and magnets, prescribed (strong or weak) and natural ends, in physical and scaled units, against exact potentials, fluxes, energies and losses; random straight and curved plane meshes with saturating (B-H and log-reluctivity splines) materials, currents, magnets and temperatures: residuals, guess independence, essential values, forces and torques side by side, total derivatives by the adjoint against differences of solves, moved meshes against solvers built there; non-trivial when a solve was judged",
      require_groups=["slab", "general"], require_counters=["adjoints", "bh-materials", "lognu-materials", "current-layers", "magnet-layers", "essential-ends", "natural-ends", "essential-solves", "external-temperatures", "flux-projections", "one-way-fluxes", "inverted-meshes", "magnets", "moves", "refusals", "restricted-outputs", "saturating-solves", "several-forces", "several-torques", "slabs-with-currents", "slabs-with-magnets", "winding-losses", "temperatures-given", "solves", "errors", "totals-dirichlet_bc", "totals-mesh_coords", "totals-scalar", "totals-temperature", "output-energy", "output-flux_magnitude", "output-force", "output-torque", "output-max_state"])
check("C29", "transfer", FORMS + ["utils/l2_transfer_operator.cpp"], "random fields of every supporting space (continuous, broken, edge and face elements, degrees 1 and 2) on random straight and curved meshes of every shape transferred to broken spaces of degree 0 to 3, judged at every output node; other states, moves there and back, transposed products against differences of transfers; states without flux; non-trivial when nodes were compared",
      require_groups=["plane", "space"], require_counters=["nodes-compared", "moves", "transposed-state", "transposed-mesh_coords", "without-flux", "derived-interface", "kind-0-h1-plane", "kind-0-h1-space", "kind-0-l2-plane", "kind-0-l2-space", "kind-1-nd-plane", "kind-1-nd-space", "kind-1-rt-plane", "kind-1-rt-space", "kind-2-h1-plane", "kind-2-l2-plane", "kind-2-nd-space", "kind-3-h1-plane", "kind-3-l2-plane", "kind-3-nd-space"])
check("C30", "fields", FORMS, "fields and duals of every basis name (and Galerkin-difference flag), degree and number of states on random straight and curved meshes of every shape: the space that was asked for, true vectors there and back, pairings, copies of spaces, moves, projections of polynomials, and norms and errors of exponents 1 to 6 and infinity, of vectors and of components, against direct quadrature; non-trivial when oracles were decided",
      require_groups=["fields", "norms"], require_counters=["basis-" + b for b in ("H1", "h1", "CG", "cg", "L2", "l2", "DG", "dg", "ND", "nd", "nedelec", "RT", "rt", "CSBP", "csbp", "DSBP", "dsbp")] + ["component-errors", "component-maxima", "moves", "scalar-errors", "vector-errors", "scalar-projections", "vector-projections"])
check("C31", "ranks", None, "the same random problems (thermal, magnetostatic, flow, mesh extension, fields, Jacobian-free products, logging) on 2, 3 and 4 ranks and on one, on random straight and curved meshes of every shape, compared through functionals that do not depend on the partition; non-trivial when the two were compared",
      mpi=[2, 3, 2, 4], shards=4, timeout=200, require_groups=["thermal", "magnetic", "fields", "warp", "flow", "jacfree", "logging"],
      require_counters=["partitions", "ranks-2", "ranks-3", "ranks-4", "solves", "adjoints", "outputs", "products", "residuals", "warps", "jacobian-free", "logged-solves", "binary", "ascii", "continuous-flows", "discontinuous-flows", "viscous-flows", "saturating", "magnets", "essential", "output-force", "output-torque"])
check("C32", "flowsolve", None, "the flow solver marching random states near the free stream (1-D, 2-D, 3-D; continuous and discontinuous; walls, far fields, pumps, periodic; every scheme, fixed and CFL steps, exact and inexact final times, limits; Newton methods and linear solvers) and continuing to steady states in both variable sets; every logged state judged against a residual and mass matrix of the check's own; non-trivial when steps were judged",
      require_groups=["march", "steady", "refuse"], require_counters=["RK1", "RK4", "MIDPOINT", "RRK", "RRK6", "steps", "constant-cfl", "constant-step", "exact-ends", "limited", "conserving", "entropy-conserving", "entropy-dissipating", "relaxed", "high-order-steps", "uniform-flows", "periodic", "repeated", "log-lines", "errors", "outputs", "asked-before", "bc-far-field", "bc-slip-wall", "continuation-steps", "entropy-variable-steps", "converged-relative", "converged-absolute", "second-continuations", "refusals"])
check("C33", "flowctl", None, "the coupled flow and controller on random 2-D flows with an actuator on part of the boundary (given or default position, open and closed loop, the physical law and the test oscillator, conservative and entropy variables, viscous and inviscid), and marches of its solver with every scheme; judged against a controller written from its transfer function, a flow residual and boundary functionals of the check's own; non-trivial when residuals were compared",
      require_groups=["law", "coupled", "march", "refuse"], require_counters=["laws", "actuators-moved", "changes-asked-first", "kept-open", "transfer-functions", "residuals", "felt-by-the-controller", "felt-by-the-flow", "actuator-default", "actuator-given", "new-parameters", "products", "blocks", "entropy-rates", "closed-boxes", "entropy-brought-in", "supply-rates", "outputs", "refusals", "RK1", "RK4", "MIDPOINT", "RRK", "steps", "history-lines", "exact-ends", "repeated", "entropy-balances", "closed-marches", "logged", "states-set", "sensor-elsewhere"])
check("C34", "flowsens", ["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], "random states and adjoints of every SBP degree (continuous and broken, conservative and entropy variables) on random straight and curved line, triangle and tetrahedron meshes with nodes in either ordering; the assembled mesh sensitivities of the Ismail-Roe volume terms and of slip walls on some or all boundaries against differences of the residual for random, single-node and whole-mesh motions, again after new states and moves; non-trivial when a derivative was compared",
      require_groups=["sens"], require_counters=["derivatives", "volumes-1d", "volumes-2d", "volumes-3d", "volumes-2d-entropy", "volumes-3d-entropy", "walls-2d", "walls-3d", "walls-2d-entropy", "walls-3d-entropy", "some-boundaries", "curved", "broken", "new-states", "moves", "refusals"])
check("C35", "surf", [], "random straight and curved pieces, open and closed curves of 1..30 pieces in any order, orientation and scale, and chosen boundaries of random plane meshes; 40 query points each, on, near and far from the curve; non-trivial when the distances were judged",
      require_groups=["element", "whole", "volume", "refusals"], require_counters=["ends", "inside", "straight-elements", "curved-elements", "distances", "whole-surfaces", "off-the-surface", "on-the-surface", "open-curves", "closed-curves", "some-boundaries", "all-boundaries", "curved-volumes", "straight-volumes", "refusals"])
check("C36", "magsolve3", CHECKS["C28"]["repo"], "layered slabs and random straight and curved tetrahedron and hexahedron meshes with random attributes, edge elements of degree 1..2, constant and saturating materials, groups of currents, magnets, prescribed and natural walls, temperatures, guesses and node positions; non-trivial when the solve was judged",
      require_groups=["slab", "general"], require_counters=["slabs", "slabs-of-hexahedra", "slabs-of-tetrahedra", "slabs-with-currents", "slabs-with-magnets", "natural-ends", "essential-ends", "flux-projections", "winding-losses", "restricted-outputs", "values-as-inputs", "values-set", "currents", "magnets", "saturating-solves", "bh-materials", "lognu-materials", "partly-natural", "closed", "adjoints", "totals-mesh_coords", "totals-dirichlet_bc", "totals-scalar", "moves", "moves-back", "vector-errors", "refusals", "output-flux_density", "output-force", "output-torque", "side-by-side"])

PYFLAGS = "-I{VERIF}/shim/py -I{REPO}/miso/pyMISO -I/usr/include/python3.12 -DREPO_DIR={REPO}"
check("C37", "pyomdao", CHECKS["C28"]["repo"] + [f for f in CHECKS["C27"]["repo"] + CHECKS["C25"]["repo"] if f not in CHECKS["C28"]["repo"]], "the package miso run by an interpreter of the harness's own against a stand-in for OpenMDAO whose vectors detect writes outside their entries: state components of thermal and magnetostatic problems on random straight and curved meshes with random materials, sources, conditions and declared inputs; functionals of every kind; mesh warpers; whole models assembled by the MPhys builder with and without a warper; bindings called with arbitrary nested options, arrays of every layout and type, numbers and functions; non-trivial when at least one oracle decided",
      require_groups=["state", "functional", "warper", "builder", "bindings"], require_counters=["thermal", "magnetostatic", "solves", "adjoints", "vanishing-right-hand-sides", "forward-products", "forward-refusals", "reverse-products", "wrt-state", "wrt-mesh_coords", "wrt-dirichlet_bc", "wrt-current_density", "wrt-thermal_load", "wrt-temperature", "wrt-h", "wrt-fluid_temp", "scalar-outputs", "vector-outputs", "reverse-wrt-state", "reverse-wrt-mesh_coords", "products", "totals", "models", "with-warper", "without-warper", "total-wrt-x_em", "total-wrt-x_conduct", "total-wrt-dirichlet_bc", "option-trees", "states-set", "numbers", "refusals"],
      extra=["miso/pyMISO/" + f + ".cpp" for f in ("exceptions", "pyMISO", "meshWarper", "pdeSolver", "misoSolver")], flags=PYFLAGS, libs="-lpython3.12")
