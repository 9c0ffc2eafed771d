T0 = "runtime monitoring: "
SAN = " under AddressSanitizer+UBSan"
TRUST = " Trusts MFEM 4.5.2, gcc's sanitizers, and the harness's oracle; no guarantee beyond the executions explored."

prop("C01", "Nearest-neighbour search returns a truly nearest point",
 "For any non-empty set of points in one, two or three dimensions, however it is inserted or distributed (duplicates, collinear or lattice points, any order), a nearest-point query returns the stored payload of a point whose distance to the target is the smallest of all stored points. The tree can be built from separate points and payloads or from node lists, and answers the same either way. Repeated queries do not change later answers, and asking an empty tree is refused.",
 ["inputs", "histories"], "all point sets, build routes, query points and query sequences",
 "The tests query one small hand-made cloud; correctness depends on the pruning decision for every target/point configuration, in particular ties, duplicates and far-away targets.",
 ["src/utils/kdtree.hpp", "src/common/surface_def.hpp"],
 [("median partition and branch pruning", "src/utils/kdtree.hpp")],
 T0 + "brute-force reference oracle on random and degenerate clouds" + SAN,
 "Every query compared with exhaustive search over the same points." + TRUST)

prop("C02", "Line search returns a step that satisfies the sufficient-decrease rule",
 "A backtracking line search only accepts a step it evaluated, whose merit value is finite and satisfies the Armijo sufficient-decrease condition relative to the value and slope at zero; every new trial is the minimiser of the quadratic (first) or cubic (later) interpolant of the values already observed, safeguarded to lie between the configured fractions of the previous step. If no step is acceptable within the iteration limit, or the direction is not a descent direction, it reports failure rather than a step. Non-finite merit values never lead to a non-finite or accepted step.",
 ["inputs", "configurations"], "all merit functions, slopes and search settings",
 "The tests run a single smooth function with default settings, which succeeds after one or two trials; degenerate interpolants, non-finite values and failures are never reached.",
 ["src/common/linesearch.cpp", "src/common/linesearch.hpp"],
 [("backtracking loop", "src/common/linesearch.cpp"), ("quadratic and cubic interpolation", "src/common/linesearch.cpp")],
 T0 + "recorded evaluation trace judged by an offline trace checker" + SAN,
 "Every trial and its merit value are recorded; each trial is recomputed independently in extended precision." + TRUST)

prop("C03", "Scalar root finders and parabola helpers return what they promise",
 "A bracketing or secant search on a scalar function returns a point meeting the requested function or step tolerance, inside the bracket for the bracketing search, and otherwise reports failure: no sign change, or iteration limit reached. A root at an end of the bracket is found. Quadratic interpolation returns the stationary point of the unique parabola through the given data.",
 ["inputs", "configurations"], "all continuous functions, brackets, tolerances and iteration limits",
 "The tests find one root of one function; ends of brackets, missing sign changes and exhausted limits are not tried.",
 ["src/utils/utils.cpp", "src/utils/utils.hpp"],
 [("bisection", "src/utils/utils.cpp"), ("secant", "src/utils/utils.cpp"), ("quadInterp", "src/utils/utils.cpp")],
 T0 + "recorded function evaluations judged against the returned root" + SAN,
 "Known finding: the secant limit test cannot fire (see known_findings.txt)." + TRUST)

prop("C04", "Attribute selections mark exactly the chosen boundaries or regions",
 "Turning a user's selection of attributes (a list of numbers, or the keywords for all or none) into a marker array marks exactly the selected attributes and no other, for any attribute order, repetition or count, and refuses attributes the mesh does not have and unknown keywords without writing outside the array. Elementwise vector helpers compute exactly the stated elementwise operation, also when input and output are the same vector.",
 ["inputs", "configurations"], "all attribute lists, keywords, malformed selections and vectors",
 "The tests use one or two valid selections; invalid and boundary attributes, repeats and aliasing are not exercised.",
 ["src/utils/utils.cpp", "src/utils/utils.hpp"],
 [("attribute list to marker conversion", "src/utils/utils.cpp"), ("elementwise helpers", "src/utils/utils.hpp")],
 T0 + "set-membership oracle on random selections" + SAN, "Out-of-range writes are watched by AddressSanitizer." + TRUST)

prop("C06", "Lobatto rules and simplex polynomial bases are exact and orthonormal",
 "The Lobatto rule with n nodes has its nodes in increasing order inside [-1,1] including both ends, symmetric, with positive weights, and integrates every polynomial of degree 2n-3 exactly. Jacobi polynomials equal their defining sum for all admissible parameters, orthonormalised, and the polynomial bases on segments, triangles and tetrahedra of every degree are orthonormal and span the complete polynomial space.",
 ["inputs", "configurations"], "all node counts, degrees, Jacobi parameters and evaluation points",
 "The tests do not evaluate the bases on their own; only the operators built from them at a few degrees are compared with tables.",
 ["src/common/orthopoly.cpp", "src/common/orthopoly.hpp"],
 [("Newton iteration for Lobatto nodes", "src/common/orthopoly.cpp"), ("three-term Jacobi recurrence", "src/common/orthopoly.cpp"), ("collapsed-coordinate bases", "src/common/orthopoly.cpp")],
 T0 + "explicit-sum and exact-quadrature oracles in extended precision" + SAN, "Node counts up to 60 (120 thorough), degrees up to 12/10/6." + TRUST)

prop("C07", "Summation-by-parts operators: accuracy, compatibility and quadrature",
 "For every supported dimension and degree, the diagonal norm is positive and a quadrature of degree 2p-1, the derivative operator differentiates polynomials of degree p exactly, and Q + Q^T is a diagonal boundary operator that integrates normal fluxes exactly. All the ways of applying an operator (weak, strong, transposed, row by row, by entry, in physical space with any mapping metrics, and its reverse-mode derivative) agree with the same matrix; the filter annihilates degree-p polynomials, is idempotent and self-adjoint in the norm. Shape functions interpolate at nodes and reproduce degree-p polynomials elsewhere, and their derivatives are the derivative operator.",
 ["inputs", "configurations"], "all operators (dimension, degree), states, metrics and evaluation points",
 "The tests check accuracy for a few products; compatibility, metric entries, negation/transposition paths and off-node evaluation hold for all data only if each path uses the same matrix.",
 ["src/common/sbp_fe.cpp", "src/common/sbp_fe.hpp", "src/common/data/sbp_operators.hpp"],
 [("operator construction", "src/common/sbp_fe.cpp"), ("operator tables", "src/common/data/sbp_operators.hpp")],
 T0 + "exact polynomial oracles and cross-path consistency monitors" + SAN, "All 12 operators enumerated; data random. Two known findings on the degree-0 triangle." + TRUST)

prop("C08", "SBP spaces are conforming and measure the mesh exactly on any mesh",
 "On any line, triangle or tetrahedral mesh, whatever the vertex numbering and element orientation, a continuous summation-by-parts space has exactly one degree of freedom per node in space, shared by every element (and boundary element) touching it; a discontinuous space gives every element its own. The assembled norm sums to the mesh volume, and polynomials of the space's degree are reproduced by interpolation and differentiated exactly in physical space.",
 ["inputs", "configurations"], "all meshes, orientations, degrees and dimensions",
 "The tests use one structured mesh with one fixed orientation pattern; the edge/face orderings only matter for the orientations that do not occur there.",
 ["src/common/sbp_fe.cpp"],
 [("edge and face dof orderings", "src/common/sbp_fe.cpp"), ("dof counts per geometry", "src/common/sbp_fe.cpp")],
 T0 + "geometric identity monitor over randomly renumbered meshes" + SAN, "Known findings: boundary-edge node order at degree 3 and 4." + TRUST)

prop("C05", "Saved states are read back exactly and never disturb one another",
 "Whatever finite values a state holds, saving it under a field name, step and rank and reading it back returns bit-for-bit the same size, values and time, in text and in binary form, however the receiving vector was sized. Saving or overwriting one (field, step, rank) snapshot never changes what another reads back. A visualisation snapshot updates exactly the field it is registered for and exists for the step it was saved at.",
 ["histories", "inputs"], "all finite states (incl. signed zeros, subnormals, extremes), names, steps, ranks and save/read orders",
 "The tests save and read ten values in (0,1) once per format; precision, extremes, overwrites, sizes and collisions between snapshots depend on histories they do not create.",
 ["src/common/data_logging.hpp"],
 [("text logger", "src/common/data_logging.hpp"), ("binary logger", "src/common/data_logging.hpp"), ("ParaView logger", "src/common/data_logging.hpp")],
 T0 + "model-based history checker over save/read logs" + SAN, "Bit comparison against a model of every snapshot ever saved." + TRUST)

prop("C09", "The diagonal mass matrix is the SBP norm of the mesh",
 "For every summation-by-parts element, number of states and (straight or curved) element, the element mass matrix is diagonal with positive entries, the same for every state, equal to the element's norm weight times the local Jacobian determinant; with local time-step scaling each entry is further divided by the determinant to the power one over the dimension. Assembled over a straight mesh without scaling it sums, for each state, to the mesh volume.",
 ["inputs", "configurations"], "all meshes, degrees, dimensions, state counts and scaling choices",
 "No test exercises the integrator on its own; the layout by state and the curved-element Jacobian matter only for several states and non-affine elements.",
 ["src/physics/diag_mass_integ.cpp", "src/physics/diag_mass_integ.hpp"],
 [("element mass matrix", "src/physics/diag_mass_integ.cpp")],
 T0 + "independent recomputation from norm and Jacobian on random meshes" + SAN, "Also watches the assembled matrix." + TRUST)

prop("C10", "Irrotational and divergence-free projections are complementary projections",
 "For any edge-element field the irrotational part is curl-free and equals the gradient of a potential vanishing on the boundary, the divergence-free part is orthogonal to the gradient of every such potential, the two sum to the field, and projecting again changes nothing; this also holds after the mesh has moved. Reverse-mode products with respect to the field are the exact transpose, those with respect to the mesh coordinates match differences of the projection, and both accumulate into the given vector.",
 ["inputs", "histories", "configurations"], "all fields, degrees, 2D/3D element types, straight and curved meshes, and mesh updates",
 "The tests compare derivatives only, on one straight tetrahedral mesh, and never check that the output is curl-free or divergence-free.",
 ["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", "src/physics/mfem_common_integ.cpp"],
 [("potential solve and gradient", "src/utils/irrotational_projector.cpp"), ("complement", "src/utils/div_free_projector.cpp"), ("mesh-sensitivity integrators", "src/physics/mfem_common_integ.cpp")],
 T0 + "discrete de Rham oracles (curl, weak divergence, idempotence, adjoint identity)" + SAN, "Mesh derivative compared with a fourth-order difference." + TRUST)

prop("C11", "Time marching follows the named method and keeps the entropy balance",
 "Every selectable time integrator advances the (possibly mass-weighted) system of ordinary differential equations exactly as the named Runge-Kutta method prescribes, at the stage times it prescribes, for any sequence of step sizes, and reaches its design order. The relaxed methods scale the step so that the entropy changes by exactly the entropy production of the stages, hence conserve it for conservative systems and never increase it for dissipative ones, and advance time by the scaled step. The implicit residual is M k + R(x + dt k, t) and its Jacobian M + dt R'. The steady pseudo-time controller and the selection of integrators by name do what they say; unknown names are refused.",
 ["inputs", "configurations", "histories"], "all systems, entropies, mass matrices, integrators, times and step-size sequences",
 "The tests run a few fixed systems with one or two integrators for a fixed step and look at the final error only.",
 ["src/common/ode.cpp", "src/common/ode.hpp", "src/common/mfem_extensions.cpp", "src/common/relaxed_newton.cpp"],
 [("implicit solve and residual", "src/common/ode.cpp"), ("relaxed Runge-Kutta steps", "src/common/mfem_extensions.cpp")],
 T0 + "independent reference integrators plus an entropy-balance monitor on recorded stage evaluations" + SAN, "Order groups measure convergence rates." + TRUST)

prop("C12", "Newton solvers converge honestly, and linear solvers obey their options",
 "A Newton solver reports convergence exactly when the residual it last evaluated meets the absolute or relative tolerance within the iteration limit, and returns the iterate that residual belongs to. Each step solves the linear system with the Jacobian at the current iterate (to the forcing tolerance for inexact Newton), is shortened only as the globalisation prescribes (merit decrease with the exact slope -r^T J c), and is exact in one step for affine problems. Linear solvers and preconditioners built from options are the requested kind, honour relative and absolute tolerances and limits, and solve the system; unknown kinds are refused.",
 ["inputs", "configurations", "histories"], "all systems, guesses, tolerances, limits, forcing settings and linear-solver options",
 "The tests only look at final solutions of well-behaved problems started close to the root.",
 ["src/common/mfem_extensions.cpp", "src/common/relaxed_newton.cpp", "src/common/inexact_newton.cpp"],
 [("inexact Newton loop", "src/common/inexact_newton.cpp"), ("relaxed Newton loop", "src/common/relaxed_newton.cpp"), ("solver factories", "src/common/mfem_extensions.cpp")],
 T0 + "trace checker over every recorded residual evaluation, Jacobian and linear solve" + SAN, "Trace recomputed independently." + TRUST)

prop("C13", "Composed matrix operators act as the sums and products they stand for",
 "The composite operators (weighted sums, Jacobian-free products, space-time operators, block Jacobians and their combination with a time step) produce, for every input, coefficient (including zero) and block layout, square or rectangular, the same result as the explicit matrices they represent, applied forward or transposed, overwrite the result vector whatever it contained before, and leave their operands unchanged.",
 ["inputs", "configurations", "histories"], "all operands, coefficients, block structures, matrix kinds and previous contents of result vectors",
 "The tests apply one or two operators with non-zero coefficients to fresh vectors.",
 ["src/common/matrix_operators.cpp", "src/common/matrix_operators.hpp", "src/common/mfem_extensions.cpp"],
 [("SumOfOperators", "src/common/matrix_operators.cpp"), ("JacobianFree", "src/common/matrix_operators.cpp"), ("block Jacobian", "src/common/mfem_extensions.cpp")],
 T0 + "dense-matrix reference oracle with poisoned result vectors" + SAN, "Finite-difference tolerance for the Jacobian-free product." + TRUST)

prop("C14", "Inviscid fluxes conserve, and conserve or dissipate entropy as promised",
 "For any pair of physical states, in any dimension and direction, the inviscid flux functions are consistent with the Euler flux and conservative; the entropy-conservative two-point fluxes satisfy the discrete entropy condition exactly, along coordinates or any direction, from conservative or entropy variables alike, and the dissipation added to them never creates entropy. The upwind and boundary fluxes equal the characteristic decomposition they stand for (with the documented entropy fix), slip walls pass no mass, energy or entropy, control boundaries and prescribed-entropy boundaries carry exactly the stated entropy flux. Conversion between conservative and entropy variables is exact both ways and its Jacobian is symmetric positive definite.",
 ["inputs"], "all states (near-equal to far apart, subsonic to supersonic), directions, dimensions and variable choices",
 "The tests evaluate the fluxes at one or two hard-wired states; the identities must hold for every pair, and branches (logarithmic mean of close states, supersonic flow, entropy fix) depend on the states.",
 ["src/physics/fluidflow/euler_fluxes.hpp"],
 [("Ismail-Roe two-point fluxes", "src/physics/fluidflow/euler_fluxes.hpp"), ("characteristic boundary flux", "src/physics/fluidflow/euler_fluxes.hpp"), ("entropy variables", "src/physics/fluidflow/euler_fluxes.hpp")],
 T0 + "identity oracles in extended precision (Tadmor condition, eigen-decomposition, thermodynamics)" + SAN, "Jacobians of templates go through the Adept stand-in." + TRUST)

prop("C15", "Viscous fluxes, wall penalties and manufactured solutions are exact",
 "For any physical state and gradient the viscous flux in entropy variables equals Newtonian stress plus Fourier heat flux, its coefficient matrices are symmetric and never create entropy; adiabatic walls conduct no heat, no-slip and flow-control penalties act only on the velocity difference and dissipate, the dual wall term is the adjoint of the wall flux, and viscosity follows Sutherland's law. The manufactured solutions satisfy the equations with the manufactured source terms, and the vortex is a steady isentropic solution.",
 ["inputs"], "all states, gradients, wall normals, viscosities and points",
 "The tests compare a few products at one state; nothing checks that the source terms belong to the manufactured solutions.",
 ["src/physics/fluidflow/navier_stokes_fluxes.hpp", "src/physics/fluidflow/euler_fluxes.hpp"],
 [("viscous coefficient matrices", "src/physics/fluidflow/navier_stokes_fluxes.hpp"), ("wall fluxes", "src/physics/fluidflow/navier_stokes_fluxes.hpp"), ("manufactured sources", "src/physics/fluidflow/navier_stokes_fluxes.hpp")],
 T0 + "primitive-variable reference and high-order differences of exact solutions" + SAN, "Sources compared with sixth-order differences." + TRUST)

prop("C16", "Flow integrators assemble the stated weak forms with exact Jacobians",
 "On every element, boundary face and interior face (any shape, orientation, degree and dimension) and every physical state, each integrator of the flow solver (inviscid volume, entropy-conservative volume, projection stabilisation, interface, inviscid and viscous boundary, viscous volume, mass, sources) assembles exactly the summation-by-parts weak form of its flux, multiplied by its coefficient, into the nodes of that element; its Jacobian is the derivative of its residual, and functionals' gradients the derivatives of their values. Volume and interface terms conserve mass, momentum and energy; entropy-conservative terms change the entropy only by the boundary potential, while stabilisation, interface dissipation and viscous terms never create it, and stabilisation leaves polynomial entropy variables alone. Conservative and entropy-variable versions agree; repeated calls give the same answer and do not modify the state.",
 ["inputs", "configurations"], "all meshes, degrees, states, coefficients and boundary conditions",
 "The tests compare a few integrators against stored numbers or differences on one fixed mesh at mild states with coefficient one.",
 ["src/physics/fluidflow/inviscid_integ_def.hpp", "src/physics/fluidflow/viscous_integ_def.hpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/physics/fluidflow/navier_stokes_integ_def.hpp", "src/physics/fluidflow/mms_integ_def.hpp"],
 [("dyadic and LPS integrators", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("boundary and face assembly", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("viscous assembly", "src/physics/fluidflow/viscous_integ_def.hpp")],
 T0 + "independent assembly of the weak forms, extrapolated differences for Jacobians, conservation and entropy identities, differential comparison of the two variable sets" + SAN, "MFEM boundary-face support starts at 2-D; Jacobians of templates go through the Adept stand-in." + TRUST)
prop("C17", "The flow residual is the sum of the terms its options select",
 "For every mesh, degree, continuous or discontinuous basis, set of variables, and combination of flux, stabilisation, viscosity, sources and boundary conditions in the options, the flow residual equals the sum of exactly the selected terms, each on exactly the elements, faces or boundary attributes it is selected for, at the state, time and control it is given (never those of an earlier call), and leaves the state alone; its Jacobian is its derivative at the given inputs. It preserves a uniform free stream under far-field boundaries; in a box of slip walls it conserves mass and energy, and the entropy rate it produces is zero without dissipation and never of the wrong sign with it; the reported entropy and entropy change are the norm-weighted sums they stand for. The mass operator is the diagonal norm. Drag, lift, boundary entropy and supply rate equal their boundary integrals over the requested boundaries in the direction set by the free stream, and the partials and products of drag and lift agree with each other; the CFL step is the smallest ratio over all node pairs; errors are norm-weighted differences of conservative variables. Invalid or unsupported option combinations and unknown outputs or preconditioners are refused.",
 ["inputs", "configurations"], "all meshes, options, states, times and controls",
 "The tests run a few fixed configurations on one mesh; wiring, markers, stale inputs and structure preservation have to hold for every combination.",
 ["src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/flow_residual.hpp", "src/physics/miso_nonlinearform.cpp", "src/common/functional_output.cpp", "src/common/miso_output.hpp"],
 [("selection of integrators", "src/physics/fluidflow/flow_residual.cpp"), ("form evaluation and Jacobian", "src/physics/miso_nonlinearform.cpp"), ("functional outputs", "src/common/functional_output.cpp")],
 T0 + "an explicit assembly loop over the selected integrators (each judged by C16), invariants of the discretisation, extrapolated differences" + SAN, "Derivatives of the entropy and boundary-entropy outputs are declared unused by the code and not judged; Jacobians of templates go through the Adept stand-in." + TRUST)

prop("C18", "Forms and outputs sum exactly their terms, with exact derivatives",
 "For every mesh, space, set of integrators, attribute markers, essential boundary and inputs, a nonlinear form's residual is the sum of its terms over exactly the marked elements, boundary, interior and internal-boundary faces, with essential rows equal to state minus prescribed value; its Jacobian (essential rows and columns eliminated) and its products with state, field and scalar inputs are the derivative of that residual at the latest inputs, essential rows included, and the transposed products are their transposes, added to what the caller passes; the adjoint set-up, solve and finalisation solve the transposed system. Linear forms add the same kind of sums to the given vector, leaving essential rows out. Functional outputs return the sum of their marked terms for the state they are named after, and partials and products that are its derivatives; an option that names attributes restricts them. Type-erased residuals, loads, outputs and integrators forward each call to the object they wrap, or refuse an operation it lacks. Inputs that are absent or of another name have no effect, inputs of the wrong kind are refused, and copies share nothing.",
 ["inputs", "configurations", "histories"], "all meshes, spaces, sets of terms and markers, essential boundaries and sequences of inputs",
 "The tests use one or two integrators without markers or essential boundaries, evaluated once.",
 ["src/physics/miso_nonlinearform.cpp", "src/physics/miso_nonlinearform.hpp", "src/common/miso_linearform.cpp", "src/common/miso_linearform.hpp", "src/common/functional_output.cpp", "src/common/miso_residual.hpp", "src/common/miso_output.hpp", "src/physics/miso_load.hpp", "src/physics/miso_integrator.cpp", "src/physics/miso_input.cpp"],
 [("nonlinear form evaluation and products", "src/physics/miso_nonlinearform.cpp"), ("linear form loads", "src/common/miso_linearform.cpp"), ("functional outputs", "src/common/functional_output.cpp"), ("type-erased dispatch", "src/common/miso_residual.hpp")],
 T0 + "synthetic integrators with known terms summed by an independent loop over elements and faces; transpose and extrapolated-difference checks; call recorders behind the wrappers" + SAN, "Face energies and internal-boundary faces come from the stand-in for the project's MFEM branch." + TRUST)

prop("C19", "Common outputs are the integrals they name, differentiable in every input",
 "For every mesh (any element shape, straight or curved), field, restriction to attributes and parameter, the general-purpose outputs return the integral they name over exactly the requested elements: volume; mass with the density of each component's material, mixtures weighted by fill factor included; the average of a field and of the magnitude of its curl; soft maxima (weighted means with exponential weights) of the field they are named after or of a curl's magnitude; and the flux of a field through the requested boundaries. Their products with every input they depend on (field, node coordinates, fill factor) are the derivative of that value, forward and transposed products agree, transposed products add to what the caller passes, and evaluating or differentiating never changes a later answer. The derivatives with respect to node coordinates of the shared bilinear and linear terms (diffusion, weak divergence, edge-element mass, scalar, vector and curl loads, each with its scale factor) are the derivatives of those terms.",
 ["inputs", "configurations"], "all meshes, element shapes, orders, fields, attribute restrictions, materials and parameters",
 "The tests check a few outputs on one small straight triangle mesh; restriction, curved and tensor-product elements, named fields, scale factors and repeated use are never exercised.",
 ["src/physics/common_outputs.hpp", "src/physics/common_outputs.cpp", "src/physics/mfem_common_integ.cpp", "src/physics/mfem_common_integ.hpp", "src/common/coefficient.cpp"],
 [("outputs", "src/physics/common_outputs.hpp"), ("shared integrators and mesh derivatives", "src/physics/mfem_common_integ.cpp"), ("material coefficients", "src/common/coefficient.cpp")],
 T0 + "pointwise reference integrals and directional derivatives by extrapolated central differences with their own error estimate" + SAN, "Reference integrals use the quadrature order of the output. The mesh derivative of the boundary flux is not implemented upstream. Reverse derivatives of transformations come from the stand-in for the project's MFEM branch." + TRUST)

prop("C20", "Material and source coefficients return their models, with exact derivatives",
 "For every attribute, material, component list, point, state and history of inputs, a mesh-dependent coefficient returns the value of the coefficient registered for the element's attribute, else the default, else zero, and all its derivatives and reverse derivatives come from that same coefficient (zero where it does not depend on the argument); registering an attribute twice is refused. Coefficients built from options give each component, named by a single attribute or by a list, the model its material asks for, with parameters from the component first and the material library second, mixtures weighted as named and by the latest weight. Reluctivity (linear, log-spline, B-H spline), conductivity, knee and remnant flux, demagnetization constraint, hysteresis and eddy loss coefficients, magnetization and every current source pattern equal their formulas, finite at zero flux and beyond the end of the curve; first and second derivatives and reverse derivatives are the derivatives of the values. Caching, zeroing and restoring current densities and changing stator inputs take effect exactly and report whether anything changed.",
 ["inputs", "configurations", "histories"], "all attributes, materials, options, points, states and sequences of inputs",
 "The tests evaluate a few coefficients at single points of one element; dispatch, fallbacks, every derivative and stored state must hold for all.",
 ["src/common/coefficient.cpp", "src/common/coefficient.hpp", "src/physics/electromagnetics/reluctivity_coefficient.cpp", "src/physics/electromagnetics/conductivity_coefficient.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp", "src/physics/electromagnetics/demag_flux_coefficient.cpp", "src/physics/electromagnetics/pm_demag_constraint_coeff.cpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/cal2_ke_coefficient.cpp", "src/physics/electromagnetics/current_source_functions.cpp", "src/physics/electromagnetics/magnetic_source_functions.cpp"],
 [("attribute dispatch", "src/common/coefficient.cpp"), ("reluctivity models", "src/physics/electromagnetics/reluctivity_coefficient.cpp"), ("loss polynomials", "src/physics/electromagnetics/cal2_kh_coefficient.cpp"), ("current sources", "src/physics/electromagnetics/current_source_functions.cpp")],
 T0 + "recorders behind the containers, independent formulas (own Cox-de Boor splines, geometric descriptions of the sources), extrapolated differences, a model of the stored inputs" + SAN, "Splines and reverse derivatives of templates go through stand-ins for tinyspline and Adept." + TRUST)
prop("C21", "EM weak forms, energies and forces are exact, with exact derivatives",
 "For every mesh (curved, 2-D or 3-D, mixed attributes), order, state, adjoint, reluctivity, scale and attribute restriction, the curl-curl and diffusion forms, their discontinuous boundary, interior and internal-boundary terms and the 2-D magnetization source equal the integrals that define them, over the named attributes only and with the requested scale; their Jacobians, and their forward and transposed products with every input they declare (state, mesh coordinates, temperature), are the derivatives of the value and finite where the flux vanishes. Magnetic energy is the integral of the energy density; flux norms equal their integrals. A force or torque is minus the derivative of the magnetic energy outside the body when the body moves rigidly along, or turns about, the given axis; changing the axis takes effect; its state and mesh derivatives are exact, and it is finite on elements without flux.",
 ["inputs", "configurations"], "all meshes, orders, states, reluctivities, axes, bodies and attribute restrictions",
 "The tests differentiate unmarked, unscaled forms on one straight mesh at states with flux everywhere; restrictions, scales, boundary orientation, zero flux and the values themselves must hold for all.",
 ["src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_integ.hpp", "src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp"],
 [("CurlCurlNLFIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("NonlinearDGDiffusionIntegrator, DGInteriorFaceDiffusionIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("MagnetizationSource2DIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("MagneticEnergyIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("ForceIntegrator3", "src/physics/electromagnetics/electromag_integ.cpp"), ("ForceFunctional, TorqueFunctional", "src/physics/electromagnetics/electromag_outputs.cpp")],
 T0 + "weak forms evaluated independently from the fields' values and gradients; extrapolated differences along every input; virtual work by moving the body's nodes and differencing the energy" + SAN, "Internal-boundary and marked terms go through the stand-ins for MFEM's missing features." + TRUST)
prop("C22", "EM losses, heat sources and demagnetization constraint are exact",
 "For every mesh, order, materials, restriction to attributes, flux and temperature field and parameter (frequency, current, strand radius, length, turns, strands, fill factors, slots, peak flux), the DC, AC, hybrid AC, core (Steinmetz and CAL2) loss functionals and the demagnetization constraint return the value of their formula integrated over exactly the named attributes, with the material properties at the local temperature; the DC, AC, core and total heat-source distributions are the loads whose sum against the constant one is the loss of the same model, and the winding volume they divide by follows the mesh. Each declared derivative (node coordinates, flux, temperature, frequency, peak flux, current, radius, length, turns, strands, fill factors) is the derivative of that value, forward and transposed products agree where both exist, products add to what the caller passes, and evaluating never changes the inputs or a later answer.",
 ["inputs", "configurations", "histories"], "all meshes, materials, restrictions, fields and parameters",
 "The tests differentiate a few integrators on one mesh with one material; formulas, restriction, temperature dependence, parameters and accumulated distributions must hold for all.",
 ["src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_integ.hpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/cal2_ke_coefficient.cpp"],
 [("loss functionals", "src/physics/electromagnetics/electromag_outputs.cpp"), ("loss integrators", "src/physics/electromagnetics/electromag_integ.cpp"), ("PMDemagIntegrator", "src/physics/electromagnetics/electromag_integ.cpp"), ("EMHeatSourceOutput", "src/physics/electromagnetics/electromag_outputs.cpp")],
 T0 + "own pointwise loss formulas integrated with an independent loop; extrapolated differences along every input" + SAN, "Loss distributions implement no forward products. Products of the loss functionals are judged after an evaluation at the same inputs, which is how the code caches them." + TRUST)
prop("C23", "Thermal residual and its interface and wall terms are exact",
 "For every mesh (straight or curved), degree, continuous or discontinuous basis, conductivity, boundary and interface options, temperature and load, the thermal residual equals the sum of conduction, interior penalty, convection and outflux walls, thermal contact resistance, internal convection interfaces and weakly imposed temperatures, each on exactly the boundaries or interfaces named, minus the thermal load, with essential rows equal to temperature minus prescribed value; equal and opposite heat crosses a contact interface. Named conductances and fluid temperatures reach exactly the interface or wall of that name. The Jacobian is the derivative of the residual, its transpose is that transpose, products with state, node coordinates, conductance, fluid temperature and load are its derivatives, forward and transposed products agree and add to what the caller passes, and neither the inputs nor a later answer change. The projection term and its mesh derivative follow the same rules.",
 ["inputs", "configurations", "histories"], "all meshes, degrees, option combinations, temperatures, loads and parameters",
 "The tests differentiate single terms on one straight mesh; wiring from options, names, orientation of faces, curved meshes, essential rows and ownership of inputs must hold for all.",
 ["src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_residual.hpp", "src/physics/thermal/thermal_integ.cpp", "src/physics/thermal/thermal_integ.hpp"],
 [("selection of terms and load", "src/physics/thermal/thermal_residual.cpp"), ("walls and interfaces", "src/physics/thermal/thermal_integ.cpp")],
 T0 + "weak forms evaluated independently from the fields' traces and jumps; extrapolated differences along every input" + SAN, "Internal-boundary faces come from the stand-in for the project's MFEM branch." + TRUST)
prop("C24", "Magnetostatic residual, currents and magnets are exact and consistent",
 "For every mesh, degree, reluctivity, current assignment, magnet assignment, boundary option, potential and temperature, the magnetostatic residual is the curl-curl (in the plane: diffusion) term with the reluctivity at the local flux density, plus interior penalty and weakly imposed potentials where the basis or options ask for them, minus the current and magnetization sources on exactly the attributes of each group, with essential rows equal to potential minus prescribed value. In 3-D the current acts through its discretely divergence-free part: the load does no work on gradients of interior potentials, is linear in the group current densities, follows new currents and mesh moves, and vanishes on essential unknowns. The Jacobian, its transpose and the products with potential, node coordinates, temperature and each group's current density are the derivatives of that residual; a current-density product contains no other source; forward and transposed products agree, add to what the caller passes and leave the sources, the inputs and later answers as they were. The preconditioner asked for is the one provided, and magnets without a temperature field are refused.",
 ["inputs", "configurations", "histories"], "all meshes, degrees, materials, source assignments, boundary options, potentials, temperatures and call histories",
 "The tests differentiate the residual on one cube with either currents or magnets; restriction to attributes, several groups, magnets beside currents, divergence cleaning, caching after moves and products must hold for all.",
 ["src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetostatic_residual.hpp", "src/physics/electromagnetics/magnetostatic_load.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/current_load.hpp", "src/physics/electromagnetics/magnetic_load.cpp", "src/physics/electromagnetics/magnetic_load.hpp", "src/physics/miso_load.hpp"],
 [("selection of terms, sources and products", "src/physics/electromagnetics/magnetostatic_residual.cpp"), ("divergence-free current load and its caching", "src/physics/electromagnetics/current_load.cpp"), ("magnet load", "src/physics/electromagnetics/magnetic_load.cpp")],
 T0 + "weak forms evaluated independently from the fields; the current load recomputed with a dense projection onto the complement of interior gradients; extrapolated differences along every input" + SAN, "In the plane, forward products with node coordinates and temperature do not exist; magnets are given constant reluctivity, because the magnet term evaluates the reluctivity at the temperature. In 3-D magnets act at their zero-temperature strength, as the code does." + TRUST)


prop("C25", "Warped volume meshes are the elastic extension of their surface",
 "For every mesh (any element shape, straight or curved, with the state space of the mesh's own degree and every boundary essential) and every set of surface coordinates, the mesh warper's solution keeps the given surface and places the interior so that the linear elasticity residual of the displacement from the initial mesh vanishes: unmoved surfaces give back the initial mesh, affine motions of the surface move the whole mesh affinely, and the answer does not depend on the interior guess or on earlier solves. Surface indices name exactly the boundary coordinates of the volume vector, sizes and initial coordinates are those of the mesh and stay so. The residual at arbitrary coordinates is the elastic one in the interior and the difference from the given surface on it; its norm, its forward and transposed products with the state and the surface coordinates (added to what the caller passes), the adjoint solution and the total derivative of volume with respect to surface coordinates it yields are exact. Right-hand sides and inputs are left as they were.",
 ["inputs", "histories"], "all meshes, surface coordinates, interior guesses and sequences of solves, products and adjoints on one warper",
 "The tests translate one small mesh and differentiate with respect to surface coordinates once; the total derivative is commented out.",
 ["src/utils/mesh_warper/mesh_warper.cpp", "src/utils/mesh_warper/mesh_warper.hpp", "src/utils/mesh_warper/mesh_move_integ.cpp", "src/common/abstract_solver.cpp", "src/physics/miso_nonlinearform.cpp"],
 [("residual and products", "src/utils/mesh_warper/mesh_warper.cpp"), ("elasticity on positions", "src/utils/mesh_warper/mesh_move_integ.cpp"), ("steady and adjoint solves", "src/common/abstract_solver.cpp")],
 T0 + "dense elasticity matrix assembled by an independent loop on the initial mesh: solutions, residuals, products, adjoints and total derivatives compared entry by entry; repeated solves on one warper" + SAN, "Reference uses the quadrature order MFEM's elasticity integrator documents. Node coordinates are stored vector by vector (MFEM's default)." + TRUST)
prop("C26", "The solver driver runs, logs and differentiates as it documents",
 "For every residual, option set and initial state, an unsteady solve calls the initial hook with the initial state, then for each step the iteration hook with that step's number, time, step size and state before it, advances state and time by one step of the integrator, and calls the terminal hook with the final time and state; step sizes come from the derived solver or are dt, cut to end exactly at t-final unless exact-t-final is off; it stops after the first step that reaches t-final (or the derived solver's exit) or at max-iter steps, never earlier or later. Every attached logger leaves exactly one snapshot per logged state (initial under 0, the state before step k under k, the final state under the number of steps), each with that state and time, and none replaces another. Steady solves return a root of the residual and log it; adjoint solves satisfy the transposed system. Inputs always reach the residual or output before it is asked; products accumulate; unsteady adjoints and products are refused. Outputs are created once with their options, found by name, and unknown or duplicate names are refused without effect. Options are the defaults overlaid by the user's, later settings overlay earlier ones. Caller's vectors that are only read stay as they were.",
 ["inputs", "histories"], "all systems, integrators, time intervals, step and exit rules, logger settings, histories of output calls and option trees",
 "Tests solve two small ODEs with fixed steps and look at the end state only.",
 ["src/common/abstract_solver.cpp", "src/common/abstract_solver.hpp", "src/common/default_options.cpp", "src/common/data_logging.hpp", "src/common/miso_output.hpp", "src/common/miso_residual.hpp", "src/common/ode.cpp"],
 [("time loop, hooks, logging", "src/common/abstract_solver.cpp"), ("set and compare states", "src/common/abstract_solver.hpp")],
 T0 + "trace checker over the recorded hook, step-size, exit, residual and output calls against independent integrators; the directory of snapshots compared with the states that were to be logged; model of the output table and of option merging" + SAN, "A random nonlinear system stands in for the discretisation." + TRUST)
prop("C27", "The steady thermal solver answers its options and differentiates its answers",
 "For every mesh, basis and degree, set of materials, boundary and interface conditions and inputs, the thermal solver's temperature satisfies the weak form of heat conduction they describe: layered walls give the temperatures and end fluxes of thermal resistances in series, with contact resistances, fluid gaps, convection, flux and prescribed (strong or weak) ends, whether data come as options or as inputs. The temperature depends on neither the initial guess nor earlier solves; essential values are met. Fields have the sizes of their spaces, states set from functions, coefficients and vectors are interpolated and their errors are the L2 (or vector) norms, and setting a state records its boundary values. Averages and maxima are of the field they name over the attributes they name, with or without options. The adjoint yields exact total derivatives of outputs with respect to boundary values, thermal loads, node coordinates and scalar inputs. Solving on moved coordinates equals a solver built there, moving back restores the answer, folded meshes and unknown outputs are refused and leave the solver usable.",
 ["inputs", "histories"], "all meshes, options, inputs and sequences of solves, moves and outputs on one thermal solver",
 "The thermal tests need Adept and compare a handful of one-mesh solutions with stored numbers.",
 ["src/physics/thermal/thermal.cpp", "src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_integ.cpp", "src/physics/pde_solver.cpp", "src/physics/common_outputs.cpp", "src/common/abstract_solver.cpp", "src/physics/finite_element_state.cpp"],
 [("solver and outputs", "src/physics/thermal/thermal.cpp"), ("mesh motion and validity", "src/physics/pde_solver.cpp"), ("steady and adjoint solves", "src/common/abstract_solver.cpp")],
 T0 + "closed-form temperatures of layered walls; residual of the returned state; solves repeated from other guesses, on rebuilt solvers and after moves; totals against extrapolated differences of solves" + SAN, "Problems are kept to a few hundred unknowns so that Krylov solves are exact; problems without a fixed temperature are not given." + TRUST)
prop("C28", "The magnetostatic solver answers its options and differentiates its answers",
 "For every plane mesh, basis and degree, set of linear or saturating materials, current groups, magnets, boundary conditions and inputs, the magnetostatic solver's potential satisfies the weak form of Ampere's law they describe: layered slabs give the exact potentials, with the current of every group (with its sign, per attribute it names) and the remanence of every magnet at its temperature, between prescribed (strong or weak) and natural ends. The potential does not depend on earlier solves, nor, once converged, on the guess. Flux density is the curl of the potential and flux magnitude its length, at every output node; energy, volume, mass, mean and maximal flux, forces, torques, winding and core losses are those of the layers, attributes and axes they name, and several forces or torques live side by side; moments follow the moment law. The adjoint (solved after linearizing) satisfies the transposed system and yields exact total derivatives of outputs with respect to boundary values, temperatures, node coordinates and current densities. Solving on moved coordinates equals a solver built there, moving back restores the answer, folded meshes and unknown outputs are refused and leave the solver usable.",
 ["inputs", "histories"], "all plane meshes, options, inputs and sequences of solves, moves and outputs on one magnetostatic solver",
 "The electromagnetic tests need Adept and compare a handful of one-mesh solutions with stored numbers.",
 ["src/physics/electromagnetics/magnetostatic.cpp", "src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/magnetic_load.cpp", "src/physics/electromagnetics/current_load.cpp", "src/utils/l2_transfer_operator.cpp", "src/physics/common_outputs.cpp", "src/common/abstract_solver.cpp"],
 [("solver and outputs", "src/physics/electromagnetics/magnetostatic.cpp"), ("flux projections", "src/utils/l2_transfer_operator.cpp"), ("steady and adjoint solves", "src/common/abstract_solver.cpp")],
 T0 + "closed-form potentials of layered slabs; residual of the returned state; solves repeated from other guesses, on rebuilt solvers and after moves; totals against extrapolated differences of solves; moment law between torques" + SAN, "In the plane only (the 3-D loads are C24's); magnets only with continuous potentials and strong or natural ends, because the discontinuous and weak forms carry no magnet terms on faces; saturating solves that do not converge, and adjoint systems a weak preconditioner leaves unsolved, are counted and skipped." + TRUST)
prop("C29", "Fields are transferred to broken spaces exactly at their nodes",
 "For every mesh, every state of a supporting space and every broken output space, the transfer operators give at each output node exactly the value there of the scalar field, of the edge- or face-element vector field, of the curl (in the plane, of an out-of-plane potential) or of the length of the curl; the output field, its true vector and its size agree; the result follows the state and node coordinates given last. Transposed products with respect to state and node coordinates are the exact derivatives of the transfer, add to what they are given, leave the weights alone, and stay finite where the curl vanishes; with respect to the output they subtract; unknown inputs contribute nothing.",
 ["inputs", "histories"], "all meshes, spaces, states, weights and sequences of transfers and moves",
 "The unit tests (which the baseline build cannot run) use one mesh per operator and check one random direction.",
 ["src/utils/l2_transfer_operator.cpp", "src/utils/l2_transfer_operator.hpp"],
 [("operators and their products", "src/utils/l2_transfer_operator.cpp")],
 T0 + "point evaluation by MFEM's grid functions at every output node; extrapolated differences of transfers" + SAN, "Derivatives of the length are judged away from its kink; outputs are nodal (as all broken spaces made from options are)." + TRUST)
prop("C30", "Fields have the space they name, round-trip values and measure their size",
 "For every mesh, basis name, degree and number of states, a field or dual made from options has the finite element space those name; one made from another's space has an equal space of its own; both start at zero. True values distributed to a field (or dual) come back unchanged, and local and true vectors of fields and duals pair consistently. Projections of functions and coefficients agree with each other and reproduce polynomials of the space; coefficients of the field evaluate it. Moving a field, by construction or assignment, keeps its name, space and values and leaves it usable. Lp norms and errors, of scalars, of vector lengths and of single components, against functions or coefficients, are those of the integrals (maxima over the quadrature points for infinite p), for every exponent.",
 ["inputs", "histories"], "all meshes, bases, degrees, numbers of states, exponents, functions and vectors",
 "No test that the baseline build runs touches fields; solvers are tested with smooth functions and p = 2.",
 ["src/physics/finite_element_vector.cpp", "src/physics/finite_element_vector.hpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_state.hpp", "src/physics/finite_element_dual.hpp"],
 [("spaces", "src/physics/finite_element_vector.cpp"), ("norms", "src/physics/finite_element_state.cpp")],
 T0 + "independently constructed spaces; point evaluation and direct quadrature; algebra of pairings" + SAN, "On one rank." + TRUST)

prop("C31", "What is computed on several ranks is what one rank computes",
 "However a problem is distributed over the ranks of a communicator, it gives what one rank alone gives, to solver or rounding tolerance, and every call completes on every rank: sizes add up; projections, norms and errors of fields; residuals, their norms, Jacobian products and transposed products with respect to the state, fields, the mesh and scalars; solutions of thermal and (saturating) magnetostatic problems for every Newton method, with and without preconditioners; adjoints; values and derivatives of outputs (averages, aggregates, fluxes, energies, forces, torques, flux densities); flow residuals, mass matrices, Jacobians, entropies, CFL time steps and surface forces; extensions of a moved surface; Jacobian-free products. Loggers write and read each rank's own part.",
 ["inputs", "configurations", "schedules"], "all meshes, partitions, numbers of ranks, options, states and inputs",
 "The tests that the baseline build runs use one rank; a missing reduction or a collective call that some ranks skip shows only for partitions in which the ranks differ (a rank without essential degrees of freedom, with one entry, without the maximum, sharing a node with the moving part).",
 ["src/common/abstract_solver.cpp", "src/physics/pde_solver.cpp", "src/physics/miso_nonlinearform.cpp", "src/physics/common_outputs.cpp", "src/common/functional_output.cpp", "src/common/miso_linearform.cpp", "src/common/relaxed_newton.cpp", "src/common/linesearch.cpp", "src/common/inexact_newton.cpp", "src/common/matrix_operators.cpp", "src/physics/finite_element_state.cpp", "src/physics/fluidflow/flow_residual.cpp", "src/utils/mesh_warper/mesh_warper.cpp", "src/utils/l2_transfer_operator.hpp", "src/common/data_logging.hpp"],
 [("global reductions", "src/common/abstract_solver.cpp"), ("line search merit function", "src/common/linesearch.cpp"), ("essential degrees of freedom", "src/physics/miso_nonlinearform.cpp"), ("aggregate offset", "src/physics/common_outputs.cpp")],
 T0 + "each case run on 2, 3 or 4 ranks under mpirun and on one rank, compared by partition-independent functionals; hangs and aborts observed" + SAN,
 "Ranks of one machine over the loopback; linear and nonlinear iterations compared only where they converge. DG Jacobians across ranks are not compared (MFEM 4.5 has none)." + TRUST)
prop("C32", "A flow march takes the steps of its scheme, conserves, and ends where it should",
 "Solving for a flow state starts from the given state at t-initial and takes at most max-iter steps; each step satisfies the equations of the chosen scheme (forward Euler, RK4, implicit midpoint, relaxation Runge-Kutta) with the mass matrix and the residual at the stage times; its size is dt, or with const-cfl the CFL limit of the current state, cut to end exactly at t-final when that is asked for, and the march ends at the first time at or after t-final. Between walls or on periodic domains every step conserves mass and energy (and momentum when periodic); with relaxation it keeps the entropy when the scheme has no dissipation and never increases it otherwise; a uniform free stream stays. Pseudo-transient continuation takes implicit Euler steps whose size grows with the drop of the residual and never shrinks, and stops exactly when the absolute or relative tolerance is met. Afterwards the result is the last logged state, the entropy log has one line per state with its entropy and time, errors and residual norms are those of the result, outputs are those of the residual, and solving again gives the same; wrong dimensions, variables, fluxes, schemes and outputs are refused.",
 ["inputs", "histories", "configurations"], "all meshes, states, boundary conditions, schemes, step sizes, tolerances and solver options",
 "The flow solver is in none of the tests the baseline runs; it shows its mistakes (a stale state, a wrong stage time, a solver that does not advance) as plausible flow fields, and only an independent check of every step tells them apart.",
 ["src/physics/fluidflow/flow_solver.cpp", "src/common/abstract_solver.cpp", "src/common/ode.cpp", "src/common/mfem_extensions.cpp", "src/physics/fluidflow/flow_residual.cpp", "src/physics/pde_solver.cpp", "src/common/relaxed_newton.cpp"],
 [("step size", "src/physics/fluidflow/flow_solver.cpp"), ("time-dependent residual", "src/common/ode.cpp"), ("relaxation", "src/common/mfem_extensions.cpp"), ("march", "src/common/abstract_solver.cpp")],
 T0 + "every state of a march recorded by the binary logger and each step judged offline against the scheme's equations with a residual and mass matrix of the check's own" + SAN,
 "Explicit steps well inside the stability limit and states near the free stream; implicit steps of the entropy variables judged where Newton converges; adjoints of a march are not implemented." + TRUST)
prop("C33", "A controlled flow couples its actuator, sensor and controller exactly",
 "The controller realises the transfer function beta Kp (1 + Ti s)(1 + Td s) / ((1 + beta Ti s)(1 + eta Td s)) from the error between the target and the boundary entropy to the actuator velocity, keeps the parameters and loop setting it was given until they are changed, and its Jacobian, norm, entropy and entropy change are those of its equations. The coupled residual is the flow residual driven by the controller's velocity at the actuator given (or the default one) together with the controller's equations fed with the boundary entropy of the same state and actuator; entropy, entropy change, mass matrix, Jacobian blocks, Jacobian-free products, supply rate, CFL step and outputs are those of the two parts; with walls elsewhere and no dissipation, entropy enters the flow only through the actuator. A march of the coupled solver takes the steps of its scheme (with relaxation keeping the entropy balance), ends at t-final when that is asked for, gives loggers the flow state, records for every output one line per state with its time and value at the actuator given, also when it is solved again; steady problems, other dimensions and variables, inconsistent boundaries and unsupported derivatives are refused.",
 ["inputs", "histories", "configurations"], "all controllers, meshes, states, boundary conditions, actuator positions, schemes and step sizes",
 "No test of the baseline builds a flow control problem; a sensor read at the wrong actuator, a loop that closes itself or a stale velocity only changes the plausible-looking trajectory.",
 ["src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_residual.hpp", "src/physics/fluidflow/flow_control_solver.cpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/common/mfem_extensions.cpp", "src/common/matrix_operators.cpp", "src/common/ode.cpp"],
 [("control law", "src/physics/fluidflow/flow_control_residual.cpp"), ("coupling", "src/physics/fluidflow/flow_control_residual.cpp"), ("histories", "src/physics/fluidflow/flow_control_solver.cpp"), ("actuator", "src/physics/fluidflow/euler_integ_def.hpp")],
 T0 + "the controller judged by its frequency response and equations, the coupled residual by its parts, the entropy balance by a boundary sum of the check's own, and each step of a march by the scheme's equations" + SAN,
 "Two dimensions (the default actuator is a point of the plane); steps well inside the stability limit and states near the free stream; entropy-log is not offered by this solver and the supply rate not for entropy variables." + TRUST)
prop("C34", "Flow mesh sensitivities are the derivatives of the residual",
 "For any state and adjoint, the linear forms assembled by the mesh-sensitivity integrators of the inviscid flow (the entropy-conservative volume terms and slip walls, of conservative or entropy variables, scaled by their factor, walls restricted to any boundary attributes) are the derivatives of the adjoint-weighted residual of the corresponding flow integrator with respect to every coordinate of every mesh node, on straight and curved meshes with nodes in any ordering; they vanish when the mesh is moved as a whole, use the state, adjoint and mesh of the moment they are assembled, change none of them, and the wall terms refuse to be used where they cannot work (as a plain boundary form).",
 ["inputs", "histories"], "all meshes, node orderings, degrees, states, adjoints and motions",
 "The test that covers them is not in the baseline build, and uses one structured mesh with straight elements in two dimensions; a wrong geometric factor shows only on sheared or curved elements, in three dimensions, or after the mesh has moved.",
 ["src/physics/fluidflow/mesh_sens_integ.hpp", "src/physics/fluidflow/mesh_sens_integ_def.hpp", "src/physics/fluidflow/euler_sens_integ.hpp", "src/physics/fluidflow/euler_sens_integ_def.hpp", "src/common/sbp_fe.hpp", "src/common/sbp_fe.cpp"],
 [("volume terms", "src/physics/fluidflow/mesh_sens_integ_def.hpp"), ("wall terms", "src/physics/fluidflow/euler_sens_integ_def.hpp"), ("metric derivative", "src/common/sbp_fe.cpp")],
 T0 + "extrapolated differences of the adjoint-weighted residual for random, single-node and rigid motions" + SAN,
 "The reverse-mode element transformations of the MFEM fork are the overlay's own." + TRUST)

prop("C35", "The distance to a surface is the distance to its nearest point",
 "For every plane curve of straight or quadratic pieces, in any numbering, orientation and scale, given as a mesh or taken off the chosen boundaries of a volume mesh (whose nodes it copies and whose later life does not concern it), the distance from any point to the surface is that to its nearest point: never less than the true distance and, where the pieces at the nearest mesh node hold the nearest point and have a single minimum, exactly it, at interior points, ends and corners, on the curve and far from it; a distance asked of one piece is the distance to that piece. Surfaces in space and discontinuous nodes are refused.",
 ["inputs"], "all plane curves, chosen boundaries, query points and scales",
 "The test of the class is not in the baseline build and asks a circle of equal elements for distances to points on one ray.",
 ["src/common/surface.hpp", "src/common/surface_def.hpp", "src/common/kdtree.hpp"],
 [("candidates", "src/common/surface_def.hpp"), ("nearest point of an element", "src/common/surface_def.hpp"), ("boundary extraction", "src/common/surface_def.hpp")],
 T0 + "distances to the same pieces computed from the stationary points of their cubic slope" + SAN,
 "The search is a heuristic: the nearest point is sought on the elements at the nearest node. Where that element is not the nearest, or has several minima, only the bounds are judged." + TRUST)

prop("C36", "The magnetostatic solver in space returns the flux its options describe",
 "For every solid mesh (straight or curved tetrahedra or hexahedra), edge-element degree, assignment of constant or saturating materials, of currents in named groups and directions and of magnets, and every choice of prescribed and natural walls, solving from any guess gives a potential whose tangential values on prescribed walls are those given and which satisfies the weak form of Ampere's law; its curl, the flux, does not depend on the guess or on earlier solves, and in layered slabs is exactly the closed-form one. Flux density and magnitude are the curl and its length at every output node; energy, volume, mass, mean and maximal flux, winding and core losses are those of the layers and attributes they name; forces add up along axes and live side by side. States are set from, and errors measured against, vector functions and coefficients. The adjoint satisfies the transposed system and yields exact total derivatives of outputs with respect to wall values, temperatures, node coordinates and current densities. On moved nodes the flux and outputs are those of a solver built there, moving back restores them, and unknown outputs are refused.",
 ["inputs", "histories"], "all solid meshes, options, inputs and sequences of solves, moves and outputs on one magnetostatic solver",
 "The electromagnetic tests need Adept and compare one-mesh solutions with stored numbers; the potential is not unique, so nothing but the flux can be compared.",
 ["src/physics/electromagnetics/magnetostatic.cpp", "src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetostatic_load.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/magnetic_load.cpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_outputs.cpp", "src/utils/l2_transfer_operator.cpp", "src/utils/div_free_projector.cpp", "src/common/abstract_solver.cpp"],
 [("solver and outputs", "src/physics/electromagnetics/magnetostatic.cpp"), ("curl-curl residual", "src/physics/electromagnetics/magnetostatic_residual.cpp"), ("solenoidal current", "src/physics/electromagnetics/current_load.cpp"), ("magnets", "src/physics/electromagnetics/magnetic_load.cpp")],
 T0 + "closed-form fluxes of layered slabs; residual and flux of the returned state; solves repeated from other guesses, on rebuilt solvers and after moves; totals against extrapolated differences of solves" + SAN, "Preconditioned with the auxiliary-space solver (without it, singular systems are sometimes left unsolved); currents end on prescribed walls; saturating solves that do not converge are counted and skipped. Two findings are recorded: magnets act at no temperature, and torques keep the lever arms of the first mesh." + TRUST)

prop("C37", "The Python components return and differentiate what the solvers do",
 "Used from Python, the package behaves as the solvers do. Options of any nesting come back from a solver as they were given, as a copy; arrays are read and written in place, slices included, and what cannot be used in place (strided, of other shapes or numbers) is refused, leaving outputs alone; numbers may be given in any form; functions of a point set states and measure errors. The OpenMDAO components declare the sizes and tags of their variables; never write outside the entries they are to write; solve for states that satisfy the residual whatever the guess; give the residual and outputs the solver gives; and accumulate forward and reverse products that agree with each other and with the derivatives of residual and outputs with respect to every declared input, refusing forward products they do not have; their adjoint satisfies the transposed system, and is zero for nothing. The mesh warper component follows the given surface. A model assembled by the builder, with or without a warper, gives the state, outputs and total derivatives of the same problem worked by hand.",
 ["inputs", "histories"], "all problems, declared inputs, seeds, options, arrays and sequences of component calls",
 "The package is not built by the baseline and its tests need OpenMDAO, MPhys and Adept; a product that is silently zero, a stale adjoint or an array freed too early yields plausible numbers.",
 ["miso/miso_state.py", "miso/miso_output.py", "miso/mesh_warper.py", "miso/mphys/miso_builder.py", "miso/pyMISO/misoSolver.cpp", "miso/pyMISO/pdeSolver.cpp", "miso/pyMISO/meshWarper.cpp", "miso/pyMISO/pybind11_json.hpp", "miso/pyMISO/py_miso_utils.hpp", "src/physics/miso_nonlinearform.cpp"],
 [("state component", "miso/miso_state.py"), ("functionals", "miso/miso_output.py"), ("mesh motion", "miso/mesh_warper.py"), ("whole models", "miso/mphys/miso_builder.py"), ("bindings", "miso/pyMISO/misoSolver.cpp")],
 T0 + "residuals and products of the components against each other, against extrapolated differences and against the solver called directly; guarded vectors; options compared after a round trip" + SAN,
 "OpenMDAO, MPhys, mpi4py and pybind11 are not installed: stand-ins of the check's own implement the parts the package uses. One process. Derivatives with respect to outflux are a recorded finding." + TRUST)
