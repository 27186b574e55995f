"""Writes /verif/properties.jsonl (kept as code so statements stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
S = "src/dxss/space_time.py"; T = "src/dxss/precomp_time_int.py"; G = "src/dxss/gmres.py"; M = "src/dxss/meshes.py"
D = ["src/dxss/solve_1d.py", "src/dxss/solve_2d.py", "src/dxss/solve_3d.py"]
NT = "The stable tests exercise only the GMRES wrapper on small random matrices; "

prop("C01", "Temporal basis is the equispaced Lagrange basis with exact derivatives",
 """For every supported polynomial degree in time (0 to 3) the temporal basis functions published by the package are the Lagrange
 polynomials of the equispaced nodes of [0,1] in increasing node order (the constant 1 for degree 0), so they are 1 at their own node,
 0 at the others and sum to one. The published derivative functions are the exact derivatives of the corresponding basis functions at every time.""",
 ["inputs"], "every degree 0..3 and every real reference time t",
 NT + "no test evaluates the temporal basis, and an identity of functions of a real variable cannot be settled by samples.",
 [T, S], [("temporal basis table (values, derivatives)", T + ": basis_in_time"), ("use as trial/test basis", S + ": SpaceTime.__init__")], ["basis values and derivatives"])

prop("C02", "Time element matrices are the exact integrals of the temporal basis",
 """For every pair of primal and dual time degrees (each 0 to 3) the precomputed time matrices are the exact integrals over the unit
 interval of products of the temporal basis functions and of their derivatives: mass matrices primal/dual, primal/primal and dual/dual,
 first-derivative matrices with the trial function differentiated, and the stiffness matrix with both differentiated.
 Rows belong to the test function, columns to the trial function, the sizes are (degree+1), and the basis is the same one that is used to evaluate and to load the discrete solution.""",
 ["inputs", "configurations"], "all 16 pairs of degrees, every matrix entry",
 NT + "the slab tests that would touch these matrices need a full FEniCSx installation and use one or two degrees.",
 [T], [("time element matrices", T + ": get_elmat_time")], ["returned matrices"])

prop("C03", "Quadrature rules integrate to their advertised exactness on any interval",
 """Every offered time quadrature rule (Gauss-Radau 3/4/5, Gauss 1/2/3, Newton-Cotes 2/3, midpoint), mapped to any interval [a,b], returns as many points as positive weights,
 all points lie in [a,b], and the weights sum to b-a. Up to the rounding of its tabulated digits, the rule integrates exactly all polynomials up to the degree its family promises
 (2n-2 for Gauss-Radau with the left end point included, 2n-1 for Gauss, 1 and 3 for the closed Newton-Cotes rules, 1 for the midpoint rule).""",
 ["inputs", "configurations"], "every rule and point count, every interval a<b, every polynomial up to the promised degree",
 NT + "no test evaluates a quadrature rule.",
 [T, S], [("quadrature tables and affine map", T + ": QuadRule")], ["points and weights"])

prop("C04", "Continuous-in-time lifting function has the right end values and derivative",
 """The lifting function used to post-process the discontinuous-in-time solution equals one at the left end -1 of its reference interval and vanishes at the interior
 collocation point 0 and at the right end 1. Its published derivative is its exact derivative at every point of the reference interval.""",
 ["inputs"], "every real reference time",
 NT + "no test evaluates the lifting function; the identity is over a continuum.",
 [T, S], [("lifting function and derivative", T + ": theta_ref, d_theta_ref"), ("use", S + ": SpaceTime.measured_errors")], ["values"])

prop("C05", "Every unknown of every time slab has its own place in the global vectors",
 """For every number of slabs, every time degree and every space degree, the layout tables map each (solution component, slab, time node) to the block of global unknowns of exactly that
 component and time level, slabs in increasing order and time nodes in increasing order within a slab; distinct triples get disjoint blocks and together they cover the whole global vector.
 The slab-local, interface and coarse layouts address the same components and time nodes within their own spaces.""",
 ["inputs", "configurations"], "every number of slabs N >= 1, all pairs of time degrees, all space degrees, every component, slab and time node",
 NT + "layouts are only built by tests that need FEniCSx, with a fixed N and equal degrees, where index shifts that mix the two time degrees cancel.",
 [S], [("layout construction", S + ": SpaceTime.setup_spacetime_finite_elements, SpaceTime.prepare_coarse_grid_correction")], ["layout tables"])

prop("C06", "Assembled space-time matrix is the stabilised wave-equation system",
 """For every number of slabs, end time, mesh, pair of degrees, data region and set of stabilisation weights, the assembled global matrix is exactly the matrix of the stabilised space-time formulation:
 the weak wave operator with Nitsche boundary terms applied to primal and dual pairs on every slab, the data term restricted to the data region, the dual and primal stabilisation terms with their h and time-step scalings, and the jump penalties between consecutive slabs (plus the initial-data penalty when the
 problem is well posed, and the forward jump terms when requested). Every term uses the exact time integrals, carries its own weight once per slab or interface, and nothing else couples.""",
 ["inputs", "configurations"], "every N >= 1, T > 0, degrees, flags, weights; every row of the matrix",
 NT + "no test inspects an entry of the assembled matrix.",
 [S], [("global bilinear form", S + ": SpaceTime.setup_spacetime_matrix")], ["assembled matrix"])

prop("C07", "Assembled space-time matrix is symmetric",
 """The assembled global matrix of the optimality system (not its block-triangular preconditioner variant) is symmetric for every number of slabs, every choice of degrees, stabilisation weights, data region and problem flags,
 and so are the interface coupling matrix, the interface mass matrix and, without forward jump terms, the slab matrices.""",
 ["inputs", "configurations"], "every N, degrees, weights, flags; all entries",
 NT + "no test looks at symmetry.",
 [S], [("global bilinear form", S + ": SpaceTime.setup_spacetime_matrix"), ("slab and interface forms", S + ": SpaceTime.setup_slab_matrix, SpaceTime.setup_coupling_matrix_between_slices, SpaceTime.setup_scaled_mass_matrix_between_slices")], ["assembled matrices"])

prop("C08", "Matrix-free application agrees with the assembled matrix",
 """For every input vector, applying the space-time operator slab by slab gives the same vector as multiplying by the assembled global matrix, for every number of slabs, degrees, weights and problem flags.""",
 ["inputs", "configurations"], "every input vector, every N >= 1, degrees, weights, flags",
 NT + "the matrix-free product is only exercised inside solver tests that need FEniCSx and never compared with the assembled matrix.",
 [S], [("slab-wise product", S + ": SpaceTime.apply_spacetime_matrix"), ("slab and interface forms", S + ": SpaceTime.setup_slab_matrix, SpaceTime.setup_coupling_matrix_between_slices")], ["output vector"])

prop("C09", "Slab matrices are the diagonal blocks of the block-triangular global matrix",
 """For every configuration without forward jump terms the general slab matrix equals the diagonal block of an interior slab of the block-triangular (preconditioner) variant of the assembled global matrix, and the matrix handed out for the first slab equals its first diagonal block, which carries the initial-data
 penalty exactly when the problem is declared well posed. The slab matrix used inside matrix-free products carries no interface jump terms, and with forward jump terms the general slab matrix adds exactly the forward (not the adjoint) jump terms of its left interface.""",
 ["inputs", "configurations"], "every N, degrees, weights, flags; all entries",
 NT + "no test compares slab and global matrices.",
 [S], [("slab bilinear forms", S + ": SpaceTime.setup_slab_matrix")], ["slab matrices"])

prop("C10", "Time-marching preconditioner is exact block forward substitution",
 """For every right-hand side, each time-marching preconditioner returns exactly the solution of the block lower-triangular system whose diagonal blocks are the slab systems (the first slab being solved with the first-slab solver) and whose sub-diagonal blocks transfer the final values of the previous slab to the start of the next one,
 as in the block-triangular variant of the assembled global matrix, for any number of slabs. The optimised variant gives the same answer as the plain one wherever it is offered and refuses configurations it does not support with an error instead of returning a wrong answer.""",
 ["inputs", "configurations"], "every right-hand side vector, every N >= 1, degrees, weights, flags, given exact slab solvers",
 NT + "preconditioner output is never compared with an exact block solve.",
 [S], [("time marching", S + ": SpaceTime.pre_time_marching, SpaceTime.pre_time_marching_improved"), ("interface mass matrix", S + ": SpaceTime.setup_scaled_mass_matrix_between_slices")], ["output vector"])

prop("C11", "Operator and preconditioner applications are pure functions of their input",
 """Applying the space-time operator, either preconditioner, or their solver-facing wrappers overwrites the whole output vector with a result that depends only on the input vector and the configuration: not on the previous contents of the output, not on earlier applications and
 not on error measurement or plotting done in between. The input vector, the matrices and the right-hand side are left unchanged, and the operator the wrappers expose is the one they wrap.""",
 ["histories", "inputs"], "every input, every previous content of output and work vectors, every history of earlier applications",
 NT + "purity across histories of calls is never tested.",
 [S], [("work vector resets", S + ": SpaceTime.apply_spacetime_matrix, SpaceTime.pre_time_marching, SpaceTime.pre_time_marching_improved"), ("wrappers", S + ": SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper")], ["output vector", "input vector"],
 [("work vectors", "scratch storage reused by all applications", S + ": SpaceTime")])

prop("C12", "Right-hand side loads exactly the data term of the assembled system",
 """For every number of slabs the load vector is the data term of the assembled system applied to the measured solution: data weight times the region-weighted integral of the supplied solution against each primal test function, integrated in time with the positive quadrature rule at the true physical times of each slab. When the
 problem is well posed it also contains the initial-data penalty with the supplied initial displacement and velocity, weighted as in the matrix, and every other entry is zero.""",
 ["inputs", "configurations"], "every N, T, degrees, weights, flags, solution function and data region; every entry",
 NT + "no test inspects the load vector.",
 [S], [("right-hand side", S + ": SpaceTime.setup_rhs")], ["load vector"])

prop("C13", "The data region supplied by the user is the one that is used",
 """The region indicator the user passes enters the system matrix, the slab matrices, the coarse matrix and the load vector as the weight of the data term: a fitted region is represented by its interpolation into cell-wise constants on the mesh in use, an unfitted one is used as given (on the coarse mesh of the two-level preconditioner, where the given function does not live, it is always carried over by interpolation into cell-wise constants of the coarse mesh).
 The object through which the user described the region is left unmodified, so it can be reused for another problem or mesh.""",
 ["inputs", "configurations", "histories"], "every indicator (callable or expression), fitted or not, any number of problems built from one description",
 NT + "no test looks at the data region after construction; tests exercise one problem per description.",
 [S], [("data region handling", S + ": SpaceTime.__init__, SpaceTime.setup_spacetime_matrix")], ["indicator used in forms", "caller's data domain"])

prop("C14", "Matrices and vectors do not depend on the order in which they are requested",
 """Whatever order the matrices, forms, right-hand sides and preparation steps are requested in, and however often, every accessor returns the object of the configuration asked for: asking for the block-triangular variant never yields the symmetric one or vice versa, and slab matrices do not depend on which was requested first.
 After preparation, both preconditioners and the operator can be applied for every combination of problem flags and request order.""",
 ["histories", "configurations"], "every sequence of accessor and preparation calls, every flag combination",
 NT + "each test uses one call order in one configuration.",
 [S], [("caches", S + ": SpaceTime.get_spacetime_matrix, get_spacetime_bfi, get_slab_matrix, get_slab_bfi, prepare_precondition_gmres, get_spacetime_rhs, get_spacetime_lfi")], ["accessor results"])

prop("C15", "Coarse-grid transfers and two-level preconditioner act on every unknown",
 """Prolongation and restriction transfer every component, slab and time node of a space-time vector to the same component, slab and time node of the other mesh by spatial interpolation, overwriting the target and leaving the source unchanged. The two-level preconditioner is the multiplicative
 combination of the exact coarse solve and the time-marching preconditioner: the coarse correction of the input plus the time-marching solution of the remaining residual of the same input.""",
 ["inputs", "configurations"], "every vector, every N, degrees, every pair of meshes",
 NT + "no test calls the coarse-grid code.",
 [S], [("transfers", S + ": SpaceTime.prolongation, SpaceTime.restriction"), ("two-level", S + ": SpaceTime.q_op, SpaceTime.pre_twolvl, SpaceTime.prepare_coarse_grid_correction")], ["transferred vector", "preconditioned vector"])

prop("C16", "Reported errors are the norms of the true error",
 """For every discrete solution the reported errors are the true ones against the supplied reference: the L2 error at final time uses the last time node of the last slab, the sampled maxima range over all sample times of all slabs of the error of the lifted (continuous in time) reconstruction and of its time derivative, and the
 L2-in-time error integrates the squared derivative error over all slabs with a positive quadrature. Contributions of all processes are summed before roots are taken, and the input vector is not modified.""",
 ["inputs", "configurations"], "every coefficient vector, N, T, degree, reference solution, number of processes",
 NT + "the solver tests assert only that one reported error is below a threshold, and need FEniCSx.",
 [S], [("error measurement", S + ": SpaceTime.measured_errors")], ["returned error dictionary"])

prop("C17", "Plotted and exported fields are evaluations of the supplied solution",
 """Every plot and export shows the supplied coefficient vector: the value drawn at a space-time sample is the discrete displacement (or its absolute value, its time derivative, or the absolute error against the reference) of the slab containing that time at that point, one row per sample time and in the same order as the time axis, for every number of samples and slabs.
 The exported final-time fields are the absolute differences of displacement and velocity to the reference at the end time, written to their own files, and the supplied vector is not modified.""",
 ["inputs", "configurations"], "every coefficient vector, N, degree, number of space and time samples",
 NT + "no test plots or exports.",
 [S], [("plots and export", S + ": SpaceTime.plot, SpaceTime.plot_error, SpaceTime.plot_para_view")], ["arrays drawn", "fields written"])

prop("C18", "Iterative solve returns a converged solution of its system, or raises",
 """The iterative solver either raises an error or returns a vector for which the iteration has reported convergence, together with the residual of the system it was given: the operator supplied, the right-hand side supplied, and that vector. Every divergence or iteration-limit outcome raises, and the right-hand side
 and operator are not modified.""",
 ["inputs", "histories"], "every operator, right-hand side, preconditioner, and every convergence outcome",
 NT + "they sample converging random systems with an exact preconditioner, no divergence outcome is exercised.",
 [G], [("GMRES driver", G + ": get_gmres_solution")], ["returned pair", "raised error"])

prop("C19", "Iterative solve honours the caller's settings",
 """The tolerances, iteration limit, restart length and preconditioner in force during the iterative solve are exactly the ones the caller passed, with the documented defaults only for values that were not given (an explicit zero tolerance is not replaced), the method is preconditioned GMRES on the supplied
 operator, and progress is printed exactly when requested.""",
 ["inputs", "configurations"], "every combination of given and omitted settings and every value",
 NT + "they never vary the tolerances and restart and cannot see which settings were in force.",
 [G], [("GMRES driver", G + ": get_gmres_solution, convergence_monitor")], ["solver settings at solve time"])

prop("C20", "Reference solutions of the shipped problems solve the wave equation",
 """In each shipped 1D, 2D and 3D problem the reference displacement satisfies the wave equation with unit wave speed and vanishes on the whole boundary of the problem domain at all times, and the reference velocity is its exact time derivative everywhere.""",
 ["inputs"], "every time and every point of the domain, dimensions 1, 2 and 3",
 NT + "a differential identity over a continuum of points and times is not tested at all.",
 D, [("reference solutions", d + ": sample_sol, dt_sample_sol") if False else ("reference solutions", d + ": sample_sol, dt_sample_sol") for d in D], ["values of the reference"])

prop("C21", "Data-region indicators are exact 0/1 membership functions",
 """For any number of evaluation points, each shipped data-region indicator returns one value per point, equal to one exactly for the points in its documented region (bands within the documented distance of the boundary, end points included) and zero for all others, independently of the other points evaluated with it.""",
 ["inputs"], "every array of points of every length, in every order",
 NT + "no test evaluates an indicator.",
 D, [("indicators", d + ": omega_ind*") for d in D], ["returned values"])

prop("C22", "Shipped solve procedures solve the system they build, on every solver path",
 """On every solver path (sparse direct slab solvers, PETSc slab solvers, direct solve of the whole system) the shipped problems solve the assembled space-time system with its right-hand side and measure the errors of that solution: general slabs get the solver of the general slab matrix, the first slab that of the first-slab matrix, and a direct solver writes the solution for its right-hand side into
 its output. Converting a matrix to sparse form preserves every entry and the shape.""",
 ["configurations", "inputs"], "each dimension, each solver path, every matrix and right-hand side",
 NT + "one smoke test runs one path of one problem and needs FEniCSx.",
 D + [S], [("solve procedures", d + ": solve_problem, get_lu_solver, PySolver") for d in D] + [("sparse conversion", S + ": get_sparse_matrix")], ["solver/matrix pairing", "measured vector"])

prop("C23", "Mesh hierarchies have the requested number of uniformly refined levels",
 """Every hierarchy generator returns one mesh per requested level, coarsest first: the initial mesh followed by exactly the requested number of uniform refinements, each level the refinement of the previous one (or, for the generator that remeshes, the same geometry with the mesh size halved at each level), for every requested number of levels including zero.""",
 ["inputs"], "every requested number of refinements and every initial mesh size",
 NT + "no test generates a hierarchy.",
 [M], [("hierarchies", M + ": get_mesh_hierarchy, get_mesh_hierarchy_nonconvex, get_mesh_hierarchy_fitted_disc, get_mesh_data_all_around, get_3d_mesh_data_all_around, get_mesh_bottom_data, get_mesh_convex, get_mesh_inclusion*")], ["returned list"])

prop("C24", "Generated geometries tile the domain and resolve the data region",
 """For every admissible choice of geometric parameters, the pieces of each generated geometry fill the documented domain without gaps or overlap, every piece belongs to exactly one physical group, and the interface of the data region (or of the inclusion) runs along edges of the pieces, so that no mesh cell crosses it.
 The requested mesh size is the one used.""",
 ["inputs", "configurations"], "every admissible parameter value of every generator",
 NT + "no test generates these geometries.",
 [M], [("geometry construction", M)], ["geometry handed to the mesh generator"])

prop("C25", "Imported meshes preserve coordinates and connectivity",
 """Conversion from the mesh generator keeps every node at its own coordinates and every cell connected to its own nodes, whatever the order in which the generator lists its nodes, and for every process of the communicator only the root builds the mesh. A node numbering that cannot be converted is refused with an error,
 a numbering that can be is accepted.""",
 ["inputs"], "every node listing order and every cell table the generator may deliver",
 NT + "no test imports a mesh, and the mesh generator delivers one order per geometry.",
 [M], [("node order check and cell permutation", M + ": create_initial_mesh_convex, get_mesh_inclusion, get_mesh_inclusion_square, get_mesh_bottom_data")], ["mesh arrays"])

prop("C26", "Mesh generation sessions are opened and closed in pairs",
 """Every mesh generation call leaves the mesh generator closed, on every process, so any sequence of mesh generation calls in one program, with any parameters, each gives the result it would give alone.""",
 ["histories", "configurations"], "every sequence of generator calls, every process rank",
 NT + "no test generates two meshes in one process.",
 [M], [("session handling", M)], ["session state after the call"])

prop("C27", "Problem construction honours every argument it is given",
 """A constructed problem uses exactly the arguments it was given: the named problem flags take effect under their own names, the time step is the end time divided by the number of slabs, space and time degrees, weights, mesh and reference solution are those passed, the error sample times cover the whole time interval including both ends,
 and constructing or using one problem never changes the arguments or another problem built from them.""",
 ["inputs", "configurations", "histories"], "every argument value, all flag combinations, any number of problems sharing arguments",
 "One test samples that the parameter object unpacks in order; the other arguments and the sharing between problems are not tested.",
 [S], [("construction", S + ": SpaceTime.__init__, ProblemParameters, OrderTime, OrderSpace, DataDomain, ValueAndDerivative")], ["problem attributes", "caller's arguments"])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
