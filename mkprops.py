"""Writes properties.jsonl (one place to edit the property statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Mesh topology and entity geometry are exact for every mesh',
 'For every mesh of line, triangle, quadrilateral, tetrahedron, hexahedron or wedge cells (mixed tri/quad included) and every numbering of it, '
 'the derived edges and faces are exactly the distinct sub-entities of its cells and every entity-to-entity incidence relation (both directions, the incident/complete/local-index queries and the boundary facets) is the one implied by the cells. '
 'Entity orientations, centroids, volumes and outward facet normals agree with the geometry, and none of it depends on the order or number of times connectivities are created, freed and re-created or on whether the mesh is a copy or an extracted sub-mesh.',
 ['inputs', 'histories'], 'all meshes of the supported cell shapes, all vertex/cell numberings, all create/free/query histories of connectivities',
 'the suite compares entity counts of six small fixed meshes and cell volumes of a few files; it never compares incidence, orientation or query results with an independent computation',
 ['sfepy/discrete/common/extmods/mesh.c', 'sfepy/discrete/common/extmods/cmesh.pyx', 'sfepy/discrete/common/extmods/sort.c', 'sfepy/discrete/common/extmods/meshutils.c', 'sfepy/discrete/fem/mesh.py', 'sfepy/discrete/fem/domain.py', 'sfepy/discrete/fem/geometry_element.py'],
 [('mesh_build, mesh_transpose, mesh_intersect', 'sfepy/discrete/common/extmods/mesh.c'), ('CMesh.setup_connectivity/free_connectivity/get_*', 'sfepy/discrete/common/extmods/cmesh.pyx'), ('orient_elements', 'sfepy/discrete/common/extmods/meshutils.c')],
 [('CMesh.conns', 'cached d1->d2 incidence relations', 'cmesh.pyx')], ['CMesh.get_conn', 'CMesh.get_incident', 'CMesh.get_complete', 'CMesh.get_volumes'])

prop('C02', 'Region selectors and operators have set semantics',
 'For every mesh and every region expression, the selected vertices, edges, faces and cells are exactly those given by the documented meaning of the selectors and of the union, difference and intersection operators on the named entity kind, with lower- and higher-dimensional entities derived from the region kind as documented. '
 'The result does not depend on the order in which regions are defined, on which entities were asked for first, or on later regions made from it; facet-to-cell indices, cell indices, parents and mirror regions, characteristic functions and copies all describe that same set.',
 ['inputs', 'programs', 'histories'], 'all meshes, all selector/operator expressions, kinds and parents, all definition and access orders',
 'the suite checks a handful of hand-written selectors on one mesh, mostly that they parse and are non-empty',
 ['sfepy/discrete/common/region.py', 'sfepy/discrete/common/domain.py', 'sfepy/discrete/parse_regions.py', 'sfepy/discrete/common/extmods/mesh.c'],
 [('create_bnf/visit_stack', 'sfepy/discrete/parse_regions.py'), ('region_leaf/region_op', 'sfepy/discrete/common/domain.py'), ('Region.setup_from_highest/finalize/eval_op_*', 'sfepy/discrete/common/region.py')],
 [('Region.entities', 'per-dimension entity index arrays, lazily filled', 'region.py')], ['Domain.create_region', 'Domain.create_regions', 'Region.vertices/edges/faces/cells'])

prop('C03', 'Mesh files round-trip: what is written is what is read',
 'For every mesh and every mesh file format that can be both written and read, writing the mesh and reading it back yields the same vertex coordinates (to the precision of the format), the same cells with the same vertex lists, and, where the format stores them, the same vertex and cell groups. '
 'Point and cell data written with a mesh are read back with the same names, values and time steps where the format supports reading them, and converting between two formats changes nothing else.',
 ['inputs'], 'all meshes (cell kinds, mixed groups, 2D/3D, arbitrary group numbers and coordinates, any size), all formats with read and write support, all output data',
 'the suite round-trips one or two small fixed meshes and compares bounding boxes or counts',
 ['sfepy/discrete/fem/meshio.py', 'sfepy/discrete/fem/mesh.py', 'sfepy/scripts/convert_mesh.py'],
 [('MeshIO subclasses read/write', 'sfepy/discrete/fem/meshio.py'), ('Mesh.from_file/write', 'sfepy/discrete/fem/mesh.py')],
 (), ['Mesh.write', 'Mesh.from_file', 'MeshIO.read_data', 'HDF5MeshIO.read_data'])

prop('C04', 'Reference bases are consistent: nodality, unity, derivatives',
 'For every reference cell, approximation order and basis family offered, the basis functions form a basis of the documented polynomial space: nodal bases equal one at their own node and zero at the others, partition-of-unity bases sum to one and their gradients to zero, hierarchical and discontinuous bases have the documented vertex/edge/face/interior and orthogonality structure. '
 'Returned gradients and second derivatives are the true derivatives of the returned values at every point, and evaluation does not depend on how the points are batched, on previous evaluations, or on the evaluation route.',
 ['inputs', 'configurations', 'histories'], 'all cell shapes, orders, bases, evaluation points and evaluation histories',
 'the suite checks gradients by differences on a few low orders and continuity on tiny meshes at fixed points',
 ['sfepy/discrete/fem/poly_spaces.py', 'sfepy/discrete/common/poly_spaces.py', 'sfepy/discrete/fem/extmods/lagrange.c', 'sfepy/discrete/fem/extmods/bases.pyx', 'sfepy/discrete/fem/extmods/lobatto_bases.pyx', 'sfepy/discrete/fem/_serendipity.py', 'sfepy/discrete/dg/poly_spaces.py'],
 [('PolySpace.eval_basis', 'sfepy/discrete/common/poly_spaces.py'), ('eval_lagrange_*', 'sfepy/discrete/fem/extmods/lagrange.c')],
 [('PolySpace.eval_ctx', 'C evaluation context', 'poly_spaces.py')], ['PolySpace.eval_basis', 'PolySpace.node_coors'])

prop('C05', 'Quadrature rules integrate polynomials exactly to their order',
 'For every reference cell and every requested order for which a rule is offered, the quadrature integrates exactly every polynomial of the promised degree (total degree on simplices, per-direction degree on tensor cells), all points lie in the reference cell and the weights sum to its volume. '
 'The selected rule never has a lower order than the requested one, and the same holds for the rules mapped to cell facets and for the rules of custom integrals.',
 ['inputs', 'configurations'], 'all geometries, all orders, all monomials up to the order',
 'the suite checks a subset of orders with a few polynomials',
 ['sfepy/discrete/quadratures.py', 'sfepy/discrete/simplex_cubature.py', 'sfepy/discrete/integrals.py'],
 [('QuadraturePoints.from_table/get_qp', 'sfepy/discrete/quadratures.py'), ('Integral.get_qp/integrate', 'sfepy/discrete/integrals.py')],
 (), ['QuadraturePoints.from_table', 'Integral.get_qp'])

prop('C06', 'Element mappings give true Jacobians, volumes, normals, gradients',
 'For every mesh cell or facet with a valid geometry, the mapping to the reference cell yields quadrature weights that sum to the exact cell or facet measure, Jacobians and physical basis gradients that are the true derivatives of the isoparametric map, and outward unit normals. '
 'Consequently integrals of constants give lengths, areas and volumes, the divergence theorem holds between cell and facet integrals, and all of it is invariant under rigid motion, cell renumbering and the choice of selected cells.',
 ['inputs'], 'all geometries of valid cells (distorted, rotated, translated, scaled), all regions, all integral orders, volume, surface and surface-extra mappings, shells',
 'the suite computes volumes and normals of a few undistorted meshes',
 ['sfepy/discrete/common/mappings.py', 'sfepy/discrete/fem/mappings.py', 'sfepy/discrete/common/extmods/cmapping.pyx', 'sfepy/discrete/common/extmods/geommech.c', 'sfepy/discrete/fem/fe_surface.py'],
 [('FEMapping.get_mapping', 'sfepy/discrete/fem/mappings.py'), ('eval_mapping_data_in_qp', 'sfepy/discrete/fem/mappings.py'), ('CMapping', 'sfepy/discrete/common/extmods/cmapping.pyx')],
 (), ['FEMapping.get_mapping', 'Field.get_mapping', 'ev_volume', 'ev_volume_surface'])

prop('C07', 'Global fields are conforming and reproduce polynomials',
 'For every conforming mesh, field region, order and continuous basis family, degrees of freedom are numbered so that each field function is single valued across shared vertices, edges and faces whatever the relative orientation of the neighbouring cells, and no two independent degrees of freedom are merged. '
 'Setting the degrees of freedom from a polynomial of degree up to the order reproduces it and its gradient everywhere in the region and on its facets, also on locally refined meshes with hanging nodes, and the discontinuous families keep cells independent.',
 ['inputs', 'configurations'], 'all meshes incl. all orientations of neighbouring cells, all field regions, orders, bases and numbers of components',
 'the suite checks continuity on two-cell meshes and single polynomials on a few fixed meshes',
 ['sfepy/discrete/fem/fields_base.py', 'sfepy/discrete/fem/fields_nodal.py', 'sfepy/discrete/fem/fields_hierarchic.py', 'sfepy/discrete/fem/fields_positive.py', 'sfepy/discrete/fem/fields_l2.py', 'sfepy/discrete/fem/facets.py', 'sfepy/discrete/fem/refine_hanging.py', 'sfepy/discrete/fem/lcbc_operators.py', 'sfepy/discrete/common/fields.py'],
 [('FEField._setup_*_dofs', 'sfepy/discrete/fem/fields_base.py'), ('get_facet_dof_permutations', 'sfepy/discrete/fem/facets.py'), ('eval_nodal_dofs/set_dofs', 'sfepy/discrete/fem/fields_nodal.py')],
 [('Field.econn', 'cell to dof connectivity', 'fields_base.py')], ['Field.set_dofs', 'FieldVariable.evaluate', 'Field.get_econn', 'Field.get_dofs_in_region'])

prop('C08', 'Every tangent matrix is the derivative of its residual',
 'For every weak term that can be assembled both as a residual and as a matrix, and every admissible state, material and mesh, the matrix block with respect to a state variable is the derivative of the residual with respect to that variable. '
 'For terms also offering an evaluation mode, the evaluated scalar equals the residual tested by the given argument, and swapping the roles of virtual and state arguments gives the transposed matrix.',
 ['inputs', 'configurations'], 'all terms and call modes, all states (large deformation, contact, history dependent), cell kinds, dimensions and materials',
 'the call-mode test only checks that the terms return finite values of the right shape at one state; consistency is tested for three linear terms',
 ['sfepy/terms/*.py', 'sfepy/terms/extmods/*.c', 'sfepy/terms/extmods/terms.pyx', 'sfepy/mechanics/membranes.py', 'sfepy/mechanics/shell10x.py', 'sfepy/mechanics/extmods/contres.c'],
 [('Term.evaluate', 'sfepy/terms/terms.py'), ('Term.get_fargs/function', 'sfepy/terms/terms_*.py')],
 (), ['Term.evaluate', 'Problem.evaluate', 'Equations.evaluate'])

prop('C09', 'Terms compute the integrals they document',
 'For every term with a closed documented integrand (scalar, vector and tensor products, gradients, divergence, elasticity, diffusion, convection, stabilisation, coupling, surface, point and evaluation terms) the assembled vector, matrix or evaluated value equals the quadrature of the documented expression for the given arguments and materials. '
 'This holds for real and complex arguments, for scalar, per-region and per-point materials, in all evaluation modes (integral, cell average, pointwise), for all derivative orders in time, and identically for the multi-linear implementation of a term under every layout, backend and optimisation setting.',
 ['inputs', 'configurations'], 'all such terms, arguments, materials, modes, meshes and backends',
 'the suite compares a few multi-linear terms with their originals on one mesh and otherwise only that calls return',
 ['sfepy/terms/*.py', 'sfepy/terms/extmods/*.c', 'sfepy/terms/terms_multilinear.py', 'sfepy/discrete/materials.py'],
 [('Term.evaluate', 'sfepy/terms/terms.py'), ('ETermBase.make_function', 'sfepy/terms/terms_multilinear.py')],
 (), ['Term.evaluate', 'Problem.evaluate'])

prop('C10', 'Global assembly is the signed sum of element contributions',
 'For every set of equations, the global residual and matrix equal the sum over terms of sign/multiplier times the element contributions of each term scattered by the degree-of-freedom connectivity of its variables, with no contribution lost, duplicated, or placed in another block, and the pre-computed sparsity pattern contains every nonzero. '
 'The result is independent of the order of equations, terms and cells, of splitting a region into disjoint parts, of how the equation text is written, and of assembling residual and matrix separately, repeatedly or together, for real and complex problems.',
 ['inputs', 'programs', 'histories'], 'all equations with any number of variables, terms, regions, multipliers and assembling histories',
 'the suite assembles two tiny prescribed element sets and otherwise trusts solved examples',
 ['sfepy/discrete/equations.py', 'sfepy/discrete/evaluate.py', 'sfepy/discrete/parse_equations.py', 'sfepy/discrete/common/extmods/assemble.pyx', 'sfepy/terms/terms.py', 'sfepy/discrete/common/dof_info.py'],
 [('Equation.assemble/Equations.evaluate', 'sfepy/discrete/equations.py'), ('assemble_vector/assemble_matrix', 'sfepy/discrete/common/extmods/assemble.pyx'), ('create_matrix_graph', 'sfepy/discrete/equations.py')],
 (), ['Equations.evaluate', 'Equations.eval_residuals', 'Equations.eval_tangent_matrices', 'create_evaluable'])

prop('C11', 'Boundary, periodic and linear-combination conditions hold exactly',
 'For every admissible combination of essential, periodic and linear-combination boundary conditions and initial conditions, every returned solution satisfies the prescribed values (constant, list, function of coordinates and time), the periodic matches with their shifts, and each linear combination constraint (rigid, no-penetration, normal direction, edge direction, integral mean value, shifted periodic, matched nodes, multi-node) to rounding. '
 'The unconstrained degrees of freedom are exactly the remaining ones, reduced and full vectors convert into each other without loss, and the reduced system is the restriction of the full system by the constraint operator, so the remaining equations are solved.',
 ['inputs', 'configurations', 'histories'], 'all fields, regions, dof selections, condition kinds and combinations, times and activation/deactivation histories',
 'the suite applies a few fixed conditions on one mesh and checks selected values',
 ['sfepy/discrete/conditions.py', 'sfepy/discrete/variables.py', 'sfepy/discrete/common/dof_info.py', 'sfepy/discrete/fem/lcbc_operators.py', 'sfepy/discrete/fem/periodic.py', 'sfepy/discrete/equations.py', 'sfepy/discrete/evaluate.py', 'sfepy/discrete/problem.py'],
 [('EquationMap.map_equations', 'sfepy/discrete/common/dof_info.py'), ('LCBCOperators', 'sfepy/discrete/fem/lcbc_operators.py'), ('Variables.make_full_vec/reduce_vec/apply_ebc', 'sfepy/discrete/variables.py')],
 [('EquationMap.eq/eqi/eq_ebc/master/slave', 'dof classification', 'dof_info.py')], ['Problem.solve', 'Variables.apply_ebc', 'Variables.make_full_vec'])

prop('C12', 'Linear solvers solve the current system or say they did not',
 'For every solvable system and every available linear solver, the returned vector satisfies the system that was passed in that call: to rounding for direct solvers and to the configured tolerance for iterative solvers that report success. '
 'This holds for any sequence of calls: changed values, changed sparsity, changed right-hand side, real or complex data, presolved factorisations, warm starts, preconditioners and automatic fallback never make a solver return the solution of an earlier or different system, and failures are reported as configured.',
 ['inputs', 'histories', 'configurations'], 'all matrices, right-hand sides, solver configurations and call histories',
 'the suite solves two fixed systems once with each solver',
 ['sfepy/solvers/ls.py', 'sfepy/solvers/auto_fallback.py', 'sfepy/solvers/solvers.py', 'sfepy/linalg/sparse.py', 'sfepy/base/compat.py'],
 [('standard_call, _get_cs_matrix_hash, presolve', 'sfepy/solvers/ls.py'), ('AutoFallbackSolver', 'sfepy/solvers/auto_fallback.py')],
 [('mtx_digest, solve', 'cached factorisation key', 'ls.py')], ['LinearSolver.__call__'])

prop('C13', 'Nonlinear and optimisation solvers report convergence truthfully',
 'For every nonlinear system, whenever a nonlinear solver reports success the returned vector satisfies the configured absolute/relative residual (or step) criterion, the reported condition, iteration count and residual norms are those of the performed iteration, and a failure to converge is reported and never presented as success. '
 'Configured limits (iterations, line search bounds, linear solver reuse, initial residual, early stop) are respected, the caller\'s initial guess is not corrupted, and on a linear problem a full Newton step gives the solution.',
 ['inputs', 'configurations'], 'all smooth/non-smooth residual functions, start points and solver options',
 'the suite runs problems that converge in their default configuration',
 ['sfepy/solvers/nls.py', 'sfepy/solvers/semismooth_newton.py', 'sfepy/solvers/oseen.py', 'sfepy/solvers/optimize.py', 'sfepy/solvers/solvers.py'],
 [('Newton.__call__, check_tangent_matrix, conv_test, apply_line_search_bt', 'sfepy/solvers/nls.py'), ('SemismoothNewton', 'sfepy/solvers/semismooth_newton.py')],
 (), ['NonlinearSolver.__call__', 'status', 'OptimizationSolver.__call__'])

prop('C14', 'Eigenvalue solvers return true, requested, consistent eigenpairs',
 'For every standard, generalised and quadratic eigenvalue problem and every available eigenvalue solver, each returned value/vector pair satisfies the eigenvalue equation to the solver tolerance, the requested number and part of the spectrum is returned in the documented order, and asking for values only gives the same values as asking for vectors too. '
 'Eigenvectors correspond column by column to the values and symmetric problems give real values with mutually orthogonal vectors.',
 ['inputs', 'configurations'], 'all matrices, sizes, numbers of eigenvalues, selections and solver options',
 'the suite computes a few lowest values of one fixed problem',
 ['sfepy/solvers/eigen.py', 'sfepy/solvers/qeigen.py', 'sfepy/linalg/eigen.py'],
 [('standard_call', 'sfepy/solvers/eigen.py'), ('LQuadraticEVPSolver', 'sfepy/solvers/qeigen.py')],
 (), ['EigenvalueSolver.__call__', 'QuadraticEVPSolver.__call__'])

prop('C15', 'Time stepping covers the interval and integrates consistently',
 'For every time interval and step configuration, the steppers produce strictly increasing times from the start to the end time (reached exactly by fixed steps, by the first step at or after it by variable ones) with consistent step numbers, normalised times and step lengths, adaptive steppers shorten, lengthen, accept and reject steps only as configured, and each time-dependent solve uses the values of the correct time and history level. '
 'The elastodynamic solvers satisfy their discrete update formulas at every accepted step, conserve or dissipate energy as the scheme documents and converge with the documented order to the analytical solution.',
 ['inputs', 'configurations', 'histories'], 'all intervals, step counts and lengths, adaptive histories, systems and schemes',
 'the suite runs a few fixed transient problems and compares schemes mutually on one problem',
 ['sfepy/solvers/ts.py', 'sfepy/solvers/ts_solvers.py', 'sfepy/solvers/ts_controllers.py', 'sfepy/discrete/problem.py', 'sfepy/discrete/variables.py'],
 [('TimeStepper/VariableTimeStepper', 'sfepy/solvers/ts.py'), ('TimeSteppingSolver subclasses', 'sfepy/solvers/ts_solvers.py'), ('TimeStepController', 'sfepy/solvers/ts_controllers.py')],
 [('ts.time/step/dt/nt', 'stepper state', 'ts.py'), ('Variable.data history deque', 'history levels', 'variables.py')], ['TimeStepper.iter_from', 'TimeSteppingSolver.__call__', 'Problem.solve'])

prop('C16', 'A restarted computation continues exactly as the original',
 'For every time-dependent problem and every saved step, loading the restart data written at that step into a freshly created problem and continuing gives the same subsequent times, states and results as the uninterrupted run, including variables with history and their derivatives, adaptive time steps and vector-valued or several unknowns. '
 'Stopping at any step boundary therefore loses no information, and loading restart data reports a mismatch instead of silently using wrong data.',
 ['crash_points', 'histories', 'inputs'], 'all problems, all step boundaries at which the run is stopped, repeated restarts',
 'no test restarts a computation',
 ['sfepy/discrete/problem.py', 'sfepy/discrete/variables.py', 'sfepy/solvers/ts.py', 'sfepy/base/ioutils.py', 'sfepy/applications/pde_solver_app.py'],
 [('Problem.save_restart/load_restart', 'sfepy/discrete/problem.py'), ('TimeStepper.get_state/set_state', 'sfepy/solvers/ts.py')],
 [('restart file', 'stepper state and variable states', 'problem.py')], ['Problem.save_restart', 'Problem.load_restart', 'Problem.solve'])

prop('C17', 'PDE solutions are exact for solutions in the FE space and invariant',
 'For every well-posed linear problem (diffusion, reaction, elasticity, mixed Stokes or Biot type, with Dirichlet, Neumann or mixed data) whose exact solution lies in the finite element space, the solve returns that solution to solver precision on every valid mesh, order and cell kind, and otherwise the error decreases with the expected order under refinement. '
 'Renumbering vertices or cells, rotating or translating the domain, splitting regions, changing the equivalent formulation or the solver does not change the solution as a function, and post-processed fluxes, reactions and strain energies balance.',
 ['inputs', 'configurations'], 'all meshes, orders, cell kinds, coefficients, boundary data and equivalent formulations',
 'the suite solves fixed examples and mostly checks that solver conditions are met',
 ['sfepy/discrete/problem.py', 'sfepy/discrete/evaluate.py', 'sfepy/discrete/equations.py', 'sfepy/discrete/variables.py', 'sfepy/discrete/fem', 'sfepy/terms'],
 [('Problem.solve', 'sfepy/discrete/problem.py'), ('Evaluator.eval_residual/eval_tangent_matrix', 'sfepy/discrete/evaluate.py')],
 (), ['Problem.solve', 'Problem.evaluate', 'Variable.evaluate_at'])

prop('C18', 'Homogenised coefficients are right and schedule independent',
 'For every periodic microstructure, the homogenised coefficients computed by the homogenisation engine satisfy the corresponding unit-cell theory: laminate formulas, constants for homogeneous cells, symmetry, positive definiteness and the arithmetic/harmonic bounds. '
 'Correctors and coefficients are evaluated in an order respecting their declared dependencies and the results do not depend on declaration order, on which coefficients are requested, on serial, multi-process or chunked execution, or on the number of micro-problems processed together.',
 ['inputs', 'schedules', 'configurations'], 'all microstructures and coefficients, all dependency graphs, worker counts and schedules',
 'the suite runs two engine configurations and compares one coefficient with a stored value',
 ['sfepy/homogenization/engine.py', 'sfepy/homogenization/multiproc.py', 'sfepy/homogenization/coefs_base.py', 'sfepy/homogenization/homogen_app.py', 'sfepy/homogenization/utils.py', 'sfepy/homogenization/coefficients.py', 'sfepy/base/resolve_deps.py'],
 [('HomogenizationWorker/HomogenizationWorkerMulti', 'sfepy/homogenization/engine.py'), ('CorrMiniApp/CoefMiniApp', 'sfepy/homogenization/coefs_base.py'), ('resolve', 'sfepy/base/resolve_deps.py')],
 [('multiproc dictionaries of tasks, dependencies, results', 'work shared between worker processes', 'multiproc.py')], ['HomogenizationApp call', 'HomogenizationEngine', 'Coefficients'])

prop('C19', 'Point location, evaluation and probing invert the mesh mapping',
 'For every mesh, every field on it and every set of points, evaluation at points finds a cell containing the point whenever one exists and returns the value (or gradient) of the field function there, points outside are reported as such or extrapolated only as configured, and the reference coordinates found map back to the point. '
 'Results do not depend on the search strategy, on caching, on the order or batching of points or on how cells are numbered; probes (line, points, ray, circle) sample exactly the documented positions and return the parameters and values in matching order.',
 ['inputs', 'histories', 'configurations'], 'all meshes, fields, points (inside, on facets/vertices, outside), strategies and probe shapes',
 'the suite interpolates a few smooth functions between fixed meshes with loose tolerances',
 ['sfepy/discrete/common/global_interp.py', 'sfepy/discrete/common/extmods/crefcoors.pyx', 'sfepy/discrete/common/extmods/refcoors.c', 'sfepy/discrete/probes.py', 'sfepy/discrete/evaluate_variable.py', 'sfepy/discrete/common/fields.py'],
 [('get_ref_coors_convex/general', 'sfepy/discrete/common/global_interp.py'), ('find_ref_coors, get_xi_*', 'sfepy/discrete/common/extmods/refcoors.c'), ('Probe.probe', 'sfepy/discrete/probes.py')],
 [('geometry data and reference coordinate caches', 'reused search structures', 'probes.py')], ['Field.evaluate_at', 'FieldVariable.evaluate_at', 'Probe.__call__', 'set_from_other'])

prop('C20', 'Mesh transformations preserve the domain they represent',
 'Uniform and local refinement, merging, splitting of cells, extrusion and revolution of surfaces, mirroring, tiling, sub-mesh extraction, smoothing and the parametric generators always produce valid meshes: no degenerate or inverted cells, no duplicate or dangling vertices, total measure and boundary as documented, and cell/vertex groups inherited from the originating entities. '
 'Refined meshes are nested in the original ones and merged parts share exactly their common vertices.',
 ['inputs', 'configurations'], 'all meshes, generator parameters and transformation sequences',
 'the suite checks a few volumes and that the generators run',
 ['sfepy/discrete/fem/refine.py', 'sfepy/discrete/fem/refine_hanging.py', 'sfepy/discrete/fem/mesh.py', 'sfepy/mesh/mesh_generators.py', 'sfepy/mesh/mesh_tools.py', 'sfepy/discrete/fem/domain.py', 'sfepy/scripts/convert_mesh.py', 'sfepy/scripts/combine_meshes.py'],
 [('refine_2_3/2_4/3_4/3_8', 'sfepy/discrete/fem/refine.py'), ('merge_mesh', 'sfepy/discrete/fem/mesh.py'), ('gen_*_mesh', 'sfepy/mesh/mesh_generators.py')],
 (), ['FEDomain.refine', 'Mesh.__add__', 'gen_block_mesh', 'expand2d', 'smooth_mesh'])

prop('C21', 'Isogeometric bases, mappings and refinement are exact',
 'For every NURBS patch (dimension, degrees, knots, weights), the Bernstein/Bezier-extraction evaluation of the basis equals the NURBS basis defined by the knot vector: non-negative, partition of unity, correct derivatives, correct local support numbering and boundary restriction. '
 'Mapping, volumes, sampling and evaluation at parametric points agree with direct NURBS evaluation, writing and reading a patch preserves it, and the isogeometric solution of a problem with exact solution in the space is that solution.',
 ['inputs', 'configurations'], 'all patches, degrees, knot multiplicities, weights and evaluation points',
 'the suite uses one stored patch and reads a file; igakit based parts are skipped here',
 ['sfepy/discrete/iga/iga.py', 'sfepy/discrete/iga/extmods/nurbs.c', 'sfepy/discrete/iga/extmods/igac.pyx', 'sfepy/discrete/iga/fields.py', 'sfepy/discrete/iga/domain.py', 'sfepy/discrete/iga/io.py', 'sfepy/discrete/iga/utils.py'],
 [('compute_bezier_extraction, create_connectivity', 'sfepy/discrete/iga/iga.py'), ('eval_nurbs_basis_tp', 'sfepy/discrete/iga/extmods/nurbs.c')],
 (), ['eval_mapping_data_in_qp', 'eval_variable_in_qp', 'NurbsPatch.evaluate', 'IGField'])

prop('C22', 'Constitutive and tensor algebra identities hold',
 'For all admissible parameters and tensors, conversions between elastic constants are mutually inverse, stiffness matrices built from any parameter pair agree, are symmetric positive definite and invariant for isotropic materials under rotation, plane stress/strain reductions follow their definitions, and mixed splits recombine to the original tensor. '
 'Conversions between full, symmetric-storage and vector forms, transformations to rotated bases, invariants, deviators, Kirchhoff/Cauchy stress conversions, unit conversions and derived units agree with their tensor definitions for any batch shape.',
 ['inputs'], 'all material parameters, tensors, dimensions, rotations and unit systems',
 'the suite checks a few numerical values per function',
 ['sfepy/mechanics/matcoefs.py', 'sfepy/mechanics/tensors.py', 'sfepy/mechanics/units.py', 'sfepy/mechanics/elastic_constants.py', 'sfepy/linalg/utils.py', 'sfepy/linalg/geometry.py'],
 [('stiffness_from_*, ElasticConstants', 'sfepy/mechanics/matcoefs.py'), ('transform_data, get_full_indices', 'sfepy/mechanics/tensors.py')],
 (), ['stiffness_from_lame', 'ElasticConstants', 'transform_data', 'apply_units_to_pars'])

prop('C23', 'Re-evaluation after any change equals evaluation from scratch',
 'For every sequence of operations on a problem (setting states, changing materials or their parameters, time, boundary conditions, mesh coordinates, equations or solvers, evaluating expressions, solving), each evaluation or solve returns what a freshly created problem put directly into the same situation would return. '
 'Caches of mappings, bases, materials, variable data, sparsity, factorisations and evaluation results are therefore never stale, and pure evaluations leave states, materials and subsequent results unchanged.',
 ['histories', 'inputs'], 'all sequences of state/material/time/mesh/condition changes and evaluations',
 'tests create a problem, use it once and drop it',
 ['sfepy/discrete/variables.py', 'sfepy/discrete/materials.py', 'sfepy/discrete/problem.py', 'sfepy/discrete/equations.py', 'sfepy/discrete/common/fields.py', 'sfepy/discrete/fem/fields_base.py', 'sfepy/terms/terms.py', 'sfepy/solvers/ls.py', 'sfepy/terms/terms_hyperelastic_base.py'],
 [('evaluate_cache and step/data invalidation', 'sfepy/discrete/variables.py'), ('Material.update_data/datas keys', 'sfepy/discrete/materials.py'), ('clear_mappings/save_mappings', 'sfepy/discrete/common/fields.py')],
 [('FieldVariable.evaluate_cache', 'cached values per derivative/region/integral', 'variables.py'), ('Material.datas', 'material data per term key', 'materials.py'), ('Field.mappings', 'cached element mappings', 'fields.py')], ['Problem.evaluate', 'Problem.solve', 'create_evaluable', 'Material.time_update'])

prop('C24', 'Compiled kernels never touch memory they do not own',
 'Whatever problem is solved through the public interface, the compiled kernels (mesh topology, mappings, bases, terms, assembling, reference coordinates, contact, isogeometric) never read or write outside the arrays they are given or allocated, never use freed or uninitialised memory, never execute undefined arithmetic or leak the memory they allocate. '
 'Invalid data given through the public interface (meshes, entity indices, region selectors, points, material values, states) are rejected with a Python exception instead of corrupting memory.',
 ['inputs', 'histories', 'programs'], 'all workloads reaching the extension modules',
 'the suite runs uninstrumented builds, where out-of-bounds accesses, uninitialised reads and leaks mostly go unnoticed',
 ['sfepy/discrete/common/extmods', 'sfepy/discrete/fem/extmods', 'sfepy/discrete/iga/extmods', 'sfepy/mechanics/extmods', 'sfepy/terms/extmods'],
 [('mem_alloc_mem/mem_free_mem bookkeeping', 'sfepy/discrete/common/extmods/common_python.c'), ('fmf_* bounds by levels', 'sfepy/discrete/common/extmods/fmfield.c')],
 (), ['AddressSanitizer/UBSan reports', 'allocation statistics', 'results under different malloc fill patterns'])

prop('C25', 'Problem descriptions mean the same however they are written',
 'For every problem description, the long and the short keyword syntax, file, dictionary and module input, overrides and programmatic construction define the same problem: the same regions, fields, variables, materials, conditions, equations, integrals, solvers and options. '
 'Equation and term expressions parse to the terms, arguments, signs, multipliers, integrals and regions as written with usual arithmetic precedence, required and unknown items are diagnosed, command-line style option strings parse to the data they denote, and options defaults are applied only where a value is missing.',
 ['programs', 'inputs', 'configurations'], 'all problem descriptions, equation texts, option strings',
 'the suite parses a few strings and one pair of equivalent problem files',
 ['sfepy/base/conf.py', 'sfepy/base/parse_conf.py', 'sfepy/discrete/parse_equations.py', 'sfepy/base/base.py', 'sfepy/solvers/solvers.py', 'sfepy/discrete/problem.py', 'sfepy/discrete/conditions.py', 'sfepy/discrete/materials.py'],
 [('transform_* functions, ProblemConf', 'sfepy/base/conf.py'), ('create_bnf', 'sfepy/discrete/parse_equations.py'), ('make_option_processor', 'sfepy/solvers/solvers.py')],
 (), ['ProblemConf.from_file/from_dict', 'Equation.from_desc', 'parse_conf'])

prop('C26', 'Discontinuous Galerkin transport is conservative and bounded',
 'For every discontinuous Galerkin problem, numerical fluxes are consistent and single valued on each interior and periodic facet, so the total amount of an advected quantity changes only by the boundary fluxes in every explicit step, constants are preserved and the cell averages are updated exactly as the scheme defines. '
 'Slope limiters keep cell averages, leave admissible data unchanged and never create new extrema of averages, the explicit steppers have their documented order, and each cell and facet is matched with its true neighbour for any numbering.',
 ['inputs', 'histories', 'configurations'], 'all meshes, orders, velocities, fluxes, limiters and initial data',
 'the suite runs a few fixed DG examples and checks term call shapes',
 ['sfepy/discrete/dg/fields.py', 'sfepy/discrete/dg/limiters.py', 'sfepy/terms/terms_dg.py', 'sfepy/solvers/ts_dg_solvers.py', 'sfepy/discrete/dg/poly_spaces.py'],
 [('DGField.get_facet_neighbor_idx/get_both_facet_state_vals', 'sfepy/discrete/dg/fields.py'), ('AdvectionDGFluxTerm', 'sfepy/terms/terms_dg.py'), ('moment limiters', 'sfepy/discrete/dg/limiters.py')],
 (), ['DGField', 'ts.tvd_runge_kutta_3', 'limiters'])

prop('C27', 'Spline parametrisations reproduce and deform geometry consistently',
 'For every B-spline curve or surface and every spline box around a set of points, the spline basis is a partition of unity with the documented end conditions, an undisturbed spline box reproduces the enclosed points, moving control points moves the enclosed points by the corresponding combination of basis functions, and derivatives with respect to control points are exact. '
 'Approximation and interpolation reproduce data lying in the spline space, knot insertion keeps the curve unchanged, and written parametrisations read back the same.',
 ['inputs', 'histories'], 'all point sets, degrees, knots, control point motions and evaluation parameters',
 'the suite checks two boxes at default settings',
 ['sfepy/mesh/bspline.py', 'sfepy/mesh/splinebox.py'],
 [('BSpline/BSplineSurf', 'sfepy/mesh/bspline.py'), ('SplineBox/SplineRegion2D', 'sfepy/mesh/splinebox.py')],
 (), ['SplineBox.evaluate', 'SplineBox.evaluate_derivative', 'BSpline.eval'])

prop('C28', 'Stored results and data objects read back as they were saved',
 'For every set of results and every supported data object (numbers, strings, lists, dictionaries, arrays, sparse matrices, structures, meshes, links between objects), storing it and reading it back gives equal data, with shared references preserved where documented. '
 'Time histories, step and time lists, probe results, log files and extracted sub-histories match the computed steps one to one, for any number of steps, save frequency or saved subset, and stored variables can be restored into fields without change.',
 ['inputs', 'histories'], 'all data objects, nesting, numbers of steps, save schedules and extraction requests',
 'the suite stores one nested object and one log',
 ['sfepy/base/ioutils.py', 'sfepy/discrete/fem/meshio.py', 'sfepy/postprocess/time_history.py', 'sfepy/base/log.py', 'sfepy/discrete/probes.py', 'sfepy/discrete/problem.py', 'sfepy/homogenization/coefficients.py', 'sfepy/scripts/extractor.py'],
 [('write_to_hdf5/read_from_hdf5', 'sfepy/base/ioutils.py'), ('HDF5MeshIO', 'sfepy/discrete/fem/meshio.py'), ('extract_time_history', 'sfepy/postprocess/time_history.py'), ('make_is_save', 'sfepy/discrete/problem.py')],
 (), ['HDF5MeshIO.read_data', 'extract_time_history', 'read_log', 'Coefficients.from_file_hdf5'])

prop('C29', 'Domain decomposition assigns and numbers every unknown exactly once',
 'For every mesh, field and partition of its cells, the task degree-of-freedom maps used for distributed solving own every degree of freedom in exactly one task, the distributed numbering is a bijection that is contiguous per task, and each task knows all degrees of freedom of its cells. '
 'Summing the task-local assembled contributions through these maps gives exactly the serial residual and matrix, for single and composite fields with any number of components.',
 ['inputs', 'configurations'], 'all meshes, orders, numbers of parts, partitions (also empty or disconnected ones) and field combinations',
 'no test of the suite runs the decomposition code',
 ['sfepy/parallel/parallel.py', 'sfepy/parallel/evaluate.py'],
 [('create_task_dof_maps, distribute_field_dofs', 'sfepy/parallel/parallel.py')],
 [('dof_maps, id_map', 'inner and inter-facet dofs per task', 'parallel.py')], ['create_task_dof_maps', 'expand_dofs', 'partition_mesh'])

prop('C30', 'Projections and output conversions keep the represented function',
 'Projecting a function or quadrature-point data that is representable in the target space returns it, projections are idempotent, linear and satisfy the defining orthogonality, and transferring data between cell averages, vertices, quadrature points and fields conserves integrals and constants as documented. '
 'Saved output of a field (stripped to vertices, discontinuous or adaptively linearised) equals the field function at the written points, linearised output within the requested tolerance.',
 ['inputs', 'configurations'], 'all functions, fields, orders, meshes and output settings',
 'the suite projects one function each way on one mesh',
 ['sfepy/discrete/projections.py', 'sfepy/discrete/fem/fields_base.py', 'sfepy/discrete/fem/linearizer.py', 'sfepy/discrete/fem/fields_nodal.py', 'sfepy/discrete/variables.py'],
 [('make_l2_projection, make_h1_projection_data', 'sfepy/discrete/projections.py'), ('FEField.linearize/create_output/average_qp_to_vertices', 'sfepy/discrete/fem/fields_base.py')],
 (), ['make_l2_projection', 'Field.create_output', 'FieldVariable.create_output'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), max(len(p['title']) for p in P))
