# subject of the fix commit -> (property, what failed)
FIXES = {
'dependencies of coefficients with names of correctors': ('C18',
  'a coefficient named as a corrector was mixed up with it in the order of the dependencies: a wrong order or "circular requirement"'),
'precision of volumes given by value in homogenization': ('C18',
  'volumes given by value were written to an expression with 6 digits, coefficients differed from those by expressions'),
'get_lattice_volume() in 2D with recent NumPy': ('C18',
  'nm.cross() of 2D vectors was refused, the volume of a 2D cell could not be computed'),
'names of requirements contained in each other in CoefEval, CorrEval': ('C18',
  'names were replaced in expressions also inside longer names'),
'repeated calls of homogenization engine': ('C18',
  'definitions were modified in place, a second call of the engine failed or lost the file names'),
'writing and reading coefficients of several microstructures': ('C18',
  'the coefficients of several microstructures could not be written to/read from HDF5'),
'call user update of microstructure coordinates once': ('C18',
  'the function was called (and its update applied) repeatedly'),
'storing of correctors of microstructures processed in chunks': ('C18',
  'with chunks, correctors of microstructures not to be stored were saved, or under wrong numbers'),
'macroscopic data given in options in homogenization': ('C18',
  'options.macro_data was not passed to the microstructures'),
'periodic conditions in deformed configurations': ('C18',
  'periodic nodes were matched in the deformed coordinates, nonlinear homogenization failed after the first step'),
'saved reference mappings correspond to undeformed configuration': ('C18',
  'the result of nonlinear homogenization depended on serial/multiprocessing/chunks'),
'memory leaks of IGA evaluations': ('C24',
  'eval_variable_in_qp() and eval_in_tp_coors() of the IGA extension module never freed their work buffers.'),
'memory leak of dw_surface_ltr with stress tensors': ('C24',
  'Every assembling of dw_surface_ltr with a stress tensor material leaked its work buffer (freed according to the number of columns in place of rows of the material).'),
'memory leak of ev_sd_div_grad': ('C24',
  'Every evaluation of ev_sd_div_grad leaked a work buffer.'),
'output of constant fields defined in a part of the domain': ('C30',
  'Field.create_output() of a field of order 0 defined in a subdomain failed with IndexError, the Region itself was passed in place of its name.'),
'setting variables of subdomains from values in mesh vertices': ('C30',
  'FieldVariable.set_from_mesh_vertices() took values of the first mesh vertices in place of the vertices of the field region for fields of subdomains (order >= 2), or failed because of the size (order 1).'),
'linearization of discontinuous fields': ('C30',
  'Field.linearize() of discontinuous fields failed with IndexError: such fields have no vertex DOFs.'),
'shape of DOF arrays of constant fields changed by output': ('C30',
  'Field.create_output() of a field of order 0 changed the shape of the array of DOFs of the caller in place.'),
'regions of IGA domains stored in HDF5 files': ('C21',
  'A domain written by write_domain_to_hdf5() stored the vertices of its sides in the numbering of the topological mesh although reading remaps them from the Bezier mesh again, so the sides of the read domain were empty or wrong.'),
'output of IGA fields for knots out of [0, 1]': ('C21',
  'IGField.create_output() evaluated the patch in parameters from [0, 1] for any knot vectors, the saved mesh and values were wrong for other ranges of knots.'),
'DG periodic boundary conditions without known match functions': ('C26',
  '(follow-up of the matching of facets) problems with undefined match functions keep the order of facets as before'),
'order of variables in equations does not depend on memory addresses': ('C10',
  'the numbering of unknowns without a given order differed from run to run'),
'stages of multistage DG time stepping solvers use states of the stages': ('C26',
  'terms with p[-1] used the state of the previous step in all stages of Runge-Kutta solvers, the schemes were only first order'),
'substeps in TVD Runge-Kutta DG time stepping solver': ('C26',
  'poststep_fun was called in the middle of steps as prestep_fun (hooks, saving and advancing twice) and the time of the step was not restored'),
'derivatives in facets of DG fields in physical coordinates': ('C26',
  'diffusion fluxes used gradients in reference coordinates of cells'),
'neighbors of the first cell in 2D DG limiter': ('C26',
  'cells next to the cell 0 were not limited'),
'matching of facets in DG periodic boundary conditions': ('C26',
  'the match function was ignored, periodic facets were paired in the order of their numbers'),
'slopes in Runge-Kutta 4 DG time stepping solver': ('C26',
  'ts.runge_kutta_4 integrated another equation (slopes were shifted by twice the state), mass and constants were lost'),
'boundary values of gradients in DG fields': ('C26',
  'components of given boundary gradients were reversed instead of quadrature points'),
'last points in approximation by B-splines': ('C27',
  'the basis of the last approximated point was zero when the sum of the normalised lengths was over 1 by a rounding error'),
'B-spline basis at ends of knot ranges': ('C27',
  'the basis was zero at the end of knot ranges over 2 or negative (subtraction of eps had no effect), spline boxes moved the points there to the origin; the given parameters were changed'),
'cyclic knot vectors of given ranges': ('C27',
  "make_knot_vector('cyclic', knot_range=...) was not uniform for ranges other than (0, 1)"),
'insertion of knots into B-splines': ('C27',
  'insert_knot() always failed (an array was used as an index)'),
'control points of approximating cyclic B-spline surfaces': ('C27',
  'get_control_points() and eval() of a cyclic surface after approximate() omitted some of the control points or failed'),
'initial control points of spline boxes': ('C27',
  'moving the control points changed also the initial ones (cp_coors); SplineRegion2D had no initial ones'),
'values at control points in written control nets': ('C27',
  'write_control_net() wrote the values as a text of Python bytes, cut to 10 characters'),
'DOF maps of tasks without common facets': ('C29',
  'create_task_dof_maps() failed or omitted tasks having no facet in common with the others (disconnected meshes or parts), and failed for tasks touching only in a vertex or an edge, whose overlap cells were incomplete'),
'overlap cells of composite fields in parallel': ('C29',
  'distribute_fields_dofs() gave a task different cells for each of several fields, so that the local problem could not be set up'),
'extraction of histories of nodal variables in elements': ('C28',
  'extract_time_history() of a nodal variable in elements raised AttributeError (mesh.conns)'),
'averaging of histories changed the histories': ('C28',
  'average_vertex_var_in_cells() added the histories of other nodes to the history of the first node of the given data'),
'nested parentheses in multipliers of terms': ('C25',
  'multipliers like ((1) + 2) * or (-(2 + 1)) * were refused'),
'imaginary numbers in option strings': ('C25',
  "'2.5j' was parsed as the real number 2.5"),
'updating of tuples and None values in update_dict_recursively()': ('C25',
  'items of overriding tuples were ignored (and the overriding dictionaries changed), overwrite_by_none was not passed to nested dictionaries'),
'do not modify problem descriptions by overrides': ('C25',
  'ProblemConf with override changed the given dictionary or module, so later instances had the overridden values'),
'required solver options given as keyword arguments': ('C25',
  'a required option given as keyword argument was reported as missing'),
"boundary conditions of variables with 'grad' in names": ('C25',
  "conditions of a variable called e.g. 'gradient' were applied to nothing"),
'numbers followed by spaces in option strings with free words': ('C25',
  "'a = 2 , b = 3' gave the string '2'"),
'adding a term to Terms changed the original': ('C25',
  'Terms + Term appended the term to the left operand'),
'regions selected by the name of another region': ('C25',
  "create_region('B', 'r.A') renamed region A, so that A did not exist any more"),
'order of conflicting conditions in the short syntax': ('C25',
  "conditions 'fix' and 'fix1' of common DOFs were applied in different order in the short and long syntax"),
'check vertices of cells in CMesh.from_data()': ('C24',
  'cells with vertex indices out of range or a wrong number of vertices read and wrote memory out of bounds'),
'check entity indices and dimensions in CMesh methods': ('C24',
  "get_incident(), get_complete(), get_local_ids(), create_new(), setup_connectivity() with invalid entities, and the region selector 'cell 100' crashed"),
'evaluation of variables in too distant points': ('C24',
  'distances of points overflowed in the search tree and the index of no vertex was used (segmentation fault)'),
'check number of source values in Field.evaluate_at()': ('C24',
  'a short array of source values was read out of bounds'),
'check numbers of values of material parameter functions': ('C24',
  'a material function returning values in fewer points than requested led to reads out of bounds in kernels'),
'setting history data of variables with history longer than one step': ('C23',
  'Variable.set_data(step=-1) with history=2 wrote the data of step -2'),
'evaluate caches of variables with history': ('C23',
  'time derivatives, values in past steps and values after a change of the time step length were taken from stale caches'),
'evaluation of variables after a change of coordinates': ('C23',
  'FieldVariable.evaluate() used the mappings of the old coordinates after set_mesh_coors()'),
'history and time steps of variables in multi-linear terms': ('C23',
  'de_dot(v, u[-1]) used the current step, the cache of DOFs ignored a change of the time step length'),
'merging of more than two coinciding nodes in fix_double_nodes()': ('C20',
  'three or more coinciding nodes got the index -1: cells with wrong vertices'),
'conforming tetrahedra and cell groups of mixed meshes in extrude()': ('C20',
  'tetrahedra of neighbouring wedges did not share faces, extrusion of mixed meshes failed or mixed the cell groups'),
'wedges in mirror()': ('C20',
  'KeyError for meshes with wedges'),
'get_cell_vertices_only() for meshes with several kinds of cells': ('C20',
  'ValueError for mixed meshes'),
'volume correction in smooth_mesh()': ('C20',
  'AttributeError with volume_corr=True, and the volume would not be kept'),
'gen_mesh_from_voxels() with different numbers of voxels in x and y': ('C20',
  'IndexError for non-square voxel arrays'),
'uniform refinement of 1D meshes with a general order of cells': ('C20',
  'wrong children when the cells were not ordered by coordinates'),
'refine() of refine_hanging with no cells to refine': ('C20',
  'substitutions of the previous refinement were lost, ret_sub_cells ignored'),
'extraction by material id in convert_mesh.py': ('C20',
  'AttributeError with -i'),
'merging of vertices in convert_mesh.py': ('C20',
  'wrong mesh with -m'),
'general axes of rotation in revolve()': ('C20',
  'wrong angles for axes of other than unit length, wrong layers for some axes and half-turns'),
'gen_extended_block_mesh() with a single layer of extending cells': ('C20',
  'infinite coordinates for e_shape = 2'),
'selection by magnitude in dense symmetric problems of eig.scipy': ('C14',
  "'SM'/'LM' of indefinite dense problems solved by eigh selected by algebraic value"),
'eig.sgscipy with real and complex matrices': ('C14',
  'a real matrix combined with a complex one lost the imaginary part or failed in LAPACK'),
'unnoticed failures of eig.sgscipy': ('C14',
  'wrong pairs returned silently when the mass matrix is not positive definite'),
'shifted inverse operators given by linear solvers in eig.scipy': ('C14',
  'with linear_solver and a non-zero sigma the inverse of A was used instead of A - sigma B'),
'selection of too many eigenvalues of tridiagonal matrices': ('C14',
  'select_indices beyond the number of values in Lanczos estimates failed'),
'complex matrices with linear solvers in eig.scipy': ('C14',
  'complex matrices with linear_solver were processed by ARPACK in real arithmetic, giving wrong values'),
'status of EVPSolverApp with eigs_only or essential boundary conditions': ('C14',
  'AttributeError with eigs_only and a non-zero condition with EBCs though all values were found'),
'dot_sequences() of matrices and vectors in BT modes': ('C22',
  'dot_sequences() raised or summed wrong axes for products of matrices with transposed vectors'),
'distance of contact sphere for points in its centre': ('C22',
  'division by zero (nan) for a point in the centre of a contact sphere'),
'contact planes almost perpendicular to z axis': ('C22',
  'nan/inaccurate local frames of contact planes with normals almost parallel to the z axis'),
'get_coors_in_ball() outside of spherical shell': ('C22',
  'points inside of the inner sphere were (not) selected contrary to the documentation'),
'get_coors_in_tube() outside of radii': ('C22',
  'the complement of the tube was selected wrongly when the points outside were requested'),
'get_coors_in_tube() with axis vectors of non-unit length': ('C22',
  'the selection of points in a tube depended on the length of the axis vector'),
'dielectric tensor of piezoelectric plane stress problems': ('C22',
  'wrong dielectric tensor of the plane stress reduction'),
'check for incomplete block sizes in compose_sparse()': ('C22',
  'an incomplete block row was not detected as documented'),
'saving of CSC matrices as text': ('C22',
  'the matrix saved from a CSC matrix was the transposed one'),
'Unit.get_prefix() with given omitted prefixes': ('C22',
  'user given omitted prefixes were ignored'),
'local bases of shell10x cells perpendicular to y axis': ('C22',
  'nan local bases of shell cells with normals along the y axis'),
'speed of probes with shared geometry': ('C19',
  'the region kept in the evaluate cache of probes with shared geometry was merged (copied deeply) in each probe call, so a first version of the preceding repair slowed such probes down by orders'),
'reference coordinates of extrapolated points': ('C19',
  'evaluate_at() outside of the domain returned the closest candidate cell with the reference coordinates in the last one (kind outside)'),
'evaluation in points with non-C-contiguous coordinates': ('C19',
  'Fortran-ordered coordinates were refused with ndarray is not C-contiguous (kind histories)'),
'location of cell centroids by convex strategy': ('C19',
  'SystemError: the walk never ended for points in the cell centroids; tolerances were absolute (kind inside)'),
'point location in tensor product cells of any size': ('C19',
  'the Newton tolerance was absolute: wrong reference coordinates in small cells, no convergence in large ones (kind inside)'),
'evaluate cache of fields in subregions': ('C19',
  'the cached mesh was the whole domain one, so that cells did not correspond to the field; a shared cache was used for other regions: wrong values or a crash (kinds inside, probe_histories)'),
'probes reused with other points, regions or extrapolation limits': ('C19',
  'reference coordinates were cached by the parametrization only (kind probe_histories)'),
'element size hint of circle probes': ('C19',
  'NameError with adaptive refinement (kind probes)'),
'evaluation in points of fields with other than Lagrange basis': ('C19',
  'stack overflow (gradients, order 1) or garbage (order above 1) in serendipity, SEM, Lobatto and Bernstein fields (kind bases)'),
'meshes of constant approximation fields in subregions': ('C19',
  'values of other cells in evaluate_at() (kind inside)'),
'plane of circle probes with normals close to z axis': ('C19',
  'normals up to about 6 degrees from the z axis were replaced by it (kind probes)'),
'cycling of convex strategy in points on facets': ('C19',
  'SystemError for some points on facets (kind inside)'),
'history of variables in restart files': ('C16',
  'histories of variables were wiped when loading restart data; saving restart data in first steps failed for histories of two and more steps'),
'initial state vector of restarted problems': ('C16',
  'with active_only=False the previous state was an alias of the state of variables and was overwritten during the first step after a restart'),
'save times passed by long time steps or before restarts': ('C16',
  'steps passing several save times shifted later saves, the last saves were lost; restarted computations saved all save times again, late'),
'restarts from the final time step': ('C16',
  'a restart from the last step silently solved one more step beyond the end time'),
'matrices of restarted linear elastodynamics problems': ('C16',
  'restarts of elastodynamic solvers with is_linear=True failed with AttributeError'),
'state of adaptive time stepping in restart files': ('C16',
  'step lengths after restarts of ts.adaptive and of elastodynamics with step controllers differed from the original ones'),
'restarts from regular output files': ('C16',
  'loading an output file in place of a restart file failed with locked variables'),
'constant matrices with changed initial time steps': ('C15',
  'elastodynamics with time derivatives of further variables used matrices of the default step length in the first step with another initial step length'),
'equality of time steppers': ('C15',
  'TimeStepper.__eq__ of equal steppers returned False, of steppers of different intervals True'),
'additional variable time steps after the final time': ('C15',
  'constant steps of variable steppers (and of adaptive elastodynamics) passed the final time by one more step when rounding kept the last time just below it'),
'last state returned by elastodynamics solvers': ('C15',
  'Problem.solve() with ts.newmark, generalized_alpha, bathe, central_difference or velocity_verlet returned the state of the last but one step'),
'times of sub-steps in the Bathe method': ('C15',
  'loads and boundary values of both substeps of ts.bathe were taken half a step too late, the method was of the first order'),
'loads in the mid-step time in the generalized alpha method': ('C15',
  'loads and boundary values were taken at the end of the step instead of at the time of equilibrium'),
'damping in the velocity-Verlet method': ('C15',
  'the damping force used mid-time velocities, so that ts.velocity_verlet was not equivalent to central differences and only of the first order'),
'initial time step guess of elastodynamics controllers': ('C15',
  'guess_dt0=True raised NameError'),
'terms without state variables in transform_equations_ed()': ('C15',
  'loads were silently dropped with auto_transform_equations'),
'term coefficients in transform_equations_ed()': ('C15',
  'factors and signs of mass and damping terms were lost with auto_transform_equations'),
'number of iterations reported by semismooth Newton': ('C13',
  'the semismooth Newton solver did not report n_iter, used for example by the adaptive time stepping'),
'state restored before steepest descent in semismooth Newton': ('C13',
  'after a failed line search the residuals of the last rejected trial were used in the restored state for the steepest descent step'),
'jacobian of non-smooth equations in semismooth Newton': ('C13',
  'with semismooth=False the rows of the Jacobian were taken of the larger instead of the smaller function; the active part with both functions zero raised AttributeError'),
'linear system error in Oseen solver': ('C13',
  'the error of the linear system was computed by an elementwise product of a sparse matrix, so each system was reported as not solved'),
'objective function without arguments in scipy_fmin_like solver': ('C13',
  'calls without obj_args raised TypeError'),
'line search, status and output function of fmin_sd solver': ('C13',
  'the reported status was the status object itself, the full line search started from the value in another point and stopped early with "small relative decrease", the output function replaced the one of the module, calls without obj_args raised TypeError'),
'methods of scipy_fmin_like solver without getargspec()': ('C13',
  'each call raised AttributeError in Python >= 3.11'),
'condition reported by scipy_root solver': ('C13',
  'converged hybr and lm methods reported the condition 1 or more, status=None with report_status raised TypeError'),
'system scaling in Newton line search on error estimates': ('C13',
  "ls_mode='error' with scaling functions raised TypeError, with scaled_error UnboundLocalError"),
'state returned after giving up on residual failure in Newton': ('C13',
  'with give_up_warp the call raised UnboundLocalError or returned the vector for which the residual failed with a stale error'),
"gradients of Bernstein simplex basis on facets of the reference cell": ("C04",
  "gradients of the Bernstein basis on simplices were NaN in points on the reference cell facets"),
"node coordinates and vertex nodes of the wedge Lagrange basis": ("C04",
  "node coordinates of 3_6 cells were truncated to integers for order >= 2, only five of six vertex nodes were described for order 1"),
"quadrature rules of wedges and full order rules above the tabulated orders": ("C05",
  "full_order rules of 2_4, 3_8, 3_6 above the table raised UnboundLocalError; wedge full order rules had too low order; symmetric custom rules raised TypeError"),
"distinguish custom integrals of the same order in caches": ("C05",
  "a custom (or full order) integral reused quadrature points, mappings and material data of another integral with the same order number"),
"mappings of tilted surface meshes in 3D": ("C05",
  "integration over 2D meshes in 3D not parallel to the xy plane failed with a numpy error; cells facing -z got negative Jacobians"),
"merge triangular faces shared by wedge cells": ("C01",
  "triangular faces shared by two 3_6 cells were created twice, so that they were reported as surface facets"),
"centroids and normals of triangular wedge faces": ("C01",
  "the repeated vertex of triangular faces of 3_6 cells entered the centroids and made the normals zero"),
"volumes of general wedge cells": ("C01",
  "volumes of 3_6 cells that are not right prisms were wrong"),
"shape of the connectivity graph of CMesh.get_conn_as_graph()": ("C01",
  "get_conn_as_graph() failed or returned a wrong shape for d1 != d2"),
"stale entity orientations after freeing and re-creating connectivities": ("C01",
  "edge/face orientations pointed to freed memory after a connectivity was freed and set up again"),
"Mesh.create_conn_graph() of meshes with several cell types": ("C01",
  "create_conn_graph() failed for meshes with several cell types"),
"double free of connectivities freed before their mesh": ("C01",
  "free_connectivity() followed by deleting the mesh freed the same memory twice"),
"CMesh.get_local_ids() of entities with no incident entities": ("C01",
  "get_local_ids() indexed an empty array when an entity had no incident entities"),
"Region.get_cell_indices() of regions with unsorted cells": ("C02",
  "get_cell_indices(true_cells_only=False) of facet regions searched in an unsorted array (IndexError or AssertionError)"),
"Region.contains() of partially overlapping regions": ("C02",
  "A.contains(B) was true for any non-empty intersection"),
"lower kinds of regions defined by higher dimension entities": ("C02",
  "('cells of group 1', 'facet') recursed without end, ('cell 1', 'vertex') was reported to be empty, and ('copy r.A', 'facet') depended on which entities of A had been accessed before"),
"'cells by' region selector on surface and curve meshes": ("C02",
  "'cells by f' failed on 2D cells in 3D (the space dimension was used as the cell dimension)"),
"allow empty regions defined by facets, edges or cells": ("C02",
  "create_region(..., allow_empty=True) raised 'has no entities' for empty regions defined by facets, edges or cells"),
"cell sets of meshes with several cell types written by meshio": ("C03",
  "cell groups of meshes with several cell types were written as wrong cell sets"),
"cell groups of meshes read with omitted facets": ("C03",
  "omit_facets=True shifted the cell groups when the facets came first in the file"),
"reading cell data of meshes with several cell types": ("C03",
  "read_data() of cell data failed or returned only one cell block"),
"reading non-vector data from meshio formats": ("C03",
  "vertex and cell data that are not vectors were truncated to the space dimension in 2D"),
"writing cell data of meshes with cells of several dimensions": ("C03",
  "writing cell data of meshes with cells of several dimensions failed"),
"reading vtk meshes of cells not in the xy plane": ("C03",
  "the dimension of vtk meshes constant in x or y was wrong and coordinates were lost"),
"order of time steps read from DG gmsh files": ("C03",
  "DG gmsh time steps were read in the file system order"),
"writing wedge meshes in the HDF5-XDMF format": ("C03",
  "writing 3_6 meshes in the HDF5-XDMF format failed"),
"XYZ format of 1D meshes, refuse unsupported meshes": ("C03",
  "1D XYZ meshes could not be read; meshes with several cell types were written without complaint and read wrongly"),
"close the HDF5 file when refusing to save a step twice": ("C03",
  "after refusing to save a step twice the HDF5 file stayed open for writing and could not be read"),
"integer vertex and cell groups read from gmsh files": ("C03",
  "groups read from gmsh files were floats, so that writing them by medit, abaqus or tetgen lost or garbled them"),
"flux modes of ev_integrate on facets": ("C06",
  "term_mode 1 (flux) of ev_integrate on facets raised"),
"ev_integrate modified cached variable values in place": ("C23",
  "the values of variables doubled with every evaluation of ev_integrate sharing the evaluation cache"),
"outward normals in 1D for arbitrary vertex numbering": ("C06",
  "normals of the ends of 1D meshes depended on the vertex numbering"),
"hierarchical basis orientation and basis transform on subregions": ("C07",
  "values of lobatto fields and of fields on refined meshes evaluated in subregions used the orientations and transforms of other cells"),
"stale error flag of the C core after a handled error": ("C24",
  "after any handled error of the C core later kernel calls in the process returned garbage or NaN"),
"gradients on facets in the points of the facet basis": ("C06",
  "Jacobians, normals and gradients were evaluated at other points of non-parallelogram quadrilateral facets than the basis"),
"wedge facet mappings with a new integral of the same order": ("C06",
  "KeyError for the second integral object of the same order on facets of wedges"),
"values of several components set in hierarchical basis fields": ("C07",
  "set_dofs() of hierarchical fields with several components mixed the components"),
"order of face nodes on facets for higher order 3D fields": ("C07",
  "facet integrals, values and boundary conditions of 3D fields of order 3 and more used wrong basis functions on some faces"),
"vertex averages on subregions and of discontinuous fields": ("C07",
  "vertex averages on subregions used data of other cells, node coordinates of discontinuous fields were uninitialised and their output failed"),
"argument order of dw_st_adj_supg_c": ("C08",
  "dw_st_adj_supg_c passed its arguments to the C core in a wrong order"),
"shear strains in the strain along fibres": ("C08",
  "fibre strains doubled the shear strains, stresses of active fibres did not derive from them"),
"stress of the softplus exponential fibres": ("C08",
  "dw_tl_fib_spe: the tangent matrix was not the derivative of the residual"),
"material data and tangent modulus of dw_tl_he_svk": ("C08",
  "dw_tl_he_svk modified its material data in place, wrong shear entries of the tangent modulus"),
"volume changes in dw_tl_he_ogden": ("C08",
  "dw_tl_he_ogden: wrong derivatives with respect to volume changes"),
"order of element DOFs in dw_vm_dot_s": ("C08",
  "dw_vm_dot_s used a node-major order of element DOFs"),
"tangent matrices of hyperelastic terms used stress of the last residual": ("C08",
  "tangent matrices were wrong when the residual was not evaluated in the same state before"),
"fibre directions changing between evaluations": ("C23",
  "fibre directions were normalised and transformed again in each evaluation of a term"),
"symmetric and vector gradients of multi-linear terms in 1D": ("C08",
  "multi-linear terms using symmetric gradients failed in 1D"),
"tangent modulus of dw_ul_he_mooney_rivlin": ("C08",
  "the tangent modulus was twice the derivative of the stress"),
"evaluation of dw_v_dot_grad_s with matrix coefficients": ("C08",
  "dw_v_dot_grad_s evaluated with the transposed matrix coefficient"),
"squares of symmetric tensors in 3D (dw_ul_he_mooney_rivlin)": ("C08",
  "squares of symmetric tensors in 3D assumed another component order: wrong 3D stresses of dw_ul_he_mooney_rivlin"),
"dw_piezo_coupling with different approximation orders of its fields": ("C08",
  "dw_piezo_coupling used the basis of the displacements for the potential: wrong matrices and reads out of bounds"),
"dw_tl_diffusion with different approximation orders of its fields": ("C08",
  "dw_tl_diffusion used the basis of the displacements for the pressure"),
"tangent matrix of dw_lin_spring": ("C08",
  "the off-diagonal entries of the stiffness of springs were 1 instead of k"),
"tangent matrix of rotational springs with full stiffness matrices": ("C08",
  "the blocks coupling displacements and rotations were not transformed in the tangent matrix"),
"dw_st_adj2_supg_p with a parameter of a different approximation order": ("C08",
  "the basis of the parameter was used for the test function: reads out of bounds"),
"multi-linear terms evaluated in several modes": ("C09",
  "the expression info of multi-linear terms was shared by evaluation modes: wrong or failing evaluations after assembling"),
"de_sd_lin_elastic, de_sd_diffusion with nonsymmetric materials": ("C09",
  "sensitivities of elasticity and diffusion were wrong for nonsymmetric material tensors"),
"tangent matrices of terms with complex states": ("C09",
  "linear (adjoint, SUPG, penalty) terms failed or gave wrong matrices with complex state variables"),
"electric source term with coefficients varying in cells": ("C09",
  "dw_electric_source used the coefficient of the first quadrature point of each cell"),
"dw_convect_v_grad_s in cells of different sizes": ("C09",
  "the Jacobians of the first cell were used in all cells"),
"shear components in dw_lin_strain_fib": ("C09",
  "off-diagonal components of the fibre strain counted twice"),
"layouts and loops of multi-linear terms": ("C09",
  "multi-linear terms failed or gave wrong values with some layouts and the quadrature point loop"),
"dw_surface_ltr evaluation with full traction tensors": ("C09",
  "evaluation used the transposed traction tensor"),
"dw_st_adj_supg_c": ("C09",
  "the transposed velocity gradient was used"),
"stale operands of multi-linear terms with layouts": ("C09",
  "operands were cached by id of freed arrays: stale values in repeated evaluation"),
"multi-linear terms without materials in quadrature points": ("C09",
  "multi-linear terms without materials could not be evaluated in the qp mode"),
"matrix graphs in chunks of single cells": ("C10",
  "Equations.create_matrix_graph(chunk_size=1) never finished"),
"matrix graphs with shared DOFs or variables without active DOFs": ("C10",
  "matrix graphs failed (blocks mismatched) with variables sharing DOFs followed by other ones, or with a variable with all DOFs fixed"),
"arguments of equations changed by creating sub-equations": ("C10",
  "Equations.create_subequations() replaced the known variables by parameters in the original equations, too"),
"residuals and matrices by terms with repeated terms": ("C10",
  "eval_residuals/eval_tangent_matrices(by_terms=True) gave the sum of all terms with the same name for each of them"),
"term order passed to assembling callbacks": ("C10",
  "the order of a term passed to assembling callbacks was always zero with selected terms"),
"terms with virtual and state variables in different bases": ("C10",
  "terms using one basis for both variables wrote out of bounds (heap corruption) or gave garbage with variables in different bases"),
"cached matches of periodic nodes with different coordinates": ("C11",
  "matching functions of periodic nodes returned cached matches of other coordinates with the same number of nodes"),
"linear combination conditions kept after their removal": ("C11",
  "Variables.setup_lcbc_operators(None) kept the operators of previous conditions"),
"essential conditions propagated over chains of periodic conditions": ("C11",
  "of several DOFs periodic with a DOF, only one got the essential value given at another of them"),
"linear combination conditions with periodic DOFs": ("C11",
  "no penetration and normal direction conditions on variables with periodic DOFs in the region failed or counted DOFs wrongly"),
"average force condition without rotation DOFs and dof_map_fun": ("C11",
  "the average_force condition without rotations failed with the default weights"),
"thread term of rigid twist condition": ("C11",
  "the thread height was multiplied by the sum of the axis components in all components"),
"nodal combination conditions with zero coefficients": ("C11",
  "DOFs not present in nodal combinations were fixed to zero; coefficients could be assigned to wrong DOFs"),
"MUMPS symmetry check of general and diagonal matrices": ("C12",
  "ls.mumps took some nonsymmetric matrices for symmetric (wrong solutions) and failed with diagonal matrices"),
"MUMPS solver reused for matrices of other types": ("C12",
  "with use_presolve, ls.mumps solved new matrices as real/symmetric like the first one: wrong solutions"),
"errors of MUMPS ignored by the Schur complement solver": ("C12",
  "ls.schur_mumps returned garbage when MUMPS failed (workspace too small)"),
"tolerance arguments of SciPy iterative solvers": ("C12",
  "ls.scipy_iterative failed with minres; errors in callbacks led to repeated solving with other arguments"),
"configured callbacks of iterative solvers ignored": ("C12",
  "the callback option of iterative solvers was never called"),
"configuration changed by automatic solvers": ("C12",
  "the configuration dictionary given to automatic solvers lost its kind"),
"context of solver classes in use_first_available()": ("C12",
  "solvers given by classes lost their context"),
}
KNOWN = [
dict(id='C18-example-opt-multiprocessing', property='C18', monitor=['exception'],
     case=dict(kind='example', name='homogenization_opt', part='multi'), contains=["Can't pickle local object 'define.<locals>.<lambda>'"],
     what="examples/homogenization/homogenization_opt.py cannot be computed with options.multiprocessing: its material function is a lambda defined in"
          " define(), which cannot be passed to the workers; a repair has to edit the example, which is outside of the files the repairs may touch"),
dict(id='C05-wedge-order4', property='C05', monitor=['inside', 'weights', 'exactness', 'integrate'],
     case=dict(kind='rule', geom='3_6', full=False, order=list(range(4, 100))),
     contains=['rule 3_6'],
     what="QuadraturePoints.from_table('3_6', order) for order >= 4 returns the hexahedron rule"
          " (sum of weights 1, points outside of the wedge); the existing test_quadratures"
          " requires these values, so that it cannot be repaired without editing the test"),
dict(id='C15-bathe-full-control', property='C15', monitor=['progress'],
     case=dict(kind='stalled'), contains=['steps of bathe with active_only=False'],
     what="ts.bathe with an error-based step controller, active_only=False and boundary values moving in time: velocities and"
          " accelerations of fixed DOFs are computed from displacements to which no boundary values were applied, so that the error"
          " estimates do not decrease with the step length and all steps are rejected until the step length underflows; the"
          " evaluators apply boundary values only to their own copies of vectors, a repair has to change the contract of the hooks"),
]
# notes for DESIGN.md: choices, false alarms which were corrected
DESIGN_NOTES = {
'C19': [
 "Corrected false alarm: far from distorted hexahedra the map has several inverse images, the distance of the returned one decides on a refusal."],
'C22': [
 "Corrected false alarm: the prefix 'd' is 10 (deca), as the existing tests define it, not the SI deci."],
'C14': [
 "Corrected false alarm: the smallest values of non-symmetric problems are requested by shifts only, as ARPACK itself can miss"
 " some without them."],
'C15': [
 "Corrected false alarms: variable steppers end at the first step at or after the end time (the statement said exactly at it); the order of"
 " convergence is decided only with steps resolving all frequencies. The error norm of the elastodynamic controllers (relative to the"
 " error itself) is taken as defined."],
'C12': [
 "Corrected false alarms: stopping criteria of SciPy and PyAMG methods themselves (MINRES, TFQMR, zero right-hand"
 " sides in PyAMG, breakdowns of minimal residual methods) are not sfepy's; PARDISO returns scalars for systems of size one and perturbs"
 " pivots of singular ones; MUMPS may refuse with too small a workspace."],
'C11': [
 "Corrected false alarms: sets of conditions changing in time require the documented active_only=False; rigid and"
 " mean value conditions in regions with periodic DOFs of the same variable are not supported (not explored);"
 " function names of several conditions have to be unique."],
'C10': [
 "Corrected false alarms: point loads are given by materials with special values only; a variable reused in other"
 " equations gets connectivities of the last ones; sub-equations start with their own history; interfaces for traces"
 " are made by facet operators (cells of one side can have all vertices on the interface); matrices of systems with"
 " all DOFs fixed do not exist."],
'C08': [
 "Corrected false alarms: the tangent of dw_contact is a symmetric approximation by design and is only decided for"
 " relative normal translations of bodies; derivatives in time only for terms documented to support them; histories start"
 " from zero initial conditions; dw_ul_volume gives the change of volume."],
'C09': [
 "Corrected false alarms: per-element coefficients of stabilised terms are tested with values constant in cells; the qp"
 " mode is not offered by quadrature-point-loop backends; operands broadcast by jax_vmap are refused loudly; materials of"
 " standalone evaluations are updated without time by design; integrands vanishing by cancellation are compared on"
 " the scale of their factors."],
}
# planted changes not caught by the check of their property (default: caught)
SEEDS = {}
