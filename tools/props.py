IN = ['inputs', 'configurations']
TC = 'sfepy/terms/extmods/'

prop('C01', 'Diffusion, dot-product and coupling kernels integrate their weak forms',
     'For all basis values, gradients, Jacobians, material data and states, each compiled element kernel of the diffusion, convected scalar, dot-product, '
     'surface flux, surface moment, linear traction, volume source, Biot, electric and piezoelectric terms, and of state interpolation, state gradient and divergence in '
     'quadrature points, returns for every element exactly the quadrature sum (or the point values) of its integrand, in residual, matrix and evaluation mode. '
     'Each element uses its own data (or the single shared material/basis cell) in each quadrature point, and nothing but the output array is changed.',
     IN, 'all real field values, any number of elements and quadrature points, shared or per-element material data, dimensions 1-3, all modes',
     'The tests solve a few small problems with constant, mostly isotropic and symmetric coefficients and compare with stored results; they do not reach the kernels\' general arguments.',
     [TC + f for f in ('terms_diffusion.c', 'terms_basic.c', 'terms_dot.c', 'terms_surface.c', 'terms_volume.c', 'terms_biot.c', 'terms_electric.c', 'terms_piezo.c', 'terms_op.c')],
     [('element kernels', TC + 'terms_diffusion.c'), ('field algebra', 'sfepy/discrete/common/extmods/fmfield.c')],
     ['return value and output array of each kernel'], technique=CT, note=CN)

prop('C02', 'Elasticity kernels integrate their weak forms',
     'For all gradients, Jacobians, material and strain data, each compiled element kernel of the linear elasticity, prestress, fibre strain, non-symmetric elasticity, '
     'Cauchy strain/stress and elasticity shape-sensitivity terms returns for every element exactly the quadrature sum (or average, or point values) of its integrand in '
     'the symmetric-storage (11,22,33,12,13,23) engineering-strain convention, in residual, matrix and evaluation mode. Each element uses its own data in each quadrature point.',
     IN, 'all real field values (symmetric elasticity matrices for the sensitivity form), any number of elements and quadrature points, dimensions 1-3, all modes',
     'Tests use isotropic constant materials on small meshes; nothing exercises per-element anisotropic data in all modes.',
     [TC + 'terms_elastic.c', TC + 'form_sdcc.c'],
     [('element kernels', TC + 'terms_elastic.c'), ('strain operators', TC + 'form_sdcc.c')],
     ['return value and output array of each kernel'], technique=CT, note=CN)

prop('C03', 'Navier-Stokes and stabilization kernels integrate their weak forms',
     'For all basis values, gradients, Jacobians, coefficients and states, each compiled element kernel of the viscous, convective, linearized convective, divergence, gradient and '
     'SUPG/PSPG/grad-div stabilization terms returns for every element exactly the quadrature sum of its integrand, and its matrix mode is the derivative of the residual mode with respect to the unknown. '
     'Each element uses its own data in each quadrature point.',
     IN, 'all real field values, any number of elements and quadrature points, dimensions 1-3, all modes',
     'Tests solve a few flow problems; matrix errors only slow convergence and data mix-ups with constant coefficients stay invisible.',
     [TC + 'terms_navier_stokes.c'], [('element kernels', TC + 'terms_navier_stokes.c')],
     ['return value and output array of each kernel'], technique=CT, note=CN)

prop('C04', 'Adjoint-flow and shape-sensitivity kernels integrate their weak forms',
     'For all basis values, gradients, Jacobians, coefficients and states, each compiled element kernel of the adjoint Navier-Stokes terms, of the flow objective functions and of their shape sensitivities '
     'returns for every element exactly the quadrature sum of its integrand or, in matrix mode, the derivative of that sum. Each element uses its own data in each quadrature point.',
     IN, 'all real field values, any number of elements and quadrature points, dimensions 2-3, all modes',
     'The adjoint and sensitivity terms are hardly reached by the tests at all.',
     [TC + 'terms_adj_navier_stokes.c'], [('element kernels', TC + 'terms_adj_navier_stokes.c')],
     ['return value and output array of each kernel'], technique=CT, note=CN)

prop('C05', 'Hyperelasticity kernels: consistent stresses, tangents and weak forms',
     'For all admissible deformations and material data, each compiled hyperelastic kernel (total and updated Lagrangian) returns the kinematic quantities, stresses and element integrals of its constitutive law, '
     'and every tangent modulus is the exact derivative of the corresponding stress (pushed forward in the updated formulation). Each element uses its own data in each quadrature point.',
     IN, 'all real field values with positive Jacobian of the deformation, any number of elements and quadrature points, dimensions 2-3, all modes',
     'A wrong tangent only slows Newton convergence, so tests that look at converged solutions cannot see it.',
     [TC + 'terms_hyperelastic.c'], [('element kernels', TC + 'terms_hyperelastic.c')],
     ['return value and output array of each kernel'], technique=CT, note=CN)

D = 'sfepy/discrete/'
prop('C06', 'Reference element bases interpolate, sum to one and match their gradients',
     'On every reference element and approximation order evaluated by the compiled basis code, the Lagrange bases (simplex, tensor product, wedge of order 1, serendipity) equal one at their own node and zero at the others and sum to one everywhere; bubble functions vanish at the nodes, Bernstein bases sum to one, and the Lobatto bases are the vertex functions plus '
     'functions vanishing on the opposite entities. The returned gradients (and second derivatives where offered) are the exact derivatives of the returned values at every point, each evaluated point is treated independently, and a failed evaluation raises an error and leaves later evaluations unaffected.',
     IN, 'all points of the reference space, any number of points, all supported geometries, orders enumerated up to the limit stated per contract',
     'Tests evaluate the bases at a handful of points.',
     [D + 'fem/poly_spaces.py', D + 'fem/extmods/bases.pyx', D + 'fem/extmods/lagrange.c', D + 'fem/extmods/lobatto_bases.pyx', D + 'fem/extmods/lobatto.c'],
     [('evaluation kernels', D + 'fem/extmods/lagrange.c'), ('basis spaces', D + 'fem/poly_spaces.py')], ['basis evaluation'], technique=CT, note=CN)

prop('C07', 'Quadrature rules integrate polynomials up to their order exactly',
     'Every tabulated or generated quadrature rule requested for an order has at least that order and integrates every monomial up to it over its reference element exactly, up to the double-precision rounding of the table: total degree on simplices and wedges, the degree in each variable on lines, quadrilaterals, hexahedra and tensor products (total degree with full_order). '
     'Its points lie inside the closed element and its number of points agrees with its point and weight arrays. Symmetric and user-given rules are mapped affinely from their bounds, and an integral caches and returns the rule of its own geometry and order.',
     IN, 'all reference geometries, orders enumerated up to a limit per geometry stated in the evidence, all polynomials of the stated degree',
     'Tests sample a few polynomials and orders.', [D + 'integrals.py', D + 'quadratures.py'],
     [('tables', D + 'quadratures.py'), ('rule selection', D + 'quadratures.py QuadraturePoints.from_table()'), ('integrals', D + 'integrals.py Integral')],
     ['quadrature points and weights'], technique=PT, note=PN)

prop('C08', 'Global assembling equals the sum of element contributions',
     'For every connectivity (with negative entries for constrained DOFs, repeated DOFs and any element subset) and all element matrices or vectors, real and complex, assembling adds to the global vector or sparse matrix exactly the sum of the element contributions '
     'with non-negative rows and columns, multiplied by the given sign, and changes nothing else.',
     IN, 'all connectivities, element lists and contributions, any sorted sparsity pattern containing the connectivity',
     'Tests assemble regular meshes only.', [D + 'common/extmods/assemble.pyx'],
     [('assembling loops', D + 'common/extmods/assemble.pyx')], ['global vectors and CSR matrices'], technique=PT, note=PN)

prop('C09', 'DOF numbering and essential/periodic condition mapping are consistent',
     'For every set of essential and periodic boundary conditions the equation map partitions the DOFs into active, fixed and slave ones, so that expanding a reduced vector yields the prescribed values on fixed DOFs and equal values on DOFs linked, directly or through chains, by periodic conditions (a value prescribed on one of them holds on all of them; where several different values are prescribed, only the equality is required), and reducing it again gives the vector back.',
     ['inputs', 'configurations', 'histories'], 'all condition sets on all DOF layouts', 'Tests use a few fixed conditions.',
     [D + 'common/dof_info.py', D + 'variables.py'], [('equation map', D + 'common/dof_info.py')], ['full and reduced state vectors'], technique=PT, note=PN)

prop('C10', 'Region set operations obey set algebra',
     'Union, intersection and difference of regions on vertices, edges, faces, facets or cells select exactly the entities given by the set operation (parenthesized expressions as written, operators without parentheses grouped from the right); '
     'selectors (all, surface, groups, vertex sets, relations of coordinates, functions, lists of ids, references, copies) select exactly what they state, without repetitions; the entities of other dimensions, the numbers of entities, facet indices, characteristic functions and mirror maps are consistent with the region kind and its entities; '
     'empty regions are refused unless allowed. Region definitions are evaluated in an order that respects their dependencies, circular or missing ones are refused, defining a region does not change other regions, and blocks of equations are ordered by their dependencies.',
     IN, 'all entity sets of enumerated meshes, all coordinates in relations', 'Tests evaluate a fixed list of selectors.', [D + 'common/region.py', D + 'common/domain.py', D + 'parse_regions.py', 'sfepy/base/resolve_deps.py'],
     [('region operators', D + 'common/region.py'), ('selectors', D + 'common/domain.py')], ['entities of the resulting region'], technique=PT, level='exploration',
     note='Contracts on the real code executed with exact arithmetic; meshes and entity sets are enumerated (all subsets up to 16-32, otherwise seeded random ones): bounded, not counted as a proof for all meshes. Coordinates in relations are symbolic.')

prop('C11', 'Mesh connectivities are mutually consistent',
     'For every valid mesh the computed incidence relations between cells, faces, edges and vertices are exact: an entity is incident to another exactly when its vertices say so, entities of a cell are in the order of the geometry element, each entity is stored once, and relations are the same in whatever order they are requested or released. '
     'Orientation keys, surface facets, incident and complete entities of selections, local entity numbers and submeshes follow from the cells. Cells with a negative volume are reversed, others kept.',
     IN, 'all conforming meshes (enumerated, random numbering); all coordinates for the orientation', 'Tests use a few meshes.', [D + 'common/extmods/mesh.c', D + 'common/extmods/cmesh.pyx', D + 'common/extmods/meshutils.c'],
     [('connectivity computation', D + 'common/extmods/mesh.c')], ['mesh connectivities'], technique=PT.replace('Python', 'Cython and C'), level='exploration',
     note='Contracts on the real Cython and C code executed with checked memory; meshes are enumerated (seeded random numbering and order): bounded, not counted as a proof for all meshes. Coordinates of the orientation contract are symbolic.')

prop('C12', 'Element mappings give exact Jacobians, gradients, normals and volumes',
     'For all element coordinates, the cell mapping returns the Jacobian determinant times the quadrature weight (and refuses cells where it is not positive), the physical basis gradients, and the volumes that follow from the coordinates and the geometry basis; '
     'the facet mapping returns area elements, unit outward normals and gradients that belong to their quadrature points, so that surface integrals satisfy the divergence theorem. '
     'Physical quadrature points, mesh centroids and volumes agree with the same geometry, mapped integrals and averages use it, and flat elements embedded in a higher dimension are measured by an orientation-preserving isometry.',
     IN, 'all nodal coordinates with positive Jacobian and all quadrature weights; element types, orders, numbers of cells and points enumerated', 'Tests use a few shapes, mostly boxes, where pointwise mistakes cancel.',
     [D + 'fem/mappings.py', D + 'common/mappings.py', D + 'fem/fields_base.py', 'sfepy/linalg/utils.py', D + 'common/extmods/cmapping.pyx', D + 'common/extmods/mesh.c'],
     [('mapping evaluation', D + 'fem/mappings.py eval_mapping_data_in_qp()'), ('field mappings', D + 'fem/fields_base.py FEField.create_mapping()')], ['mapping data'], technique=PT, note=PN)

prop('C13', 'Dense small-matrix kernels compute their matrix formulas',
     'The compiled small dense array kernels (matrix products with all transpositions, sums, weighted level sums, fills, scalings, copies, sub-block additions, gathering of nodal values, application of basis functions, norms, determinants, inverses of regular matrices, symmetric storage conversions and products, traces, invariants) compute exactly their formulas in each cell and level for all values and numbers of cells and levels, and change only their output. Functions that nothing uses (eigenvalues, normalization, averaging over cells) are not included.',
     IN, 'all field sizes and values', 'Tests hardly call them directly.', [D + 'common/extmods/fmfield.c', D + 'common/extmods/geommech.c'],
     [('kernels', D + 'common/extmods/fmfield.c')], ['output arrays'], technique=CT, note=CN)

prop('C14', 'Elastic constants and tensor utilities convert consistently',
     'All conversions between elastic constants agree with the isotropic Hooke law from every admissible pair of constants, in each stress state, and the stiffness matrices and strain/stress tensor utilities (transformations, deviators, traces, von Mises, full/symmetric storage) satisfy their definitions.',
     IN, 'all admissible constants and tensors', 'Tests use a few numbers.', ['sfepy/mechanics/matcoefs.py', 'sfepy/mechanics/tensors.py'],
     [('conversions', 'sfepy/mechanics/matcoefs.py')], ['returned constants and arrays'], technique=PT, note=PN)

prop('C15', 'Time steppers visit the prescribed times and honour their bounds',
     'A fixed time stepper with two or more steps visits equidistant instants in order, from the initial time to exactly the final time; a variable time stepper advances by the set time steps and stops at the first instant not before the final time; step, time and normalized time stay consistent, also after restarts, sub-steps and rejected steps. Adaptive time stepping accepts or repeats a step by its rules, keeps the time step within its reduction bounds, and the time step controllers change the step within their minimum and maximum factors.',
     ['inputs', 'histories'], 'all time intervals, step counts and histories of accepted and rejected steps', 'Tests run single settings.',
     ['sfepy/solvers/ts.py', 'sfepy/solvers/ts_controllers.py'], [('steppers', 'sfepy/solvers/ts.py')], ['visited times'], technique=PT, note=PN)

prop('C16', 'Elastodynamics integrators satisfy their update formulas',
     'Each elastodynamic time integrator (velocity-Verlet, central difference, Newmark, generalized alpha, Bathe) advances displacement, velocity and acceleration by its defining update formulas, solves the discrete equation of motion at the state and time that its method prescribes with a tangent matrix that is the exact derivative, computes the initial acceleration from the equation of motion, repeats rejected steps from the same state with matrices of the current time step, and returns the last state, for all matrices, loads, parameters and initial conditions. The automatic transformation of equations keeps every term with its coefficient.',
     ['inputs', 'histories'], 'all system matrices, loads and parameters', 'Tests compare coarse trajectories.',
     ['sfepy/solvers/ts_solvers.py'], [('integrators', 'sfepy/solvers/ts_solvers.py')], ['state vectors'], technique=PT, note=PN)

prop('C17', 'Newton solver reports and accepts states only by its convergence rules',
     'The Newton and semi-smooth Newton solvers report success (condition 0) only when the residual of the returned vector meets the requested tolerances, report the error of the returned vector, and never exceed the iteration limit. A line search accepts a step only when the residual (or error estimate) decreases by the required factor, it is the first iteration, or the step is already below its minimum; every trial is the last accepted state minus a multiple of the solution of the linear system for the residual and the matrix of that state.',
     ['inputs', 'histories'], 'all residual functions', 'Tests solve a few problems that converge.',
     ['sfepy/solvers/nls.py', 'sfepy/solvers/semismooth_newton.py'], [('iteration loop', 'sfepy/solvers/nls.py')], ['returned vector and status'], technique=PT, note=PN)

prop('C18', 'Linear-combination constraints produce exactly their constrained subspace',
     'The full vectors made from the reduced vectors by the linear combination conditions satisfy the constraints the conditions stand for, and reach all vectors that satisfy them: infinitesimally rigid regions (rigid, also of some components only), '
     'motion of a region with a reference node (rigid2), the weighted mean motion of a region (average_force; the independent rotations are ignored), relative screw motion of two rigid regions (rigid_twist, 3D, all components, unit axis), no normal component '
     '(no_penetration), motion along the nodal normals or edge directions, a single common value (integral_mean_value), equal values in matching nodes with a shift (shifted_periodic, match_dofs), combinations of the DOFs of a node '
     '(nodal_combination) or of other nodes (multi_node_combination). All other DOFs stay free, essential and periodic conditions hold too, several conditions can be combined in disjoint regions. Nodal normals are the '
     'normalized sums of the unit outward normals of the facets sharing the node, nodal edge directions those of the tangents.',
     IN, 'all node coordinates, normals, weights, shifts and DOF values (enumerated meshes and regions)', 'Tests use a few problems.',
     [D + 'fem/lcbc_operators.py', D + 'fem/utils.py', 'sfepy/discrete/variables.py'],
     [('operators', D + 'fem/lcbc_operators.py'), ('normals and edge directions', D + 'fem/utils.py')], ['full vectors made from reduced vectors'], technique=PT, note=PN)

prop('C19', 'NURBS bases and Bezier extraction reproduce the spline space',
     'Bezier extraction of every open knot vector, together with the connectivity, gives the B-spline functions (Cox - de Boor) in every knot span, non-negative and with unit sum; tensor product elements and functions are in the C order. '
     'Bernstein bases and the (rational) NURBS bases with their derivatives with respect to reference and physical coordinates and the Jacobians are exact, in the compiled and Python versions, for unit and arbitrary weights, in all and in selected '
     'elements; values of variables and physical coordinates follow from them, also for patches evaluated in grids of parameters, knots included. Bezier control points and weights represent the same geometry. '
     'Corners, boundary regions, facets, facet points and degrees of Bezier elements belong together. Degree elevation (igakit) and files are not covered.',
     IN, 'all lengths of knot spans, points, weights, control points and DOFs (enumerated degrees, multiplicities and elements; in 3D control points and most weights fixed)', 'Tests use a few patches.',
     [D + 'iga/iga.py', D + 'iga/extmods/nurbs.c', D + 'iga/extmods/igac.pyx', D + 'iga/domain.py', D + 'iga/mappings.py'],
     [('extraction', D + 'iga/iga.py compute_bezier_extraction_1d()'), ('bases', D + 'iga/extmods/nurbs.c'), ('evaluation', D + 'iga/extmods/igac.pyx')],
     ['operators, basis values, gradients, coordinates'], technique=PT, note=PN)

prop('C20', 'Mesh generators and refinement create valid conforming meshes',
     'Block, voxel, cylinder, extended-block and tiled meshes have the requested vertices and cover exactly the requested region with conforming cells, for all dimensions, shapes and centres; splitting into simplices covers every cell exactly once. '
     'Uniform refinement of meshes and reference elements keeps the vertices, splits every cell into 2, 4 or 8 cells that cover it exactly once with vertices in the middles of its edges, faces and the cell, keeps cell groups, orientation and conformity, '
     'for all vertex coordinates and numberings of cells. Refinement with hanging nodes splits just the flagged cells, and its substitutions list every facet between coarse and fine cells with its parts in the fine cells. '
     'Extruded, revolved and mirrored meshes consist of positively oriented conforming cells with the right volumes of cell groups; the volume correction of smoothing keeps the volume.',
     IN, 'all dimensions, centres and vertex coordinates (enumerated shapes, connectivities, voxel patterns and flags)', 'Tests use a few sizes and compare with stored meshes.',
     ['sfepy/mesh/mesh_generators.py', 'sfepy/mesh/mesh_tools.py', D + 'fem/refine.py', D + 'fem/refine_hanging.py'],
     [('generators', 'sfepy/mesh/mesh_generators.py'), ('splitting, extrusion', 'sfepy/mesh/mesh_tools.py'), ('refinement', D + 'fem/refine.py'),
      ('hanging nodes', D + 'fem/refine_hanging.py')], ['mesh coordinates, connectivity, groups and substitutions'], technique=PT, note=PN)

prop('C21', 'Reference coordinates invert the element mapping',
     'For every physical point, the cell and the reference coordinates returned by the search (among given or potential cells, or walking through a convex mesh) map back to the point, whenever the status is not a failure: '
     'status 0 just for points in the returned cell (the first containing candidate), 1 and 2 for extrapolation from the closest candidate within and outside of the limit, 3 when extrapolation is not allowed, 5 without candidates. Points in cells are found. '
     'Fields are evaluated in reference coordinates as sums of the basis functions (or of their gradients w.r.t. physical coordinates) times the DOFs of the cell, zeros where the search failed; polynomials of the space are reproduced by evaluate_at() '
     'in all its modes, strategies and for complex values.',
     IN, 'all points and DOFs (enumerated cells and meshes; simplices exactly, tensor product cells and the walk bounded)', 'Tests probe a few points.',
     [D + 'common/extmods/refcoors.c', D + 'common/extmods/crefcoors.pyx', D + 'fem/extmods/lagrange.c', D + 'common/global_interp.py', D + 'common/fields.py'],
     [('search', D + 'common/extmods/refcoors.c'), ('inverse mapping', D + 'fem/extmods/lagrange.c'), ('evaluation', D + 'common/extmods/crefcoors.pyx'),
      ('strategies', D + 'common/global_interp.py')], ['cells, reference coordinates, status, values'], technique=PT, note=PN)

prop('C22', 'Contact residual and tangent follow from the gap function',
     'The shape functions of contact segments are the Lagrange ones and their derivatives are exact. The Gauss points lie in the deformed segments, the longest edge and the bounding box are those of the deformed contact surface and '
     'the linked cells contain every Gauss point once. A Gauss point gets the signed distance to the closest candidate segment of the other surfaces onto which it projects inside, with its parametric coordinates, and no segment otherwise. '
     'The residual is the integral of the penalty times the gap along the normal acting on the DOFs of the segment of the point, zero for points not in contact, and the tangent is the corresponding symmetric '
     'rank-one matrix of the two segments for each point, halved, as every pair of surfaces is visited from both sides. For bodies with flat interfaces in arbitrary positions the contact term gives forces along the normal, of the size given by the penetration, and its tangent is symmetric and of the stiffness of the approach.',
     IN, 'all coordinates, displacements, parameters and penalties (enumerated segments; curved segments and contact of two bodies bounded)', 'Tests run a single example.',
     ['sfepy/mechanics/extmods/contres.c', 'sfepy/mechanics/extmods/ccontres.pyx', 'sfepy/terms/terms_contact.py'],
     [('search, residual and tangent', 'sfepy/mechanics/extmods/contres.c'), ('interface', 'sfepy/mechanics/extmods/ccontres.pyx'), ('term', 'sfepy/terms/terms_contact.py')],
     ['gaps, segments, parameters, residual and tangent'], technique=PT, note=PN)

prop('C23', 'Discontinuous Galerkin bases, limiters, fluxes and time steps are as defined',
     'The Legendre bases on intervals, triangles and quadrangles are the orthogonal ones, complete, hierarchical, with exact derivatives, also in vertices, and the interpolation scheme written for gmsh represents them. '
     'minmod returns the argument of the smallest magnitude if all the signs agree and zero otherwise. The moment limiters keep cell means, treat every cell that has all its neighbours and no other, and replace the coefficients from the '
     'highest one by the minmod of the coefficient and of the (scaled) differences of the next lower one in the neighbours, until one is not changed; in 1D and order 1 the limited values in cell ends lie between the means of the neighbours and linear '
     'data are not changed. Inner and outer values and gradients (w.r.t. physical coordinates) on cell facets belong to the same physical points for all orientations of neighbours, with boundary conditions and periodic neighbours. The advection, diffusion, interior penalty and '
     'nonlinear Lax-Friedrichs fluxes are those of their definitions for all DOFs, and their matrices are the derivatives of the residuals. Functions of the space are reproduced by set_dofs(). The explicit Euler, TVD RK3 and RK4 steps follow '
     'their schemes for all operators and keep the time of the step.',
     IN, 'all points, DOFs, cell data, material values and operators (orders up to a limit, enumerated small meshes)', 'Tests use a few orders and zero states.',
     [D + 'dg/limiters.py', D + 'dg/poly_spaces.py', D + 'dg/fields.py', 'sfepy/terms/terms_dg.py', 'sfepy/solvers/ts_dg_solvers.py'],
     [('bases', D + 'dg/poly_spaces.py'), ('limiters', D + 'dg/limiters.py'), ('facet values', D + 'dg/fields.py'),
      ('fluxes', 'sfepy/terms/terms_dg.py'), ('explicit steps', 'sfepy/solvers/ts_dg_solvers.py')],
     ['basis values, limited states, facet values, residuals, matrices, states'], technique=PT, note=PN)

prop('C24', 'Mesh files round-trip', 'Writing a mesh with fields to a supported format and reading it back gives the same mesh and fields.',
     IN, 'all meshes and formats', 'Tests use a few files.', [D + 'fem/meshio.py'], [('mesh IO', D + 'fem/meshio.py')], ['files'],
     na='Every format goes through meshio, h5py and text formatting of doubles in external libraries; no contract over sfepy code alone expresses the round trip, and the external code is outside any deductive verifier here.')

prop('C25', 'Term and region expressions are parsed by their grammar',
     'Every well-formed term or region expression is parsed into the structure its grammar prescribes and every other input is rejected.',
     ['inputs', 'programs'], 'all strings', 'Tests parse a fixed list.', ['sfepy/terms/terms.py', 'sfepy/discrete/parse_regions.py', 'sfepy/discrete/parse_equations.py'],
     [('grammars', 'sfepy/discrete/parse_equations.py')], ['parsed structures'],
     na='The grammars are pyparsing objects: the recognizer is the external pyparsing engine interpreting combinators at run time, so there is no sfepy function body to put under a contract; string reasoning of that kind is out of reach of the installed verifiers.')

prop('C26', 'Distributed runs give the serial result',
     'Solving a problem distributed over processes gives the same solution as a serial run for any partition and message order.',
     ['schedules', 'configurations'], 'all partitions and schedules', 'Tests do not run MPI.', ['sfepy/parallel/parallel.py', 'sfepy/base/multiproc_proc.py'],
     [('partitioning', 'sfepy/parallel/parallel.py')], ['solution'],
     na='Needs mpi4py/petsc4py (not installed) and reasoning about message schedules, which contract-based deductive verification of single functions does not address.')

TM = 'sfepy/terms/'
prop('C27', 'Standard terms integrate their documented weak forms in every call mode',
     'For all states, parameters and material values, the standard terms (diffusion, elasticity, flow and their stabilizations, Biot, piezoelectric, dot products, traction, constraints, integrals over volumes and surfaces) '
     'evaluate to the integral of the weak form their documentation gives: the residual vector and the matrix of each element in the weak mode, the matrix being the derivative of the residual with respect to each unknown, '
     'and the value, the element values, averages and quadrature point values in the other modes, for scalar and tensor materials, optional arguments and different approximations of the variables. Evaluation does not change its arguments or the evaluation caches.',
     IN, 'all states, materials and parameters in every quadrature point; small meshes of several element types enumerated', 'Tests call each term with random or constant arguments and look only for errors.',
     [TM + 'terms.py', TM + 'terms_basic.py', TM + 'terms_dot.py', TM + 'terms_diffusion.py', TM + 'terms_elastic.py', TM + 'terms_navier_stokes.py', TM + 'terms_biot.py',
      TM + 'terms_piezo.py', TM + 'terms_surface.py', TM + 'terms_volume.py', TM + 'terms_constraints.py', TM + 'extmods/terms.pyx', 'sfepy/discrete/evaluate_variable.py', 'sfepy/discrete/variables.py'],
     [('term evaluation', TM + 'terms.py Term.evaluate()'), ('term arguments', TM + 'terms_*.py get_fargs(), get_eval_shape()')], ['values returned by Term.evaluate()'], technique=PT, note=PN)

prop('C28', 'Multilinear einsum terms integrate their documented weak forms',
     'The de_ terms evaluated through einsum expressions give the documented weak forms in all modes: residuals, matrices, total, element, average and quadrature point values, for all states and materials, and whatever the backend and operand layout.',
     IN, 'all states, materials and parameters in every quadrature point; small meshes, backends and layouts enumerated', 'Tests compare a few evaluations with the standard terms.',
     [TM + 'terms_multilinear.py', TM + 'terms_mass.py', TM + 'terms_flexo.py', TM + 'terms_sensitivity.py'],
     [('expression builder', TM + 'terms_multilinear.py ExpressionBuilder'), ('evaluation', TM + 'terms_multilinear.py ETermBase')], ['values returned by Term.evaluate()'], technique=PT, note=PN)

prop('C29', 'Hyperelastic terms: documented stresses, tangents their exact derivatives',
     'For all deformations with det F > 0, material parameters and pressures, the total and updated Lagrangian neo-Hookean, Mooney-Rivlin, bulk penalty, bulk pressure, active bulk, generalized Yeoh, Ogden, '
     'Saint Venant-Kirchhoff (symmetric stiffness), fibre and user function terms return the residual that follows from their documented stresses, and their matrices are the exact derivatives of '
     'that residual with respect to each unknown, in the current state and with the current material data whatever was evaluated before. The updated Lagrangian forms are the total Lagrangian ones moved to '
     'the current configuration. Volume, compressibility, deformation-dependent diffusion, surface traction, flux, surface volume and deformation gradient terms are their documented integrals '
     '(dw_ul_volume: the integral of J - 1 over the reference domain). Elements with nonpositive volume are refused. Not claimed: membrane terms, terms_jax; generalized Yeoh only for a positive reduced invariant '
     'and the exponents 1, 2, 3, 4, Ogden for alpha = 2, 3, 4, -2.',
     IN, 'all displacements, materials and pressures in every quadrature point; small meshes', 'Tests check convergence on sample problems only; wrong tangents only slow the convergence down.',
     [TM + 'terms_hyperelastic_base.py', TM + 'terms_hyperelastic_tl.py', TM + 'terms_hyperelastic_ul.py', TM + 'terms_fibres.py', TM + 'extmods/terms_hyperelastic.c'],
     [('families', TM + 'terms_hyperelastic_base.py HyperElasticFamilyData')], ['values returned by Term.evaluate()'], technique=PT, note=PN)

prop('C30', 'Sensitivity terms are the derivatives of the terms they differentiate',
     'The shape sensitivity terms equal the derivative of the corresponding term with respect to a motion of the mesh with any velocity field, the states moving with the mesh '
     '(ev_sd_lin_elastic for symmetric stiffness tensors; ev_sd_surface_integrate integrates p div V as documented; the force-vector variant of ev_sd_surface_ltr is not claimed).',
     IN, 'all states, materials and mesh velocities', 'Tests compare one finite difference of one mesh.',
     [TM + 'terms_dot.py', TM + 'terms_diffusion.py', TM + 'terms_elastic.py', TM + 'terms_adj_navier_stokes.py', TM + 'terms_sensitivity.py', TM + 'terms_piezo.py', TM + 'terms_surface.py'],
     [('sensitivity terms', TM + 'terms_sensitivity.py')], ['values returned by Term.evaluate()'], technique=PT, note=PN)

prop('C31', 'Variables: current, previous and time derivative values in every history',
     'A variable returns for step 0 the DOF values last set, for step -k the values k time steps back (the current ones in place of the previous ones in the initial step) and as the time derivative the backward difference with the '
     'current time step, after any sequence of setting data, advancing in time, changing the time step and evaluations; values and gradients evaluated in quadrature points are those of these DOF values, '
     'never outdated cached ones. The same holds for all operations on the state vector of several variables, which keep essential and periodic conditions where requested. A term with a previous value (u[-1]) or a time derivative (du/dt) '
     'of a state is the term with that vector in place of the current one.',
     ['inputs', 'histories'], 'all DOF values, time steps and histories (each operation from an arbitrary state and cache contents; history lengths 1 and 2)', 'Tests run single time stepping problems.',
     ['sfepy/discrete/variables.py', TM + 'terms.py', TM + 'terms_multilinear.py', TM + 'terms_elastic.py', TM + 'terms_navier_stokes.py'],
     [('DOF data and caches', 'sfepy/discrete/variables.py Variable, FieldVariable, Variables'), ('arguments', TM + 'terms.py Term.get(), get_vector()')], ['values of variables and terms'], technique=PT, note=PN)
