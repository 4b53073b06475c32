prop('A01', 'Small matrix algebra obeys the textbook identities',
 'For every 2x2 and 3x3 matrix and every vector, the product, transpose, determinant, trace, inverse, transposed products and the spin (cross-product) matrix return exactly what their textbook definition says, and an inverse times its matrix is the identity whenever the determinant is non-zero. The result does not depend on whether the raw-array or the matrix-class form of an operation is used.',
 'every matrix, vector and scalar (all reals)',
 'Unit tests multiply a few random matrices and compare within a tolerance; a wrong entry that is zero or small for the sampled matrices, or a wrong overload that no test calls, passes.',
 ['include/delfem2/mat3.h', 'include/delfem2/mat3.cpp', 'include/delfem2/mat2.h', 'include/delfem2/mat2.cpp', 'include/delfem2/mat3_funcs.h', 'include/delfem2/mat3_funcs.cpp'],
 [('matrix products, determinant, inverse', 'include/delfem2/mat3.cpp'), ('2x2 matrix class', 'include/delfem2/mat2.cpp')])
prop('A02', 'Homogeneous transforms and camera projections compose and invert',
 'For all translations, scales, rotations and cameras, 4x4 transforms act on points as stated, compose by matrix product, and the inverse functions really invert (affine and general), for every pivoting path. Perspective and orthographic projections map the view volume onto the clip cube with the stated depth range.',
 'every transform parameter and every invertible matrix (all reals), every pivot order',
 'Tests invert a handful of random matrices; which pivot order is taken, and special zero patterns, are not reached.',
 ['include/delfem2/mat4.h', 'include/delfem2/mat4.cpp', 'include/delfem2/cam_projection.h', 'include/delfem2/cam_modelview.h'],
 [('4x4 constructors, products and inverses', 'include/delfem2/mat4.cpp'), ('camera matrices', 'include/delfem2/cam_projection.h, include/delfem2/cam_modelview.h')])
prop('A03', 'Quaternion operations agree with rotations',
 'For every quaternion the product is the associative, norm-multiplicative Hamilton product and inverse and conjugate behave accordingly; for every unit quaternion rotating a vector, the rotation matrix, composition, axis-angle and Euler/Bryant construction, reading a quaternion back from a matrix (on every branch) and spherical interpolation all describe the same rotation.',
 'every quaternion, unit quaternion, vector, angle, axis order and interpolation parameter',
 'Tests sample random unit quaternions; the branch of matrix-to-quaternion conversion that is taken and the sign conventions are only touched where the samples land.',
 ['include/delfem2/quat.h', 'include/delfem2/quat.cpp', 'include/delfem2/mat3.h', 'include/delfem2/mat3_funcs.h'],
 [('quaternion functions', 'include/delfem2/quat.cpp'), ('matrix/quaternion conversion', 'include/delfem2/quat.cpp')])
prop('A04', 'Rotation constructors give proper rotations with the stated meaning',
 'Every rotation built from an axis-angle vector, Rodrigues vector, conformal rotation vector, Euler angles, a pair of directions or a normal is orthogonal with determinant one and rotates as stated, and reading the parameters back reproduces the rotation. The minimum rotation between two directions takes the first to the second, including opposite directions.',
 'every vector, direction pair and angle outside the documented singular set; every branch (small angle, opposite directions)',
 'Tests use random directions; the small-angle, parallel and antiparallel branches have measure zero and are never sampled.',
 ['include/delfem2/mat3_funcs.h', 'include/delfem2/mat3_funcs.cpp', 'include/delfem2/vec3_funcs.cpp', 'include/delfem2/mat3.cpp'],
 [('rotation constructors', 'include/delfem2/mat3_funcs.cpp'), ('frames', 'include/delfem2/vec3_funcs.cpp')])
prop('F01', 'Cloth and shell energies are consistent with their forces and Hessians',
 'For every rest triangle or hinge and every deformed position with non-zero area, the membrane energies equal the Saint-Venant-Kirchhoff energy of the Green-Lagrange strain and the bending energies equal the quadratic isometric bending energy, every returned gradient is the exact derivative of the returned energy or constraint, and the bending Hessian and the membrane Hessian under tensile stress are the exact second derivatives. Under compressive or mixed stress the membrane Hessian drops exactly the compressive part of the geometric stiffness (positive semi-definite projection of the stress). The rest-shape sensitivities are the exact derivatives of the residual, a flat hinge carries no bending energy or force, and the dihedral-angle constraint is the cosine of the angle between the two normals minus one; assembling a mesh adds the contribution of every element, and a cloth time step solves the backward Euler system and leaves fixed degrees of freedom in place.',
 'every non-degenerate rest and deformed triangle/hinge, every Lame parameter and stiffness (all reals)',
 'Tests compare with finite differences at random configurations under a loose tolerance; small or configuration-dependent errors, the stress-sign branches and the sensitivities pass.',
 ['include/delfem2/femcloth.cpp', 'include/delfem2/femcloth.h', 'include/delfem2/cloth_internal.h', 'include/delfem2/fem_stvk.cpp', 'include/delfem2/fem_stvk.h', 'include/delfem2/fem_quadratic_bending.cpp', 'include/delfem2/fem_discreteshell.cpp'],
 [('membrane energy', 'include/delfem2/fem_stvk.cpp'), ('quadratic bending', 'include/delfem2/fem_quadratic_bending.cpp'), ('dihedral constraint', 'include/delfem2/fem_discreteshell.cpp'), ('assembly and time step', 'include/delfem2/femcloth.h, include/delfem2/cloth_internal.h')])
prop('F02', 'Elastic rod strains, energies and frame derivatives are exact',
 'For every non-degenerate three-vertex rod with unit material directors, the bend and twist strain is the discrete Darboux vector (tan half-angle curvature binormal for frame-free rods), its derivatives by the vertices and by the twist angles are exact with the frames carried along by parallel transport, and every returned energy gradient is the exact derivative of the returned energy. The full Hessians are exact second derivatives and the approximate ones are the Gauss-Newton Hessians. Updating a material frame applies the twist and then the smallest rotation that takes the old tangent to the new one.',
 'every rod configuration with positive edge lengths that is not folded back on itself, every director, twist and stiffness (all reals)',
 'Finite-difference tests sample a few random frames with a tolerance; the coupling terms between twist and vertices are small there.',
 ['include/delfem2/fem_rod3_darboux.cpp', 'include/delfem2/fem_rod3_darboux.h', 'include/delfem2/fem_rod3_straight.cpp', 'include/delfem2/fem_rod2.cpp'],
 [('Darboux rod', 'include/delfem2/fem_rod3_darboux.cpp'), ('frame-free rod', 'include/delfem2/fem_rod3_straight.cpp'), ('2D rod', 'include/delfem2/fem_rod2.cpp')])
prop('F03', 'Solid, spring and deformation energies match their gradients and Hessians',
 'For every non-degenerate edge, triangle, tetrahedron, one-ring or hexahedron, the spring, conformal-parametrisation (MIPS), as-rigid-as-possible, Mooney-Rivlin and volume-compression energies equal their defining formula, the returned gradient is the exact derivative of the returned energy and the returned Hessian the exact derivative of that gradient; edge-length constraints come with exact derivatives. Symmetric eigen decomposition, singular value decomposition and the polar rotation of a 3x3 matrix rebuild the matrix from orthogonal factors, keeping the invariant at every Jacobi step; the deformation gradient of a tetrahedron maps rest edges to deformed edges, the derivative of the singular value decomposition and the stress and stress derivative built from it are exact, and the planar hyperelastic stress and elasticity tensor are derivatives of the energy. The as-rigid-as-possible Hessian is the exact linearisation of the energy with the best-fit rotations eliminated.',
 'every non-degenerate rest and deformed element, every unit rotation and material parameter (all reals)',
 'Finite-difference tests sample a few random elements, often close to the rest shape, under a loose tolerance: a term that vanishes there passes.',
 ['include/delfem2/fem_mips.cpp', 'include/delfem2/fem_distance3.cpp', 'include/delfem2/defarapenergy_geo3.cpp', 'include/delfem2/fem_invertiblefem.h', 'include/delfem2/svd3.cpp', 'include/delfem2/svd3.h', 'include/delfem2/geo_tet.cpp', 'include/delfem2/fem_solidhyper.cpp'],
 [('springs and edge constraints', 'include/delfem2/fem_distance3.cpp'), ('conformal energy', 'include/delfem2/fem_mips.cpp'), ('as-rigid-as-possible energy', 'include/delfem2/defarapenergy_geo3.cpp'), ('hyperelastic solids', 'include/delfem2/fem_solidhyper.cpp'), ('invertible elements', 'include/delfem2/fem_invertiblefem.h, include/delfem2/svd3.cpp')],
 note='That the Jacobi sweeps converge is not proved (each step keeps the invariant, the factors are rebuilt from a converged state); the invertible finite element energy end to end is checked by a declared bounded search only.')
prop('F04', 'Finite-element matrices are the exact integrals of their weak forms',
 'For every element of positive measure, the shape functions, mass, Laplacian, Poisson, diffusion, Helmholtz, radiation, beam, linear-solid (linear and quadratic triangle/tetrahedron, rectangle, parallelepiped), plate (DKT, MITC3), Stokes and Navier-Stokes element matrices equal the exact integrals of their weak form, with the time-stepping combination M + (gamma dt or beta dt^2) K, and the residual is the load minus that operator applied to the current state. Plate elements reproduce constant curvature and balance forces; matrices that are accumulated are added to, not mixed with, what was there, and assembling a mesh adds the contribution of every element to its own rows, columns and residual entries.',
 'every element of positive area/volume, every material, time-step and state (all reals)',
 'Tests solve a few problems on generated meshes, or do not call the function at all; a wrong coefficient in one block, branch or term is invisible there.',
 ['include/delfem2/femutil.h', 'include/delfem2/femutil.cpp', 'include/delfem2/fem_poisson.cpp', 'include/delfem2/fem_helmholtz.cpp', 'include/delfem2/fem_beam2.h', 'include/delfem2/fem_solidlinear.cpp', 'include/delfem2/fem_solidlinear.h', 'include/delfem2/fem_stokes.cpp', 'include/delfem2/fem_navierstokes.cpp', 'include/delfem2/fem_dkt.cpp', 'include/delfem2/fem_mitc3.cpp', 'include/delfem2/fem_mitc3.h', 'include/delfem2/fem_poisson.h', 'include/delfem2/fem_helmholtz.h', 'include/delfem2/fem_stokes.h', 'include/delfem2/fem_navierstokes.h'],
 [('shape functions and mass', 'include/delfem2/femutil.cpp'), ('linear solid', 'include/delfem2/fem_solidlinear.cpp'), ('fluids', 'include/delfem2/fem_stokes.cpp, include/delfem2/fem_navierstokes.cpp'), ('plates', 'include/delfem2/fem_dkt.cpp, include/delfem2/fem_mitc3.cpp'), ('assembly', 'include/delfem2/fem_solidlinear.h, include/delfem2/fem_poisson.h')],
 note='The stabilisation parameter of the fluid elements is read back from the pressure block (only its sign is specified); the transverse shear stiffness of MITC3 is taken with the factor 4 the code uses; quadrature literals are read as the nearest simple closed form (DESIGN.md).')
prop('F07', 'Position-based dynamics predicts, projects and updates as stated',
 'For every state, prediction moves free points by dt times velocity plus dt squared times gravity and leaves fixed points in place, and the velocity update is the displacement over dt. Projecting a constraint moves only its own points, by minus the relaxation ratio times the mass-weighted constraint gradient step that solves the linearised constraint; triangle-strain and hinge-bending passes visit every element once with unit masses, keep the centroid of what they move, and seam ends step 0.005 towards each other or meet at their midpoint when closer than 0.01. Shape matching in 2D and 3D blends towards the centroid plus the optimally rotated rest shape, where the rotation is the orthogonal polar factor, and a rigidly moved cluster stays where it is.',
 'every point position, velocity, mass, gradient, ratio and time step (all reals), every fixed-point pattern of the enumerated sizes',
 'Tests run a few simulation steps and look at nothing but the absence of crashes, or do not call the function at all.',
 ['include/delfem2/pbd_geo3.cpp', 'include/delfem2/pbd_geo3.h', 'include/delfem2/pbd_stvk.h', 'include/delfem2/pbd_bending_for_dtri.cpp', 'include/delfem2/mat2.cpp'],
 [('prediction, projection and update', 'include/delfem2/pbd_geo3.cpp'), ('strain and bending constraints', 'include/delfem2/pbd_stvk.h, include/delfem2/pbd_bending_for_dtri.cpp'), ('polar rotation of 2x2 matrices', 'include/delfem2/mat2.cpp')],
 note='The 3D polar rotation is taken by its contract (F03); the whole 3D step is also run as a declared bounded search; meshes and clusters are small concrete ones with symbolic coordinates.')
prop('C01', 'Bezier, B-spline and Catmull-Rom curves evaluate and measure as defined',
 'For every control polygon and parameter, Bezier curves follow the Bernstein form with tangents as derivatives, both halves of a split retrace the curve, polylines sample it uniformly from end to end, the area is the swept integral, the closed-form arc length of a quadratic curve grows at the speed of the curve, quadrature lengths are the stated Gauss sums, and bounding boxes contain the curve and touch it on every side. B-spline weights follow the Cox-de Boor recursion for the open uniform or the given knots, are non-negative, sum to one, join with C1 (quadratic) or C2 (cubic) continuity and interpolate the end points, with the derivative curve the exact derivative. Catmull-Rom curves are Hermite segments with central-difference tangents through all control points.',
 'every control point, knot spacing and parameter in range (all reals), all knot patterns of the enumerated segment counts and degrees 1 to 5',
 'Tests compare a few random curves with sampling within a tolerance; boundary segments, turning points outside the interval, collinear control points and exact knot parameters are rarely or never hit.',
 ['include/delfem2/geo_curve_quadratic.h', 'include/delfem2/geo_curve_cubic.h', 'include/delfem2/geo_curve_ndegree.h'],
 [('quadratic curves', 'include/delfem2/geo_curve_quadratic.h'), ('cubic curves', 'include/delfem2/geo_curve_cubic.h'), ('curves of any degree', 'include/delfem2/geo_curve_ndegree.h')],
 note='Adaptive-subdivision lengths and boxes of degenerate (straight, constant, monotone) curves are checked by declared bounded searches only; a cubic with real turning points is parametrised by them.')
prop('C02', 'Polynomial roots are isolated and nearest points on curves are nearest',
 'In exact arithmetic, for every polynomial the Sturm chain is the chain of negated remainders (closed forms up to positive factors), its sign changes count the real roots to the right of a point, isolating intervals contain exactly one root each and miss none, bisection returns the root to the interval length halved per step (also when a midpoint or an end is the root), and linear and quadratic roots in a range are exactly those that exist. The sampled-Newton nearest point lies on the curve, is never farther than any sample, moves by Newton steps of the squared distance and stays finite; on a line the Sturm search returns the exact foot point or end. Plane intersections reported for a cubic curve are on the plane.',
 'every coefficient, root, interval, control point and query (all reals), Sturm chains up to degree five',
 'Tests draw random coefficients, so roots at midpoints or interval ends, repeated roots, vanishing leading coefficients and symmetric configurations never occur.',
 ['include/delfem2/polynomial_root.h', 'include/delfem2/geo_curve_quadratic.h', 'include/delfem2/geo_curve_cubic.h'],
 [('Sturm chains and bisection', 'include/delfem2/polynomial_root.h'), ('nearest points', 'include/delfem2/geo_curve_quadratic.h, include/delfem2/geo_curve_cubic.h')],
 note='Isolation is decided for two roots on a grid with any scale; the Sturm-based nearest point of curved segments and B-splines and the winding number are checked by declared bounded searches only.')
prop('A05', 'Small vector algebra and 2D triangle measures obey their definitions',
 'For every 2D and 3D vector, addition, scaling, division, dot and cross product, length, normalisation, comparison and rotation return what their definition says, also when operands and result are the same object. The area, height, circumcentre, circumradius and Delaunay relation of a 2D triangle and a fourth point, the crossing point of two lines and the mass matrix of a triangle agree with their geometric definition.',
 'every vector, scalar, angle and non-degenerate triangle (all reals)',
 'Most operators are only used inside other tests; several functions are instantiated by no test at all.',
 ['include/delfem2/vec2.h', 'include/delfem2/vec2.cpp', 'include/delfem2/vec3.h', 'include/delfem2/vec3_funcs.h', 'include/delfem2/vec3_funcs.cpp'],
 [('2D vectors', 'include/delfem2/vec2.h, include/delfem2/vec2.cpp'), ('3D vectors', 'include/delfem2/vec3.h, include/delfem2/vec3_funcs.cpp')])
prop('F05', 'Quadrature rules and element tables are exact',
 'Every Gauss and Gauss-Kronrod rule and every triangle and tetrahedron rule has positive-measure weights that sum to the measure of its domain and integrates exactly every polynomial up to its stated degree. The element tables (nodes, faces and edges per element type) describe closed, consistently outward oriented boundaries in which every edge and face appears as the topology of the element requires.',
 'every rule of the tables, every monomial up to the stated degree, every table entry',
 'Tests integrate one or two functions with some of the rules under a loose tolerance and never look at the element tables.',
 ['include/delfem2/quadrature.h', 'include/delfem2/mshelm.h'],
 [('quadrature tables', 'include/delfem2/quadrature.h'), ('element tables', 'include/delfem2/mshelm.h')],
 note='Tables are finite: every entry is decided; literals of the triangle rules are compared with tolerance 1e-9.')
prop('G01', 'Nearest points, projections and measures of simple shapes are right',
 'For every point, line, edge, plane, circle, triangle, quad and tetrahedron in general position the reported nearest point lies on the shape, carries the reported parameter, and no point of the shape is nearer; nearest points of two lines or edges are mutually nearest, including parallel and overlapping ones. Ray-triangle and line-plane intersections are found exactly when they exist and barycentric coordinates reproduce the point. Areas, volumes, normals, inertia tensors, solid angles and deformation gradients equal their defining integral or formula.',
 'every query point and shape outside the stated degenerate sets (all reals), every branch (inside, beyond each end, each side, parallel)',
 'Tests draw random shapes and compare with sampling within a tolerance; parallel, in-plane and boundary branches are never drawn, and several functions are not called.',
 ['include/delfem2/geo_line.h', 'include/delfem2/geo_edge.h', 'include/delfem2/geo_plane.h', 'include/delfem2/geo_tri.h', 'include/delfem2/geo_quad.h', 'include/delfem2/geo_tet.h', 'include/delfem2/geo_tri.cpp', 'include/delfem2/geo_quad.cpp', 'include/delfem2/geo_tet.cpp'],
 [('edges and lines', 'include/delfem2/geo_edge.h, include/delfem2/geo_line.h'), ('triangles', 'include/delfem2/geo_tri.h'), ('quads and tetrahedra', 'include/delfem2/geo_quad.h, include/delfem2/geo_tet.h')],
 note='Contact of crossing edges (distance zero) and the composed exterior branch of the nearest triangle point are also run as declared bounded checks.')
prop('G02', 'Intersection and continuous collision tests report exactly the contacts',
 'Two plane edges, an edge and a box, a point set and the padded origin, and two triangles of a mesh are reported as intersecting whenever a common point exists with margin and never when a separating line or plane exists; the reported distance, intersection points and parameters are right. The time at which four linearly moving points are coplanar is a root of the volume polynomial in the step and is found whenever the volume changes sign or the polynomial has a root it must report, and a vertex passing through a fixed face is reported exactly when it passes inside it. The edge-edge iteration is the Newton step of the squared distance and stays in range.',
 'every configuration with margin from exact touching (all reals), every branch of the cubic, quadratic and linear cases',
 'Tests use random triangles, where vertices on planes, shared vertices, double roots and vanishing leading coefficients never occur; most of these functions have no test.',
 ['include/delfem2/geo_ccd.h', 'include/delfem2/geo_ccd.cpp', 'include/delfem2/geo_aabb.h', 'include/delfem2/geo_edge.h', 'include/delfem2/geo_tri.h', 'include/delfem2/geo_tri.cpp'],
 [('continuous collision', 'include/delfem2/geo_ccd.h'), ('boxes', 'include/delfem2/geo_aabb.h'), ('edges', 'include/delfem2/geo_edge.h'), ('triangle pairs', 'include/delfem2/geo_tri.h')],
 note='The iterated bisection and the composition of the stubbed collision steps are also run as declared bounded checks; the contact test of a vertex and a moving face is claimed for a fixed face and for separated motion.')
prop('G03', 'Polylines and polygons are measured, sampled and resampled consistently',
 'For every polyline the length, centroid, bounding box, winding, position at a parameter, tangent, nearest point and arc length agree with each other, and resampled points lie on the polyline at the requested spacing along it, around corners too. For every polygon the signed area, centroid and second moments are the area integrals, point inclusion has the parity of the enclosing triangles, orientation fixing makes outer loops counter-clockwise and holes clockwise, resampling splits every edge evenly into the fewest parts within the limit and keeps every point and loop, and smoothing follows the closed quadratic B-spline.',
 'every coordinate, query and spacing (all reals) for two to five points; every listed loop arrangement',
 'Tests use one or two fixed polylines and convex shapes; corners, repeated points, vertices level with the query, several loops and isotropic sections are not reached.',
 ['include/delfem2/geo_polyline.h', 'include/delfem2/geo_polygon2.h', 'include/delfem2/geo_polygon2.cpp', 'include/delfem2/geo_polyline.cpp'],
 [('polylines', 'include/delfem2/geo_polyline.h'), ('polygons and loops', 'include/delfem2/geo_polygon2.h')],
 note='Loops are unrolled for two to five points; boundary validity of loops with holes is a declared bounded check.')
prop('L01', 'Block sparse matrices are assembled and multiplied exactly',
 'For every sparsity pattern, block size and value, the stored matrix acts as its dense counterpart: products and transposed products with any scale factors, element assembly (square, rectangular and scalar blocks, differing row and column lists), diagonal additions, scaling, copying and the symmetry measure change or read exactly the intended entries. Fixed boundary conditions clear exactly the fixed rows and columns and put the given diagonal, and master-slave constraints give the reduced matrix, right-hand side and displacement of the constrained system.',
 'every value and scale factor (all reals); every pattern of three blocks, listed patterns of four and five, block sizes one to six',
 'Tests assemble one or two meshes and solve; block sizes beyond the specialised ones, non-symmetric patterns, differing row and column lists and copies are not reached.',
 ['include/delfem2/ls_block_sparse.h', 'include/delfem2/ls_block_sparse.cpp', 'include/delfem2/ls_masterslave.cpp', 'include/delfem2/ls_masterslave.h'],
 [('block sparse matrix', 'include/delfem2/ls_block_sparse.h, include/delfem2/ls_block_sparse.cpp'), ('master-slave constraints', 'include/delfem2/ls_masterslave.cpp')],
 note='Loops over blocks are unrolled for the enumerated numbers of blocks.')
prop('L02', 'Direct and incomplete factorisations solve and precondition correctly',
 'For every value with pivots away from zero, the block tridiagonal and block pentadiagonal factorisations solve their systems exactly, also with fixed degrees of freedom. The incomplete LU factorisation reproduces the matrix on its pattern, its forward and backward substitutions invert the factors, level-k fill keeps exactly the entries whose fill level is at most k, and with complete fill the preconditioner is the exact inverse.',
 'every matrix value with admissible pivots and every right-hand side (all reals); every pattern of three blocks, symmetric patterns of four, block sizes one to six',
 'Tests factor a few diagonally dominant matrices; the fill pattern, block sizes with own code paths, boundary conditions and empty rows are not reached.',
 ['include/delfem2/ls_ilu_block_sparse.h', 'include/delfem2/ls_ilu_block_sparse.cpp', 'include/delfem2/ls_tridiagonal.h', 'include/delfem2/ls_pentadiagonal.h'],
 [('incomplete LU', 'include/delfem2/ls_ilu_block_sparse.cpp'), ('tridiagonal', 'include/delfem2/ls_tridiagonal.h'), ('pentadiagonal', 'include/delfem2/ls_pentadiagonal.h')],
 note='Pivots have to stay away from zero by the absolute thresholds of the code; blocks of four and five with a chain of three take positive pivots.')
prop('L03', 'Krylov solvers keep true residuals and converge in exact arithmetic',
 'For every regular system, conjugate gradients, preconditioned conjugate gradients, BiCGSTAB with and without preconditioner and their complex counterparts keep the residual vector equal to right-hand side minus matrix times solution after every iteration, report its norm relative to the start, and stop when it is below the tolerance; conjugate gradients solve a symmetric system of size n after n iterations. An exact first half step and a zero right-hand side are no breakdown. The vector operations beneath, real and complex, are the ones their names state.',
 'every matrix, right-hand side and preconditioner (all reals) of the enumerated sizes for which the search directions do not break down; one to three iterations',
 'Tests solve one or two well-conditioned systems; a wrong recurrence that still converges, the complex variants and exact convergence at a half step are not reached.',
 ['include/delfem2/vecxitrsol.h', 'include/delfem2/vecxitrsol.cpp', 'include/delfem2/lsitrsol.h', 'include/delfem2/view_vectorx.h', 'include/delfem2/ls_solver_block_sparse.h', 'include/delfem2/ls_solver_block_sparse_ilu.h', 'include/delfem2/ls_ilu_block_sparse.cpp'],
 [('Krylov solvers', 'include/delfem2/lsitrsol.h, include/delfem2/vecxitrsol.h'), ('vector operations', 'include/delfem2/vecxitrsol.cpp, include/delfem2/view_vectorx.h')],
 note='Iterations are unrolled (up to three) for systems of up to three unknowns; search directions are assumed regular.')
prop('S01', 'Bounding volume hierarchies enclose, cover and answer queries exactly',
 'For every set of objects the hierarchy, built from sorted Morton codes or top-down, places each object in exactly one leaf with consistent parents and children, and each volume encloses the volumes of its children. A query that prunes by volume (predicate, ray, range or nearest point) returns exactly what its children return together, so nothing that a full scan would report is lost.',
 'every position, margin, volume and query (all reals); every child answer by induction over the tree; every prefix-tree shape up to seven objects',
 'Tests compare a few random clouds with brute force; single objects, equal codes or centres, and leaf makers that keep a stale volume are not reached.',
 ['include/delfem2/srch_bvh.h', 'include/delfem2/srch_bvh.cpp', 'include/delfem2/srch_bv3_aabb.h', 'include/delfem2/srch_bv3_sphere.h', 'include/delfem2/srch_bv2_aabb.h'],
 [('topology', 'include/delfem2/srch_bvh.cpp'), ('geometry and queries', 'include/delfem2/srch_bvh.h'), ('volumes', 'include/delfem2/srch_bv3_aabb.h, include/delfem2/srch_bv3_sphere.h')],
 note='Queries are proved by induction over the tree (a recursive call replaced by its own contract); topologies are enumerated up to six or seven objects.')
prop('S02', 'Bounding volumes are correct sets and k-d trees find the nearest object',
 'Boxes and spheres in two and three dimensions are unions, extensions and tests of the sets they denote: a union contains both parts and is the smallest, an inclusion, intersection or distance answer is the one of the set. The k-d trees of points and of triangles keep every object on its side of the splitting plane and find the nearest one for every query.',
 'every box, sphere, point, ray and query (all reals); every search subtree by induction',
 'Tests sample points in a box or compare with brute force; inactive boxes, equal sides, pruning with the wrong bound and stale candidates are only met by luck.',
 ['include/delfem2/srch_bv3_aabb.h', 'include/delfem2/srch_bv3_sphere.h', 'include/delfem2/srch_bv2_aabb.h', 'include/delfem2/srch_kdtree.h', 'include/delfem2/srch_kdtree_tri.h'],
 [('boxes and spheres', 'include/delfem2/srch_bv3_aabb.h, include/delfem2/srch_bv3_sphere.h, include/delfem2/srch_bv2_aabb.h'), ("k-d trees", "include/delfem2/srch_kdtree.h, include/delfem2/srch_kdtree_tri.h")],
 note='Search and construction steps of the trees are proved by induction; distances are assumed below the initial bound of the code.')
prop('T01', 'Mesh adjacency and jagged arrays are exactly those of the connectivity',
 'For every connectivity, the jagged arrays of elements around a point, points around a point, edges, neighbours across a face, boundary faces, connected components and groups, and the conversions between element kinds list exactly the incidences of the given elements, each once and in the documented order, also when the output arrays held something before. Pairs of elements are adjacent if and only if they share the face.',
 'every connectivity of the enumerated families (triangles, quads, tetrahedra, hexahedra, mixed elements, polygons), every numbering and rotation enumerated, every symbolic index into the result',
 'Tests build the adjacency of one or two meshes and check sizes; reused outputs, boundary and isolated points, repeated corners and the tables of the rarer elements are not reached.',
 ['include/delfem2/jagarray.h', 'include/delfem2/jagarray.cpp', 'include/delfem2/msh_topology_uniform.h', 'include/delfem2/msh_topology_uniform.cpp', 'include/delfem2/msh_topology_mix.h', 'include/delfem2/msh_topology_mix.cpp', 'include/delfem2/mshelm.h'],
 [('jagged arrays', 'include/delfem2/jagarray.cpp'), ('adjacency', 'include/delfem2/msh_topology_uniform.cpp, include/delfem2/msh_topology_mix.cpp'), ('element tables', 'include/delfem2/mshelm.h')],
 note='Connectivities are enumerated (up to four elements for pairs, small meshes beyond); loops are unrolled for them.')
prop('T02', 'Dynamic triangle meshes stay valid through every edit',
 'Inserting a point into a face or an edge, flipping, collapsing and deleting, alone and one after the other, keep a dynamic triangle mesh valid: neighbours are mutual, every used point knows one of its triangles, and the triangles are exactly the expected ones. Delaunay flips around a point end in a valid mesh for every answer of the circle test; constrained edges are found and enforced, smoothing and insertion turn no triangle over, and deleted points leave the others unchanged.',
 'every patch of the enumerated families and every triangle, edge and point in it; every position of the points (all reals) where geometry decides; every answer of the Delaunay test',
 'Tests run one meshing and check the result with the library own checker; edits at the boundary, of small closed surfaces, in sequence and with unused points are not reached.',
 ['include/delfem2/dtri_topology.h', 'include/delfem2/dtri_topology.cpp', 'include/delfem2/dtri2_v2dtri.h', 'include/delfem2/dtri2_v2dtri.cpp', 'include/delfem2/dtri3_v3dtri.h', 'include/delfem2/dtri3_v3dtri.cpp'],
 [('edits', 'include/delfem2/dtri_topology.cpp'), ('planar meshes', 'include/delfem2/dtri2_v2dtri.cpp'), ('surfaces in space', 'include/delfem2/dtri3_v3dtri.cpp')],
 note='Patches around the edited place are enumerated (discs and closed surfaces of up to twelve triangles); the whole meshing of a polygon is only run (bounded).')
prop('M01', 'Mesh normals, measures, bounding boxes and transforms are exact',
 'For every mesh, vertex normals are the normalised sum of the element normals (weighted as documented), centres of gravity, lumped areas and masses, solid angles and quality measures are the exact geometric quantities of the elements, and bounding boxes contain every point and are tight, for all points, a subset or a group. Translating, rotating, scaling and normalising move every point as stated and nothing else; removing unreferenced points and merging meshes keep every element on the same positions.',
 'every position of the points (all reals), every flag, subset and group of the enumerated meshes',
 'Tests check one or two loaded meshes; meshes with unused points, groups, other element types, negative volumes or obtuse solid angles are not sampled.',
 ['include/delfem2/msh_normal.cpp', 'include/delfem2/msh_center_of_gravity.cpp', 'include/delfem2/msh_boundingbox.cpp', 'include/delfem2/msh_affine_transformation.cpp', 'include/delfem2/mshmisc.cpp'],
 [('normals', 'include/delfem2/msh_normal.cpp'), ('centres and masses', 'include/delfem2/msh_center_of_gravity.cpp, include/delfem2/mshmisc.cpp'), ('bounding boxes', 'include/delfem2/msh_boundingbox.cpp'), ('transforms', 'include/delfem2/msh_affine_transformation.cpp')],
 note='Meshes of up to four elements are enumerated; the loops over points and elements are unrolled for them.')
prop('M02', 'Primitive and subdivided meshes and analytic shapes are right',
 'Grids, cubes, spheres, disks, cylinders, capsules, tori and the icosahedron are meshed with the stated numbers of elements, with every point on the surface, as closed (or correctly bordered) consistently oriented surfaces that face outwards. Subdividing quads, tets or hexes and extruding triangles gives conforming meshes of the same orientation with one new point per edge, face or cell, at the stated (linear or Catmull-Clark) position. Signed distance, outward normal, inside test and line intersection of the analytic plane, sphere, cylinder, torus and box agree with their geometry.',
 'every radius, length and position (all reals); every number of divisions and connectivity of the enumerated families',
 'Tests mesh one or two sizes and check the number of points; orientation, the border cases of the division numbers, shared edges numbered in another order, and points on the far side of a shape are not sampled.',
 ['include/delfem2/msh_primitive.cpp', 'include/delfem2/msh_primitive.h', 'include/delfem2/mshsubdiv.cpp', 'include/delfem2/mshmisc.cpp', 'include/delfem2/isrf_sdf.h'],
 [('primitive meshes and shapes', 'include/delfem2/msh_primitive.cpp'), ('subdivision', 'include/delfem2/mshsubdiv.cpp'), ('extrusion', 'include/delfem2/mshmisc.cpp')],
 note='Division numbers (up to about six) and connectivities (up to six elements) are enumerated; radii, lengths and coordinates are arbitrary.')
prop('N01', 'Mesh, image, cad and text files are read back as written',
 'Reading a file written by the library reproduces the mesh, image or drawing, and malformed files are refused without reading out of bounds.',
 'every file content', 'Tests read a handful of model files.',
 ['include/delfem2/msh_io_obj.cpp', 'include/delfem2/msh_io_ply.cpp', 'include/delfem2/msh_io_misc.cpp', 'include/delfem2/img_ioppm.cpp', 'include/delfem2/cad2_io_dxf.cpp', 'include/delfem2/cad2_io_svg.cpp', 'include/delfem2/str.cpp'],
 [('readers and writers', 'include/delfem2/msh_io_obj.cpp, include/delfem2/msh_io_ply.cpp')],
 na='The functions are iostream and FILE code: their meaning lives in the C++ stream library, formatted conversion and the file system, which the verifier has no contracts for; assuming contracts for all of them would leave nothing of the property to prove.')
prop('N02', 'Volume meshing and iso-surface extraction give valid meshes of the shape',
 'Tetrahedral Delaunay meshing, iso-surface stuffing, adaptive distance fields and surface extraction return valid meshes that approximate the given shape.',
 'every input shape and element size', 'Tests run one shape and check the size of the output.',
 ['include/delfem2/dtet_v3.cpp', 'include/delfem2/isrf_iss.cpp', 'include/delfem2/isrf_adf.cpp'],
 [('stuffing', 'include/delfem2/isrf_iss.cpp'), ('tetrahedral Delaunay', 'include/delfem2/dtet_v3.cpp')],
 na='Termination and quality are global properties of an unbounded search over a lattice or a cavity; no invariant within reach of loop-unrolled or inductive contracts over these data structures states them, and single steps alone do not imply the property.')
prop('N03', 'Drawing and interaction show the current state',
 'The OpenGL drawers, cameras bound to a window, gizmos and viewers show the given mesh and react to mouse and keyboard.',
 'every scene and event sequence', 'No test opens a window.',
 ['include/delfem2/opengl', 'include/delfem2/glfw', 'include/delfem2/gizmo_geo3.cpp'],
 [('drawers', 'include/delfem2/opengl')],
 na='The observable result is the contents of a window produced by the OpenGL driver and GLFW; there is no specification of those calls the deductive verifier could check a caller against, and no display here.')
prop('N04', 'Rounding errors stay within a usable tolerance',
 'In double and single precision every function keeps its result within a small relative error of the exact one away from ill-conditioned inputs.',
 'every floating-point input', 'Tests compare at a few well-conditioned inputs.',
 ['include/delfem2/mat3.cpp', 'include/delfem2/ls_ilu_block_sparse.cpp', 'include/delfem2/polynomial_root.h'],
 [('all numerical kernels', 'include/delfem2')],
 na='All contracts here are over exact real arithmetic. A useful error bound needs a conditioning analysis per function and a floating-point back end (none of the installed provers handles these polynomial degrees in IEEE arithmetic), so it is stated as an assumption of every other property instead of being claimed.')
