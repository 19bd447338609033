"""Source of properties.jsonl and MANIFEST.json (python tools/props.py writes both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'newt/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or []),
                  _tech=tech, _note=note, _na=na))


p('P01', 'Point-mass gravity obeys Newton and superposition',
  'For any two collections of point masses that share no position, the computed gravitational force and the torque about the origin on the first equal the sum over all pairs of G m1 m2 r/|r|^3 and of its moment about the origin. The result is the same whether a collection is given as a single row or as an N-row array, is additive when a collection is split, and the force is equal and opposite when the roles are exchanged.',
  ['inputs'], 'all pairs of point arrays (1 to many points, any sign of mass, any position, single-row or matrix form, integer or float) without coincident points',
  'The tests use a handful of fixed symmetric configurations; the law must hold for arbitrary positions, counts, signs and array forms.',
  [N+'glib.py', N+'constants.py'], [('pairwise force and torque sums', 'newt/glib.py:gmmr2_array, point_matrix_gravity')],
  ['return values of gmmr2_array and point_matrix_gravity'],
  'property-based testing against a high-precision pairwise reference, plus metamorphic relations (split, swap, permute, scale)')

p('P02', 'Point-mass Yukawa force follows from its potential',
  'For any two collections of point masses sharing no position, any coupling alpha and any length scale lambda > 0, the computed Yukawa force and torque equal the pairwise sums of alpha G m1 m2 (1 + r/lambda) exp(-r/lambda) r/|r|^3, for single-row and N-row inputs alike. The force is linear in alpha, equal and opposite under exchange, and tends to alpha times the Newtonian force as lambda grows without bound.',
  ['inputs'], 'all point arrays, couplings (both signs, zero) and length scales over many decades',
  'The tests try a few configurations with alpha = lambda = 1 style constants, so most of the dependence on alpha, lambda and array form is unexercised.',
  [N+'glib.py'], [('Yukawa pair force', 'newt/glib.py:yukawa_array, point_matrix_yukawa')],
  ['return values'], 'property-based testing against a high-precision pairwise reference and the potential gradient')

p('P03', 'Translating and rotating point arrays are rigid motions',
  'Translating a point array adds the given vector to every position; rotating it by an angle about an axis through the origin turns every position by that angle in the right-handed sense about the axis whatever the axis length. Masses, their order and the array form are preserved, all mutual distances are preserved, rotations about one axis compose additively and invert, and the input array is left unchanged.',
  ['inputs', 'histories'], 'all point arrays, angles of any size and sign, non-zero axes of any length, and sequences of such motions',
  'The tests rotate by a few multiples of 90 degrees about coordinate axes; sense, normalisation and composition must hold for every axis and angle.',
  [N+'glib.py'], [('Rodrigues rotation and translation', 'newt/glib.py:rotate_point_array, translate_point_array')],
  ['return values'], 'model-based sequences of motions against an independent rotation model')

p('P04', 'Inner moments of point masses are the defining sums',
  'For any point-mass array and any maximum degree L, the inner moments are q_lm = sum m_i r_i^l conj(Y_lm) for every l <= L and |m| <= l, laid out as [l, L+m] with zeros elsewhere; a point at the origin contributes only to q_00. The single-moment routine returns the same value as the corresponding table entry, q(l,-m) = (-1)^m conj(q(l,m)), and moments are additive over the union of arrays.',
  ['inputs'], 'all point arrays (including points at the origin and on the axes) and all degrees l, orders m',
  'The tests check a few arrays at low degree with no point at the origin.',
  [N+'pg2Multi.py'], [('regular solid harmonics of points', 'newt/pg2Multi.py:qmoment, qmoments')],
  ['return values'], 'property-based differential testing against an independent Cartesian solid-harmonic recursion')

p('P05', 'Outer moments of point masses are the defining sums',
  'For any point-mass array without a point at the origin and any maximum degree L, the outer moments are Q_lm = sum m_i Y_lm / r_i^(l+1) for every l <= L and |m| <= l, laid out as [l, L+m] with zeros elsewhere. The single-moment routine agrees with the table, Q(l,-m) = (-1)^m conj(Q(l,m)), and arrays with a point at the origin yield all-zero moments.',
  ['inputs'], 'all point arrays and all degrees l, orders m',
  'The tests check a few arrays at low degree.',
  [N+'pg2Multi.py'], [('irregular solid harmonics of points', 'newt/pg2Multi.py:Qmomentb, Qmomentsb')],
  ['return values'], 'property-based differential testing against an independent Cartesian solid-harmonic recursion')

p('P06', 'Yukawa inner moments of point masses are the defining sums',
  'For any point-mass array, any Yukawa length lambda > 0 and any maximum degree L, the Yukawa inner moments are i_lm = sum m_i i_l(r_i/lambda) conj(Y_lm), with i_l the modified spherical Bessel function of the same degree l as the moment, laid out as [l, L+m]. The single-moment routine returns the same value as the table entry, and the value of a moment does not depend on the maximum degree requested.',
  ['inputs'], 'all point arrays (including points at the origin), lambda > 0, degrees and orders',
  'No test computes a Yukawa moment against an independent value at more than one degree.',
  [N+'pg2Multi.py'], [('modified spherical Bessel moments', 'newt/pg2Multi.py:imoment, imoments')],
  ['return values'], 'property-based differential testing against a high-precision (mpmath) reference')

p('P07', 'Rotating moments equals rotating the masses',
  'For any body, any maximum degree and any z-y-z Euler angles (of any size and sign), rotating its inner moments by (alpha, beta, gamma) gives the inner moments of the body rotated about z by gamma, then y by beta, then z by alpha; outer moments are rotated by the same operation with alpha and gamma negated. Consequently the norm of every degree is preserved, rotations compose and invert like rotations of space, and the supplied moments are not modified.',
  ['inputs', 'histories'], 'all moment tables of degree 0 upward, all Euler angles, sequences of rotations',
  'The tests rotate one or two arrays by a few special angles at one degree.',
  [N+'rotations.py'], [('recursive Wigner matrices applied per degree', 'newt/rotations.py:rotate_qlm, wignerDl, rotate_qlm_Ds, rotate_qlm_Ds_right')],
  ['rotated moment tables'], 'property-based metamorphic testing (rotate points vs rotate moments), sequences of rotations')

p('P08', 'Wigner matrices are exact, unitary and mutually consistent',
  'For every degree and every set of Euler angles the recursively computed matrices, the explicit-formula matrices and their single entries all equal the Wigner matrix D^l_{m\'m} = exp(-i m\' alpha) d^l_{m\'m}(beta) exp(-i m gamma), including degree 0 and angles outside [0, pi]. Every matrix is unitary, and the returned list contains one (2l+1)x(2l+1) matrix per degree 0..L.',
  ['inputs'], 'all degrees (0 to a few tens for the recursion), orders and angles',
  'The tests compare the two methods at a few angles and low degree only.',
  [N+'rotations.py'], [('Gumerov-Duraiswami recursion and explicit sum', 'newt/rotations.py:dlmn, wignerDl, Dlmn, Dl')],
  ['returned matrices'], 'property-based testing against an independent matrix-exponential (angular momentum) reference; algebraic laws')

p('P09', 'Translating inner moments is exact',
  'For any body, any maximum degree and any displacement (including none, and along or against any axis), translating its inner moments gives exactly the inner moments of the displaced body about the original origin, for both the Clebsch-Gordan and the recursive translation. Successive translations compose by vector addition, zero displacement returns equal moments, and the supplied moments are not modified.',
  ['inputs', 'histories'], 'all bodies, degrees, displacement vectors and sequences of displacements',
  'The tests translate a few arrays by a few vectors; composition, axis-aligned and antiparallel shifts, degree 0 and mixed sequences are not covered.',
  [N+'translations.py', N+'translationRecurs.py'], [('Clebsch-Gordan translation', 'newt/translations.py:translate_qlm'), ('coaxial translation with rotations', 'newt/translationRecurs.py:translate_qlm')],
  ['translated moment tables'], 'property-based metamorphic testing (translate points vs translate moments), sequences of translations')

p('P10', 'Translating outer moments shifts their field exactly',
  'For any table of outer moments up to degree L and any displacement, the translated outer moments represent the same truncated field moved by that displacement, for both translation implementations. In particular, for distant sources the low-degree moments converge to those of the displaced sources, translations compose by vector addition, zero displacement returns equal moments, and the supplied moments are not modified.',
  ['inputs', 'histories'], 'all outer-moment tables, degrees, displacement vectors and sequences',
  'The tests compare a few low-degree moments with loose tolerances for a few vectors.',
  [N+'translations.py', N+'translationRecurs.py'], [('outer-to-outer translation', 'newt/translations.py:translate_Qlmb; newt/translationRecurs.py:translate_Qlmb')],
  ['translated moment tables'], 'property-based testing: the moved truncated field is evaluated pointwise (exact harmonic-polynomial oracle)')

p('P11', 'Converting inner to outer moments reproduces the distant field',
  'For any table of inner moments up to degree L and any non-zero displacement, the converted outer moments up to degree L are exactly the Taylor (regular solid harmonic) coefficients at the origin of the field of that multipole set placed at the displacement, for both implementations. For a body far from the origin they therefore converge to the outer moments of the displaced body as L grows, and the supplied moments are not modified.',
  ['inputs'], 'all inner-moment tables, degrees and non-zero displacement vectors in every direction',
  'The tests compare a few moments for a few vectors with loose tolerances.',
  [N+'translations.py', N+'translationRecurs.py'], [('inner-to-outer translation', 'newt/translations.py:translate_q2Q; newt/translationRecurs.py:translate_q2Q')],
  ['converted moment tables'], 'property-based testing against an independently expanded multipole field; convergence on displaced points')

p('P12', 'Clebsch-Gordan coefficients are correct',
  'For all integer angular momenta j1, j2, J and projections the computed coefficient equals the exact Clebsch-Gordan coefficient in the Condon-Shortley convention, by both provided methods. It is zero whenever the projections do not add up or the triangle rule or a projection range is violated, and the coefficients satisfy orthonormality.',
  ['inputs'], 'all integer (j1, j2, m1, m2, J, M), valid and invalid',
  'The tests tabulate a few textbook values.',
  [N+'clebschGordan.py'], [('Racah-type sums', 'newt/clebschGordan.py:cgCoeff, cgCoeff2')],
  ['return values'], 'property-based differential testing against exact rational arithmetic')

p('P13', 'Multipole force equals the force between the masses',
  'For outer moments of sources and inner moments of a body placed at any position relative to the expansion origin, the computed force is the gravitational force of the sources on the displaced body, exactly for the field truncated at degree L and converging to the pairwise point-mass force for separated bodies. The order-resolved variant sums to the same force, and scaling the constant scales the force.',
  ['inputs'], 'all moment tables of matching degree, all positions including the origin and points on the axes',
  'The tests compare a few fixed geometries.',
  [N+'multipoleLib.py'], [('force basis recursion and double sum', 'newt/multipoleLib.py:force_basis, multipole_force, multipole_force_m')],
  ['returned force vectors'], 'property-based testing against the gradient of the truncated field and against pairwise forces')

p('P14', 'Multipole torque equals the torque between the masses',
  'For inner moments of a body and outer moments of sources, the per-degree torque table sums to the z-torque exerted on the body, and the cosine/sine coefficients evaluated at any set of turntable angles give the torque with the body turned by each angle. The combined routine gives the torque as the untransformed body or source turns, after the other set of moments has been translated and rotated as requested, for every supported translation type, Euler angles and displacement.',
  ['inputs', 'configurations'], 'all moment tables, Euler angles, displacements (zero, along +z, -z, generic), translation types and turntable angles',
  'The tests fix a few geometries per translation type; several branches (zero or axial displacement) and angle ranges are never compared.',
  [N+'multipoleLib.py'], [('torque sums and transformed torque', 'newt/multipoleLib.py:torque_lm, torque, torques_at_angle')],
  ['torque coefficients and torque-vs-angle series'], 'property-based testing against point-mass torques in the truncated field and against explicit moment transformations')

p('P15', 'Embedding or truncating moments keeps every shared moment',
  'Embedding a moment table in a different maximum degree keeps each moment (l, m) that both tables can hold at its (l, m) place, sets the others to zero, and returns a new table whose later modification does not affect the original. Embedding up and back down is the identity.',
  ['inputs'], 'all tables and all target degrees, larger, equal or smaller, down to 0',
  'The tests do not vary the pair of degrees.',
  [N+'multipoleLib.py'], [('centre-aligned copy', 'newt/multipoleLib.py:embed_qlm')],
  ['returned table'], 'property-based testing against an index-wise model, round trips')

p('P16', 'Inner moments of round solids equal their volume integrals',
  'For every physical choice of dimensions and degree, the inner moments of a sphere, cylinder, annular section, and conical section equal the mass times the average of r^l conj(Y_lm) over the solid, in the documented placement. They are linear in the mass, and q(l,-m) = (-1)^m conj(q(l,m)).',
  ['inputs'], 'all physical dimensions, wedge angles and positions, masses and degrees',
  'The tests check a few dimensions, mostly low degrees against point-mass grids with percent tolerances.',
  [N+'qlm.py'], [('recursive and closed-form moments', 'newt/qlm.py:sphere, cylinder, annulus, cone')],
  ['moment tables'], 'property-based testing against exact-degree Gauss quadrature of the solid')

p('P17', 'Inner moments of polyhedral solids equal their volume integrals',
  'For every physical choice of dimensions and degree, the inner moments of the rectangular prism, triangular prisms, regular polygon prism, tetrahedra and pyramid equal the mass times the average of r^l conj(Y_lm) over the solid, in the documented placement. They are linear in the mass, and q(l,-m) = (-1)^m conj(q(l,m)).',
  ['inputs'], 'all physical dimensions, angles, masses and degrees',
  'The tests check a few dimensions, mostly low degrees against point-mass grids with percent tolerances.',
  [N+'qlm.py'], [('recursive and closed-form moments', 'newt/qlm.py:rect_prism, tri_iso_prism, tri_iso_prism2, tri_prism, ngon_prism, tetrahedron, tetrahedron2, pyramid')],
  ['moment tables'], 'property-based testing against exact-degree Gauss quadrature of the solid')

p('P18', 'Low-degree closed-form moments of round solids are correct',
  'For every physical choice of dimensions and density, the closed-form inner moments (degree up to 5) of the annulus, cones, cylindrical section, and cylindrical and tilted holes equal the density times the integral of r^l conj(Y_lm) over the documented solid.',
  ['inputs'], 'all physical dimensions and angles, every tabulated (l, m)',
  'The tests compare most formulas at a single set of dimensions.',
  [N+'qlmACH.py'], [('closed-form tables', 'newt/qlmACH.py:annulus, cone, cone2, cylindrical_section, cylhole, cylhole2, platehole')],
  ['moment tables'], 'property-based testing against Gauss quadrature of the solid')

p('P19', 'Low-degree closed-form moments of polyhedra are correct',
  'For every physical choice of dimensions and density, the closed-form inner moments (degree up to 5) of the rectangular and triangular prisms, trapezoid, tetrahedron and pyramid equal the density times the integral of r^l conj(Y_lm) over the documented solid.',
  ['inputs'], 'all physical dimensions, every tabulated (l, m)',
  'The tests compare most formulas at a single set of dimensions.',
  [N+'qlmACH.py'], [('closed-form tables', 'newt/qlmACH.py:rect_prism, tri_prism, trapezoid, tetrahedron, pyramid')],
  ['moment tables'], 'property-based testing against exact-degree Gauss quadrature of the solid')

p('P20', 'Numerically integrated inner moments are correct',
  'For every physical choice of dimensions the numerically integrated inner moments of the cylindrical, conical and trapezoidal sections, the Steinmetz solid and the tilted plate hole equal the integral of r^l conj(Y_lm) over the documented solid to the integrator\'s tolerance, with q(l,-m) = (-1)^m conj(q(l,m)).',
  ['inputs'], 'all physical dimensions and angles, low degrees',
  'The tests run each integrator on one or two shapes, most comparisons only at selected moments.',
  [N+'qlmNum.py'], [('adaptive triple quadrature', 'newt/qlmNum.py:cyl_mom, cone_mom, trap_mom, steinmetz, platehole')],
  ['moment tables'], 'property-based testing against Gauss quadrature of the solid')

p('P21', 'Closed-form outer moments of sphere and annulus are correct',
  'For every physical choice of dimensions and degree, the closed-form outer moments of an annular section above or below the origin plane, and of a sphere, equal the density (or mass) times the integral of Y_lm / r^(l+1) over the documented solid, with Q(l,-m) = (-1)^m conj(Q(l,m)).',
  ['inputs'], 'all physical dimensions, wedge angles and positions, signs of height, densities and degrees',
  'The tests compare one or two annuli.',
  [N+'bigQlm.py'], [('closed-form outer moments', 'newt/bigQlm.py:sphere, annulus')],
  ['moment tables'], 'property-based testing against Gauss quadrature of the solid')

p('P22', 'Numerically integrated outer moments are correct',
  'For every physical choice of dimensions not touching the origin, the numerically integrated outer moments of the annulus, outer cone and trapezoid equal the integral of Y_lm / r^(l+1) over the documented solid to the integrator\'s tolerance, with Q(l,-m) = (-1)^m conj(Q(l,m)).',
  ['inputs'], 'all physical dimensions and angles, low degrees',
  'The tests run one shape each.',
  [N+'bigQlmNum.py'], [('adaptive triple quadrature', 'newt/bigQlmNum.py:annulus, outer_cone, trapezoid')],
  ['moment tables'], 'property-based testing against Gauss quadrature of the solid')

p('P23', 'Unphysical shape parameters are rejected',
  'Every moment routine for a solid raises ValueError when given unphysical dimensions (a negative length, height, radius or thickness, an outer radius smaller than the inner one, a wedge half-angle outside its documented range, an impossible side count or orientation), and accepts every physical set of dimensions returning finite moments. No unphysical input silently yields moments.',
  ['inputs'], 'all routines, all dimension tuples on both sides of each validity boundary',
  'The tests exercise no or few rejections per routine.',
  [N+'qlm.py', N+'qlmACH.py', N+'qlmNum.py', N+'bigQlm.py', N+'bigQlmNum.py'], [('argument validation', 'raise ValueError in each routine')],
  ['exceptions and finiteness of results'], 'property-based testing: one unphysical mutation of a physical tuple must raise ValueError')

p('P24', 'Point-mass grids fill the solid they describe',
  'For every physical choice of dimensions and grid counts, each grid point-mass generator returns points of equal mass that add up to the requested mass, that all lie inside the documented solid. The points form a regular grid, with about the requested number of steps along each axis, that fills the whole solid: a centre of mass on a mirror plane of the solid stays on it, and averages over the points converge to averages over the solid as the grid is refined.',
  ['inputs'], 'all shapes, dimensions (including unequal ones and obtuse triangles) and per-axis grid counts',
  'The tests use one size per shape with equal grid counts and check only a few low moments.',
  [N+'glibShapes.py'], [('grid generation and masking', 'newt/glibShapes.py')],
  ['returned point arrays'], 'property-based testing: containment predicate, coverage, mass, convergence of low moments')

p('P25', 'Gauss-Legendre point masses integrate over their solid',
  'For every physical choice of dimensions and per-axis orders, the Gauss-Legendre point-mass generators return the nodes of the product Gauss-Legendre rule of the solid\'s bounding box that lie inside the documented solid, with masses in proportion to the weights and adding up to the requested mass. Each axis uses its own number of points. A brick of n points per axis therefore has exactly the solid\'s averages of every polynomial of degree up to 2n-1 in that coordinate, and averages over the other shapes converge to the solid\'s.',
  ['inputs'], 'all shapes, dimensions and per-axis orders (equal or not)',
  'The tests use one size per shape with equal orders and look at few moments.',
  [N+'gShapeGL.py'], [('Gauss-Legendre nodes mapped to the solid', 'newt/gShapeGL.py')],
  ['returned point arrays'], 'property-based testing against exact volume integrals of polynomials')

p('P26', 'Coordinate conversions and random shells are consistent',
  'Converting point masses from Cartesian to cylindrical coordinates and back returns the same points, with the radius non-negative, the angle in [0, 2 pi) and heights preserved. A random spherical shell of N points (ten or more) has about N points, all at the requested radius and spread evenly over all directions, with equal masses adding up to the requested mass.',
  ['inputs'], 'all point arrays and all shell parameters and random states',
  'The tests sample one example at most.',
  [N+'glibShapes.py'], [('coordinate conversion and shell sampling', 'newt/glibShapes.py:cart_2_cyl, cyl_2_cart, spherical_random_shell')],
  ['returned arrays'], 'property-based round-trip and invariant testing')

p('P27', 'Multipole output files are read back faithfully',
  'Reading a multipole-program output file of any degree returns every listed moment at its (l, m) place, with the negative orders filled in by conjugate symmetry. Inner moments are converted from g and cm to kg and m, outer moments are returned as listed. The title and the header values other than the degree do not matter, nor does naming the file with or without its extension.',
  ['inputs'], 'all generated output files: degrees, values, magnitudes and signs',
  'The tests read one or two shipped files.',
  [N+'read_multiFor.py'], [('text parsing', 'newt/read_multiFor.py:read_gsq, read_gbq')],
  ['returned tables'], 'property-based round trip: generated files against the values written')

p('P28', 'Input scripts are interpreted as the sequence of operations they state',
  'For every well-formed input script made of create, rotate, translate and add steps, with units and comments, the interpreter returns the moments of the combined bodies built by exactly those operations in that order. Working and total registers follow their documented meaning, stored moments loaded into a script enter it unchanged, and text in comments, names or after the end statement has no effect.',
  ['programs', 'histories'], 'all well-formed scripts over the supported shapes and operations, of any length and order',
  'The tests run a couple of shipped scripts.',
  [N+'read_multiFor.py'], [('line interpreter', 'newt/read_multiFor.py:read_mpc')],
  ['returned moment table'], 'model-based testing: random scripts against an independent interpreter over volume quadrature points')

p('P29', 'Shape objects track mass, centre of mass and moments together',
  'For every shape class and any sequence of translations, rotations and additions, the object\'s inner moments equal those of the body after the same motions (each added part up to its own maximum degree), its outer moments equal those of the documented body at construction and then those of the same truncated field after the same motions, its mass equals the total mass, its centre of mass equals the mass-weighted centre of its parts, and its mesh moves with them. Adding one object to another leaves the added object usable and unchanged; an outer to inner translation and a mixture of inner and outer moments are refused. save_shape writes the moments and mass the object holds.',
  ['histories', 'inputs'], 'all shape classes and dimensions, inner or outer, and all sequences of translate, rotate, add',
  'The tests build a few objects and apply one or two operations.',
  [N+'shapes.py'], [('stateful transforms', 'newt/shapes.py:Shape')],
  ['qlm, mass, com attributes'], 'model-based testing: operation histories against a point-quadrature model')

p('P30', 'CAD meshes have the geometry of the named solid',
  'For every physical choice of dimensions, each CAD constructor returns a closed solid with the volume, centre of mass and extent of the documented shape, in the same placement as the moments of that shape. Mesh translation and rotation move the solid rigidly by the stated amounts.',
  ['inputs', 'histories'], 'all CAD constructors, dimensions and rigid motions',
  'The tests mostly check that construction succeeds.',
  [N+'genCAD.py'], [('cadquery construction', 'newt/genCAD.py')],
  ['volume, centre, bounding box, inertia of the returned solids'], 'property-based testing of volume, centroid and second moments against exact integrals')

p('P31', 'MATLAB point-mass force and torque agree with Newton',
  'For any two collections of point masses without coincident points, the MATLAB routines return the pairwise-summed Newtonian force and torque, identical to the Python toolkit\'s values.',
  ['inputs'], 'all point arrays',
  'The embedded tests check a few fixed configurations and random points against one analytic case.',
  ['matlab-src/Gmmr2Array.m', 'matlab-src/pointMatrixGravity.m'], [('vectorised pair sums', 'matlab-src')],
  ['function outputs under Octave'], 'property-based differential testing across languages (Octave vs Python reference)')

p('P32', 'MATLAB rotations and translations are rigid motions',
  'For any point array, axis, angle and vector, the MATLAB rotation and translation preserve masses, order and mutual distances, translate by exactly the vector, and rotate by exactly the angle about the axis whatever its length, counter-clockwise as viewed from the origin looking along the axis (the documented sense, opposite to the Python routine), so that sequences of motions act as one rigid motion.',
  ['inputs'], 'all point arrays, non-zero axes, angles and vectors',
  'The embedded tests use a few special angles and axes.',
  ['matlab-src/rotatePMArray.m', 'matlab-src/translatePMArray.m'], [('rotation matrix and shift', 'matlab-src')],
  ['function outputs under Octave'], 'property-based testing against an independent rotation model')

p('P33', 'MATLAB spherical harmonics and moments are the defining sums',
  'For any angles, degree l and order 0 <= m <= l, YLM is the orthonormal spherical harmonic with the Condon-Shortley phase. For any point array (points on the axes, in the coordinate planes and at the origin included) the MATLAB inner moments are sum m r^l times the conjugate harmonic of the point\'s polar and azimuthal angles, agreeing with the Python toolkit for every 0 <= m <= l, and the summary lists each degree from 1 to the maximum and each order from 0 to the degree once, with that value.',
  ['inputs'], 'all point arrays, degrees and orders',
  'The embedded tests check few symmetric configurations.',
  ['matlab-src/YLM.m', 'matlab-src/computeMoments.m', 'matlab-src/computeMomentSummary.m'], [('YLM and moment sums', 'matlab-src')],
  ['function outputs under Octave'], 'property-based differential testing across languages')

p('P34', 'MATLAB point-mass generators fill the documented solids',
  'For every physical choice of dimensions and counts, the MATLAB generators return the documented points: the brick and annular sheet a full lattice of cell centres of equal mass and the requested total, the ring and the line equally spaced points (the line starting at the given height), the height map one column of points per cell filled up to its height and nothing in empty or missing cells, and the random generators the requested number of points of the requested mass, inside the solid and evenly spread over it.',
  ['inputs'], 'all generators, dimensions, counts',
  'The embedded tests use one set of dimensions per shape.',
  ['matlab-src/shapes'], [('grid generation', 'matlab-src/shapes')],
  ['function outputs under Octave'], 'property-based testing: containment, mass and extent predicates')

p('P35', 'Library calls are pure',
  'No numerical routine of the toolkit modifies the arrays passed to it, and calling it again with the same arguments, in any order relative to other calls, returns the same result, the one a fresh process returns, whatever was called before with whatever neighbouring arguments. Changing a returned array never changes the inputs or later results.',
  ['histories', 'inputs'], 'all public numerical routines and all interleavings of calls on shared arrays',
  'Unit tests call each routine once on fresh arrays.',
  [N], [('copies of inputs', 'newt/*.py')],
  ['argument arrays before and after, repeated results'], 'model-based call histories on shared arrays with snapshots')


p('P36', 'MATLAB surface scans are detrended and filled faithfully',
  'For any surface scan whose positions are not on one line, centring and detrending returns positions relative to their mean and the residual heights of the least-squares plane, in metres, unaffected by any plane added to the scan. Turning a gridded scan into point masses fills one column per grid position with equal masses up to the scanned height, at the grid spacing and centred on the grid. Scattering a point array by the scan grid size moves every point in y and z only, by independent normal steps of that size.',
  ['inputs'], 'all scans, grids, spacings and heights',
  'No test covers the scan routines.',
  ['matlab-src/scanCenterAndRemoveLinear.m', 'matlab-src/scanToPMArray.m', 'matlab-src/scatterPMMassesYZGrid.m', 'matlab-src/shapes/genPointMassArrayFrom2DArray.m'], [('least-squares plane and gridding', 'matlab-src')],
  ['function outputs under Octave'], 'property-based testing against an independent least-squares fit and the height function')


p('P37', 'Results do not depend on the units of length and mass',
  'Every numerical routine, in Python and MATLAB, is homogeneous in the dimensions of its arguments: with all lengths expressed in another unit and all masses or densities in another unit, point masses come out at the rescaled positions with rescaled masses (as many as before), inner moments of degree l scale as mass times length^l, outer moments as mass over length^(l+1), forces as mass^2 over length^2 and torques as mass^2 over length.',
  ['inputs'], 'all public numerical routines, generic arguments, units from picometres to 10^12 metres and any unit of mass',
  'Tests use bodies of size about 1 (or a few centimetres); absolute thresholds and dimensionally wrong terms stay hidden at one scale.',
  [N, 'matlab-src'], [('all closed forms, sums and thresholds', 'newt/*.py, matlab-src')],
  ['return values in two systems of units'], 'property-based metamorphic testing: every routine called in two systems of units')

p('P38', 'The multipole route gives the Newtonian force and torque of extended bodies',
  'For any bodies assembled from the supported solids (by their mass or density), each turned by Euler angles and moved, and any sources assembled likewise outside a sphere around the body, chaining shape moments, rotation, translation, conversion to outer moments, and multipole force or torque gives the Newtonian force and z-torque between the solids, at every turntable angle, to within the tail of the truncated series; so does the point-mass route on the quadrature points of the same solids.',
  ['inputs', 'histories'], 'all compositions of solids, rotations and translations with the body inside and the sources outside a separating sphere',
  'The tests check each step alone at special placements; conventions (order of angles, sign of m, frames, mass or density) only show when steps are chained on bodies without symmetry.',
  [N+'multipoleLib.py', N+'qlm.py', N+'qlmACH.py', N+'bigQlm.py', N+'rotations.py', N+'translations.py', N+'translationRecurs.py', N+'glib.py', N+'gShapeGL.py'],
  [('shape moments, rotation, translation, force and torque', 'newt')],
  ['return values of multipole_force, torque_lm, torque, torques_at_angle, point_matrix_gravity'],
  'property-based testing of whole calculations against pair sums over independent quadrature nodes')

p('P39', 'Plots of point masses show the points',
  'For any two collections of point masses, the Python and MATLAB display routines plot every point of non-zero mass of both collections at its position (the Python one in a figure that contains the returned axes), marked by the collection and, in Python, by the sign of the mass. With sizes by mass the Python marks of a collection have visible sizes in proportion to the magnitude of the masses, otherwise equal sizes. The random-subset routine plots only points of the collections, about the requested fraction of each, none at 0 and all at 1. The inputs are left unchanged.',
  ['inputs'], 'all pairs of collections, both modes, all fractions',
  'No test plots anything.',
  [N+'glib.py', 'matlab-src/displayPoints.m', 'matlab-src/displayPointsRandomSubset.m'], [('mark positions, sizes and labels', 'newt/glib.py display_points, matlab-src/displayPoints*.m')],
  ['marks of the figure'], 'property-based testing of the plotted marks against the arrays')

p('P40', 'The translation operators along the z-axis move moments by the signed distance',
  'For any degree and any signed distance, zero included, apply_trans_mat with transl_newt_z_RR gives the inner moments of a body moved along the z-axis by that distance, with transl_newt_z_SS the outer moments of distant sources so moved, and (distance non-zero, q2Q set) with transl_newt_z_SR the outer moments, at the origin, of a body moved to that height above or below it; several operators in a row move by the sum of the distances. apply_trans_mat_right is the transpose: for any two tables, conjugate-symmetric or not, the sum of products with one table acted on from the left equals that with the other acted on from the right. Tables are left unchanged, and an operator of another degree is refused.',
  ['inputs', 'histories'], 'all degrees, signed distances, tables and sequences of operators',
  'The tests, and the translation routines of the package, call these operators with positive distances only, from the left with conjugate-symmetric tables.',
  [N+'translationRecurs.py'], [('z operators and their application', 'newt/translationRecurs.py transl_newt_z_RR, transl_newt_z_SS, transl_newt_z_SR, apply_trans_mat, apply_trans_mat_right')],
  ['return values of apply_trans_mat and apply_trans_mat_right'], 'property-based testing against moments of moved bodies, projected fields and an adjointness relation')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith('_')})+'\n')
    checks, na = [], []
    for q in P:
        have = os.path.exists(os.path.join(HERE, 'checks', q['id'].lower()+'.py'))
        if have and not q['_na']:
            cmd = f"/opt/venv/bin/python run.py {q['id']} --tier "
            checks.append(dict(property=q['id'], quick_cmd=cmd+'quick', thorough_cmd=cmd+'thorough',
                               evidence_file=f"evidence/{q['id']}.json",
                               technique=q['_tech'], level='exploration',
                               level_note=q['_note'] or ('Generated-input search against an explicit independent oracle; no violation found on the cases generated (counts in the evidence file). '
                                                         'Trusts numpy, scipy, Hypothesis and the reference models in lib/.')))
        else:
            na.append(dict(property=q['id'], reason=q['_na'] or 'check not built yet'))
    man = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py', checks=checks,
               not_applicable=na,
               notes='Hypothesis-driven checks; run.py PID [--tier T] [--replay FILE].')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
