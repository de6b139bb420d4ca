import json
E='products/ellipy/elltool/core/ellipsoid/Ellipsoid.py'
A='products/ellipy/elltool/core/aellipsoid/AEllipsoid.py'
B='products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py'
H='products/ellipy/elltool/core/hyperplane/Hyperplane.py'
CO='products/ellipy/elltool/core/core.py'
LA='products/ellipy/gras/la/la.py'
GEN='products/ellipy/gras/gen/gen.py'
EL='products/ellipy/gras/geom/ell/ell.py'
SUP='products/ellipy/gras/geom/sup/sup.py'
GEO='products/ellipy/gras/geom/geom.py'
TRI='products/ellipy/gras/geom/tri/tri.py'
CM='products/ellipy/gen/common/common.py'
DI='products/ellipy/gen/dict/dict.py'
PR='products/ellipy/elltool/conf/properties/Properties.py'
PP='products/ellipy/elltool/conf/properties/_ParseProp.py'
SY='products/ellipy/gras/sym/sym.py'
P=[]
def p(id,title,st,over,q,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Only valid ellipsoids and hyperplanes can be constructed',
 "Constructing an ellipsoid succeeds exactly for a finite real centre vector and a finite, square, symmetric (within the absolute tolerance) shape matrix whose eigenvalues are not below minus that tolerance and whose size matches the centre; a missing centre means the origin, and no arguments give the empty ellipsoid. A hyperplane is accepted exactly for a finite normal vector and one finite scalar shift. An accepted object reports the data it was given (the shape matrix made exactly symmetric), and arrays violating these conditions are rejected with a value error.",
 ['inputs'],'every dimension, every centre/shape/normal/shift (finite or not, symmetric or not, definite or not), every tolerance',
 'Tests construct a few dozen objects; the accept/reject boundary is a predicate on all real matrices and tolerances.',[E,A,H,LA],
 [('shape matrix and centre setters',E),('symmetry and definiteness tests',LA),('normal and shift setters',H)])
p('C02','Operations never modify their arguments; objects do not leak their state',
 "Apart from in-place projection, no operation changes the data of an ellipsoid or hyperplane it is given, nor any array, list or dictionary passed to it. Data read from an object is a private copy: writing into it, or into the arrays the object was built from, never changes the object. The in-place projection modifies exactly the listed ellipsoids and returns them.",
 ['inputs','histories'],'all public operations, all arguments, all later writes to shared arrays',
 'Tests look at results, hardly ever at the arguments after the call, and aliasing shows only in a later write.',[E,A,B,H,LA,GEN,CM,DI,EL,SUP],
 [('copying getters/setters',A),('copies before in-place stores',CM),('copy before projecting',E)])
p('C03','Copies, replicas and dictionary round trips preserve the object',
 "Copying an array of ellipsoids or hyperplanes gives new independent objects in the same array shape with the same data, tolerances and plotting options. Replicating an object gives an array of the requested shape filled with such independent copies. Exporting ellipsoids to dictionaries together with their properties and importing them back yields the same data and properties; for hyperplanes with a non-zero normal it yields the same point set and properties, with a unit normal and a non-negative shift.",
 ['inputs','histories'],'all objects with all property values, all array shapes',
 'Tests copy a few default-property objects; fields other than centre and shape are rarely compared.',[B,E,H],
 [('single-object copy',E),('array copy and replication',B),('dictionary export and import',E)])
p('C04','Equality of ellipsoids and hyperplanes is tolerance equality of their data',
 "Two ellipsoids are equal exactly when they have the same dimension and their centres and the positive square roots of their shape matrices agree elementwise within the smallest absolute, or else smallest relative, tolerance of all compared objects. Two hyperplanes are equal exactly when their unit normals and scaled shifts (sign chosen so that the shift is non-negative) agree in the same sense, so rescaling the defining equation does not matter. Equality is reflexive and symmetric, compares arrays elementwise with broadcasting of a single object, and on request also compares the properties.",
 ['inputs'],'all pairs and arrays of objects, all tolerances, all property values',
 'A comparison must be right for every pair; tests try a handful of equal and unequal pairs.',[B,E,H,DI,CM],
 [('array equality',B),('normal forms used in comparison',E),('hyperplane canonical form',H)])
p('C05','Array comparison decides absolute-or-relative closeness exactly',
 "Comparing two numeric arrays of one shape with an absolute tolerance a and an optional relative tolerance r answers true exactly when infinities and NaNs coincide in place and sign and every finite pair differs by at most a, or, when r is given and the magnitudes sum to more than a, by at most r times the half-sum of magnitudes. The reported absolute and relative differences are the corresponding maxima, and a non-empty report accompanies exactly the negative answers. The answer is symmetric in the two arrays, reflexive, and monotone in both tolerances. The arrays themselves are left as they were.",
 ['inputs'],'all arrays of all shapes, with NaN and infinities, all tolerances',
 'The branches interact through maxima over elements; tests sample a few arrays.',[CM],[('absolute/relative comparison',CM)])
p('C06','Dictionary comparison is structural equality up to tolerance',
 "Comparing dictionaries (single, or arrays/lists of them) answers true exactly when key sets are equal and all values agree recursively: nested dictionaries and lists by structure and length, numeric values by type, shape and tolerance, and everything else by equality. Every difference is reported together with the key it occurs under and the report is empty exactly when the answer is true. Arrays of different shapes are unequal.",
 ['inputs'],'all nested dictionaries, lists and arrays, all tolerances',
 'Structures are unbounded; tests compare a few fixed dictionaries.',[DI,CM],[('recursive comparison',DI)])
p('C07','The support function of an ellipsoid is exact with a supporting point',
 "For every ellipsoid with centre q and shape Q and every direction l the reported support value equals <l,q> + sqrt(<l,Ql>). The reported point is q + Ql/sqrt(<l,Ql>), or the centre where that root is zero, so that it belongs to the ellipsoid and its product with l equals the support value. Arrays of ellipsoids and of directions are matched up one to one, one to many or many to one.",
 ['inputs'],'all ellipsoids including degenerate ones, all directions (including zero), all numbers of directions',
 'Support values must be right in every dimension and direction; tests use a few.',[E,EL,GEN],
 [('support function of a matrix',EL),('dispatch over arrays',E),('guarded square root',GEN)])
p('C08','Boundary sampling returns boundary points with the right mesh and size',
 "Sampling the boundary of a 2- or 3-dimensional ellipsoid returns points q + sqrt(Q) d for the unit directions d of the grid, all on the boundary, with a mesh that indexes the points: exactly the requested number of points forming one closed polygon in 2D, and at least the requested number forming a closed triangulated surface in 3D. Sampling along support directions returns for each grid direction the support value and point, with the first direction repeated at the end. The number of points defaults to the object's plotting option and is multiplied by the factor (rounded down) when one is given; other dimensions are rejected.",
 ['inputs','configurations'],'all 2D/3D ellipsoids (also degenerate), numbers of points, factors and plotting options',
 'Tests use one or two ellipsoids and default point counts.',[E,EL,TRI,GEO,LA],
 [('boundary by directions',E),('support boundary',E),('direction grids',TRI)])
p('C09','External Minkowski-sum ellipsoids contain the sum and are tight',
 "For two or more ellipsoids and each direction, the external approximation is centred at the sum of the centres and its support function is at least the sum of the support functions in every direction. In the given direction the two are equal, so the approximation touches the sum there. Degenerate summands are treated after raising eigenvalues below the tolerance to it, and one ellipsoid is its own approximation.",
 ['inputs'],'all finite collections of ellipsoids of one dimension and all nonzero directions',
 'Containment is a statement over all directions for all summands; tests check a few matrices to rounding.',[E,EL,LA],
 [('external approximation',E),('quadratic form',EL),('regularisation',LA)])
p('C10','Internal Minkowski-sum ellipsoids lie inside the sum and are tight',
 "For two or more ellipsoids and each direction, the internal approximation is centred at the sum of the centres and its support function is at most the sum of the support functions in every direction. In the given direction the two are equal. Degenerate summands are treated after raising eigenvalues below the tolerance to it, and one ellipsoid is its own approximation.",
 ['inputs'],'all finite collections of ellipsoids of one dimension and all nonzero directions',
 'Containment is a statement over all directions for all summands; tests check a few matrices to rounding.',[E,LA],
 [('internal approximation',E),('orthogonal alignment',LA),('matrix square root',LA)])
p('C11','Projection is the image onto the normalised orthogonal basis',
 "Projecting ellipsoids on a basis with mutually orthogonal non-zero columns gives ellipsoids with centre B'q and shape B'QB, where B is the basis with columns scaled to unit length. A basis whose columns are not orthogonal within the tolerance, has more columns than rows, or does not match the dimension is rejected, and nothing is modified then. The copying variant leaves the originals unchanged and gives the same result.",
 ['inputs'],'all arrays of ellipsoids, all bases',
 'Tests project a few fixed ellipsoids on coordinate axes.',[A,E],[('basis check and normalisation',A),('single projection',E)])
p('C12','The polar of an ellipsoid is its polar set',
 "For non-degenerate ellipsoids containing the origin strictly inside, the polar is the ellipsoid of vectors y with support value at most one, i.e. the centre c and shape P satisfy: y belongs to it exactly when the support function of the original at y is at most 1. Ellipsoids that are degenerate or do not contain the origin strictly inside are rejected, and array shape is preserved. Both internal computation methods give the same ellipsoid.",
 ['inputs'],'all ellipsoids in all dimensions, arrays of any shape',
 'A set identity over all vectors; tests check a few centred examples.',[E,EL],[('polar of one ellipsoid',E),('array polar',E)])
p('C13','Scalar characteristics of ellipsoids are exact, elementwise and guarded',
 "Volume is the unit-ball volume times the root of the determinant of the shape matrix (zero when degenerate), trace is the sum of the diagonal of the shape matrix, and the smallest and largest eigenvalue characteristics are those of the shape matrix, one number per ellipsoid in order. Dimension is the length of the centre, rank the rank of the shape matrix, empty means dimension zero, and degenerate means the least eigenvalue does not exceed the absolute tolerance, all in the shape of the given array. Empty ellipsoids are rejected by volume, trace, eigenvalue and degeneracy queries.",
 ['inputs'],'all arrays of ellipsoids of all dimensions',
 'Dimension-dependent formulas (even/odd) and mixed arrays are sampled only at a few points by tests.',[A,B,LA],
 [('volume, trace, eigenvalues, dimension',A),('emptiness',B),('definiteness',LA)])
p('C14','Membership in unions and intersections of ellipsoids is exact',
 "A vector x belongs to an ellipsoid with centre q and non-degenerate shape Q when sqrt(<x-q,Q^-1(x-q)>) is below one or within the ellipsoid's absolute tolerance of one; degenerate shapes are first regularised by that tolerance. Each column of the given matrix is answered independently: true in the union mode exactly if some ellipsoid of the array contains it, in the intersection mode exactly if all do. Sizes that do not match, empty arrays or empty ellipsoids and unknown modes are rejected, and the order of the ellipsoids or of the columns never matters.",
 ['inputs'],'all arrays of ellipsoids, all columns, both modes',
 'A predicate on all vectors; tests check a few points.',[E,EL,LA],[('membership test',E),('inverse',EL)])
p('C15','The size comparison tells when one centred ellipsoid fits inside another',
 "For non-degenerate first shapes, one ellipsoid is reported bigger than a second of the same dimension exactly when the second shape matrix is below (1+tolerance) times the first in the semidefinite order, independent of the centres; ellipsoids of smaller rank than the second are never bigger, and different dimensions are rejected. The simultaneous diagonalisation it relies on returns, for a positive definite A and a symmetric B, a matrix T with T A T' equal to the identity and T B T' diagonal. Invalid matrices are rejected there.",
 ['inputs'],'all pairs of ellipsoids, all positive definite / symmetric matrix pairs',
 'An order relation over all matrices; tests compare a few diagonal pairs.',[E,CO,LA],[('comparison',E),('simultaneous diagonalisation',CO)])
p('C16','Hyperplane membership, parallelism, negation and dimension are exact',
 "A vector is contained in a hyperplane exactly when its inner product with the normal differs from the shift by less than the absolute tolerance, infinite coordinates being allowed only where the normal is zero; arrays of hyperplanes and vectors are matched one to one, one to many or many to one, and other sizes are rejected. Two hyperplanes are parallel exactly when their unit normals agree up to sign within the first one's tolerance. Negation negates both normal and shift, and the dimension is the length of the normal, or zero for the degenerate zero hyperplane.",
 ['inputs'],'all hyperplanes, vectors and arrays of them',
 'Predicates over all vectors and sizes; tests sample a few.',[H],[('membership',H),('parallelism',H),('negation, dimension',H)])
p('C17','Orthogonal translation matrices are orthogonal and align the vectors',
 "For all non-zero source and destination vectors of one dimension, each of the alignment routines (two-plane rotation, Householder, QR, maximal-trace and maximal-direction variants, the many-vector form and the SVD-based vector alignment) returns an orthogonal matrix that maps the direction of the source vector to the direction of the destination vector. The many-vector form stores the matrix for each source and each destination in its own page. Zero vectors are rejected by the rotation and QR routines.",
 ['inputs'],'all non-zero vector pairs in every dimension, also parallel and opposite ones',
 'Tests use random low-dimensional pairs; special positions (parallel, opposite, dimension one) need every case.',[LA,CO],
 [('rotation',LA),('Householder, QR',LA),('SVD alignment',CO)])
p('C18','The optimising translations attain their optimum',
 "Among all orthogonal matrices that map the source direction to the destination direction, the maximal-trace variant returns one for which the trace of its product with the given matrix is largest. The maximal-direction variant returns one that maximises the inner product of the translated auxiliary source vector with the auxiliary destination vector. Both hold in every dimension above one.",
 ['inputs'],'all vector pairs, all auxiliary matrices and vectors, against all competing orthogonal matrices',
 'Optimality quantifies over all competitors; tests compare with a few.',[LA],[('maximal trace',LA),('maximal direction',LA)])
p('C19','Matrix roots, regularisation and definiteness tests are exact',
 "The positive square root of a symmetric positive semidefinite matrix is symmetric positive semidefinite and squares to it (eigenvalues in [-tol,0) count as zero), and matrices with eigenvalues below -tol are rejected. Regularising a symmetric matrix raises exactly the eigenvalues below the tolerance to it and keeps the rest with their eigenvectors, and the general version does so for singular values. The symmetry, definiteness and non-singularity tests answer exactly the corresponding comparison of entries, least eigenvalue or least singular value with the tolerance, and orthogonalisation returns orthogonal columns spanning the given ones with non-negative products.",
 ['inputs'],'all matrices of all sizes, all tolerances',
 'Spectral identities hold for all matrices; tests check a few.',[LA,GEN],
 [('square root',LA),('regularisation',LA),('predicates',LA),('orthogonalisation',LA)])
p('C20','Time-indexed matrix products equal the page-by-page products',
 "Every product of matrix families (two or three factors, with vectors, congruence A'BA or ABA', quadratic values a'Ba and a'B^-1 a, and their eigen-decomposition variants) equals at every time index the ordinary matrix product of the pages at that index. Constant right-hand or outer factors given without time dependence and one-by-one scalar factors act as the same factor at every index, and the sparse and dense computation routes give the same result. Unsupported modes are rejected.",
 ['inputs'],'all families of compatible sizes, all numbers of time points, dense and sparse routes',
 'Index bookkeeping (Fortran order, sparse blocks) must be right for all sizes; tests use a few.',[GEN],
 [('family products',GEN),('congruences and quadratic values',GEN),('spectral variants',GEN)])
p('C21','Unary operations on matrix families act page by page',
 "Transposition, symmetrisation, upper triangles, inverse, pseudo-inverse, positive square root, definiteness masking and eigenvalue clipping of a matrix family equal at every time index the operation applied to that page, a single matrix counting as one page. Evaluating a function, formula or formula matrix on a time grid gives at every index the value at that time. Applying a function page by page passes exactly the pages in order and keeps their values.",
 ['inputs'],'all families, sizes and time grids; all functions',
 'Page indexing must be right for all sizes; tests use a few.',[GEN],[('page-wise operations',GEN),('families from functions and formulas',GEN)])
p('C22','Quadratic forms, inverses and volumes of matrices are exact',
 "The quadratic form routine returns <x-c,Q(x-c)> in the plain mode and <x-c,Q^-1(x-c)> in both inverse modes for every vector orientation, a missing centre meaning zero, and rejects non-square matrices, wrong sizes and unknown modes. The refined inverse is the inverse. The volume routine returns the unit-ball volume times the root of the determinant in every dimension, and the normalised matrix inner product is the sum of elementwise products divided by the number of rows.",
 ['inputs'],'all matrices, vectors, centres, modes',
 'Identities over all matrices; tests check a few.',[EL,GEN],[('quadratic form',EL),('inverse',EL),('volume',EL),('matrix product',GEN)])
p('C23','Configuration values are validated, defaulted and kept separate',
 "Requesting named properties returns, in the requested order, the value given for each or else the current configuration value, rejecting unknown names, values of a wrong type and non-positive tolerances, and returns the unrequested arguments untouched. Setting a configuration option changes exactly that option, for all later reads, and objects created earlier keep their own property values. Reading the whole configuration returns a copy whose modification has no effect.",
 ['inputs','histories','configurations'],'all option subsets and orders, all values, all sequences of sets and reads',
 'Histories of sets, reads and constructions are unbounded; tests set one or two options.',[PR,PP],[('parsing',PP),('configuration store',PR)])
p('C24','Direction grids consist of distinct unit vectors and consistent meshes',
 "The circle grid consists of the requested number of unit vectors at equal angles from the start of the range, the end excluded. The sphere grid of each depth consists of distinct unit vectors, 10*4^k+2 of them with a closed mesh of 20*4^k triangles in which every edge belongs to exactly two of them, and the requested number of points is rounded up to the next available depth. The partial sphere cover returns the requested number of distinct unit directions no two of which are opposite.",
 ['inputs'],'all numbers of points, ranges and depths',
 'Counts and connectivity must hold at every depth; tests check two or three depths.',[GEO,TRI],[('circle grid',GEO),('sphere refinement',TRI),('sphere cover',GEO)])
p('C25','Triangulation refinement keeps the surface and the edge maps consistent',
 "Refining a triangulation keeps all old vertices, adds the (possibly adjusted) midpoints of exactly the edges of faces that have an edge longer than the bound, replaces those faces by four (closing the gap to an unsplit neighbour by a zero-area face), until no edge exceeds the bound or the step limit is reached. The face-to-edge map and direction flags returned for a triangulation name, for each face, exactly its three sides among the unique edges and whether they run from the lower to the higher vertex in face order. The refined edge list, face-to-edge map and collected statistics describe the refined faces.",
 ['inputs'],'all triangulations, bounds and step limits',
 'Index bookkeeping must be right for every mesh; tests use two or three meshes.',[TRI],[('edge maps',TRI),('refinement loop',TRI)])
p('C26','Row sorting, membership and mesh equality are exact up to tolerance',
 "Sorting rows with a tolerance returns the rows of the input in an order that is lexicographic once neighbouring column values closer than the tolerance are identified, with the permutation and its inverse. Membership lookup tells for each item whether it occurs in the list and gives the position of the first occurrence of each one that does. A face belongs to a mesh (with at most two faces per edge) exactly when its vertices are those of some face, and two such meshes are equal exactly when vertices agree within the tolerance after matching and the face sets agree.",
 ['inputs'],'all matrices, lists and meshes',
 'Permutation properties hold for all inputs; tests use a few.',[GEN,CM,TRI],[('row sort',GEN),('membership',CM),('face membership and mesh equality',TRI)])
p('C27','Boundary reconstruction and geometric difference from support values are exact',
 "Reconstructing a boundary from support values returns for each neighbouring pair (2D) or face triple (3D) of directions the intersection of the corresponding support lines or planes. The planar geometric difference on a counter-clockwise grid around the origin returns, for every direction, the support function of the polygon cut out by the differences of the two support values (the largest set whose sum with the second fits in the first on the grid). Non-positive differences and mismatching sizes are rejected.",
 ['inputs'],'all grids of directions, all support values',
 'Tests use a few smooth sets; the polygon case analysis depends on the shape of the hull.',[SUP],[('reconstruction',SUP),('planar difference',SUP)])
p('C28','Variable renaming touches exactly the whole-word occurrences',
 "Renaming a variable in a matrix of expressions replaces every whole-word occurrence by the parenthesised new name, removes blanks and changes nothing else, numbers being written in decimal form. An expression is reported time-dependent exactly when the time variable occurs in it as a whole word.",
 ['inputs'],'all expression strings and variable names',
 'Strings are unbounded; tests replace a few variables.',[SY],[('renaming',SY),('dependence',SY)])
p('C29','Every rejection names the rejecting routine and the error tag',
 "Every rejected call raises a value error whose text starts with the upper-case dotted path of the routine that rejected it, followed by the documented tag and the message. Warnings follow the same format.",
 ['inputs','histories'],'all rejecting calls from all callers',
 'Depends on the call stack of every caller; tests match a few tags.',[CM],[('error construction',CM)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x['title'])<=80
    import re
print(len(P))
