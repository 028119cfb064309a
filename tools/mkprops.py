#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one readable place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("S01","STEP instances are recovered exactly from the file text",
  "Reading a STEP exchange file yields one entry per distinct instance identifier of its data section (the last definition wins for a repeated one), carrying exactly the type name and the argument texts written in the file, in order. Header and footer sections, blank lines, line breaks inside an instance, white space around '=', around arguments and before ';', several instances on one line, and '=', ';', '(' or ',' inside quoted strings never change, merge, split or drop an entry (comments and instances made of several partial records are out of scope).",
  ["inputs"],"every file text assembled from instances with arbitrary identifiers, type names, argument characters and layout, within the stated lengths",
  "TestLex prints the table of one 10-line file without asserting anything; no test covers headers, layout, or strings.",
  ["step/lex.go","step/util.go"],[("Lexer.Lex","step/lex.go"),("SymbolTable.add / tokenize","step/lex.go"),("getArguments","step/util.go"),("stripWhiteSpaces","step/util.go")],["the symbol table returned by the lexer"])
p("S02","Argument lists are split at top-level separators only",
  "Splitting the text of an instance's argument list returns the arguments in order, cut at exactly those commas that lie outside every parenthesis and every quoted string, without the closing parenthesis and semicolon. Rejoining the returned arguments with commas gives back the argument text up to white space around the separators.",
  ["inputs"],"every balanced argument text over an alphabet with parentheses, commas, quotes, blanks and ordinary characters up to the stated length and nesting depth",
  "No test calls the argument splitter directly; the sampled files contain a handful of shapes and nothing is asserted.",
  ["step/util.go"],[("getArguments","step/util.go")],["returned argument slice"])
p("S03","Nested lists and matrices keep every element in place",
  "Reading a parenthesised list returns its elements in order, cut only at commas outside nested parentheses and quoted strings; an empty list has no elements. Reading a list of lists returns one row per inner list, each with that inner list's elements in order; a logical is true for .T. and for nothing else.",
  ["inputs"],"every balanced list text up to the stated length and nesting depth and every rows x columns shape within bounds",
  "TestGetArray prints one nested list and asserts nothing; matrices and logicals have no test.",
  ["step/util.go"],[("getArray","step/util.go"),("getMatrix","step/util.go"),("getLogical","step/util.go")],["returned slices"])
p("S04","Parsing always terminates and never crashes",
  "Parsing the table of any STEP file terminates without a crash, whatever the instances refer to: cyclic references, references to undefined instances, missing or empty arguments and unknown types included. Every instance is processed at most once.",
  ["inputs","histories"],"every table of up to the stated number of instances over all known types plus unknown ones, with arbitrary references among present and absent identifiers and arbitrary argument counts, in any table order",
  "The tests parse two well-formed files (one with a single argument shape) and assert nothing; references in them are never cyclic, dangling or short.",
  ["step/parse.go","step/template.go","step/bridge.go"],[("Parse / runInferenceModel (worklist and visited set)","step/parse.go"),("entity templates","step/template.go"),("bridge","step/bridge.go")],["normal return","visited set"],[{"name":"visited","meaning":"identifiers already processed","where":"step/parse.go"},{"name":"nextStates","meaning":"pending worklist","where":"step/parse.go"}])
p("S05","B-spline surface attributes come from their ISO positions",
  "For every B_SPLINE_SURFACE_WITH_KNOTS instance, the reported name, degrees, control point matrix, surface form, closedness and self-intersection flags, multiplicities and knots are those at the positions ISO 10303 gives them, unmodified and in order. An instance of type SPHERICAL_SURFACE reports the radius written in the file.",
  ["inputs"],"every argument list of such an instance with arbitrary argument texts within the stated lengths and matrix shapes",
  "TestParseSurface prints one surface in which most same-typed attributes have equal values, so swapping them would go unnoticed, and asserts nothing.",
  ["step/template.go","step/job.go","step/bridge.go"],[("bSplineSurfaceWithKnots","step/template.go"),("print","step/job.go"),("bridge","step/bridge.go")],["standard output of parsing"])
p("S06","Supported types are followed to the instances they name",
  "When an instance of a supported type refers to other instances through the attributes the converter follows (a shape's product definition, that definition's formation and context, a placement's location and axes, an advanced face's surface), exactly the instances named by those ISO attribute positions are processed next. Entity type names are recognised as the standard spells them.",
  ["inputs"],"every table of up to the stated size with arbitrary identifiers in the followed and unfollowed attribute positions",
  "No test observes which instances are visited; sample files make several attributes coincide.",
  ["step/template.go","step/bridge.go","step/parse.go"],[("entity templates","step/template.go"),("bridge","step/bridge.go")],["set of processed identifiers"])

p("M01","Every mesh index names an existing vertex",
  "For every primitive and every positive subdivision count, the index list of the constructed mesh has a length divisible by three and every index is smaller than the number of vertices. Vertices, normals and texture coordinates, where present, are parallel lists of equal length.",
  ["inputs","configurations"],"every sector and stack count within the stated bounds, for circle, ellipse, sphere and torus",
  "The tests only construct one fixed size of each primitive and write it to a file without checking an index.",
  ["shape/circle.go","shape/ellipse.go","shape/sphere.go","shape/torus.go","shape/shape.go"],[("generateIndices","shape/*.go"),("generateVertices","shape/*.go")],["Mesh.Indices, Mesh.Vertices"])
p("M02","Primitive meshes cover their surface completely",
  "For three or more sectors, the circle and ellipse meshes contain each sector's triangle exactly once in each orientation; for three or more sectors and stacks (two stacks suffice for the sphere), the sphere and torus meshes are closed, consistently oriented surfaces: after identifying coincident vertices, every directed edge of a non-degenerate triangle occurs exactly once and its reverse exactly once.",
  ["inputs","configurations"],"every sector and stack count within the stated bounds",
  "No test inspects the triangles; a missing cap, an open seam or a doubled sector changes nothing the tests look at.",
  ["shape/circle.go","shape/ellipse.go","shape/sphere.go","shape/torus.go"],[("generateIndices","shape/*.go")],["Mesh.Indices"])
p("M03","Primitive vertices lie on the requested surface",
  "Every vertex of a constructed circle, ellipse, sphere or torus lies on the surface with the requested centre, radii and axes, within a rounding error of 1e-12 relative to the magnitudes of the centre and the radii (the first vertex of a circle or ellipse is the centre itself). Consecutive vertices are one subdivision step apart, so the whole surface is sampled.",
  ["inputs","configurations"],"every centre and radius on the stated grids and at the stated scales, for each subdivision count in the stated range",
  "The tests use centre zero and one radius, and compare no coordinate.",
  ["shape/circle.go","shape/ellipse.go","shape/sphere.go","shape/torus.go"],[("generateVertices","shape/*.go")],["Mesh.Vertices"])
p("M04","Normals are outward unit normals, texture coordinates lie in [0,1]",
  "Every normal of a sphere or torus mesh has unit length and points outward along the surface at its vertex, within a rounding error of 1e-9. Every texture coordinate lies in [0,1], and along each row and column it increases from 0 at the first sample to 1 at full turn, in equal steps.",
  ["inputs","configurations"],"every centre and radius on the stated grids and at the stated scales, for each subdivision count in the stated range",
  "No test reads normals or texture coordinates.",
  ["shape/sphere.go","shape/torus.go"],[("generateVertices","shape/sphere.go, shape/torus.go")],["Mesh.Normals","Mesh.TexCoords"])

p("G01","The exported glTF holds exactly the mesh",
  "Exporting a mesh whose coordinates lie in the range of 32-bit floats produces a document whose single primitive's position data are the mesh's vertices in order, each coordinate rounded to the nearest 32-bit float, and whose index data are the mesh's indices in order. No vertex or index is added, dropped, reordered or altered.",
  ["inputs"],"every mesh of up to the stated number of vertices and indices with arbitrary finite coordinates and arbitrary index values",
  "The exporter tests write fixed shapes to disk and never read them back.",
  ["glTF/export.go","glTF/model.go"],[("Export","glTF/export.go"),("transferModel","glTF/model.go")],["document handed to the binary writer"])
p("G02","The exported glTF document is self-consistent",
  "In every document exported for a mesh with at least one vertex and coordinates in the range of 32-bit floats, the primitive's index, position and colour references name existing accessors of the right element type whose counts equal the numbers of indices, vertices and vertices; colours are all opaque white; the scene reaches the mesh through one root node. Every accessor's data lie inside the document's buffer, and the position accessor's bounds contain every exported position.",
  ["inputs"],"every non-empty mesh of up to the stated number of vertices and indices with arbitrary finite coordinates",
  "No test opens the exported file; accessor wiring is only exercised for four fixed meshes.",
  ["glTF/export.go","glTF/model.go"],[("Export","glTF/export.go")],["document handed to the binary writer"])

p("V01","Vector operations satisfy the algebra of R3",
  "Sum, difference, scaling, dot and cross product, norms, distances and component-wise absolute value agree with their definitions on every vector for which the arithmetic is exact: the cross product is orthogonal to both factors, antisymmetric, and satisfies Lagrange's identity. Each updating operation leaves its receiver equal to what the corresponding value operation returns, and value operations leave their operands unchanged.",
  ["inputs"],"every pair of vectors with coordinates on integer grids of the stated extent, at the stated scales; the in-place/value agreement for every pair of 64-bit float vectors",
  "The vector package's only test is about line-plane intersection and does not even build under vet.",
  ["r3/vector.go"],[("Add Sub Scale Scaled Dot Cross Abs Norm Norm2 Distance SquaredDistance Magnitude","r3/vector.go")],["returned vectors"])
p("V02","Normalising yields a unit vector, or zero for zero",
  "Normalising a non-zero vector whose squared length neither overflows nor underflows gives a vector of length one (relative error below 1e-12) with the same direction; normalising the zero vector gives the zero vector and never a NaN. The in-place and the value form agree, and the unit-length test accepts every normalised non-zero vector and rejects vectors whose length differs from one by more than 1e-6.",
  ["inputs"],"every vector on the stated integer grid",
  "Normalisation is only exercised indirectly, with axis-parallel directions.",
  ["r3/vector.go"],[("Normalize (both forms), IsUnit","r3/vector.go")],["returned vectors"])
p("V03","Interpolation is affine and meets its end points",
  "Interpolating between two points returns the first point at one end of the parameter range, the second at the other, and the affine combination of both for every parameter, which for parameters in between never leaves the box they span. The two interpolation functions agree when one's parameter is one minus the other's.",
  ["inputs"],"every pair of points on the stated grids and every dyadic parameter within the stated resolution, inside [0,1] and outside",
  "No test calls an interpolation function.",
  ["r3/vector.go"],[("Interpolate","r3/vector.go"),("GetInterpolationVector","r3/vector.go")],["returned vector"])
p("V04","A line meets a plane where both say it does",
  "Intersecting a line with a plane returns a point that satisfies the plane's equation and lies on the line, within rounding error, whenever the line is not parallel to the plane. A parallel line is reported (by a panic) and nothing else is.",
  ["inputs"],"every line and plane with integer coordinates within the stated bound",
  "TestIntersection fails by design and covers three hand-picked axis-aligned cases.",
  ["r3/line.go"],[("Line.IntersectPlane","r3/line.go")],["returned point or panic"])
p("V05","Plane distance and plane normals are geometric",
  "The distance reported between a point and a plane has the magnitude of the Euclidean distance and is zero exactly for points of the plane, with opposite signs on its two sides. The normal computed for three points is orthogonal to both edges and has the length of twice the triangle's area, so its direction follows the points' orientation.",
  ["inputs"],"every plane (normal and origin) and point with coordinates on integer grids of the stated extent, at the stated scales",
  "No test touches planes.",
  ["r3/vector.go","r3/plane.go"],[("CalculateDistanceToPlane","r3/vector.go"),("newPlane, calculateNormal","r3/plane.go")],["returned values"])

p("P01","The orientation predicate has the sign of the exact determinant",
  "For all points for which the arithmetic is exact, the 3D orientation predicate equals the orientation determinant: positive, zero or negative according to the side of the plane of the first three points on which the fourth lies. It changes sign when two points are swapped and is unchanged by translation.",
  ["inputs"],"all quadruples of points with coordinates on integer grids of the stated extent, at the stated scales",
  "The predicates package has no tests at all.",
  ["predicates/orient3d.go"],[("orient3dfast","predicates/orient3d.go")],["returned value"])
p("P02","The in-sphere predicate has the sign of the exact determinant",
  "For all points for which the arithmetic is exact, the in-sphere predicate equals the 5x5 lifted determinant: relative to the orientation of the first four points, it is positive exactly when the fifth lies strictly inside their circumscribing sphere and zero exactly when it lies on it.",
  ["inputs"],"all quintuples of points with coordinates on integer grids of the stated extent, at the stated scales",
  "The predicates package has no tests; meshing's test calls it on eight points and asserts nothing.",
  ["predicates/insphere.go"],[("InSphereFast","predicates/insphere.go")],["returned value"])
p("P03","The filtered in-sphere predicate never reports a wrong side",
  "The error-filtered in-sphere predicate returns either the same determinant as the unfiltered one or zero; it returns zero exactly when the magnitude of the determinant does not exceed the documented forward error bound, so a non-zero answer always has the correct sign.",
  ["inputs"],"all quintuples of points with integer coordinates within the stated bound",
  "No test calls it.",
  ["predicates/insphere.go","predicates/util.go"],[("inSphere","predicates/insphere.go")],["returned value"])

p("D01","The convex hull is convex and contains every point",
  "For every set of at least three points that are not all collinear, the 2D convex hull lists input points only, in one consistent rotational order without repetition and without a reflex turn, and every input point lies inside or on it. The caller's point slice is left untouched.",
  ["inputs"],"every list of up to the stated number of points on the stated grids, duplicates and collinear triples included, also as a slice with spare capacity",
  "triangulate2 has no tests.",
  ["triangulate2/hull.go"],[("ConvexHull","triangulate2/hull.go")],["returned polygon","caller's slice"])
p("D02","2D triangulation is Delaunay and covers the hull",
  "For every input that is not all collinear, the triangulation's triangles are non-degenerate, consistently oriented, use input points only, have no input point strictly inside their circumcircle, and their areas add up to the area of the convex hull, so that they tile it. Every distinct input point is a vertex of some triangle, and the reported hull is the boundary of that tiling.",
  ["inputs"],"every completion of the stated point templates by points of the stated integer grids, degenerate (cocircular, collinear, duplicate) positions included",
  "triangulate2 has no tests; which flips, hull walks and hash buckets are used depends on the point positions.",
  ["triangulate2/triangulator.go","triangulate2/triangulation.go","triangulate2/util.go","triangulate2/node.go"],[("Triangulate","triangulate2/triangulation.go"),("triangulate / legalize / hull walk","triangulate2/triangulator.go"),("area, inCircle, circumcenter, circumradius","triangulate2/util.go")],["Triangulation result"])
p("D03","Half-edges stay paired through every flip and insertion",
  "In every triangulation the half-edge list is an involution: each half-edge is unpaired or paired with exactly one other half-edge that is paired back with it, runs along the same segment in the opposite direction and belongs to another triangle; unpaired half-edges are exactly the hull edges. Flipping the edge between two triangles preserves this for the whole mesh.",
  ["inputs","histories"],"one flip or insertion step from every half-edge structure of up to the stated size that satisfies the invariant, and every complete run within the bounds of the 2D triangulation property",
  "triangulate2 has no tests; a wrong link shows only after particular flips.",
  ["triangulate2/triangulator.go","triangulate2/node.go"],[("legalize","triangulate2/triangulator.go"),("addTriangle, link","triangulate2/triangulator.go"),("newNode, remove","triangulate2/node.go")],["Halfedges, Triangles"],[{"name":"halfedges","meaning":"twin of each half-edge or -1","where":"triangulate2/triangulator.go"}])
p("D04","Triangulating never crashes, and degenerate input is reported",
  "Triangulating any list of points whose coordinates leave the orientation and in-circle tests exact returns normally: for a non-empty list it reports an error exactly when no triangle exists (fewer than three distinct points, or all collinear); an empty list has no triangles. No position of a point can send the search for its place on the advancing hull outside the internal tables.",
  ["inputs"],"every list of up to the stated number of points on the stated grids including duplicates and collinear sets; the table lookup for every pair of 64-bit floats",
  "triangulate2 has no tests.",
  ["triangulate2/triangulator.go","triangulate2/util.go"],[("triangulate","triangulate2/triangulator.go"),("pseudoAngle, hashKey","triangulate2/util.go, triangulate2/triangulator.go")],["error result, absence of panics"])
p("D05","Self-validation accepts valid and rejects broken triangulations",
  "Validating a triangulation reports an error whenever its half-edge list is not an involution, whenever its triangles do not cover the hull's area, or whenever its hull differs in area or perimeter from the convex hull of its points; it reports none for a triangulation the library itself produced.",
  ["inputs"],"every half-edge list of up to the stated length with values in range, and every single displaced vertex or dropped triangle within the stated grids",
  "No test calls the validator.",
  ["triangulate2/triangulation.go","triangulate2/util.go"],[("Validate","triangulate2/triangulation.go"),("polygonArea, polygonPerimeter","triangulate2/util.go")],["returned error"])
p("D06","2D triangulation ignores the height coordinate",
  "The triangles produced for a list of points depend on their X and Y coordinates only: changing any Z coordinate changes neither the success of the triangulation nor the triangles.",
  ["inputs"],"every choice of heights on the stated grid for the stated planar templates",
  "triangulate2 has no tests.",
  ["triangulate2/triangulator.go"],[("triangulate","triangulate2/triangulator.go")],["Triangulation result"])
p("D07","Planar geometric kernels agree with their definitions",
  "The planar predicates used for triangulating agree with exact geometry on all points for which arithmetic is exact: the signed area and the hull turn test have the sign of the orientation determinant, and the in-circle test holds exactly for points strictly inside the circle through three consistently oriented points. The circumcentre is equidistant from the three points and the circumradius is its squared distance to them, within rounding; degenerate triples have infinite radius.",
  ["inputs"],"all tuples of points with coordinates on integer grids of the stated extents, at the stated scales",
  "triangulate2 has no tests.",
  ["triangulate2/util.go","triangulate2/hull.go"],[("area, inCircle, circumradius, circumcenter","triangulate2/util.go"),("cross2D","triangulate2/hull.go")],["returned values"])

p("T01","The bounding box is the tightest one",
  "The bounding box computed for a non-empty list of points contains every point and touches a point on each of its six sides, for every finite coordinate value. The extreme points along the X axis are input points with the smallest and the largest X.",
  ["inputs"],"every list of up to the stated number of points with arbitrary finite 64-bit float coordinates",
  "The package's tests do not compile, so nothing is run.",
  ["triangulate3/englober.go","triangulate3/gdel3d.go"],[("computeBoundingBoxForVectors","triangulate3/englober.go"),("computeExtremitiesForAxeX","triangulate3/gdel3d.go")],["returned corners"])
p("T02","The initial tetrahedron is spanned by extreme input points",
  "The initial tetrahedron's four vertices are input points: two extreme along X, a third spanning with them the largest triangle, and a fourth spanning with these three the largest absolute volume over all input points. It has non-zero volume whenever its base is not degenerate and some point lies off the plane of the first three.",
  ["inputs"],"every list of up to the stated number of points with integer coordinates within the stated bound",
  "The package's tests do not compile, so nothing is run.",
  ["triangulate3/gdel3d.go","triangulate3/util.go"],[("createInitialTetra, getFurthestFrom*","triangulate3/gdel3d.go"),("Get2Ddist, Get3Ddist","triangulate3/util.go")],["returned vertices"])
p("T03","The englobing tetrahedron contains every point",
  "For every non-empty list of points with coordinates of magnitude up to 1e9 the englobing tetrahedron is non-degenerate and contains every point of the list, wherever in space the points lie. Building it never fails.",
  ["inputs"],"every list of up to the stated number of points with integer coordinates within the stated bound, in every octant, including coincident and coplanar points, at the stated scales",
  "The package's tests do not compile; they would check one unit cube.",
  ["triangulate3/englober.go"],[("constructEnglobingTetra","triangulate3/englober.go")],["returned mesh"])
p("T04","Point-in-tetrahedron is exact containment",
  "For every non-degenerate tetrahedron the containment test answers true exactly for the points of the closed tetrahedron, independently of the order of its vertices. The two implementations of the test in the code base give the same answer.",
  ["inputs"],"all non-degenerate tetrahedra and points with coordinates on integer grids of the stated extents, at the stated scales",
  "TestEnglobe only prints a message when the answer is false; the other package's tests do not compile.",
  ["meshing/util.go","triangulate3/util.go"],[("sameSide, vectorInTetrahedron","meshing/util.go"),("SameSide, VectorInTetrahedron","triangulate3/util.go")],["returned boolean"])

p("B01","The 3D enclosing tetrahedron contains every point",
  "For every non-empty list of points, the starting tetrahedron of the 3D tessellation contains every point of the list, its vertices precede the points in the point list, which otherwise is unchanged, and its four faces are the four vertex triples. The computed extremes are the smallest and largest coordinates of the points for every finite value.",
  ["inputs"],"every list of up to the stated number of points; arbitrary finite 64-bit floats for the extremes, integer coordinates for containment",
  "TestEnglobe checks one list and only prints when a point is outside.",
  ["meshing/mesh.go","meshing/helper.go"],[("englobe","meshing/mesh.go"),("findExtremas, computerInitialTetraPoints","meshing/helper.go")],["tetrahedron and point list"])
p("B02","The nearest point is a nearest input point",
  "The nearest-point search over a non-empty list returns a point of the list, and no point of the list is closer to the query.",
  ["inputs"],"every list of up to the stated number of points and every query point with coordinates on integer grids of the stated extent, at the stated scales",
  "TestSort prints the result for one list and asserts nothing.",
  ["meshing/helper.go"],[("getNearestPoint","meshing/helper.go")],["returned point"])
p("B03","Faces are identified by their vertex set",
  "Two faces are treated as the same face exactly when they have the same three vertices, in whatever order; a tetrahedron is identified by its vertices, and different tetrahedra never displace each other. A face belongs to the resulting mesh exactly when none of its vertices is a vertex of the enclosing tetrahedron.",
  ["inputs"],"every pair of faces and tetrahedra with vertex indices within the stated range",
  "No test looks at face identity; collisions need particular index values.",
  ["meshing/mesh.go"],[("face.hash, tetraHash","meshing/mesh.go"),("face.isPartOfMesh, addFace","meshing/mesh.go")],["hash equality"])
p("B04","The 3D tessellation consists of the Delaunay faces",
  "For points in general position, none of whose Delaunay tetrahedra has a circumscribing sphere that reaches the far-away enclosing tetrahedron, the reported faces are exactly the faces of the Delaunay tetrahedra of the points (tetrahedra whose circumscribing sphere contains no other point), each reported twice, once per side, whatever the order in which the points are given and in which internal tables are traversed. The caller's points are not modified.",
  ["inputs","schedules"],"every completion of the stated point templates by points of the stated integer grids that keeps the points in general position, for the stated traversal orders, also as a slice with spare capacity",
  "TestBowyerWatson runs one list and asserts nothing.",
  ["meshing/mesh.go","meshing/helper.go","predicates/insphere.go"],[("bowyerWatson","meshing/mesh.go"),("connect, faceCheck","meshing/mesh.go"),("computerInitialTetraPoints","meshing/helper.go")],["returned face index list"])
p("B05","Tessellation output is well formed for every input",
  "For every list of points, degenerate or not, the 3D tessellation returns normally and its result is a list of triples of distinct indices of input points.",
  ["inputs","schedules"],"every list of up to the stated number of points on the stated integer grid, coincident, collinear and coplanar points included, for the stated traversal orders",
  "TestBowyerWatson runs one list and asserts nothing.",
  ["meshing/mesh.go"],[("bowyerWatson","meshing/mesh.go"),("isPartOfMesh, addFace","meshing/mesh.go")],["returned face index list"])
p("B06","Inserting a point splits one tetrahedron into four",
  "Inserting a point into a tetrahedron appends it after the four vertices and yields exactly the four tetrahedra that join it to the four faces, each as four faces given once in each orientation. Every index names a vertex.",
  ["inputs"],"every inserted point with arbitrary 64-bit float coordinates and every previous index list within bounds",
  "No test calls the insertion.",
  ["meshing/flip.go","meshing/util.go"],[("flip14","meshing/flip.go"),("duplicateInReverse","meshing/util.go")],["vertices and indices after the call"])

p("N01","Knot span lookup finds the span containing the parameter",
  "For every non-decreasing knot vector whose valid parameter range is bounded by non-empty spans, and every parameter in that range, the lookup terminates and returns the span with U[i] <= u < U[i+1] (the last non-empty span at the upper end).",
  ["inputs"],"every degree, number of control points and integer knot vector within the stated bounds, and every finite 64-bit float parameter",
  "TestCurvePoint evaluates one parameter of one uniform knot vector and asserts nothing; its comments list inputs known to fail.",
  ["nurbs/basis.go"],[("findSpan","nurbs/basis.go")],["returned index"])
p("N02","Basis functions are non-negative and sum to one",
  "At every parameter of a non-empty span the computed B-spline basis functions are non-negative, sum to one, and equal the Cox-de Boor recursion, within rounding error.",
  ["inputs"],"every degree up to the stated bound, every non-decreasing integer knot vector and every dyadic parameter of the span within the stated grid",
  "TestCurvePoint evaluates one parameter of one uniform knot vector and asserts nothing.",
  ["nurbs/basis.go"],[("basisFuns","nurbs/basis.go")],["returned slice"])
p("N03","Basis function derivatives are the derivatives of the basis",
  "The derivative table's zeroth row is the basis functions themselves; its k-th row equals the k-th derivatives given by the B-spline derivative recursion, and for every k at least 1 that row sums to zero, within rounding error.",
  ["inputs"],"every degree and derivative order up to the stated bound, every non-decreasing integer knot vector and integer parameter of the span within the stated grid",
  "No test calls it.",
  ["nurbs/basis.go"],[("dersBasisFuns","nurbs/basis.go")],["returned table"])
p("N04","Curve points are the B-spline combination of control points",
  "A curve point is the sum of the control points weighted by the basis functions of the span containing the parameter: it lies in the bounding box of the control points of that span, equals the common value when they coincide, and meets the first and last control point at the ends of a clamped knot vector.",
  ["inputs"],"every degree, knot vector, parameter and control polygon within the stated grids",
  "TestCurvePoint evaluates one parameter and asserts nothing.",
  ["nurbs/curve.go","nurbs/basis.go"],[("curvePoint","nurbs/curve.go")],["returned point"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
