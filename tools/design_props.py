# Per property: (how the solver decides it and against what oracle, why the tests cannot, what is left out)
D={
"S01":("File text is assembled in the harness from concrete pieces and arbitrary bytes; the real lexer runs on it (file reading, bufio, strings are executed or modelled, the bytes stay symbolic). Oracle: the instances the text was assembled from.","Strings of up to six arbitrary bytes and all layouts at several places at once.","Comments, complex (multi-record) instances, longer arbitrary texts."),
"S02":("The argument splitter runs on every balanced text within the bound; the oracle `scan`/`pieces` in harness/step/common.go is an independent depth-and-quote counter.","Every text, not samples: an error that needs a quote inside the third nesting level is in the space.","Texts beyond eight free bytes other than the templates."),
"S03":("As S02, for lists, matrices and logicals; matrices are also built shape by shape so that rows of different lengths occur.","As S02.","Wider shapes only with one arbitrary element."),
"S04":("`Parse` runs on symbolic tables (types, argument texts, references), on whole texts and, for the worklist alone, on every reference graph; a step limit makes non-termination a failing path. Table traversal order is a parameter. Oracle: no panic, no path beyond the step bound, every reachable identifier processed once.","Cycles, dangling references and short argument lists in all combinations.","Tables larger than three arbitrary instances (60 with one arbitrary)."),
"S05":("A surface instance with arbitrary attribute texts is written, lexed and parsed; the captured output is compared with the ISO 10303-42 attribute at each position.","All attributes are different symbolic texts, so any swap is a counterexample.","-"),
"S06":("Parsing of tables with symbolic references; the visited set is compared with the closure computed in the harness over the attribute positions of the standard.","Every reference is symbolic, so following the wrong position is a counterexample.","-"),
"M01":("Mesh constructors run with symbolic radii and concrete counts; any index at a symbolic position is asserted to be in range.","All counts up to the bound and the large ones; the tests use one.","Counts beyond those listed."),
"M02":("For each count the triangle list is turned into a set of directed edges; coincidence of vertices comes from the computed coordinates (small meshes) or the place in the sample grid (large ones).","A missing band for odd counts only, a 16-bit wrap-around.","Counts beyond those listed."),
"M03":("Radii and centre are symbolic dyadic numbers, sines and cosines of the concrete angles are concrete; each vertex coordinate is an affine form whose distance from the surface is bounded by rounding-error terms. Oracle: the implicit equation and the angle between neighbours.","All centres and radii, also tiny, huge and far from the origin.","Other counts; radii off the dyadic grids."),
"M04":("As M03, for normals (reference mesh against geometry, every other mesh against the reference) and texture coordinates.","As M03.","As M03."),
"G01":("Bit-precise floats. The real exporter builds the document; SaveBinary/Open are modelled as keeping it (natively the file is really written and read). Oracle: math.Float32bits of each vertex, each index.","All 64-bit coordinates including subnormals and rounding cases, all 32-bit indices.","Meshes of more vertices are concrete but for one."),
"G02":("As G01; structural assertions over accessors, views, bounds and scene.","As G01.","As G01."),
"V01":("Exact rational arithmetic with rounding analysis proves every operation exact on the grids; both sides become canonical polynomials, remaining differences go to the solver.","All vectors of the grids at six scales.","Coordinates off the grids except for the in-place/value agreement."),
"V02":("Square roots and quotients are exact algebraic terms with relative error bounds; the norm of the result is compared with 1.","All vectors of the grids, at four scales.","Overflowing and underflowing squares."),
"V03":("Canonical polynomials in end points and parameter.","All parameters, inside and outside [0,1].","Inexact arithmetic."),
"V04":("The intersection is a quotient of polynomials; plane equation and collinearity are asserted within the rounding bound; parallelism is decided exactly.","All integer lines and planes; short directions and normals.","Inexact products in the parallelism test."),
"V05":("Polynomials over a square root; zero test, sign and magnitude.","All integer planes and points at several scales.","-"),
"P01":("The determinant of the code and the determinant of the definition are canonical polynomials in twelve variables; equality is syntactic or goes to the solver.","A polynomial identity: no sample can show it.","Inexact arithmetic (the property is stated for exact arithmetic)."),
"P02":("As P01 with fifteen variables; on inscribed tetrahedra the value is also compared with the power of the point.","As P01.","As P01."),
"P03":("The value is compared with determinant and error bound computed in exact arithmetic; near the threshold, nearly degenerate families with rounding of the order of the bound.","The filter's behaviour shows only next to its threshold.","Quintuples outside the families."),
"D01":("The real hull code (sort, pops, append) runs path by path; a path is a combinatorial outcome for all points of a region. Oracle: orientation determinants for every edge and point.","Every position of the free points relative to the others, ties included.","More than two free points (three for triples)."),
"D02":("Complete runs of the triangulator on concrete points plus free ones; each path fixes the triangles, then in-circle and orientation of every triangle and point are asserted for all positions on that path, and edges must match up and end at the hull.","Each path is one order of insertion, hull walk and flips; one run of the check covers every one reachable with the free point.","Several free points (thorough: two); free points that choose the first triangle only in D02_seed, D02_any."),
"D03":("Complete runs as in D02 and single `legalize` steps from every local configuration satisfying the invariant (an inductive step).","The inductive step does not depend on how the state was reached.","Neighbourhoods beyond the eight triangles."),
"D04":("Collinear, coincident and small lists symbolically; the hash-key bound bit-precisely for all pairs of floats.","Bit-precise rounding of the angle at 1.","Long lists only with one free point."),
"D05":("`Validate` on symbolic half-edge lists, displaced corners and dropped triangles; oracle: involution, area sum, hull equality computed in the harness.","All lists of six entries; all displacements on the grids.","Perturbations below the documented tolerance."),
"D06":("Heights are symbolic, the plane positions concrete or free: the triangles must equal those of the flat run.","All heights at once.","-"),
"D07":("Polynomial identities for area, turn and in-circle; quotients with error bounds for centre and radius.","All tuples of the grids at several scales.","Inexact determinants."),
"T01":("Bit-precise floats; both functions run on symbolic lists.","All finite floats including beyond the float32 range.","Lists over six points have one free point."),
"T02":("Paths of the arg-max loops; oracle: all squared areas and volumes compared as polynomials.","Every order and tie.","Two free points at most."),
"T03":("The construction (square roots, quotients) runs on symbolic points on lines; containment by the signs of five determinants with rounding bounds.","Positions in all octants, far and near, coincident.","Three-dimensional freedom of the points (solver cost); volumes past 2^1000."),
"T04":("Both implementations against the signs of the five volumes.","All tetrahedra and points of the grids, also tiny.","Inexact products."),
"B01":("Extremes bit-precisely; containment as in T03.","As T03.","As T03."),
"B02":("Paths of the search; result compared with every squared distance.","Ties and every order.","More than four free points."),
"B03":("String building from symbolic integers: hashes are compared for all pairs of index triples/quadruples.","Collisions need particular digits.","Indices beyond 9999."),
"B04":("Complete runs of the incremental tessellation; Go map traversal order is a parameter; oracle: brute force over all quadruples with in-sphere determinants.","Every position on the lines, several orders, traversal orders.","More than one free coordinate; points whose Delaunay spheres reach the enclosing tetrahedron (excluded by the property)."),
"B05":("Complete runs on degenerate lists.","Coincident, collinear, coplanar and cospherical lists.","As B04."),
"B06":("flip14 on arbitrary floats and index lists.","-","-"),
"N01":("The search loop unrolls per knot comparison; knots and parameter symbolic, also as arbitrary 64-bit floats.","Repeated knots in every position.","Degrees beyond 4 (thorough 8)."),
"N02":("Quotients of polynomials in gaps and parameter with rounding-error bounds, compared with the Cox-de Boor recursion.","All knot vectors and parameters of the grids.","Degree above four only with concrete knots."),
"N03":("As N02 with the derivative recursion.","As N02.","As N02."),
"N04":("As N02 with symbolic control points.","As N02.","As N02."),
}
