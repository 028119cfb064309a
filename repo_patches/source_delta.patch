From 87c3be1764070f5bd6582ae3c7ddd278e82ec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 01/21] fix: normalising the zero vector in place leaves it
 zero instead of NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From 93af16085ea782a63c9eba105878b90254238fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 02/21] fix: point-plane distance uses the plane's distance and
 normal length

---
 r3/vector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..e99f16b 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -109,8 +109,10 @@ func Cross(v Vector, ov Vector) Vector {
 	return Vector{v.Y*ov.Z - ov.Y*v.Z, v.Z*ov.X - ov.Z*v.X, v.X*ov.Y - ov.X*v.Y}
 }
 
-// CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+// CalculateDistanceToPlane returns the signed distance from vector v to plane p
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 {
+	return (Dot(p.Normal, v) + p.Distance) / p.Normal.Norm()
+}
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 105531da01c26546104ba6fdd3597f3c288c549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 03/21] fix: detect lines parallel to a plane without rounding
 the direction first

---
 r3/line.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..b442d66 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,10 +11,11 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
-	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
+	d := Dot(plane.Normal, line.Direction)
+	if d == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
 
-	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))
-	return Add(line.Vector, Normalize(line.Direction).Scaled(t))
+	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / d
+	return Add(line.Vector, line.Direction.Scaled(t))
 }
-- 
2.43.0


From ffa539774cd87287127cc9943981b0be13e99dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 04/21] fix: circle and ellipse meshes no longer index past the
 last vertex

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From 967d41d91b5f886ea580085b95175130336b5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 05/21] fix: sphere and torus meshes are built around their
 centre

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From 0391a35aaca9203fc336b16ff9a1cf111e26866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 06/21] fix: texture coordinates use real division instead of
 integer division

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..0f535bf 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..e480e35 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From cedccb22cb3bb46adbc2eb4ef55894bb0325d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 07/21] fix: torus normals are unit normals pointing out of the
 tube

---
 shape/torus.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index e480e35..5964c69 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -29,14 +29,12 @@ func (td Torus) Construct() Mesh {
 func (td Torus) generateVertices(torus *Mesh) {
 
 	var x, y, z, xy float64           //	vertex position
-	var nx, ny, nz, lengthInv float64 //	vertex normal
+	var nx, ny, nz float64            //	vertex normal
 	var s, t float64                  //	vertex texCoord
 
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
-
 	for i := 0; i < td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
@@ -58,9 +56,9 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
-			nz = z * lengthInv
+			nx = math.Cos(stackAngle) * math.Cos(sectorAngle)
+			ny = math.Cos(stackAngle) * math.Sin(sectorAngle)
+			nz = math.Sin(stackAngle)
 
 			normal := [3]float64{nx, ny, nz}
 			torus.Normals = append(torus.Normals, normal)
-- 
2.43.0


From 1aca92b6fade2c3f550611632c5ff6f61700a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 08/21] fix: sphere mesh reaches the south pole and is closed
 there

---
 shape/sphere.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 0f535bf..4f263b5 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -91,15 +91,13 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
-
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
-
-	// }
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From d0bf4c50468f3f5b5b0c381843a46fc8354c6ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 09/21] fix: torus mesh closes around the tube

---
 shape/torus.go | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 5964c69..5e14410 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -35,7 +35,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	for i := 0; i < td.stackCount; i++ {
+	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
 		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
@@ -77,37 +77,14 @@ func (td Torus) generateIndices(torus *Mesh) {
 
 	var k1, k2 uint32
 
-	//	TOP
-	k1 = 0
-	k2 = uint32(td.sectorCount + 1)
-
-	//fmt.Println("TOP")
-	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
-		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
-		// k1+1 => k2 => k2+1
-		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
-	}
-
-	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
-
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
-
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
-
-	// }
-
-	//	MIDDLE
-	for i := 1; i < td.stackCount-1; i++ {
+	for i := 0; i < td.stackCount; i++ {
 
 		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
 		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack
 
 		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-			// 2 triangles per sector excluding first and last stacks
+			// 2 triangles per sector
 			// k1 => k2 => k1+1
 			torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-- 
2.43.0


From f6ed35f14fd54a454cd37ca8c640700e24514025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 10/21] fix: triangulating a single point reports an error
 instead of panicking

---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From a39903f670e15b5e89ca7723eebd3f705f2f5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 11/21] fix: the planar triangulation ignores the height of the
 points

---
 triangulate2/hull.go         |  2 +-
 triangulate2/triangulator.go |  8 ++++----
 triangulate2/util.go         | 10 +++++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..3276dfa 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && squaredDistance2D(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..2db7c06 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := squaredDistance2D(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := squaredDistance2D(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = squaredDistance2D(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if squaredDistance2D(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..6a174f1 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -19,6 +19,14 @@ func pseudoAngle(dx, dy float64) float64 {
 	return math.Max(0, math.Min(1-eps, p))
 }
 
+// squaredDistance2D ignores the height of the points, like every other
+// computation of the planar triangulation.
+func squaredDistance2D(a, b r3.Vector) float64 {
+	dx := b.X - a.X
+	dy := b.Y - a.Y
+	return dx*dx + dy*dy
+}
+
 func area(a, b, c r3.Vector) float64 {
 	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
 }
@@ -98,7 +106,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(squaredDistance2D(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From ca70cf8b7a15c2e42ac7a320a895b8f889b6e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 12/21] fix: bounding box and extreme points for coordinates
 beyond the float32 range

---
 triangulate3/englober.go | 4 ++--
 triangulate3/gdel3d.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..87b3182 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -58,8 +58,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.Inf(1), math.Inf(1), math.Inf(1)}
+	maxExtremity := r3.Vector{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..0ad2771 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.Inf(1), math.Inf(1), math.Inf(1)}
+	maxExtremity := r3.Vector{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From 81c6efa2f8c85e4aa9b57c16f4903e5ab6e6fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 13/21] fix: the initial tetrahedron takes the point furthest
 from its base

---
 triangulate3/gdel3d.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 0ad2771..cc97ef0 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -19,7 +19,7 @@ func createInitialTetra(Vectors []r3.Vector) []r3.Vector {
 }
 func getFurthestFromTwoVectors(Vectors []r3.Vector, a, b r3.Vector) r3.Vector {
 	max := 0.0
-	var furthestVector r3.Vector
+	furthestVector := a
 	for _, Vector := range Vectors {
 		dist := Get2Ddist(a, b, Vector)
 		if max < dist {
@@ -32,10 +32,10 @@ func getFurthestFromTwoVectors(Vectors []r3.Vector, a, b r3.Vector) r3.Vector {
 
 func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vector {
 	max := 0.0
-	var furthestVector r3.Vector
+	furthestVector := a
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From dd7531baa3b579c3c7ae8dd14968886bd96e1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 14/21] fix: the englobing tetrahedron contains every point

---
 triangulate3/englober.go | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 87b3182..2799ba5 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -7,37 +7,19 @@ import (
 )
 
 func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
-	offset := 1.0
-
 	minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)
 
+	reach := r3.Add(r3.Abs(minExtremity), r3.Abs(maxExtremity))
+	offset := 1 + 1e-6*(reach.X+reach.Y+reach.Z)
 	minExtremity.Add(r3.Vector{-offset, -offset, -offset})
 	maxExtremity.Add(r3.Vector{offset, offset, offset})
 
-	//	get bottom plane
-	normal := r3.Vector{0, 1, 0}
-	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
+	// the corner of the box and one point per axis far enough from it for the
+	// opposite face to pass beyond the other end of the box
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
-	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
-	Direct1 := r3.Sub(top, upperVector1)
-	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
-	// first bottom Intersection Vector
-	tetraPoint1 := line1.IntersectPlane(lowerPlane)
-
-	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
-	Direct2 := r3.Sub(top, upperVector2)
-	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
-	// second bottom Intersection Vector
-	tetraPoint2 := line2.IntersectPlane(lowerPlane)
-
-	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
-	Direct3 := r3.Sub(top, upperVector3)
-	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
-	// third bottom Intersection Vector
-	tetraPoint3 := line3.IntersectPlane(lowerPlane)
+	tetraPoint1 := minExtremity
+	tetraPoint2 := r3.Vector{minExtremity.X + 4*(maxExtremity.X-minExtremity.X), minExtremity.Y, minExtremity.Z}
+	tetraPoint3 := r3.Vector{minExtremity.X, minExtremity.Y, minExtremity.Z + 4*(maxExtremity.Z-minExtremity.Z)}
 
 	indices := []uint32{0, 1, 2,
 		0, 2, 3,
@@ -51,7 +33,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := minExtremity.Y + 4*(maxExtremity.Y-minExtremity.Y)
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From 1b66388ef6a39bf23cceb754896a66c02a7cab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 15/21] fix: the enclosing tetrahedron stays clear of the
 points and of their circumspheres

---
 meshing/helper.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/meshing/helper.go b/meshing/helper.go
index 614e76b..77335e5 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -95,15 +95,19 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	xmin, ymin, zmin := h.min.X, h.min.Y, h.min.Z
 	xmax, ymax, zmax := h.max.X, h.max.Y, h.max.Z
 
-	xtetra := xmin + 3*(xmax-xmin)
-	ytetra := ymin + 3*(ymax-ymin)
-	ztetra := zmin + 3*(zmax-zmin)
+	// The vertices lie far away from the points, outside the circumscribing
+	// spheres of the tetrahedra between them, and in no special position, so
+	// that they are not cospherical with points that lie on a grid.
+	margin := 131072 * ((xmax - xmin) + (ymax - ymin) + (zmax - zmin) + 1)
+	xtetra := xmin + 3*(xmax-xmin) + 4*margin
+	ytetra := ymin + 3*(ymax-ymin) + 4*margin
+	ztetra := zmin + 3*(zmax-zmin) + 4*margin
 
 	//Bounding Tetrahedron
-	p1 := r3.Vector{X: xmin, Y: ymin, Z: zmin}
-	p2 := r3.Vector{X: xtetra, Y: ymin, Z: zmin}
-	p3 := r3.Vector{X: xmin, Y: ytetra, Z: zmin}
-	p4 := r3.Vector{X: xmin, Y: ymin, Z: ztetra}
+	p1 := r3.Vector{X: xmin - 1.03125*margin, Y: ymin - 1.0625*margin, Z: zmin - 1.09375*margin}
+	p2 := r3.Vector{X: xtetra, Y: ymin - 1.125*margin, Z: zmin - 1.15625*margin}
+	p3 := r3.Vector{X: xmin - 1.1875*margin, Y: ytetra, Z: zmin - 1.21875*margin}
+	p4 := r3.Vector{X: xmin - 1.25*margin, Y: ymin - 1.28125*margin, Z: ztetra}
 
 	return p1, p2, p3, p4
 }
-- 
2.43.0


From 63603d80cdbe18d3bc75dd734cc0b8158d241eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 16/21] fix: the tessellation's in-sphere test takes the
 tetrahedron's orientation into account

---
 meshing/mesh.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..a38b37a 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -153,6 +153,16 @@ func connect(f face, pointIndex int) tetra {
 	return tetra{f.pa, f.pb, f.pc, pointIndex, newTetraFaces}
 }
 
+// inCircumsphere tells whether p lies in the sphere through the vertices of a
+// tetrahedron, whatever the order of the vertices.
+func inCircumsphere(pa, pb, pc, pd, p r3.Vector) bool {
+	det := predicates.InSphereFast(pa, pb, pc, pd, p)
+	if r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa)) < 0 {
+		det = -det
+	}
+	return det >= 0
+}
+
 func bowyerWatson(points ...r3.Vector) []int {
 	t := tetrahedrisation{}
 
@@ -169,7 +179,7 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			if inCircumsphere(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) {
 				badTetras = append(badTetras, tetra)
 			}
 		}
-- 
2.43.0


From ca294674fd93d872aadec696a4e04bd6999089c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 17/21] fix: derivatives of the basis functions follow the
 B-spline recursion

---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..4101c39 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -91,9 +91,10 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
 	/* ------------------------------------ */
+	ndu[0][0] = 1.
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -141,7 +142,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 9a4d23d5fa790e5a0b8c887913280477fb5afe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 18/21] fix: argument and array lists honour quoted strings,
 white space and empty lists

---
 step/util.go | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..fe5360e 100644
--- a/step/util.go
+++ b/step/util.go
@@ -13,23 +13,33 @@ import (
 func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
+	quoted := false
 	argument := make([]rune, 0)
 	for _, r := range argumentsText {
-		if r == '(' {
+		if r == '\'' {
+			quoted = !quoted
+		}
+		if !quoted && r == '(' {
 			openBrackets++
 		}
-		if r == ')' {
+		if !quoted && r == ')' {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
-			arguments = append(arguments, string(argument))
+		/* the closing bracket of the list, only `;` follows */
+		if openBrackets < 0 {
+			break
+		}
+		if !quoted && openBrackets == 0 && r == ',' {
+			arguments = append(arguments, strings.TrimSpace(string(argument)))
 			argument = make([]rune, 0)
 			continue
 		}
 		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
+	lastArgument := strings.TrimSpace(string(argument))
+	if len(arguments) == 0 && lastArgument == "" {
+		return arguments
+	}
 	arguments = append(arguments, lastArgument)
 	return arguments
 }
@@ -42,26 +52,37 @@ func getArguments(argumentsText string) []string {
 */
 /* TODO:handle ERRORS */
 func getArray(arrayText string, t reflect.Kind) []string {
+	array := make([]string, 0)
+	arrayText = strings.TrimSpace(arrayText)
+	if !strings.HasPrefix(arrayText, "(") || !strings.HasSuffix(arrayText, ")") {
+		return array
+	}
 	/* removing `(` from start and `)` from end*/
-	arrayText = arrayText[1 : len(arrayText)-1]
+	arrayText = strings.TrimSpace(arrayText[1 : len(arrayText)-1])
+	if arrayText == "" {
+		return array
+	}
 	openBrackets := 0
+	quoted := false
 	element := make([]rune, 0)
-	array := make([]string, 0)
 	for _, r := range arrayText {
-		if r == '(' {
+		if r == '\'' {
+			quoted = !quoted
+		}
+		if !quoted && r == '(' {
 			openBrackets++
 		}
-		if r == ')' {
+		if !quoted && r == ')' {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
-			array = append(array, string(element))
+		if !quoted && openBrackets == 0 && r == ',' {
+			array = append(array, strings.TrimSpace(string(element)))
 			element = make([]rune, 0)
 			continue
 		}
 		element = append(element, r)
 	}
-	array = append(array, string(element))
+	array = append(array, strings.TrimSpace(string(element)))
 	return array
 }
 
-- 
2.43.0


From a34513f1db2e60011facaf7c51d79a27ece6d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 19/21] fix: the lexer splits a STEP file into its instances at
 the semicolons

---
 step/lex.go | 76 ++++++++++++++++-------------------------------------
 1 file changed, 22 insertions(+), 54 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..859fa1d 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -1,10 +1,8 @@
 package step
 
 import (
-	"bufio"
 	"flag"
-	"io"
-	"os"
+	"io/ioutil"
 	"strings"
 )
 
@@ -53,63 +51,29 @@ func initLexer(filename string) Lexer {
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
 	flag.Parse()
-	file, err := os.Open(l.Filename)
-
+	text, err := ioutil.ReadFile(l.Filename)
 	check(err)
-	defer file.Close()
-	reader := bufio.NewReader(file)
 
-	/* symbolData is the data related to the parsed symbol
-	---got from the step file */
-	symbolText := ""
+	/* symbolText is the text of the statement being read: the
+	---statements of a step file end with a `;` and may span
+	---several lines or share one */
+	symbolText := make([]rune, 0)
 	symbolTable := make(SymbolTable, 0)
-	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
-	for {
-		line, _, err := reader.ReadLine()
-
-		if err == io.EOF {
-			break
+	quoted := false
+	for _, r := range string(text) {
+		if r == '\'' {
+			quoted = !quoted
 		}
-
-		buffer := string(line)
-
-		/* DEBUG BREAKPOINT */
-		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
-
-		/* skippin empty lines*/
-		/*
-			make it more robust to support multilines /could be the cause of a bug/
-		*/
-		if len(buffer) == 0 {
-			continue // empty
+		if r == '\n' || r == '\r' {
+			continue
 		}
-		/* __--------------- */
-		/*	you can optimize this further more by making sure the symbol
-			is init to the first value when you start parsing and remvove
-			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
-			/* --sync method
-			---fmt.Println("emit") */
-
-			//fmt.Println(buffer, "buffer")
-			/*  the symbol data gets filled by the whole step description
-			----before getting split into identifier and definition */
-			if len(symbolText) > 0 {
-				symbolTable.add(symbolText)
-			}
-			/* ---------------------------------------------------- */
-			/*
-				---async method
-				symbol := Symbol{ID: identifier, Def: definition}
-				l.emit(symbol)
-			*/
-			/*_----------------------------------------------------_*/
-			symbolText = buffer // is not empty and does not contain =
-		} else {
-			symbolText += buffer
+		symbolText = append(symbolText, r)
+		if !quoted && r == ';' {
+			symbolTable.add(string(symbolText))
+			symbolText = symbolText[:0]
 		}
 	}
-	symbolTable.add(symbolText)
+	symbolTable.add(string(symbolText))
 	return symbolTable
 }
 
@@ -123,7 +87,11 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
+	/* the header, the footer and the section keywords are not symbols */
+	if len(split) < 2 || !strings.HasPrefix(identifier, "#") || !strings.Contains(split[1], "(") {
+		return
+	}
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
-- 
2.43.0


From 3704d8393a8c2465e2ccf228fb1b0ade51791a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 20/21] fix: missing instances and arguments no longer crash
 the parser

---
 step/template.go | 56 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/step/template.go b/step/template.go
index 615acfd..e6fe131 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,16 +11,26 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
+/* argument : an argument of a definition, empty if the definition or
+---the argument is missing */
+func (p *Parser) argument(key string, index int) string {
+	arguments := p.lexemes[key].Arguments
+	if index >= len(arguments) {
+		return ""
+	}
+	return arguments[index]
+}
+
 func (p *Parser) productDefinitionShape(key string) {
 
-	productDefinitionState := parseState{fn: p.productDefinition, key: p.lexemes[key].Arguments[2]}
+	productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 2)}
 	p.nextStates = append(p.nextStates, productDefinitionState)
 
 }
 func (p *Parser) productDefinition(key string) {
 
-	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
+	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.argument(key, 2)}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.argument(key, 2)}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -36,9 +46,9 @@ func (p *Parser) productDefinitionContext(key string) {
 
 func (p *Parser) axis2Placement3D(key string) {
 
-	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
+	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.argument(key, 1)}
+	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
+	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -47,8 +57,7 @@ func (p *Parser) cartesianPoint(key string) {
 	//fmt.Println("key:", key)
 	//fmt.Println("value", p.lexemes[key])
 
-	arguments := p.lexemes[key].Arguments
-	coordinates := getArray(arguments[1], reflect.Float64)
+	coordinates := getArray(p.argument(key, 1), reflect.Float64)
 	_ = coordinates
 	//fmt.Println("coordinates:", coordinates)
 
@@ -62,7 +71,7 @@ func (p *Parser) manifoldSolidBRep(key string) {
 
 	parseStates := make([]parseState, 0)
 
-	closedShellState := parseState{fn: p.closedShell, key: p.lexemes[key].Arguments[1]}
+	closedShellState := parseState{fn: p.closedShell, key: p.argument(key, 1)}
 	parseStates = append(parseStates, closedShellState)
 	// vectorLoopState := parseState{fn: parseVectorLoop, key: l[key].Arguments[1]}
 	// if l[key].Type == "MANIFOLD_SOLID_BREP" {
@@ -89,8 +98,7 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
+	neighbourID := p.argument(key, 1)
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
@@ -115,7 +123,7 @@ func (p *Parser) sphericalSurface(key string) {
 	// and propagate to new p.nextStates of the parser.
 	//p.nextStates := make([]parseState, 0)
 	fmt.Println("Bazinga!!!!!!")
-	radius := p.lexemes[key].Arguments[2]
+	radius := p.argument(key, 2)
 	fmt.Println("radius:", radius)
 
 }
@@ -158,18 +166,18 @@ func (p *Parser) bSplineSurfaceWithKnots(key string) {
 	*/
 	fmt.Println("Hooray! we found an awesome bSplineSurface with KNOTS")
 	fmt.Println("len(arguemnts):", len(p.lexemes[key].Arguments))
-	name := p.lexemes[key].Arguments[0]
-	uDegree := p.lexemes[key].Arguments[1]
-	vDegree := p.lexemes[key].Arguments[2]
-	controlPointsList := getMatrix(p.lexemes[key].Arguments[3])
-	surfaceForm := p.lexemes[key].Arguments[4] /* this is buggy */
-	uClosed := getLogical(p.lexemes[key].Arguments[5])
-	vClosed := getLogical(p.lexemes[key].Arguments[6])
-	selfIntersect := getLogical(p.lexemes[key].Arguments[7])
-	uMultiplicities := getArray(p.lexemes[key].Arguments[8], reflect.Int)
-	vMultiplicities := getArray(p.lexemes[key].Arguments[9], reflect.Int)
-	uKnots := getArray(p.lexemes[key].Arguments[10], reflect.Float64)
-	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
+	name := p.argument(key, 0)
+	uDegree := p.argument(key, 1)
+	vDegree := p.argument(key, 2)
+	controlPointsList := getMatrix(p.argument(key, 3))
+	surfaceForm := p.argument(key, 4) /* this is buggy */
+	uClosed := getLogical(p.argument(key, 5))
+	vClosed := getLogical(p.argument(key, 6))
+	selfIntersect := getLogical(p.argument(key, 7))
+	uMultiplicities := getArray(p.argument(key, 8), reflect.Int)
+	vMultiplicities := getArray(p.argument(key, 9), reflect.Int)
+	uKnots := getArray(p.argument(key, 10), reflect.Float64)
+	vKnots := getArray(p.argument(key, 11), reflect.Float64)
 
 	surfaceJob := bSplineSurfaceWithKnots{
 		name:              name,
-- 
2.43.0


From fe20ff179fb8aba747e01e5d3afa19dfe83b1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 21/21] fix: references are followed from the attribute
 positions and type names of ISO 10303

---
 step/bridge.go   | 4 ++--
 step/template.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..2e8521b 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -18,13 +18,13 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.skipUtility
 	case "VERTEX_LOOP":
 		return parser.vertexLoop
-	case "AXIS_2_PLACEMENT_3D":
+	case "AXIS2_PLACEMENT_3D":
 		return parser.axis2Placement3D
 	case "FACE":
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
diff --git a/step/template.go b/step/template.go
index e6fe131..674bf54 100644
--- a/step/template.go
+++ b/step/template.go
@@ -30,7 +30,7 @@ func (p *Parser) productDefinitionShape(key string) {
 func (p *Parser) productDefinition(key string) {
 
 	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.argument(key, 2)}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.argument(key, 2)}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.argument(key, 3)}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -47,8 +47,8 @@ func (p *Parser) productDefinitionContext(key string) {
 func (p *Parser) axis2Placement3D(key string) {
 
 	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.argument(key, 1)}
-	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
-	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 1)}
+	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 2)}
+	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 3)}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -98,7 +98,7 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	neighbourID := p.argument(key, 1)
+	neighbourID := p.argument(key, 2)
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-- 
2.43.0

