From 82fe1cb4280cddcfe3d1257f8639b71f4f6f33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 01/10] fix: RenderAll dropped the triangles returned together
 with io.EOF

A Renderer may return its last triangles along with the error that ends the
stream; the octree renderer does so when it finishes its work queue. RenderAll
left the loop before appending them, so models (and Create3MF output) lost
their last triangles.
---
 render/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..bef9bc8 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,10 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From b52b67987b344b9c304ffb34044a55cc74ebc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 02/10] fix: CreateSTL ignored the error of closing the file

File systems with delayed allocation, quotas or a network behind them report
failed writes at close. CreateSTL returned nil for such a truncated file.
---
 render/stl.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/stl.go b/render/stl.go
index f1c5230..f19b2a2 100644
--- a/render/stl.go
+++ b/render/stl.go
@@ -129,13 +129,18 @@ func (w *stlReader) Read(b []byte) (int, error) {
 	return it * stlTriangleSize, err
 }
 
-func createSTL(path string, r Renderer) error {
+func createSTL(path string, r Renderer) (err error) {
 	const sizeOfSTLHeader = 84
 	file, err := os.Create(path)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		// Data may still be refused when the file is closed.
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	// Do not write header.
 	_, err = file.Seek(sizeOfSTLHeader, 0)
 	if err != nil {
-- 
2.43.0


From 9591f541c20dc71839ab35d27e1cedcbe52cd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 03/10] fix: Create3MF ignored the error of closing the file

As for CreateSTL, a write refused at close left a broken file behind and
Create3MF returned nil.
---
 render/3mf.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/3mf.go b/render/3mf.go
index feea79c..f779fe0 100644
--- a/render/3mf.go
+++ b/render/3mf.go
@@ -167,12 +167,17 @@ func (m *model) AddObject(name string, src []r3.Triangle) error {
 	return nil
 }
 
-func (m *model) Create(filename string) error {
+func (m *model) Create(filename string) (err error) {
 	fp, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-	defer fp.Close()
+	defer func() {
+		// Data may still be refused when the file is closed.
+		if cerr := fp.Close(); err == nil {
+			err = cerr
+		}
+	}()
 	w := zip.NewWriter(fp)
 	defer w.Close()
 	f, err := w.Create(modelFile)
-- 
2.43.0


From 671af85b26b32381259ad60e33476e96c2907564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 04/10] fix: readBinarySTL lost data delivered together with
 io.EOF

An io.Reader may return its last bytes along with io.EOF. readBinarySTL then
rejected a complete file.
---
 render/stl.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/render/stl.go b/render/stl.go
index f19b2a2..3e1354f 100644
--- a/render/stl.go
+++ b/render/stl.go
@@ -197,13 +197,8 @@ func readBinarySTL(r io.Reader) (output []r3.Triangle, readErr error) {
 		}
 	}()
 	for i = 0; i < int(header.Count); i++ {
-		var n int
-		for n < 50 {
-			nr, err := r.Read(buf[n:])
-			if err != nil {
-				return nil, err
-			}
-			n += nr
+		if _, err := io.ReadFull(r, buf[:]); err != nil {
+			return nil, err
 		}
 		d.get(buf[:])
 		if err := d.validate(); err != nil {
-- 
2.43.0


From 5f6d0806cda1cdcd29199015fd0b48c200a10051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 05/10] fix: ImportedSDF3 was not safe for concurrent
 evaluation

Distance left its result in the shared mesh triangle for CopySign to pick up,
so two goroutines evaluating an imported model (as the octree renderer does)
got each other's sign or panicked. The result is now recomputed from the point.
---
 helpers/sdfexp/spatial3.go | 47 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 7882f5f..48e56b8 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -13,14 +13,12 @@ import (
 // with special focus on kdTriangle type.
 
 type meshTriangle struct {
-	C           r3.Vec          // Centroid
-	lastFeature triangleFeature // result from last distance calculation
-	lastClosest r3.Vec
-	Vertices    [3]int
-	m           *mesh        // to be able to construct triangle geometry.
-	N           r3.Vec       // Pseudo Face normal (scaled by 2*pi)
-	T           d3.Transform // Canalis transformation matrix.
-	InvT        d3.Transform // inverse of T
+	C        r3.Vec // Centroid
+	Vertices [3]int
+	m        *mesh        // to be able to construct triangle geometry.
+	N        r3.Vec       // Pseudo Face normal (scaled by 2*pi)
+	T        d3.Transform // Canalis transformation matrix.
+	InvT     d3.Transform // inverse of T
 }
 
 func (t *meshTriangle) Compare(c kdtree.Comparable, d kdtree.Dim) float64 {
@@ -46,7 +44,14 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 		}
 		point, t = t, point // make sure `t` is the triangle.
 	}
-	pxy := t.T.Transform(point.C)
+	closest, _ := t.closest(point.C)
+	return r3.Norm2(r3.Sub(point.C, closest))
+}
+
+// closest returns the point on the triangle closest to p
+// and the feature of the triangle it lies on.
+func (t *meshTriangle) closest(p r3.Vec) (r3.Vec, triangleFeature) {
+	pxy := t.T.Transform(p)
 	txy := t.triangle()
 	for i := range txy {
 		txy[i] = t.T.Transform(txy[i])
@@ -54,30 +59,28 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 	// We find the closest point to the transformed triangle
 	// in 2D space and then transform the results back to 3D space
 	onTriangle, feat := closestOnTriangle2(lowerVec(pxy), [3]r2.Vec{lowerVec(txy[0]), lowerVec(txy[1]), lowerVec(txy[2])})
-	t.lastFeature = feat
-	t.lastClosest = t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y})
-	return r3.Norm2(r3.Sub(point.C, t.lastClosest))
+	return t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y}), feat
 }
 
 // CopySign returns a value with the magnitude of dist
-// and the sign depending on whether the last call to Distance was
-// inside or outside the solid defined by the mesh (SDF).
-// Copysign expects p to be the same vector as last call to Distance.
+// and the sign depending on whether p is inside or outside the
+// solid defined by the mesh (SDF).
 func (t *meshTriangle) CopySign(p r3.Vec, dist float64) (signed float64) {
-	if t.lastFeature <= featureV2 {
-		// Distance last called nearest to triangle vertex.
-		vertex := t.m.vertices[t.Vertices[t.lastFeature]]
+	closest, feature := t.closest(p)
+	if feature <= featureV2 {
+		// p is nearest to triangle vertex.
+		vertex := t.m.vertices[t.Vertices[feature]]
 		signed = r3.Dot(vertex.N, r3.Sub(p, vertex.V))
-	} else if t.lastFeature <= featureE2 {
-		vertex1 := t.lastFeature - 3
+	} else if feature <= featureE2 {
+		vertex1 := feature - 3
 		edge := [2]int{t.Vertices[vertex1], t.Vertices[(vertex1+1)%3]}
 		if edge[0] > edge[1] {
 			edge[0], edge[1] = edge[1], edge[0]
 		}
 		norm := t.m.pseudoEdgeN[edge]
-		signed = r3.Dot(norm, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(norm, r3.Sub(p, closest))
 	} else {
-		signed = r3.Dot(t.N, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(t.N, r3.Sub(p, closest))
 	}
 	return math.Copysign(dist, signed)
 }
-- 
2.43.0


From 71a06250cecaf93474c850f6a0fde06c302f38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 06/10] fix: Polygon wrote into and kept the caller's vertex
 slice

Closing the loop appended to the argument, overwriting whatever followed it in
the caller's backing array, and later changes to the argument changed the SDF.
---
 form2/must2/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..a181292 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -27,7 +27,7 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 	}
 
 	// Close the loop (if necessary)
-	s.vertex = vertex
+	s.vertex = append([]r2.Vec(nil), vertex...)
 	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
 		s.vertex = append(s.vertex, vertex[0])
 	}
-- 
2.43.0


From 4f99fe2e61ece5056672af35f17601c8eee40ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 07/10] fix: Union2D and Union3D kept the caller's argument
 slice

Called as Union3D(parts...), reusing parts afterwards replaced members of the
union behind its back.
---
 sdf2.go | 2 +-
 sdf3.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..4783b60 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -382,7 +382,7 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	s := union2{sdf: append([]SDF2(nil), sdf...)}
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index ac49676..b4267bb 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -421,7 +421,7 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		sdf: append([]SDF3(nil), sdf...),
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


From d039c1ed7570dc49b15a82696a519bab9cb40360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 08/10] fix: ImportModel gave a different SDF each time it was
 called

The k-d tree was split around pivots chosen by a process-wide random source
inside gonum. The nearest-triangle search depends on the shape of the tree, so
importing the same model again in one process changed the distances.
---
 helpers/sdfexp/import.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 10fcbc7..4673215 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/soypat/sdf/internal/d3"
 	"gonum.org/v1/gonum/spatial/kdtree"
@@ -152,7 +153,10 @@ func (tr *mesh) Len() int { return len(tr.triangles) }
 // Pivot partitions the list based on the dimension specified.
 func (tr *mesh) Pivot(d kdtree.Dim) int {
 	p := kdPlane{dim: int(d), triangles: tr.triangles}
-	return kdtree.Partition(p, kdtree.MedianOfMedians(p))
+	// kdtree.MedianOfMedians depends on a process-wide random source: with it
+	// importing the same model twice yields differing trees and distances.
+	sort.Stable(p)
+	return kdtree.Partition(p, p.Len()/2)
 }
 
 // Slice returns a slice of the list using zero-based half
-- 
2.43.0


From fc7d8ffbe78928a5927b9914f49fafe49db14af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 09/10] fix: ImportModelV2 did not terminate on some meshes

The walk around a vertex stops at the triangle it started from. Where more
than two triangles share an edge it can enter a cycle that does not contain
that triangle. Bound the walk by the number of triangles.
---
 helpers/sdfexp/bih.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index de24743..db6d033 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -562,7 +562,9 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 				edge_vert := tri[next_j[j]]
 				next_tri, ok := edges[[2]int{edge_vert, idx}]
 				//fmt.Printf("next tri %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				for ok && next_tri != i {
+				// A vertex of a mesh that is not manifold may lead into a cycle
+				// of triangles which does not come back to the i'th.
+				for visited := 0; ok && next_tri != i && visited < len(mesh); visited++ {
 					alpha, wnormal = calc_alpha_wnormal(mesh[next_tri], idx, vertices)
 					normal_tot = r3.Add(normal_tot, wnormal)
 					weights += alpha
-- 
2.43.0


From 37401ca6d17723085ae38942cfb97a27b046a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 10/10] fix: ImportModelV2 panics on a triangle whose vertices
 coincide

A vertex that appears twice in a triangle, or two vertices within the
tolerance of each other, made the walk around the vertex index a
triangle with -1. Such a triangle has no normal either: leave it out.
---
 helpers/sdfexp/bih.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index db6d033..953db4b 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -430,7 +430,7 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 
 func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	vertices := make([]r3.Vec, 0)
-	mesh := make([][3]int, len(model))
+	mesh := make([][3]int, 0, len(model))
 	bb := r3.Box{
 		Min: r3.Vec{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64},
 		Max: r3.Vec{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64},
@@ -470,7 +470,8 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 	vert_cache := make(map[[3]int64]int)
 	// copy the model into the vertex and mesh arrays
 	hTol := 0.5 * tol
-	for i, tri := range model {
+	for _, tri := range model {
+		var face [3]int
 		for j, v := range tri {
 			// look for a vertex within tolerance
 			index := [3]int64{
@@ -480,12 +481,18 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 			}
 			if vidx, ok := vert_cache[index]; !ok {
 				vertices = append(vertices, v)
-				mesh[i][j] = len(vertices) - 1
+				face[j] = len(vertices) - 1
 				vert_cache[index] = len(vertices) - 1
 			} else {
-				mesh[i][j] = vidx
+				face[j] = vidx
 			}
 		}
+		if face[0] == face[1] || face[1] == face[2] || face[2] == face[0] {
+			// The triangle collapsed into an edge or a point: it has no normal,
+			// and its edge is part of the neighbouring triangles.
+			continue
+		}
+		mesh = append(mesh, face)
 	}
 	centroids := make(map[[3]int][3]float64)
 	for _, tri := range mesh {
-- 
2.43.0

