From dbd282134ab64a4073eab27356a981dd9bf638af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:38 +0000
Subject: [PATCH 01/46] fix: Euler angles rotation mirrored the y axis; the
 screen flip belongs to the camera

---
 src/RendererCamera.cpp | 1 +
 src/Transform.cpp      | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..7ba2b37 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -40,6 +40,7 @@ Point3 RendererCamera::local_ref(const Point3& pc) const
 	pLocal.z() -= _z;
 
 	_rot.apply(pLocal);
+	pLocal.y() = -pLocal.y(); // screen y axis goes down
 
 	// ahead move
 	pLocal.z() = pLocal.z() + _ahead;
diff --git a/src/Transform.cpp b/src/Transform.cpp
index faded30..4b9046a 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -65,13 +65,13 @@ void RotationEulerAngles::apply(Point3& p) const
 
 	//pitch rotation
 	tmp = p.y();
-	p.y() = p.z() * _pitchSin - p.y() * _pitchCos;
+	p.y() = p.y() * _pitchCos - p.z() * _pitchSin;
 	p.z() = p.z() * _pitchCos + tmp * _pitchSin;
 
 	//roll rotation
 	tmp = p.x();
-	p.x() = p.x() * _rollCos + p.y() * _rollSin;
-	p.y() = p.y() * _rollCos - tmp * _rollSin;
+	p.x() = p.x() * _rollCos - p.y() * _rollSin;
+	p.y() = p.y() * _rollCos + tmp * _rollSin;
 }
 ///////////////////////////////////////////////////////////////////////////
 RotationQuaternion::RotationQuaternion()
-- 
2.43.0


From 3ad40b24e0a653c24ab3f0e01717b0e1acc36d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 02/46] fix: equal weights kept the weights a surface had
 before

---
 src/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..b3bc4bf 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -130,7 +130,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From 9398c6150c6d3c29886a1e2c9458041422cbe727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 03/46] fix: clearing a surface kept its closed flags

---
 src/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index b3bc4bf..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
-- 
2.43.0


From fb9dd79b54a3828d898952f42ec78ef5b57ad8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:35 +0000
Subject: [PATCH 04/46] fix: polyline of a curve could miss its last point

---
 src/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..6bcd521 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -267,11 +267,11 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
+	int iNbSegments = (int)_points.size() * 10; //todo set 10 dynamic
 	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
+	for (int i = 0; i <= iNbSegments; i++)
 	{
-		evaluate(t, p);
+		evaluate((double)i / iNbSegments, p);
 		polyline.push_back(p);
 	}
 }
-- 
2.43.0


From ddb867a2e30fff730aff27dd986db672e3b54c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:38 +0000
Subject: [PATCH 05/46] fix: NURBS height fields mixed up samples when the two
 sizes differ

---
 src/NurbsUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..ed92029 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -32,7 +32,7 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 		}
 
 	n.set_degree(iDegree, iDegree);
-	n.set_points(points, iSizeX, iSizeY);
+	n.set_points(points, iSizeY, iSizeX); // y runs first
 	n.set_uniform_u();
 	n.set_uniform_v();
 	n.set_equals_weights();
-- 
2.43.0


From 452d9a42a3a1f0651e92257a3810659cb84e7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 06/46] fix: NURBS patches were made for removed triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index ed92029..588b5e8 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From b88606d84bfb5f2265e85f9882651c3773243f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 07/46] fix: assigning a mesh leaked its storage, assigning it
 to itself lost its content

---
 src/Mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..c279be4 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
@@ -109,7 +110,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
-- 
2.43.0


From a22b89b4720afd5574b29907dc7b2ad692156005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:04 +0000
Subject: [PATCH 08/46] fix: appending a mesh to itself never ended

---
 src/Mesh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index c279be4..419a0b5 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -127,7 +127,9 @@ void Mesh::add_mesh(const Mesh& f)
 	_iColor = f.get_color();
 
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices(); // f may be this mesh, and grow
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -135,7 +137,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From ab8c77e53b895006932347411cee97131e7b774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:08 +0000
Subject: [PATCH 09/46] fix: assigning a face or a solid did nothing and
 leaked, copying a solid lost its faces

---
 src/Face.cpp  | 4 +++-
 src/Solid.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From 3d65a39a462440f56e6ea35bb9bc97ef3b44885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 10/46] fix: splitting an edge lost a corner and turned over
 the second triangle

---
 src/Mesh.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 419a0b5..5024970 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -279,14 +279,15 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	// the shared edge goes the other way, from iVertex2 to iVertex1
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 5583f4ed33ec27bf202434828e48a9541ead74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:14 +0000
Subject: [PATCH 11/46] fix: cylinder caps had degenerate triangles

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From 8307d2bb6a692a23f8e2030bfb4d8f3b44889b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 12/46] fix: near triangles were left unset by the TIN kernel

---
 src/MeshKernelTIN.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MeshKernelTIN.cpp b/src/MeshKernelTIN.cpp
index 8517385..b8033d1 100644
--- a/src/MeshKernelTIN.cpp
+++ b/src/MeshKernelTIN.cpp
@@ -106,6 +106,9 @@ void MeshKernelTIN::get_near_triangles(int iTriangle, int& iT1, int& iT2, int& i
 	assert(iTriangle < (int)_vTriangles.size());
 
 	// very slow but must add function
+	iT1 = -1;
+	iT2 = -1;
+	iT3 = -1;
 }
 
 
-- 
2.43.0


From f841fac7c9faad9814604a384406ab103d2b5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 13/46] fix: short segments were taken for parallel ones

---
 src/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..56cc57c 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -270,7 +270,7 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	double d2121 = p21.dot_product(p21);
 
 	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
+	if (fabs(denom) < EPS * d2121 * d4343) // parallel, whatever the lengths
 		return false;
 
 	double d1321 = p13.dot_product(p21);
-- 
2.43.0


From 719862c9d18e58c6bfa5cdb96272b6a1eb93b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:00 +0000
Subject: [PATCH 14/46] fix: segment intersection ignored the ends of the
 second segment

---
 src/Geometry.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 56cc57c..af11c32 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -281,13 +281,12 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	if ((mua < 0.) || (mua > 1.))
 		return false;
 
-	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
+	// parameter of the nearest point on the other segment
+	double mub = (d1343 + d4321 * mua) / d4343;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
 
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
+	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
 
 	return true;
 }
-- 
2.43.0


From 111edd7465ddc83aa65b758386696b9a4b1e88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:03 +0000
Subject: [PATCH 15/46] fix: triangle contained points on the line of its last
 edge, beyond its ends

---
 src/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index af11c32..1f0b604 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -368,6 +368,9 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	if (v.dot_product(w) < 0.) // when u is zero
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From f49b8aaa13ed91f8b4cba4e04ce1099054675f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:07 +0000
Subject: [PATCH 16/46] fix: the intersection line of two planes was not
 computed

---
 src/Geometry.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 1f0b604..4c6e293 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -513,12 +513,11 @@ bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
 	if (direction.norm_square() < espilon * espilon)
 		return false;
 
-	//compute one intersection point
+	//compute one intersection point, the nearest to the origin
+	Point3 p1 = (p.normal().cross_product(direction) * -_d + direction.cross_product(normal()) * -p._d) / direction.norm_square();
 
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
+	pIntersection.set_p1(p1);
+	pIntersection.set_p2(p1 + direction);
 
 	return true;
 }
-- 
2.43.0


From 3b94cce89cae1852c31fcf6bebc92506d6daa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:10 +0000
Subject: [PATCH 17/46] fix: empty bounding box intersected boxes around the
 origin

---
 src/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 4c6e293..5584b9a 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -581,6 +581,9 @@ void BoundingBox3::add(const Point3& p1)
 
 bool BoundingBox3::intersect_with(const BoundingBox3& b) const
 {
+	if ((_bInitialized == false) || (b._bInitialized == false)) // nothing intersects an empty box
+		return false;
+
 	if (_x2 < b._x1)
 		return false;
 
-- 
2.43.0


From 53f6549a7673705097f87f0dc49f29bd3b1c979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:14 +0000
Subject: [PATCH 18/46] fix: splitting a triangle through one of its corners
 failed an assertion

---
 src/Mesh.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 5024970..4cf6194 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -414,9 +414,6 @@ void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 
 		if ((b12 || b13 || b23) == false)
 			return; // not intersection
-
-		assert((b12 && b13 && b23) == false); //not possible to intersect all 3 sides
-
 	}
 
 	/*
-- 
2.43.0


From a1c51d5105b4da7b72be3593824e973e32a502e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:16 +0000
Subject: [PATCH 19/46] fix: splitting meshes duplicated triangles cut twice
 and mixed up indexes after removed triangles

---
 src/MeshBoolean.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/MeshBoolean.cpp b/src/MeshBoolean.cpp
index b3f8ab0..2086414 100644
--- a/src/MeshBoolean.cpp
+++ b/src/MeshBoolean.cpp
@@ -6,34 +6,43 @@ MeshBoolean::MeshBoolean()
 
 void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mesh& Boutside, Mesh& AInB, Mesh& BInA)
 {
-	Aoutside = A;
-	Boutside = B;
+	// work on copies: they do not hold the unlinked triangles, so that the indexes differ from A and B,
+	// and the outputs may be the inputs
+	const Mesh meshA(A);
+	const Mesh meshB(B);
+	Aoutside = meshA;
+	Boutside = meshB;
+	AInB.clear();
+	BInA.clear();
 
 	//slow, for now
-	for (int i = 0; i < A.nb_triangles(); i++)
+	for (int i = 0; i < meshA.nb_triangles(); i++)
 	{
-		if (A.is_triangle_unlinked(i))
+		if (meshA.is_triangle_unlinked(i))
 			continue;
 
 		Triangle3 tA;
-		A.get_triangle(i, tA);
+		meshA.get_triangle(i, tA);
 		BoundingBox3 bboxA(tA);
 
-		for (int j = 0; j < B.nb_triangles(); j++)
+		for (int j = 0; j < meshB.nb_triangles(); j++)
 		{
-			if (B.is_triangle_unlinked(j))
+			if (meshB.is_triangle_unlinked(j))
 				continue;
 
 			Triangle3 tB;
-			B.get_triangle(j, tB);
+			meshB.get_triangle(j, tB);
 			BoundingBox3 bboxB(tB); // slow: we recompute the bbox each time
 
 			if (bboxA.intersect_with(bboxB) == false)
 				continue;
 
 			// triangles tA and tB, are valid, and may cut
-			Aoutside.split_triangle(i, tB);
-			Boutside.split_triangle(j, tA);
+			// a triangle already replaced by its pieces must not be split again
+			if (Aoutside.is_triangle_unlinked(i) == false)
+				Aoutside.split_triangle(i, tB);
+			if (Boutside.is_triangle_unlinked(j) == false)
+				Boutside.split_triangle(j, tA);
 		}
 	}
 }
-- 
2.43.0


From 053ca70cf42421cc5810c310317424f6299b4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:40 +0000
Subject: [PATCH 20/46] fix: meshing a Bezier triangle left holes and turned it
 over

---
 src/QuadBezierTriangle.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..f90aa01 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -93,14 +93,15 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 		int lineSize = iNbSegments - is + 1;
 
 		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
+		m.add_triangle(pos, pos + lineSize, pos + 1);
 
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 1; iu < lineSize - 1; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize - 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);
 		}
+
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3a26775ce7118c24bf701a1b6eca36ff747054e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:43 +0000
Subject: [PATCH 21/46] fix: isolated vertices, duplicated vertices and short
 edges were never found

---
 src/MeshMeasurements.cpp | 51 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/MeshMeasurements.cpp b/src/MeshMeasurements.cpp
index 7565ef8..bcfeb5c 100644
--- a/src/MeshMeasurements.cpp
+++ b/src/MeshMeasurements.cpp
@@ -1,10 +1,15 @@
 #include "MeshMeasurements.h"
 
+#include <algorithm>
 #include <cassert>
+#include <vector>
+using namespace std;
 
 #include "Mesh.h"
 #include "Geometry.h"
 
+static const double EPSILON = 10e-10; // for duplicated vertices and short edges
+
 bool MeshMeasurements::has_no_self_intersections(const Mesh& m)
 {
 	// todo
@@ -116,14 +121,54 @@ double MeshMeasurements::surface(const Mesh& m)
 
 bool MeshMeasurements::has_no_isolated_vertices(const Mesh& m)
 {
-	return true; //todo
+	vector<bool> used(m.nb_vertices(), false);
+	for (int i = 0; i < m.nb_triangles(); i++)
+	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
+		int i1, i2, i3;
+		m.get_triangle_vertices(i, i1, i2, i3);
+		used[i1] = true;
+		used[i2] = true;
+		used[i3] = true;
+	}
+
+	return find(used.begin(), used.end(), false) == used.end();
 }
 bool MeshMeasurements::has_no_duplicated_vertices(const Mesh& m)
 {
-	return true; //todo
+	vector<Point3> points(m.nb_vertices());
+	for (int i = 0; i < m.nb_vertices(); i++)
+		m.get_vertex(i, points[i]);
+
+	// sort along x to bound the search range
+	sort(points.begin(), points.end(), [](const Point3& a, const Point3& b) { return a.x() < b.x(); });
+
+	for (size_t i = 0; i < points.size(); i++)
+		for (size_t j = i + 1; (j < points.size()) && (points[j].x() - points[i].x() < EPSILON); j++)
+			if (points[i].distance_square(points[j]) < EPSILON * EPSILON)
+				return false;
+
+	return true;
 }
 
 bool MeshMeasurements::has_no_short_edges(const Mesh& m)
 {
-	return true; //todo
+	for (int i = 0; i < m.nb_triangles(); i++)
+	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
+		Triangle3 t;
+		m.get_triangle(i, t);
+		if (t.p1().distance_square(t.p2()) < EPSILON * EPSILON)
+			return false;
+		if (t.p2().distance_square(t.p3()) < EPSILON * EPSILON)
+			return false;
+		if (t.p3().distance_square(t.p1()) < EPSILON * EPSILON)
+			return false;
+	}
+
+	return true;
 }
-- 
2.43.0


From e7c12328b7f4fdcac0240536b94f8f30888e7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 22/46] fix: half of the smooth sphere was turned inside out

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..dd1f680 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(0, d, 0), Point3(-d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(-d, d, 0), Point3(0, d, d), Point3(-d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(0, -d, 0), Point3(d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(d, -d, 0), Point3(0, -d, d), Point3(d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(0, d, 0), Point3(d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(d, d, 0), Point3(0, d, -d), Point3(d, 0, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(0, -d, 0), Point3(-d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(-d, -d, 0), Point3(0, -d, -d), Point3(-d, 0, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From a99566964436896f0fc0cf65429d69fd5f648794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:06 +0000
Subject: [PATCH 23/46] fix: assigning or appending a smooth mesh to itself
 lost its content or never ended

---
 src/SmoothMesh.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..aaaba69 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,9 +54,11 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTriangles = vst.nb_triangles(); // vst may be this mesh, and grow
+	for (int i = 0; i < iNbTriangles; i++)
 	{
-		_vst.push_back(vst.triangle(i));
+		QuadBezierTriangle st = vst.triangle(i);
+		_vst.push_back(st);
 	}
 }
 
-- 
2.43.0


From 4648b93ac2e10a99e03571c06eed0c19863da89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:45 +0000
Subject: [PATCH 24/46] fix: converting an image to numbers transposed it and
 wrote out of bounds when not square

---
 src/Image.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..eebb6bd 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,10 +105,10 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
-        for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
-            for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+        img.resize((size_t)width() * (size_t)height());
+        for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
+            for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
+                img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
     }
 
 private:
-- 
2.43.0


From 37e30eafb45907af55711d11ea1801669745cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:47 +0000
Subject: [PATCH 25/46] fix: converting to grey an image of less than three
 planes failed an assertion

---
 src/ImageUtil.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..38922f6 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -11,14 +11,18 @@ using namespace std;
 ///////////////////////////////////////////////////////////////////////////
 void ImageUtil::convert_to_bw(const Image& im, Image& imBW)
 {
-	// todo check im format before conversion
+	int iNbColors = min(im.planes(), 3); // the fourth plane is not a color
 
 	imBW.resize(im.width(), im.height(), 1);
 
 	for (int i=0; i< im.width();i++)
 		for (int j = 0; j < im.height(); j++)
 		{
-			imBW(i, j, 0) = (im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) / 3;
+			int iSum = 0;
+			for (int p = 0; p < iNbColors; p++)
+				iSum += im(i, j, p);
+
+			imBW(i, j, 0) = (unsigned char)(iSum / max(iNbColors, 1));
 		}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d4eb3b39517743b543044d3dcd13b9b7e82ef9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:50 +0000
Subject: [PATCH 26/46] fix: scaling an image wrapped around above 255 and
 below 0

---
 src/ImageUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 38922f6..2cb76fe 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -31,6 +31,6 @@ void ImageUtil::scale(Image& im, double dScale)
 	for (int i = 0; i < im.width(); i++)
 		for (int j = 0; j < im.height(); j++)
 			for (int p= 0;p< im.planes();p++)
-				im(i, j, p) = (unsigned char)(im(i, j, p) * dScale + 0.5);
+				im(i, j, p) = (unsigned char)(min(max(im(i, j, p) * dScale, 0.), 255.) + 0.5);
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 247a9fabed8f5e7b229792d8aeaafbf94518b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:15 +0000
Subject: [PATCH 27/46] fix: truncated or inconsistent STL files were loaded as
 good ones

---
 src/STLFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..017405d 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -75,6 +75,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || (nbFacet < 0))
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -102,6 +104,12 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f) // less facets than announced
+			{
+				to_mesh.clear();
+				return false;
+			}
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From f2db9e449a0616cd72bbea6b33deba89a789b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:17 +0000
Subject: [PATCH 28/46] fix: saving a STL file reported success when writing
 failed

---
 src/STLFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 017405d..e1a6a07 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,9 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+
+		f.close();
+		return !f.fail();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From 563c6649823cd251fa5f6ff37e9c62428589c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:20 +0000
Subject: [PATCH 29/46] fix: OBJ polylines referenced vertices from zero and
 lacked an end of line, reopening kept the numbering

---
 src/OBJFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..7ed3b41 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -75,6 +75,10 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	if (_f.is_open())
+		_f.close();
+
+	_verticesCount = 0;
 	_f.open(filename);
 }
 
@@ -141,8 +145,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From 3f7858d7b67f5a9f2ab9118868afba46bdc338b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:23 +0000
Subject: [PATCH 30/46] fix: OBJ polylines of less than two points wrote a
 malformed line

---
 src/OBJFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 7ed3b41..f57deb7 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -141,6 +141,12 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	}
 	_f << endl;
 
+	if (polyline.size() < 2) // a line needs two points
+	{
+		_verticesCount += polyline.size();
+		return;
+	}
+
 	//write polyline
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
-- 
2.43.0


From 3feca5cdd44097972e557189be48c2cb233b63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:29 +0000
Subject: [PATCH 31/46] fix: saving an OBJ file reported success when writing
 failed

---
 src/OBJFile.cpp | 6 +++---
 src/OBJFile.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index f57deb7..403f28e 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -16,8 +16,7 @@ namespace OBJFile
 			return false;
 
 		ow.write(to_mesh);
-		ow.close();
-		return true;
+		return ow.close();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -87,9 +86,10 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
-void OBJWriter::close()
+bool OBJWriter::close()
 {
 	_f.close();
+	return !_f.fail();
 }
 
 void OBJWriter::write(const Mesh& to_mesh)
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..9a514fa 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,7 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); // false if anything was not written
 
 	void write(const Mesh& to_mesh);
 	void write(const vector<Point3>& polyline);
-- 
2.43.0


From e5816cd94cb85968e893f66bc61ff89caccb5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:32 +0000
Subject: [PATCH 32/46] fix: OBJ files with v/vt/vn or bad references, polygons
 or directories were misread, crashed or hung

---
 src/OBJFile.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 403f28e..934680e 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -2,6 +2,7 @@
 #include <string>
 #include <sstream>
 #include <iostream>
+#include <cstdlib>
 using namespace std;
 
 #include "OBJFile.h"
@@ -27,10 +28,10 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		string sLine;
+		while (getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
+			string sType;
 
 			if (sLine.size() == 0)
 				continue;
@@ -43,20 +44,45 @@ namespace OBJFile
 			{
 				double x, y, z;
 				ss >> x >> y >> z;
+				if (!ss)
+				{
+					to_mesh.clear();
+					return false;
+				}
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
 			// read facet
 			if (sType == "f")
 			{
-				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
-
-				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
+				vector<int> corners;
+				string sCorner;
+				while ((ss >> sCorner) && (sCorner[0] != '#'))
+				{
+					// corners are: v or v/vt or v//vn or v/vt/vn, negative v counts from the last vertex
+					char* pEnd = nullptr;
+					long v = strtol(sCorner.c_str(), &pEnd, 10);
+					v = (v < 0) ? v + to_mesh.nb_vertices() : v - 1;
+					if ((pEnd == sCorner.c_str()) || ((*pEnd != 0) && (*pEnd != '/')) || (v < 0) || (v >= to_mesh.nb_vertices()))
+					{
+						to_mesh.clear();
+						return false;
+					}
+					corners.push_back((int)v);
+				}
+
+				if (corners.size() < 3)
+				{
+					to_mesh.clear();
+					return false;
+				}
+
+				for (size_t i = 2; i < corners.size(); i++)
+					to_mesh.add_triangle(corners[0], corners[i - 1], corners[i]);
 			}
 		}
 
-		return true;
+		return f.eof();
 	}
 	///////////////////////////////////////////////////////////////////////////
 }
-- 
2.43.0


From a10482956e75d0404145b4a75c09b85d04b7fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 33/46] fix: STEP surfaces with repeated interior knots had
 wrong knot multiplicities

---
 src/StepFile.cpp | 61 ++++++++++++++++++++++++++++--------------------
 src/StepFile.h   |  2 ++
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..1e7a295 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -75,6 +75,38 @@ void StepWriter::write_cartesian_point(const Point3& p)
 	_iItemIndent++;
 }
 
+void StepWriter::write_knot_multiplicities(const vector<double>& knots)
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size();)
+	{
+		size_t iEnd = i;
+		while ((iEnd < knots.size()) && (knots[iEnd] == knots[i]))
+			iEnd++;
+
+		_f << iEnd - i;
+		if (iEnd != knots.size())
+			_f << ",";
+		i = iEnd;
+	}
+	_f << ")," << endl;
+}
+
+void StepWriter::write_knot_values(const vector<double>& knots)
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size(); i++)
+	{
+		if ((i > 0) && (knots[i] == knots[i - 1]))
+			continue; // distinct values only, see the multiplicities
+
+		if (i > 0)
+			_f << ",";
+		_f << knots[i];
+	}
+	_f << ")," << endl;
+}
+
 void StepWriter::write(const NurbsSurface& n)
 {
 	int iPointIndex = _iItemIndent;
@@ -114,33 +146,12 @@ void StepWriter::write(const NurbsSurface& n)
 	_f << "B_SPLINE_SURFACE_WITH_KNOTS(" << endl;
 
 	//write knot multiplicity
-	_f << "(" << n.degree_u() + 1 << ",";
-	for (int i = 0; i < ku.size() - n.degree_u() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_u() + 1 << ")," << endl;
-
-	_f << "(" << n.degree_v() + 1 << ",";
-	for (int i = 0; i < kv.size() - n.degree_v() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_v() + 1 << ")," << endl;
-	_f << "(";
+	write_knot_multiplicities(ku);
+	write_knot_multiplicities(kv);
 
 	//write knot values
-	for (int i = n.degree_u(); i < ku.size() - n.degree_u(); i++)
-	{
-		_f << ku[i];
-		if (i != ku.size() - n.degree_u() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl << "(";
-
-	for (int i = n.degree_v(); i < kv.size() - n.degree_v(); i++)
-	{
-		_f << kv[i];
-		if (i != kv.size() - n.degree_v() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl;
+	write_knot_values(ku);
+	write_knot_values(kv);
 
 	_f << ".UNSPECIFIED.)";
 
diff --git a/src/StepFile.h b/src/StepFile.h
index 5eb0d04..8591961 100644
--- a/src/StepFile.h
+++ b/src/StepFile.h
@@ -33,6 +33,8 @@ private:
 	void write_header();
 	void write_footer();
 	void write_cartesian_point(const Point3& p);
+	void write_knot_multiplicities(const vector<double>& knots);
+	void write_knot_values(const vector<double>& knots);
 
 	ofstream _f;
 	string _sNameFile;
-- 
2.43.0


From edd7e88d24ba87e0c6c250e3a928ed426e8f694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:09 +0000
Subject: [PATCH 34/46] fix: opening a STEP file while another one is open left
 it unfinished and wrote nothing

---
 src/StepFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 1e7a295..2bc66bf 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -49,6 +49,8 @@ StepWriter::~StepWriter()
 
 void StepWriter::open(const string& filename)
 {
+	close();
+
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
-- 
2.43.0


From 54cbd371db7cd737f706e7a1ce68e7a4c788c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 35/46] fix: BMP files were misread when lines are padded, and
 truncated or bad ones crashed or were taken as good

---
 src/ImageIoBmp.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..b7271b7 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -25,10 +25,12 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4);
 	fbmp.read((char*)&sTmp, 2);
 	fbmp.read((char*)&sTmp, 2);
-	fbmp.read((char*)&iTmp, 4);
+	int iOffset = 0;
+	fbmp.read((char*)&iOffset, 4); //pixels position
 
 	// 2nd struct
-	fbmp.read((char*)&iTmp, 4);
+	int iBihSize = 0;
+	fbmp.read((char*)&iBihSize, 4);
 	int iWidth = 0, iHeight = 0;
 	fbmp.read((char*)&iWidth, 4);
 	fbmp.read((char*)&iHeight, 4);
@@ -39,15 +41,33 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sBPP = 0;
 	fbmp.read((char*)&sBPP, 2); // bpp
 
-	fbmp.read((char*)&iTmp, 4); //compression
+	int iCompression = 0;
+	fbmp.read((char*)&iCompression, 4); //compression
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	// only uncompressed, bottom-up images are handled for now
+	if (!fbmp || (iWidth <= 0) || (iHeight <= 0) || (iBihSize < 40) || (iOffset < 14 + 40) || (iCompression != 0))
+		return false;
+
+	if ((sBPP != 8) && (sBPP != 24) && (sBPP != 32))
+		return false;
+
 	int iNbByte = sBPP >> 3;
+
+	// lines are padded to 4 bytes, all must be in the file
+	long long iLinePadded = ((long long)iWidth * iNbByte + 3) / 4 * 4;
+	fbmp.seekg(0, std::ios::end);
+	long long iFileSize = fbmp.tellg();
+	if (iLinePadded > (iFileSize - iOffset) / iHeight)
+		return false;
+
+	fbmp.seekg(iOffset);
 	pImage->resize(iWidth, iHeight, iNbByte);
+	int iPack = (int)(iLinePadded - (long long)iWidth * iNbByte);
 
 	if (sBPP == 32)
 	{
@@ -68,14 +88,12 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 				pLineY[4 * iC] = cTmpR;
 			}
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
-		int iPack = iLineWidth - iLineWidthPerfect;
 
 		// read data buffer
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
@@ -94,26 +112,20 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
-		int iPack = iLineWidth - iWidth;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//read lut, but do not use:
-		for (int i = 0; i < 256 * 4; i++)
-			fbmp.read((char*)cTmp, 1);
-
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
 			pLineY = pImage->pixel(0, iY, 0);
 			fbmp.read((char*)pLineY, iWidth);
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail();
 	}
 
 	//format not handled for now
-- 
2.43.0


From d513a9ea8ecc058b7f83691c27e719146b42eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 36/46] fix: writing a BMP file reported success for images it
 can not hold or when writing failed

---
 src/ImageIoBmp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index b7271b7..755b4f3 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -136,6 +136,13 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 {
 	assert(pImage != 0);
 
+	// other formats can not be stored
+	if ((pImage->width() == 0) || (pImage->height() == 0))
+		return false;
+
+	if ((pImage->planes() != 1) && (pImage->planes() != 3) && (pImage->planes() != 4))
+		return false;
+
 	//create file
 	std::fstream fbmp(sFilename.data(), std::ios::binary | std::ios::out);
 	if (!fbmp)
@@ -264,6 +271,6 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 	}
 
 	fbmp.close();
-	return true;
+	return !fbmp.fail();
 }
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0754a84fdd391ed1c972640392f3a724b8aa97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:58 +0000
Subject: [PATCH 37/46] fix: lights were deleted through a base class without
 virtual destructor

---
 src/RendererLight.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..26b5c95 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() {}
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 43901ec742e66003165bd995736ee2e106184d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:01 +0000
Subject: [PATCH 38/46] fix: shapes at, behind or across the camera plane were
 drawn mirrored or overflowed

---
 src/Renderer.cpp       |  9 +++++++++
 src/RendererCamera.cpp | 26 ++++++++++++++++++++------
 src/RendererCamera.h   |  2 +-
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..3cd9a4c 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -114,6 +114,9 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	_camera.project(B, bx, by, bw);
 	_camera.project(C, cx, cy, cw);
 
+	if ((aw <= 0.) || (bw <= 0.) || (cw <= 0.))
+		return false;
+
 	// test if seeing the back of the facet
 	if(bTwofaces==false)
 	{
@@ -344,6 +347,9 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 	_camera.project(p1, x1, y1, zp1);
 	_camera.project(p2, x2, y2, zp2);
 
+	if ((zp1 <= 0.) || (zp2 <= 0.))
+		return;
+
 	dx = x2 - x1;
 	dy = y2 - y1;
 	if (fabs(dx) > fabs(dy))
@@ -387,6 +393,9 @@ void Renderer::draw_pixel(const Point3& pPixels, int col)
 
 	_camera.project(pPixels, ix, iy, zpx);
 
+	if (zpx <= 0.)
+		return;
+
 	if ((ix < 0) || (ix >= _Xmax) || (iy < 0) || (iy >= _Ymax))
 		return;
 
diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index 7ba2b37..9e27810 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -3,6 +3,8 @@ using namespace std;
 
 #include "RendererCamera.h"
 
+#define MAX_SCREEN_COORD (1<<28)
+
 ////////////////////////////////////////////////////////////////////////////////
 RendererCamera::RendererCamera() :
 	_rot()
@@ -52,11 +54,23 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
-	if (pc.z() != 0.)
-		w = 1. / pc.z();
-	else
-		w = 0.;
+	screenx = 0;
+	screeny = 0;
+	w = 0.; // not visible
+
+	// behind or at the camera
+	if (!(pc.z() > 0.))
+		return;
+
+	double sx = pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5;
+	double sy = pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5;
+
+	// too far out of the screen
+	if (!(fabs(sx) < MAX_SCREEN_COORD) || !(fabs(sy) < MAX_SCREEN_COORD))
+		return;
+
+	screenx = (int)sx;
+	screeny = (int)sy;
+	w = 1. / pc.z();
 }
 ////////////////////////////////////////////////////////////////////////////////
diff --git a/src/RendererCamera.h b/src/RendererCamera.h
index 2e308e7..6db87e3 100644
--- a/src/RendererCamera.h
+++ b/src/RendererCamera.h
@@ -14,7 +14,7 @@ public:
 	void set_origin(double x, double y, double z, double ahead);
 	void set_screen(int width, int height, double zoom);
 	Point3 local_ref(const Point3& pc) const;
-	void project(const Point3& pPixels, int& screenx, int& screeny, double& w); //w =1/z
+	void project(const Point3& pPixels, int& screenx, int& screeny, double& w); //w =1/z, 0 if behind the camera or too far out of the screen
 
 private:
 	//camera position
-- 
2.43.0


From 4eb0bb94c47cb3ab6d8f77dd0a4683399bc2cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:42 +0000
Subject: [PATCH 39/46] fix: points just out of the screen, left or above, were
 drawn in the first column or row

---
 src/RendererCamera.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index 9e27810..76e1351 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -69,8 +69,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 	if (!(fabs(sx) < MAX_SCREEN_COORD) || !(fabs(sy) < MAX_SCREEN_COORD))
 		return;
 
-	screenx = (int)sx;
-	screeny = (int)sy;
+	screenx = (int)floor(sx);
+	screeny = (int)floor(sy);
 	w = 1. / pc.z();
 }
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1402eca0e77f77cc1c0fad132b3086b59aabb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:45 +0000
Subject: [PATCH 40/46] fix: negative or undefined light sums gave wrong colors

---
 src/Renderer.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 3cd9a4c..b945428 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -10,6 +10,18 @@ using namespace std;
 // used by mapfacet
 #define my_swap(a,b,t) { t=a; a=b; b=t; }
 
+// from 0..1 to 0..255, 0 when not a number
+static int saturate_color(double d)
+{
+	if (!(d > 0.))
+		return 0;
+	if (d > 1.)
+		d = 1.;
+
+	int iColor = (int)(d * 256. + 0.5);
+	return iColor > 255 ? 255 : iColor;
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 void Renderer::set_camera(double ox, double oy, double oz, double ahead, double yaw, double pitch, double roll, double zoom)
 {
@@ -66,17 +78,9 @@ int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 		dBTotal += dB;
 	}
 
-	int iRed = (int)(dRTotal * 256.+0.5);
-	if (iRed > 255)
-		iRed = 255;
-
-	int iGreen = (int)(dGTotal * 256.+0.5);
-	if (iGreen > 255)
-		iGreen = 255;
-
-	int iBlue = (int)(dBTotal * 256.+0.5);
-	if (iBlue > 255)
-		iBlue = 255;
+	int iRed = saturate_color(dRTotal);
+	int iGreen = saturate_color(dGTotal);
+	int iBlue = saturate_color(dBTotal);
 
 	return (iRed << 16) + (iGreen << 8) + iBlue;
 }
-- 
2.43.0


From 7c4eb2fddd9a35aae801a12bef04a1b0a5986db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:36 +0000
Subject: [PATCH 41/46] fix: drawing a line far out of the screen took seconds

---
 src/Renderer.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index b945428..6ace843 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -10,6 +10,21 @@ using namespace std;
 // used by mapfacet
 #define my_swap(a,b,t) { t=a; a=b; b=t; }
 
+// restrict the steps iFirst..iLast to the ones where start + i * step can be in 0..size
+static void clip_steps(double start, double step, int size, int& iFirst, int& iLast)
+{
+	if (step == 0.)
+		return;
+
+	double enter = (step > 0. ? -start : size - start) / step - 1.;
+	double leave = (step > 0. ? size - start : -start) / step + 2.;
+
+	if (enter > iFirst)
+		iFirst = enter < iLast ? (int)enter : iLast;
+	if (leave < iLast)
+		iLast = leave > iFirst ? (int)leave : iFirst;
+}
+
 // from 0..1 to 0..255, 0 when not a number
 static int saturate_color(double d)
 {
@@ -371,7 +386,15 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 	fz = zp1;
 	dz = (zp2 - zp1) / im;
 
-	for (i = 0; i < im; i++)
+	// skip the steps out of the screen
+	int iFirst = 0, iLast = im;
+	clip_steps(fx, dx, _Xmax, iFirst, iLast);
+	clip_steps(fy, dy, _Ymax, iFirst, iLast);
+	fx += dx * iFirst;
+	fy += dy * iFirst;
+	fz += dz * iFirst;
+
+	for (i = iFirst; i < iLast; i++)
 	{
 		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax))// && (fz>0) )
 		{
-- 
2.43.0


From 1ad5bc1718d59f9c1f400832bee5b218014146f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:50 +0000
Subject: [PATCH 42/46] fix: the last row of the image was not drawn for
 triangles cut by it

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 6ace843..51b6904 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -241,13 +241,13 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		bx = dx * t + (1. - t)*bx;
 		bw = dw * t + (1. - t)*bw;
 	}
-	if (cy >= _Ymax )
+	if (cy > _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax; // the last line is not drawn
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -256,7 +256,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From a81b51431c81dc83494e0130af5d99d6851294ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:25 +0000
Subject: [PATCH 43/46] fix: depth was wrong for triangles cut by the left
 border of the image

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 51b6904..ab9ee54 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -295,7 +295,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 	// cut the line if out of screen
 	if (ax < 0)
 	{
-		double t = (double)(bx-0) / (bx - ax);
+		double t = (double)(0. - ax) / (bx - ax);
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-- 
2.43.0


From 62eb140ada73946f9447c44a4ea3edcc304cc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 44/46] fix: triangles beyond the left or top border of the
 image were shifted by rounding

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index ab9ee54..b10c27a 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -189,8 +189,8 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t >= 0.);
 	assert(t <= 1.);
 
-	int dx = (int)(cx * t + (1. - t)*ax+0.5);
-	int dy = (int)(cy * t + (1. - t)*ay+0.5);
+	int dx = (int)floor(cx * t + (1. - t)*ax+0.5);
+	int dy = (int)floor(cy * t + (1. - t)*ay+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -267,9 +267,9 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		int p1x = (int)(cx * t + ax * (1. - t)+0.5);
+		int p1x = (int)floor(cx * t + ax * (1. - t)+0.5);
 		double p1w = (cw * t + aw * (1. - t));
-		int p2x = (int)(dx * t + bx * (1. - t)+0.5);
+		int p2x = (int)floor(dx * t + bx * (1. - t)+0.5);
 		double p2w = (dw * t + bw * (1. - t));
 
 		assert(p1x <= p2x);
-- 
2.43.0


From 552656928a99fd5f34f98de536654f837e316722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:08 +0000
Subject: [PATCH 45/46] fix: drawing in an image without columns failed an
 assertion

---
 src/Renderer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index b10c27a..5ed7e50 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -292,6 +292,9 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 	if (y >= _Ymax)
 		return;
 
+	if (_Xmax <= 0)
+		return;
+
 	// cut the line if out of screen
 	if (ax < 0)
 	{
-- 
2.43.0


From 8973794c3eefa8fb0c1e53130d83689e0f0c0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 46/46] fix: OBJ and STEP files depended on the program's
 locale

---
 src/OBJFile.cpp  | 3 +++
 src/StepFile.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 934680e..592c5d0 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -2,6 +2,7 @@
 #include <string>
 #include <sstream>
 #include <iostream>
+#include <locale>
 #include <cstdlib>
 using namespace std;
 
@@ -37,6 +38,7 @@ namespace OBJFile
 				continue;
 
 			stringstream ss(sLine);
+			ss.imbue(locale::classic()); // the file format does not depend on the user's locale
 			ss >> sType;
 
 			// read vertice
@@ -105,6 +107,7 @@ void OBJWriter::open(const string& filename)
 
 	_verticesCount = 0;
 	_f.open(filename);
+	_f.imbue(locale::classic()); // the file format does not depend on the user's locale
 }
 
 bool OBJWriter::is_open()
diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 2bc66bf..a434e7e 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <locale>
 #include <string>
 #include <vector>
 using namespace std;
@@ -54,6 +55,7 @@ void StepWriter::open(const string& filename)
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
+	_f.imbue(locale::classic()); // the file format does not depend on the user's locale
 	write_header();
 }
 
-- 
2.43.0

