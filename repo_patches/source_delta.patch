From f3f29477a8f6f02cb1a16833811b9e6bbedc875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 001/160] fix: BVHTopology_Morton left the only node of a
 single-object tree unset

---
 include/delfem2/srch_bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..591b2ae 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -448,6 +448,11 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   assert(!sorted_morton_codes.empty());
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
+  if (sorted_morton_codes.size() == 1) { // the root is the only leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+    return;
+  }
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
-- 
2.43.0


From ac95b0fa85fae49c9657ff4a5cab5a76f141b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 002/160] fix: BVHTopology_TopDown_MeshElem failed for a single
 element and for elements no direction separates

---
 include/delfem2/srch_bvh.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index 591b2ae..1965af2 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -118,7 +118,7 @@ DFM2_INLINE void DevideElemAryConnex(
     }
     for (unsigned int itri0: list) {
       double det = DetSide(aElemCenter.data() + itri0 * 3, org, dir);
-      if (fabs(det) < 1.0e-10) continue;
+      if (!(fabs(det) >= 1.0e-10)) continue; // "dir" may be NaN
       if (det < 0) {
         dir[0] *= -1;
         dir[1] *= -1;
@@ -139,10 +139,12 @@ DFM2_INLINE void DevideElemAryConnex(
   {
     // extract the triangles in the child node 0
     // triangles connected to `itri_ker` and in the direction of `dir`
-    aElem2Node[itri_ker] = inode_ch0;
-    list_ch0.push_back(itri_ker);
+    // if there is no direction separating the elements, only the first element goes to the child node 0
+    const unsigned int itri_first = (itri_ker == UINT_MAX) ? list[0] : itri_ker;
+    aElem2Node[itri_first] = inode_ch0;
+    list_ch0.push_back(itri_first);
     std::stack<unsigned int> stack;
-    stack.push(itri_ker);
+    if (itri_ker != UINT_MAX) { stack.push(itri_ker); }
     while (!stack.empty()) {
       unsigned int itri0 = stack.top();
       stack.pop();
@@ -278,6 +280,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is the only leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
-- 
2.43.0


From 97386bd9dfb22886c674183ee938790fd9d63535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 003/160] fix: parallel Intersection_ImageRay_TriMesh3 swapped
 the image width and height

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..8e0aeed 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -472,7 +472,7 @@ void Intersection_ImageRay_TriMesh3(
     aPointElemSurf[ih * nwidth + iw] = pos_mesh;
   };
   if( is_parallel ) {
-    parallel_for(nwidth, nheight, func);
+    parallel_for(nheight, nwidth, func);
   }
   else {
     for (unsigned int ih = 0; ih < nheight; ++ih) {
-- 
2.43.0


From f74f7d7510a9ac8bfd574f1131b28217f2a2e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 004/160] fix: SearchGrid::PostProcess read one element past
 the end of the object list

---
 include/delfem2/srchgrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..81a974f 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -97,7 +97,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From 16b323f04d0ec799cf94ac06f9ffbc0c1f60a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 005/160] fix: KDTTriangle took the distance to the nearest box
 corner for a lower bound and missed nearest triangles

---
 include/delfem2/srch_kdtree_tri.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..0bb7cc0 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -45,7 +45,6 @@ struct KDTTriangle {
 				SCALAR max, min;
 			} dist;
 
-			dist.min = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 			dist.max = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 
 			for (int i = 0; i < 8; i++) {
@@ -55,14 +54,12 @@ struct KDTTriangle {
 
 				SCALAR hogedist = (Q - VEC { hogex, hogey, hogez }).norm();
 
-				if (hogedist < dist.min)
-					dist.min = hogedist;
 				if (hogedist > dist.max)
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
+			// distance to the box itself. It can be smaller than the distance to any of the corners
+			dist.min = (Q - VEC { std::clamp(Q[0], AABBmin[0], AABBmax[0]), std::clamp(Q[1], AABBmin[1], AABBmax[1]), std::clamp(Q[2], AABBmin[2], AABBmax[2]) }).norm();
 
 			return dist;
 		}
-- 
2.43.0


From be1e21473d9ed849083bde74888d1bd938671ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 006/160] fix: KDTTriangle left repeated candidates behind
 std::remove_if

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index 0bb7cc0..1765d09 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -110,9 +110,9 @@ struct KDTTriangle {
 		} else if (distfromcenter.min < localmin) {
 			localmax = distfromcenter.max;
 			localmin = distfromcenter.min;
-			std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
+			Candidates.erase(std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
 				return localmax < x.min - 0.001;
-			});
+			}), Candidates.end());
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
 		} else if (distfromcenter.min < localmax) {
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
-- 
2.43.0


From 1221b6d82f2f2718b1e52e0bacfd4fbcae270179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 007/160] fix: Nearest_Triangle3_Point3 returned a point on the
 boundary for a point inside the triangle on its plane

---
 include/delfem2/geo_tri.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..7b09985 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,13 +66,11 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
-    assert(fabs(v0 + v1 + v2) > 1.0e-10);
+  if (area > 1.0e-10) { // the projection exists also for a point on the plane of the triangle
+    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
+    assert(fabs(v0 + v1 + v2) > 1.0e-11);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
-- 
2.43.0


From d4582f9f82761a7b1921cb655e100659830c4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 008/160] fix: GetContactElement_Proximity looked up a leaf's
 volume by its triangle index and missed contacts

---
 include/delfem2/srch_selfintersection_bvh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..0d82f47 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -295,22 +295,22 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From 801d4225c56ca9f87893ad39223ffd9fb37b505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 009/160] fix: Nearest_LineSeg_LineSeg_CCD_Iteration multiplied
 two terms of its Hessian instead of adding them

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..518f403 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From 10b086cebf246e91c838118340650a66fb9a0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 010/160] fix: ApplyRigidImpactZone built its inertia tensor
 from velocities, not positions, and lost angular momentum

---
 include/delfem2/cloth_selfcollision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index a2d4a6c..44f3fce 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -332,9 +332,9 @@ void ApplyRigidImpactZone
       dfm2::CVec3d v(aUVWm0[ino*3+0],aUVWm0[ino*3+1],aUVWm0[ino*3+2]);
       L += Cross(p-gc,v-av);
       dfm2::CVec3d q = p-gc;
-      I[0] += v.dot(v) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
-      I[3] +=          - q[1]*q[0];  I[4] += v.dot(v) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
-      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += v.dot(v) - q[2]*q[2];
+      I[0] += q.dot(q) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
+      I[3] +=          - q[1]*q[0];  I[4] += q.dot(q) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
+      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += q.dot(q) - q[2]*q[2];
     }
     // 角速度を求める
     double Iinv[9];
-- 
2.43.0


From 6cc89bb1ba6bb9a3ce374d24513961e37b37c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 011/160] fix: FindCoplanerInterp lost the extreme value of a
 cubic with a tiny leading coefficient to cancellation

---
 include/delfem2/geo_ccd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index 518f403..b080a5f 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -224,7 +224,11 @@ bool delfem2::FindCoplanerInterp(
     const double det = k2 * k2 - 3 * k1 * k3; // if det > 0, the cubic function takes extreme value
     if (det < 0) { return false; } // monotonus function
     //
-    const double r3 = (-k2 - sqrt(det)) / (3 * k3); // smaller extreme value
+    // both extreme values without cancellation, k3 may be tiny compared to k2
+    const double q = (k2 > 0) ? -k2 - sqrt(det) : -k2 + sqrt(det);
+    const double ra = q / (3 * k3);
+    const double rb = (q == 0) ? ra : k1 / q;
+    const double r3 = (k2 > 0) ? ra : rb; // smaller extreme value
     if (r3 > 0 && r3 < 1) {
       const double f3 = lcl::EvaluateCubic(r3, k0, k1, k2, k3);
       if (f3 == 0) {
@@ -236,7 +240,7 @@ bool delfem2::FindCoplanerInterp(
         return true;
       }
     }
-    const double r4 = (-k2 + sqrt(det)) / (3 * k3); // larger extreme value
+    const double r4 = (k2 > 0) ? rb : ra; // larger extreme value
     if (r4 > 0 && r4 < 1) {
       const double f4 = lcl::EvaluateCubic(r4, k0, k1, k2, k3);
       if (f4 == 0) {
-- 
2.43.0


From 03143b150239bacaa2af4c27ab747586a8f64cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 012/160] fix: the last edge of a tetrahedron joined node 2
 with itself instead of node 3

---
 include/delfem2/mshelm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..e045794 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
-- 
2.43.0


From a311c6f7f6ba6028c8a64561155c5c48f9653270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 013/160] fix: JArrayEdgeUnidir_PointSurPoint added its counts
 to what the index array held before

---
 include/delfem2/jagarray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From e8912030ad62e41303da7c85cbbcfba632566285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 014/160] fix: AddElement refused the first element of an empty
 mixed mesh

---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..75601c2 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( !aElemInd.empty() );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From 35ed9dd5d474ae443f17d90d5b47d064fa04fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 015/160] fix: Boundary_MeshMix gave the boundary lines of a
 surface mesh no element type

---
 include/delfem2/msh_topology_mix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 75601c2..09b7830 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -177,6 +177,7 @@ DFM2_INLINE void delfem2::Boundary_MeshMix
       const int nnofa_i = nNodeElemFace(type_i,iface);
       if(      nnofa_i == 3 ){ aElemType_Bound.push_back(MESHELEM_TRI ); }
       else if( nnofa_i == 4 ){ aElemType_Bound.push_back(MESHELEM_QUAD); }
+      else if( nnofa_i == 2 ){ aElemType_Bound.push_back(MESHELEM_LINE); }
       aElemInd_Bound.push_back(nnofa_i);
       for(int inofa=0;inofa<nnofa_i;++inofa){
         const int ino0 = noelElemFace(type_i)[iface][inofa];
-- 
2.43.0


From 1a8f6dabc3273fb52df3d1a11368fb42f9f0874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 016/160] fix: UnifySeparateIndexing_PosTex mixed up corners
 when a triangle has the texture index at another corner

---
 include/delfem2/msh_topology_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..8b002c9 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -539,7 +539,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ){ continue; } // this texture index is at another corner of the triangle
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From 024bbb49ca18aefdb1ddf66acd2ead551180bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 017/160] fix: ElSuEl_MeshElem read outside the element for
 wedges and pyramids, whose faces differ in size

---
 include/delfem2/msh_topology_uniform.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 8b002c9..480ab7c 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -166,7 +166,9 @@ DFM2_INLINE void delfem2::ElSuEl_MeshElem(
   std::vector<unsigned int> inpofa(num_vtx_on_face);
   for (unsigned int iel = 0; iel < num_elem; iel++) {
     for (int ifael = 0; ifael < num_face_par_elem; ifael++) {
-      for (int ipofa = 0; ipofa < num_vtx_on_face; ipofa++) {
+      int nipofa = 0; // a face may have less vertices than the first one (e.g., wedge, pyramid)
+      for (; nipofa < num_vtx_on_face && vtx_on_elem_face[ifael][nipofa] != -1; nipofa++) {
+        const int ipofa = nipofa;
         int int0 = vtx_on_elem_face[ifael][ipofa];
         const unsigned int ip = elem_vtx_idx[iel * nNoEl + int0];
         assert(ip < np);
@@ -182,6 +184,10 @@ DFM2_INLINE void delfem2::ElSuEl_MeshElem(
           iflg = true;
           for (int jpofa = 0; jpofa < num_vtx_on_face; jpofa++) {
             int jnt0 = vtx_on_elem_face[jfael][jpofa];
+            if (jnt0 == -1 || jpofa >= nipofa) { // different number of vertices
+              iflg = (jnt0 == -1 && jpofa == nipofa);
+              break;
+            }
             const unsigned int jpoin0 = elem_vtx_idx[jelem0 * nNoEl + jnt0];
             if (flg_point[jpoin0] == 0) {
               iflg = false;
@@ -198,7 +204,7 @@ DFM2_INLINE void delfem2::ElSuEl_MeshElem(
       if (!iflg) {
         elsuel[iel * num_face_par_elem + ifael] = UINT_MAX;
       }
-      for (int ipofa = 0; ipofa < num_vtx_on_face; ipofa++) {
+      for (int ipofa = 0; ipofa < nipofa; ipofa++) {
         flg_point[inpofa[ipofa]] = 0;
       }
     }
-- 
2.43.0


From cf27584f963913c847ed7f0e52702c46fdd602e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 018/160] fix: JArray_PSuP of a dynamic mesh gave point 0 no
 neighbours and required a presized index

---
 include/delfem2/dtri_topology.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..3feed57 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -101,7 +101,8 @@ DFM2_INLINE void delfem2::JArray_PSuP(
     const unsigned int npoin,
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
-  std::vector<unsigned int> aflg(npoin, 0);
+  std::vector<unsigned int> aflg(npoin, UINT_MAX);
+  psup_ind.resize(npoin + 1);
   psup_ind[0] = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     psup_ind[ino + 1] = psup_ind[ino];
@@ -117,7 +118,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
   }
   const int npsup = psup_ind[npoin];
   psup.resize(npsup);
-  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = 0; }
+  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = UINT_MAX; }
   unsigned int iedge = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     assert(psup_ind[ino] == (int) iedge);
-- 
2.43.0


From 4e961ccf749fb6c04f060583fc5cff1f5b5f72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 019/160] fix: ResamplingLoop took the added points of another
 edge when the loop is not numbered in order

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..b381555 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From 7689fd4c878af4eb67cebc166cdceed0db79ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 020/160] fix: CheckInputBoundaryForTriangulation used y for x
 when it tested two loops for intersection

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index b381555..eeb9b5f 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From 647b52ebf89fc220ca5848bb7524eacd419bdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 021/160] fix: DeleteUnrefPoints and DeletePointsFlag stored a
 point's triangle under its old number

---
 include/delfem2/dtri2_v2dtri.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..0809267 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -577,8 +577,8 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
       aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      aPo2D[map_po_del[ipo]].e = itri;
+      aPo2D[map_po_del[ipo]].d = ifatri;
     }
   }
 }
@@ -623,8 +623,8 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
       aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      aPo1[map01[ipo]].e = itri;
+      aPo1[map01[ipo]].d = ifatri;
     }
   }
 }
-- 
2.43.0


From 31681981434b655c30a9cc3bcdaf5b3d7a7ca4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 022/160] fix: FindEdgePoint_AcrossEdge walked around the point
 through the wrong triangle

---
 include/delfem2/dtri2_v2dtri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 0809267..b965a7c 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
       const unsigned int inotri2 = (inotri_cur + 1) % 3;
       const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
       if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
+      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
       const unsigned int inotri3 = (jnob + 1) % 3;
       assert(itri_nex < aDTri.size());
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
@@ -123,8 +123,9 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
     {
       const unsigned int inotri2 = (inotri_cur + 2) % 3;
       unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
+      if (itri_nex == UINT_MAX) { break; }
       unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
+      const unsigned int inotri3 = (jnob + 2) % 3;
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
       if (itri_nex == itri_ini) {
         assert(0);
-- 
2.43.0


From cf96bda6eca0d90ad8145009e8c15ea88bd46023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 023/160] fix: EnforceEdge flipped edges of non-convex pairs of
 triangles and turned triangles over

---
 include/delfem2/dtri2_v2dtri.cpp | 65 ++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b965a7c..d15efb3 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -8,6 +8,7 @@
 #include "delfem2/dtri2_v2dtri.h"
 
 #include <set>
+#include <deque>
 #include <algorithm>
 #include <climits>
 
@@ -143,6 +144,64 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
   return false;
 }
 
+/**
+ * flip the edges crossing the line from ip0 to ip1 until none is left.
+ * Only edges whose two triangles make a strictly convex quadrilateral are flipped so no triangle turns over.
+ * @return false if the line crosses the boundary
+ */
+DFM2_INLINE bool FlipEdges_AcrossLine(
+    const unsigned int ip0,
+    const unsigned int ip1,
+    std::vector<CDynPntSur> &aDPo,
+    std::vector<CDynTri> &aDTri,
+    const std::vector<CVec2d> &aVec2) {
+  std::deque<std::pair<unsigned int, unsigned int> > aEdge; // edges crossing the line (right point, left point)
+  for (size_t itr = 0;; ++itr) {
+    // walk from ip0 to ip1 to list the edges or to find the edge to flip
+    unsigned int itri0, ino0, ino1;
+    double ratio;
+    if (!FindEdgePoint_AcrossEdge(itri0, ino0, ino1, ratio, ip0, ip1, aDPo, aDTri, aVec2)) { return false; }
+    for (;;) {
+      const unsigned int ied0 = 3 - ino0 - ino1;
+      const unsigned int jtri0 = aDTri[itri0].s2[ied0];
+      if (jtri0 == UINT_MAX) { return false; }
+      const std::pair<unsigned int, unsigned int> edge(aDTri[itri0].v[ino0], aDTri[itri0].v[ino1]);
+      if (itr == 0) { aEdge.push_back(edge); }
+      else if (edge == aEdge.front()) { break; }
+      const unsigned int jno0 = FindAdjEdgeIndex(aDTri[itri0], ied0, aDTri);
+      const unsigned int jp0 = aDTri[jtri0].v[jno0];
+      if (jp0 == ip1) { break; }
+      const bool is_right = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[jp0]) < 0;
+      itri0 = jtri0;
+      ino0 = is_right ? jno0 : (jno0 + 2) % 3;
+      ino1 = is_right ? (jno0 + 1) % 3 : jno0;
+    }
+    if (itr == 0) { continue; }
+    const std::pair<unsigned int, unsigned int> edge(aDTri[itri0].v[ino0], aDTri[itri0].v[ino1]);
+    if (edge != aEdge.front() || itr > 100 + 10 * aDTri.size()) {
+      assert(0);
+      abort();
+    }
+    aEdge.pop_front();
+    const unsigned int ied0 = 3 - ino0 - ino1;
+    const unsigned int jp0 = aDTri[itri0].v[ied0];
+    const unsigned int jp1 = aDTri[aDTri[itri0].s2[ied0]].v[FindAdjEdgeIndex(aDTri[itri0], ied0, aDTri)];
+    if (Area_Tri2(aVec2[jp0], aVec2[edge.first], aVec2[jp1]) < 1.0e-20 ||
+        Area_Tri2(aVec2[jp0], aVec2[jp1], aVec2[edge.second]) < 1.0e-20) { // not convex, try again later
+      aEdge.push_back(edge);
+      continue;
+    }
+    FlipEdge(itri0, ied0, aDPo, aDTri);
+    if (jp0 != ip0 && jp1 != ip1) {
+      const bool is_right0 = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[jp0]) < 0;
+      const bool is_right1 = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[jp1]) < 0;
+      if (is_right0 && !is_right1) { aEdge.emplace_back(jp0, jp1); } // still crossing
+      if (!is_right0 && is_right1) { aEdge.emplace_back(jp1, jp0); }
+    }
+    if (aEdge.empty()) { return true; }
+  }
+}
+
 } // cad2
 } // delfem2
 
@@ -463,9 +522,9 @@ DFM2_INLINE void delfem2::EnforceEdge
         const unsigned int ied1 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
         assert(aTri[itri1].s2[ied1] == itri0);
 #endif
-        bool res = FlipEdge(itri0, ied0, aPo2D, aTri);
-//        std::cout << itri0 << " " << ied0 << " " << ratio << " " << res << std::endl;
-//        continue;
+        const bool res = dtri2::FlipEdges_AcrossLine(
+            ip0, ip1,
+            aPo2D, aTri, aVec2);
         if (!res) {
           break;
         }
-- 
2.43.0


From 35a5b36e105419197c4a28b73665de40f2254f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 024/160] fix: MeshingInside smoothed points across the
 opposite edge and turned triangles over

---
 include/delfem2/dtri2_v2dtri.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index d15efb3..0a4e524 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -37,7 +37,16 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
+  const CVec2d vec_old = aVec2[ipoin];
   aVec2[ipoin] = vec_delta / ntri_around;
+  for (;;) { // the point stays if moving it turns over a triangle around it
+    if (Area_Tri2(aVec2[aTri[itri0].v[0]], aVec2[aTri[itri0].v[1]], aVec2[aTri[itri0].v[2]]) < 1.0e-20) {
+      aVec2[ipoin] = vec_old;
+      return false;
+    }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+    if (itri0 == aPo[ipoin].e) { break; }
+  }
   return true;
 }
 
-- 
2.43.0


From f868337b06d35c7c94cf3aa669b658b3262ac007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:31 +0000
Subject: [PATCH 025/160] fix: CMatrixSparse assignment and AddDia_LumpedMass
 use the current member names

---
 include/delfem2/ls_block_sparse.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..3e5255f 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
@@ -172,10 +172,10 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->nrowblk_ == this->ncolblk_);
+    assert(this->nrowdim_ == this->ncoldim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-- 
2.43.0


From 7a1f602dc5dc58abbca097f818670be994012bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:41 +0000
Subject: [PATCH 026/160] fix: merging an element matrix adds the diagonal
 block of its own row and column

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 3e5255f..e440b00 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From 4de7f73c085e28d429c6f6ac3530ebbd8cbaa52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 027/160] fix: the master-slave pattern holds every block that
 tying the degrees of freedom fills

---
 include/delfem2/ls_masterslave.cpp | 108 +++++++++--------------------
 1 file changed, 31 insertions(+), 77 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..109b7de 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -49,91 +49,45 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
   //
   index.assign(nno+1,0);
   array.clear();
-  std::vector<unsigned int> aflg(nno,UINT_MAX);
+  std::vector<unsigned int> aflg(nno,UINT_MAX), sflg(nno,UINT_MAX);
+  auto add_block = [&aflg, &array](unsigned int ino0, unsigned int jno) {
+    if( aflg[jno] == ino0 ){ return; }
+    aflg[jno] = ino0;
+    array.push_back(jno);
+  };
+  auto add_master = [&](unsigned int ino0, unsigned int jno) {
+    for(unsigned int jdim=0;jdim<ndim;++jdim){
+      const unsigned int kdof = aMSFlag[jno*ndim+jdim];
+      if( kdof == UINT_MAX ) continue;
+      add_block(ino0, kdof/ndim);
+    }
+  };
   //
   for(unsigned int ino0=0;ino0<nno;++ino0){
     aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      index[ino0+1]++;
-    }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
-      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
+    // the row of a slave is added to the row of its master
+    std::vector<unsigned int> stack(1, ino0);
+    sflg[ino0] = ino0;
+    while( !stack.empty() ){
+      const unsigned int ino1 = stack.back();
+      stack.pop_back();
+      add_block(ino0, ino1);
+      for(unsigned int icrs=psup_ind0[ino1];icrs<psup_ind0[ino1+1];++icrs){
+        add_block(ino0, psup0[icrs]);
       }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+      for(int ino2 : mapM2S[ino1]){
+        if( sflg[ino2] == ino0 ){ continue; }
+        sflg[ino2] = ino0;
+        stack.push_back(ino2);
       }
     }
-  }
-  //
-  for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
-  const unsigned int narray = index[nno];
-  array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
-      index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
+    // the column of a slave in this row is added to the column of its master
+    add_master(ino0, ino0);
+    for(size_t icrs=index[ino0];icrs<array.size();++icrs){
+      add_master(ino0, array[icrs]);
     }
+    index[ino0+1] = static_cast<unsigned int>(array.size());
   }
-  // ---------
-  for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-  index[0] = 0;
 }
 
 
-- 
2.43.0


From 8c6ec5c48824af294defc26da44e1b226f3430cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 028/160] fix: the complex Krylov solvers use the current
 matrix interface

---
 include/delfem2/vecxitrsol.h | 56 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..f946a93 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -157,18 +157,18 @@ Solve_CG_Complex(
     const MAT& mat)
 {
   using COMPLEX = std::complex<REAL>;
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.ncolblk_ == mat.nrowblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.ncolblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   std::vector<double> aConv;
   u_vec.assign(ndof, 0.0);   // {x} = 0
   double sqnorm_res = Dot(r_vec, r_vec).real();
   if (sqnorm_res < 1.0e-30) { return aConv; }
   const double inv_sqnorm_res_ini = 1.0 / sqnorm_res;
-  COMPLEX Ap_vec(ndof);
-  COMPLEX p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
+  std::vector<COMPLEX> Ap_vec(ndof);
+  std::vector<COMPLEX> p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
   for (unsigned int iitr = 0; iitr < max_iteration; iitr++) {
     double alpha;
     {  // alpha = (r,r) / (p,Ap)
@@ -285,10 +285,10 @@ Solve_BiCGSTAB_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   //
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.ncolblk_ == mat.nrowblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.ncolblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
@@ -447,17 +447,17 @@ std::vector<double> Solve_PBiCGStab_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   
-  assert( !mat.valDia.empty() );
-  assert( mat.nblk_col == mat.nblk_row );
-  assert( mat.nrowdim == mat.len_row );
-  const unsigned int ndof = mat.nblk_col*mat.nrowdim;
+  assert( !mat.val_dia_.empty() );
+  assert( mat.ncolblk_ == mat.nrowblk_ );
+  assert( mat.nrowdim_ == mat.ncoldim_ );
+  const unsigned int ndof = mat.ncolblk_*mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for(unsigned int i=0;i<ndof;++i){ x_vec[i] = COMPLEX(0.0,0.0); }   // {u} = 0
   
   double sq_inv_norm_res_ini;
   {
-    const double sq_norm_res_ini = Dot(r_vec,r_vec,ndof).real();
+    const double sq_norm_res_ini = DotX(r_vec,r_vec, ndof).real();
     if( sq_norm_res_ini < 1.0e-60 ){
       aResHistry.push_back( sqrt( sq_norm_res_ini ) );
       return aResHistry;
@@ -475,12 +475,12 @@ std::vector<double> Solve_PBiCGStab_Complex(
   std::vector<COMPLEX> p_vec(r_vec,r_vec+ndof);  // {p} = {r}
   
   // calc (r,r0*)
-  COMPLEX r_r0 = Dot(r_vec,r0_vec.data(),ndof);
+  COMPLEX r_r0 = DotX(r_vec,r0_vec.data(), ndof);
   
   for(unsigned int itr=0;itr<max_niter;itr++){
     // {Mp_vec} = [M^-1]*{p}
     Mp_vec.assign(p_vec.begin(),p_vec.end());
-    ilu.SolvePrecond(Mp_vec);
+    ilu.SolvePrecond(Mp_vec.data());
     // calc {AMp_vec} = [A]*{Mp_vec}
     mat.MatVec(AMp_vec.data(),
                COMPLEX(1,0), Mp_vec.data(), COMPLEX(0,0));
@@ -491,7 +491,7 @@ std::vector<double> Solve_PBiCGStab_Complex(
     AXPY(-alpha,AMp_vec,s_vec);
     // {Ms_vec} = [M^-1]*{s}
     Ms_vec.assign(s_vec.begin(),s_vec.end());
-    ilu.SolvePrecond(Ms_vec);
+    ilu.SolvePrecond(Ms_vec.data());
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
@@ -499,14 +499,14 @@ std::vector<double> Solve_PBiCGStab_Complex(
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-      const double sq_norm_res = Dot(r_vec,r_vec,ndof).real();
+      const double sq_norm_res = DotX(r_vec,r_vec, ndof).real();
       const double conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res_ini);
       aResHistry.push_back( conv_ratio );
       if( conv_ratio < conv_ratio_tol ){ return aResHistry; }
     }
     COMPLEX beta;
     {  // calc beta
-      const COMPLEX tmp1 = Dot(r_vec,r0_vec.data(),ndof);
+      const COMPLEX tmp1 = DotX(r_vec,r0_vec.data(), ndof);
       beta = (tmp1*alpha)/(r_r0*omega);
       r_r0 = tmp1;
     }
@@ -528,14 +528,14 @@ std::vector<double> Solve_PCG_Complex(
 {
   using COMPLEX = std::complex<REAL>;
 
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  const unsigned int ndof = mat.ncolblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for (unsigned int i = 0; i < ndof; i++) { x_vec[i] = COMPLEX(0.0, 0.0); }    // {x} = 0
   
   double inv_sqnorm_res0;
   {
-    const double sqnorm_res0 = Dot(r_vec, r_vec, ndof).real();
+    const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqnorm_res0);
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
@@ -543,11 +543,11 @@ std::vector<double> Solve_PCG_Complex(
   
   // {Pr} = [P]{r}
   std::vector<COMPLEX> Pr_vec(r_vec, r_vec + ndof);
-  ilu.SolvePrecond(Pr_vec);
+  ilu.SolvePrecond(Pr_vec.data());
   // {p} = {Pr}
   std::vector<COMPLEX> p_vec = Pr_vec;
   // rPr = ({r},{Pr})
-  COMPLEX rPr = Dot(r_vec, Pr_vec.data(), ndof);
+  COMPLEX rPr = DotX(r_vec, Pr_vec.data(), ndof);
   for (unsigned int iitr = 0; iitr < max_nitr; iitr++) {
     {
       std::vector<COMPLEX> &Ap_vec = Pr_vec;
@@ -561,7 +561,7 @@ std::vector<double> Solve_PCG_Complex(
       AXPY(+alpha, p_vec.data(), x_vec, ndof);       // {x} = +alpha*{p } + {x}
     }
     {  // Converge Judgement
-      double sqnorm_res = Dot(r_vec, r_vec, ndof).real();
+      double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
       aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
@@ -569,9 +569,9 @@ std::vector<double> Solve_PCG_Complex(
     {  // calc beta
        // {Pr} = [P]{r}
       for (unsigned int i = 0; i < ndof; i++) { Pr_vec[i] = r_vec[i]; }
-      ilu.SolvePrecond(Pr_vec);
+      ilu.SolvePrecond(Pr_vec.data());
       // rPr1 = ({r},{Pr})
-      const COMPLEX rPr1 = Dot(r_vec, Pr_vec.data(), ndof);
+      const COMPLEX rPr1 = DotX(r_vec, Pr_vec.data(), ndof);
       // beta = rPr1/rPr
       COMPLEX beta = rPr1 / rPr;
       rPr = rPr1;
@@ -581,7 +581,7 @@ std::vector<double> Solve_PCG_Complex(
   }
   {
     // Converge Judgement
-    double sq_norm_res = Dot(r_vec, r_vec, ndof).real();
+    double sq_norm_res = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqrt(sq_norm_res));
   }
   return aResHistry;
-- 
2.43.0


From 45d5d8fe517bc107f8307ac592348d04c353e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 029/160] fix: Solve_CG_Complex reports the residual after the
 iteration

---
 include/delfem2/vecxitrsol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index f946a93..68f1666 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -182,7 +182,7 @@ Solve_CG_Complex(
     AXPY(COMPLEX(+alpha), p_vec, u_vec);    // {x} = +alpha*{ p} + {x} (updatex)
     AXPY(COMPLEX(-alpha), Ap_vec, r_vec);  // {r} = -alpha*{Ap} + {r}
     double sqnorm_res_new = Dot(r_vec, r_vec).real();
-    const double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res_ini);
+    const double conv_ratio = sqrt(sqnorm_res_new * inv_sqnorm_res_ini);
     aConv.push_back(conv_ratio);
     if (conv_ratio < conv_ratio_tol) { return aConv; }
     { // update p
-- 
2.43.0


From 9efe38a1b1ca1c7b9f26228720731310d1dae91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 030/160] fix: the BiCGSTAB solvers return zero for a zero
 right-hand side

---
 include/delfem2/vecxitrsol.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 68f1666..7be5424 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -209,6 +209,7 @@ std::vector<REAL> Solve_BiCGStab(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec);
@@ -222,7 +223,6 @@ std::vector<REAL> Solve_BiCGStab(
   std::vector<double> Ap_vec(ndof);
   std::vector<double> r2_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
   
   r2_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
@@ -292,6 +292,7 @@ Solve_BiCGSTAB_Complex(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec).real();
@@ -304,7 +305,6 @@ Solve_BiCGSTAB_Complex(
   std::vector<COMPLEX> p_vec(ndof);
   std::vector<COMPLEX> Ap_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
   
   const std::vector<COMPLEX> r0_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
-- 
2.43.0


From e379b383705973ffa73803a3568c691573f721d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 031/160] fix: the pentadiagonal solver merges every column of
 a rectangular block

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..d677117 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -159,7 +159,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From ce52b5aeaaa2c258d3456bbc5ec5ce529e83b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 032/160] fix: Initialize_ILUk accepts a row without
 off-diagonal blocks

---
 include/delfem2/ls_ilu_block_sparse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..e7e6c71 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -896,6 +896,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
         listNonzero[inz].next = inz + 1;
         inz++;
       }
+      if (listNonzero.empty()) {  // no off-diagonal block in this row
+        colInd[iblk + 1] = colInd[iblk];
+        m_diaInd[iblk] = colInd[iblk];
+        continue;
+      }
       listNonzero[inz - 1].next = UINT_MAX;
     }
 
-- 
2.43.0


From 2fc6aeb48d98a91ccdaceb2d133c89c4355708f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:21 +0000
Subject: [PATCH 033/160] fix: copy construction of CPreconditionerILU copies
 the factorisation

---
 include/delfem2/ls_ilu_block_sparse.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index e7e6c71..770de05 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -135,13 +135,13 @@ class CRowLevNext {
 template<typename T>
 delfem2::CPreconditionerILU<T>::CPreconditionerILU(
     const CPreconditionerILU<T> &p) {
-//  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
+  this->nblk = p.nblk;
+  this->ndim = p.ndim;
+  this->colInd = p.colInd;
+  this->rowPtr = p.rowPtr;
+  this->m_diaInd = p.m_diaInd;
+  this->valCrs = p.valCrs;
+  this->valDia = p.valDia;
 }
 
 // -------------------------------------------------------------------
-- 
2.43.0


From b7c7fe18d8c17deaeddc073c7cc239f80421973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 034/160] fix: the BiCGSTAB solvers return the solution when
 the first half step is exact

---
 include/delfem2/vecxitrsol.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 7be5424..dc8452d 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -247,7 +247,7 @@ std::vector<REAL> Solve_BiCGStab(
     { // omega = ({As},{s}) / ({As},{As})
       const double denominator = Dot(As_vec, As_vec);
       const double numerator = Dot(As_vec, s_vec);
-      omega = numerator / denominator;
+      omega = (denominator == 0) ? 0 : numerator / denominator;  // zero if the residual is already zero
     }
     // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
@@ -321,7 +321,8 @@ Solve_BiCGSTAB_Complex(
     mat.MatVec(As_vec.data(),
                1.0, s_vec.data(), 0.0);
     // calc omega
-    const COMPLEX omega = Dot(s_vec, As_vec) / Dot(As_vec, As_vec).real();  // omega=({As},{s})/({As},{As})
+    const double sqnorm_As = Dot(As_vec, As_vec).real();
+    const COMPLEX omega = (sqnorm_As == 0) ? COMPLEX(0) : Dot(s_vec, As_vec) / sqnorm_As;  // omega=({As},{s})/({As},{As})
                                                                                         // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
     AXPY(omega, s_vec, x_vec);
@@ -410,7 +411,7 @@ std::vector<double> Solve_PBiCGStab(
     {  // calc omega
       const double denominator = Dot(AMs_vec,AMs_vec);
       const double numerator = Dot(s_vec,AMs_vec);
-      omega = numerator / denominator;
+      omega = (denominator == 0) ? 0 : numerator / denominator;  // zero if the residual is already zero
     }
     AXPY(alpha,Mp_vec.data(),x_vec,ndof);
     AXPY(omega,Ms_vec.data(),x_vec,ndof);
@@ -495,7 +496,8 @@ std::vector<double> Solve_PBiCGStab_Complex(
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
-    const COMPLEX omega = Dot(s_vec,AMs_vec) / Dot(AMs_vec,AMs_vec).real();
+    const double sqnorm_AMs = Dot(AMs_vec,AMs_vec).real();
+    const COMPLEX omega = (sqnorm_AMs == 0) ? COMPLEX(0) : Dot(s_vec,AMs_vec) / sqnorm_AMs;
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-- 
2.43.0


From ff71df329fc94e1b2c9264a771c4f2f17376fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 035/160] fix: Solve_CG_Complex does not abort on a large
 right-hand side

---
 include/delfem2/vecxitrsol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index dc8452d..2a3baac 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -175,7 +175,7 @@ Solve_CG_Complex(
       mat.MatVec(Ap_vec.data(),
                  1.0, p_vec.data(), 0.0);
       COMPLEX C_pAp = Dot(p_vec, Ap_vec);
-      assert(fabs(C_pAp.imag()) < 1.0e-3);
+      assert(fabs(C_pAp.imag()) <= 1.0e-3 * fabs(C_pAp.real()));
       const double pAp = C_pAp.real();
       alpha = sqnorm_res / pAp;
     }
-- 
2.43.0


From c35ba87c63680f623aad1992f060695d9e789a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 036/160] fix: a CAD loop of a single vertex includes only that
 vertex

---
 include/delfem2/cadtopo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..886ee62 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -59,7 +59,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return ivtx == iv;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
-- 
2.43.0


From a8786d0bc26702d7b802ccbd01ea03d0b2b85dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 037/160] fix: the vertices of a CAD face are those of its own
 loops

---
 include/delfem2/cad2.cpp  | 2 +-
 include/delfem2/cadtopo.h | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..3516769 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -437,7 +437,7 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
     return;
   }
   if (iface_picked < cad.topo.faces.size()) {
-    std::vector<unsigned int> aIdV = cad.topo.loops[iface_picked].GetArray_IdVertex(cad.topo.edges);
+    std::vector<unsigned int> aIdV = cad.topo.VertexIndexs_Face(iface_picked);
     for (unsigned int iv1: aIdV) {
       cad.aVtx[iv1].pos.p[0] += p1x - p0x;
       cad.aVtx[iv1].pos.p[1] += p1y - p0y;
diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index 886ee62..fc1623f 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -201,7 +201,13 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> aIdV;
+    for(unsigned int il : faces[iface].aIL) {
+      if( loops[il].iv != UINT_MAX ){ aIdV.push_back(loops[il].iv); }
+      const std::vector<unsigned int> aIdV0 = loops[il].GetArray_IdVertex(this->edges);
+      aIdV.insert( aIdV.end(), aIdV0.begin(), aIdV0.end() );
+    }
+    return aIdV;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From c728434ece09008c11b73a9dedc81bf778e3e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 038/160] fix: InvertLoop keeps the control point of quadratic
 edges

---
 include/delfem2/cad2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 3516769..369a06e 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -269,6 +269,10 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
       eo.param[1] = (pB - eo.p0).y;
       eo.param[2] = (pA - eo.p1).x;
       eo.param[3] = (pA - eo.p1).y;
+    } else if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      CVec2d pA = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
+      eo.param[0] = (pA - eo.p0).x;
+      eo.param[1] = (pA - eo.p0).y;
     }
   }
   return aEdgeOut;
-- 
2.43.0


From e577b3c8680f6ed4a409f95b6dee2570d9b3c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 039/160] fix: dragging the handle of a cubic CAD edge puts it
 under the cursor

---
 include/delfem2/cad2.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 369a06e..7ad9821 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -426,14 +426,12 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
       CCad2D_EdgeGeo &edge = cad.aEdge[iedge_picked];
       if (edge.type_edge == 1) {
         assert(edge.param.size() == 4);
-        const CVec2d lx = (edge.p1 - edge.p0).normalized();
-        const CVec2d ly = CVec2d(lx.y, -lx.x);
         if (ipicked_elem == 1) {
-          edge.param[0] = (CVec2d(p1x, p1y) - edge.p0).dot(lx);
-          edge.param[1] = (CVec2d(p1x, p1y) - edge.p0).dot(ly);
+          edge.param[0] = p1x - edge.p0.x;
+          edge.param[1] = p1y - edge.p0.y;
         } else if (ipicked_elem == 2) {
-          edge.param[2] = (CVec2d(p1x, p1y) - edge.p1).dot(lx);
-          edge.param[3] = (CVec2d(p1x, p1y) - edge.p1).dot(ly);
+          edge.param[2] = p1x - edge.p1.x;
+          edge.param[3] = p1y - edge.p1.y;
         }
       }
     }
-- 
2.43.0


From efd5134b3de767967642ca90ccf5804f32883ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 040/160] fix: meshing a CAD face bounds its curved edges too

---
 include/delfem2/cad2_mesher.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2_mesher.cpp b/include/delfem2/cad2_mesher.cpp
index c9c62e7..65963fd 100644
--- a/include/delfem2/cad2_mesher.cpp
+++ b/include/delfem2/cad2_mesher.cpp
@@ -34,7 +34,9 @@ DFM2_INLINE void GetBound(
   double bound_2d[4],
   unsigned int ifc0,
   const CadTopo &topo,
-  const std::vector<CCad2D_EdgeGeo> &aEdgeGeo) {
+  const std::vector<CCad2D_EdgeGeo> &aEdgeGeo,
+  const std::vector<CVec2d> &aVec2,
+  const std::vector<std::vector<std::pair<unsigned int, double> > > &edge_point) {
   assert(ifc0 < topo.faces.size());
   const int il0 = topo.faces[ifc0].aIL[0];
   const std::vector<std::pair<unsigned int, bool> > &aIE = topo.loops[il0].aIE;
@@ -55,6 +57,13 @@ DFM2_INLINE void GetBound(
       if (p0.y < bound_2d[2]) { bound_2d[2] = p0.y; }
       if (p0.y > bound_2d[3]) { bound_2d[3] = p0.y; }
     }
+    for (const auto &pair: edge_point[ie0]) {  // a curved edge may reach outside its end points
+      const CVec2d &p0 = aVec2[pair.first];
+      if (p0.x < bound_2d[0]) { bound_2d[0] = p0.x; }
+      if (p0.x > bound_2d[1]) { bound_2d[1] = p0.x; }
+      if (p0.y < bound_2d[2]) { bound_2d[2] = p0.y; }
+      if (p0.y > bound_2d[3]) { bound_2d[3] = p0.y; }
+    }
     /*
     for (const auto &p0 : aEdgeGeo[ie0].aP) {
       if (p0.x < bound_2d[0]) { bound_2d[0] = p0.x; }
@@ -87,7 +96,7 @@ DFM2_INLINE void GenMeshCadFace(
     double bound_2d[4];
     GetBound(
       bound_2d,
-      iface0, topo, aEdgeGeo);
+      iface0, topo, aEdgeGeo, aVec2, edge_point);
     MakeSuperTriangle(
       aVec2, aPo2D, aETri,
       bound_2d);
-- 
2.43.0


From 9b7c1220e76a75a565b5d4eabb3283527b5825d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 041/160] fix: the deformation weight of a CAD edge uses every
 corner of the face

---
 include/delfem2/cad2_mesh_deformation.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/cad2_mesh_deformation.h b/include/delfem2/cad2_mesh_deformation.h
index 10a87bd..2404350 100644
--- a/include/delfem2/cad2_mesh_deformation.h
+++ b/include/delfem2/cad2_mesh_deformation.h
@@ -61,9 +61,8 @@ void SetCadMeshDeformationWeightEdge(
     const std::vector<double> &vtx_xy) {
   namespace dfm2 = delfem2;
   vtx_w.assign(vtx_xy.size() / 2, 0.);
-  if (edge_idx >= cad.nVtx()) { return; }
+  if (edge_idx >= cad.nEdge()) { return; }
   std::vector<unsigned int> face_ids = cad.topo.FindFaceIndexes_IncludeEdge(edge_idx);
-  std::cout << face_ids.size() << std::endl;
   assert(face_ids.size() == 1);
   unsigned int face_idx = face_ids[0];
   unsigned int iloop = cad.topo.faces[face_idx].aIL[0];
@@ -74,10 +73,10 @@ void SetCadMeshDeformationWeightEdge(
     if (iv0 == cad.topo.edges[edge_idx].IndexVertex(true) ||
         iv0 == cad.topo.edges[edge_idx].IndexVertex(false)) {
       vtx_w[iv0] = 1.;
-      xyws.push_back(cad.aVtx[iv0].pos.x);
-      xyws.push_back(cad.aVtx[iv0].pos.y);
-      xyws.push_back(vtx_w[iv0]);
     }
+    xyws.push_back(cad.aVtx[iv0].pos.x);
+    xyws.push_back(cad.aVtx[iv0].pos.y);
+    xyws.push_back(vtx_w[iv0]);
     for (auto &point: mesher.edge_point[ie]) {
       unsigned int ip = point.first;
       double w0 = 0.0;
-- 
2.43.0


From 95e3166eb44779d422799928890b5f3fdd828094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 042/160] fix: interpolation by mean value coordinates uses
 signed angles

---
 include/delfem2/cagedef.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cagedef.h b/include/delfem2/cagedef.h
index ddc3c76..dcbc88f 100644
--- a/include/delfem2/cagedef.h
+++ b/include/delfem2/cagedef.h
@@ -252,8 +252,10 @@ double MeanValueCoordinate_Polygon2(
     const VEC v2(xyw[iv2*3+0] - p[0], xyw[iv2*3+1] - p[1]);
     double c01 = v0.dot(v1) / (v0.norm() * v1.norm());
     double c12 = v1.dot(v2) / (v1.norm() * v2.norm());
-    double t01 = std::sqrt((1 - c01) / (1 + c01));
-    double t12 = std::sqrt((1 - c12) / (1 + c12));
+    double s01 = (Cross(v0, v1) > 0) ? 1 : -1;
+    double s12 = (Cross(v1, v2) > 0) ? 1 : -1;
+    double t01 = s01 * std::sqrt((1 - c01) / (1 + c01));
+    double t12 = s12 * std::sqrt((1 - c12) / (1 + c12));
     double w1 = (t01 + t12) / v1.norm();
     weight += w1*xyw[iv1*3+2];
     sum += w1;
-- 
2.43.0


From 1f791e34209fc997e65aa9c0edaf934f4bcf8a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 043/160] fix: deformation weights include quadratic CAD edges

---
 include/delfem2/cad2_mesh_deformation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2_mesh_deformation.h b/include/delfem2/cad2_mesh_deformation.h
index 2404350..0e39daf 100644
--- a/include/delfem2/cad2_mesh_deformation.h
+++ b/include/delfem2/cad2_mesh_deformation.h
@@ -38,7 +38,7 @@ void SetCadMeshDeformationWeightVtx(
       double w0 = (iv1 == vertex_idx) ? point.second : 1. - point.second;
       if (cad.aEdge[ie].type_edge == dfm2::CCad2D_EdgeGeo::LINE) {
         vtx_w[ip] = w0;
-      } else if (cad.aEdge[ie].type_edge == dfm2::CCad2D_EdgeGeo::BEZIER_CUBIC) {
+      } else {
         vtx_w[ip] = 3 * w0 * w0 - 2 * w0 * w0 * w0;
       }
       xyws.push_back(vtx_xy[ip * 2 + 0]);
@@ -89,7 +89,7 @@ void SetCadMeshDeformationWeightEdge(
       }
       if (cad.aEdge[ie].type_edge == dfm2::CCad2D_EdgeGeo::LINE) {
         vtx_w[ip] = w0;
-      } else if (cad.aEdge[ie].type_edge == dfm2::CCad2D_EdgeGeo::BEZIER_CUBIC) {
+      } else {
         vtx_w[ip] = 3 * w0 * w0 - 2 * w0 * w0 * w0;
       }
       xyws.push_back(vtx_xy[ip * 2 + 0]);
-- 
2.43.0


From acfd463ffda85af1e40bcab0a40d2eaf29c1b8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 044/160] fix: the deformation weight of a CAD vertex follows
 every curved edge

---
 include/delfem2/cad2_mesh_deformation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/cad2_mesh_deformation.h b/include/delfem2/cad2_mesh_deformation.h
index 0e39daf..c5e94aa 100644
--- a/include/delfem2/cad2_mesh_deformation.h
+++ b/include/delfem2/cad2_mesh_deformation.h
@@ -32,10 +32,11 @@ void SetCadMeshDeformationWeightVtx(
       xyws.push_back(cad.aVtx[iv0].pos.y);
       xyws.push_back(vtx_w[iv0]);
     }
-    if (iv0 != vertex_idx && iv1 != vertex_idx) { continue; }
     for (auto &point: mesher.edge_point[ie]) {
       unsigned int ip = point.first;
-      double w0 = (iv1 == vertex_idx) ? point.second : 1. - point.second;
+      double w0 = 0.0;
+      if (iv1 == vertex_idx) { w0 = point.second; }
+      else if (iv0 == vertex_idx) { w0 = 1. - point.second; }
       if (cad.aEdge[ie].type_edge == dfm2::CCad2D_EdgeGeo::LINE) {
         vtx_w[ip] = w0;
       } else {
-- 
2.43.0


From a1783577766b30a50d3c25dbc0463fe40f88018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 045/160] fix: MakeOneTetSurNo skips deleted tetrahedra

---
 include/delfem2/dtet_v3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index 8bcda19..049a6f6 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -890,6 +890,7 @@ bool delfem2::MakeOneTetSurNo
 	}
 
 	for(unsigned int itet=0;itet<tet.size();itet++){
+		if( !tet[itet].isActive() ){ continue; }
 		for(unsigned int ipotet=0;ipotet<npotet;ipotet++){
 			point[ tet[itet].v[ipotet] ].e = itet;
 			point[ tet[itet].v[ipotet] ].poel = ipotet;
-- 
2.43.0


From d8df695665d43c0dea9545533c09a54fbbfde26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 046/160] fix: math expression: chained subtractions and
 divisions associate to the left

---
 include/delfem2/parse_math_expression.cpp | 31 +++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..cfd6ef6 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -184,6 +184,10 @@ DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
   RemoveExpressionBracket(exp);
 }
 
+bool IsArithmeticOperator(char c) {
+  return c == '+' || c == '-' || c == '*' || c == '/' || c == '^';
+}
+
 /**
  * 引数expの中のもっとも優先順位の低いオペレターを検索する。
  * itypeはオペレターの種類
@@ -228,30 +232,30 @@ int GetLowestPriorityOperator(
     int itype_curr = -1;
     int iopr_curr = -1;
     switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
+      case '+':
         if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 0;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!IsArithmeticOperator(exp[ipos_curr - 1])) {  // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
         }
         continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
+      case '-':
         if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 1;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!IsArithmeticOperator(exp[ipos_curr - 1])) {  // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
         }
         continue;
       case '*':ipriority_curr = 3;
@@ -272,7 +276,8 @@ int GetLowestPriorityOperator(
         }
         break;
     }
-    if (ipriority_curr < ipriority_min) {
+    // operators are left-associative except for the power
+    if (ipriority_curr < ipriority_min || (ipriority_curr == ipriority_min && ipriority_curr < 5)) {
       ipos_min = ipos_curr;
       ipriority_min = ipriority_curr;
       itype_min = itype_curr;
-- 
2.43.0


From 4bf0c9dfa1bc2dadfecda3f933a2e61a2a2c7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 047/160] fix: math expression: leading sign

---
 include/delfem2/parse_math_expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index cfd6ef6..3536ab1 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -298,7 +298,7 @@ int GetLowestPriorityOperator(
     return 3;
   }
   // binary operator(+とか-)
-  if (ipos_min != UINT_MAX) {
+  if (ipos_min != UINT_MAX && itype_min == 3) {
 //    std::cout << ipos_min << " " << itype_min << std::endl;
     assert(itype_min == 3);
     assert(iopr_min != -1);
@@ -309,7 +309,11 @@ int GetLowestPriorityOperator(
     return 0;
   }
   // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
+  if (ipos_min == 0 && itype_min == 2) {
+    if (exp.size() == 1) {
+      std::cerr << "Error!-->Sign operator misplaced " << std::endl;
+      return 9;
+    }
     assert(itype_min == 2);
     assert(iopr_min != -1);
     ibegin = ipos_min;
-- 
2.43.0


From b0f631dfd099ff80becb5187141b616539d8b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 048/160] fix: math expression: misplaced brackets are refused

---
 include/delfem2/parse_math_expression.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 3536ab1..a26de4f 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -222,6 +222,10 @@ int GetLowestPriorityOperator(
         iBracketDepth++;
         continue;
       case ')':iBracketDepth--;
+        if (iBracketDepth < 0) {
+          std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+          return 2;
+        }
         continue;
       default:if (iBracketDepth != 0) continue;
     }
@@ -322,6 +326,10 @@ int GetLowestPriorityOperator(
     iopr = iopr_min;
     return 0;
   }
+  if (is_numeric && iFirstBracket != UINT_MAX) {  // avoid 2(x)
+    std::cerr << "Error!-->Number in front of bracket" << std::endl;
+    return 1;
+  }
   // preposition operator ( sin, tanみたいの )
   if (!is_numeric && iFirstBracket != UINT_MAX) {
     if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
-- 
2.43.0


From 16b56f00a1db71b0d6ed985573ab80351e5b510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 049/160] fix: math expression: numbers are checked and do not
 depend on errno

---
 include/delfem2/parse_math_expression.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index a26de4f..ac0eee1 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -8,7 +8,7 @@
 #include "delfem2/parse_math_expression.h"
 
 #include <cassert>
-#include <cerrno>    /* Need for Using "ERANGE" */
+#include <cstdlib>    /* Need for Using "strtod" */
 #include <cmath>    /* Need for Using "HUGE_VAL" */
 #include <iostream>
 #include <climits>
@@ -455,13 +455,16 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
-      double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
+      const double val = strtod(compo.sOpe.c_str(), &e);
+      if (e == compo.sOpe.c_str() || *e != '\0') {
+        std::cout << "Not a number: " << compo.sOpe << std::endl;
+        return false;
+      }
+      if (val == HUGE_VAL) {
         std::cout << "Exceeding the range of (double)" << std::endl;
         return false;
       }
+      cmd_vec[iexp] = new COperand(val);
     } else if (compo.iOpeType == 1) { // symbol
       if (compo.iOpe == -1) {
         bool bflg = false;
-- 
2.43.0


From fe45c4a7b779a204268cb5d50ff8657143fe919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 050/160] fix: math expression: refused expression leaves
 nothing to dereference

---
 include/delfem2/parse_math_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index ac0eee1..548c62f 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -565,6 +565,9 @@ bool delfem2::CMathExpressionEvaluator::SetExp(
 
     if (!MakeCmdAry(m_apCmd, m_aKey,
                     exp_vec)) {
+      for (auto &icmd: m_apCmd) { delete icmd; }
+      for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
+      m_apCmd.clear();
       m_is_valid = false;
       return false;
     }
@@ -604,6 +607,7 @@ bool delfem2::CMathExpressionEvaluator::SetExp(
 }
 
 double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
+  if (!m_is_valid) { return std::nan(""); }
   std::vector<double> stack;
   stack.reserve(128);
   for (auto icmd: m_apCmd) {
-- 
2.43.0


From d4d03ffdbaa39205200baf64daf9d42093bdcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 051/160] fix: linear program can be prepared again after
 adding constraints

---
 include/delfem2/lp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..e5e100b 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -294,7 +294,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
   const unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
-  A.resize(ncol*nrow,0.0);
+  A.assign(ncol*nrow,0.0);
   for(unsigned int ieq=0;ieq<neq;++ieq){
     A[ieq*nrow] = aEq[ieq].rhs;
     for(size_t ic=0;ic<aEq[ieq].aCoeff.size();++ic){
-- 
2.43.0


From 6ccc9be8735bca6a99db4d7af0198775847f386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 052/160] fix: linear program accepts >= constraints with a
 non-positive bound

---
 include/delfem2/lp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e5e100b..deb7a66 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -338,9 +338,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
   }
 //  std::cout << "precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
-  if( nart == 0 ){ nitr=0; return 0; }
-  ////
-  A[(ncol-1)*nrow+1] = 1.0;
+  if( nart > 0 ){ A[(ncol-1)*nrow+1] = 1.0; }
   for(unsigned int ieq=0;ieq<aEq.size();++ieq){
     if( mapEq2Art[ieq] == -1 ) continue;
     int iart = mapEq2Art[ieq];
@@ -357,6 +355,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
       }
     }
   }
+  if( nart == 0 ){ nitr=0; return 0; }
 //  std::cout << "  precomp art" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
   assert(LinPro_CheckTable(A, map_col2row, ncol, nrow));
-- 
2.43.0


From d23298030ababf4bbfce823678a92edb03e7121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 053/160] fix: linear program reports that the iterations were
 not enough

---
 include/delfem2/lp.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index deb7a66..d120187 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -89,6 +89,7 @@ bool LinPro_CheckTable(
 // 0: converged
 // 1: input value wrong
 // 2: no bound
+// 4: the limit of the iteration is reached
 int LinPro_SolveTable(
     int& nitr,
     std::vector<double>& B,
@@ -186,7 +187,7 @@ int LinPro_SolveTable(
     flg_row[jrow_new] = 0;
     map_col2row[icol_min] = jrow_min;
   }
-  return false;
+  return 4;
 }
 
 //
@@ -274,6 +275,7 @@ void delfem2::CLinPro::AddEqn(
 // 0 converged
 // 2 nobound
 // 3 no valid solution
+// 4 the limit of the iteration is reached
 int delfem2::CLinPro::Precomp(int& nitr)
 {
   neq = static_cast<unsigned int>(aEq.size());
@@ -363,9 +365,8 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //  std::cout << "  after solve precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
   assert(LinPro_CheckTable(A, map_col2row, ncol, nrow));
-  if( res == 2 ){ // no bound in solution
-//    std::cout << "no bound in solution" << std::endl;
-    return 2;
+  if( res != 0 ){ // no bound in solution or too many iterations
+    return res;
   }
   for(unsigned int icol=0;icol<ncol;++icol){
     unsigned int jrow_dia = map_col2row[icol];
-- 
2.43.0


From 32c4470165044e3d78b1bce5ab69d2354478bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 054/160] fix: linear program accepts redundant equality
 constraints

---
 include/delfem2/lp.cpp | 57 ++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index d120187..0a8f3fb 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -85,6 +85,25 @@ bool LinPro_CheckTable(
   return true;
 }
 
+// make the variable jrow_piv the basic variable of the equation icol_piv
+void LinPro_Sweep(
+    std::vector<double>& B,
+    unsigned int ncol,
+    unsigned int nrow,
+    unsigned int icol_piv,
+    unsigned int jrow_piv)
+{
+  const double vpiv = B[icol_piv*nrow+jrow_piv];
+  for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol_piv*nrow+jrow] /= vpiv; }
+  for(unsigned int icol=0;icol<ncol;++icol){
+    if( icol == icol_piv ) continue;
+    const double vpiv0 = B[icol*nrow+jrow_piv];
+    for(unsigned int jrow=0;jrow<nrow;jrow++){
+      B[icol*nrow+jrow] -= vpiv0*B[icol_piv*nrow+jrow];
+    }
+  }
+}
+
 // return value
 // 0: converged
 // 1: input value wrong
@@ -171,15 +190,7 @@ int LinPro_SolveTable(
     }
     assert( fabs(B[icol_min*nrow+jrow_min]) > 0 );
     { // Gauss's sweep
-      const double vpiv = B[icol_min*nrow+jrow_min];
-      for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol_min*nrow+jrow] /= vpiv; }
-      for(unsigned int icol=0;icol<ncol;++icol){
-        if( icol == icol_min ) continue;
-        const double vpiv0 = B[icol*nrow+jrow_min];
-        for(unsigned int jrow=0;jrow<nrow;jrow++){
-          B[icol*nrow+jrow] -= vpiv0*B[icol_min*nrow+jrow];
-        }
-      }
+      LinPro_Sweep(B, ncol, nrow, icol_min, jrow_min);
     }
     // swap basic-nonbasic index
     flg_row[jrow_min] = 1;
@@ -293,7 +304,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
     if( aEq[ieq].itype == GE && aEq[ieq].rhs > 0  ){ mapEq2Art[ieq] = nart; nart++; }
     if( aEq[ieq].itype == EQ ){ mapEq2Art[ieq] = nart; nart++; }
   }
-  const unsigned int ncol = (neq+1); // neq,trg
+  unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
   A.assign(ncol*nrow,0.0);
@@ -368,14 +379,28 @@ int delfem2::CLinPro::Precomp(int& nitr)
   if( res != 0 ){ // no bound in solution or too many iterations
     return res;
   }
-  for(unsigned int icol=0;icol<ncol;++icol){
-    unsigned int jrow_dia = map_col2row[icol];
-    if( jrow_dia < 1 || jrow_dia >= 2+nvar+nslk ){
-//      std::cout << "precomputation is not solved: " << jrow_dia << " " << 2+nvar+nslk << std::endl;
-      return 3;
+  if( fabs(A[(ncol-1)*nrow]) > 1.0e-8 ){ // artificial variables cannot be zero
+    return 3;
+  }
+  for(unsigned int ieq=0;ieq<neq;){ // remove remaining artificial variables of zero value
+    if( map_col2row[ieq] < 2+nvar+nslk ){ ++ieq; continue; }
+    A[ieq*nrow] = 0.0;
+    unsigned int jrow_max = 2;
+    for(unsigned int jrow=2;jrow<2+nvar+nslk;++jrow){
+      if( fabs(A[ieq*nrow+jrow]) > fabs(A[ieq*nrow+jrow_max]) ){ jrow_max = jrow; }
+    }
+    if( fabs(A[ieq*nrow+jrow_max]) > 1.0e-8 ){
+      LinPro_Sweep(A, ncol, nrow, ieq, jrow_max);
+      map_col2row[ieq] = jrow_max;
+      ++ieq;
+    }
+    else{ // this equation depends on the others
+      A.erase(A.begin()+ieq*nrow, A.begin()+(ieq+1)*nrow);
+      map_col2row.erase(map_col2row.begin()+ieq);
+      --neq;
+      --ncol;
     }
   }
-  assert( fabs(A[(ncol-1)*nrow]) < 1.0e-8 );
 //  std::cout << "  solved" << std::endl;
 //  ::(A, ncol, nrow, map_col2row);
 //    std::cout << "couldn't found solution" << std::endl;
-- 
2.43.0


From 46216fe785203c7f9c5b5019f045e333edbe6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 055/160] fix: linear program does not pivot on rounding errors

---
 include/delfem2/lp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index 0a8f3fb..423bf6e 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -136,6 +136,7 @@ int LinPro_SolveTable(
     flg_row[jrow] = 1;
   }
   flg_row[0] = 2;
+  constexpr double tol = 1.0e-10; // smaller values are the rounding error
   // -----
   for(int itr=0;itr<nitr;++itr){
 //    std::cout << "iteration: " << itr << " " << nitr << std::endl;
@@ -146,7 +147,7 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 > -tol ){ continue; }
         is_optim = false;
       }
       if( is_optim ){ // no way to furthre increase the value
@@ -160,14 +161,14 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 > -tol ){ continue; }
         double min_bound = -1;
         unsigned int icol_min_cand = UINT_MAX;
         for(unsigned int icol=0;icol<ncol-1;++icol){
           const double dia0 = B[icol*nrow+jrow];
           const double rhs0 = B[icol*nrow];
 //          std::cout << "hoge" << dia0 << std::endl;
-          if( dia0 <= 0 ){ continue; } // negative dia makes the rhs netgative
+          if( dia0 < tol ){ continue; } // negative dia makes the rhs netgative
           double bound0 = rhs0/dia0;
           if( bound0 > 1.0e+10 ) continue;
           if( icol_min_cand == UINT_MAX || bound0 < min_bound ){
-- 
2.43.0


From 8b246a438f4538c7b4d7401f77b0fc3c1c79c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 056/160] fix: header of the DKT plate element includes its
 implementation

---
 include/delfem2/fem_dkt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_dkt.h b/include/delfem2/fem_dkt.h
index e08eb28..bf7c406 100644
--- a/include/delfem2/fem_dkt.h
+++ b/include/delfem2/fem_dkt.h
@@ -37,7 +37,7 @@ DFM2_INLINE void MakeMat_PlateBendingDKT
 } // namespace delfem2
 
 #ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/femdkt.cpp"
+#  include "delfem2/fem_dkt.cpp"
 #endif
   
 #endif /* fem_ematrix_h */
-- 
2.43.0


From 0fe549cf93675263b03e03402d8dd04e5033affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 057/160] fix: bending energy matches its gradient

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 411c68322ada2ac50af4617d1a396e3ddc449072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 058/160] fix: Hessian of MIPS energy away from the rest shape

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From 712623b229a7836e9bd389b4b72a4d9edd6489b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 059/160] fix: positive semi-definite projection of the
 membrane stress keeps the right direction

---
 include/delfem2/fem_stvk.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..57c25a2 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -243,9 +243,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t0 = 1.0/sqrt(sqlen_t0);
     t0[0] *= invlen_t0;
     t0[1] *= invlen_t0;
-    s3[0] = l*t0[0]*t0[0];
-    s3[1] = l*t0[1]*t0[1];
-    s3[2] = l*t0[0]*t0[1];
+    s3[0] = l*t0[1]*t0[1]; // the eigenvector is orthogonal to this row
+    s3[1] = l*t0[0]*t0[0];
+    s3[2] = -l*t0[0]*t0[1];
   }
   else{
     if( sqlen_t1 < 1.0e-20 ){
@@ -257,9 +257,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t1 = 1.0/sqrt(sqlen_t1);
     t1[0] *= invlen_t1;
     t1[1] *= invlen_t1;
-    s3[0] = l*t1[0]*t1[0];
-    s3[1] = l*t1[1]*t1[1];
-    s3[2] = l*t1[0]*t1[1];
+    s3[0] = l*t1[1]*t1[1];
+    s3[1] = l*t1[0]*t1[0];
+    s3[2] = -l*t1[0]*t1[1];
   }
 }
 
-- 
2.43.0


From 65db896ea4f63616d22cf51b9b21b5364f76ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 060/160] fix: plate-bending MITC3 residual is the load minus
 the internal force

---
 include/delfem2/fem_mitc3.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_mitc3.h b/include/delfem2/fem_mitc3.h
index 06eec03..6de1aa6 100644
--- a/include/delfem2/fem_mitc3.h
+++ b/include/delfem2/fem_mitc3.h
@@ -81,15 +81,15 @@ void MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(
         thick, lambda, myu);
     {
       const double A = delfem2::femutil::TriArea2D(P[0], P[1], P[2]);
-      dW[0][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[1][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[2][0] = rho * A * thick / 3.0 * gravity_z;
+      dW[0][0] -= rho * A * thick / 3.0 * gravity_z;
+      dW[1][0] -= rho * A * thick / 3.0 * gravity_z;
+      dW[2][0] -= rho * A * thick / 3.0 * gravity_z;
     }
     for (unsigned int ino = 0; ino < 3; ino++) {
       const unsigned int ip = aIP[ino];
-      vec_b[ip * 3 + 0] += dW[ino][0];
-      vec_b[ip * 3 + 1] += dW[ino][1];
-      vec_b[ip * 3 + 2] += dW[ino][2];
+      vec_b[ip * 3 + 0] -= dW[ino][0];
+      vec_b[ip * 3 + 1] -= dW[ino][1];
+      vec_b[ip * 3 + 2] -= dW[ino][2];
     }
     // marge dde
 //    mat_A.Mearge(3, aIP, 3, aIP, 9, &ddW[0][0][0][0], tmp_buffer);
-- 
2.43.0


From 4b66e974d6d1b909d66e01abca628cb0ca9c92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 061/160] fix: assembly of trilinear solid hexahedra compiles
 with the block sparse matrix

---
 include/delfem2/fem_solidlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 363d5fa..8ab4886 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -251,7 +251,7 @@ void MergeLinSys_LinearSolid3D_Static_Q1(
   const unsigned int np = aXYZ.size()/3;
   const unsigned int nDoF = np*3;
   //
-  mat_A.SetZero();
+  mat_A.setZero();
   vec_b.assign(nDoF, 0.0);
   std::vector<unsigned int> tmp_buffer(np, UINT_MAX);
   for (unsigned int iel = 0; iel<aHex.size()/8; ++iel){
-- 
2.43.0


From 51fbe93f4dcaf87387b78b94a34c2ec69d13dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 062/160] fix: streamline stabilisation of Navier-Stokes uses
 the full integral of velocity products

---
 include/delfem2/fem_navierstokes.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..ac6e9eb 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -453,7 +455,13 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[0][2] += velo[ino][0]*velo[ino][2];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
+      tmp_mat[1][2] += velo[ino][1]*velo[ino][2];
+      tmp_mat[2][0] += velo[ino][2]*velo[ino][0];
+      tmp_mat[2][1] += velo[ino][2]*velo[ino][1];
       tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
     }
     for(int ino=0;ino<nno;ino++){
-- 
2.43.0


From d7701f8868130a7510590b5ca4af43b2e8ce9ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 063/160] fix: shape matching in three dimensions measures the
 current height, not the rest height

---
 include/delfem2/pbd_geo3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..e0f0700 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -122,7 +122,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     CVec3d pc(0, 0, 0), qc(0, 0, 0);
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
-      assert(ip < nclstr0);
+      assert(iip < nclstr0);
       qc += CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]);
       pc += CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]);
     }
@@ -133,7 +133,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From 5b1a496f5a70f9878547bee65676c6974fa2c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 064/160] fix: rotational component of a 2x2 matrix is the
 closest rotation, also for diagonal or reflecting input

---
 include/delfem2/mat2.cpp | 67 +++++++++-------------------------------
 1 file changed, 15 insertions(+), 52 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..045b40e 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -98,59 +98,22 @@ DFM2_INLINE void delfem2::VLVt2
 DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
     double R[4],
     const double M[4]) {
-  namespace lcl = delfem2::mat2;
-  const double eps = 1.0e-20;
-  double A[4];
-  {
-    double s = fabs(M[0]) + fabs(M[1]) + fabs(M[2]) + fabs(M[3]);
-    if (s < 1.0e-10) {
-      R[0] = 1.0;
-      R[1] = 0.0;
-      R[2] = 0.0;
-      R[3] = 1.0;
-      return;
-    }
-    double invs = 1.0 / s;
-    A[0] = invs * M[0];
-    A[1] = invs * M[1];
-    A[2] = invs * M[2];
-    A[3] = invs * M[3];
+  // the rotation closest to M: the orthogonal factor of the polar decomposition if det(M) > 0
+  const double c = M[0] + M[3];
+  const double s = M[2] - M[1];
+  const double l = sqrt(c * c + s * s);
+  const double m = fabs(M[0]) + fabs(M[1]) + fabs(M[2]) + fabs(M[3]);
+  if (m < 1.0e-10 || l < 1.0e-20 * m) {
+    R[0] = 1.0;
+    R[1] = 0.0;
+    R[2] = 0.0;
+    R[3] = 1.0;
+    return;
   }
-  double G[4];
-  gramian2(G, A);
-  double l0, l1;
-  double v0[2], v1[2];
-  {
-    double b = G[0] + G[3];
-    double c = G[0] * G[3] - G[1] * G[2];
-    double d = b * b - 4 * c;
-    if (d < eps) {
-      l0 = 0.5 * b;
-      l1 = 0.5 * b;
-      v0[0] = 0;
-      v0[1] = 1;
-      v1[0] = 1;
-      v1[1] = 0;
-    } else {
-      d = sqrt(d);
-      l0 = 0.5 * (b + d);
-      l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
-    }
-  }
-  double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-  if (l0 < eps) { l0 = 1; }
-  if (l1 < eps) { l1 = 1; }
-  double il0 = 1.0 / sqrt(l0);
-  double il1 = 1.0 / sqrt(l1);
-  double invS[4];
-  VLVt2(invS, il0, il1, V);
-  MatMat2(R, A, invS);
+  R[0] = c / l;
+  R[1] = -s / l;
+  R[2] = s / l;
+  R[3] = c / l;
 }
 
 
-- 
2.43.0


From 933a0ae37f577d9de5fb7066c0c82519d5bf4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 065/160] fix: OBJ and MTL readers keep reading after a line of
 256 characters or more

---
 include/delfem2/msh_io_obj.cpp | 55 ++++++++++++++--------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..dd41d3f 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -266,12 +266,11 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       {
         std::istringstream is(buff);
@@ -283,7 +282,7 @@ DFM2_INLINE void delfem2::Read_Obj(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2;
       {
         std::istringstream is(buff);
@@ -311,12 +310,11 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -326,7 +324,7 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2, i3;
       std::istringstream is(buff);
       is >> str >> i0 >> i1 >> i2 >> i3;
@@ -353,12 +351,11 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -368,15 +365,12 @@ DFM2_INLINE void delfem2::Read_Obj2(
       aXYZ.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256], str0[256], str1[256], str2[256];
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
         is >> str >> str0 >> str1 >> str2;
 //        sscanf(buff, "%s %s %s %s", str, str0, str1, str2);
       }
-      for (unsigned int i = 0; i < strlen(str0); ++i) { if (str0[i] == '/') { str0[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str1); ++i) { if (str1[i] == '/') { str1[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str2); ++i) { if (str2[i] == '/') { str2[i] = '\0'; }}
       const int i0 = std::stoi(str0);
       const int i1 = std::stoi(str1);
       const int i2 = std::stoi(str2);
@@ -405,12 +399,11 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       REAL x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -508,11 +501,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff;
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -522,7 +514,7 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
       continue;
     }
     if (buff[0] == 'v') {
-      char str[256];
+      std::string str;
       T x, y, z;
       std::istringstream is(buff);
       if (buff[1] == ' ') { // vertex
@@ -575,11 +567,9 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         }
       }
       for (const auto &str0: vec_str) {
-        char buff1[256];
-        std::strncpy(buff1, str0.c_str(), str0.size());
-        buff1[str0.size()] = '\0';
+        std::string buff1 = str0;
         int ip0, it0, in0;
-        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1.data());
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
@@ -627,9 +617,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
-- 
2.43.0


From d8f5a8e34232bd9a62a111f6beb994460abc5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 066/160] fix: OBJ writer gives every group its own name, as
 the reader numbers them

---
 include/delfem2/msh_io_obj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index dd41d3f..c5c5cb0 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -229,8 +229,8 @@ DFM2_INLINE void delfem2::Write_WavefrontObj(
     fout << vtx_nrm[ip * 3 + 2] << std::endl;
   }
   for (size_t ig = 0; ig < group_elem_index.size() - 1; ++ig) {
-    if (ig-1 < group_names.size() && ig != 0) {
-      fout << "g " << group_names[ig-1] << std::endl;
+    if (ig < group_names.size() && ig != 0) { // group 0 is the unnamed default group
+      fout << "g " << group_names[ig] << std::endl;
     }
     for (size_t itri = group_elem_index[ig]; itri < group_elem_index[ig + 1]; itri++) {
       assert(itri<tri_vtx_xyz.size()/3);
-- 
2.43.0


From 187b6f51f3d44870704792516f64c73fb61ec3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 067/160] fix: TetGen reader skips attributes and boundary
 markers at the end of a row

---
 include/delfem2/msh_io_misc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..b8e58ca 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -135,9 +135,11 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
     unsigned int nnode;
     unsigned int i1, i2, i3;
     fin >> nnode >> i1 >> i2 >> i3;
+    std::string rest_of_line;
     aXYZ.resize(nnode * 3);
     for (unsigned int ino = 0; ino < nnode; ino++) {
       fin >> i1 >> aXYZ[ino * 3 + 0] >> aXYZ[ino * 3 + 1] >> aXYZ[ino * 3 + 2];
+      std::getline(fin, rest_of_line); // attributes and boundary marker
       //        std::cout << i1 << " " << aXYZ[ino*3+0] << " " << aXYZ[ino*3+1] << " " << aXYZ[ino*3+2] << std::endl;
     }
   }
@@ -146,9 +148,11 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
     unsigned int ntet;
     unsigned int i1, i2;
     fin >> ntet >> i1 >> i2;
+    std::string rest_of_line;
     aTet.resize(ntet * 4);
     for (unsigned int itet = 0; itet < ntet; itet++) {
       fin >> i1 >> aTet[itet * 4 + 0] >> aTet[itet * 4 + 1] >> aTet[itet * 4 + 2] >> aTet[itet * 4 + 3];
+      std::getline(fin, rest_of_line); // attributes
       //        std::cout << i1 << " " << aTet[itet*4+0] << " ";
       //        std::cout << aTet[itet*4+1] << " ";
       //        std::cout << aTet[itet*4+2] << " ";
@@ -165,6 +169,7 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
     int ntri;
     unsigned int i1;
     fin >> ntri >> i1;
+    std::string rest_of_line;
     aTri.resize(ntri * 3);
     //      char buff[256];
     for (int itri = 0; itri < ntri; itri++) {
@@ -176,6 +181,7 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
        //        fin >> i1 >> aTri[itri*3+0] >> aTri[itri*3+2] >> aTri[itri*3+1] >> i2;
        */
       fin >> i1 >> aTri[itri * 3 + 0] >> aTri[itri * 3 + 2] >> aTri[itri * 3 + 1];
+      std::getline(fin, rest_of_line); // boundary marker
       //        aTri[itri*3+0] -= 1;
       //        aTri[itri*3+1] -= 1;
       //        aTri[itri*3+2] -= 1;
-- 
2.43.0


From 094fb4e2f70f46613fc222fb638d2b52eded88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 068/160] fix: MTL emission alpha is one like the other
 colours, properties before a material are ignored; empty Nastran file gives
 an empty mesh

---
 include/delfem2/msh_io_misc.cpp | 1 +
 include/delfem2/msh_io_obj.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index b8e58ca..97601c8 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -711,6 +711,7 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
       continue;
     }
   }
+  if (map01.empty()) { return; }
   int np1 = map01[0];
   for (int ip1 : map01) {
     np1 = (ip1 > np1) ? ip1 : np1;
diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index c5c5cb0..ecf6c37 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -630,6 +630,7 @@ void delfem2::Read_WavefrontMaterial(
       ss >> str1;
       materials[imtl0].name_mtl = str1;
     }
+    if (materials.empty()) { continue; } // nothing to set before the first newmtl
     const int imtl0 = static_cast<int>(materials.size()) - 1;
     if (str0 == "Kd") {
       ss >> str1 >> str2 >> str3;
@@ -657,7 +658,7 @@ void delfem2::Read_WavefrontMaterial(
       materials[imtl0].Ke[0] = std::stof(str1);
       materials[imtl0].Ke[1] = std::stof(str2);
       materials[imtl0].Ke[2] = std::stof(str3);
-      materials[imtl0].Ke[3] = std::stof(str3);
+      materials[imtl0].Ke[3] = 1.0;
     }
     if (str0 == "Ns") {
       ss >> str1;
-- 
2.43.0


From fc0aba1243070937a69d74fc94b7dfeae29063d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 069/160] fix: Split_Quote and Split_Parentheses keep the
 delimiter at the end of the text out of the last token

---
 include/delfem2/str.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..4535ddf 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -117,9 +117,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
   unsigned int is=0;
   int ilevel = 0;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == cs ){ ilevel++; }
     if( str[ie] == ce ){ ilevel--; }
     if( str[ie] == delimiter && ilevel == 0 ){
@@ -127,6 +124,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
       is = ie+1;
     }
   }
+  if( !str.empty() ){
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
@@ -139,9 +139,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
   unsigned int is=0;
   bool is_in = false;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == quote ){ is_in = !is_in; }
     if( str[ie] == delimiter && !is_in ){
       if( str[is] != delimiter ) { // skip the sequence of the delimiter
@@ -150,6 +147,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
       is = ie+1;
     }
   }
+  if( is < str.size() ){
+    aToken.emplace_back(str.data() + is, str.data() + str.size());
+  }
   return aToken;
 }
 
-- 
2.43.0


From 640de431e6bd501aac1de383cfe135bcea196a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 070/160] fix: RemoveBeginning removes everything when all the
 letters are to be removed

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 4535ddf..39bd715 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -206,7 +206,7 @@ DFM2_INLINE std::string delfem2::RemoveBeginning(
   const size_t n = str.size();
   const size_t ndel = del.size();
   //
-  int istat = 0;
+  size_t istat = n; // empty if every letter is in "del"
   for(unsigned int i=0;i<n;++i){
     bool is_del = false;
     for(unsigned int idel=0;idel<ndel;++idel){
-- 
2.43.0


From 56bc44b8530d08ae0e213cd2ea373a1aedc8001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 071/160] fix: ReadDictionary_Json keeps spaces, colons and
 commas inside the quotations, reads an empty dictionary

---
 include/delfem2/str.cpp | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 39bd715..2e7a42b 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -275,30 +275,19 @@ DFM2_INLINE std::string delfem2::Get_Parentheses(
 DFM2_INLINE std::map<std::string, std::string>
 delfem2::ReadDictionary_Json(const std::string& strIn)
 {
-  const std::string& buff = RemoveSpace(strIn);
-  const size_t n =  buff.length();
-  const char* p = buff.data();
+  // the quotations alternate between keys and values
+  std::vector<std::string> aQuoted;
+  size_t ipos = strIn.find('"');
+  while( ipos != std::string::npos ){
+    const size_t jpos = strIn.find('"',ipos+1);
+    if( jpos == std::string::npos ){ break; }
+    aQuoted.push_back(strIn.substr(ipos+1,jpos-ipos-1));
+    ipos = strIn.find('"',jpos+1);
+  }
+  assert( aQuoted.size() % 2 == 0 );
   std::map<std::string, std::string> res;
-  assert(p[0]=='{');
-  assert(p[1]=='"');
-  int ipos_begin = 1;
-  int ipos_middle = -1;
-  int ipos_end = -1;
-  for(unsigned int i=1;i<n;++i){
-    if( p[i]==':' && p[i-1]=='"' ){
-      ipos_middle = i;
-    }
-    if( (p[i]==',' && p[i-1]=='"') || (i==n-1) ){
-      ipos_end = i;
-      assert(buff[ipos_begin]=='"');
-      assert(buff[ipos_middle+1]=='"');
-      assert(buff[ipos_middle-1]=='"');
-      assert(buff[ipos_end-1]=='"');
-      std::string key(buff.begin()+ipos_begin+1,buff.begin()+ipos_middle-1);
-      std::string val(buff.begin()+ipos_middle+2,buff.begin()+ipos_end-1);
-      res.insert( std::make_pair(key, val) );
-      ipos_begin = ipos_end + 1;
-    }
+  for(size_t i=0;i+1<aQuoted.size();i+=2){
+    res.insert( std::make_pair(aQuoted[i], aQuoted[i+1]) );
   }
   return res;
 }
-- 
2.43.0


From c349d5603c99f84fcb56ad4f1735a98f31e8239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 072/160] fix: XML_SeparateTagContent keeps the content after
 the last tag

---
 include/delfem2/str.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 2e7a42b..e49d081 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -381,6 +381,9 @@ DFM2_INLINE void delfem2::XML_SeparateTagContent
       s++;
     }
   }
+  if( state == 1 && mark != s ){ // content after the last tag
+    aStr.emplace_back(mark);
+  }
   for(auto & is : aStr){
     is = RemoveBeginning(is, " ");
   }
-- 
2.43.0


From 1b658199b68498bf8bb26c0a7d575a1489c8518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 073/160] fix: ParseAttributes keeps an attribute that has an
 equal sign in its value

---
 include/delfem2/str.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index e49d081..b7dcf82 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -401,10 +401,10 @@ DFM2_INLINE void delfem2::ParseAttributes
   }
    */
   for(const auto & is : aS){
-    std::vector<std::string> aS1 = Split(is, '=');
-    if( aS1.size() != 2 ) continue;
-    std::string s1 = Remove_Quote(aS1[1], '\"');
-    mapAttr.insert( std::make_pair(aS1[0],s1) );
+    const size_t ieq = is.find('='); // the value may have '='
+    if( ieq == std::string::npos || ieq == 0 || ieq+1 == is.size() ) continue;
+    std::string s1 = Remove_Quote(is.substr(ieq+1), '\"');
+    mapAttr.insert( std::make_pair(is.substr(0,ieq),s1) );
   }
 }
 
-- 
2.43.0


From 2fa5f8a907433999558c4b7b301f2da4d3929b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 074/160] fix: default of getCmdOptionDouble is a double

---
 include/delfem2/str.cpp | 2 +-
 include/delfem2/str.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index b7dcf82..9e0c5d6 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -348,7 +348,7 @@ DFM2_INLINE bool delfem2::cmdOptionExists
 }
 
 DFM2_INLINE double delfem2::getCmdOptionDouble
- (char ** begin, char ** end, const std::string & option, int ddef)
+ (char ** begin, char ** end, const std::string & option, double ddef)
 {
   char ** itr = std::find(begin, end, option);
   if (itr != end && ++itr != end){ return myStod(*itr); }
diff --git a/include/delfem2/str.h b/include/delfem2/str.h
index f57a0cc..8369279 100644
--- a/include/delfem2/str.h
+++ b/include/delfem2/str.h
@@ -42,7 +42,7 @@ DFM2_INLINE double getCmdOptionDouble(
     char ** begin,
     char ** end,
     const std::string & option,
-    int ddef);
+    double ddef);
 
 DFM2_INLINE bool cmdOptionExists(
     char** begin,
-- 
2.43.0


From 0a5b6dc2c543609146ceb7923ac0723f533e87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 075/160] fix: file extension is what follows the last dot of
 the file name, directory of a bare file name is empty

---
 include/delfem2/file.cpp | 46 ++++++++++------------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 324496b..36591b8 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -14,27 +14,6 @@
 
 #include "delfem2/file.h"
 
-namespace delfem2{
-namespace file{
-
-DFM2_INLINE void Split(
-    std::vector<std::string>& aToken,
-    const std::string& str,
-    char delimiter)
-{
-  aToken.clear();
-  std::stringstream data(str);
-  std::string line;
-  while(std::getline(data,line,delimiter)){
-    if( line.empty() ){ continue; }
-    aToken.push_back(line);
-  }
-}
-
-}
-}
-
-
 // -------------------------------------
 // file IO
 
@@ -61,29 +40,26 @@ DFM2_INLINE bool delfem2::isFileExists(const std::string& fpath)
 
 DFM2_INLINE std::string delfem2::pathRemoveExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  for(int it=0;it<(int)aToken.size()-1;++it){
-    sRes += aToken[it];
-  }
-  return sRes;
+  const size_t idot = fpath.find_last_of('.');
+  const size_t islash = fpath.find_last_of('/');
+  if( idot == std::string::npos ){ return fpath; }
+  if( islash != std::string::npos && idot < islash ){ return fpath; } // dot of a directory
+  return fpath.substr(0,idot);
 }
 
 DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  if( !aToken.empty() ){
-    sRes = aToken[aToken.size()-1];
-  }
-  return sRes;
+  const size_t idot = fpath.find_last_of('.');
+  const size_t islash = fpath.find_last_of('/');
+  if( idot == std::string::npos ){ return ""; }
+  if( islash != std::string::npos && idot < islash ){ return ""; } // dot of a directory
+  return fpath.substr(idot+1);
 }
 
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
 {
   const size_t iloc = fpath.find_last_of('/');
+  if( iloc == std::string::npos ){ return ""; }
   std::string sres = std::string(fpath.begin(),fpath.begin()+iloc);
   return sres;
 }
-- 
2.43.0


From 8d85e952d95a85d576682c4b23f77668904d664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 076/160] fix: ReadParam reads the last value of a file without
 trailing new line and stops at a text that is not a number

---
 include/delfem2/file.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 36591b8..a03ca38 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -74,10 +74,8 @@ DFM2_INLINE bool delfem2::ReadParam(
   fin.open(fname.c_str());
   if( !fin.is_open() ) return false;
   aPara.clear();
-  for(;;){
-    double d;
-    fin >> d;
-    if( fin.eof() ) break;
+  double d;
+  while( fin >> d ){
     aPara.push_back(static_cast<float>(d));
   }
   return true;
-- 
2.43.0


From 3b7b83cbc227573506e1b8a8386935ecebf335c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 077/160] fix: PPM readers follow the format: header in any
 number of lines with comments, data at the right offset, image of the right
 size, failure on other files

---
 include/delfem2/img_ioppm.cpp | 106 ++++++++++++++++------------------
 1 file changed, 51 insertions(+), 55 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index fb1838d..a05f354 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -16,6 +16,27 @@
 
 #include "delfem2/img_ioppm.h"
 
+namespace delfem2::img_ioppm {
+
+/**
+ * read a non-negative number in the header skipping white spaces and comments ("#" to the end of the line)
+ */
+DFM2_INLINE bool ReadNumber(
+    std::istream& fin,
+    int& val)
+{
+  for(;;){
+    fin >> std::ws;
+    if( fin.peek() != '#' ){ break; }
+    std::string comment;
+    std::getline(fin, comment);
+  }
+  fin >> val;
+  return !fin.fail() && val >= 0;
+}
+
+}
+
 // https://en.wikipedia.org/wiki/Netpbm_format
 bool delfem2::LoadImage_PPMBinary(
     const std::string& filename,
@@ -28,48 +49,33 @@ bool delfem2::LoadImage_PPMBinary(
     return false;
   }
   
-  std::string header;
-  {
-    char buff[256];
-    file.getline(buff, 256);
-    header = std::string(buff);
-  }
-  if (header=="P6") { // binary format
-    {
-      int max;
-      char buff[256];
-      file.getline(buff,256);
-      if (buff[0]=='#'){
-        file>>width>>height>>max;
-      }
-      else{
-        std::stringstream ss(buff);
-        ss>>width>>height>>max;
-      }
-      //      std::cout<<header<<" "<<width<<" "<<height<<" "<<max<<std::endl;
-    }
-    // max is supporse to be 255
-    const int size = width*height*3+1;
-    std::vector<unsigned char> data(size);
-    file.read(reinterpret_cast<char*>(&(data[0])), size);
-    image.resize(3*height*width+256);
-    for (int row = 0; row < height; ++row) {
-      for (int col = 0; col < width; ++col) {
-        int dest_index = 3*((height-row-1) * width+col);
-        int src_index = (row * width+col)*3;
-        image[dest_index+0] = data[src_index+1];
-        image[dest_index+1] = data[src_index+2];
-        image[dest_index+2] = data[src_index+3];
-      }
+  char magic[2] = {0,0};
+  file.read(magic,2);
+  if( !file || magic[0] != 'P' || magic[1] != '6' ){ return false; }
+  int max;  // max is suppose to be 255
+  if( !img_ioppm::ReadNumber(file,width) ){ return false; }
+  if( !img_ioppm::ReadNumber(file,height) ){ return false; }
+  if( !img_ioppm::ReadNumber(file,max) ){ return false; }
+  file.get(); // single white space between the header and the data
+  const size_t size = static_cast<size_t>(width)*height*3;
+  std::vector<unsigned char> data(size);
+  file.read(reinterpret_cast<char*>(data.data()), static_cast<std::streamsize>(size));
+  if( !file ){ return false; }
+  image.resize(size);
+  for (int row = 0; row < height; ++row) {
+    for (int col = 0; col < width; ++col) {
+      const size_t dest_index = 3*(static_cast<size_t>(height-row-1)*width+col);
+      const size_t src_index = 3*(static_cast<size_t>(row)*width+col);
+      image[dest_index+0] = data[src_index+0];
+      image[dest_index+1] = data[src_index+1];
+      image[dest_index+2] = data[src_index+2];
     }
   }
-
   file.close();
   return true;
 }
 
 // https://en.wikipedia.org/wiki/Netpbm_format
-// TODO: cannot process comment out sybol yet '#'
 int delfem2::LoadImage_PPMAscii(
     unsigned int& width, 
 	unsigned int& height,
@@ -82,32 +88,22 @@ int delfem2::LoadImage_PPMAscii(
 
   image.clear();
   width = height = 0;
-  int vmax;
   {
-    const unsigned int buffSize = 256;
-    char buff[buffSize];
-    // get format
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    if( buff[0] != 'P' || buff[1] != '3'){ return 2; }
-    // get size
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    {
-      std::stringstream ss(buff);
-      ss >> width >> height;
-    }
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    {
-      std::stringstream ss(buff);
-      ss >> vmax;
-    }
+    char magic[2] = {0,0};
+    fin.read(magic,2);
+    if( !fin || magic[0] != 'P' || magic[1] != '3'){ return 2; }
+    int w, h, vmax;
+    if( !img_ioppm::ReadNumber(fin,w) ){ return 2; }
+    if( !img_ioppm::ReadNumber(fin,h) ){ return 2; }
+    if( !img_ioppm::ReadNumber(fin,vmax) ){ return 2; }
+    width = w;
+    height = h;
   }
   image.resize(width*height*3);
-  const auto buffSize = (unsigned int)(4*3*width*1.2);
-  std::vector<char> buff(buffSize, 0);
   unsigned int icnt = 0;
   while (icnt<width*height*3) {
     int ival;
-    fin >> ival;
+    if( !img_ioppm::ReadNumber(fin,ival) ){ return 2; }
     unsigned int ih = icnt/(width*3);
     unsigned int iw = (icnt-ih*width*3)/3;
     unsigned int ich = icnt - ih*width*3 - iw*3;
-- 
2.43.0


From 4b78437b163526b048c9b45ddcd8debb6626a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 078/160] fix: npy readers take a header of any length, report
 failure of the header, check type, order and version of the data

---
 include/delfem2/filenpy_str.cpp | 168 +++++++++++---------------------
 1 file changed, 57 insertions(+), 111 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..76faa12 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -28,42 +28,41 @@ struct NPY
   unsigned short header_len = 0; // 2 bytes
 };
 
-DFM2_INLINE bool LoadNumpy(
-    int& ndim0,
-    int& ndim1,
-    std::ifstream& fp)
+/**
+ * read the header and check the data is in the C order and its type is what the caller expects
+ * @param[out] shape size of the dimensions
+ * @param[in] descr type of the data (e.g., "<f4" )
+ */
+DFM2_INLINE bool LoadNumpyHeader(
+    std::vector<int>& shape,
+    std::ifstream& fin,
+    const std::string& descr)
 {
+  shape.clear();
   NPY npy;
-//  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
-//  if( n0 != 1 ){ return false; }
-  fp.read((char*)&npy, sizeof(npy));
-  if( fp.fail() ){ return false; }
-
+  fin.read((char*)&npy, sizeof(npy));
+  if( fin.fail() ){ return false; }
   { // check magic string
     unsigned char sMagic[7] = {0x93,'N','U','M','P','Y'};
     if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
   }
-
-  ndim0 = 0;
-  ndim1 = 0;
-  { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
-    if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
-    std::string str_shape = map0["'shape'"];
-    str_shape = Get_Parentheses(str_shape,"()");
-    std::vector<std::string> aToken = Split(str_shape,',');
-    if( aToken.size() != 2 ){ return false; }
-    ndim0 = myStoi(aToken[0]);
-    ndim1 = myStoi(aToken[1]);
+  if( npy.major_version != 1 ){ return false; } // size of header is four bytes
+  std::string header(npy.header_len, ' ');
+  fin.read(&header[0], npy.header_len);
+  if( fin.fail() ){ return false; }
+  std::map<std::string, std::string> map0 = ReadDictionary_Python(header);
+  if( map0["'descr'"] != "'" + descr + "'" ){ return false; }
+  if( map0["'fortran_order'"] != "False" ){ return false; }
+  const std::string str_shape = Get_Parentheses(map0["'shape'"],"()");
+  for(const auto& token : Split(str_shape,',')){
+    shape.push_back(myStoi(token));
+    if( shape.back() < 0 ){ return false; }
   }
   return true;
 }
 
 
+
 }
 }
 
@@ -76,46 +75,26 @@ std::map<std::string, std::string>
 DFM2_INLINE delfem2::ReadDictionary_Python(
     const std::string& strIn)
 {
-  std::string buff = RemoveSpace(strIn);
+  const std::string buff = Remove(strIn," \n");
   std::map<std::string, std::string> map0;
-  //
-  const size_t n =  buff.length();
-  const char* pbuff = buff.c_str();
-  //
-  int iend = 1; // first letter is {
-  int icolon = -1;
-  bool is_parentheses = false;
-  std::string skey;
-  for(unsigned int i=0;i<n;++i){
-    if( buff[i] == ':' ){
-      char str[256];
-//      strncpy(str, pbuff+iend,i-iend);
-      for(unsigned int j=0;j<i-iend;++j){ str[j] = pbuff[iend+j]; }
-      str[i-iend] = '\0';
-      //      std::cout << "key:" << str << "#" << std::endl;
-      skey = std::string(str);
-      //      if( buff[i+1] == ' ' ){ i+=1; }
-      icolon = i;
-    }
-    if( buff[i] == ','){
-      assert( icolon != -1 );
-      if( is_parentheses ){ continue; }
-      char str[256];
-//      strncpy(str, pbuff+icolon+1,i-icolon-1);
-      for(unsigned int j=0;j<i-icolon-1;++j){ str[j] = pbuff[icolon+1+j]; }
-      str[i-icolon-1] = '\0';
-      //      std::cout << "val:" << str << "#" << std::endl;
-      std::string svalue(str);
-      map0.insert( std::make_pair(skey,svalue) );
-      //      if( buff[i+1] == ' ' ){ i+=1; }
-      iend = i+1;
-      icolon = -1;
-    }
-    if( buff[i] == '('){
-      is_parentheses = true;
-    }
-    if( buff[i] == ')'){
-      is_parentheses = false;
+  const size_t n = buff.length();
+  size_t ibegin = 1; // first letter is {
+  size_t icolon = std::string::npos;
+  int ilevel = 0; // level of the parentheses
+  for(size_t i=1;i<n;++i){
+    if( buff[i] == '(' ){ ilevel++; }
+    if( buff[i] == ')' ){ ilevel--; }
+    if( ilevel != 0 ){ continue; }
+    if( buff[i] == ':' && icolon == std::string::npos ){ icolon = i; }
+    if( buff[i] == ',' || buff[i] == '}' ){ // end of an entry
+      if( icolon != std::string::npos ){
+        map0.insert( std::make_pair(
+            buff.substr(ibegin,icolon-ibegin),
+            buff.substr(icolon+1,i-icolon-1)) );
+      }
+      ibegin = i+1;
+      icolon = std::string::npos;
+      if( buff[i] == '}' ){ break; }
     }
   }
   return map0;
@@ -133,12 +112,15 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
-  int size = ndim0*ndim1;
+  static_assert( sizeof(REAL) == 4 || sizeof(REAL) == 8, "float or double");
+  std::vector<int> shape;
+  if( !funcs::LoadNumpyHeader(shape, fin, sizeof(REAL) == 4 ? "<f4" : "<f8") ){ return false; }
+  if( shape.size() != 2 ){ return false; }
+  ndim0 = shape[0];
+  ndim1 = shape[1];
+  const size_t size = static_cast<size_t>(ndim0)*ndim1;
   aData.resize(size);
-//  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
-//  return (int) n0 == size;
-  fin.read( (char*)&aData[0], sizeof(REAL)*size );
+  fin.read( (char*)aData.data(), static_cast<std::streamsize>(sizeof(REAL)*size) );
   return !fin.fail();
 }
 #ifdef DFM2_STATIC_LIBRARY
@@ -161,47 +143,11 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
   
-  funcs::NPY npy;
-//  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
-//  if( n0 != 1 ){ return false; }
-  fin.read((char*)&npy,sizeof(npy));
-  if( fin.fail() ){ return false; }
-  
-  { // check magic string
-    unsigned char sMagic[7] = {0x93,'N','U','M','P','Y'};
-    if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
-  }
-  
-  //    std::cout << npy.major_version << std::endl;
-  //    std::cout << npy.minor_version << std::endl;
-  //    std::cout << npy.header_len << std::endl;
-  
-  ndim0 = 0;
-  { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
-    if(fin.fail()){ return false; }
-    //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
-    //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
-    //      std::cout << itr->first << " --> " << itr->second << std::endl;
-    //    }
-    std::string str_shape = map0["'shape'"];
-    str_shape = Get_Parentheses(str_shape,"()");
-    std::vector<std::string> aToken = Split(str_shape,',');
-    if( aToken.size() != 1 ){ return false; }
-    ndim0 = myStoi(aToken[0]);
-  }
-  //    std::cout << ndim0 << " " << ndim1 << std::endl;
-  
-  //////
-  unsigned int size = ndim0;
-  aData.resize(size);
-  //  double* aRes = (double*)malloc( sizeof(double)*size );
-//  size_t n2 = fread(&aData[0], sizeof(float), size, fp);
-//  return n2 == size;
-  fin.read( (char*)&aData[0], sizeof(float)*size );
+  std::vector<int> shape;
+  if( !funcs::LoadNumpyHeader(shape, fin, "<f4") ){ return false; }
+  if( shape.size() != 1 ){ return false; }
+  ndim0 = shape[0];
+  aData.resize(ndim0);
+  fin.read( (char*)aData.data(), static_cast<std::streamsize>(sizeof(float)*ndim0) );
   return !fin.fail();
 }
-- 
2.43.0


From ad8ee12ef8900447e68c133b5573fcd55e26bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 079/160] fix: SVG path: numbers are separated by spaces around
 commas, signs and periods, can have exponents and end the text

---
 include/delfem2/cad2_io_svg.cpp | 59 ++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index 30327b4..2561433 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -18,41 +18,38 @@
 
 namespace delfem2::cad2_io_svg {
 
+/**
+ * split the attribute "d" into commands (one letter) and numbers.
+ * numbers are separated by spaces, commas, or by the sign or the second period starting the next number
+ */
 DFM2_INLINE std::vector<std::string> SVG_Split_Path_d
-    (std::string &s0) {
-  unsigned int imark = 0;
+    (const std::string &s0) {
   std::vector<std::string> aS;
-  for (unsigned int i = 0; i < s0.size(); ++i) {
-    if (isNumeric(s0[i])) continue;
-    if (s0[i] == ',') {
-      std::string s1(s0.begin() + imark, s0.begin() + i);
-      aS.push_back(s1);
-      imark = i + 1;  // mark shoud be the begining position of the string so move next
-    }
-    if (s0[i] == ' ') { // sometimes the space act as delimiter in the SVG (inkscape version)
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
-      }
-      imark = i + 1; // mark shoud be the begining position of the string so move next
-    }
-    if (s0[i] == '-') {
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
-      }
-      imark = i;
-    }
-    if (isAlphabet(s0[i])) {
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
-      }
-      const char s2[2] = {s0[i], '\0'};
-      aS.emplace_back(s2);
-      imark = i + 1;
+  std::string num; // number being read
+  const auto flush = [&aS, &num]() {
+    if (!num.empty()) { aS.push_back(num); }
+    num.clear();
+  };
+  for (const char c: s0) {
+    const bool is_exp = num.find_first_of("eE") != std::string::npos;
+    if (c == ',' || c == ' ' || c == '\t' || c == '\n' || c == '\r') {
+      flush();
+    } else if ((c == 'e' || c == 'E') && !num.empty() && !is_exp) {
+      num += c;
+    } else if (isAlphabet(c)) {
+      flush();
+      aS.emplace_back(1, c);
+    } else if (c == '-' || c == '+') {
+      if (!num.empty() && num.back() != 'e' && num.back() != 'E') { flush(); }
+      num += c;
+    } else if (c == '.') {
+      if (is_exp || num.find('.') != std::string::npos) { flush(); }
+      num += c;
+    } else {
+      num += c;
     }
   }
+  flush();
   return aS;
 }
 
-- 
2.43.0


From 08b5ef571d026cb8f18c653f74965b6d3e407fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 080/160] fix: SVG path: smooth cubic curve mirrors the control
 point of the previous curve, relative smooth curve, commands with repeated
 arguments

---
 include/delfem2/cad2_io_svg.cpp | 112 ++++++++++++--------------------
 1 file changed, 43 insertions(+), 69 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index 2561433..b358c26 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -153,82 +153,56 @@ DFM2_INLINE void LoopEdgeCad2D_SVGPathD(
         aEdge.push_back(e0);
         is += 2;
       }
-    } else if (aStr1[is] == "S") {
-      CCad2D_EdgeGeo e;
-      e.p0 = pos_cur;
-      e.p1 = CVec2d(myStod(aStr1[is + 3]), myStod(aStr1[is + 4]));
-      CVec2d p2(myStod(aStr1[is + 1]), myStod(aStr1[is + 2]));
-      CVec2d p3 = e.p1;
-      e.SetCubicBezierCurve(p2,p3);
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 5;
-    } else if (aStr1[is] == "v") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(pos_cur.x, pos_cur.y + myStod(aStr1[is + 1]));
-        e.type_edge = CCad2D_EdgeGeo::LINE;
-      }
-      pos_cur = e.p1;
-      aEdge.push_back(e);
-      is += 2;
-    } else if (aStr1[is] == "V") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(pos_cur.x, myStod(aStr1[is + 1]));
-        e.SetLine();
-      }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "H") {
-      CCad2D_EdgeGeo e;
-      {
+    } else if (aStr1[is] == "S" || aStr1[is] == "s") { // smooth cubic Bezier
+      const bool is_rel = aStr1[is] == "s";
+      ++is;
+      for (;;) {
+        const CVec2d org = is_rel ? pos_cur : CVec2d(0, 0);
+        CVec2d p1 = pos_cur; // the first control point mirrors the second one of the previous curve
+        if (!aEdge.empty() && aEdge.back().type_edge == CCad2D_EdgeGeo::BEZIER_CUBIC) {
+          p1 = pos_cur - CVec2d(aEdge.back().param[2], aEdge.back().param[3]);
+        }
+        const CVec2d p2 = org + CVec2d(myStod(aStr1[is + 0]), myStod(aStr1[is + 1]));
+        CCad2D_EdgeGeo e;
         e.p0 = pos_cur;
-        e.p1 = CVec2d(myStod(aStr1[is + 1]), pos_cur.y);
-        e.SetLine();
+        e.p1 = org + CVec2d(myStod(aStr1[is + 2]), myStod(aStr1[is + 3]));
+        e.SetCubicBezierCurve(p1, p2);
+        aEdge.push_back(e);
+        pos_cur = e.p1;
+        is += 4;
+        if (isAlphabet(aStr1[is][0])) { break; }
       }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "h") {
-      CCad2D_EdgeGeo e;
-      {
+    } else if (aStr1[is] == "V" || aStr1[is] == "v" || aStr1[is] == "H" || aStr1[is] == "h") {
+      const bool is_rel = aStr1[is] == "v" || aStr1[is] == "h";
+      const bool is_vertical = aStr1[is] == "V" || aStr1[is] == "v";
+      ++is;
+      for (;;) {
+        const double val = myStod(aStr1[is]);
+        CCad2D_EdgeGeo e;
         e.p0 = pos_cur;
-        e.p1 = CVec2d(e.p0.x + myStod(aStr1[is + 1]), pos_cur.y);
+        e.p1 = pos_cur;
+        double &coord = is_vertical ? e.p1.p[1] : e.p1.p[0];
+        coord = is_rel ? coord + val : val;
         e.SetLine();
+        aEdge.push_back(e);
+        pos_cur = e.p1;
+        ++is;
+        if (isAlphabet(aStr1[is][0])) { break; }
       }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "q") {  // relative
-      const CVec2d p0 = pos_cur;
-      const CVec2d p1(p0.x + myStod(aStr1[is + 1]), p0.y + myStod(aStr1[is + 2]));
-      const CVec2d p2(p0.x + myStod(aStr1[is + 3]), p0.y + myStod(aStr1[is + 4]));
-      CCad2D_EdgeGeo e;
-      {
+    } else if (aStr1[is] == "Q" || aStr1[is] == "q") { // quadratic Bezier
+      const bool is_rel = aStr1[is] == "q";
+      ++is;
+      for (;;) {
+        const CVec2d org = is_rel ? pos_cur : CVec2d(0, 0);
+        CCad2D_EdgeGeo e;
         e.p0 = pos_cur;
-        e.p1 = p2;
-        e.SetQuadraticBezierCurve(p1);
-      }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 5;
-    } else if (aStr1[is] == "Q") { // absolute
-      const CVec2d p0 = pos_cur;
-      const CVec2d p1(myStod(aStr1[is + 1]), myStod(aStr1[is + 2]));
-      const CVec2d p2(myStod(aStr1[is + 3]), myStod(aStr1[is + 4]));
-      pos_cur = p2;
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = p0;
-        e.p1 = p2;
-        e.SetQuadraticBezierCurve(p1);
+        e.p1 = org + CVec2d(myStod(aStr1[is + 2]), myStod(aStr1[is + 3]));
+        e.SetQuadraticBezierCurve(org + CVec2d(myStod(aStr1[is + 0]), myStod(aStr1[is + 1])));
+        aEdge.push_back(e);
+        pos_cur = e.p1;
+        is += 4;
+        if (isAlphabet(aStr1[is][0])) { break; }
       }
-      aEdge.push_back(e);
-      is += 5;
     } else if (aStr1[is] == "z" || aStr1[is] == "Z") {
       const CVec2d p1 = aEdge[0].p0;
       const CVec2d p0 = aEdge[aEdge.size() - 1].p1;
-- 
2.43.0


From 5bc1915fd447fabbb2b5e722e68fc0222711c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 081/160] fix: SVG reader takes new lines and tabs in a tag as
 spaces

---
 include/delfem2/cad2_io_svg.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index b358c26..e986c75 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -263,18 +263,19 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
       aStrTagContent,
       aC);
 
+  for (auto &sTagContent: aStrTagContent) { // new lines and tabs separate attributes as spaces do
+    for (const char c: {'\n', '\r', '\t'}) { sTagContent = Replace(sTagContent, c, ' '); }
+    sTagContent = RemoveBeginning(sTagContent, " ");
+  }
+
   { // get path
     for (auto &sTagContent: aStrTagContent) {
 //      std::cout << "tagcontent: " << sTagContent << std::endl;
       std::string str_path;
-      if (sTagContent.compare(0, 4, "path") == 0 || // adobe illustrator
-          sTagContent.compare(0, 5, "path\r") == 0) { // inkscape
+      if (sTagContent.compare(0, 5, "path ") == 0) {
         str_path = std::string(sTagContent.begin() + 5, sTagContent.end());
       }
       if (str_path == "") { continue; }
-      // remove new line codes as inkscape svg has new line in side path tag
-      // don't remove spaces here as inkscape svg uses space for the delimiter
-      str_path = Remove(str_path, "\n\r");
 //      std::cout << "str_path: " << str_path << std::endl;
       std::map<std::string, std::string> mapAttr;
       ParseAttributes(mapAttr,
-- 
2.43.0


From c667da559dd660049978b338ddc196ebfc974ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 082/160] fix: DXF writer draws curved edges instead of leaving
 them out

---
 include/delfem2/cad2_io_dxf.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/cad2_io_dxf.cpp b/include/delfem2/cad2_io_dxf.cpp
index 5a5c3e1..36d47ea 100644
--- a/include/delfem2/cad2_io_dxf.cpp
+++ b/include/delfem2/cad2_io_dxf.cpp
@@ -30,6 +30,8 @@ DFM2_INLINE bool delfem2::WriteCAD_DXF(
   {  // Get Bounding Box of this Object
     for(const auto & edge : cad.aEdge){
       bb += edge.BB();
+      const std::vector<double> xyw = edge.GenMesh(20); // curve may go out of the box of its ends
+      for(size_t ip=0;ip<xyw.size()/3;++ip){ bb.Add(xyw[ip*3+0],xyw[ip*3+1]); }
     }
   }
   // header section
@@ -61,12 +63,18 @@ DFM2_INLINE bool delfem2::WriteCAD_DXF(
         unsigned int id_ve = cad.topo.edges[ie0].iv1;
         const CVec2d& ps = cad.aVtx[id_vs].pos;
         const CVec2d& pe = cad.aVtx[id_ve].pos;
-        if( cad.aEdge[ie0].type_edge == 0 ){
+        std::vector<CVec2d> aPos(1, ps); // polyline of the edge
+        if( cad.aEdge[ie0].type_edge != CCad2D_EdgeGeo::LINE ){ // curve is divided
+          const std::vector<double> xyw = cad.aEdge[ie0].GenMesh(20);
+          for(size_t ip=0;ip<xyw.size()/3;++ip){ aPos.emplace_back(xyw[ip*3+0],xyw[ip*3+1]); }
+        }
+        aPos.push_back(pe);
+        for(size_t ip=0;ip+1<aPos.size();++ip){
           fprintf(fp,"  0\nLINE\n  8\n%d\n  6\nCONTINUOUS\n  62\n7\n",il0);
-          fprintf(fp,"  10\n%lf\n",ps.x*scale);
-          fprintf(fp,"  20\n%lf\n",ps.y*scale);
-          fprintf(fp,"  11\n%lf\n",pe.x*scale);
-          fprintf(fp,"  21\n%lf\n",pe.y*scale);
+          fprintf(fp,"  10\n%lf\n",aPos[ip].x*scale);
+          fprintf(fp,"  20\n%lf\n",aPos[ip].y*scale);
+          fprintf(fp,"  11\n%lf\n",aPos[ip+1].x*scale);
+          fprintf(fp,"  21\n%lf\n",aPos[ip+1].y*scale);
         }
         /*
         else if( this->GetEdgeCurveType(id_e) == 1 ){ // Arc
-- 
2.43.0


From 93730765f4292a5a3777328ff07e7d19e74f3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 083/160] fix: length of a quadratic curve close to a line or
 small

---
 include/delfem2/geo_curve_quadratic.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..ec37eea 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -64,7 +64,7 @@ double Length_QuadraticCurve(
     const VEC &q0,
     const VEC &q1,
     const VEC &q2) {
-  if (q2.squaredNorm() < 1.0e-5) {
+  if (q2.squaredNorm() <= 1.0e-5 * q1.squaredNorm()) {
     return Length_QuadraticCurve_Gauss(q0, q1, q2, 3);
   }
   // dl = sqrt(coe[0] + coe[1]*t + coe[2]*t^2) dt
@@ -72,12 +72,14 @@ double Length_QuadraticCurve(
       q1.squaredNorm(),
       4 * q1.dot(q2),
       4 * q2.squaredNorm()};
-  auto intt = [&coe](double t) -> double {
-    const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp3 = sqrt(coe[2]);
-    const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
-    return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
+  // speed^2 is c2*(t-t0)^2 + k
+  const double t0 = -coe[1] / (2 * coe[2]);
+  const double k = std::max(0., coe[0] - coe[1] * coe[1] / (4 * coe[2]));
+  auto intt = [&coe, t0, k](double t) -> double {
+    const double u = t - t0;
+    const double tmp0 = u * std::sqrt(coe[2] * u * u + k) / 2;
+    if (k == 0) { return tmp0; } // the curve is on a line
+    return tmp0 + k / (2 * std::sqrt(coe[2])) * std::asinh(u * std::sqrt(coe[2] / k));
   };
   return intt(1) - intt(0);
 }
-- 
2.43.0


From 7a4c860f7e9524438f763db7751959e1dcd71275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 084/160] fix: third component of the spin vector of a matrix

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 0204d78fc6af1f9411a3aeab25c727b24271f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 085/160] fix: axis-angle vector of a rotation close to the
 identity or to a half turn

---
 include/delfem2/mat3_funcs.cpp | 37 ++++++++++++----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..462a6bc 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -716,18 +716,10 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
 template<typename MAT, typename T>
 std::array<T, 3> delfem2::Vec3_AxisAngleVecFromMat3(
     const MAT &m) {
-  std::array<T, 3> a = {
-      m[7] - m[5],
-      m[2] - m[6],
-      m[3] - m[1]};
-  double act = (m.trace() - 1) * 0.5;
-  if (act > +1) { act = +1; }
-  if (act < -1) { act = -1; }
-  double theta = std::acos(act);
-  if (myIsNAN_Matrix3(theta)) { return a; }
-  if (fabs(theta) < 1.0e-5) { return {a[0]/2, a[1]/2, a[2]/2}; }
-  T mag = 0.5 * theta / sin(theta);
-  return {a[0]*mag, a[1]*mag, a[2]*mag };
+  const T m_[9] = {m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]};
+  std::array<T, 3> v;
+  AxisAngleVectorCartesian_Mat3(v.data(), m_);
+  return v;
 }
 
 // https://en.wikipedia.org/wiki/Axis%E2%80%93angle_representation
@@ -735,18 +727,15 @@ template<typename T>
 DFM2_INLINE void delfem2::AxisAngleVectorCartesian_Mat3(
     T v[3],
     const T m[9]) {
-  const T cos_t0 = (m[0] + m[4] + m[8] - 1) / 2;
-  if (std::fabs(cos_t0 - 1) < 1.0e-5) {  // very small rotation
-    v[0] = (m[3 * 2 + 1] - m[3 * 1 + 2]) / 2;
-    v[1] = (m[3 * 0 + 2] - m[3 * 2 + 0]) / 2;
-    v[2] = (m[3 * 1 + 0] - m[3 * 0 + 1]) / 2;
-    return;
-  }
-  const T t0 = std::acos(cos_t0);
-  const T c0 = t0 / (2 * std::sin(t0));
-  v[0] = c0 * (m[3 * 2 + 1] - m[3 * 1 + 2]);
-  v[1] = c0 * (m[3 * 0 + 2] - m[3 * 2 + 0]);
-  v[2] = c0 * (m[3 * 1 + 0] - m[3 * 0 + 1]);
+  // through the quaternion: accurate for very small angles and for angles around pi
+  T q[4];
+  Quat_Mat3(q, m);
+  const T sgn = (q[3] < 0) ? -1 : 1;
+  const T s = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);  // sin(angle/2)
+  const T c0 = (s == 0) ? 2 : 2 * std::atan2(s, sgn * q[3]) / s;
+  v[0] = sgn * c0 * q[0];
+  v[1] = sgn * c0 * q[1];
+  v[2] = sgn * c0 * q[2];
 }
 
 template<typename T>
-- 
2.43.0


From ba3ca539724069d9604a5cbe23717e26c164dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 086/160] fix: minimum rotation between opposite vectors

---
 include/delfem2/mat3_funcs.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 462a6bc..19d823f 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -814,17 +814,20 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
     } else {
       VEC epx, epy;
       FrameFromVectorZ(epx, epy, ep);
-      const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
+      VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
+      eqx.normalize();
       const VEC eqy = eq.cross(eqx);
+      // [eqx,eqy,eq] * [epx,epy,ep]^T
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
-      /*
-      const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
-      const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-      return Rq * Rp.transpose();
-       */
+          eqx.x * epx.x + eqy.x * epy.x + eq.x * ep.x,
+          eqx.x * epx.y + eqy.x * epy.y + eq.x * ep.y,
+          eqx.x * epx.z + eqy.x * epy.z + eq.x * ep.z,
+          eqx.y * epx.x + eqy.y * epy.x + eq.y * ep.x,
+          eqx.y * epx.y + eqy.y * epy.y + eq.y * ep.y,
+          eqx.y * epx.z + eqy.y * epy.z + eq.y * ep.z,
+          eqx.z * epx.x + eqy.z * epy.x + eq.z * ep.x,
+          eqx.z * epx.y + eqy.z * epy.y + eq.z * ep.y,
+          eqx.z * epx.z + eqy.z * epy.z + eq.z * ep.z};
     }
   }
   const REAL st = std::sqrt(st2);
-- 
2.43.0


From 61557e086b19ceb9765f141dc1b45ed7dc2b4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 087/160] fix: 2x2 polar decomposition of reflections, 2x2 svd
 gives a diagonal matrix at every scale

---
 include/delfem2/mat2.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 045b40e..f29d2c2 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -196,9 +196,10 @@ void delfem2::polar_decomposition(
     const CMat2<T> &m) {
   auto x = m(0, 0) + m(1, 1);
   auto y = m(1, 0) - m(0, 1);
-  auto scale = static_cast<T>(1) / std::sqrt(x * x + y * y);
-  auto c = x * scale;
-  auto s = y * scale;
+  auto len = std::sqrt(x * x + y * y);
+  // every rotation is fine if the matrix is a reflection
+  auto c = (len == 0) ? static_cast<T>(1) : x / len;
+  auto s = (len == 0) ? static_cast<T>(0) : y / len;
   R(0, 0) = c;
   R(0, 1) = -s;
   R(1, 0) = s;
@@ -214,8 +215,10 @@ void delfem2::svd(CMat2<T> &U,
   CMat2<T> S;
   polar_decomposition(U, S, m);
   T c, s;
-  if (std::abs(S(0, 1)) < 1e-6f) {
-    sig = S;
+  sig(0, 1) = sig(1, 0) = 0;
+  if (S(0, 1) == 0) {
+    sig(0, 0) = S(0, 0);
+    sig(1, 1) = S(1, 1);
     c = 1;
     s = 0;
   } else {
-- 
2.43.0


From 6ff4f364a3b8800d907e9babb4d22e2dd6f7692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 088/160] fix: slerp between close quaternions gave NaN

---
 include/delfem2/quat.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 0534778..a86ad5a 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -8,6 +8,7 @@
 #include "delfem2/quat.h"
 
 #include <cmath>
+#include <limits>
 
 #ifndef M_PI
 #  define M_PI 3.141592
@@ -366,11 +367,16 @@ delfem2::CQuat<T> delfem2::SphericalLinearInterp(
     const delfem2::CQuat<T> &q1,
     T t) {
   const T qr = Dot_Quat(q0.p, q1.p);
-  const T ss = 1 - qr * qr;
-
-  if (ss == 0.0) { return q0; }
-  const T sp = std::sqrt(ss);
-  const T ph = std::acos(qr);
+  // the angle between the quaternions from their difference, acos is inaccurate for close ones
+  const CQuat<T> dif = q1 - q0, sum = q1 + q0;
+  const T ph = 2 * std::atan2(dif.norm(), sum.norm());
+  const T sp = std::sin(ph);
+  if (sp <= std::numeric_limits<T>::epsilon()) {
+    if (qr < 0) { return q0; }
+    CQuat<T> q = q0 + dif * t;
+    q.normalize();
+    return q;
+  }
   const T pt = ph * t;
   const T t1 = std::sin(pt) / sp;
   const T t0 = std::sin(ph - pt) / sp;
-- 
2.43.0


From 5cdd8dc655ce9704eed6f63bb25d5e3337485509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 089/160] fix: 4x4 inverse always pivots

---
 include/delfem2/mat4.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/mat4.cpp b/include/delfem2/mat4.cpp
index 9b9feb2..614c7ff 100644
--- a/include/delfem2/mat4.cpp
+++ b/include/delfem2/mat4.cpp
@@ -746,13 +746,8 @@ DFM2_INLINE void delfem2::Inverse_Mat4(
     REAL minv[16],
     const REAL m[16]) {
   for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-  int info;
-  mat4::CalcInvMat(minv, 4, info);
-  if (info != 0) {
-    for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-    unsigned int tmp[4];
-    mat4::CalcInvMatPivot(minv, 4, tmp);
-  }
+  unsigned int tmp[4];
+  mat4::CalcInvMatPivot(minv, 4, tmp);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template void delfem2::Inverse_Mat4(float minv[], const float m[]);
-- 
2.43.0


From 7ed963b26bd38d16a9d8d9cd771ebe4591064dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 090/160] fix: svd of small and rank deficient 3x3 matrices

---
 include/delfem2/svd3.cpp | 116 +++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 67 deletions(-)

diff --git a/include/delfem2/svd3.cpp b/include/delfem2/svd3.cpp
index c6a5c75..26dff9a 100644
--- a/include/delfem2/svd3.cpp
+++ b/include/delfem2/svd3.cpp
@@ -121,7 +121,7 @@ DFM2_INLINE bool delfem2::EigenSym3(
   u[1] = u[2] = u[3] = u[5] = u[6] = u[7] = 0.0;
   l[0] = l[1] = l[2] = 0.0;
   double dnrm = svd3::SquareNormFrobenius_SymMat3(sm);
-  if (dnrm < 1.0e-30) { return false; } // this matrix is too small
+  if (dnrm < 1.0e-300) { return false; } // this matrix is too small
   const double scale = sqrt(dnrm);
   const double invscl = 1.0 / scale;
   double sms[6] = {sm[0] * invscl, sm[1] * invscl, sm[2] * invscl, sm[3] * invscl, sm[4] * invscl, sm[5] * invscl};
@@ -199,84 +199,66 @@ DFM2_INLINE void delfem2::Svd3(
     double V[9],
     const double m[9],
     int nitr) {
-  // M^TM = VGGV^T
-  const double mtm[6] = {
-      m[0] * m[0] + m[3] * m[3] + m[6] * m[6],
-      m[1] * m[1] + m[4] * m[4] + m[7] * m[7],
-      m[2] * m[2] + m[5] * m[5] + m[8] * m[8],
-      m[1] * m[2] + m[4] * m[5] + m[7] * m[8],
-      m[2] * m[0] + m[5] * m[3] + m[8] * m[6],
-      m[0] * m[1] + m[3] * m[4] + m[6] * m[7]};
+  // the matrix is scaled such that the threshold below is independent of the size of m
+  double scale = 0.0;
+  for (int i = 0; i < 9; ++i) { scale = (fabs(m[i]) > scale) ? fabs(m[i]) : scale; }
+  if (scale == 0.0) {
+    for (int i = 0; i < 9; ++i) { U[i] = V[i] = (i % 4 == 0) ? 1.0 : 0.0; }
+    G[0] = G[1] = G[2] = 0.0;
+    return;
+  }
+  double a[9];
+  for (int i = 0; i < 9; ++i) { a[i] = m[i] / scale; }
+  // A^TA = VGGV^T
+  const double ata[6] = {
+      a[0] * a[0] + a[3] * a[3] + a[6] * a[6],
+      a[1] * a[1] + a[4] * a[4] + a[7] * a[7],
+      a[2] * a[2] + a[5] * a[5] + a[8] * a[8],
+      a[1] * a[2] + a[4] * a[5] + a[7] * a[8],
+      a[2] * a[0] + a[5] * a[3] + a[8] * a[6],
+      a[0] * a[1] + a[3] * a[4] + a[6] * a[7]};
   double lv[3];
   EigenSym3(V, lv,
-            mtm, nitr);
+            ata, nitr);
   svd3::SortEigen3(lv, V);
-  if (lv[0] < 0) { lv[0] = 0.0; }
-  if (lv[1] < 0) { lv[1] = 0.0; }
-  if (lv[2] < 0) { lv[2] = 0.0; }
-  G[0] = sqrt(lv[0]);
-  G[1] = sqrt(lv[1]);
-  G[2] = sqrt(lv[2]);
-
-  double u0[3] = {
-      m[0] * V[0] + m[1] * V[3] + m[2] * V[6],
-      m[3] * V[0] + m[4] * V[3] + m[5] * V[6],
-      m[6] * V[0] + m[7] * V[3] + m[8] * V[6]};
-  double u1[3] = {
-      m[0] * V[1] + m[1] * V[4] + m[2] * V[7],
-      m[3] * V[1] + m[4] * V[4] + m[5] * V[7],
-      m[6] * V[1] + m[7] * V[4] + m[8] * V[7]};
-  double u2[3] = {
-      m[0] * V[2] + m[1] * V[5] + m[2] * V[8],
-      m[3] * V[2] + m[4] * V[5] + m[5] * V[8],
-      m[6] * V[2] + m[7] * V[5] + m[8] * V[8]};
-
   if (svd3::Det_Mat3(V) < 0) {  // making right hand coordinate
     V[0 * 3 + 2] *= -1;
     V[1 * 3 + 2] *= -1;
     V[2 * 3 + 2] *= -1;
-    G[2] *= -1;
-    U[0 * 3 + 2] *= -1;
-    U[1 * 3 + 2] *= -1;
-    U[2 * 3 + 2] *= -1;
   }
-
-  const double sql0 = svd3::SqLength3(u0);
-  if (sql0 > 1.0e-20) {
-    svd3::Normalize3(u0);
-    const double sql1 = svd3::SqLength3(u1);
-    if (sql1 < 1.0e-20) {
-      u1[0] = 1.0 - fabs(u0[0]);
-      u1[1] = 1.0 - fabs(u0[1]);
-      u1[2] = 1.0 - fabs(u0[2]);
-    } else {
-      svd3::Normalize3(u1);
+  // columns of AV
+  double av[3][3];
+  for (int i = 0; i < 3; ++i) {
+    for (int j = 0; j < 3; ++j) {
+      av[i][j] = a[j * 3 + 0] * V[0 * 3 + i] + a[j * 3 + 1] * V[1 * 3 + i] + a[j * 3 + 2] * V[2 * 3 + i];
     }
+  }
+  double u0[3] = {av[0][0], av[0][1], av[0][2]};
+  svd3::Normalize3(u0);
+  double u1[3] = {av[1][0], av[1][1], av[1][2]};
+  {
     const double d01 = u0[0] * u1[0] + u0[1] * u1[1] + u0[2] * u1[2];
-    u1[0] -= d01 * u0[0];
-    u1[1] -= d01 * u0[1];
-    u1[2] -= d01 * u0[2];
+    for (int i = 0; i < 3; ++i) { u1[i] -= d01 * u0[i]; }
+  }
+  if (svd3::SqLength3(u1) < 1.0e-20) {  // rank one: any direction orthogonal to u0
+    int imin = (fabs(u0[0]) < fabs(u0[1])) ? 0 : 1;
+    if (fabs(u0[2]) < fabs(u0[imin])) { imin = 2; }
+    double e[3] = {0., 0., 0.};
+    e[imin] = 1.0;
+    svd3::Cross3(u1, u0, e);
+  }
+  svd3::Normalize3(u1);
+  {  // the second pass keeps U orthogonal when u1 was much shorter than u0
+    const double d01 = u0[0] * u1[0] + u0[1] * u1[1] + u0[2] * u1[2];
+    for (int i = 0; i < 3; ++i) { u1[i] -= d01 * u0[i]; }
     svd3::Normalize3(u1);
-    double s2[3];
-    svd3::Cross3(s2, u0, u1);
-    const double d22 = u2[0] * s2[0] + u2[1] * s2[1] + u2[2] * s2[2];
-    u2[0] = s2[0];
-    u2[1] = s2[1];
-    u2[2] = s2[2];
-    if (d22 < 0) {
-      G[2] *= -1;
-    }
-  } else {
-    u0[0] = 1;
-    u0[1] = 0;
-    u0[2] = 0;
-    u1[0] = 0;
-    u1[1] = 1;
-    u1[2] = 0;
-    u2[0] = 0;
-    u2[1] = 0;
-    u2[2] = 1;
   }
+  double u2[3];
+  svd3::Cross3(u2, u0, u1);
+  G[0] = scale * (u0[0] * av[0][0] + u0[1] * av[0][1] + u0[2] * av[0][2]);
+  G[1] = scale * (u1[0] * av[1][0] + u1[1] * av[1][1] + u1[2] * av[1][2]);
+  G[2] = scale * (u2[0] * av[2][0] + u2[1] * av[2][1] + u2[2] * av[2][2]);
+
   U[0] = u0[0];
   U[1] = u1[0];
   U[2] = u2[0];
-- 
2.43.0


From 4144a983d27e6ab336114f2504d108ae742edc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 091/160] fix: roots of a linear polynomial in a range,
 cancellation in the quadratic formula

---
 include/delfem2/polynomial_root.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..bcbe855 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -209,14 +209,18 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
       assert(0);
       return {};
     }
-    const REAL cand = c / b;
-    if (cand > x0 || cand < x1) { return {cand}; }
+    const REAL cand = -c / b;
+    if (cand >= x0 && cand <= x1) { return {cand}; }
     return {};
   }
   delta = std::sqrt(delta);
+  // avoid the cancellation between b and delta
+  const REAL q = (b < 0) ? (-b + delta) / 2 : (-b - delta) / 2;
+  const REAL r0 = q / a;
+  const REAL r1 = (q == 0) ? 0 : c / q;
   const REAL cands[2] = {
-    (-b - delta) / (2 * a),
-    (-b + delta) / (2 * a)};
+    (b < 0) ? r1 : r0,
+    (b < 0) ? r0 : r1};
   std::vector<REAL> res;
   res.reserve(2);
   for (auto cand: cands) {
-- 
2.43.0


From d83fa32c490a9df50dcb234a9b5587f94c71a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 092/160] fix: roots at the end of a bracket and roots of even
 multiplicity

---
 include/delfem2/polynomial_root.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index bcbe855..8652f5c 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -251,19 +251,19 @@ inline double RootInInterval_Bisection(
   double fx0 = Eval_Polynomial(x0, a, ndegree_plus1);
   double fx1 = Eval_Polynomial(x1, a, ndegree_plus1);
   assert(fx0 * fx1 <= 0);
+  if (fx1 == 0) { return x1; }
   for (int i = 0; i < num_iteration; i++) {
     const double x2 = (x0 + x1) / 2; // bisection method
     const double fx2 = Eval_Polynomial(x2, a, ndegree_plus1);
-    if (fx1 * fx2 < 0) {
-      x0 = x1;
-      x1 = x2;
-      fx0 = fx1;
-      fx1 = fx2;
+    if (fx1 * fx2 <= 0) { // the root is in [x2,x1], the sign at x1 is kept
+      x0 = x2;
+      fx0 = fx2;
     } else {
       x1 = x2;
       fx1 = fx2;
     }
   }
+  if (fx0 * fx1 > 0) { return (x0 + x1) / 2; }
   return (x0 * fx1 - x1 * fx0) / (fx1 - fx0); // secant method
 }
 
@@ -284,6 +284,19 @@ std::vector<double> RootsOfPolynomial(
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
+    const double f0 = Eval_Polynomial(intvl.first, coe, ndegplus1);
+    const double f1 = Eval_Polynomial(intvl.second, coe, ndegplus1);
+    if (f0 * f1 > 0) {  // root of even multiplicity: the sign does not change
+      double x0 = intvl.first, x1 = intvl.second;
+      const int n1 = SturmNumber<ndegplus1>(x1, strum);
+      for (int i = 0; i < num_bisection; ++i) {
+        const double x2 = (x0 + x1) / 2;
+        if (SturmNumber<ndegplus1>(x2, strum) > n1) { x0 = x2; }
+        else { x1 = x2; }
+      }
+      res.push_back((x0 + x1) / 2);
+      continue;
+    }
     double y0 = RootInInterval_Bisection(
       intvl.first, intvl.second,
       coe, ndegplus1, num_bisection);
-- 
2.43.0


From 93851369ebbda2562ee5db4107aa66844ca468ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 093/160] fix: endless loop isolating roots that are too close
 to be separated

---
 include/delfem2/polynomial_root.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 8652f5c..1421085 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -181,6 +181,10 @@ inline std::vector<std::pair<double, double> > RootInterval_SturmSequence(
     const double x_right = std::get<1>(intvl);
     if (n_left - n_right > 1) {  // do the bi-section
       const double x_mid = (x_left + x_right) / 2;
+      if (x_mid == x_left || x_mid == x_right) {  // the roots are closer than the resolution
+        res.emplace_back(x_left, x_right);
+        continue;
+      }
       const int n_mid = delfem2::SturmNumber<n>(x_mid, strum);
       if (n_left > n_mid) {  // left half interval
         next.emplace(x_left, x_mid, n_left, n_mid);
-- 
2.43.0


From 4fc3caea80bd812e83735580756014f6074cf7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 094/160] fix: bounding box of small or almost quadratic cubic
 curves

---
 include/delfem2/geo_curve_cubic.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 6612a0f..2be8101 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -314,8 +314,6 @@ auto AABB_CubicBezierCurve(
   using SCALAR = typename VEC::Scalar;
   constexpr int ndim = VEC::SizeAtCompileTime;
 
-  const double EPSILON = 1.0e-10;
-
   const VEC a = -p0 + 3 * p1 - 3 * p2 + p3;
   const VEC b = 3 * p0 - 6 * p1 + 3 * p2;
   const VEC c = -3 * p0 + 3 * p1;
@@ -323,22 +321,19 @@ auto AABB_CubicBezierCurve(
 
   std::array<SCALAR, ndim * 2> res;
   for (int i = 0; i < ndim; i++) {
-    if (fabs(a[i]) < EPSILON) {
-      SCALAR r = c[i] / (-2 * b[i]);
+    res[i] = std::min(p0[i], p3[i]);
+    res[i + ndim] = std::max(p0[i], p3[i]);
+    // the extremes are where the derivative 3*a*t^2 + 2*b*t + c is zero
+    const SCALAR det = b[i] * b[i] - 3 * a[i] * c[i];
+    if (det < 0) { continue; }
+    const SCALAR q = (b[i] < 0) ? -b[i] + std::sqrt(det) : -b[i] - std::sqrt(det);
+    const SCALAR r0 = (a[i] == 0) ? 0 : q / (3 * a[i]);
+    const SCALAR r1 = (q == 0) ? 0 : c[i] / q;
+    for (SCALAR r: {r0, r1}) {
       r = std::clamp<SCALAR>(r, 0, 1);
       const SCALAR e = d[i] + r * (c[i] + r * (b[i] + r * a[i]));
-      res[i] = std::min({p0[i], p3[i], e});
-      res[i + ndim] = std::max({p0[i], p3[i], e});
-    } else {
-      const SCALAR det = std::sqrt(b[i] * b[i] - 3 * a[i] * c[i]);
-      SCALAR r0 = (-b[i] + det) / (3 * a[i]);
-      SCALAR r1 = (-b[i] - det) / (3 * a[i]);
-      r0 = std::clamp<SCALAR>(r0, 0, 1);
-      r1 = std::clamp<SCALAR>(r1, 0, 1);
-      const SCALAR e0 = d[i] + r0 * (c[i] + r0 * (b[i] + r0 * a[i]));
-      const SCALAR e1 = d[i] + r1 * (c[i] + r1 * (b[i] + r1 * a[i]));
-      res[i] = std::min({p0[i], p3[i], e0, e1});
-      res[i + ndim] = std::max({p0[i], p3[i], e0, e1});
+      res[i] = std::min(res[i], e);
+      res[i + ndim] = std::max(res[i + ndim], e);
     }
   }
   return res;
-- 
2.43.0


From 5ddbd3142b483a428a54b55781f4008a0336278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 095/160] fix: plane and cubic curve intersection when newton's
 method leaves the curve

---
 include/delfem2/geo_curve_cubic.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 2be8101..81f4ed6 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -119,8 +119,9 @@ bool getParameterCubicBezier_IntersectionWithPlane(
     t = 1.0;
     return true;
   }
+  double t0 = 0., t1 = 1.;  // bracket of the intersection
   t = 0.5;
-  for (int itr = 0; itr < 10; ++itr) {
+  for (int itr = 0; itr < 64; ++itr) {
     double tp = 1.0 - t;
     double h = t * t * t * h4
         + 3 * t * t * tp * h3
@@ -131,7 +132,10 @@ bool getParameterCubicBezier_IntersectionWithPlane(
         + 3 * t * (2 - 3 * t) * h3
         + 3 * tp * (1 - 3 * t) * h2
         - 3 * tp * tp * h1;
+    if (h * h1 > 0) { t0 = t; }
+    else { t1 = t; }
     t -= (h / dh);
+    if (!(t > t0 && t < t1)) { t = (t0 + t1) / 2; }  // newton left the bracket
   }
   return false;
 }
-- 
2.43.0


From 8cb17e53ce0e884f8d564e14368c0ce17eb12c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 096/160] fix: sampling a quadratic b-spline aborted close to
 the end of a segment

---
 include/delfem2/geo_curve_quadratic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index ec37eea..67be4c9 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -476,7 +476,7 @@ VEC Sample_QuadraticBsplineCurve(
   const SCALAR w2 = coeff[2][0] + coeff[2][1] * s + coeff[2][2] * s * s;
 
   assert(fabs(w0 + w1 + w2 - 1.) < 1.0e-5);
-  assert(w0 >= 0 && w1 >= 0 && w2 >= 0);
+  assert(w0 >= -1.0e-10 && w1 >= -1.0e-10 && w2 >= -1.0e-10);
   return poly[idx_segment] * w0 + poly[idx_segment + 1] * w1 + poly[idx_segment + 2] * w2;
 }
 
-- 
2.43.0


From 44fb59f216d3dfdea2bf92e1a99f2bd4f50a1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 097/160] fix: nearest parameter on a degenerate Bezier curve
 was NaN

---
 include/delfem2/geo_curve_cubic.h     | 3 ++-
 include/delfem2/geo_curve_quadratic.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 81f4ed6..694fa54 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -150,7 +150,7 @@ void getCubicBezierCurve(
   for (int is = 0; is < ns; is++) {
     for (int i = 0; i < n; i++) {
       double t = (double) i / n;
-      aP[is * n + i] = getPointCubicBezierCurve(
+      aP[is * n + i] = PointOnCubicBezierCurve(
           t,
           aCP[is * 3 + 0],
           aCP[is * 3 + 1],
@@ -230,6 +230,7 @@ typename VEC::Scalar Nearest_CubicBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * (s3 + t * (s4 + t * s5))));
     SCALAR ddw = u0 + t * (u1 + t * (u2 + t * (u3 + t * u4)));
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 67be4c9..7161c0f 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -264,6 +264,7 @@ typename VEC::Scalar Nearest_QuadraticBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * s3));
     SCALAR ddw = u0 + t * (u1 + t * u2);
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
-- 
2.43.0


From 81f4fcd2efb5193783ebd45981a43712156300ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 098/160] fix: number of roots left and right of a multiple
 root

---
 include/delfem2/polynomial_root.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 1421085..eb2db70 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -42,7 +42,15 @@ int SturmNumber(
   static_assert(n >= 1, "degree of polynominal should not be negative");
   double v[n];
   for (int i = 0; i < n; ++i) {
-    v[i] = Eval_Polynomial(x, s[i], n - i);
+    // the sign just right of x: the derivatives decide where a polynomial is zero,
+    // the whole sequence vanishes at a multiple root
+    double p[n];
+    for (int j = 0; j < n - i; ++j) { p[j] = s[i][j]; }
+    v[i] = Eval_Polynomial(x, p, n - i);
+    for (int m = n - i; v[i] == 0.0 && m > 1; --m) {
+      for (int j = 0; j + 1 < m; ++j) { p[j] = (j + 1) * p[j + 1]; }
+      v[i] = Eval_Polynomial(x, p, m - 1);
+    }
   }
   // -----------
   int root_number = 0;
-- 
2.43.0


From f311de5d15aafdf2c8fa24300dc7bafd5161074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 099/160] fix: rounding error in the remainders of the Sturm
 sequence made up roots or lost them

---
 include/delfem2/polynomial_root.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index eb2db70..cd1eb90 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -135,9 +135,10 @@ inline void SturmSequenceOfPolynomial(
       k2--;
       if (k2 < 0) { return; }
     }
-    double poly[n];
+    double poly[n], magnitude[n];
     for (int l = 0; l < n; l++) {
       poly[l] = strum[i][l];
+      magnitude[l] = std::fabs(poly[l]);
     }
     while (k1 >= k2) {
       while (poly[k1] == 0.) {
@@ -149,9 +150,17 @@ inline void SturmSequenceOfPolynomial(
         poly[k1] = 0.;
         for (int l = 1; l <= k2; l++) {
           poly[k1 - l] -= quotient * strum[j][k2 - l];
+          magnitude[k1 - l] += std::fabs(quotient * strum[j][k2 - l]);
         }
       }
     }
+    // coefficients that are nothing but rounding error would make up roots
+    double maxcoeff = 0.;
+    for (int l = 0; l < n; l++) {
+      if (std::fabs(poly[l]) <= 1.0e-15 * magnitude[l]) { poly[l] = 0.; }
+      maxcoeff = (std::fabs(poly[l]) > maxcoeff) ? std::fabs(poly[l]) : maxcoeff;
+    }
+    for (int l = n - 1; l >= 0 && std::fabs(poly[l]) <= 1.0e-15 * maxcoeff; l--) { poly[l] = 0.; }
     for (int l = 0; l < n; l++) {
       strum[j + 1][l] = -poly[l];
     }
-- 
2.43.0


From 90d0db77d9998e156138f8c1cff8fd19a21e505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 100/160] fix: values of the Sturm sequence that are rounding
 error decided the number of roots

---
 include/delfem2/polynomial_root.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index cd1eb90..f22b09b 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -46,10 +46,13 @@ int SturmNumber(
     // the whole sequence vanishes at a multiple root
     double p[n];
     for (int j = 0; j < n - i; ++j) { p[j] = s[i][j]; }
-    v[i] = Eval_Polynomial(x, p, n - i);
-    for (int m = n - i; v[i] == 0.0 && m > 1; --m) {
+    for (int m = n - i; m > 0; --m) {
+      double magnitude = 0.;
+      for (int j = m - 1; j >= 0; --j) { magnitude = magnitude * std::fabs(x) + std::fabs(p[j]); }
+      v[i] = Eval_Polynomial(x, p, m);
+      if (std::fabs(v[i]) > 1.0e-14 * magnitude) { break; }
+      v[i] = 0.0;  // nothing but rounding error
       for (int j = 0; j + 1 < m; ++j) { p[j] = (j + 1) * p[j + 1]; }
-      v[i] = Eval_Polynomial(x, p, m - 1);
     }
   }
   // -----------
@@ -157,10 +160,10 @@ inline void SturmSequenceOfPolynomial(
     // coefficients that are nothing but rounding error would make up roots
     double maxcoeff = 0.;
     for (int l = 0; l < n; l++) {
-      if (std::fabs(poly[l]) <= 1.0e-15 * magnitude[l]) { poly[l] = 0.; }
+      if (std::fabs(poly[l]) <= 1.0e-14 * magnitude[l]) { poly[l] = 0.; }
       maxcoeff = (std::fabs(poly[l]) > maxcoeff) ? std::fabs(poly[l]) : maxcoeff;
     }
-    for (int l = n - 1; l >= 0 && std::fabs(poly[l]) <= 1.0e-15 * maxcoeff; l--) { poly[l] = 0.; }
+    for (int l = n - 1; l >= 0 && std::fabs(poly[l]) <= 1.0e-14 * maxcoeff; l--) { poly[l] = 0.; }
     for (int l = 0; l < n; l++) {
       strum[j + 1][l] = -poly[l];
     }
@@ -307,7 +310,13 @@ std::vector<double> RootsOfPolynomial(
   for (auto intvl: intvls) {
     const double f0 = Eval_Polynomial(intvl.first, coe, ndegplus1);
     const double f1 = Eval_Polynomial(intvl.second, coe, ndegplus1);
-    if (f0 * f1 > 0) {  // root of even multiplicity: the sign does not change
+    double m0 = 0., m1 = 0.;
+    for (int i = ndegplus1 - 1; i >= 0; --i) {
+      m0 = m0 * std::fabs(intvl.first) + std::fabs(coe[i]);
+      m1 = m1 * std::fabs(intvl.second) + std::fabs(coe[i]);
+    }
+    if (f0 * f1 > 0 || std::fabs(f0) <= 1.0e-14 * m0 || std::fabs(f1) <= 1.0e-14 * m1) {
+      // root of even multiplicity (the sign does not change) or a root at the end of the interval
       double x0 = intvl.first, x1 = intvl.second;
       const int n1 = SturmNumber<ndegplus1>(x1, strum);
       for (int i = 0; i < num_bisection; ++i) {
-- 
2.43.0


From 6492d7c6d2b83c9832a4e63c6dca31c74ba7da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 101/160] fix: tiny leading coefficients ruined the Sturm
 sequence

---
 include/delfem2/polynomial_root.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index f22b09b..3be33b4 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -303,8 +303,16 @@ std::vector<double> RootsOfPolynomial(
   const double coe[ndegplus1],
   int num_bisection) {
   static_assert(ndegplus1 >= 1, "degree of polynominal should not be negative");
+  // leading coefficients that hardly matter between 0 and 1 would ruin the accuracy of the remainders
+  double trimmed[ndegplus1];
+  double maxcoe = 0.;
+  for (int i = 0; i < ndegplus1; ++i) {
+    trimmed[i] = coe[i];
+    maxcoe = (std::fabs(coe[i]) > maxcoe) ? std::fabs(coe[i]) : maxcoe;
+  }
+  for (int i = ndegplus1 - 1; i >= 0 && std::fabs(trimmed[i]) <= 1.0e-9 * maxcoe; --i) { trimmed[i] = 0.; }
   double strum[ndegplus1][ndegplus1];
-  SturmSequenceOfPolynomial<ndegplus1>(strum, coe);
+  SturmSequenceOfPolynomial<ndegplus1>(strum, trimmed);
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
-- 
2.43.0


From 321f31585d7cc78a453a7a3c6f24e91bfb9f8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 102/160] fix: 2D convex hull of collinear, repeated or almost
 collinear points

---
 include/delfem2/geo_convhull2.h | 61 ++++++++++++---------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index c2f2511..7fdd9ed 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -14,6 +14,7 @@
 
 #include <vector>
 #include <algorithm>  // sort
+#include <cmath>  // atan2
 
 namespace delfem2 {
 
@@ -29,7 +30,6 @@ void ConvexHull2(
     std::vector<unsigned int> &point_idxs,
     const std::vector<VEC> &points) {
   using SCALAR = typename VEC::Scalar;
-  const SCALAR EPSILON = 1.0e-8;
 
   unsigned int p0_idx;
   { // find the index with minimum y coordinate
@@ -44,48 +44,31 @@ void ConvexHull2(
   }
   assert(p0_idx < points.size());
 
-  std::vector<std::pair<unsigned int, SCALAR> > idxcos;
-  { // compute and sort points by cosine value
-    VEC x_axis = {1, 0};
-    for (unsigned int i = 0; i < points.size(); i++) {
-      if (i == p0_idx) { continue; }
-      VEC dir = points[i] - points[p0_idx];
-      idxcos.emplace_back(i, x_axis.dot(dir) / dir.norm());
-    }
-  }
-
-  { // sort idxcos
-    auto comp = [&points, &p0_idx, &EPSILON](
-        const std::pair<unsigned int, SCALAR> &a,
-        const std::pair<unsigned int, SCALAR> &b) {
-      if (std::abs(a.second - b.second) > EPSILON) {
-        return a.second > b.second;
-      } else {
-        assert(a.first < points.size() && b.first < points.size() && p0_idx < points.size());
-        const SCALAR dista = (points[a.first] - points[p0_idx]).squaredNorm();
-        const SCALAR distb = (points[b.first] - points[p0_idx]).squaredNorm();
-        return dista > distb;
-      }
-    };
-    std::sort(idxcos.begin(), idxcos.end(), comp);
+  // sort the other points by the angle seen from the lowest point, then by the distance
+  std::vector<std::pair<unsigned int, SCALAR> > idxang;
+  for (unsigned int i = 0; i < points.size(); i++) {
+    const VEC dir = points[i] - points[p0_idx];
+    if (dir[0] == 0 && dir[1] == 0) { continue; }  // the lowest point itself and its copies
+    idxang.emplace_back(i, std::atan2(dir[1], dir[0]));
   }
-
-  // check for collinear points
-  for (auto itr = ++idxcos.begin(); std::next(itr) != idxcos.end(); itr++) {
-    if (std::abs((*itr).second - (*std::next(itr)).second) < EPSILON) {
-      idxcos.erase(std::next(itr)); // only keep the furthest
-    }
-  }
-
-  idxcos.emplace_back(p0_idx, 0);
-
+  std::sort(
+    idxang.begin(), idxang.end(),
+    [&points, &p0_idx](
+      const std::pair<unsigned int, SCALAR> &a,
+      const std::pair<unsigned int, SCALAR> &b) {
+      if (a.second != b.second) { return a.second < b.second; }
+      const SCALAR dista = (points[a.first] - points[p0_idx]).squaredNorm();
+      const SCALAR distb = (points[b.first] - points[p0_idx]).squaredNorm();
+      return dista < distb;
+    });
+  idxang.emplace_back(p0_idx, 0);
+  // -----------------
   point_idxs.clear();
   point_idxs.push_back(p0_idx);
-  point_idxs.push_back(idxcos.begin()->first);
-  unsigned int stack_top = 1;
-  for (auto itr = ++idxcos.begin(); itr != idxcos.end(); itr++) {
+  unsigned int stack_top = 0;
+  for (auto itr = idxang.begin(); itr != idxang.end(); itr++) {
     unsigned int p3_idx = itr->first;
-    while (true) {
+    while (stack_top > 0) {
       unsigned int p1_idx = point_idxs[stack_top - 1];
       unsigned int p2_idx = point_idxs[stack_top];
       const VEC p1p2 = points[p2_idx] - points[p1_idx];
-- 
2.43.0


From 15de64585efaae57c268c52026680041079f7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 103/160] fix: 3D convex hull when the first four points are on
 a plane

---
 include/delfem2/geo_convhull3.h | 49 +++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/delfem2/geo_convhull3.h b/include/delfem2/geo_convhull3.h
index 83a01a1..daef46e 100644
--- a/include/delfem2/geo_convhull3.h
+++ b/include/delfem2/geo_convhull3.h
@@ -113,35 +113,44 @@ void delfem2::ConvexHull3(
   using REAL = typename VEC::Scalar;
   std::vector<int> aBflg(aXYZ.size(), -1);
   aTri.reserve(aXYZ.size() * 6);
+  // start with the tetrahedron of four points far from each other, they are not necessarily the first four
+  unsigned int i0 = 0, i1 = 0, i2 = 0, i3 = 0;
+  {
+    REAL max_dist = 0, max_area = 0, max_vol = 0;
+    for (unsigned int i = 0; i < aXYZ.size(); ++i) {
+      const VEC d = aXYZ[i] - aXYZ[i0];
+      if (d.dot(d) > max_dist) { max_dist = d.dot(d); i1 = i; }
+    }
+    for (unsigned int i = 0; i < aXYZ.size(); ++i) {
+      VEC n = aXYZ[i];
+      lcl::Normal(n, aXYZ[i0], aXYZ[i1], aXYZ[i]);
+      if (n.dot(n) > max_area) { max_area = n.dot(n); i2 = i; }
+    }
+    for (unsigned int i = 0; i < aXYZ.size(); ++i) {
+      const REAL vol = lcl::Volume_Tet<REAL>(aXYZ[i0], aXYZ[i1], aXYZ[i2], aXYZ[i]);
+      if (std::abs(vol) > max_vol) { max_vol = std::abs(vol); i3 = i; }
+    }
+    aTri.clear();
+    if (max_vol == 0) { return; }  // all the points are on a plane
+    if (lcl::Volume_Tet<REAL>(aXYZ[i0], aXYZ[i1], aXYZ[i2], aXYZ[i3]) < 0) { std::swap(i1, i2); }
+  }
   aTri = {
-      1,2,3,
-      0,3,2,
-      0,1,3,
-      0,2,1
+      i1, i2, i3,
+      i0, i3, i2,
+      i0, i1, i3,
+      i0, i2, i1
   };
   std::vector<std::pair<unsigned int, int> > aTriSur;
   aTriSur = {
-      {1,0},{2,0},{3,0},{0,0},{3,2}, {2,1},
-      {0,1},{1,2},{3,1},{0,2},{2,2},{1,1}
+      {1, 0}, {2, 0}, {3, 0}, {0, 0}, {3, 2}, {2, 1},
+      {0, 1}, {1, 2}, {3, 1}, {0, 2}, {2, 2}, {1, 1}
   };
-  {
-    REAL vol = lcl::Volume_Tet<REAL>(aXYZ[0], aXYZ[1], aXYZ[2], aXYZ[3]);
-    if (vol < 0) {
-      aTri = {
-          3,2,1,
-          2,3,0,
-          3,1,0,
-          1,2,0 };
-      aTriSur = {
-          {3,2,},{2,2},{1,2},{2,1},{3,0},{0,2},
-          {3,1},{1,0},{0,1},{1,1},{2,0},{0,0} };
-    }
-  }
   const int triEd[3][2] = {
       {1, 2},
       {2, 0},
       {0, 1}};
-  for (unsigned iv = 4; iv < static_cast<unsigned int>(aXYZ.size()); iv++) {
+  for (unsigned iv = 0; iv < static_cast<unsigned int>(aXYZ.size()); iv++) {
+    if (iv == i0 || iv == i1 || iv == i2 || iv == i3) { continue; }
     VEC v = aXYZ[iv];
     int itri_ker = -1;
 	const unsigned int ntri = static_cast<unsigned int>(aTri.size() / 3);
-- 
2.43.0


From b326031311c5080e32585d1a6903c21c4e1b215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 104/160] fix: GJK in 2D never ended or was wrong when the
 origin is on an edge

---
 include/delfem2/geo_gjksat2.h | 75 ++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 3d7c590..347d463 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -38,6 +38,7 @@ template<typename VEC>
 auto FindIntersectingSimplexForGjk2(
     const std::vector<VEC> &vtxsA,
     const std::vector<VEC> &vtxsB) -> std::vector<VEC> {
+  using SCALAR = typename VEC::Scalar;
   assert(!vtxsA.empty() && !vtxsB.empty());
 
   // compute support on Minkowski difference
@@ -46,53 +47,65 @@ auto FindIntersectingSimplexForGjk2(
     return FindFurthest(vtxsA, dir) - FindFurthest(vtxsB, ndir);
   };
 
+  const SCALAR eps = 100 * std::numeric_limits<SCALAR>::epsilon();
+
   // add first and second points of simplex
   std::vector<VEC> simplex;
   VEC init_dir = vtxsB[0] - vtxsA[0];
+  if (init_dir.squaredNorm() == 0) { init_dir = VEC{1, 0}; }
   simplex.push_back(support(init_dir));
-  VEC O = VEC{0, 0};
+  const VEC O = VEC{0, 0};
   VEC d = O - simplex[0];
-
-  VEC AB, AC, AO, ABperp, ACperp; // all temporary variables
-  while (true) {
+  // the origin is exactly on the line of the edge, it can be on either side
+  bool is_ambiguous = false;
+  for (unsigned int itr = 0; itr < 1000; ++itr) {
     VEC P = support(d);
-    if (P.dot(d) < 0) {
-      return std::vector<VEC>();
-    } else {
-      simplex.push_back(P);
+    if (P.dot(d) < 0) { return std::vector<VEC>(); }
+    if (simplex.size() == 2) {
+      const VEC AB = simplex[0] - simplex[1];
+      const VEC AP = P - simplex[1];
+      const SCALAR area = AB[0] * AP[1] - AB[1] * AP[0];
+      if (area * area <= eps * eps * AB.squaredNorm() * AP.squaredNorm()) {
+        // there is nothing beyond the edge
+        if (!is_ambiguous) { return std::vector<VEC>(); }
+        is_ambiguous = false;
+        d = -d;
+        continue;
+      }
     }
-
-    if (simplex.size() == 2) { // line case
-      AB = simplex[0] - simplex[1];
-      AO = O - simplex[1];
-      d = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
-    } else if (simplex.size() == 3) { // triangle case
-      AB = simplex[1] - simplex[2];
-      AC = simplex[0] - simplex[2];
-      AO = O - simplex[2];
-      ABperp = -(AC - AB.dot(AC) / AB.squaredNorm() * AB);
-      ACperp = -(AB - AC.dot(AB) / AC.squaredNorm() * AC);
-      if (ABperp.dot(AO) > 0) {
-        simplex.erase(simplex.begin()); // remove C
+    is_ambiguous = false;
+    simplex.push_back(P);
+    if (simplex.size() == 2) {  // line case
+      const VEC AB = simplex[0] - simplex[1];
+      const VEC AO = O - simplex[1];
+      if (AB.squaredNorm() == 0) { return std::vector<VEC>(); }
+      VEC perp = {AB[1], -AB[0]};
+      const SCALAR dist = perp.dot(AO);
+      if (dist < 0) { perp = -perp; }
+      is_ambiguous = dist * dist <= eps * eps * AB.squaredNorm() * (AB.squaredNorm() + AO.squaredNorm());
+      d = perp;
+    } else if (simplex.size() == 3) {  // triangle case
+      const VEC AB = simplex[1] - simplex[2];
+      const VEC AC = simplex[0] - simplex[2];
+      const VEC AO = O - simplex[2];
+      VEC ABperp = {AB[1], -AB[0]};
+      if (ABperp.dot(AC) > 0) { ABperp = -ABperp; }
+      VEC ACperp = {AC[1], -AC[0]};
+      if (ACperp.dot(AB) > 0) { ACperp = -ACperp; }
+      if (ABperp.dot(AO) > eps * ABperp.norm() * AO.norm()) {
+        simplex.erase(simplex.begin());  // remove simplex[0]
         d = ABperp;
-      } else if (ACperp.dot(AO) > 0) {
-        simplex.erase(simplex.begin() + 1); // remove B
+      } else if (ACperp.dot(AO) > eps * ACperp.norm() * AO.norm()) {
+        simplex.erase(simplex.begin() + 1);  // remove simplex[1]
         d = ACperp;
       } else {
         return simplex;
       }
     }
   }
+  return std::vector<VEC>();
 }
 
-/**
- * The functions returns true if the convex hull of a 2D point set A
- * and the convex hull of a 2D point set B intersects.
- * @tparam VEC
- * @param vtxsA points of the point set A
- * @param vtxsB points of the point set B
- * @return
- */
 template<typename VEC>
 bool IsIntersect_Points2_Points2_Gjk(
     const std::vector<VEC> &vtxsA,
-- 
2.43.0


From f197461c88fd6dcb25209f7fb1430a09c3c8f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 105/160] fix: dividing a 2D vector by a small number aborted

---
 include/delfem2/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vec2.h b/include/delfem2/vec2.h
index 1ad54fa..1816229 100644
--- a/include/delfem2/vec2.h
+++ b/include/delfem2/vec2.h
@@ -121,7 +121,7 @@ class CVec2 {
     return *this;
   }
   inline CVec2 &operator/=(double d) {
-    if (fabs(d) < 1.0e-6) {
+    if (d == 0) {
       assert(0);
       return *this;
     }
-- 
2.43.0


From a1cac139c097ecc82e56602cddf6bebb93589ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 106/160] fix: GJK in 3D went round in circles or missed
 aligned shapes, EPA and separating axes of boxes

---
 include/delfem2/geo_gjksat3.h | 194 +++++++++++++++++++++-------------
 1 file changed, 122 insertions(+), 72 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..050f4b4 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -43,79 +43,136 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 		return FindFurthest(vtxsA, dir) - FindFurthest(vtxsB, ndir);
 	};
 
-	std::vector<VEC> simplex;
-
-	{ // add first point of simplex
-		VEC init_dir = vtxsB[0] - vtxsA[0];
-		simplex.push_back(support(init_dir));
-	}
+	using SCALAR = typename VEC::Scalar;
+	const SCALAR eps = 100 * std::numeric_limits<SCALAR>::epsilon();
+
+	// any vector that is perpendicular to the input
+	auto perpendicular = [](const VEC& a) -> VEC {
+		const SCALAR x = std::abs(a[0]), y = std::abs(a[1]), z = std::abs(a[2]);
+		const VEC e = (x <= y && x <= z) ? VEC { 1.0, 0.0, 0.0 } : (y <= z) ? VEC { 0.0, 1.0, 0.0 } : VEC { 0.0, 0.0, 1.0 };
+		return a.cross(e);
+	};
 
+	std::vector<VEC> simplex;
 	const VEC O = VEC { 0.0, 0.0, 0.0 };
-	VEC d	    = O - simplex[0];
-
-	{ // add second point
-		VEC P = support(d);
-		simplex.push_back(P);
+	{ // first point
+		VEC d = vtxsB[0] - vtxsA[0];
+		if (d.squaredNorm() == 0)
+			d = VEC { 1.0, 0.0, 0.0 };
+		simplex.push_back(support(d));
 	}
-
-	{ // add thierd point
-		VEC AB = simplex[0] - simplex[1];
-		VEC AO = O - simplex[1];
-		d      = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
-		VEC P  = support(d);
+	{ // second point
+		const VEC d = O - simplex[0];
+		const VEC P = support(d);
+		if (P.dot(d) < 0 || (P - simplex[0]).squaredNorm() == 0)
+			return std::vector<VEC>();
 		simplex.push_back(P);
 	}
-
-	{ //set direction as the triangle normal (looking Origin)
-		VEC AB = simplex[0] - simplex[1];
-		VEC AC = simplex[0] - simplex[2];
-		d      = AB.cross(AC);
-		if ((O - simplex[0]).dot(d) < 0.0)
-			d = -d;
-	}
-
-	VEC AB, AC, AD, AO, ABCperp, ACDperp, ADBperp; // all temporary variables
-	while (true) {
-		VEC P = support(d);
-		if (P.dot(d) < 0) { // Minkowski difference does not contain Origin
-			return std::vector<VEC>();
+	{ // third point, the origin can be exactly on the line
+		const VEC AB = simplex[0] - simplex[1];
+		const VEC AO = O - simplex[1];
+		VEC d = AO - AB.dot(AO) / AB.squaredNorm() * AB;
+		VEC candidates[4];
+		int num_candidate = 1;
+		if (d.squaredNorm() <= eps * eps * (AB.squaredNorm() + AO.squaredNorm())) {
+			candidates[0] = perpendicular(AB);
+			candidates[1] = -candidates[0];
+			candidates[2] = AB.cross(candidates[0]);
+			candidates[3] = -candidates[2];
+			num_candidate = 4;
 		} else {
+			candidates[0] = d;
+		}
+		for (int ic = 0; ic < num_candidate && simplex.size() == 2; ++ic) {
+			const VEC P = support(candidates[ic]);
+			if (P.dot(candidates[ic]) < 0)
+				return std::vector<VEC>();
+			const VEC AP = P - simplex[1];
+			if (AB.cross(AP).squaredNorm() <= eps * eps * AB.squaredNorm() * AP.squaredNorm())
+				continue;
 			simplex.push_back(P);
 		}
+		if (simplex.size() == 2)
+			return std::vector<VEC>();
+	}
 
-		AB = simplex[2] - simplex[3];
-		AC = simplex[1] - simplex[3];
-		AD = simplex[0] - simplex[3];
-		AO = O - simplex[3];
+	// the point of a segment or of a triangle that is the closest to the origin
+	auto closest_segment = [](const VEC& a, const VEC& b) -> VEC {
+		const VEC ab	= b - a;
+		const SCALAR l2 = ab.squaredNorm();
+		if (l2 == 0)
+			return a;
+		SCALAR t = -a.dot(ab) / l2;
+		t = (t < 0) ? 0 : (t > 1) ? 1 : t;
+		return a + ab * t;
+	};
+	auto closest_triangle = [&closest_segment](const VEC& a, const VEC& b, const VEC& c) -> VEC {
+		const VEC n	= (b - a).cross(c - a);
+		const SCALAR nn = n.squaredNorm();
+		if (nn > 0 && n.dot(a.cross(b)) >= 0 && n.dot(b.cross(c)) >= 0 && n.dot(c.cross(a)) >= 0)
+			return n * (n.dot(a) / nn);
+		VEC best = closest_segment(a, b);
+		for (const VEC& v : { closest_segment(b, c), closest_segment(c, a) }) {
+			if (v.squaredNorm() < best.squaredNorm())
+				best = v;
+		}
+		return best;
+	};
 
-		if (std::abs(AB.dot(AC.cross(AD))) < 0.000001) {
+	// the distance between the triangle and the origin decreases in every iteration
+	for (unsigned int itr = 0; itr < 1000; ++itr) {
+		const VEC C	   = simplex[0];
+		const VEC B	   = simplex[1];
+		const VEC A	   = simplex[2];
+		const VEC v	   = closest_triangle(A, B, C);
+		const SCALAR scale = A.norm() + B.norm() + C.norm();
+		if (v.norm() <= eps * scale) { // the origin is on the triangle, look for something on either side
+			const VEC n = (B - A).cross(C - A);
+			for (const VEC& d : { n, VEC(-n) }) {
+				const VEC P = support(d);
+				if ((P - A).dot(d) <= eps * scale * d.norm())
+					continue;
+				simplex.push_back(P);
+				return simplex;
+			}
 			return std::vector<VEC>();
 		}
-
-		// compute normal of each faces (looking outside of the tetrahedron)
-		ABCperp = AB.cross(AC);
-		if (ABCperp.dot(AD) > 0.0)
-			ABCperp = -ABCperp;
-		ACDperp = AC.cross(AD);
-		if (ACDperp.dot(AB) > 0.0)
-			ACDperp = -ACDperp;
-		ADBperp = AD.cross(AB);
-		if (ADBperp.dot(AC) > 0.0)
-			ADBperp = -ADBperp;
-
-		if (ABCperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin()); // remove D
-			d = ABCperp;
-		} else if (ACDperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin() + 2); // remove B
-			d = ACDperp;
-		} else if (ADBperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin() + 1); // remove C
-			d = ADBperp;
-		} else { // the tetrahedron contains Origin
-			return simplex;
+		const VEC d = -v;
+		const VEC P = support(d);
+		if (P.dot(d) < 0 || (P - v).dot(d) <= eps * scale * d.norm()) // no intersection
+			return std::vector<VEC>();
+		{ // is the origin inside the tetrahedron
+			const VEC AB   = A - P;
+			const VEC AC   = B - P;
+			const VEC AD   = C - P;
+			const VEC AO   = -P;
+			const SCALAR vol = AB.dot(AC.cross(AD));
+			const VEC nABC = AB.cross(AC) * vol; // facing the fourth vertex
+			const VEC nACD = AC.cross(AD) * vol;
+			const VEC nADB = AD.cross(AB) * vol;
+			const VEC nBCD = (C - A).cross(B - A) * vol;
+			if (std::abs(vol) > eps * AB.norm() * AC.norm() * AD.norm()
+					&& nABC.dot(AO) >= 0 && nACD.dot(AO) >= 0 && nADB.dot(AO) >= 0 && nBCD.dot(-A) >= 0) {
+				simplex.push_back(P);
+				return simplex;
+			}
+		}
+		// keep the face that is the closest to the origin, the larger one if the closest point is shared
+		const VEC face[3][3] = { { P, A, B }, { P, B, C }, { P, C, A } };
+		int ibest = -1;
+		SCALAR dist_best = 0, area_best = 0;
+		for (int i = 0; i < 3; ++i) {
+			const SCALAR dist = closest_triangle(face[i][0], face[i][1], face[i][2]).norm();
+			const SCALAR area = (face[i][1] - face[i][0]).cross(face[i][2] - face[i][0]).norm();
+			if (ibest != -1 && dist > dist_best - eps * scale && !(dist < dist_best + eps * scale && area > area_best))
+				continue;
+			ibest	  = i;
+			dist_best = dist;
+			area_best = area;
 		}
+		simplex = { face[ibest][2], face[ibest][1], face[ibest][0] };
 	}
+	return std::vector<VEC>();
 }
 
 /**
@@ -154,6 +211,8 @@ auto FindClosestFace(
 		VEC v2 = simplex[facelist[3 * i + 2]];
 
 		VEC n = (v1 - v0).cross(v2 - v0);
+		if (n.squaredNorm() == 0)
+			continue;
 		n.normalize();
 
 		SCALAR dist = n.dot(v0);
@@ -267,7 +326,8 @@ bool Penetration_Points3_Points3_Epa(
 
 				const VEC fn = (vert1 - vert0).cross(vert2 - vert0);
 
-				if (fn.dot(p - vert0) < 0.0) {
+				// faces on the same plane stay, replacing them would make faces without area
+				if (fn.dot(p - vert0) <= 1.0e-3 * tolerance * fn.norm()) {
 					// the face will be contained in next polytope
 
 					facebuffer.push_back(facelist[3 * i + 0]);
@@ -407,18 +467,8 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
-
-				constexpr unsigned int FaceToEdge[12] = {
-					0, 0,
-					0, 1,
-					0, 2,
-					1, 1,
-					1, 2,
-					2, 2
-				};
-
-				const VEC normal = (edgeB[FaceToEdge[2 * i + 1]]).cross(edgeA[FaceToEdge[2 * i + 0]]);
+			for (unsigned int i = 0; i < 9; i++) {
+				const VEC normal = edgeB[i / 3].cross(edgeA[i % 3]);
 
 				const auto rangeA = Range_ProjectionPointsOnAxis(vtxsA, normal);
 				const auto rangeB = Range_ProjectionPointsOnAxis(vtxsB, normal);
-- 
2.43.0


From 0f3275b03fe4ebbaafd759d8c5e364cb0b7932b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 107/160] fix: IsIntersect_AABB2_Edge2 was not defined in
 delfem2 and missed an edge touching a corner

---
 include/delfem2/geo_edge.cpp | 40 +++++++++++-------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..2ab3830 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -238,42 +238,26 @@ bool IsIntersect_AABB2_Edge2(
   const VEC direction = p1 - p0;
   const VEC normal = {direction[1], -direction[0]};
 
-  bool positive = false, negative = false;
-  if (normal.dot(pmin - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
+  bool positive = false, negative = false; // a corner on the line counts for both
+  const VEC corners[4] = {
+    {pmin[0], pmin[1]}, {pmax[0], pmin[1]},
+    {pmax[0], pmax[1]}, {pmin[0], pmax[1]}};
+  for (const VEC &corner: corners) {
+    const SCALAR side = normal.dot(corner - p0);
+    if (side >= 0) { positive = true; }
+    if (side <= 0) { negative = true; }
   }
-
-  if (normal.dot(pmax - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (normal.dot(VEC(pmin[0], pmax[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (normal.dot(VEC(pmax[0], pmin[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
   if (positive && negative) { return true; }
 
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From d9cd14eb218c28ebb7fac069c99caeefc949f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 108/160] fix: edge-line, edge-edge nearest: parallel tests
 absolute and the overlap of parallel edges wrong

---
 include/delfem2/geo_edge.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 2ab3830..f800906 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -9,6 +9,7 @@
 
 #include <cstdlib>
 #include <cmath>
+#include <limits>
 
 #include "delfem2/geo_line.h"
 #include "delfem2/vec3_funcs.h"
@@ -312,7 +313,9 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  const VEC lineseg_direction = lineseg_end - lineseg_start;
+  const T scale = lineseg_direction.dot(lineseg_direction) * line_direction.dot(line_direction);
+  if (std::abs(D0) <= scale * std::numeric_limits<T>::epsilon() * 100) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
@@ -361,7 +364,7 @@ double delfem2::Distance_Edge3_Edge3(
   double &ratio_q) {
   const CVec3<T> &vp = p1 - p0;
   const CVec3<T> &vq = q1 - q0;
-  if (Cross(vp, vq).norm() < 1.0e-10) { // handling parallel edge
+  if (Cross(vp, vq).norm() < 1.0e-10 * vp.norm() * vq.norm()) { // handling parallel edge
     CVec3<T> pq0 = p0 - q0;
     CVec3<T> nvp = vp;
     nvp.normalize();
@@ -375,11 +378,8 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // the middle of the overlap (or of the gap) of two intervals
+    const double lm = (((p_max < q_max) ? p_max : q_max) + ((p_min > q_min) ? p_min : q_min)) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From 0c6d5229a4386f29421683b8b5fdbf6e61f35cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 109/160] fix: nearest point on a triangle: absolute degeneracy
 thresholds abort on small triangles and points outside were accepted

---
 include/delfem2/geo_plane.cpp |  6 +-----
 include/delfem2/geo_tri.cpp   | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..ae84425 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -70,15 +70,11 @@ delfem2::CVec3<T> delfem2::Nearest_Origin3_PlaneTri3(
   const CVec3<T> &q1,
   const CVec3<T> &q2) {
   namespace lcl = delfem2::geo_plane;
-  assert((q1 - q0).norm() > 1.0e-10);
-  assert((q2 - q0).norm() > 1.0e-10);
-  assert((q1 - q2).norm() > 1.0e-10);
-  assert(((q1 - q0).cross(q2 - q0)).norm() > 1.0e-10);
+  assert(((q1 - q0).cross(q2 - q0)).norm() > 0); // degenerate triangle
   const CVec3<T> n1 = ((q1 - q0).cross(q2 - q0)).normalized();
   const T v0 = lcl::Volume_OrgTet(q1, q2, n1);
   const T v1 = lcl::Volume_OrgTet(q2, q0, n1);
   const T v2 = lcl::Volume_OrgTet(q0, q1, n1);
-  assert(fabs(v0 + v1 + v2) > 1.0e-10);
   T vt_inv = 1 / (v0 + v1 + v2);
   T r2;
   r0 = v0 * vt_inv;
diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 7b09985..9539d0f 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -7,7 +7,9 @@
 
 #include "delfem2/geo_tri.h"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <stack>
 
 #include "delfem2/vec3_funcs.h"
@@ -66,23 +68,28 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  if (area > 1.0e-10) { // the projection exists also for a point on the plane of the triangle
+  const double max_sqedge = std::max({
+    SquareDistance3(q0, q1), SquareDistance3(q1, q2), SquareDistance3(q2, q0)});
+  if (area > 1.0e-10 * max_sqedge) { // the projection exists also for a point on the plane of the triangle
     const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
     const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
     const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
-    assert(fabs(v0 + v1 + v2) > 1.0e-11);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
     const double r2 = (1.0 - r0 - r1);
-    const double tol = 1.0e-4;
-    if (r0 > -tol && r1 > -tol && r2 > -tol) {
+    if (r0 >= 0 && r1 >= 0 && r2 >= 0) {
       nearest_position[0] = q0[0] * r0 + q1[0] * r1 + q2[0] * r2;
       nearest_position[1] = q0[1] * r0 + q1[1] * r1 + q2[1] * r2;
       nearest_position[2] = q0[2] * r0 + q1[2] * r1 + q2[2] * r2;
       return;
     }
   }
+  // ratio of the end of the edge (0.5 if the edge is degenerate)
+  auto ratio = [](const double p[3], const double s[3], const double e[3]) {
+    const double len = Distance3(s, e);
+    return len > 0 ? Distance3(p, s) / len : 0.5;
+  };
   double r12[3];
   Nearest_Edge3_Point3(r12, ps, q1, q2);
   double r20[3];
@@ -98,7 +105,7 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
       nearest_position[1] = r12[1];
       nearest_position[2] = r12[2];
       r0 = 0;
-      r1 = Distance3(nearest_position, q2) / Distance3(q1, q2);
+      r1 = ratio(nearest_position, q2, q1);
       return;
     }
   } else {
@@ -106,7 +113,7 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
       nearest_position[0] = r20[0];
       nearest_position[1] = r20[1];
       nearest_position[2] = r20[2];
-      r0 = Distance3(nearest_position, q2) / Distance3(q0, q2);
+      r0 = ratio(nearest_position, q2, q0);
       r1 = 0;
       return;
     }
@@ -114,7 +121,7 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   nearest_position[0] = r01[0];
   nearest_position[1] = r01[1];
   nearest_position[2] = r01[2];
-  r0 = Distance3(nearest_position, q1) / Distance3(q0, q1);
+  r0 = ratio(nearest_position, q1, q0);
   r1 = 1 - r0;
 }
 
@@ -128,7 +135,8 @@ delfem2::CVec3<T> delfem2::Nearest_Origin3_Tri3(
     const CVec3<T> &q1,
     const CVec3<T> &q2) {
 
-  if (((q1 - q0).cross(q2 - q0)).norm() > 1.0e-10) {
+  const T max_sqedge = std::max({(q1 - q0).squaredNorm(), (q2 - q1).squaredNorm(), (q0 - q2).squaredNorm()});
+  if (((q1 - q0).cross(q2 - q0)).norm() > max_sqedge * std::numeric_limits<T>::epsilon() * 1000) {
     CVec3<T> p012 = Nearest_Origin3_PlaneTri3(r0, r1, q0, q1, q2);
     if (r0 > 0 && r1 > 0 && (1 - r0 - r1) > 0) { return p012; }
   }
-- 
2.43.0


From 5874db37767802161ca7d9ebd6bfbe74220a8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 110/160] fix: Nearest_Plane3_Point3 multiplied vectors and did
 not compile

---
 include/delfem2/geo_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index ae84425..36ce1a6 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + (o - p).dot(n0) * n0;
 }
 
 // -------------------------------------
-- 
2.43.0


From 468875058c4cd07f1965d38a0343e2b317ada13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 111/160] fix: isIntersectTriPair: wrong edge when a vertex
 lies on the other plane, shared interval ends missed

---
 include/delfem2/geo_tri.cpp | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 9539d0f..a55340b 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -246,11 +246,11 @@ bool delfem2::isIntersectTriPair(
   const CVec3<T> q12 = (1.0 / (dq1 - dq2)) * (dq1 * q2 - dq2 * q1);
   const CVec3<T> q20 = (1.0 / (dq2 - dq0)) * (dq2 * q0 - dq0 * q2);
   const CVec3<T> vz = np.cross(nq);
-  CVec3<T> ps, pe;
-  if (dp0 * dp1 > 0) {
+  CVec3<T> ps, pe; // the edges of the vertex which is alone on its side
+  if ((dp0 > 0) == (dp1 > 0)) {
     ps = p20;
     pe = p12;
-  } else if (dp1 * dp2 > 0) {
+  } else if ((dp1 > 0) == (dp2 > 0)) {
     ps = p01;
     pe = p20;
   } else {
@@ -267,10 +267,10 @@ bool delfem2::isIntersectTriPair(
   assert(zps <= zpe);
   //
   CVec3<T> qs, qe;
-  if (dq0 * dq1 > 0) {
+  if ((dq0 > 0) == (dq1 > 0)) {
     qs = q20;
     qe = q12;
-  } else if (dq1 * dq2 > 0) {
+  } else if ((dq1 > 0) == (dq2 > 0)) {
     qs = q01;
     qe = q20;
   } else {
@@ -287,27 +287,9 @@ bool delfem2::isIntersectTriPair(
   assert(zqs <= zqe);
   //
   if (zps > zqe || zqs > zpe) return false;
-  CVec3<T> P[4];
-  int icnt = 0;
-  if (zps > zqs && zps < zqe) {
-    P[icnt] = ps;
-    icnt++;
-  }
-  if (zpe > zqs && zpe < zqe) {
-    P[icnt] = pe;
-    icnt++;
-  }
-  if (zqs > zps && zqs < zpe) {
-    P[icnt] = qs;
-    icnt++;
-  }
-  if (zqe > zps && zqe < zpe) {
-    P[icnt] = qe;
-    icnt++;
-  }
-  if (icnt != 2) return false;
-  P0 = P[0];
-  P1 = P[1];
+  // the overlap of the two intervals
+  P0 = (zps > zqs) ? ps : qs;
+  P1 = (zpe < zqe) ? pe : qe;
   return true;
 }
 #ifdef DFM2_STATIC_LIBRARY
-- 
2.43.0


From f64a576b648c961e49e1484e40741ce6ce06a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 112/160] fix: ProjectPointOnTriangle was NaN for a point on
 the first vertex

---
 include/delfem2/geo_tri.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index a55340b..3c52624 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -311,10 +311,7 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
   CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
-  return p0 + p0ProjectedP0;
+  return p0 - (normal.dot(p0 - tri_p1) / normal.squaredNorm()) * normal;
 }
 
 // ----------------------
-- 
2.43.0


From bd5393060e50fb661d0ef1ce46d1a94931288c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 113/160] fix: SolidAngleTri: wrong branch for angles seen from
 beyond the quarter

---
 include/delfem2/geo_tri.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 3c52624..3e3274f 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -401,9 +401,8 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
-  if (v < 0) { v += 2 * M_PI; }
+  T v = std::atan2(den, num);
+  if (v < 0) { v += static_cast<T>(2 * M_PI); }
   v *= 2;
   return v;
 }
-- 
2.43.0


From 4aeea62b92d876aacdda6b0f1c976d6ad49c7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 114/160] fix: Nearst_Origin3_Quad3 returned the origin for
 every interior solution

---
 include/delfem2/geo_quad.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..0b63b3d 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -43,7 +43,6 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 = 0.5;
       t1 = 0.5;
     }
-    CVec3<T> q;
     for (int itr = 0; itr < 4; ++itr) {
       CVec3<T> pq = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
       CVec3<T> dqt0 = -(1 - t1) * q0 + (1 - t1) * q1 + t1 * q2 - t1 * q3;
@@ -64,6 +63,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    const CVec3<T> q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
@@ -75,7 +75,6 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       }
     }
   }
-  if (dist_min > 0) { return q_min; }
   //
   const CVec3<T> q01 = Nearest_Origin_Edge(q0, q1);
   const double d01 = q01.norm();
-- 
2.43.0


From 9baa6117d38265d30c3e5c72e33107ba56c819b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 115/160] fix: Nearest_Line3_Point3 with the parameter did not
 compile

---
 include/delfem2/geo_line.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
-- 
2.43.0


From 96b4445daabcc17deb71c28b02d9732a2d6d5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 116/160] fix: Area_Polygon and Polygon_Resample_Polygon did
 not compile

---
 include/delfem2/geo_polygon2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index eeb9b5f..8b272ab 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -63,7 +63,7 @@ double delfem2::Area_Polygon(
   const int ne = aP.size();
   double area_loop = 0.0;
   for (int ie = 0; ie < ne; ie++) {
-    area_loop += Area_Tri(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
+    area_loop += Area_Tri2(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
   }
   return area_loop;
 }
@@ -107,7 +107,7 @@ std::vector<delfem2::CVec2<T>> delfem2::Polygon_Resample_Polygon(
     if (jcur > (int) stroke0.size() - 1) break;
     int ip0 = jcur;
     int ip1 = (jcur + 1) % stroke0.size();
-    double lenj = (stroke0[ip1] - stroke0[ip0]).Length();
+    double lenj = (stroke0[ip1] - stroke0[ip0]).norm();
     double lenjr = lenj * (1.0 - rcur);
     if (lenjr > lcur) { // put point in this segment
       rcur += lcur / lenj;
-- 
2.43.0


From 27109a9031f74c9c72a2013a78b231c41f4e76b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 117/160] fix: SecondMomentOfArea_Polygon left the moments
 unset for symmetric polygons

---
 include/delfem2/geo_polygon2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 8b272ab..bb22480 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,7 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = I2 = 0.5 * (Ix + Iy);
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From b42a14353a9a617260a80ad2754651e0e3170f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 118/160] fix: Tangent_Polyline read past the end for a
 parameter on the last point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..2a473b9 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From a3044746e4e27edc071cc34000f4e1fac2af3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 119/160] fix: Nearest_Polyline was NaN if the first edge has
 no length

---
 include/delfem2/geo_polyline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index 2a473b9..f8b5dbc 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -185,7 +185,8 @@ template<typename VEC>
     const VEC &sc = polyline[ip] - scr;
     const SCALAR a = es.squaredNorm();
     const SCALAR b = es.dot(sc);
-    const SCALAR ratio = std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1));
+    const SCALAR ratio = (a > 0) ?  // zero-length edge
+      std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1)) : static_cast<SCALAR>(0);
     VEC p = (1 - ratio) * polyline[ip] + ratio * polyline[ip + 1];
     SCALAR dist = (p - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
-- 
2.43.0


From ce5e203c2d600aff02740d96f135c98ea990733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 120/160] fix: nearest point of a polyline compared distances
 in single precision

---
 include/delfem2/geo_polyline.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index f8b5dbc..11b98cf 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -55,7 +55,7 @@ unsigned int FindNearestPointInPoints(
     const std::vector<VEC> &polyline,
     const VEC &scr) {
   unsigned int idx_point_min_dist = UINT_MAX;
-  float dist_min = -1;
+  typename VEC::Scalar dist_min = -1;
   for (unsigned int ip = 0; ip < polyline.size(); ++ip) {
     auto dist = (scr - polyline[ip]).norm();
     if (dist_min < 0 || dist < dist_min) {
@@ -224,12 +224,12 @@ auto ArcLengthPointInPolyline(
     const VEC &scr) -> typename VEC::Scalar {
   using SCALAR = typename VEC::Scalar;
   if (polyline.size() < 2) { return 0; }
-  float dist_min = -1;
+  SCALAR dist_min = -1;
   VEC p_min;
   unsigned int ip_min = -1;
   for (unsigned int ip = 0; ip < polyline.size() - 1; ++ip) {
     VEC p_near = Nearest_Edge_Point(scr, polyline[ip], polyline[ip + 1]);
-    float dist = (p_near - scr).norm();
+    SCALAR dist = (p_near - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
       dist_min = dist;
       p_min = p_near;
-- 
2.43.0


From 6925047f3bfc3fcb74397b899109020f8f1afd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 121/160] fix: IsInclude_Loop: a point inside a loop of many
 vertices was reported outside

---
 include/delfem2/geo_polygon2.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index bb22480..e2b48ea 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -400,7 +400,17 @@ bool delfem2::IsInclude_Loop(
     if (inum_cross % 2 == 0) { return false; }
     else if (inum_cross % 2 == 1) { return true; }
   }
-  return false;
+  // every direction passes close to a vertex: count the crossings of
+  // a horizontal ray where an edge includes only its lower end
+  inum_cross = 0;
+  for (int ixys = ixy_stt; ixys < ixy_end; ixys++) {
+    const CVec2<T> &p0 = aXY[ixys];
+    const CVec2<T> &p1 = aXY[(ixys + 1 == ixy_end) ? ixy_stt : ixys + 1];
+    if ((p0.p[1] > co[1]) == (p1.p[1] > co[1])) { continue; }
+    const double r = (co[1] - p0.p[1]) / (p1.p[1] - p0.p[1]);
+    if (p0.p[0] + r * (p1.p[0] - p0.p[0]) > co[0]) { inum_cross++; }
+  }
+  return inum_cross % 2 == 1;
 }
 
 template<typename T>
-- 
2.43.0


From 890df141cf81d096f0f73d36abde1bba9d5c1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 122/160] fix: GetCenterWidthGroup assumed three nodes per
 element

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From 8ca186581c1768e0477c0f9596be389d6af2684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 123/160] fix: TangentVector_Points3 multiplied by the length
 instead of normalising

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..3a36abf 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1.0 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From 19bb43e297ff2b3c92e79fa9e7d743733b3804ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 124/160] fix: SolidAngleTri3D: wrong branch for large angles

---
 include/delfem2/mshmisc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..861e7c2 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From ff2835d9f1e91748690e764348f7d586dc84ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 125/160] fix: LaplacianSmoothing made isolated vertices NaN

---
 include/delfem2/mshmisc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 861e7c2..2f083c2 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -398,6 +398,7 @@ void delfem2::LaplacianSmoothing(
       pcnt[1] += area * (aP[0][1] + aP[1][1] + aP[2][1]) / 3.0;
       pcnt[2] += area * (aP[0][2] + aP[1][2] + aP[2][2]) / 3.0;
     }
+    if (sum_area <= 0.0) { continue; }  // no element around this vertex
     pcnt[0] /= sum_area;
     pcnt[1] /= sum_area;
     pcnt[2] /= sum_area;
-- 
2.43.0


From 84b2359e75dd6292336b1c9f3c62dcaf079b7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 126/160] fix: CG_Tri used a six-digit third

---
 include/delfem2/msh_center_of_gravity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_center_of_gravity.cpp b/include/delfem2/msh_center_of_gravity.cpp
index c1b40e5..2290786 100644
--- a/include/delfem2/msh_center_of_gravity.cpp
+++ b/include/delfem2/msh_center_of_gravity.cpp
@@ -427,9 +427,9 @@ void delfem2::CG_Tri(
   const double q2[3] = {aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]};
   const double q3[3] = {aXYZ[i3 * 3 + 0], aXYZ[i3 * 3 + 1], aXYZ[i3 * 3 + 2]};
 //  double a = TriArea3D(q1, q2, q3);
-  cgx = (q1[0] + q2[0] + q3[0]) * 0.333333;
-  cgy = (q1[1] + q2[1] + q3[1]) * 0.333333;
-  cgz = (q1[2] + q2[2] + q3[2]) * 0.333333;
+  cgx = (q1[0] + q2[0] + q3[0]) / 3.0;
+  cgy = (q1[1] + q2[1] + q3[1]) / 3.0;
+  cgz = (q1[2] + q2[2] + q3[2]) / 3.0;
 }
 
 // -------------------------------
-- 
2.43.0


From 704760d793f6cf29662dadd46ad7024eaf7d4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 127/160] fix: CCylinder::IntersectionPoint intersected the ray
 with a sphere

---
 include/delfem2/msh_primitive.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 7e33eda..685da2c 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -880,12 +880,18 @@ template<typename REAL>
 bool delfem2::CCylinder<REAL>::IntersectionPoint(
     double p[3],
     const double o[3], const double d[3]) const {
-  const double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
-  const double a = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
-  const double b = q[0] * d[0] + q[1] * d[1] + q[2] * d[2];
+  // components of the ray perpendicular to the axis
+  const double dd = dir_[0] * dir_[0] + dir_[1] * dir_[1] + dir_[2] * dir_[2];
+  const double q0[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
+  const double tq = (q0[0] * dir_[0] + q0[1] * dir_[1] + q0[2] * dir_[2]) / dd;
+  const double td = (d[0] * dir_[0] + d[1] * dir_[1] + d[2] * dir_[2]) / dd;
+  const double q[3] = {q0[0] - tq * dir_[0], q0[1] - tq * dir_[1], q0[2] - tq * dir_[2]};
+  const double e[3] = {d[0] - td * dir_[0], d[1] - td * dir_[1], d[2] - td * dir_[2]};
+  const double a = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
+  const double b = q[0] * e[0] + q[1] * e[1] + q[2] * e[2];
   const double c = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] - radius_ * radius_;
   const double det = b * b - a * c;
-  if (det < 0) return false;
+  if (det < 0 || !(a > 0)) return false;
   const double t = (-b + sqrt(det)) / a;
   p[0] = o[0] + t * d[0];
   p[1] = o[1] + t * d[1];
-- 
2.43.0


From ee454730e9ff8c22f44d3523b6b77c3f41d649ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 128/160] fix: CTorus::Projection ignored the height on the
 axis and left the normal unset

---
 include/delfem2/msh_primitive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 685da2c..af830cd 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -914,7 +914,11 @@ double delfem2::CTorus<REAL>::Projection(
   dir[2] -= t;
   const double len = sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
   if (len < 1.0e-20) {    // vertical to the center of torus
-    return radius_tube_ - radius_;
+    const double len1 = sqrt(radius_ * radius_ + t * t); // all the points of the center line are nearest
+    n[0] = -radius_ / len1;
+    n[1] = 0;
+    n[2] = t / len1;
+    return radius_tube_ - len1;
   }
   const double invlen = 1.0 / len;
   dir[0] *= invlen;
-- 
2.43.0


From c9939f1ecabc56676bd6f7ce6575c2c524ac1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 129/160] fix: CBox::Projection returned the inward normal, NaN
 on the surface

---
 include/delfem2/msh_primitive.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/msh_primitive.h b/include/delfem2/msh_primitive.h
index 596dc82..3fd7f5a 100644
--- a/include/delfem2/msh_primitive.h
+++ b/include/delfem2/msh_primitive.h
@@ -273,13 +273,20 @@ class CBox : public CSDF3 {
       z3 = z2;
     }
     {
-      n[0] = x - x3;
-      n[1] = y - y3;
-      n[2] = z - z3;
-      double tmp = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
-      n[0] *= tmp;
-      n[1] *= tmp;
-      n[2] *= tmp;
+      n[0] = x3 - x;
+      n[1] = y3 - y;
+      n[2] = z3 - z;
+      const double len = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
+      if (len > 0) {
+        n[0] /= len;
+        n[1] /= len;
+        n[2] /= len;
+      } else { // on the surface
+        n[0] = (fabs(x) >= hwx) ? ((x < 0) ? -1 : +1) : 0;
+        n[1] = (n[0] == 0 && fabs(y) >= hwy) ? ((y < 0) ? -1 : +1) : 0;
+        n[2] = (n[0] == 0 && n[1] == 0) ? ((z < 0) ? -1 : +1) : 0;
+        return 0;
+      }
     }
     if (fabs(x) > hwx || fabs(y) > hwy || fabs(z) > hwz) { // outside
       len3 = -len3;
-- 
2.43.0


From 25879586fbbc4be67b512dce44c5688b67579bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 130/160] fix: Catmull-Clark subdivision moved isolated
 vertices to the origin

---
 include/delfem2/mshsubdiv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/mshsubdiv.cpp b/include/delfem2/mshsubdiv.cpp
index 36909ed..9a3822b 100644
--- a/include/delfem2/mshsubdiv.cpp
+++ b/include/delfem2/mshsubdiv.cpp
@@ -654,7 +654,12 @@ void delfem2::SubdivisionPoints_QuadCatmullClark(
   }
   for (unsigned int iv = 0; iv < nv0; ++iv) {
     const unsigned int nf = aNFace[iv]; // number of faces touching this vertex
-    if (nf == 0) { continue; }
+    if (nf == 0) { // isolated vertex
+      vtx_xyz1[iv * 3 + 0] = vtx_xyz0[iv * 3 + 0];
+      vtx_xyz1[iv * 3 + 1] = vtx_xyz0[iv * 3 + 1];
+      vtx_xyz1[iv * 3 + 2] = vtx_xyz0[iv * 3 + 2];
+      continue;
+    }
     // add face
     const double tmp0 = 1.0 / (nf * nf);
     vtx_xyz1[iv * 3 + 0] *= tmp0;
-- 
2.43.0


From b20dafe13a4e2c5b016092fe9aa8d4afc7e23bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 131/160] fix: slicing and contours failed if a vertex lies
 exactly on the level

---
 include/delfem2/slice.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..bfbcd2a 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -84,7 +84,7 @@ DFM2_INLINE bool TraverseBoundaryLoop(
     double aH[3];
     for(unsigned int inotri=0;inotri<3;inotri++){
       aH[inotri] = aLevelVtx[ aTri[jtri0*3+inotri] ] -height;
-      if( aH[inotri] < 0 ){ continue; }
+      if( aH[inotri] <= 0 ){ continue; }
       if( inotri == 0 ){ iflg += 1; }
       if( inotri == 1 ){ iflg += 2; }
       if( inotri == 2 ){ iflg += 4; }
@@ -126,7 +126,7 @@ void delfem2::CSegInfo::Initialize(
   double aH[3];
   for(unsigned int inotri=0;inotri<3;inotri++){
     aH[inotri] = aLevelVtx[ aTri[jtri0*3+inotri] ] - height;
-    if( aH[inotri] < 0 ){ continue; }
+    if( aH[inotri] <= 0 ){ continue; }
     if( inotri == 0 ){ iflg += 1; }
     if( inotri == 1 ){ iflg += 2; }
     if( inotri == 2 ){ iflg += 4; }
@@ -210,11 +210,8 @@ void delfem2::AddContour(
     const double v0 = value_tri[ vec_tri[itri*3+0] ];
     const double v1 = value_tri[ vec_tri[itri*3+1] ];
     const double v2 = value_tri[ vec_tri[itri*3+2] ];
-    if(   (v0-thres)*(v1-thres) >= 0
-       && (v1-thres)*(v2-thres) >= 0
-       && (v2-thres)*(v0-thres) >= 0 ){
-      continue;
-    }
+    const int num_above = (v0>thres ? 1:0) + (v1>thres ? 1:0) + (v2>thres ? 1:0);
+    if( num_above == 0 || num_above == 3 ){ continue; }
     delfem2::CSegInfo seg;
     seg.Initialize(itri,
                    vec_tri,num_tri,value_tri,
-- 
2.43.0


From ab2b122b8cdb487d3a1996093fb56e5274f45b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 132/160] fix: MakeReebGraph read out of bounds at the boundary
 of a mesh

---
 include/delfem2/slice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 2ea7d66..6646268 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -10,6 +10,7 @@
 #define DFM2_SLICE_H
 
 #include <stdio.h>
+#include <climits>
 #include <set>
 #include <stack>
 #include <vector>
@@ -114,6 +115,7 @@ void MakeReebGraph
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
+        if( jtri0 == UINT_MAX ){ continue; }
         if( Tri2HCS[jtri0] == -1 ){ continue; }
         unsigned int jhcs = Tri2HCS[jtri0];
         const T& cs1 = aCrossSection[jhcs];
@@ -140,6 +142,7 @@ void MakeReebGraph
       Tri2HCS[jtri0] = -2;
       for(unsigned int jedtri=0;jedtri<3;jedtri++){
         unsigned int ktri0 = aTriSuTri[jtri0*3+jedtri];
+        if( ktri0 == UINT_MAX ){ continue; }
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-- 
2.43.0


From acf49cc9fefa3dd4826ec272116b27c1073c25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 133/160] fix: the triangles of Mesh_ArrowOcta face outward

---
 include/delfem2/msh_arrow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_arrow.h b/include/delfem2/msh_arrow.h
index 17ec97f..8a9eece 100644
--- a/include/delfem2/msh_arrow.h
+++ b/include/delfem2/msh_arrow.h
@@ -42,12 +42,12 @@ DFM2_INLINE void Mesh_ArrowOcta(
   }
   for (int idiv = 0; idiv < 4; idiv++) {
     tri_vtx.push_back(i0);
-    tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
     tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
+    tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
     //
     tri_vtx.push_back(i0 + 1);
-    tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
     tri_vtx.push_back(i0 + 2 + (1 + idiv) % 4);
+    tri_vtx.push_back(i0 + 2 + (0 + idiv) % 4);
   }
 }
 
-- 
2.43.0


From cac2320f710ccaa0597ad8f047301a758c9b36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 134/160] fix: binary clustering dropped the pairs with equal
 scores

---
 include/delfem2/clusterpoints.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..646e8fe 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE void delfem2::BinaryClustering_Points3d(
   const auto np0 = static_cast<unsigned int>(aXYZ0.size()/3);
   assert( aArea0.size() == np0 );
   assert( aNorm0.size() == np0*3 );
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData;  // scores can be equal
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
@@ -163,7 +163,7 @@ delfem2::BinaryClustering_Points2d(
 {
   for(unsigned int ip=0;ip<np0;++ip){ map01[ip] = UINT_MAX; }
   namespace cp = clusterpoints;
-  std::set<clusterpoints::CData> aData;
+  std::multiset<clusterpoints::CData> aData;  // scores can be equal
   for (unsigned int ip0 = 0; ip0 < np0; ++ip0) {
     for (unsigned int ipsup0 = psup_ind0[ip0]; ipsup0 < psup_ind0[ip0 + 1]; ++ipsup0) {
       const unsigned int jp0 = psup0[ipsup0];
-- 
2.43.0


From 8449ee1784befe6b8f947673bb8df22017a84865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 135/160] fix: the distance of the kernel in
 DijkstraPoint_MeshTri3D was not zero

---
 include/delfem2/dijkstra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..0499c66 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -276,6 +276,7 @@ void DijkstraPoint_MeshTri3D(
   const size_t np = aXYZ.size()/3;
   aOrder.assign(np,UINT_MAX);
   aDist.assign(np,-1.);
+  aDist[ip_ker] = 0.0;
   std::priority_queue<dijkstra::CNode<double>> que;
   unsigned int icnt = 0;
   que.push(dijkstra::CNode<double>(ip_ker, 0.0));
-- 
2.43.0


From 06505eea33bf942cb3822158a1c6c99c0219114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 136/160] fix: exponential maps accumulated on the old content
 of the output

---
 include/delfem2/expmap_geo3dijk.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/expmap_geo3dijk.h b/include/delfem2/expmap_geo3dijk.h
index 65f71a2..e543946 100644
--- a/include/delfem2/expmap_geo3dijk.h
+++ b/include/delfem2/expmap_geo3dijk.h
@@ -47,7 +47,7 @@ public:
       psup_ind(psup_ind_), psup(psup_) {
     const size_t np = aXYZ.size() / 3;
     aAxisX.resize(np, CVec3d(0, 0, 0));
-    aTex.resize(np * 2);
+    aTex.assign(np * 2, 0.0);
     aW.assign(np, 0.0);
 
     { // set kernel point information
@@ -116,7 +116,7 @@ public:
     const size_t ntri = aTri.size() / 3;
     assert(it_ker<ntri);
     aAxisX.resize(ntri, CVec3d(0, 0, 0));
-    aTex.resize(ntri * 2);
+    aTex.assign(ntri * 2, 0.0);
     aW.assign(ntri, 0.0);
     { // set kernel point information
       aTex[it_ker * 2 + 0] = 0.0;
-- 
2.43.0


From 704956508b191506346eb248360c021f8d7e7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 137/160] fix: Intersection_ImageRay_TriMesh3 kept old content
 at pixels without hit

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index 8e0aeed..30b2ca8 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -459,7 +459,7 @@ void Intersection_ImageRay_TriMesh3(
     const std::vector<double> &aXYZ, // 3d points
     const std::vector<unsigned int> &aTri,
     bool is_parallel) {
-  aPointElemSurf.resize(nheight * nwidth);
+  aPointElemSurf.assign(nheight * nwidth, PointOnSurfaceMesh<double>());
   const std::array<double, 16> mMVPd_inv = Inverse_Mat4(mMVPd);
   auto func = [&](int ih, int iw) {
     const std::pair<CVec3d, CVec3d> ray = RayFromInverseMvpMatrix(mMVPd_inv.data(), iw, ih, nwidth, nheight);
-- 
2.43.0


From ca597efb708daea6f5e6d765029eb0af865a3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 138/160] fix: SampleHemisphereZupUniform did not compile for
 any scalar type

---
 include/delfem2/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 3a62c90..e957bfb 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -107,7 +107,7 @@ template<typename T>
 inline std::array<T, 3> SampleHemisphereZupUniform(
     const std::array<T, 2> &v2) {
   auto z = v2[0];
-  auto r = std::sqrt(std::clamp(1 - z * z, 0, 1));
+  auto r = std::sqrt(std::clamp<T>(1 - z * z, 0, 1));
   auto phi = 2 * M_PI * v2[1];
   return {r * cos(phi), r * sin(phi), z};
 }
-- 
2.43.0


From a307e9215b3760d22887a1de91a044d0f8bb816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 139/160] fix: MyERand48 overflowed a signed integer

---
 include/delfem2/sampling.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index e957bfb..2cde8aa 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -36,7 +36,9 @@ T MyERand48(std::array<unsigned short, 3> &xseed) {
       (unsigned long) my_rand48_mult[1] * (unsigned long) xseed[0];
   temp[1] = (unsigned short) accu;    /* middle 16 bits */
   accu >>= sizeof(unsigned short) * 8;
-  accu += my_rand48_mult[0] * xseed[2] + my_rand48_mult[1] * xseed[1] + my_rand48_mult[2] * xseed[0];
+  accu += (unsigned long) my_rand48_mult[0] * (unsigned long) xseed[2] +
+      (unsigned long) my_rand48_mult[1] * (unsigned long) xseed[1] +
+      (unsigned long) my_rand48_mult[2] * (unsigned long) xseed[0];
   xseed[0] = temp[0];
   xseed[1] = temp[1];
   xseed[2] = (unsigned short) accu;
-- 
2.43.0


From 9f9a65d0b0966c481bf886cc3c19ab40c123cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 140/160] fix: Perlin noise mirrored the offsets to the far
 corners of a cell, leaving creases at the cell borders

---
 include/delfem2/noise.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/noise.h b/include/delfem2/noise.h
index 1afa41f..a424c08 100644
--- a/include/delfem2/noise.h
+++ b/include/delfem2/noise.h
@@ -66,9 +66,9 @@ double noise_perlin_2d
   const int ig_ab = aP[aP[ix0]+iy1];
   const int ig_bb = aP[aP[ix1]+iy1];
   double gaa = grad2(  ux,  uy, ig_aa,aGrad);
-  double gba = grad2(1-ux,  uy, ig_ba,aGrad);
-  double gab = grad2(  ux,1-uy, ig_ab,aGrad);
-  double gbb = grad2(1-ux,1-uy, ig_bb,aGrad);
+  double gba = grad2(ux-1,  uy, ig_ba,aGrad);
+  double gab = grad2(  ux,uy-1, ig_ab,aGrad);
+  double gbb = grad2(ux-1,uy-1, ig_bb,aGrad);
   double fux = fade(ux);
   double fuy = fade(uy);
   //  std::cout << fux << " " << fuy << std::endl;
@@ -104,13 +104,13 @@ double noise_perlin_3d(
   const int ig_abb = aP[aP[aP[ix0]+iy1]+iz1];
   const int ig_bbb = aP[aP[aP[ix1]+iy1]+iz1];
   double gaaa = grad3(  ux,  uy,  uz, ig_aaa,aGrad);
-  double gbaa = grad3(1-ux,  uy,  uz, ig_baa,aGrad);
-  double gaba = grad3(  ux,1-uy,  uz, ig_aba,aGrad);
-  double gbba = grad3(1-ux,1-uy,  uz, ig_bba,aGrad);
-  double gaab = grad3(  ux,  uy,1-uz, ig_aab,aGrad);
-  double gbab = grad3(1-ux,  uy,1-uz, ig_bab,aGrad);
-  double gabb = grad3(  ux,1-uy,1-uz, ig_abb,aGrad);
-  double gbbb = grad3(1-ux,1-uy,1-uz, ig_bbb,aGrad);
+  double gbaa = grad3(ux-1,  uy,  uz, ig_baa,aGrad);
+  double gaba = grad3(  ux,uy-1,  uz, ig_aba,aGrad);
+  double gbba = grad3(ux-1,uy-1,  uz, ig_bba,aGrad);
+  double gaab = grad3(  ux,  uy,uz-1, ig_aab,aGrad);
+  double gbab = grad3(ux-1,  uy,uz-1, ig_bab,aGrad);
+  double gabb = grad3(  ux,uy-1,uz-1, ig_abb,aGrad);
+  double gbbb = grad3(ux-1,uy-1,uz-1, ig_bbb,aGrad);
   double fux = fade(ux);
   double fuy = fade(uy);
   double fuz = fade(uz);
-- 
2.43.0


From 6913d9d49283b19531a98bb78b1d15ca8d9092c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 141/160] fix: getColor gave a NaN colour for a colour map of
 zero width (constant field)

---
 include/delfem2/color.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/color.cpp b/include/delfem2/color.cpp
index 20b8eb6..71df74b 100644
--- a/include/delfem2/color.cpp
+++ b/include/delfem2/color.cpp
@@ -119,7 +119,7 @@ DFM2_INLINE delfem2::CColor delfem2::getColor(
     double val0 = colorMap[ic].first;
     double val1 = colorMap[ic + 1].first;
     if (val0 <= input && input <= val1) {
-      auto rp = (float) ((input - val0) / (val1 - val0));
+      auto rp = (val1 > val0) ? (float) ((input - val0) / (val1 - val0)) : 0.f;
       CColor color;
       delfem2::interpolateColor(color, rp, colorMap[ic].second, colorMap[ic + 1].second);
       return color;
-- 
2.43.0


From 04e886dc3f48b0961baceb7550a7cdaea4dfa8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 142/160] fix: Step_Lloyd2 wrote out of bounds when a pixel is
 farther than 2 from every point

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 0113c98..611f9d8 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -9,6 +9,7 @@
 #define DFM2_SAMPLER_H
 
 #include <vector>
+#include <cfloat>
 #include <climits>
 #include <cassert>
 
@@ -39,7 +40,7 @@ void Step_Lloyd2(
       const double ry0 = 1.0 - (ih + 0.5) / ndiv;
       const double x0 = min_aabb[0] + (max_aabb[0] - min_aabb[0]) * rx0;
       const double y0 = min_aabb[1] + (max_aabb[1] - min_aabb[1]) * ry0;
-      double min_dist = 4.0;
+      double min_dist = DBL_MAX;
       unsigned int min_ip = UINT_MAX;
       for (unsigned int ip = 0; ip < np; ++ip) {
         const double x1 = aXY[ip * 2 + 0];
-- 
2.43.0


From 35a9a269d68ce8db9778ecd01ffcdd9ca5cc268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 143/160] fix: Step_Lloyd2 moved points with an empty Voronoi
 cell to (1,1)

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 611f9d8..b5d4165 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -54,7 +54,7 @@ void Step_Lloyd2(
     }
   }
 
-  std::vector<double> awpw(np * 3, 1.0e-10);
+  std::vector<double> awpw(np * 3, 0.0);
   for (unsigned int ih = 0; ih < ndiv; ++ih) {
     for (unsigned int iw = 0; iw < ndiv; ++iw) {
       const double rx0 = (iw + 0.5) / ndiv;
@@ -70,6 +70,7 @@ void Step_Lloyd2(
   }
 
   for (unsigned int ip = 0; ip < np; ++ip) {
+    if (awpw[ip * 3 + 2] <= 0.0) { continue; }  // no weight in the Voronoi cell
     aXY[ip * 2 + 0] = awpw[ip * 3 + 0] / awpw[ip * 3 + 2];
     aXY[ip * 2 + 1] = awpw[ip * 3 + 1] / awpw[ip * 3 + 2];
   }
-- 
2.43.0


From 6d7e9d9881739aed3f0be40b79c42a687f958864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 144/160] fix: GrayscaleGradientSobel read out of bounds on
 images one pixel wide or high

---
 include/delfem2/cvimggraygrad.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/cvimggraygrad.cpp b/include/delfem2/cvimggraygrad.cpp
index 8e15f1e..4439b32 100644
--- a/include/delfem2/cvimggraygrad.cpp
+++ b/include/delfem2/cvimggraygrad.cpp
@@ -81,10 +81,10 @@ DFM2_INLINE void delfem2::GrayscaleGradientSobel(
   for(int iv = 0; iv < nv; ++iv){
     for (int iy1 = 0; iy1 < ny; ++iy1) {
       for (int ix1 = 0; ix1 < nx; ++ix1) {
-        const int ix0 = abs(ix1-1); // reflection
-        const int iy0 = abs(iy1-1); // reflection
-        const int ix2 = nx - 1 - ::abs(nx - 2 - ix1); // reflection
-        const int iy2 = ny - 1 - ::abs(ny - 2 - iy1); // reflection
+        const int ix0 = (nx == 1) ? 0 : abs(ix1-1); // reflection
+        const int iy0 = (ny == 1) ? 0 : abs(iy1-1); // reflection
+        const int ix2 = (nx == 1) ? 0 : nx - 1 - ::abs(nx - 2 - ix1); // reflection
+        const int iy2 = (ny == 1) ? 0 : ny - 1 - ::abs(ny - 2 - iy1); // reflection
         assert( ix0 >=0 && ix0 < nx );
         assert( iy0 >=0 && iy0 < ny );
         assert( ix1 >=0 && ix1 < nx );
-- 
2.43.0


From 028e0e720a380d70d4d7ec6d77209eaf9199d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 145/160] fix: the spherical harmonics of degree 9 and order 8
 had the wrong sign

---
 include/delfem2/specialfuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/specialfuncs.cpp b/include/delfem2/specialfuncs.cpp
index be53b69..cd145a1 100644
--- a/include/delfem2/specialfuncs.cpp
+++ b/include/delfem2/specialfuncs.cpp
@@ -211,7 +211,7 @@ DFM2_INLINE void delfem2::makeArray_SphericalHarmonics(
     double v5=-3.0/256*sqrt(2717*invpi)*(85*z4-30*z2+1); //5
     double v6=+1.0/128*sqrt(40755*invpi)*z*(17*z2-3); //6
     double v7=-3.0/512*sqrt(13585*invpi)*(17*z2-1); //7
-    double v8=-3.0/512*sqrt(230945*2*invpi)*z; //7
+    double v8=+3.0/512*sqrt(230945*2*invpi)*z; //8
     double v9=-1.0/512*sqrt(230945*invpi); //7
     Y[81] = v9*i9;
     Y[82] = v8*i8;
-- 
2.43.0


From c73a4d5e02d04565ae0aee5df85098984c4d4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 146/160] fix: AABB_CubeGrid took the size of the first cube's
 box from the x coordinate in every direction

---
 include/delfem2/gridcube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gridcube.cpp b/include/delfem2/gridcube.cpp
index 044379f..d0f0035 100644
--- a/include/delfem2/gridcube.cpp
+++ b/include/delfem2/gridcube.cpp
@@ -150,8 +150,8 @@ void delfem2::AABB_CubeGrid
     return;
   }
   aabb[0] = aCube[0].ivx;  aabb[1] = aabb[0]+1;
-  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[0]+1;
-  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[0]+1;
+  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[2]+1;
+  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[4]+1;
   
   for(std::size_t ic=1;ic<aCube.size();++ic){
     if( aCube[ic].ivx+0 < aabb[0] ){ aabb[0] = aCube[ic].ivx+0; }
-- 
2.43.0


From f3f73d9730c79aaaccbe1614e62ec35692e57cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 147/160] fix: Intersection_VoxelGrid_LinSeg asserted for
 segments parallel to an axis or starting on a voxel face, and did not end at
 edges and corners

---
 include/delfem2/gridvoxel.cpp | 68 ++++++++---------------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..1737c92 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -413,30 +413,6 @@ void delfem2::VoxelGeodesic
   }
 }
 
-namespace delfem2 {
-namespace gridvoxel {
-
-int signum(double x) {
-  return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
-}
-
-// Find the smallest positive t such that s+t*ds is an integer.
-double intbound(double s, double ds) {
-  if (ds < 0) {
-    return intbound(-s, -ds);
-  } else {
-    return (ceil(s) - s) / ds;
-  }
-}
-
-}
-}
-
-/**
- * @details this is the implementation of the following paper
- * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
- */
 void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
     const CGrid3<int> &grid,
@@ -461,41 +437,27 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
       static_cast<int>(floor(Pe.z))};
   int ic[3] = {is[0], is[1], is[2]};
   const dfm2::CVec3d direction = Pe - Ps;
-  const double dx = direction[0];
-  const double dy = direction[1];
-  const double dz = direction[2];
-  const int stepX = dfm2::gridvoxel::signum(dx);
-  const int stepY = dfm2::gridvoxel::signum(dy);
-  const int stepZ = dfm2::gridvoxel::signum(dz);
-  const double tDeltaX = stepX / dx;
-  assert(tDeltaX > 0);
-  const double tDeltaY = stepY / dy;
-  assert(tDeltaY > 0);
-  const double tDeltaZ = stepZ / dz;
-  assert(tDeltaZ > 0);
-  double tMaxX = dfm2::gridvoxel::intbound(Ps.x, dx);
-  assert(tMaxX > 0);
-  double tMaxY = dfm2::gridvoxel::intbound(Ps.y, dy);
-  assert(tMaxY > 0);
-  double tMaxZ = dfm2::gridvoxel::intbound(Ps.z, dz);
-  assert(tMaxZ > 0);
+  const double psa[3] = {Ps.x, Ps.y, Ps.z};
   aIndVox.clear();
-  for (int itr = 0; itr < 1000; ++itr) {
+  for (;;) {
     if (ic[0] >= 0 && ic[1] >= 0 && ic[2] >= 0 &&
         ic[0] < (int) nx && ic[1] < (int) ny && ic[2] < (int) nz) {
       aIndVox.push_back(ic[2] * ny * nx + ic[1] * nx + ic[0]);
     }
-    if (ic[0] == ie[0] && ic[1] == ie[1] && ic[2] == ie[2]) { break; }
-    if (tMaxX < tMaxY && tMaxX < tMaxZ) {
-      tMaxX = tMaxX + tDeltaX;
-      ic[0] += stepX;
-    } else if (tMaxY < tMaxX && tMaxY < tMaxZ) {
-      tMaxY = tMaxY + tDeltaY;
-      ic[1] += stepY;
-    } else if (tMaxZ < tMaxX && tMaxZ < tMaxY) {
-      tMaxZ = tMaxZ + tDeltaZ;
-      ic[2] += stepZ;
+    // step over the face the segment passes first, only along the axes where the last voxel is not reached yet
+    int idim_min = -1;
+    double t_min = 0.0;
+    for (int idim = 0; idim < 3; ++idim) {
+      if (ic[idim] == ie[idim]) { continue; }
+      const double face = (ic[idim] < ie[idim]) ? ic[idim] + 1 : ic[idim];
+      const double t = (face - psa[idim]) / direction[idim];
+      if (idim_min == -1 || t < t_min) {
+        idim_min = idim;
+        t_min = t;
+      }
     }
+    if (idim_min == -1) { break; }
+    ic[idim_min] += (ic[idim_min] < ie[idim_min]) ? 1 : -1;
   }
   /*
   std::cout << "hoge" << std::endl;
-- 
2.43.0


From 844e1ee98ac6e1b329e4694c0e9aad8c737d606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 148/160] fix: VoxelGeodesic kept the last instead of the
 shortest distance of a voxel given twice

---
 include/delfem2/gridvoxel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 1737c92..6a754c5 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -381,6 +381,7 @@ void delfem2::VoxelGeodesic
   for (const auto &idvox_dist: aIdvoxDist) {
     const unsigned int ivox0 = idvox_dist.first;
     const double dist0 = idvox_dist.second;
+    if (aDist[ivox0] >= 0 && aDist[ivox0] <= dist0) { continue; } // same voxel given with a shorter distance
     aNext.push(std::make_pair(dist0, ivox0));
     aDist[ivox0] = dist0;
   }
-- 
2.43.0


From 2d3996a9951602ef73aeb46db6d88ccec7f828cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 149/160] fix: normal of the adaptive distance field outside of
 the field faced inwards and was not a unit vector

---
 include/delfem2/isrf_adf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index b3886cf..9b4a26f 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -383,11 +383,11 @@ double delfem2::AdaptiveDistanceField3::Projection(
 {
   const CNode &no = aNode[0];
   if (fabs(px - no.cent_[0]) > no.hw_ || fabs(py - no.cent_[1]) > no.hw_ || fabs(pz - no.cent_[2]) > no.hw_) {
-    n[0] = no.cent_[0] - px;
-    n[1] = no.cent_[1] - py;
-    n[2] = no.cent_[2] - pz;
+    n[0] = px - no.cent_[0];
+    n[1] = py - no.cent_[1];
+    n[2] = pz - no.cent_[2];
     const double invlen = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
-    for (unsigned int i = 0; i < 3; i++) { n[0] *= invlen; }
+    for (unsigned int i = 0; i < 3; i++) { n[i] *= invlen; }
     return -no.hw_;
   }
   return no.FindDistNormal(px, py, pz, n, aNode);
-- 
2.43.0


From 53929074b8ac660e6a2c75caa5e887830b302a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 150/160] fix: distance from the adaptive distance field was
 wrong on the faces of its cells

---
 include/delfem2/isrf_adf.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index 9b4a26f..79a4ed5 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -696,9 +696,10 @@ double delfem2::AdaptiveDistanceField3::CNode::FindDistNormal
      double n[3],
      const std::vector<CNode> &aNo) const // normal outward
 {
-  if (fabs(px - cent_[0]) >= hw_
-      || fabs(py - cent_[1]) >= hw_
-      || fabs(pz - cent_[2]) >= hw_) {
+  const double hw1 = hw_ * (1. + 1.0e-10); // points on the faces of the cell are inside
+  if (fabs(px - cent_[0]) > hw1
+      || fabs(py - cent_[1]) > hw1
+      || fabs(pz - cent_[2]) > hw1) {
     n[0] = px - cent_[0];
     n[1] = py - cent_[1];
     n[2] = pz - cent_[2];
-- 
2.43.0


From cb1127ad220b58f7168359f335d524887681a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 151/160] fix: sparse skin weights kept stale entries when the
 output vectors were not empty

---
 include/delfem2/rig_geo3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index c9cef85..952e74d 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -89,8 +89,8 @@ void delfem2::SparsifyMatrixRow(
     }
     if (icnt > nbone_nonzeroweight) { nbone_nonzeroweight = icnt; }
   }
-  aWBone_RigSparse.resize(nbone_nonzeroweight * nrow);
-  aIdBone_RigSparse.resize(nbone_nonzeroweight * nrow);
+  aWBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0.0);
+  aIdBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0);
   for (unsigned int ip = 0; ip < nrow; ++ip) {
     unsigned icnt = 0;
     double w_sum = 0.0;
-- 
2.43.0


From 3d2662bbb393e0c1829597d54e5fd624dbf0eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 152/160] fix: reading a motion capture file with a blank line
 in its hierarchy read out of bounds

---
 include/delfem2/rig_bvh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 893f1a5..7a0354e 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -107,11 +107,12 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   std::string line;
   std::vector<int> stackIndBone;
   while (std::getline(fin, line)) {
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     bvh_header += (line + '\n');
     line = rig_bvh::MyReplace(line, '\t', ' ');
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
+    if (aToken.empty()) { continue; } // blank line
 //    std::cout << aToken[0] << std::endl;
     if (aToken[0] == "HIERARCHY") {
       assert(bones.empty());
@@ -200,8 +201,8 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   for (unsigned int iframe = 0; iframe < nframe; ++iframe) {
     std::getline(fin, line);
     line = rig_bvh::MyReplace(line, '\t', ' ');
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
 //    std::cout << aToken.size() << " " << aChannelRotTransBone.size() << std::endl;
     assert(aToken.size() == channels.size());
-- 
2.43.0


From 5488756c8db6be57a89f1143b992b260b4cff800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 153/160] fix: the two-view bundle adjustment header included a
 file that does not exist

---
 include/delfem2/cvbundleadjust.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/cvbundleadjust.h b/include/delfem2/cvbundleadjust.h
index e63814f..aaae7ff 100644
--- a/include/delfem2/cvbundleadjust.h
+++ b/include/delfem2/cvbundleadjust.h
@@ -1,8 +1,14 @@
 #ifndef DFM2_CVBUNDLEADJUST_H
 #define DFM2_CVBUNDLEADJUST_H
 
-#include "delfem2/geo3_v23m34q.h"
+#include <cassert>
+#include <iostream>
+#include <random>
 #include <vector>
+#include "delfem2/vec3.h"
+#include "delfem2/vec3_funcs.h"
+#include "delfem2/mat3.h"
+#include "delfem2/mat3_funcs.h"
 
 namespace delfem2 {
 
-- 
2.43.0


From a334ddcb9c2ec69fe4e0558ce7e58b520b236478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 154/160] fix: interpolation on a grid extrapolated for
 positions outside the grid

---
 include/delfem2/fdm_array2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fdm_array2.h b/include/delfem2/fdm_array2.h
index 44261aa..3f34b8c 100644
--- a/include/delfem2/fdm_array2.h
+++ b/include/delfem2/fdm_array2.h
@@ -77,8 +77,8 @@ double LinearInterpolationOnGrid2(
   double v10 = data(i + 1, j + 0)[idim];
   double v01 = data(i + 0, j + 1)[idim];
   double v11 = data(i + 1, j + 1)[idim];
-  double rx = x - i;
-  double ry = y - j;
+  double rx = x1 - i;
+  double ry = y1 - j;
   return (1 - rx) * (1 - ry) * v00 + rx * (1 - ry) * v10 + (1 - rx) * ry * v01 + rx * ry * v11;
 }
 
-- 
2.43.0


From 30bcc16512af00bd78d757b857367b1cb8b95c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 155/160] fix: Coons patches with Bezier edges called a
 function that does not exist

---
 include/delfem2/geo_surface_parametric.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index ce52a0a..c6ddd3a 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -26,12 +26,12 @@ template<typename T>
 T getPointCoonsQuad_CubicBezier(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   //
   T r = (1 - u) * (1 - v) * aP[0]
@@ -65,12 +65,12 @@ template<typename T>
 T getPointCoonsQuad_CubicBezierEdge(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   T r = (1 - u) * (1 - v) * aP[0]
     + u * (1 - v) * aP[3]
-- 
2.43.0


From b0543535c5850468fcb0d38f3d640457a4c5932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 156/160] fix: smoothing a direction field in random order left
 it unchanged

---
 include/delfem2/4rotsym.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..5336b29 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -129,7 +129,7 @@ void Smooth4RotSym_RandomPermutation(
       const CVec3d n1 = CVec3d(aNorm.data()+jp1*3);
       const CVec3d o1 = CVec3d(aOdir.data()+jp1*3);
       unsigned int idiff;
-      FindNearestOrientation(idiff,
+      o_new = FindNearestOrientation(idiff,
           o_new,n0, o1,n1,weight);
       weight += 1.0;
     }
-- 
2.43.0


From 44714632e08444355dfa30cdd92d98282e32276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 157/160] fix: the two-view bundle adjustment called functions
 that no longer exist

---
 include/delfem2/cvbundleadjust.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/cvbundleadjust.h b/include/delfem2/cvbundleadjust.h
index aaae7ff..a9f117f 100644
--- a/include/delfem2/cvbundleadjust.h
+++ b/include/delfem2/cvbundleadjust.h
@@ -64,9 +64,9 @@ void ReprojectionEnergyPoint(
   { // dEdr
     double tmp3[3];
     dfm2::MatTVec3(tmp3, K1Rt01, tmpXY[0]);
-    dfm2::Cross3(&dF[0][4], P1, tmp3);
+    dfm2::Cross(&dF[0][4], P1, tmp3);
     dfm2::MatTVec3(tmp3, K1Rt01, tmpXY[1]);
-    dfm2::Cross3(&dF[1][4], P1, tmp3);
+    dfm2::Cross(&dF[1][4], P1, tmp3);
   }
 }
 
@@ -139,7 +139,7 @@ void BundleAdjust_ImgPair_Stochastic(
     const dfm2::CMat3d R01b = dfm2::CMat3d(R01) * dR;
     const float E_B = ReprojectionEnergy(
         F, dF,
-        aPnt0, K0inv, aZ0, R01b.mat, t01b.p, K1, aPnt1);
+        aPnt0, K0inv, aZ0, R01b.p_, t01b.p, K1, aPnt1);
     if (E_B < E_A) { // fails. put it back..
       std::cout << E_B << std::endl;
       t01b.CopyTo(t01);
@@ -233,7 +233,7 @@ void BundleAdjust_CheckGrad(
       double dw[3] = {0, 0, 0};
       dw[idimt] += eps;
       double dR[9];
-      dfm2::Mat3_Rotation_Cartesian(dR, dw);
+      dfm2::Mat3_RotMatFromAxisAngleVec(dR, dw);
       double K1Rt01_B[9];
       dfm2::MatMatT3(K1Rt01_B, K1Rt01, dR);
       double FB[2], dFB[2][7];
-- 
2.43.0


From 115a8d7ba471bb9843f499aa74e83038a0275bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 158/160] fix: volume of a wedge used one corner twice and
 missed another

---
 include/delfem2/geosolidelm_v3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index b940348..c040dca 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -324,7 +324,7 @@ double delfem2::Volume_Wedge(
   double vm435 = Volume_Tet(pm, p4, p3, p5);
   double vp0143 = Volume_Pyramid(p0, p1, p4, p3, pm);
   double vp1254 = Volume_Pyramid(p1, p2, p5, p4, pm);
-  double vp2035 = Volume_Pyramid(p2, p2, p3, p5, pm);
+  double vp2035 = Volume_Pyramid(p2, p0, p3, p5, pm);
   return vm012 + vm435 + vp0143 + vp1254 + vp2035;
 }
 
-- 
2.43.0


From 662aab0ea75fbe14ab77212b103644d70cfa1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 159/160] fix: coordinates in pyramids and wedges did not
 compile

---
 include/delfem2/geosolidelm_v3.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index c040dca..2782ec2 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -11,6 +11,7 @@
 #include <stack>
 
 #include "delfem2/vec3_funcs.h"
+#include "delfem2/geo_tet.h"
 #include "delfem2/geo_tri.h"
 
 #ifndef M_PI
@@ -236,10 +237,12 @@ void delfem2::iteration_barycentricCoord_Origin_Solid(
   double C[9] = {cxx, cxy, cxz, cxy, cyy, cyz, cxz, cyz, czz};
   double Cinv[9];
   lcl::MyInverse_Mat3(Cinv, C);
-  const CVec3<T> d = damp * Mat3Vec(Cinv, q);
-  r0 -= dpdr0 * d;
-  r1 -= dpdr1 * d;
-  r2 -= dpdr2 * d;
+  CVec3<T> d;
+  lcl::MyMatVec3(d.p, Cinv, q.p);
+  d *= damp;
+  r0 -= dpdr0.dot(d);
+  r1 -= dpdr1.dot(d);
+  r2 -= dpdr2.dot(d);
 }
 
 template<typename T>
-- 
2.43.0


From 5637f35b50361cf489e39acf7f2978b5ae0cfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:59 +0000
Subject: [PATCH 160/160] fix: matrix-vector products of the deformers ignored
 the scale on the fixed points

---
 include/delfem2/defarap.cpp | 4 ++--
 include/delfem2/deflap.cpp  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/defarap.cpp b/include/delfem2/defarap.cpp
index 0d0c25d..9453af7 100644
--- a/include/delfem2/defarap.cpp
+++ b/include/delfem2/defarap.cpp
@@ -183,7 +183,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += weight_bc * alpha * vec[i];
   }
 }
 
@@ -297,7 +297,7 @@ void delfem2::CDef_ArapEdge::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += weight_bc * alpha * vec[i];
     //      y[np*3+i] += weight_bc*vec[np*3+i];
   }
 }
diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index efb93a8..63531cc 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -182,7 +182,7 @@ void delfem2::CDef_LaplacianLinearGram::MatVec
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += weight_bc * alpha * vec[i];
   }
 }
 
@@ -389,7 +389,7 @@ void delfem2::CDef_LaplacianLinear::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += weight_bc * alpha * vec[i];
   }
 }
 
@@ -566,7 +566,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += weight_bc * alpha * vec[i];
   }
 }
 
-- 
2.43.0

