From 9553531c81c37b44335e1d615144e8798b4ff156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 01/74] fix: evaluate rational curves from homogeneous control
 points like surfaces do

---
 cmmcore/nurbs_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..40a1899 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -133,8 +133,9 @@ namespace cmmcore {
 
         for (int i = 0; i < pp; ++i) {
             const int idx = span - p + i;
-            const double b = N[i] * P[idx].w;
-            sum_of_weights += b;
+            const double b = N[i];
+            // control points are homogeneous (x*w, y*w, z*w, w), as in surface_point
+            sum_of_weights += b * P[idx].w;
             result.x += b * P[idx].x;
             result.y += b * P[idx].y;
             result.z += b * P[idx].z;
-- 
2.43.0


From 80118f825003bf049366475344cb5634eff09c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/74] fix: compute basis derivatives for degrees above three

---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 40a1899..51e6393 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -163,18 +163,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, {});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>, CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>, 2> a{};
 
         ndu[0][0] = 1.0;
 
@@ -276,7 +276,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From f1e31010e72b8299270d0e26b4f91f8e915d1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 03/74] fix: apply the quotient rule to derivatives of rational
 curves and zero orders above the degree

---
 cmmcore/nurbs.h       | 20 +++++---------------
 cmmcore/nurbs_utils.h | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..55f27b2 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -329,12 +329,9 @@ namespace cmmcore {
             std::vector<vec4> CK(1);
 
             curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
-            auto der = CK[1];
-
-            //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
-            result.x = der.x;
-            result.y = der.y;
-            result.z = der.z;
+            std::vector<vec3> ders;
+            rat_curve_derivs(CK, 2, ders);
+            result = ders[1];
         }
 
 
@@ -379,17 +376,10 @@ namespace cmmcore {
 
         void derivative(const double t, std::vector<vec3> &result, const size_t d) const {
             int n = static_cast<int>(control_points.size()) - 1;
-            result.resize(d);
 
-            std::vector<vec4> CK(result.size());
+            std::vector<vec4> CK;
             curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
-            for (int i = 0; i < d; ++i) {
-                auto &der = CK[i];
-                auto &target = result[i];
-                target.x = der.x;
-                target.y = der.y;
-                target.z = der.z;
-            }
+            rat_curve_derivs(CK, d, result);
         }
 
         void derivative(const double t, std::vector<vec3> &result) const {
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 51e6393..cf43304 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -298,6 +298,30 @@ namespace cmmcore {
         }
     }
 
+    /**
+     * @brief Compute the derivatives of a rational curve from its homogeneous derivatives.
+     *
+     * @param CKw Homogeneous derivatives; orders that are not present are zero.
+     * @param count Number of derivatives to compute (orders 0 to count - 1).
+     * @param CK Output vector of Euclidean derivatives.
+     */
+    inline void rat_curve_derivs(const std::vector<vec4> &CKw, const size_t count, std::vector<vec3> &CK) {
+        CK.assign(count, vec3(0.0, 0.0, 0.0));
+        for (size_t k = 0; k < count; ++k) {
+            vec3 v(0.0, 0.0, 0.0);
+            if (k < CKw.size()) {
+                v.set(CKw[k].x, CKw[k].y, CKw[k].z);
+            }
+            for (size_t i = 1; i <= k && i < CKw.size(); ++i) {
+                const double f = binomial_coefficient(k, i) * CKw[i].w;
+                v.x -= f * CK[k - i].x;
+                v.y -= f * CK[k - i].y;
+                v.z -= f * CK[k - i].z;
+            }
+            CK[k].set(v.x / CKw[0].w, v.y / CKw[0].w, v.z / CKw[0].w);
+        }
+    }
+
     /**
      * @brief Compute control points of curve derivatives.
      *
-- 
2.43.0


From 8dca059e442447ee0c40f0b52713715cdcc646aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 04/74] fix: second_derivative_fdm returned the first
 derivative

---
 cmmcore/nurbs.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 55f27b2..9989967 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -412,11 +412,8 @@ namespace cmmcore {
          \frac{d^2 f(t)}{dt^2} \approx \frac{f(t + h) - 2f(t) + f(t - h)}{h^2}
          */
         void second_derivative_fdm(const double t, vec3 &result) const {
-            vec3 temp;
-            evaluate(t - 1e-5, temp);
-            evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            vec3 d0, d1;
+            derivatives(t, d0, d1, result);
         }
 
 
-- 
2.43.0


From ad7c294a9b31e3e02107445bcf5c3adda978809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 05/74] fix: keep the periodic flag when a curve is moved

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 9989967..fb651a7 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From fef7cc751f58e3464edc1caee0758553e863375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/74] fix: refresh the bounding box when a curve's control
 points change

---
 cmmcore/boundary_intersection.h | 2 ++
 cmmcore/nurbs.h                 | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..0e2596f 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -63,6 +63,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -95,6 +96,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             }
             crv.control_points[i] = point;
         }
+        crv.rebuildAABB();
 
         return crv;
     }
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index fb651a7..1cb70fb 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -263,6 +263,7 @@ namespace cmmcore {
             // Update curve
             knots = std::move(k_v);
             update_interval();
+            rebuildAABB();
         }
 
         // Split the curve at a given parameter value
@@ -434,6 +435,7 @@ namespace cmmcore {
                                  derivative.control_points);
 
             derivative.update_interval();
+            derivative.rebuildAABB();
         }
 
         NURBSCurve get_derivative() const {
@@ -441,6 +443,7 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            derivative.rebuildAABB();
             return derivative;
         }
 
@@ -476,6 +479,7 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            rebuildAABB();
         }
 
         int get_degree() const {
@@ -1206,6 +1210,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i] = point;
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1239,6 +1244,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     }
                     crv.control_points[i] = point;
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From c5e736c331da88994e2062a0ac479b4056f063aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 07/74] fix: V isocurves keep the surface's u knot vector

---
 cmmcore/boundary_intersection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 0e2596f..32e744e 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -87,6 +87,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        crv.knots = surface._knots_u;
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
-- 
2.43.0


From fcf5ed08e70a2fb0816efeb93af2a32a8560ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 08/74] fix: surface get_derivative left size, domain and
 weights unset

---
 cmmcore/nurbs.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 1cb70fb..ef41b2d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1152,6 +1152,14 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._degree = new_degrees;
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            // the derivative of a unit-weight surface is again a unit-weight surface
+            for (auto &row: result._control_points) {
+                for (auto &pt: row) {
+                    pt.w = 1.;
+                }
+            }
+            result._size = {result._control_points.size(), result._control_points[0].size()};
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From b8bd00fad035d00c0459ad9179b3b2dbbd6da331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 09/74] fix: fill the bounding box that NURBSSurface::aabb()
 reports

---
 cmmcore/nurbs.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index ef41b2d..0f49987 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -723,6 +723,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
@@ -749,6 +750,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         std::array<size_t, 2> &shape() {
@@ -857,6 +859,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _size[0] += count;
 
                 _knots_u = kv;
+                rebuildAABB();
             } else {
                 insert_knot_v(t, count);
             }
@@ -884,6 +887,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             _knots_v = std::move(k_v);
             _size[1] = new_count_v;
             update_interval();
+            rebuildAABB();
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
@@ -1067,6 +1071,10 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             return _aabb;
         }
 
+        void rebuildAABB() {
+            _aabb = bbox();
+        }
+
         AABB &bbox() {
             _bbox.min.set(_control_points[0][0].to_vec3());
             _bbox.max.set(_control_points[0][0].to_vec3());
@@ -1160,6 +1168,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             }
             result._size = {result._control_points.size(), result._control_points[0].size()};
             result.update_interval();
+            result.rebuildAABB();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 0ebdb7e00bcda3c36e8fc7b5acfb5e7497e29815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 10/74] fix: compute vector lengths in double precision

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..9c2cee7 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,7 +415,7 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
@@ -948,7 +948,7 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
-- 
2.43.0


From d1a5e10c429c2f4c684df233b7bc6976886fa82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/74] fix: normalise vectors shorter than one

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9c2cee7..d5f2947 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -419,7 +419,7 @@ struct vec3 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::fabs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -954,7 +954,7 @@ struct vec4 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::fabs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From b8a03b79c53ad232b9e2e380aa2ec3620682a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/74] fix: batch dot product read and wrote one element past
 the end

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index d5f2947..1528767 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
-- 
2.43.0


From 9d1eab38f4b3a49f3d77790a007aec3915df285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 13/74] fix: mag2 and dist did not square the components

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 1528767..d693e45 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return (a-b).length();
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
-- 
2.43.0


From 7789eed5f98ddbea1c7ab1514ca8ac722b0adaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 14/74] fix: include the fourth component in vec4 equality, dot
 and add

---
 cmmcore/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index d693e45..cce35ab 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
@@ -842,7 +843,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
@@ -929,6 +930,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From c8d644e331f19e4a5f598ba0d5e8c43c3a191693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:53 +0000
Subject: [PATCH 15/74] fix: vec4 cross product mixed up its operands

---
 cmmcore/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index cce35ab..644c76e 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -858,9 +858,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
-- 
2.43.0


From 1dc5834d40fdf5407fc47541a5046753aedc119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 16/74] fix: drop only boundary intersections that coincide
 within the tolerance

---
 cmmcore/boundary_intersection.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 32e744e..eef9966 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -281,21 +281,19 @@ inline void find_boundary_intersections(
     
     // Remove duplicate points (within tolerance)
 
-    auto unique_points=Vec3Set();
     const size_t sx=intersection_points.size();
     for (int i = sx- 1; i >= 0; --i) {
 
 
-        auto& point=intersection_points[i];
-
-        if (!contains(unique_points, point.point))
-        {
-            unique_points.emplace(point.point);
-            continue;
-
+        const vec3 point=intersection_points[i].point;
+        bool duplicate = false;
+        for (size_t j = i + 1; j < intersection_points.size() && !duplicate; ++j) {
+            duplicate = point.distance(intersection_points[j].point) <= tol;
         }
 
-        intersection_points.erase(intersection_points.begin()+i);
+        if (duplicate) {
+            intersection_points.erase(intersection_points.begin()+i);
+        }
 
 
     }
-- 
2.43.0


From 83e5e71f0a8f7686ad7942f7ece8d489e0d9a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 17/74] fix: quantise hashed coordinates to decimal places
 instead of fifteenths

---
 cmmcore/cm_hash.h | 16 ++++++++++------
 cmmcore/polygon.h |  8 ++++----
 cmmcore/vec.h     | 20 ++++++++++----------
 cmmcore/vec.pxd   |  2 +-
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/cmmcore/cm_hash.h b/cmmcore/cm_hash.h
index f81d10b..573bf12 100644
--- a/cmmcore/cm_hash.h
+++ b/cmmcore/cm_hash.h
@@ -4,7 +4,10 @@
 
 #ifndef CMMCORE_HASH_H
 #define CMMCORE_HASH_H
+#include <cmath>
+#include <functional>
 #include <unordered_set>
+#include <utility>
 #ifdef CYTHON_ABI
 #include "cm_limits.h"
 #else
@@ -16,9 +19,10 @@ namespace cmmcore
     // Quantize to CMMCORE_DECIMALS decimal places
     static std::hash<double> doubleHash;
 
-    inline int quantize(const double value, const int decimals)
+    inline double quantize(const double value, const int decimals)
     {
-        return static_cast<int>(value * decimals);
+        // + 0.0 turns -0.0 into 0.0
+        return std::round(value * std::pow(10.0, decimals)) + 0.0;
     }
 
     namespace _hashimpl
@@ -27,10 +31,10 @@ namespace cmmcore
         {
             size_t operator()(const std::pair<double, double>& v) const
             {
-                int qx = quantize(v.first, CMMCORE_DECIMALS);
-                int qy = quantize(v.first,CMMCORE_DECIMALS);
-                size_t h1 = std::hash<int>()(qx);
-                size_t h2 = std::hash<int>()(qy);
+                double qx = quantize(v.first, CMMCORE_DECIMALS);
+                double qy = quantize(v.second,CMMCORE_DECIMALS);
+                size_t h1 = std::hash<double>()(qx);
+                size_t h2 = std::hash<double>()(qy);
                 return h1 ^ (h2 << 1);
             }
         };
diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index a090fde..e886ed3 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -21,10 +21,10 @@ namespace cmmcore{
         bool operator()(const vec2& a) const {
             auto _a=a.unit();
 
-            auto _x=quantize(_a.x,std::numeric_limits<double>::digits10);
-            auto _y=quantize(_a.y,std::numeric_limits<double>::digits10);
-            auto _x1=quantize(-_a.x,std::numeric_limits<double>::digits10);
-            auto _y1=quantize(-_a.y,std::numeric_limits<double>::digits10);
+            auto _x=static_cast<long long>(quantize(_a.x,std::numeric_limits<double>::digits10));
+            auto _y=static_cast<long long>(quantize(_a.y,std::numeric_limits<double>::digits10));
+            auto _x1=static_cast<long long>(quantize(-_a.x,std::numeric_limits<double>::digits10));
+            auto _y1=static_cast<long long>(quantize(-_a.y,std::numeric_limits<double>::digits10));
 
             return   std::max(_x ^ (_y << 1),    _x1 ^ (_y1 << 1));
 
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 644c76e..10941db 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -470,10 +470,10 @@ struct vec3 {
 
   struct Vec2Hash {
     size_t operator()(const vec2& v) const {
-      int qx = quantize(v.x, CMMCORE_DECIMALS);
-      int qy = quantize(v.y,CMMCORE_DECIMALS);
-      size_t h1 = std::hash<int>()(qx);
-      size_t h2 = std::hash<int>()(qy);
+      double qx = quantize(v.x, CMMCORE_DECIMALS);
+      double qy = quantize(v.y,CMMCORE_DECIMALS);
+      size_t h1 = std::hash<double>()(qx);
+      size_t h2 = std::hash<double>()(qy);
       return h1 ^ (h2 << 1) ;
     }
 
@@ -492,12 +492,12 @@ struct vec3 {
 
 struct Vec3Hash {
   size_t operator()(const vec3& v) const {
-    int qx = quantize(v.x, CMMCORE_DECIMALS);
-    int qy = quantize(v.y,CMMCORE_DECIMALS);
-    int qz = quantize(v.z,CMMCORE_DECIMALS);
-    size_t h1 = std::hash<int>()(qx);
-    size_t h2 = std::hash<int>()(qy);
-    size_t h3 = std::hash<int>()(qz);
+    double qx = quantize(v.x, CMMCORE_DECIMALS);
+    double qy = quantize(v.y,CMMCORE_DECIMALS);
+    double qz = quantize(v.z,CMMCORE_DECIMALS);
+    size_t h1 = std::hash<double>()(qx);
+    size_t h2 = std::hash<double>()(qy);
+    size_t h3 = std::hash<double>()(qz);
     return h1 ^ (h2 << 1) ^ (h3 << 2);
   }
 
diff --git a/cmmcore/vec.pxd b/cmmcore/vec.pxd
index 40cafb1..abeb97d 100644
--- a/cmmcore/vec.pxd
+++ b/cmmcore/vec.pxd
@@ -128,7 +128,7 @@ cdef extern from "vec.h" namespace "cmmcore" nogil:
         vec4 unit() const
 
     # Function prototypes
-    int quantize(double value, int decimals)
+    double quantize(double value, int decimals)
     string format_vec3(const vec3& v)
     string format_vec3vec(vector[vec3]& vecs)
     double dot_product(const vec3& a, const vec3& b)
-- 
2.43.0


From 13ad8e78e7bd0448b81940a07192de225b1031ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:33 +0000
Subject: [PATCH 18/74] fix: knot_removal dropped the last control points
 instead of the removed ones

---
 cmmcore/nurbs_utils.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index cf43304..0334691 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -847,6 +847,22 @@ namespace cmmcore {
         }
 
         int t_total = num;
+
+        // Shift the remaining control points over the removed ones
+        int j = (2 * r - s - degree) / 2;
+        int i = j;
+        for (int k = 1; k < t_total; ++k) {
+            if (k % 2 == 1) {
+                i += 1;
+            } else {
+                j -= 1;
+            }
+        }
+        for (int k = i + 1; k <= n; ++k) {
+            ctrlpts_new[j] = ctrlpts_new[k];
+            j += 1;
+        }
+
         int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
 
         ctrlpts_new.resize(new_size);
-- 
2.43.0


From bcdd1759f300a52be162f9bc8cb3f0c2183487bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 19/74] fix: split and insert at parameters that differ from a
 knot only by rounding

---
 cmmcore/nurbs.h       | 10 ++++++++--
 cmmcore/nurbs_utils.h | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 0f49987..3980dc7 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -242,6 +242,7 @@ namespace cmmcore {
 
         // Insert knots into the curve
         void insert_knot(double t, int count) {
+            t = snap_to_knot(t, knots);
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
             const std::vector<vec4> cpts = control_points;
@@ -267,11 +268,12 @@ namespace cmmcore {
         }
 
         // Split the curve at a given parameter value
-        std::pair<NURBSCurve, NURBSCurve> split(const double param, const bool normalize_knots = false) const {
+        std::pair<NURBSCurve, NURBSCurve> split(double param, const bool normalize_knots = false) const {
             if (param <= _interval[0] || param >= _interval[1] ||
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
             }
+            param = snap_to_knot(param, knots);
             int n_ctrlpts = static_cast<int>(control_points.size());
             auto ks = find_span(n_ctrlpts, _degree, param, knots, false) - _degree + 1;
             int s = find_multiplicity(param, knots);
@@ -834,8 +836,9 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result.normalize();
         }
 
-        void insert_knot(const double t, const int direction, const int count) {
+        void insert_knot(double t, const int direction, const int count) {
             if (direction == 0) {
+                t = snap_to_knot(t, _knots_u);
                 int s = find_multiplicity(t, _knots_u);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
@@ -870,6 +873,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         void insert_knot_v(double t, int count) {
+            t = snap_to_knot(t, _knots_v);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
@@ -895,6 +899,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
+            param = snap_to_knot(param, _knots_u);
             int ks = find_span(static_cast<int>(_size[0] - 1), _degree[0], param, _knots_u, false) - _degree[0] + 1;
             int s = find_multiplicity(param, _knots_u);
 
@@ -927,6 +932,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
+            param = snap_to_knot(param, _knots_v);
             int ks = find_span(static_cast<int>(_size[1] - 1), _degree[1], param, _knots_v, false) - _degree[1] + 1;
             int s = find_multiplicity(param, _knots_v);
             int r = _degree[1] - s;
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 0334691..ae5e850 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -617,6 +617,24 @@ namespace cmmcore {
         return mult;
     }
 
+    /**
+     * @brief Returns the knot that find_multiplicity identifies with the parameter, or the parameter itself.
+     *
+     * Knot insertion needs a parameter whose span and multiplicity agree, so a parameter that differs
+     * from a knot only by rounding has to be replaced by this knot.
+     *
+     * @param param The parameter value.
+     * @param knot_vector The knot vector.
+     */
+    inline double snap_to_knot(const double param, const std::vector<double> &knot_vector) noexcept {
+        for (const auto &kv: knot_vector) {
+            if (std::fabs(param - kv) <= 1e-12) {
+                return kv;
+            }
+        }
+        return param;
+    }
+
     /**
  * @brief Computes the alpha value for knot insertion.
  *
-- 
2.43.0


From 28da9d261eb301163c41bd14cd42eeb2bafb9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 20/74] fix: integrate arc length span by span so speed jumps
 at knots are not missed

---
 cmmcore/nurbs.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 3980dc7..98bddd6 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -340,17 +340,33 @@ namespace cmmcore {
 
 
         double length(const double t0, const double t1, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
+            // The speed may jump or kink at a knot, so each knot span is integrated on its own. The right end of a
+            // span is approached from the left, where the one-sided derivative belongs to this span.
+            if (t0 > t1) {
+                return -length(t1, t0, tol);
+            }
             double result = 0.0;
-            double error = 0.0;
-
-            integrate([this](const double t)-> double {
-                          vec3 der;
-                          derivative(t, der);
-                          return der.length();
-                      },
-                      t0, t1,
-                      result,
-                      error, tol);
+            double start = t0;
+            const auto integrate_span = [&](const double end) {
+                double span_result = 0.0;
+                double span_error = 0.0;
+                integrate([this](const double t)-> double {
+                              vec3 der;
+                              derivative(t, der);
+                              return der.length();
+                          },
+                          start, end,
+                          span_result,
+                          span_error, tol);
+                result += span_result;
+            };
+            for (const double knot: knots) {
+                if (knot > start && knot < t1) {
+                    integrate_span(std::nextafter(knot, start));
+                    start = knot;
+                }
+            }
+            integrate_span(t1);
 
             return result;
         }
-- 
2.43.0


From fcb138af9c0f36cbdd73dc8eeada38008775c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 21/74] fix: curve-curve intersection missed planar curves
 whose boxes differ by rounding

---
 cmmcore/ccx.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index ef226fb..5946936 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -95,7 +95,11 @@ namespace cmmcore {
         auto &bb2 = c2.aabb();
         auto iv1 = c1.interval();
         auto iv2 = c2.interval();
-        if (bb1.intersects(bb2)) {
+        // The pieces carry rounding errors, and the boxes of planar curves can be flat: leave a margin well below the
+        // tolerance, otherwise curves that meet exactly are missed.
+        const double margin = 1e-3 * tol;
+        const AABB inflated(bb1.min - vec3(margin, margin, margin), bb1.max + vec3(margin, margin, margin));
+        if (inflated.intersects(bb2)) {
             if ((bb1.max - bb1.min).length() < tol && (bb2.max - bb2.min).length() < tol) {
                 size_t l = result.size();
                 double _first = 0.5 * (iv1[0] + iv1[1]);
-- 
2.43.0


From 9970231f0c1c3b2231f3bcb0c0d71adf56e81bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 22/74] fix: hash polygon normals without shifting negative
 values

---
 cmmcore/polygon.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index e886ed3..5648564 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -21,10 +21,11 @@ namespace cmmcore{
         bool operator()(const vec2& a) const {
             auto _a=a.unit();
 
-            auto _x=static_cast<long long>(quantize(_a.x,std::numeric_limits<double>::digits10));
-            auto _y=static_cast<long long>(quantize(_a.y,std::numeric_limits<double>::digits10));
-            auto _x1=static_cast<long long>(quantize(-_a.x,std::numeric_limits<double>::digits10));
-            auto _y1=static_cast<long long>(quantize(-_a.y,std::numeric_limits<double>::digits10));
+            // The shifts are done on unsigned values: shifting a negative value is undefined.
+            auto _x=static_cast<unsigned long long>(static_cast<long long>(quantize(_a.x,std::numeric_limits<double>::digits10)));
+            auto _y=static_cast<unsigned long long>(static_cast<long long>(quantize(_a.y,std::numeric_limits<double>::digits10)));
+            auto _x1=static_cast<unsigned long long>(static_cast<long long>(quantize(-_a.x,std::numeric_limits<double>::digits10)));
+            auto _y1=static_cast<unsigned long long>(static_cast<long long>(quantize(-_a.y,std::numeric_limits<double>::digits10)));
 
             return   std::max(_x ^ (_y << 1),    _x1 ^ (_y1 << 1));
 
-- 
2.43.0


From ac80f915bf6210e29aaa10acf9e42cb80d418c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 23/74] fix: curve-surface intersection skipped piece pairs,
 pruned wrongly and threw on end points

---
 cmmcore/csx.h          | 100 ++++++++++++++++++++++++-----------------
 cmmcore/gjk.h          |   3 +-
 cmmcore/separability.h |  66 +++++++++------------------
 3 files changed, 81 insertions(+), 88 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..cf680c1 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -101,54 +101,58 @@ namespace cmmcore {
                 _curve_surface_intersect(curve2, surface4);
             } else {
                 auto [point, params] = new_point.value();
-                double t = params[0], u = params[1], v = params[2];
 
-
-
-                if (_is_degenerate(params, curve, surface)) {
-                    intersections.emplace_back(CSXType::DEGENERATE, point, params);
-                } else {
-                    intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
+                if (!_is_known(point, params)) {
+                    if (_is_degenerate(params, curve, surface)) {
+                        intersections.emplace_back(CSXType::DEGENERATE, point, params);
+                    } else {
+                        intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
+                    }
                 }
-                if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
-                    return;
-                                }
-                // Add spherical separability check
-
 
-                // Split curve and surface at intersection point
-                auto [curve1, curve2] = curve.split(t, false); // normalize_knots=false
-                auto surfaces = surface.subdivide(u, v); // normalize_knots=false
+                // Split curve and surface at the intersection point. Where it lies on an edge of this piece there is
+                // nothing to split off, so that direction is halved instead.
+                const auto split_param = [&](const double param, const std::array<double, 2> &interval) {
+                    return std::abs(param - interval[0]) < ptol || std::abs(param - interval[1]) < ptol
+                               ? 0.5 * (interval[0] + interval[1])
+                               : param;
+                };
+                auto [curve1, curve2] = curve.split(split_param(params[0], curve._interval), false); // normalize_knots=false
+                auto surfaces = surface.subdivide(split_param(params[1], surface._interval[0]),
+                                                  split_param(params[2], surface._interval[1])); // normalize_knots=false
 
                 // Recursively check each combination
                 for (const auto& s : surfaces) {
-
-
-                        std::vector<vec3> curve_points = curve1.get_control_points3d();
-                        std::vector<vec3> surface_points = s.control_points_flat3d();
-
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
+                    std::vector<vec3> surface_points = s.control_points_flat3d();
+                    for (const NURBSCurve *c : {&curve1, &curve2}) {
+                        std::vector<vec3> curve_points = c->get_control_points3d();
+                        // Pieces that share the corner at the intersection point and whose projections onto the
+                        // sphere around it are disjoint meet nowhere else.
+                        if (_is_corner(params, *c, s) &&
+                            SphericalCentralProjectionTest2(point, curve_points, surface_points, tolerance)) {
                             continue;
-
-                        }else{
-                            _curve_surface_intersect(curve1, s);
-
+                        }
+                        _curve_surface_intersect(*c, s);
                     }
-                    std::vector<vec3> curve_points2 = curve2.get_control_points3d();
-
-
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
-                        continue;
-
-                    }else{
-                        _curve_surface_intersect(curve2, s);
-
-                    }
-
+                }
+            }
+        }
 
+        bool _is_known(const vec3 &point, const Vector<3> &params) const {
+            for (const auto &[type, known_point, known_params] : intersections) {
+                if ((point - known_point).length() <= tolerance && std::abs(params[0] - known_params[0]) <= 2 * ptol) {
+                    return true;
                 }
             }
+            return false;
+        }
+
+        bool _is_corner(const Vector<3> &params, const NURBSCurve &curve, const NURBSSurface &surface) const {
+            const auto at_end = [&](const double param, const std::array<double, 2> &interval) {
+                return std::abs(param - interval[0]) < ptol || std::abs(param - interval[1]) < ptol;
+            };
+            return at_end(params[0], curve._interval) && at_end(params[1], surface._interval[0]) &&
+                   at_end(params[2], surface._interval[1]);
         }
 
         bool _no_new_intersections(const NURBSCurve &curve, const NURBSSurface &surface) const {
@@ -173,8 +177,9 @@ namespace cmmcore {
             auto equation = [&](const Vector<3> &params) -> double {
                 // First validate parameters are in range
                     vec3 curve_pt, surface_pt;
-                    curve.evaluate(params[0], curve_pt);
-                    surface.evaluate(params[1], params[2], surface_pt);
+                    // The pieces may have arbitrarily short knot spans, so outside of them only the originals are reliable.
+                    _curve.evaluate(params[0], curve_pt);
+                    _surface.evaluate(params[1], params[2], surface_pt);
                     const auto d = (curve_pt - surface_pt);
                     return d.sqLength();
 
@@ -186,10 +191,15 @@ namespace cmmcore {
 
             auto result = newtonsMethod<3>(equation, initial_guess,ptol, 15);
 
+            // An intersection on the border of this piece is found up to the parameter tolerance only.
+            _snap_to_interval(result[0], curve._interval);
+            _snap_to_interval(result[1], surface._interval[0]);
+            _snap_to_interval(result[2], surface._interval[1]);
+
             if (_is_valid_parameter(result, curve._interval, surface._interval)) {
                 vec3 curve_pt, surface_pt;
-                curve.evaluate(result[0], curve_pt);
-                surface.evaluate(result[1], result[2], surface_pt);
+                _curve.evaluate(result[0], curve_pt);
+                _surface.evaluate(result[1], result[2], surface_pt);
                 if ((curve_pt - surface_pt).length() <= tolerance) {
                     return std::make_pair(curve_pt, result);
                 }
@@ -198,6 +208,14 @@ namespace cmmcore {
             return std::nullopt;
         }
 
+        void _snap_to_interval(double &param, const std::array<double, 2> &interval) const {
+            if (param < interval[0] && param > interval[0] - ptol) {
+                param = interval[0];
+            } else if (param > interval[1] && param < interval[1] + ptol) {
+                param = interval[1];
+            }
+        }
+
         bool _is_valid_parameter(const Vector<3> &params, const std::array<double, 2> &curve_interval,
                                  const std::array<std::array<double, 2>, 2> &surface_interval) {
             return (params[0] >= curve_interval[0] && params[0] <= curve_interval[1]) &&
diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 79921e9..45a4f7d 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -234,7 +234,8 @@ inline bool GJK(const std::vector<vec3>&verticesA,
 
     while (iterations++ < maxIterations) {
         point = support(verticesA, verticesB, direction);
-        if (point.dot(direction) < 0) {
+        // A gap within the tolerance may be nothing but rounding of shapes that touch
+        if (point.dot(direction) < -tolerance * direction.length()) {
             // No collision
             // Compute the closest point to the origin on the simplex
             closestPointToOrigin = closestPointOnSimplex(simplex);
diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c80cbe9..f847b74 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -394,62 +394,36 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
      * сферу.
      * */
 
-  inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
+  inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2, const double tol=std::numeric_limits<double>::epsilon()) {
 
+    // A plane through the origin separates the two projections exactly if the origin is outside of the convex hull of
+    // the first set of directions together with the opposites of the second.
+    std::vector<vec3> directions;
+    directions.reserve(pts1.size()+pts2.size());
 
     for (size_t i=0;i<pts1.size();i++)
     {
-
-      centerProjectionToXY(origin, pts1[i].unit(),poly1[i]);
+      const vec3 direction=pts1[i]-origin;
+      if (direction.length()>tol)
+      {
+        directions.push_back(direction.unit());
+      }
     }
     for (size_t j=0;j<pts2.size();j++)
     {
-      centerProjectionToXY(origin, pts2[j].unit(),poly2[j]);
-
-    }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-    auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
-    }
-    if (h2.empty())
-    {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
+      const vec3 direction=origin-pts2[j];
+      if (direction.length()>tol)
+      {
+        directions.push_back(direction.unit());
+      }
     }
-    printf("],[");
-    for (auto& p:h2)
+    if (directions.empty())
     {
-      printf("[%f,%f],", p.x,p.y);
+      return true;
     }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
+    std::vector<vec3> simplex;
+    vec3 cpt;
+    return !GJK(directions,{vec3(0.,0.,0.)},simplex,cpt);
 
   }
   }
-- 
2.43.0


From a9cd5b3042733c89442cf3d1433a38359206a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 24/74] fix: initialise quick_hull's dimension members before
 they are read

---
 cmmcore/_convexhull/quickhull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c412040..077d5d8 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -76,8 +76,8 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
-        size_type affine_dim_; // New member variable to store the affine dimension
-        bool lower_dimensional_hull_; // Flag to indicate a lower-dimensional hull
+        size_type affine_dim_ = 0; // New member variable to store the affine dimension
+        bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
     public :
         quick_hull(size_type, value_type const &&) = delete; // bind eps to lvalue only
-- 
2.43.0


From babba76ed1127eb3faf22eb9cb13abef7f066b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 25/74] fix: do not drop surface pairs whose boxes overlap
 thinly in detectIntersections

---
 cmmcore/ssx.h | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..b540ccf 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -200,19 +200,6 @@ namespace cmmcore
             return;
         }
 
-        AABB aabb1;
-        bb1.intersection(bb2, aabb1);
-        auto _dims = (aabb1.max - aabb1.min);
-
-        if ((aabb1.volume() < tol || std::abs(_dims.x) <= tol) || (std::abs(_dims.y) <= tol) || (std::abs(_dims.z) <=
-            tol))
-        {
-#ifdef CMMCORE_DEBUG
-            printf("a surface is planar. depth: %d\n", depth);
-            printf("[[%f,%f,%f],[%f,%f,%f]],[[%f,%f,%f],[%f,%f,%f]]\n", bb1.min.x, bb1.min.y, bb1.min.z,bb1.max.x, bb1.max.y, bb1.max.z,bb2.min.x, bb2.min.y,bb2.min.z,bb2.max.x,bb2.max.y,bb2.max.z);
-#endif
-            return;
-        }
         if (SAT3D(surface1.control_points_flat3d(), surface2.control_points_flat3d(), tol))
         {
 #ifdef CMMCORE_DEBUG
-- 
2.43.0


From d6d1ea3a46d051467011787beb2d54f9a497b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 26/74] fix: test separation on the points themselves in SAT3D,
 flat sets aborted in the hull

---
 cmmcore/separability.h | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index f847b74..c4f43f2 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -220,33 +220,18 @@ namespace cmmcore
     };
     */
   inline bool SAT3D(const std::vector<vec3>& pts1,const std::vector<vec3>& pts2, const double eps=std::numeric_limits<double>::epsilon()) {
-    std::vector<vec3> hull1,hull2;
 #ifdef CMMCORE_DEBUG
     auto t=Timer(1);
-    t.start();
-#endif
-
-    convex_hull3d(pts1,hull1);
-#ifdef CMMCORE_DEBUG
-    t.stop();
-    t.print("convex_hull3d at: ");
-    t.start();
-#endif
-
-
-    convex_hull3d(pts2,hull2);
-#ifdef CMMCORE_DEBUG
-    t.stop();
-    t.print("convex_hull3d at: ");
 #endif
 
+    // GJK only asks for support points, so it does not need the hulls, which are not defined for flat or collinear sets
     std::vector<vec3>  simplex;
     vec3 closestPointToOrigin;
 #ifdef CMMCORE_DEBUG
     t.start();
 #endif
 
-    GJK(hull1,hull2, simplex,closestPointToOrigin,eps);
+    GJK(pts1,pts2, simplex,closestPointToOrigin,eps);
 #ifdef CMMCORE_DEBUG
     auto ff=closestPointToOrigin.length();
     t.stop();
-- 
2.43.0


From 8e910f44a9bc396d2fb46c16636e9f1393798b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 27/74] fix: keep the object when a BVH node is copied, let
 setRight set the right child

---
 cmmcore/bvh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..069269d 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -136,14 +136,14 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object=other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From 69e3df8b78861f0d094e82b394a454bcae618276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 28/74] fix: report all intersecting pairs in intersect_bvh,
 also of flat and small boxes

---
 cmmcore/bvh.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 069269d..791e381 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -446,10 +446,7 @@ void inline intersect_bvh(
   if (!node1 || !node2 ) {
     return;
   }
-  AABB aabb{};
-  bool res=node1->bounding_box.intersection(node2->bounding_box,aabb) ;
-  if (!res){return;}
-  if (aabb.volume()<1e-6){
+  if (!node1->bounding_box.intersects(node2->bounding_box)) {
     return;
   }
 
-- 
2.43.0


From a04e38c8793ea0f136c8dbac6361d3242af82ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 29/74] fix: build the planar hull with exact comparisons, the
 absolute tolerance broke small inputs

---
 cmmcore/_convexhull/convexhull2d.h | 84 +++++++++---------------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 9f1c739..c294b08 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -44,74 +44,40 @@ inline int orientation(const vec2& p, const vec2& q, const vec2& r) {
     return (val > 0) ? 1 : 2; // clock or counterclock wise
 }
 
-// Custom comparator for sorting points
-class PointComparator {
-private:
-    vec2 p0;
-
-public:
-    PointComparator(const vec2& referencePoint) : p0(referencePoint) {}
-
-    bool operator()(const vec2& p1, const vec2& p2) const {
-        int o = orientation(p0, p1, p2);
-        if (o == 0) {
-            return distSq(p0, p1) < distSq(p0, p2);
-        }
-        return (o == 2);
-    }
-};
-
-// Prints convex hull of a set of n points.
+// Convex hull of a set of n points, in counterclockwise order without collinear vertices, starting at the bottommost
+// (and leftmost if there is a tie). The turns are compared with zero and not with a tolerance, so that the result
+// does not depend on the units of the input.
 inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
     if (points.size() < 3) return points;  // Convex hull not possible with less than 3 points
 
-    int n = points.size();
-    
-    // Find the bottommost point (and leftmost if there is a tie)
-    int ymin = 0;
-    for (int i = 1; i < n; i++) {
-        if (points[i].y < points[ymin].y || 
-           (std::abs(points[i].y - points[ymin].y) < 1e-9 && points[i].x < points[ymin].x))
-            ymin = i;
-    }
-
-    // Place the bottom-most point at first position
-    swap(points[0], points[ymin]);
+    std::vector<vec2> sorted = points;
+    std::sort(sorted.begin(), sorted.end(), [](const vec2& p1, const vec2& p2) {
+        return p1.y < p2.y || (p1.y == p2.y && p1.x < p2.x);
+    });
 
-    // Sort n-1 points with respect to the first point.
-    // A point p1 comes before p2 in sorted output if p2
-    // has larger polar angle (in counterclockwise direction)
-    // than p1
-    PointComparator comp(points[0]);
-    std::sort(points.begin() + 1, points.end(), comp);
+    auto turnsLeft = [](const vec2& p, const vec2& q, const vec2& r) {
+        return (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x) > 0;
+    };
 
-    // Keep only the farthest point when there are multiple points with the same angle
-    int m = 1;
-    for (int i = 1; i < n; i++) {
-        while (i < n - 1 && orientation(points[0], points[i], points[i + 1]) == 0) {
-            i++;
-        }
-        points[m] = points[i];
-        m++;
-    }
-
-    // If modified array of points has less than 3 points, convex hull is not possible
-    if (m < 3) return {};
-
-    // Create an empty stack and push first three points to it.
     std::vector<vec2> hull;
-    hull.push_back(points[0]);
-    hull.push_back(points[1]);
-    hull.push_back(points[2]);
-
-    // Process remaining n-3 points
-    for (int i = 3; i < m; i++) {
-        while (hull.size() > 1 && orientation(nextToTop(hull), hull.back(), points[i]) != 2) {
-            hull.pop_back();
+    hull.reserve(sorted.size() + 1);
+    // Right side from the bottom to the top, then left side from the top to the bottom
+    size_t base = 1;
+    for (int side = 0; side < 2; side++) {
+        for (const vec2& point : sorted) {
+            while (hull.size() > base && !turnsLeft(hull[hull.size() - 2], hull.back(), point)) {
+                hull.pop_back();
+            }
+            hull.push_back(point);
         }
-        hull.push_back(points[i]);
+        hull.pop_back(); // first point of the other side
+        base = hull.size() + 1;
+        std::reverse(sorted.begin(), sorted.end());
     }
 
+    // If less than 3 points are left, all of them are collinear
+    if (hull.size() < 3) return {};
+
     return hull;
 }
 
-- 
2.43.0


From 9222aa3b63be0f231132726f3b5d353f18ecd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 30/74] fix: build the spatial hull with a relative tolerance
 and return the planar hull of flat sets

---
 cmmcore/_convexhull/quickhull.hpp | 114 ++++++++++++++++++++----------
 cmmcore/convexhull.h              |  33 ++-------
 2 files changed, 81 insertions(+), 66 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 077d5d8..ba76168 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -44,6 +44,7 @@
 #else
 #include "cmmcore/vec.h"
 #include "cmmcore/cm_limits.h"
+#include "cmmcore/_convexhull/convexhull2d.h"
 #endif
 
 namespace cmmcore {
@@ -76,6 +77,7 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
+        value_type flatness_ = value_type(0);
         size_type affine_dim_ = 0; // New member variable to store the affine dimension
         bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
@@ -311,7 +313,7 @@ namespace cmmcore {
                             pivot = j;
                         }
                     }
-                    if (!(eps < max_)) {
+                    if (!(zero < max_)) {
                         // regular?
                         det_ = zero; // singular
                         break;
@@ -456,7 +458,7 @@ namespace cmmcore {
             forward_transformation(rank_);
             vrow const projection_ = shadow_matrix_.back();
             vrow const apex_ = shadow_matrix_.front();
-            value_type distance_ = zero; // square of distance to the subspace
+            value_type distance_ = flatness_ * flatness_; // square of distance to the subspace, nearer points do not raise the rank
             auto const oend = std::cend(outside_);
             auto furthest = oend;
             for (auto it = std::cbegin(outside_); it != oend; ++it) {
@@ -650,7 +652,7 @@ namespace cmmcore {
                 return (visible_.count(f) != 0);
             }
             facet &facet_ = facets_[f];
-            if (!(zero < facet_.distance(std::cbegin(*_apex)))) {
+            if (!(eps < facet_.distance(std::cbegin(*_apex)))) {
                 return false;
             }
             visible_.insert(f);
@@ -779,8 +781,10 @@ namespace cmmcore {
             std::copy(beg, end, std::back_inserter(outside_));
         }
 
-        point_list get_affine_basis()
+        // Points nearer than _flatness to an affine subspace are considered to lie in it
+        point_list get_affine_basis(value_type const _flatness = value_type(0))
         {
+            flatness_ = _flatness;
             //assert(facets_.empty());
 
             point_list basis_;
@@ -830,7 +834,7 @@ namespace cmmcore {
             }
             value_type const volume_ = hypervolume(first, last);
 
-            if (std::abs(volume_) < eps) {
+            if (!(zero < std::abs(volume_))) {
                 // The points are affinely dependent, the convex hull is lower-dimensional
                 lower_dimensional_hull_ = true;
                 affine_dim_ = num_points - 1;
@@ -1043,53 +1047,86 @@ namespace cmmcore {
         }
     };
 
-    inline void convex_hull3d(const std::vector<vec3> &pts, std::vector<vec3> &hull) {
+    // Returns the dimension of the set: 3, 2 (planar), 1 (collinear), 0 (a single point) or -1 (empty)
+    inline int convex_hull3d(const std::vector<vec3> &pts, std::vector<vec3> &hull) {
+        hull.clear();
         if (pts.empty()) {
-            return;
+            return -1;
         }
-        if (pts.size() < 5) {
-            hull.clear();
-            hull.reserve(pts.size());
-            for (auto &p: pts) {
-                hull.emplace_back(p);
+        vec3 origin = pts[0];
+        vec3 corner = pts[0];
+        for (auto &p: pts) {
+            for (int k = 0; k < 3; ++k) {
+                origin[k] = std::min(origin[k], p[k]);
+                corner[k] = std::max(corner[k], p[k]);
             }
-            return;
         }
+        const double size = std::max(std::max(corner.x - origin.x, corner.y - origin.y), corner.z - origin.z);
+        if (!(size > 0.)) {
+            hull.push_back(pts[0]);
+            return 0;
+        }
+        // The tolerance is relative, the hull is built from the points moved into the unit box
         using Points = std::vector<std::array<double, 3> >;
         Points points(pts.size());
-        size_t i = 0;
-        for (i = 0; i < pts.size(); ++i) {
-            points[i][0] = pts[i].x;
-            points[i][1] = pts[i].y;
-            points[i][2] = pts[i].z;
+        for (size_t i = 0; i < pts.size(); ++i) {
+            for (int k = 0; k < 3; ++k) {
+                points[i][k] = (pts[i][k] - origin[k]) / size;
+            }
         }
-
-        const auto eps = CMMCORE_NUMERIC_EPSILON_DOUBLE;
+        const double eps = 1e-9;
 
         quick_hull<typename Points::const_iterator> qh{3, eps};
 
         qh.add_points(std::cbegin(points), std::cend(points));
 
-        auto initial_simplex = qh.get_affine_basis();
-        //for (auto v: initial_simplex) {
-            //std::cout <<"["<< (*v[0])<<"," << (*v[1])<<","<< (*v[2])<<"],";
-
-            //for (auto p: *v) {
-
-
-                //std::cout <<(p)<<", ";
-           // }
-            //std::cout <<"],";
-        //}    std::cout <<"]\n";
-
+        auto initial_simplex = qh.get_affine_basis(1e-6);
 
         if (initial_simplex.size() < 4) {
-            hull.clear();
-            hull.reserve(initial_simplex.size());
-            for (const auto &p: initial_simplex) {
-                hull.emplace_back(*p);
+            // Planar, collinear or coincident points: take the planar hull in the coordinate plane onto which the basis
+            // projects with the largest area, or the ends along the coordinate axis which the basis follows most
+            const int dim = static_cast<int>(initial_simplex.size()) - 1;
+            if (dim == 0) {
+                hull.push_back(pts[0]);
+                return 0;
+            }
+            auto it = initial_simplex.begin();
+            const vec3 a(**it++), b(**it++);
+            const vec3 d = b - a;
+            int u = 0;
+            if (dim == 1) {
+                for (int k = 1; k < 3; ++k) {
+                    if (std::abs(d[k]) > std::abs(d[u])) u = k;
+                }
+                size_t lo = 0, hi = 0;
+                for (size_t i = 1; i < pts.size(); ++i) {
+                    if (points[i][u] < points[lo][u]) lo = i;
+                    if (points[i][u] > points[hi][u]) hi = i;
+                }
+                hull.push_back(pts[lo]);
+                hull.push_back(pts[hi]);
+                return 1;
+            }
+            const vec3 normal = d.cross(vec3(**it) - a);
+            int w = 0;
+            for (int k = 1; k < 3; ++k) {
+                if (std::abs(normal[k]) > std::abs(normal[w])) w = k;
+            }
+            u = (w + 1) % 3;
+            const int v = (w + 2) % 3;
+            std::vector<vec2> projection(pts.size());
+            for (size_t i = 0; i < pts.size(); ++i) {
+                projection[i].set(points[i][u], points[i][v]);
+            }
+            for (auto &p: convex_hull2d(projection)) {
+                for (size_t i = 0; i < pts.size(); ++i) {
+                    if (points[i][u] == p.x && points[i][v] == p.y) {
+                        hull.push_back(pts[i]);
+                        break;
+                    }
+                }
             }
-            return;
+            return 2;
         }
         qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex)));
         qh.create_convex_hull();
@@ -1099,9 +1136,10 @@ namespace cmmcore {
         for (const auto &facet: qh.facets_) {
             for (const auto &vertex: facet.vertices_) {
                 if (unique_points.insert(&(*vertex)[0]).second) {
-                    hull.emplace_back(*vertex);
+                    hull.push_back(pts[vertex - points.cbegin()]);
                 }
             }
         }
+        return 3;
     }
 }
diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index d2dc85f..539a8eb 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -14,34 +14,11 @@ namespace cmmcore {
     };
 
     inline ConvexHullResult convex_hull(const std::vector<vec3> &pts1, std::vector<vec3>& pts1hull) {
-        if (pts1.empty()) {
-            return ConvexHullResult::EMPTY;
-        }
-        const size_t pts_length=pts1.size();
-        if (isPtsCoplanar(pts1)) {
-            if (pts_length> 3) {
-                std::vector<vec2> _pt1(pts_length);
-                for (size_t i = 0; i < pts_length; i++) {
-                    _pt1[i].set(pts1[i].x, pts1[i].y);
-                }
-                auto hull12d = convex_hull2d(_pt1);
-                pts1hull.reserve(hull12d.size());
-                for (auto &i: hull12d) {
-                    auto res = std::find(pts1.begin(), pts1.end(), i);
-                    pts1hull.emplace_back(*res);
-                }
-            } else {
-                pts1hull.resize(pts_length);
-                   memcpy(pts1hull.data(), pts1.data(),  pts_length * sizeof(vec3));
-
-            }
-        } else {
-            convex_hull3d(pts1, pts1hull);
-        };
-        switch (pts1hull.size()) {
-            case 1: return ConvexHullResult::POINT;
-            case 2: return ConvexHullResult::LINE;
-            case 3: return ConvexHullResult::FLAT;
+        switch (convex_hull3d(pts1, pts1hull)) {
+            case -1: return ConvexHullResult::EMPTY;
+            case 0: return ConvexHullResult::POINT;
+            case 1: return ConvexHullResult::LINE;
+            case 2: return ConvexHullResult::FLAT;
             default: return ConvexHullResult::VOLUME;
 
         }
-- 
2.43.0


From 66ba748362dc3f8f869e7d3641b6b183c0f0fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:09 +0000
Subject: [PATCH 31/74] fix: separate directions by a plane through the center
 in the spherical separability test

---
 cmmcore/separability.h | 91 ++++++++++--------------------------------
 1 file changed, 20 insertions(+), 71 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c4f43f2..1081d1b 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -277,77 +277,6 @@ namespace cmmcore
 
 
 
-  inline bool SphericalCentralProjectionTest(std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
-
-    vec3 O(0,0,1);
-    for (size_t i=0;i<pts1.size();i++)
-    {
-
-      centerProjectionToXY(O, pts1[i].unit(),poly1[i]);
-    }
-    for (size_t j=0;j<pts2.size();j++)
-    {
-      centerProjectionToXY(O, pts2[j].unit(),poly2[j]);
-
-    }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-     auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
-    }
-    if (h2.empty())
-    {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:h2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
-
-    }
-inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    //printf(("SEPTEST\n\n["+format_vec3vec(pts1)+"],["+format_vec3vec(pts2)+"]").c_str());
-   // if (SphericalAABBTest(pts1,pts2))
-    //{
-
-   //   printf("BBB");
-   //   return true;
-    //}
-    return SphericalCentralProjectionTest(pts1,pts2);
-
-  }
-
     /*
      * If the two objects are already known to intersect at a point and one
      * wishes to determine if they intersect in no other points then a variation
@@ -410,6 +339,26 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
     vec3 cpt;
     return !GJK(directions,{vec3(0.,0.,0.)},simplex,cpt);
 
+  }
+
+  inline bool SphericalCentralProjectionTest(std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
+
+    // The projection has to be done from the center of the sphere: a projection from the pole maps arcs to circles, the
+    // hulls of the projected points do not contain the projections of the sets.
+    return SphericalCentralProjectionTest2(vec3(0.,0.,0.),pts1,pts2);
+
+    }
+inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
+
+    //printf(("SEPTEST\n\n["+format_vec3vec(pts1)+"],["+format_vec3vec(pts2)+"]").c_str());
+   // if (SphericalAABBTest(pts1,pts2))
+    //{
+
+   //   printf("BBB");
+   //   return true;
+    //}
+    return SphericalCentralProjectionTest(pts1,pts2);
+
   }
   }
 
-- 
2.43.0


From a162821fcd5baecf6430d84c420475c9e07bc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:06 +0000
Subject: [PATCH 32/74] fix: reduce the GJK simplex to the edge and face the
 origin lies beyond

---
 cmmcore/gjk.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 45a4f7d..8fc49b2 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -74,17 +74,17 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 ao = -a;
             vec3 abc = ab.cross(ac);
 
-            vec3 abPerp = abc.cross(ac);
-            vec3 acPerp = ab.cross(abc);
+            vec3 abPerp = ab.cross(abc);
+            vec3 acPerp = abc.cross(ac);
 
             if (abPerp.dot(ao) > tol) {
                 // Region outside AB
                 simplex.erase(simplex.begin());
-                direction = abPerp;
+                return handleSimplex(simplex, direction, tol);
             } else if (acPerp.dot(ao) > tol) {
                 // Region outside AC
                 simplex.erase(simplex.begin() + 1);
-                direction = acPerp;
+                return handleSimplex(simplex, direction, tol);
             } else {
                 if (abc.dot(ao) > tol) {
                     // Origin is below the triangle
@@ -116,15 +116,15 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             if (abc.dot(ao) > 0) {
                 // Remove point D
                 simplex.erase(simplex.begin());
-                direction = abc;
+                return handleSimplex(simplex, direction, tol);
             } else if (acd.dot(ao) > 0) {
                 // Remove point B
                 simplex.erase(simplex.begin() + 2);
-                direction = acd;
+                return handleSimplex(simplex, direction, tol);
             } else if (adb.dot(ao) > 0) {
                 // Remove point C
                 simplex.erase(simplex.begin() + 1);
-                direction = adb;
+                return handleSimplex(simplex, direction, tol);
             } else {
                 // Origin is inside the tetrahedron
                 return true;
-- 
2.43.0


From 244076be4b9ef45bcad00ac7d9701fd40f75450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 33/74] fix: test the edge normals of both polygons in SAT2D

---
 cmmcore/separability.h | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index 1081d1b..928974c 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -50,34 +50,15 @@ namespace cmmcore
     {
       return b!=a;
     }
-    if (a.size()<2)
+    // A separating line, if there is one, is parallel to an edge of one of the two polygons
+    const polygon2* edges[2] = {&a, &b};
+    for (const polygon2* poly : edges)
     {
-      for (size_t i = 0; i <b.size(); i++)
+      const polygon2 &p = *poly;
+      for (size_t i = 0; p.size() > 1 && i < p.size(); i++)
       {
-        size_t j = (i + 1) % b.size();
-        vec2 n = {b[j].y - b[i].y, b[i].x - b[j].x};
-
-        if (contains(normals, n)) {
-          continue;
-        }
-        vec2 minmax1, minmax2;
-
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
-          return true;
-        };
-
-
-        normals.insert(n);
-      }
-    } else
-    {
-      for (size_t i = 0; i < a.size(); i++)
-      {
-        size_t j = (i + 1) % a.size();
-        vec2 n = {a[j].y - a[i].y, a[i].x - a[j].x};
+        size_t j = (i + 1) % p.size();
+        vec2 n = {p[j].y - p[i].y, p[i].x - p[j].x};
 
         if (contains(normals, n)) {
           continue;
-- 
2.43.0


From f8607d2bf933fe3c47cfc7bb81eb7a4c4517c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 34/74] fix: return the nearest point of segments, triangles
 and tetrahedra, clamp segmentsDistance to the segments

---
 cmmcore/closest_point.h | 14 +++++++------
 cmmcore/gjk.h           |  1 +
 cmmcore/numeric_utils.h | 44 ++++++++++++++++++-----------------------
 3 files changed, 28 insertions(+), 31 deletions(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..8f6c2b6 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -42,17 +42,17 @@ namespace cmmcore{
         closestPointOnLine(a,start,end,result);
         return result;
     }
-    inline void closestPointOnSegm(vec3& a, vec3& start, vec3& end,vec3& result)
+    inline void closestPointOnSegm(const vec3& a, const vec3& start, const vec3& end,vec3& result)
     {
         vec3 d=end-start;
         vec3 o=a-start;
         double t=d.dot(o);
 
-        if (t<0.)
+        if (t<=0.)
         {
             result.set(start);
 
-        } else if (t>1.)
+        } else if (t>=d.sqLength())
         {
             result.set(end);
         } else
@@ -62,7 +62,7 @@ namespace cmmcore{
         }
 
     }
-    inline vec3 closestPointOnSegm(vec3& a, vec3& start, vec3& end)
+    inline vec3 closestPointOnSegm(const vec3& a, const vec3& start, const vec3& end)
     {
         vec3 res;
         closestPointOnSegm(a,start,end,res);
@@ -71,7 +71,9 @@ namespace cmmcore{
     // Closest point on the segment (a,b) to the point (0.,0.,0.)
     inline vec3 closestPointOnSegm(const vec3& a, const vec3& b) {
         const vec3 ab = b - a;
-        double t = -(a.dot(ab)) / ab.sqLength();
+        const double l = ab.sqLength();
+        if (l == 0.) return a; // Both ends coincide
+        double t = -(a.dot(ab)) / l;
         t = std::clamp<double>(t, 0.0, 1.0);
         return a + ab * t;
     }
@@ -123,7 +125,7 @@ namespace cmmcore{
     }
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
-        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt)+pt);
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 8fc49b2..cacb0cd 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -172,6 +172,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
             double dst=pt.sqLength();
             if (dst<mindist) {
               cpt=pt;
+              mindist=dst;
             }
             
         }
diff --git a/cmmcore/numeric_utils.h b/cmmcore/numeric_utils.h
index 888f581..687b292 100644
--- a/cmmcore/numeric_utils.h
+++ b/cmmcore/numeric_utils.h
@@ -10,8 +10,10 @@
 
 
 
+#include <algorithm>
 #include <cstring>
 namespace cmmcore {
+// Distance between the segments p1-p2 and q1-q2 with the parameters and points where it is attained
 inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2,
                       double& t,double& u, vec3& cpt1, vec3& cpt2 ){
   auto d1=p2-p1;
@@ -23,13 +25,21 @@ inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,cons
   c = d2.dot( d2)   ;
   d = d1.dot( r)    ;
   e = d2.dot( r)    ;
-    denom = a * c - b * b;
-   if (denom != 0){
-            t = (b * e - c * d) / denom;
-            u = (a * e - b * d) / denom;
-} else {
+  denom = a * c - b * b;
   t = u = 0;
-}
+  if (denom > 0){
+    t = std::clamp((b * e - c * d) / denom, 0., 1.);
+  }
+  // The best point of the second segment for t, then, if it had to be clamped, the best t for it
+  if (c > 0){
+    u = (b * t + e) / c;
+    if (u < 0 || u > 1){
+      u = std::clamp(u, 0., 1.);
+      t = a > 0 ? std::clamp((b * u - d) / a, 0., 1.) : 0.;
+    }
+  } else if (a > 0){
+    t = std::clamp(-d / a, 0., 1.);
+  }
     p1.add(t * d1,cpt1);
     q1.add(u * d2,cpt2);
     auto diffvec=cpt2-cpt1;
@@ -37,25 +47,9 @@ inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,cons
 }
     inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2
                        ){
-    auto d1=p2-p1;
-    auto d2=q2-q1;
-    auto r=p1-q1;
-    double a,b,c,d,e,denom,t,u;
-    a=d1.dot(d1);
-    b = d1.dot( d2)   ;
-    c = d2.dot( d2)   ;
-    d = d1.dot( r)    ;
-    e = d2.dot( r)    ;
-    denom = a * c - b * b;
-    if (denom != 0){
-        t = (b * e - c * d) / denom;
-        u = (a * e - b * d) / denom;
-    } else {
-        t = u = 0;
-    }
-    auto cpt1=p1+t * d1;
-    auto cpt2=q1+u * d2;
-    return (cpt2-cpt1).length();
+    double t,u;
+    vec3 cpt1,cpt2;
+    return segmentsDistance(p1,p2,q1,q2,t,u,cpt1,cpt2);
 }
 
     inline void centerProjectionToXY(const vec3& origin, const vec3& point, vec2& projected) {
-- 
2.43.0


From 58f01cecb489a38d14883960fd1df8ee4aafd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 35/74] fix: correct plane offsets, precision, parallel tests
 and the coplanarity test

---
 cmmcore/plane.h | 89 +++++++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..9c1b045 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,14 +11,8 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
-        equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
-        equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
-        equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
-        equation.w = -pt0.x * x4 + pt0.x * pt2.y * pt1.z - pt1.x * x5 + pt1.x * pt0.y * pt2.z - pt2.x * x3 + pt2.x * pt1
-            .y * pt0.z;
+        const vec3 n = (pt1 - pt0).cross(pt2 - pt0);
+        equation.set(n.x, n.y, n.z, -n.dot(pt0));
     }
     inline double planeSignedDistance(const vec3& pt, const vec4& plane)
     {
@@ -40,7 +34,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -50,7 +44,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
+                                                                   -(_normal.x * _origin.x + _normal.y * _origin.y +
                                                                        _normal.z * _origin.z)),
                                                           normal(_normal / denominator), origin(_origin)
         {
@@ -61,7 +55,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
@@ -89,10 +83,11 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            // The tolerance is an angle for the direction and a distance for the starting point
+            if (std::abs(D) <= epsilon * denominator * direction.length())
             {
                 // The direction is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) <= epsilon * denominator)
                 {
                     // The starting point is on the plane
                     pt = start;
@@ -119,10 +114,10 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            if (std::abs(D) <= epsilon * denominator * direction.length())
             {
                 // The segment is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) <= epsilon * denominator)
                 {
                     // The entire segment lies on the plane
                     pt = start;
@@ -170,16 +165,16 @@ namespace cmmcore
             double c2 = other.equation.z;
             double d2 = other.equation.w;
 
-            // Choose the variable to eliminate
+            // Choose the variable to eliminate: the line certainly crosses zero along its largest direction
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
@@ -190,10 +185,6 @@ namespace cmmcore
             {
                 // Eliminate x
                 double det = b1 * c2 - b2 * c1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double y = (c2 * -d1 - c1 * -d2) / det;
                 double z = (b1 * -d2 - b2 * -d1) / det;
                 point = vec3(0, y, z);
@@ -202,10 +193,6 @@ namespace cmmcore
             {
                 // Eliminate y
                 double det = a1 * c2 - a2 * c1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double x = (c2 * -d1 - c1 * -d2) / det;
                 double z = (a1 * -d2 - a2 * -d1) / det;
                 point = vec3(x, 0, z);
@@ -214,10 +201,6 @@ namespace cmmcore
             {
                 // Eliminate z
                 double det = a1 * b2 - a2 * b1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double x = (b2 * -d1 - b1 * -d2) / det;
                 double y = (a1 * -d2 - a2 * -d1) / det;
                 point = vec3(x, y, 0);
@@ -250,7 +233,7 @@ namespace cmmcore
                                         a2, b2, c2,
                                         a3, b3, c3);
 
-            if (std::abs(Det) < epsilon)
+            if (std::abs(Det) < epsilon * denominator * other1.denominator * other2.denominator)
             {
                 return false;
             }
@@ -292,12 +275,39 @@ namespace cmmcore
         {
             return true;
         }
-        plane p = {{pts[0], pts[1], pts[2]}};
-
+        // The plane through pts[0], the point farthest from it and the point farthest from their line
+        size_t far = 0;
+        double best = 0;
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double d = (pts[i] - pts[0]).sqLength();
+            if (d > best)
+            {
+                best = d;
+                far = i;
+            }
+        }
+        size_t third = far;
+        best = 0;
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double d = (pts[far] - pts[0]).cross(pts[i] - pts[0]).sqLength();
+            if (d > best)
+            {
+                best = d;
+                third = i;
+            }
+        }
+        if (best <= eps * eps * (pts[far] - pts[0]).sqLength())
+        {
+            // All points lie on one line
+            return true;
+        }
+        plane p = {{pts[0], pts[far], pts[third]}};
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 1; i < pts.size(); i++)
         {
-            if (std::abs(p.signedDistance(pts[i])) >= eps)
+            if (i != far && i != third && std::abs(p.signedDistance(pts[i])) >= eps)
             {
                 return false;
             }
@@ -320,12 +330,13 @@ namespace cmmcore
 
         cplane(const std::tuple<vec3, vec3, vec3>& _pts): plane(_pts)
         {
-            xaxis = std::get<0>(_pts) - origin;
+            origin = std::get<0>(_pts);
+            xaxis = std::get<1>(_pts) - origin;
             xaxis.unitize();
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
+        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From 3ce3a4bbd5432c62dce747864ff2849170ac322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 36/74] fix: store the values of a Matrix2x2 initializer list
 and test singularity relative to the matrix scale

---
 cmmcore/matrix.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..f04a167 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,19 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr)
+    {
+        if (arr.size() > 2) {
+            throw std::invalid_argument("Matrix2x2 has two rows.");
+        }
+        size_t i = 0;
+        for (const auto& row : arr) {
+            if (row.size() > 2) {
+                throw std::invalid_argument("Matrix2x2 has two columns.");
+            }
+            std::copy(row.begin(), row.end(), _m[i++].begin());
+        }
+    };
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
@@ -214,6 +226,10 @@ public:
                 throw std::runtime_error("Only square matrices can be inverted");
             }
             MatrixD augmented(rows, 2 * cols);
+            double scale = 0.0;
+            for (const double value : data) {
+                scale = std::max(scale, std::abs(value));
+            }
             for (size_t i = 0; i < rows; ++i) {
                 for (size_t j = 0; j < cols; ++j) {
                     augmented(i, j) = (*this)(i, j);
@@ -235,7 +251,7 @@ public:
                 }
 
                 double pivotValue = augmented(i, i);
-                if (std::abs(pivotValue) < 1e-10) {
+                if (std::abs(pivotValue) <= 1e-12 * scale) {
                     throw std::runtime_error("Matrix is singular and cannot be inverted");
                 }
 
-- 
2.43.0


From 6ad5a93400a6e0427c466412d2c7297232bcc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 37/74] fix: end the line search when no step length is
 accepted

---
 cmmcore/newthon2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/newthon2.h b/cmmcore/newthon2.h
index c8a0032..bb55ece 100644
--- a/cmmcore/newthon2.h
+++ b/cmmcore/newthon2.h
@@ -227,7 +227,8 @@ constexpr double lineSearch(const std::function<double(const Vector<N>&)>& f,
     double grad_dot_dir = dotProduct(grad, direction);
     Vector<N> new_point;
 
-    while (true) {
+    // No step is accepted where the function is not a number, alpha then goes down to zero
+    while (alpha > 0.0) {
         for (size_t i = 0; i < N; ++i)
             new_point[i] = point[i] + alpha * direction[i];
         double f_new = f(new_point);
-- 
2.43.0


From 128562279c7c29a6f2b72b4a9c1e31e1ab69a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:45 +0000
Subject: [PATCH 38/74] fix: reset reused monomial tensors, copy all members on
 assignment, differentiate constants

---
 cmmcore/monomial.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..1117443 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,8 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+// Every element is reset, also of a tensor that was used before
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
@@ -71,7 +72,8 @@ namespace cmmcore
 
         if (variable == SurfaceParameter::U)
         {
-            CMMCORE_RESIZE_TENSOR2D(result, n-1, m, vec3, 0, 0, 0);
+            // The derivative of a constant is the zero polynomial, not an empty one
+            CMMCORE_RESIZE_TENSOR2D(result, std::max(n-1, 1), m, vec3, 0, 0, 0);
             for (int i = 1; i < n; ++i)
             {
                 for (int j = 0; j < m; ++j)
@@ -84,7 +86,7 @@ namespace cmmcore
         }
         else if (variable == SurfaceParameter::V)
         {
-            CMMCORE_RESIZE_TENSOR2D(result, n, m-1, vec3, 0, 0, 0);
+            CMMCORE_RESIZE_TENSOR2D(result, n, std::max(m-1, 1), vec3, 0, 0, 0);
 
             for (int i = 0; i < n; ++i)
             {
@@ -247,13 +249,7 @@ namespace cmmcore
             result.set(coeffs);
         }
 
-        Monomial2D& operator=(const Monomial2D& other)
-        {
-            if (this == &other) return *this; // Handle self-assignment
-            n = other.n, m = other.m;
-            coefficients = other.coefficients;
-            return *this;
-        }
+        Monomial2D& operator=(const Monomial2D& other) = default;
     };
 }
 #endif //MONOMIAL_H
-- 
2.43.0


From 0d40d040517b0466095cde45cd39ef860cdac324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 39/74] fix: check bounds and consistency when deserializing
 curves

---
 cmmcore/serialization.h | 86 ++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 32c087e..702911d 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -21,6 +21,13 @@
 #endif
 
 namespace cmmcore {
+    // Number of bytes left before `end`; an unknown end (nullptr) is not checked
+    inline void requireBytes(const uint8_t *data, const uint8_t *end, size_t count) {
+        if (end != nullptr && static_cast<size_t>(end - data) < count) {
+            throw std::runtime_error("Unexpected end of serialized data");
+        }
+    }
+
     // Serialize an integer
     void serializeInt(std::vector<uint8_t> &buffer, int value) {
         uint8_t *data = reinterpret_cast<uint8_t *>(&value);
@@ -28,7 +35,8 @@ namespace cmmcore {
     }
 
     // Deserialize an integer
-    int deserializeInt(const uint8_t *&data) {
+    int deserializeInt(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, sizeof(int));
         int value;
         std::memcpy(&value, data, sizeof(int));
         data += sizeof(int);
@@ -42,7 +50,8 @@ namespace cmmcore {
     }
 
     // Deserialize a double
-    double deserializeDouble(const uint8_t *&data) {
+    double deserializeDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, sizeof(double));
         double value;
         std::memcpy(&value, data, sizeof(double));
         data += sizeof(double);
@@ -55,12 +64,25 @@ namespace cmmcore {
     }
 
     // Deserialize a bool
-    bool deserializeBool(const uint8_t *&data) {
-        bool value = static_cast<bool>(*data);
+    bool deserializeBool(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, sizeof(uint8_t));
+        bool value = (*data != 0);
         data += sizeof(uint8_t);
         return value;
     }
 
+    // Deserialize the number of elements of a sequence
+    inline size_t deserializeSize(const uint8_t *&data, const uint8_t *end, size_t element_size) {
+        const int size = deserializeInt(data, end);
+        if (size < 0) {
+            throw std::runtime_error("Negative size in serialized data");
+        }
+        if (end != nullptr && static_cast<size_t>(end - data) / element_size < static_cast<size_t>(size)) {
+            throw std::runtime_error("Unexpected end of serialized data");
+        }
+        return static_cast<size_t>(size);
+    }
+
     // Serialize a vector of doubles
     void serializeVectorDouble(std::vector<uint8_t> &buffer, const std::vector<double> &vec) {
         serializeInt(buffer, vec.size());
@@ -70,11 +92,11 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of doubles
-    std::vector<double> deserializeVectorDouble(const uint8_t *&data) {
-        int size = deserializeInt(data);
+    std::vector<double> deserializeVectorDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+        const size_t size = deserializeSize(data, end, sizeof(double));
         std::vector<double> vec(size);
-        for (int i = 0; i < size; ++i) {
-            vec[i] = deserializeDouble(data);
+        for (size_t i = 0; i < size; ++i) {
+            vec[i] = deserializeDouble(data, end);
         }
         return vec;
     }
@@ -87,10 +109,10 @@ namespace cmmcore {
     }
 
     // Deserialize a vec4
-    vec4 deserializeVec4(const uint8_t *&data) {
+    vec4 deserializeVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
         vec4 v;
         for (int i = 0; i < 4; ++i) {
-            v[i] = deserializeDouble(data);
+            v[i] = deserializeDouble(data, end);
         }
         return v;
     }
@@ -104,11 +126,11 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of vec4
-    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data) {
-        int size = deserializeInt(data);
+    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
+        const size_t size = deserializeSize(data, end, 4 * sizeof(double));
         std::vector<vec4> vec(size);
-        for (int i = 0; i < size; ++i) {
-            vec[i] = deserializeVec4(data);
+        for (size_t i = 0; i < size; ++i) {
+            vec[i] = deserializeVec4(data, end);
         }
         return vec;
     }
@@ -124,11 +146,23 @@ namespace cmmcore {
     }
 
     // Deserialize a NURBSCurve object
-    NURBSCurve deserializeNURBSCurve(const uint8_t *&data) {
-        int degree = deserializeInt(data);
-        bool periodic = deserializeBool(data);
-        std::vector<vec4> control_points = deserializeVectorVec4(data);
-        std::vector<double> knots = deserializeVectorDouble(data);
+    NURBSCurve deserializeNURBSCurve(const uint8_t *&data, const uint8_t *end = nullptr) {
+        int degree = deserializeInt(data, end);
+        bool periodic = deserializeBool(data, end);
+        std::vector<vec4> control_points = deserializeVectorVec4(data, end);
+        std::vector<double> knots = deserializeVectorDouble(data, end);
+        if (control_points.empty() && knots.empty()) {
+            return NURBSCurve();
+        }
+        if (degree < 0 || control_points.size() <= static_cast<size_t>(degree) ||
+            knots.size() != control_points.size() + static_cast<size_t>(degree) + 1) {
+            throw std::runtime_error("Inconsistent curve in serialized data");
+        }
+        for (size_t i = 0; i + 1 < knots.size(); ++i) {
+            if (!(knots[i] <= knots[i + 1])) {
+                throw std::runtime_error("Inconsistent curve in serialized data");
+            }
+        }
         return NURBSCurve(control_points, degree, knots, periodic);
     }
 
@@ -145,11 +179,19 @@ namespace cmmcore {
 
     // Deserialize a vector of NURBSCurve objects
     std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
+        if (data.empty()) {
+            throw std::runtime_error("Unexpected end of serialized data");
+        }
         const uint8_t *data_ptr = data.data();
-        int size = deserializeInt(data_ptr);
+        const uint8_t *end = data_ptr + data.size();
+        // degree, periodic flag and the two sizes are the least a curve takes
+        const size_t size = deserializeSize(data_ptr, end, 3 * sizeof(int) + sizeof(uint8_t));
         std::vector<NURBSCurve> curves(size);
-        for (int i = 0; i < size; ++i) {
-            curves[i] = deserializeNURBSCurve(data_ptr);
+        for (size_t i = 0; i < size; ++i) {
+            curves[i] = deserializeNURBSCurve(data_ptr, end);
+        }
+        if (data_ptr != end) {
+            throw std::runtime_error("Unexpected data after the last serialized curve");
         }
         return curves;
     }
-- 
2.43.0


From 3a3b943d8724ede27f11585d0356682361d6a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 40/74] fix: index, copy, reshape, slice and deserialize
 strided MemoryViews correctly

---
 cmmcore/memoryview.h | 195 ++++++++++++++++++++++++++++---------------
 1 file changed, 130 insertions(+), 65 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..13d5d66 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -13,6 +13,8 @@
 #include <sstream>
 #include <string>
 #include <typeinfo>
+#include <limits>
+#include <memory>
 #include <cstring> // For memcpy
 #include <cstdio>  // For FILE*
 #include <cstring>
@@ -72,8 +74,9 @@ namespace cmmcore
         }
 
         // Internal constructor used for slicing
-        MemoryView(T* data, const std::vector<size_t>& shape, const std::vector<size_t>& strides, size_t offset)
-            : data_(data), shape_(shape), strides_(strides), offset_(offset)
+        MemoryView(T* data, const std::vector<size_t>& shape, const std::vector<size_t>& strides, size_t offset,
+                   const std::shared_ptr<T[]>& owner = nullptr)
+            : owner_(owner), data_(data), shape_(shape), strides_(strides), offset_(offset)
         {
         }
         T* data()
@@ -96,21 +99,17 @@ namespace cmmcore
             size_t size=1;
             for (size_t i = 0 ; i<shape_.size();i++)
             {
-                i*=shape_[i];
+                size*=shape_[i];
             }
             return size;
         }
+        // Copy the viewed elements into a new contiguous array owned by the returned view
         MemoryView<T>* copy() const
         {
-            size_t _size=size();
-            T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
-            mv->is_managed_=true;
+            std::shared_ptr<T[]> ptr = gather();
+            auto* mv=new MemoryView<T>(ptr.get(),shape_);
+            mv->owner_=ptr;
             return mv;
-
-
-
         }
         // Slice method
         MemoryView<T> slice(const std::vector<Slice>& slices) const
@@ -147,25 +146,25 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
-                    int step = s.step;
-
-                    // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
-
-                    // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
+                    const long long n = static_cast<long long>(shape_[i]);
+                    const long long step = s.step;
 
                     if (step == 0)
                     {
                         throw std::invalid_argument("Slice step cannot be zero");
                     }
+                    // Going backwards the range runs from the last element down to the one before the first
+                    const long long lower = step > 0 ? 0 : -1;
+                    const long long upper = step > 0 ? n : n - 1;
+                    long long start = step > 0 ? lower : upper;
+                    long long stop = step > 0 ? upper : lower;
+
+                    // Handle negative indices and clamp start and stop
+                    if (s.has_start) start = std::max(lower, std::min(s.start < 0 ? s.start + n : s.start, upper));
+                    if (s.has_stop) stop = std::max(lower, std::min(s.stop < 0 ? s.stop + n : s.stop, upper));
 
                     // Compute the number of elements in this slice
-                    int length = 0;
+                    long long length = 0;
                     if (step > 0)
                     {
                         if (start < stop)
@@ -180,10 +179,10 @@ namespace cmmcore
                             length = (start - stop - step - 1) / (-step);
                         }
                     }
-                    length = std::max(length, 0);
+                    length = std::max(length, 0LL);
                     new_shape.push_back(static_cast<size_t>(length));
                     new_strides.push_back(strides_[i] * step);
-                    new_offset += start * strides_[i];
+                    if (length > 0) new_offset += start * strides_[i];
                 }
             }
 
@@ -194,20 +193,60 @@ namespace cmmcore
                 new_strides.push_back(strides_[i]);
             }
 
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            return MemoryView<T>(data_, new_shape, new_strides, new_offset, owner_);
         }
 
         // Reshape method
         void reshape(const std::vector<size_t>& new_shape)
         {
-            size_t new_total = compute_total_size(new_shape);
-            size_t current_total = compute_total_size(shape_);
-            if (new_total != current_total)
+            size_t new_total = 1;
+            for (size_t n : new_shape)
+            {
+                if (n != 0 && new_total > std::numeric_limits<size_t>::max() / n)
+                {
+                    throw std::invalid_argument("Total size must remain unchanged in reshape");
+                }
+                new_total *= n;
+            }
+            if (new_total != size())
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            std::vector<size_t> new_strides(new_shape.size(), 1);
+            // Match groups of dimensions that hold the same number of elements; the elements of a group
+            // must be equally spaced for the group to be split in another way.
+            size_t i = 0, j = 0;
+            while (new_total > 0 && (i < shape_.size() || j < new_shape.size()))
+            {
+                size_t i_end = i, j_end = j, np = 1, op = 1;
+                if (i_end < shape_.size()) op *= shape_[i_end++];
+                if (j_end < new_shape.size()) np *= new_shape[j_end++];
+                while (np != op)
+                {
+                    if (np < op) np *= new_shape[j_end++];
+                    else op *= shape_[i_end++];
+                }
+                size_t last = i_end; // innermost dimension of the group with more than one element
+                for (size_t k = i; k < i_end; ++k)
+                {
+                    if (shape_[k] == 1) continue;
+                    if (last != i_end && strides_[last] != strides_[k] * shape_[k])
+                    {
+                        throw std::invalid_argument("View cannot be reshaped without copying its elements");
+                    }
+                    last = k;
+                }
+                size_t stride = last != i_end ? strides_[last] : 1;
+                for (size_t k = j_end; k-- > j;)
+                {
+                    new_strides[k] = stride;
+                    stride *= new_shape[k];
+                }
+                i = i_end;
+                j = j_end;
+            }
             shape_ = new_shape;
-            compute_strides();
+            strides_ = new_strides;
         }
 
         // Overload the [] operator to slice the first dimension
@@ -224,7 +263,7 @@ namespace cmmcore
             size_t new_offset = offset_ + index * strides_[0];
             std::vector<size_t> new_shape(shape_.begin() + 1, shape_.end());
             std::vector<size_t> new_strides(strides_.begin() + 1, strides_.end());
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            return MemoryView<T>(data_, new_shape, new_strides, new_offset, owner_);
         }
 
         // Element access
@@ -276,11 +315,11 @@ namespace cmmcore
             }
             oss << "), offset: " << offset_ << "\nData preview: [";
 
-            size_t total_elements = compute_total_size(shape_);
+            size_t total_elements = size();
             size_t display_count = std::min(preview_limit, total_elements);
             for (size_t i = 0; i < display_count; ++i)
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << data_[flat_index(i)];
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
@@ -326,21 +365,21 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
-            // Serialize Strides
+            // Serialize Strides and Offset of the data that follows, which is contiguous
+            const MemoryView<T> packed(nullptr, shape_);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
-
-            // Serialize Offset
+                          reinterpret_cast<const char*>(packed.strides_.data()),
+                          reinterpret_cast<const char*>(packed.strides_.data()) + sizeof(size_t) * ndim);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(&offset_),
-                          reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
+                          reinterpret_cast<const char*>(&packed.offset_),
+                          reinterpret_cast<const char*>(&packed.offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
+            const std::shared_ptr<T[]> elements = gather();
+            size_t data_size = size() * sizeof(T);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+                          reinterpret_cast<const char*>(elements.get()),
+                          reinterpret_cast<const char*>(elements.get()) + data_size);
 
             return buffer;
         }
@@ -361,7 +400,7 @@ namespace cmmcore
             std::memcpy(&type_name_length, buffer.data() + pos, sizeof(size_t));
             pos += sizeof(size_t);
 
-            if (pos + type_name_length > buffer.size())
+            if (type_name_length > buffer.size() - pos)
             {
                 throw std::invalid_argument("Buffer too small to contain type name");
             }
@@ -384,7 +423,7 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Shape
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain shape");
             }
@@ -393,7 +432,7 @@ namespace cmmcore
             pos += sizeof(size_t) * ndim;
 
             // Deserialize Strides
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain strides");
             }
@@ -411,20 +450,34 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Data
-            size_t total_elements = compute_total_size(shape);
-            size_t data_size = total_elements * sizeof(T);
-            if (pos + data_size > buffer.size())
+            size_t total_elements = 1;
+            for (size_t n : shape)
+            {
+                if (n != 0 && total_elements > std::numeric_limits<size_t>::max() / n)
+                {
+                    throw std::invalid_argument("Buffer too small to contain data");
+                }
+                total_elements *= n;
+            }
+            if (total_elements > (buffer.size() - pos) / sizeof(T))
             {
                 throw std::invalid_argument("Buffer too small to contain data");
             }
+            size_t data_size = total_elements * sizeof(T);
 
             // Allocate memory for data
-            T* data = new T[total_elements];
-            std::memcpy(data, buffer.data() + pos, data_size);
+            std::shared_ptr<T[]> data(new T[total_elements]);
+            std::memcpy(data.get(), buffer.data() + pos, data_size);
             pos += data_size;
 
-            // Create MemoryView
-            return MemoryView<T>(data, shape, strides, 0);
+            // Create MemoryView; the data is contiguous
+            MemoryView<T> view(data.get(), shape);
+            if (view.strides_ != strides || offset != 0)
+            {
+                throw std::invalid_argument("Strides do not describe contiguous data");
+            }
+            view.owner_ = data;
+            return view;
         }
 
         // 4a. Write Serialized Data to FILE*
@@ -473,26 +526,38 @@ namespace cmmcore
             // Deserialize
             return deserialize(buffer);
         }
-        ~MemoryView()
-        {
-            if (is_managed_)
-            {
-                if (data_!=nullptr)
-                {
-                    free(data_);
-                }
-
-            }
-        }
 
     private:
-        bool is_managed_=false;
+        // Owner of the memory when it was allocated by this class; shared by all views of it
+        std::shared_ptr<T[]> owner_;
         T* data_;
         std::vector<size_t> shape_;
         std::vector<size_t> strides_;
         size_t offset_;
 
+        // Position in data_ of the i-th viewed element in row-major order
+        size_t flat_index(size_t i) const
+        {
+            size_t idx = offset_;
+            for (size_t k = shape_.size(); k-- > 0;)
+            {
+                idx += (i % shape_[k]) * strides_[k];
+                i /= shape_[k];
+            }
+            return idx;
+        }
 
+        // The viewed elements in row-major order
+        std::shared_ptr<T[]> gather() const
+        {
+            const size_t total = size();
+            std::shared_ptr<T[]> elements(new T[total]);
+            for (size_t i = 0; i < total; ++i)
+            {
+                elements[i] = data_[flat_index(i)];
+            }
+            return elements;
+        }
 
         // Compute strides based on the current shape
         void compute_strides()
-- 
2.43.0


From d943332772e1bc535e1c2ac7d616de1bf85ffb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 41/74] fix: do not copy from an empty shape when deserializing
 a MemoryView

---
 cmmcore/memoryview.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 13d5d66..090f3c0 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -428,7 +428,7 @@ namespace cmmcore
                 throw std::invalid_argument("Buffer too small to contain shape");
             }
             std::vector<size_t> shape(ndim);
-            std::memcpy(shape.data(), buffer.data() + pos, sizeof(size_t) * ndim);
+            if (ndim > 0) std::memcpy(shape.data(), buffer.data() + pos, sizeof(size_t) * ndim);
             pos += sizeof(size_t) * ndim;
 
             // Deserialize Strides
@@ -437,7 +437,7 @@ namespace cmmcore
                 throw std::invalid_argument("Buffer too small to contain strides");
             }
             std::vector<size_t> strides(ndim);
-            std::memcpy(strides.data(), buffer.data() + pos, sizeof(size_t) * ndim);
+            if (ndim > 0) std::memcpy(strides.data(), buffer.data() + pos, sizeof(size_t) * ndim);
             pos += sizeof(size_t) * ndim;
 
             // Deserialize Offset
-- 
2.43.0


From 3736c630219609cc3830c87b61d56181db94bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 42/74] fix: end() of a zero-dimensional MemoryView

---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 090f3c0..46ee3ff 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -293,7 +293,7 @@ namespace cmmcore
 
         T* end() const
         {
-            return data_ + offset_ + compute_total_size(shape_);
+            return data_ + offset_ + size();
         }
 
         // 1. String Representation Method
-- 
2.43.0


From c433713aaeef8663479895f05fd0374d3f114868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 43/74] fix: write Euclidean control points and exact real
 numbers in STEP exports

---
 cmmcore/nurbs.h       | 12 ++++++------
 cmmcore/nurbs_utils.h |  2 +-
 cmmcore/utils.h       | 25 ++++++++++++++++++++++++-
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 98bddd6..fc04a49 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -669,13 +669,13 @@ namespace cmmcore {
          * @return The STEP entity ID of the created B-spline curve.
          */
 int toSTEP(std::ostream &out, int &entity_id) const {
-            // Write CARTESIAN_POINT entities with homogeneous coordinates
+            // Write CARTESIAN_POINT entities with Euclidean coordinates, the weights are written separately
             std::vector<int> cp_ids(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x << ", " << cp.y << ", " << cp.z << "));\n";
+                    << stepNumber(cp.x / cp.w) << ", " << stepNumber(cp.y / cp.w) << ", " << stepNumber(cp.z / cp.w) << "));\n";
             }
 
             // Get knot multiplicities and unique knots
@@ -687,7 +687,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             std::stringstream weights_stream;
             weights_stream << "(";
             for (size_t i = 0; i < control_points.size(); ++i) {
-                weights_stream << control_points[i].w;
+                weights_stream << stepNumber(control_points[i].w);
                 if (i < control_points.size() - 1) weights_stream << ", ";
             }
             weights_stream << ")";
@@ -1324,7 +1324,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             double z = cp.z / cp.w;
             int id = entity_id++;
             cp_ids[i][j] = id;
-            out << "#" << id << " = CARTESIAN_POINT('', (" << x << ", " << y << ", " << z << "));\n";
+            out << "#" << id << " = CARTESIAN_POINT('', (" << stepNumber(x) << ", " << stepNumber(y) << ", " << stepNumber(z) << "));\n";
         }
     }
 
@@ -1363,7 +1363,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         weights_stream << "(";
         for (std::size_t j = 0; j < _size[1]; ++j) {
             double w = _control_points[i][j].w;
-            weights_stream << w;
+            weights_stream << stepNumber(w);
             if (j < _size[1] - 1)
                 weights_stream << ", ";
         }
@@ -1399,7 +1399,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
         boundaries[i].evaluate(param, point);
         int cartesian_id = entity_id++;
-        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << point.x << ", " << point.y << ", " << point.z << "));\n";
+        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << stepNumber(point.x) << ", " << stepNumber(point.y) << ", " << stepNumber(point.z) << "));\n";
         vertex_ids[i] = entity_id++;
         out << "#" << vertex_ids[i] << " = VERTEX_POINT('', #" << cartesian_id << ");\n";
     }
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index ae5e850..16e9e20 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -1115,7 +1115,7 @@ inline void get_nurbs_derivative(const int degree,
         double last_knot = knots[0];
         int count = 1;
         for (std::size_t i = 1; i < knots.size(); ++i) {
-            if (fabs(knots[i] - last_knot) < 1e-8) {
+            if (knots[i] == last_knot) {
                 ++count;
             } else {
                 unique_knots.push_back(last_knot);
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 1dfbe74..bea733c 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -26,6 +26,9 @@ SOFTWARE.
 #include <chrono>
 #include <random>
 #include <limits>
+#include <locale>
+#include <sstream>
+#include <string>
 #include "cmmcore/vec.h"
 namespace cmmcore {
 #define EPS_DELTA 1e-12
@@ -129,13 +132,33 @@ inline double calc_epsilon(const double x) noexcept {
         return buf;
     }
 
+    // Format a number as a STEP REAL: it has a decimal point and reads back as the same value
+    inline std::string stepNumber(const double value) {
+        std::ostringstream ss;
+        ss.imbue(std::locale::classic());
+        ss.precision(17);
+        ss << value;
+        std::string text = ss.str();
+        if (text.find('.') == std::string::npos) {
+            const std::size_t mantissa_end = text.find('e');
+            text.insert(mantissa_end == std::string::npos ? text.size() : mantissa_end, ".");
+        }
+        const std::size_t exponent = text.find('e');
+        if (exponent != std::string::npos) text[exponent] = 'E';
+        return text;
+    }
+
+    inline std::string stepNumber(const int value) {
+        return std::to_string(value);
+    }
+
     // Helper function to convert a vector to a STEP-formatted string
     template<typename T>
     std::string vectorToString(const std::vector<T>& vec) {
         std::ostringstream ss;
         ss << "(";
         for (std::size_t i = 0; i < vec.size(); ++i) {
-            ss << vec[i];
+            ss << stepNumber(vec[i]);
             if (i < vec.size() - 1)
                 ss << ", ";
         }
-- 
2.43.0


From 4ecb974433d1d6fa62bc592e8f7de982a3b19f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 44/74] fix: balance the STEP export and join each edge with
 the vertices of its curve

---
 cmmcore/nurbs.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index fc04a49..1d8f1d6 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1395,22 +1395,25 @@ int toSTEP(std::ostream &out, int &entity_id) const {
     // Create and write VERTEX_POINT entities for corners
     std::array<int, 4> vertex_ids;
     for (int i = 0; i < 4; ++i) {
+        // Corners in loop order: (u_min, v_min), (u_max, v_min), (u_max, v_max), (u_min, v_max)
         vec3 point;
-        double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
-        boundaries[i].evaluate(param, point);
+        const NURBSCurve &through = boundaries[i < 2 ? 2 : 3];
+        double param = (i == 0 || i == 3) ? through.interval()[0] : through.interval()[1];
+        through.evaluate(param, point);
         int cartesian_id = entity_id++;
         out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << stepNumber(point.x) << ", " << stepNumber(point.y) << ", " << stepNumber(point.z) << "));\n";
         vertex_ids[i] = entity_id++;
         out << "#" << vertex_ids[i] << " = VERTEX_POINT('', #" << cartesian_id << ");\n";
     }
 
-    // Create EDGE_CURVE entities
+    // Create EDGE_CURVE entities around the loop: v_min, u_max, v_max backwards, u_min backwards
+    const std::array<int, 4> edge_boundaries = {2, 1, 3, 0};
     std::array<int, 4> edge_ids;
     for (int i = 0; i < 4; ++i) {
         int next = (i + 1) % 4;
         int edge_id = entity_id++;
         out << "#" << edge_id << " = EDGE_CURVE('', #" << vertex_ids[i] << ", #" << vertex_ids[next]
-            << ", #" << curve_ids[i] << ", .T.);\n";
+            << ", #" << curve_ids[edge_boundaries[i]] << (i < 2 ? ", .T.);\n" : ", .F.);\n");
         edge_ids[i] = edge_id;
     }
 
@@ -1492,7 +1495,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Create PRODUCT_RELATED_PRODUCT_CATEGORY entity
     int product_related_category_id = entity_id++;
-    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << ");\n";
+    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << "));\n";
 
     // Create APPLICATION_PROTOCOL_DEFINITION entity
     int application_protocol_def_id = entity_id++;
-- 
2.43.0


From 78298e9c9a53aa30a0da165efe754b6a986a2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 45/74] fix: return the converged iterate of point inversion,
 test both directions and stay in the domain

---
 cmmcore/point_inversion.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index f3b60fc..d8fb909 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -19,7 +19,9 @@ bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix,
              const std::array<double, 2>& y,
              std::array<double, 2>& result) noexcept {
     double det = matrix[0][0] * matrix[1][1] - matrix[0][1] * matrix[1][0];
-    if (std::abs(det) < std::numeric_limits<double>::epsilon()) {
+    // Singular relative to the size of the products the determinant is the difference of
+    const double scale = std::abs(matrix[0][0] * matrix[1][1]) + std::abs(matrix[0][1] * matrix[1][0]);
+    if (!(std::abs(det) > std::numeric_limits<double>::epsilon() * scale)) {
         return false;
     }
     // Solve using Cramer's rule
@@ -60,15 +62,17 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         double fpi = C_double_prime.dot(C_point - P) + C_prime.dot(C_prime);
         
         // Check if derivative is too small
-        if (std::abs(fpi) < std::numeric_limits<double>::epsilon()) {
+        if (!(std::abs(fpi) > std::numeric_limits<double>::epsilon() * C_prime.dot(C_prime))) {
             break;
         }
         
-        // Newton step
-        double ui1 = ui - fi / fpi;
+        // Newton step, kept on the curve
+        double ui1 = std::max(curve.interval()[0], std::min(ui - fi / fpi, curve.interval()[1]));
+        const double step = std::abs(ui1 - ui) * C_prime.length();
+        ui = ui1;
         
         // Convergence check 1: Parameter change small enough
-        if (std::abs(ui1 - ui) * C_prime.length() <= tol1) {
+        if (step <= tol1) {
             break;
         }
         
@@ -90,7 +94,6 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         }
         
         curve.second_derivative_fdm(ui1, C_double_prime);
-        ui = ui1;
     }
     
     return ui;
@@ -115,6 +118,7 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
     // Initialize current parameter point
     std::array<double,2> uivi = {u0, v0};
     std::array<double,2> delta = {0.0, 0.0};
+    const auto &interval = surface.interval();
     
     // Temporary storage for evaluated points/derivatives
     vec3 S_point, du, dv;
@@ -145,17 +149,19 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
             throw std::runtime_error("Failed to solve 2x2 system in surface inversion");
         }
         
-        // Update parameters
+        // Update parameters, kept on the surface
         std::array<double,2> ui1vi1 = {
-            uivi[0] - delta[0],
-            uivi[1] - delta[1]
+            std::max(interval[0][0], std::min(uivi[0] - delta[0], interval[0][1])),
+            std::max(interval[1][0], std::min(uivi[1] - delta[1], interval[1][1]))
         };
+        const double step = std::abs(ui1vi1[0] - uivi[0]) * du.length() +
+            std::abs(ui1vi1[1] - uivi[1]) * dv.length();
+        uivi = ui1vi1;
         
         // Check convergence criteria
         
         // 1. Parameter update small enough?
-        if ((ui1vi1[0] - uivi[0]) * du.length() + 
-            (ui1vi1[1] - uivi[1]) * dv.length() <= tol1) {
+        if (step <= tol1) {
             break;
         }
         
@@ -167,13 +173,14 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
         
         // 3. Perpendicularity condition met?
         surface.derivative_u(ui1vi1[0], ui1vi1[1], du);
+        surface.derivative_v(ui1vi1[0], ui1vi1[1], dv);
         vec3 pt_diff = S_point - P;
         if (std::abs(du.dot(pt_diff)) / 
-            (du.length() * pt_diff.length()) <= tol2) {
+            (du.length() * pt_diff.length()) <= tol2 &&
+            std::abs(dv.dot(pt_diff)) /
+            (dv.length() * pt_diff.length()) <= tol2) {
             break;
         }
-        
-        uivi = ui1vi1;
     }
     
     return uivi;
-- 
2.43.0


From 30d3331343b8f90ad7cd5a11919904b012ae10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 46/74] fix: quantise polyline points without integer overflow
 and with one key

---
 cmmcore/polyline.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 6c82be3..1135629 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -26,7 +26,10 @@ SOFTWARE.
 #include <iostream>
 #include <vector>
 #include <list>
+#include <unordered_map>
 #include <unordered_set>
+#include <algorithm>
+#include <functional>
 #include <cmath>
 #include <limits>
 #ifdef CYTHON_ABI
@@ -42,15 +45,16 @@ const double eps = std::numeric_limits<double>::epsilon();
 
 // Quantization function for spatial hashing
 struct PointKey {
-    int x, y, z;
+    // Cell numbers exceed every integer type already for moderate coordinates
+    double x, y, z;
     PointKey() = default;
     PointKey(double x, double y, double z) : x(x), y(y), z(z) {}
 
 
       PointKey(const vec3& point) {
-        x = static_cast<int>(std::floor(point.x / eps + 0.5));
-        y = static_cast<int>(std::floor(point.y / eps + 0.5));
-        z = static_cast<int>(std::floor(point.z / eps + 0.5));
+        x = std::floor(point.x / eps + 0.5);
+        y = std::floor(point.y / eps + 0.5);
+        z = std::floor(point.z / eps + 0.5);
     }
 
 
@@ -62,9 +66,10 @@ struct PointKey {
 // Custom hash function for PointKey
 struct PointKeyHash {
     std::size_t operator()(const PointKey& key) const {
-        return (static_cast<std::size_t>(key.x) * 73856093) ^
-               (static_cast<std::size_t>(key.y) * 19349663) ^
-               (static_cast<std::size_t>(key.z) * 83492791);
+        const std::hash<double> hash{};
+        return (hash(key.x) * 73856093) ^
+               (hash(key.y) * 19349663) ^
+               (hash(key.z) * 83492791);
     }
 };
 
@@ -92,7 +97,7 @@ void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
 
 // Function to remove an endpoint from the spatial index
 void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
-    PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
+    PointKey key(endpoint->point);
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
     if (vec.empty()) {
-- 
2.43.0


From f689053327f70eb311f0a6f5d835627a3a11b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 47/74] fix: deep-copy kd-trees and assign BVH nodes from their
 own subtrees safely

---
 cmmcore/bvh.hpp  | 20 ++++++--------------
 cmmcore/kdtree.h | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 791e381..b831301 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -141,20 +141,12 @@ public:
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
 
-    bounding_box = other.bounding_box;
-
-    object=other.object;
-
-    if (other.left) {
-      left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-    } else {
-      left.reset();  // Ensure left is null if other.left is null
-    }
-    if (other.right) {
-      right = std::make_unique<BVHNode>(*other.right);  // Recursively copy right subtree
-    } else {
-      right.reset();  // Ensure right is null if other.right is null
-    }
+    // `other` may be a descendant of this node, so copy it before releasing anything
+    BVHNode copy(other);
+    bounding_box = copy.bounding_box;
+    object = copy.object;
+    left.swap(copy.left);
+    right.swap(copy.right);
 
     return *this;
   }
diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 7c43e17..d38bf2f 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -159,10 +159,34 @@ private:
         delete node;
     }
 
+    // Recursive function to copy the KD-Tree
+    static node_type* copyKDTree(const node_type* node) {
+        if (node == nullptr)
+            return nullptr;
+        node_type* result = new node_type(node->point, node->axis);
+        result->left = copyKDTree(node->left);
+        result->right = copyKDTree(node->right);
+        return result;
+    }
+
 public:
     // Constructor
     KDTree() : root(nullptr), size_(0) {}
 
+    // Each tree owns its nodes: copies are deep, moves leave an empty tree
+    KDTree(const KDTree& other) : root(copyKDTree(other.root)), size_(other.size_) {}
+
+    KDTree(KDTree&& other) noexcept : root(other.root), size_(other.size_) {
+        other.root = nullptr;
+        other.size_ = 0;
+    }
+
+    KDTree& operator=(KDTree other) noexcept {
+        std::swap(root, other.root);
+        std::swap(size_, other.size_);
+        return *this;
+    }
+
     // Destructor
     ~KDTree() {
         deleteKDTree(root);
-- 
2.43.0


From 55480d014bd626b8d3ec3363b30d6727d4b6b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:37 +0000
Subject: [PATCH 48/74] fix: make vec2 scaling in place unambiguous

---
 cmmcore/vec.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 10941db..620d49e 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -119,10 +119,6 @@ namespace cmmcore {
     vec2 operator*(const double& val) const {
       return {x*val, y*val};
     }
-    void operator*=(const double& val) {
-      x*=val;
-      y*=val;
-    }
     void operator+=(const vec2& other) {
       x+=other.x;
       y+=other.y;
-- 
2.43.0


From 899e619c92f4e69afb846305f5a8d22b738e15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 49/74] fix: recognise collinear vectors despite rounding

---
 cmmcore/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 620d49e..323cc5f 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -67,7 +67,8 @@ namespace cmmcore {
   };
 #define CMMCORE_VEC_PROJECTION(self,other) ((self).dot(other) / (other).dot(other))
 #define CMMCORE_VEC_PROJECT(self,other) other*((self).dot(other) / (other).dot(other))
-#define CMMCORE_VEC_COLLINEAR(self,other) std::abs((self).unit().dot((other).unit()))==1.
+// The dot product of two rounded unit vectors is off by a few ulps
+#define CMMCORE_VEC_COLLINEAR(self,other) std::abs((self).unit().dot((other).unit()))>=1.-8*std::numeric_limits<double>::epsilon()
 #define CMMCORE_VEC_PARALLEL(self,other) (self).unit().dot((other).unit())==1.
 #define CMMCORE_VEC_PERP(self,other) (self).unit().dot((other).unit())==0
   
-- 
2.43.0


From 263a1351a39763ddae774937ee9504cfc3610455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 50/74] fix: separate all components of printed vectors

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 323cc5f..c4c5d0c 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -992,13 +992,13 @@ struct vec4 {
     return os;
   }
   std::ostream& operator<<(std::ostream& os, const vec3& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z <<"]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z << "]";
     return os;
   }
 
 
   std::ostream& operator<<(std::ostream& os, const vec4& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z << obj.w << "]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
   }
 
-- 
2.43.0


From 73ac3f449324ae9868624c48304c767a434dd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:08 +0000
Subject: [PATCH 51/74] fix: size an extracted column by the number of rows

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index bea733c..f0e07f6 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -35,7 +35,7 @@ namespace cmmcore {
 
     template <typename T>
     void vectorColumn(const std::vector<std::vector<T>>& matrix, const  size_t columnIndex,std::vector<T>& column) {
-        column.resize(matrix[0].size());
+        column.resize(matrix.size());
         size_t i=0;
         for (const auto& row : matrix) {
 
-- 
2.43.0


From 6e83077c0edd96f0e97e2af264d32634891533b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 52/74] fix: ignore zero-length polygon edges when collecting
 normals

---
 cmmcore/polygon.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index 5648564..4928d65 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -139,6 +139,8 @@ inline PolygonRelationship2D polygonRelationship2D(const polygon2& poly1, const
         for( size_t i = 0; i < polygon.size(); i++ ) {
             size_t  j = ( i + 1 ) % polygon.size();
             vec2 n={polygon[j].y - polygon[i].y, polygon[i].x - polygon[j].x};
+            // An edge between coincident vertices has no normal
+            if (n.length() == 0) continue;
 
             if (contains(normals,n)) {
                 continue;
-- 
2.43.0


From 59cd20b69683208fab0de8759f463ae97ec3cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 53/74] fix: skip zero-length edges in the planar separating
 axis test

---
 cmmcore/separability.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index 928974c..e3685af 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -59,6 +59,8 @@ namespace cmmcore
       {
         size_t j = (i + 1) % p.size();
         vec2 n = {p[j].y - p[i].y, p[i].x - p[j].x};
+        // An edge between coincident vertices has no normal
+        if (n.length() == 0) continue;
 
         if (contains(normals, n)) {
           continue;
-- 
2.43.0


From cbf08b1ec0c0b9d301f178422debd00f12b7f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 54/74] fix: ignore zero-length edges when relating polygons

---
 cmmcore/polygon.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index 4928d65..688bd8a 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -97,6 +97,8 @@ inline PolygonRelationship2D polygonRelationship2D(const polygon2& poly1, const
 
     bool touching = false;
     for (const auto& axis : axes) {
+        // An edge between coincident vertices has no normal
+        if (axis.length() == 0) continue;
         auto proj1 = projectPolygon(poly1, axis);
         auto proj2 = projectPolygon(poly2, axis);
 
-- 
2.43.0


From e763e985648b0d6438850bbaa722f4b78e902ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 55/74] fix: count intersection calls per thread

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index b540ccf..98c4c38 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -82,7 +82,7 @@ namespace cmmcore
         uv_new.set(point_inversion_surface(surf, xyz_new, uv_old.x, uv_old.y, tol, tol, max_iter));
     }
 
-    static int counter = 0;
+    static thread_local int counter = 0;
     using UnorderedSetPairDouble = std::unordered_set<
         std::pair<double, double>, _hashimpl::PairDoubleHash, _hashimpl::PairDoubleEqual>;
 
-- 
2.43.0


From 18e882623cd4f52363f8c5e8bf8402ef6e3fa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:08 +0000
Subject: [PATCH 56/74] fix: take time stamps without the shared buffers of
 gmtime and localtime

---
 cmmcore/nurbs.h | 8 +++++++-
 cmmcore/utils.h | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 1d8f1d6..8680dc9 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1570,7 +1570,13 @@ int toSTEP(std::ostream &out, int &entity_id) const {
          */
         static std::string getCurrentDateTime() {
             std::time_t t = std::time(nullptr);
-            std::tm tm = *std::gmtime(&t);
+            // std::gmtime returns a buffer shared by all threads
+            std::tm tm{};
+#if defined(_WIN32)
+            gmtime_s(&tm, &t);
+#else
+            gmtime_r(&t, &tm);
+#endif
             char buffer[30];
             std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%S%z", &tm);
             return std::string(buffer);
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index f0e07f6..c2aa244 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -125,7 +125,7 @@ inline double calc_epsilon(const double x) noexcept {
 #if defined(_MSC_VER)
         localtime_s(&tstruct, &now);
 #else
-        tstruct = *localtime(&now);
+        localtime_r(&now, &tstruct);
 #endif
         char buf[80];
         strftime(buf, sizeof(buf), "%Y-%m-%dT%H:%M:%S", &tstruct);
-- 
2.43.0


From 4398d1ec1b25d09ec51a143662060d3192c72f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 57/74] fix: give each thread its own random generator

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index c2aa244..c528eb7 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -65,7 +65,7 @@ inline double calc_epsilon(const double x) noexcept {
     }
     return relative_epsilon;
 }
-    inline double random_double(double const min, double const max) {static std::random_device rd;static std::mt19937 gen(rd());std::uniform_real_distribution<> dis(min, max);return static_cast<double>(dis(gen));
+    inline double random_double(double const min, double const max) {thread_local std::random_device rd;thread_local std::mt19937 gen(rd());std::uniform_real_distribution<> dis(min, max);return static_cast<double>(dis(gen));
 }
 
     inline vec3 random_vec3(double const min, double const max) {
-- 
2.43.0


From b7902741c68bc006140febf699e265b79bfc1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 58/74] fix: take a support point even when all products
 overflow

---
 cmmcore/gjk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index cacb0cd..c186cae 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -186,7 +186,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
 
 inline int supportVector(const std::vector<vec3> &vertices, const vec3 &d) {
     double highest = -std::numeric_limits<double>::max();
-    int supportIndex = -1;
+    int supportIndex = 0;
 
     for (size_t i = 0; i < vertices.size(); ++i) {
       double dotValue = vertices[i].dot(d);
-- 
2.43.0


From 2dbb409df55ca41b377b3cf05b85878c2846ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:09 +0000
Subject: [PATCH 59/74] fix: report every branch that crosses a simple surface
 pair, not only the first and last boundary point

---
 cmmcore/ssx.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 98c4c38..c79eebb 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -127,7 +127,13 @@ namespace cmmcore
         auto n = ixs.size();
         if (n >= 2)
         {
-            intersection.patches.emplace_back(ixs[0], ixs[n - 1]);
+            // several branches may cross the pair, each enters and leaves it through the boundaries
+            std::vector<std::vector<IntersectionPoint>> branches;
+            sort_boundary_intersections(ixs, branches);
+            for (const auto& branch : branches)
+            {
+                intersection.patches.emplace_back(branch.front(), branch.back());
+            }
         }
 
         else
-- 
2.43.0


From 44daffa8504bb8e7fc0d43dc3e9afb2daa4505c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:49 +0000
Subject: [PATCH 60/74] fix: improve surface parameters also where the
 determinant is negative

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index c79eebb..d1b533b 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -43,7 +43,7 @@ namespace cmmcore
             for (size_t i = 0; i < 3; ++i)
             {
                 temp = mat[i].det();
-                if (temp > dett)
+                if (std::abs(temp) > std::abs(dett))
                 {
                     dett = temp;
                     n = i;
-- 
2.43.0


From 08e45de3cdf4365a02093ad99478e5a82220d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 61/74] fix: refine closely spaced knots exactly

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 16e9e20..c58674a 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -985,7 +985,7 @@ namespace cmmcore {
             for (int l = 1; l <= degree; ++l) {
                 int idx = k - degree + l;
                 double alpha = new_kv[k + l] - X[j];
-                if (std::fabs(alpha) < 1e-8) {
+                if (alpha == 0.0) {
                     new_ctrlpts[idx - 1] = new_ctrlpts[idx];
                 } else {
                     alpha = alpha / (new_kv[k + l] - knots[i - degree + l]);
-- 
2.43.0


From a753a0749a190e0c0bb1921c2ab4c167f4a29f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:59 +0000
Subject: [PATCH 62/74] fix: allow for the degree of Gauss maps in the
 fixed-size basis buffers

---
 cmmcore/nurbs_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c58674a..6cf02a5 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -27,7 +27,8 @@ namespace cmmcore {
     // which critically affects performance. Can be overridden at compile time .
 #ifndef CMMCORE_MAX_DEGREE
 
-    #define CMMCORE_MAX_DEGREE 8
+    // Gauss maps of surfaces of degree 8 have degree 15
+    #define CMMCORE_MAX_DEGREE 15
 #endif
     inline bool contains(std::unordered_set<double> &s, double val) {
         return std::find(s.begin(), s.end(), val) != s.end();
-- 
2.43.0


From c4854df339367829ea55155ff2b7a97d96a40f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:08 +0000
Subject: [PATCH 63/74] fix: give surfaces built from monomial form their
 bounding box

---
 cmmcore/monomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 1117443..c0aefd7 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -229,6 +229,7 @@ namespace cmmcore
             surf.generate_knots_u();
             surf.generate_knots_v();
             surf.update_interval();
+            surf.rebuildAABB();
 
 
         }
-- 
2.43.0


From 4103318c13ca124143471d6cc675d6fef873a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:22 +0000
Subject: [PATCH 64/74] fix: derive the control net of a sub-range of surface
 control points from that range

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 6cf02a5..9962cda 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -435,7 +435,7 @@ namespace cmmcore {
 
                 // Extract the control points for the current U-curve
                 for (int j = 0; j <= s; ++j) {
-                    temp_cpts_v[j] = PKL[k][0][i][j];
+                    temp_cpts_v[ss[0] + j] = PKL[k][0][i][j];
                 }
 
                 // Compute derivative control points in V direction
-- 
2.43.0


From e86732fe1c13c3f9a2e580cc4223a6482de7f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:34 +0000
Subject: [PATCH 65/74] fix: report curve-surface intersections found in pieces
 too small to subdivide

---
 cmmcore/csx.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index cf680c1..ff81746 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -75,6 +75,17 @@ namespace cmmcore {
             }
 
             auto new_point = _find_new_intersection(curve, surface);
+            if (new_point.has_value()) {
+                const auto &[point, params] = new_point.value();
+
+                if (!_is_known(point, params)) {
+                    if (_is_degenerate(params, curve, surface)) {
+                        intersections.emplace_back(CSXType::DEGENERATE, point, params);
+                    } else {
+                        intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
+                    }
+                }
+            }
             auto [u0, u1] = surface._interval[0];
             auto [v0, v1] = surface._interval[1];
             double u = (u0 + u1) * 0.5;
@@ -102,14 +113,6 @@ namespace cmmcore {
             } else {
                 auto [point, params] = new_point.value();
 
-                if (!_is_known(point, params)) {
-                    if (_is_degenerate(params, curve, surface)) {
-                        intersections.emplace_back(CSXType::DEGENERATE, point, params);
-                    } else {
-                        intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
-                    }
-                }
-
                 // Split curve and surface at the intersection point. Where it lies on an edge of this piece there is
                 // nothing to split off, so that direction is halved instead.
                 const auto split_param = [&](const double param, const std::array<double, 2> &interval) {
-- 
2.43.0


From 24488d075cd479a88b5faefe3ddee5f1d49b1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 66/74] fix: do not stop curve-surface intersection at surface
 pieces the size of the curve's parameter tolerance

---
 cmmcore/csx.h | 58 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index ff81746..5dd3fe7 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -32,7 +32,8 @@ namespace cmmcore {
     class NURBSCurveSurfaceIntersector {
     public:
         NURBSCurveSurfaceIntersector(const NURBSCurve &curve, const NURBSSurface &surface, double tolerance = 1e-3, double ptol = 1e-7)
-            : _curve(curve), _surface(surface), tolerance(tolerance), ptol(ptol) {}
+            : _curve(curve), _surface(surface), tolerance(tolerance), ptol(ptol),
+              surface_ptol(_surface_ptol(surface, tolerance, ptol)) {}
 
          CSXIntersections& intersect() {
             intersections.clear();
@@ -45,8 +46,37 @@ namespace cmmcore {
         const NURBSSurface &_surface;
         double tolerance;
         double ptol;
+        // The parameter tolerance belongs to the curve. On a surface that is long compared to the curve the same
+        // parameter step covers a larger distance, so the surface directions have their own.
+        std::array<double, 2> surface_ptol;
         CSXIntersections intersections;
 
+        static std::array<double, 2> _surface_ptol(const NURBSSurface &surface, const double tolerance, const double ptol) {
+            const auto points = surface.control_points3d();
+            std::array<double, 2> length = {0., 0.};
+            for (size_t j = 0; j < points[0].size(); ++j) {
+                double row = 0.;
+                for (size_t i = 1; i < points.size(); ++i) {
+                    row += (points[i][j] - points[i - 1][j]).length();
+                }
+                length[0] = std::max(length[0], row);
+            }
+            for (const auto &points_v : points) {
+                double row = 0.;
+                for (size_t j = 1; j < points_v.size(); ++j) {
+                    row += (points_v[j] - points_v[j - 1]).length();
+                }
+                length[1] = std::max(length[1], row);
+            }
+            std::array<double, 2> result = {ptol, ptol};
+            for (size_t i = 0; i < 2; ++i) {
+                if (length[i] > 0.) {
+                    result[i] = std::min(ptol, tolerance * (surface._interval[i][1] - surface._interval[i][0]) / length[i]);
+                }
+            }
+            return result;
+        }
+
         bool _is_valid_point(vec3 point, const NURBSCurve& curve, const NURBSSurface& surface,
                               const Vector<3>& params) const {
             vec3 curve_pt;
@@ -65,8 +95,8 @@ namespace cmmcore {
             // Check if we're already at a too small subdivision
 
             if (std::abs(curve._interval[1] - curve._interval[0]) < ptol ||
-                std::abs(surface._interval[0][1] - surface._interval[0][0]) < ptol ||
-                std::abs(surface._interval[1][1] - surface._interval[1][0] )< ptol) {
+                std::abs(surface._interval[0][1] - surface._interval[0][0]) < surface_ptol[0] ||
+                std::abs(surface._interval[1][1] - surface._interval[1][0] )< surface_ptol[1]) {
                 return;
             }
 
@@ -91,8 +121,8 @@ namespace cmmcore {
             double u = (u0 + u1) * 0.5;
             double v = (v0 + v1) * 0.5;
 
-            if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
+            if (std::abs(u - u0) < surface_ptol[0] || std::abs(u - u1) < surface_ptol[0] ||
+                std::abs(v - v0) < surface_ptol[1] || std::abs(v - v1) < surface_ptol[1]) {
                 return;
             }
 
@@ -115,14 +145,14 @@ namespace cmmcore {
 
                 // Split curve and surface at the intersection point. Where it lies on an edge of this piece there is
                 // nothing to split off, so that direction is halved instead.
-                const auto split_param = [&](const double param, const std::array<double, 2> &interval) {
-                    return std::abs(param - interval[0]) < ptol || std::abs(param - interval[1]) < ptol
+                const auto split_param = [&](const double param, const std::array<double, 2> &interval, const double eps) {
+                    return std::abs(param - interval[0]) < eps || std::abs(param - interval[1]) < eps
                                ? 0.5 * (interval[0] + interval[1])
                                : param;
                 };
-                auto [curve1, curve2] = curve.split(split_param(params[0], curve._interval), false); // normalize_knots=false
-                auto surfaces = surface.subdivide(split_param(params[1], surface._interval[0]),
-                                                  split_param(params[2], surface._interval[1])); // normalize_knots=false
+                auto [curve1, curve2] = curve.split(split_param(params[0], curve._interval, ptol), false); // normalize_knots=false
+                auto surfaces = surface.subdivide(split_param(params[1], surface._interval[0], surface_ptol[0]),
+                                                  split_param(params[2], surface._interval[1], surface_ptol[1])); // normalize_knots=false
 
                 // Recursively check each combination
                 for (const auto& s : surfaces) {
@@ -151,11 +181,11 @@ namespace cmmcore {
         }
 
         bool _is_corner(const Vector<3> &params, const NURBSCurve &curve, const NURBSSurface &surface) const {
-            const auto at_end = [&](const double param, const std::array<double, 2> &interval) {
-                return std::abs(param - interval[0]) < ptol || std::abs(param - interval[1]) < ptol;
+            const auto at_end = [&](const double param, const std::array<double, 2> &interval, const double eps) {
+                return std::abs(param - interval[0]) < eps || std::abs(param - interval[1]) < eps;
             };
-            return at_end(params[0], curve._interval) && at_end(params[1], surface._interval[0]) &&
-                   at_end(params[2], surface._interval[1]);
+            return at_end(params[0], curve._interval, ptol) && at_end(params[1], surface._interval[0], surface_ptol[0]) &&
+                   at_end(params[2], surface._interval[1], surface_ptol[1]);
         }
 
         bool _no_new_intersections(const NURBSCurve &curve, const NURBSSurface &surface) const {
-- 
2.43.0


From a259b45bf5a0c396941e3386eb73f70b628a7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:02 +0000
Subject: [PATCH 67/74] fix: do not merge distant curve-curve intersections
 whose parameters are close

---
 cmmcore/ccx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index 5946936..2e10a9a 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -105,8 +105,10 @@ namespace cmmcore {
                 double _first = 0.5 * (iv1[0] + iv1[1]);
                 double _second = 0.5 * (iv2[0] + iv2[1]);
                 if (l > 0) {
-                    if ((std::abs(result[l - 1].first - _first) <= tol) && (
-                            std::abs(result[l - 1].second - _second) <= tol)) {
+                    // Neighbouring pieces report the same intersection. The parameters can run arbitrarily slowly along
+                    // the curves, so what counts as neighbouring follows from the size of the pieces.
+                    if ((std::abs(result[l - 1].first - _first) <= std::min(tol, 2. * (iv1[1] - iv1[0]))) && (
+                            std::abs(result[l - 1].second - _second) <= std::min(tol, 2. * (iv2[1] - iv2[0])))) {
                         return;
                     }
                 }
-- 
2.43.0


From 3707f7f762421b15eb48b4e0ba0728eed30cf4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:42 +0000
Subject: [PATCH 68/74] fix: keep curve-surface Newton steps near the domain,
 where the weights do not cancel

---
 cmmcore/csx.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 5dd3fe7..9b04109 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -10,6 +10,7 @@
 #include <tuple>
 #include <optional>
 #include <cmath>
+#include <limits>
 
 #include "separability.h"
 #include "cmmcore/nurbs.h"
@@ -208,7 +209,11 @@ namespace cmmcore {
 
         std::optional<std::pair<vec3, Vector<3>>> _find_new_intersection(const NURBSCurve &curve, const NURBSSurface &surface) {
             auto equation = [&](const Vector<3> &params) -> double {
-                // First validate parameters are in range
+                // First validate parameters are in range: far from the domain the extrapolated weights can cancel to zero
+                    if (_is_far(params[0], _curve._interval) || _is_far(params[1], _surface._interval[0]) ||
+                        _is_far(params[2], _surface._interval[1])) {
+                        return std::numeric_limits<double>::infinity();
+                    }
                     vec3 curve_pt, surface_pt;
                     // The pieces may have arbitrarily short knot spans, so outside of them only the originals are reliable.
                     _curve.evaluate(params[0], curve_pt);
@@ -241,6 +246,12 @@ namespace cmmcore {
             return std::nullopt;
         }
 
+        // Further outside of the interval than it is long
+        static bool _is_far(const double param, const std::array<double, 2> &interval) {
+            const double length = interval[1] - interval[0];
+            return !(param >= interval[0] - length && param <= interval[1] + length);
+        }
+
         void _snap_to_interval(double &param, const std::array<double, 2> &interval) const {
             if (param < interval[0] && param > interval[0] - ptol) {
                 param = interval[0];
-- 
2.43.0


From 5d4774f1c92f2036005116857909eb0e6553ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:51 +0000
Subject: [PATCH 69/74] fix: do not skip narrow surface pieces next to a found
 curve-surface intersection

---
 cmmcore/csx.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 9b04109..65f4fe9 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -155,6 +155,12 @@ namespace cmmcore {
                 auto surfaces = surface.subdivide(split_param(params[1], surface._interval[0], surface_ptol[0]),
                                                   split_param(params[2], surface._interval[1], surface_ptol[1])); // normalize_knots=false
 
+                // Only the corners at the intersection point have no direction as seen from it. Everything else counts, even
+                // within the tolerance: a narrow piece of the surface can contain another intersection further away.
+                vec3 surface_point;
+                _surface.evaluate(params[1], params[2], surface_point);
+                const double corner_tol = std::min(tolerance, 2. * (point - surface_point).length() + 1e-3 * tolerance);
+
                 // Recursively check each combination
                 for (const auto& s : surfaces) {
                     std::vector<vec3> surface_points = s.control_points_flat3d();
@@ -163,7 +169,7 @@ namespace cmmcore {
                         // Pieces that share the corner at the intersection point and whose projections onto the
                         // sphere around it are disjoint meet nowhere else.
                         if (_is_corner(params, *c, s) &&
-                            SphericalCentralProjectionTest2(point, curve_points, surface_points, tolerance)) {
+                            SphericalCentralProjectionTest2(point, curve_points, surface_points, corner_tol)) {
                             continue;
                         }
                         _curve_surface_intersect(*c, s);
-- 
2.43.0


From 1a3e0b3d44de2c7d2b5d7f9a395a9093f8bba1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:05 +0000
Subject: [PATCH 70/74] fix: label curve-surface intersections with the whole
 curve and surface, not with the piece at hand

---
 cmmcore/csx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 65f4fe9..2a5fe5f 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -110,7 +110,8 @@ namespace cmmcore {
                 const auto &[point, params] = new_point.value();
 
                 if (!_is_known(point, params)) {
-                    if (_is_degenerate(params, curve, surface)) {
+                    // The differences of the normal would leave a piece that ends just beyond a knot.
+                    if (_is_degenerate(params, _curve, _surface)) {
                         intersections.emplace_back(CSXType::DEGENERATE, point, params);
                     } else {
                         intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
-- 
2.43.0


From 277b2ab2b561cb823853e6ea01a94cdcc6d71ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:11 +0000
Subject: [PATCH 71/74] fix: split, decompose and intersect periodic curves
 over their domain only

---
 cmmcore/nurbs.h | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 8680dc9..ebb687c 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -174,10 +174,45 @@ namespace cmmcore {
 
         // Update interval based on knots
         void update_interval() {
+            if (_degree >= 0 && knots.size() == control_points.size() + _degree + 1) {
+                // The knots beyond the ends of an unclamped curve are not a part of its domain
+                _interval[0] = knots[_degree];
+                _interval[1] = knots[control_points.size()];
+                return;
+            }
             _interval[0] = std::min_element(knots.begin(), knots.end())[0];
             _interval[1] = std::max_element(knots.begin(), knots.end())[0];
         }
 
+        // Clamp the ends of an unclamped curve, its shape and interval stay the same
+        void clamp_ends() {
+            const int n = static_cast<int>(control_points.size());
+            if (_degree < 1 || n <= _degree || static_cast<int>(knots.size()) != n + _degree + 1) {
+                return;
+            }
+            const double a = knots[_degree];
+            const double b = knots[n];
+            if (knots.front() == a && knots.back() == b) {
+                return;
+            }
+            for (int r = 1; r <= _degree; ++r) {
+                for (int i = 0; i <= _degree - r; ++i) {
+                    const double f = (a - knots[i + r]) / (knots[i + _degree + 1] - knots[i + r]);
+                    control_points[i] = control_points[i] * (1 - f) + control_points[i + 1] * f;
+                }
+            }
+            std::fill(knots.begin(), knots.begin() + _degree, a);
+            for (int r = 1; r <= _degree; ++r) {
+                for (int i = n - 1; i >= n - 1 - _degree + r; --i) {
+                    const double f = (b - knots[i]) / (knots[i + _degree - r + 1] - knots[i]);
+                    control_points[i] = control_points[i - 1] * (1 - f) + control_points[i] * f;
+                }
+            }
+            std::fill(knots.begin() + n + 1, knots.end(), b);
+            update_interval();
+            rebuildAABB();
+        }
+
         // Hook function called after knots are updated
         void knots_update_hook() {
             update_interval();
@@ -273,14 +308,15 @@ namespace cmmcore {
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
             }
-            param = snap_to_knot(param, knots);
+            NURBSCurve temp_obj(this->control_points, this->_degree, this->knots, this->_periodic);
+            temp_obj.update_interval();
+            temp_obj.clamp_ends();
+            param = snap_to_knot(param, temp_obj.knots);
             int n_ctrlpts = static_cast<int>(control_points.size());
-            auto ks = find_span(n_ctrlpts, _degree, param, knots, false) - _degree + 1;
-            int s = find_multiplicity(param, knots);
+            auto ks = find_span(n_ctrlpts, _degree, param, temp_obj.knots, false) - _degree + 1;
+            int s = find_multiplicity(param, temp_obj.knots);
             int r = _degree - s;
             // Insert knot
-            NURBSCurve temp_obj(this->control_points, this->_degree, this->knots, this->_periodic);
-            temp_obj.update_interval();
             temp_obj.insert_knot(param, r);
             // Knot span index
             int knot_span = find_span(temp_obj.control_points.size(), _degree, param, temp_obj.knots, false) + 1;
@@ -532,7 +568,7 @@ namespace cmmcore {
         std::vector<double> knots{};
         bool _periodic = false;
         std::vector<vec3> _hull{};
-        std::array<double, 2> _interval{0., 1.}; // [min_knot, max_knot]
+        std::array<double, 2> _interval{0., 1.}; // domain of the curve
         AABB _aabb{};
         // Helper methods
         void rebuildAABB() {
@@ -558,6 +594,7 @@ namespace cmmcore {
             // Create a temporary copy of the curve to perform splits
             NURBSCurve temp = *this;
             temp.update_interval();
+            temp.clamp_ends();
 
 
             // Extract unique knots from the knot vector
-- 
2.43.0


From cb161196c20ac5332008685d423f39c293c376e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 72/74] fix: join unclamped curves at the points where they end

---
 cmmcore/nurbs.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index ebb687c..6d28823 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -653,33 +653,38 @@ namespace cmmcore {
                 return false;
             }
 
-            // Get control points from both curves
+            // Get control points from both curves, which end at the ends of the curves only when clamped
+            NURBSCurve first_clamped(*this), second_clamped(second);
+            first_clamped.clamp_ends();
+            second_clamped.clamp_ends();
+            const std::vector<vec4> &first_points = first_clamped.control_points;
+            const std::vector<vec4> &second_points = second_clamped.control_points;
             std::vector<vec4> new_control_points;
             new_control_points.reserve(control_points.size() + second.control_points.size());
 
             // Join based on which endpoints match
             if (end_start) {
                 // Normal case: first end to second start
-                new_control_points = control_points;
+                new_control_points = first_points;
                 new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
+                                          second_points.begin(), second_points.end());
             } else if (start_start) {
                 // Reverse first curve
                 new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
+                                          first_points.rbegin(), first_points.rend());
                 new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
+                                          second_points.begin(), second_points.end());
             } else if (end_end) {
                 // Reverse second curve
-                new_control_points = control_points;
+                new_control_points = first_points;
                 new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
+                                          second_points.rbegin(), second_points.rend());
             } else if (start_end) {
                 // Reverse first curve and reverse second curve
                 new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
+                                          first_points.rbegin(), first_points.rend());
                 new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
+                                          second_points.rbegin(), second_points.rend());
             }
 
             // If both start and end points match (after potential reversals), make it periodic
-- 
2.43.0


From a182baaeb31b47fea8ac3dc289f2ac29d783fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:55 +0000
Subject: [PATCH 73/74] fix: split, decompose and intersect unclamped surfaces
 over their domain only

---
 cmmcore/nurbs.h | 134 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 98 insertions(+), 36 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 6d28823..4e4541d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -47,6 +47,41 @@ namespace cmmcore {
                 result.push_back(new_row);
             }
         }
+
+        /**
+         * Clamps the ends of an unclamped curve, its shape and domain stay the same.
+         *
+         * @param degree Degree of the curve.
+         * @param knots Knot vector.
+         * @param control_points Control points.
+         * @return true if there was anything to clamp.
+         */
+        inline bool clampEnds(const int degree, std::vector<double> &knots, std::vector<vec4> &control_points) {
+            const int n = static_cast<int>(control_points.size());
+            if (degree < 1 || n <= degree || static_cast<int>(knots.size()) != n + degree + 1) {
+                return false;
+            }
+            const double a = knots[degree];
+            const double b = knots[n];
+            if (knots.front() == a && knots.back() == b) {
+                return false;
+            }
+            for (int r = 1; r <= degree; ++r) {
+                for (int i = 0; i <= degree - r; ++i) {
+                    const double f = (a - knots[i + r]) / (knots[i + degree + 1] - knots[i + r]);
+                    control_points[i] = control_points[i] * (1 - f) + control_points[i + 1] * f;
+                }
+            }
+            std::fill(knots.begin(), knots.begin() + degree, a);
+            for (int r = 1; r <= degree; ++r) {
+                for (int i = n - 1; i >= n - 1 - degree + r; --i) {
+                    const double f = (b - knots[i]) / (knots[i + degree - r + 1] - knots[i]);
+                    control_points[i] = control_points[i - 1] * (1 - f) + control_points[i] * f;
+                }
+            }
+            std::fill(knots.begin() + n + 1, knots.end(), b);
+            return true;
+        }
     }
 
     class NURBSCurve {
@@ -186,31 +221,10 @@ namespace cmmcore {
 
         // Clamp the ends of an unclamped curve, its shape and interval stay the same
         void clamp_ends() {
-            const int n = static_cast<int>(control_points.size());
-            if (_degree < 1 || n <= _degree || static_cast<int>(knots.size()) != n + _degree + 1) {
-                return;
-            }
-            const double a = knots[_degree];
-            const double b = knots[n];
-            if (knots.front() == a && knots.back() == b) {
-                return;
-            }
-            for (int r = 1; r <= _degree; ++r) {
-                for (int i = 0; i <= _degree - r; ++i) {
-                    const double f = (a - knots[i + r]) / (knots[i + _degree + 1] - knots[i + r]);
-                    control_points[i] = control_points[i] * (1 - f) + control_points[i + 1] * f;
-                }
-            }
-            std::fill(knots.begin(), knots.begin() + _degree, a);
-            for (int r = 1; r <= _degree; ++r) {
-                for (int i = n - 1; i >= n - 1 - _degree + r; --i) {
-                    const double f = (b - knots[i]) / (knots[i + _degree - r + 1] - knots[i]);
-                    control_points[i] = control_points[i - 1] * (1 - f) + control_points[i] * f;
-                }
+            if (nurbs_helpers::clampEnds(_degree, knots, control_points)) {
+                update_interval();
+                rebuildAABB();
             }
-            std::fill(knots.begin() + n + 1, knots.end(), b);
-            update_interval();
-            rebuildAABB();
         }
 
         // Hook function called after knots are updated
@@ -957,12 +971,13 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
-            param = snap_to_knot(param, _knots_u);
-            int ks = find_span(static_cast<int>(_size[0] - 1), _degree[0], param, _knots_u, false) - _degree[0] + 1;
-            int s = find_multiplicity(param, _knots_u);
+            NURBSSurface temp_obj = *this;
+            temp_obj.clamp_ends(SurfaceParameter::U);
+            param = snap_to_knot(param, temp_obj._knots_u);
+            int ks = find_span(static_cast<int>(_size[0] - 1), _degree[0], param, temp_obj._knots_u, false) - _degree[0] + 1;
+            int s = find_multiplicity(param, temp_obj._knots_u);
 
             int r = _degree[0] - s;
-            NURBSSurface temp_obj = *this;
 
             temp_obj.insert_knot_u(param, r);
             std::vector<double> temp_knots_u = temp_obj._knots_u;
@@ -990,11 +1005,12 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
-            param = snap_to_knot(param, _knots_v);
-            int ks = find_span(static_cast<int>(_size[1] - 1), _degree[1], param, _knots_v, false) - _degree[1] + 1;
-            int s = find_multiplicity(param, _knots_v);
-            int r = _degree[1] - s;
             NURBSSurface temp_obj = *this;
+            temp_obj.clamp_ends(SurfaceParameter::V);
+            param = snap_to_knot(param, temp_obj._knots_v);
+            int ks = find_span(static_cast<int>(_size[1] - 1), _degree[1], param, temp_obj._knots_v, false) - _degree[1] + 1;
+            int s = find_multiplicity(param, temp_obj._knots_v);
+            int r = _degree[1] - s;
             temp_obj.insert_knot_v(param, r);
             int knot_span = find_span(static_cast<int>(temp_obj._size[1] - 1), _degree[1], param, temp_obj._knots_v,
                                       false) + 1;
@@ -1168,18 +1184,63 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         void update_interval_u() {
             _interval[0][0] = *(_knots_u.begin());
             _interval[0][1] = *(_knots_u.end() - 1);
+            restrict_interval(_interval[0], _knots_u, 0);
         }
 
         void update_interval_v() {
             _interval[1][0] = *(_knots_v.begin());
             _interval[1][1] = *(_knots_v.end() - 1);
+            restrict_interval(_interval[1], _knots_v, 1);
         }
 
         void update_interval() {
-            _interval[0][0] = *(_knots_u.begin());
-            _interval[0][1] = *(_knots_u.end() - 1);
-            _interval[1][0] = *(_knots_v.begin());
-            _interval[1][1] = *(_knots_v.end() - 1);
+            update_interval_u();
+            update_interval_v();
+        }
+
+        // The knots beyond the ends of an unclamped surface are not a part of its domain
+        void restrict_interval(std::array<double, 2> &interval, const std::vector<double> &knots, const int direction) const {
+            if (_degree[direction] >= 0 && knots.size() == _size[direction] + _degree[direction] + 1) {
+                interval[0] = knots[_degree[direction]];
+                interval[1] = knots[_size[direction]];
+            }
+        }
+
+        // Clamp the ends of an unclamped surface in one direction, its shape and interval stay the same
+        void clamp_ends(const SurfaceParameter direction) {
+            bool changed = false;
+            if (direction == SurfaceParameter::U) {
+                std::vector<double> knots = _knots_u;
+                std::vector<vec4> column(_size[0]);
+                for (std::size_t j = 0; j < _size[1]; ++j) {
+                    for (std::size_t i = 0; i < _size[0]; ++i) {
+                        column[i] = _control_points[i][j];
+                    }
+                    knots = _knots_u;
+                    if (!nurbs_helpers::clampEnds(_degree[0], knots, column)) {
+                        break;
+                    }
+                    changed = true;
+                    for (std::size_t i = 0; i < _size[0]; ++i) {
+                        _control_points[i][j] = column[i];
+                    }
+                }
+                _knots_u = std::move(knots);
+            } else {
+                std::vector<double> knots = _knots_v;
+                for (auto &row: _control_points) {
+                    knots = _knots_v;
+                    if (!nurbs_helpers::clampEnds(_degree[1], knots, row)) {
+                        break;
+                    }
+                    changed = true;
+                }
+                _knots_v = std::move(knots);
+            }
+            if (changed) {
+                update_interval();
+                rebuildAABB();
+            }
         }
 
         void get_derivative(int direction, NURBSSurface &result) const {
@@ -1631,6 +1692,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             NURBSSurface temp = *this;
             std::vector<double> uknots;
             temp.update_interval();
+            temp.clamp_ends(direction);
             if (direction == SurfaceParameter::U) {
                 uniqueKnots(temp._knots_u, uknots);
 
-- 
2.43.0


From 1ee2499dc1d7c05379e379eb0c1bc2f7ce629fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:37 +0000
Subject: [PATCH 74/74] fix: report curves that could not be written to their
 file

---
 cmmcore/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 702911d..8c49c22 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -204,6 +204,8 @@ namespace cmmcore {
             return false;
         }
         file.write(reinterpret_cast<const char *>(data.data()), data.size());
+        // Short data may still be in the stream's buffer
+        file.flush();
         return file.good();
     }
 
-- 
2.43.0

