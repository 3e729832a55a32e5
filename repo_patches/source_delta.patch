From bb18fe90cff3dd3bff7e0ba0eb78486963486070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:56 +0000
Subject: [PATCH 01/27] fix: linear extrapolation above xmax uses the last
 segment instead of throwing

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..1af7b8b 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -178,6 +178,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == static_cast<decltype(index)>(this->ndata)) index = this->ndata - 1;  // x > xmax: last segment
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From 5f9c48de8dfe5a8c2114064cbb7101851d5f467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:56 +0000
Subject: [PATCH 02/27] fix: interpolators deleted through their base class
 leaked their coefficients (no virtual destructor)

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 1af7b8b..3755552 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -28,6 +28,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Interp1d() = default;
+
     YScalar Eval(XReal x) const {return PrivEval(x);};
 
     std::vector<YScalar> Eval(const std::vector<XReal> &xvector) const {
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..1f9e65d 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -28,7 +28,7 @@ namespace mathutils {
 
     public:
 //        Interp2d() {};
-//        ~Interp2d() {};
+        virtual ~Interp2d() = default;
 
         virtual void Initialize(std::shared_ptr<const std::vector<Real>> x,
                                 std::shared_ptr<const std::vector<Real>> y,
-- 
2.43.0


From a3c8252d9b231233eea6f60233e6bba8eed01d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 03/27] fix: initializing an interpolator again, or after a
 failure, kept stale coefficients

---
 src/MathUtils/Interp1d.h | 12 +++++++++---
 src/MathUtils/Interp2d.h | 19 ++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 3755552..cc4b481 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,10 +148,13 @@ namespace mathutils {
   void Interp1dLinearBase<XReal, YScalar>::Initialize(const std::shared_ptr<const std::vector<XReal>> x,
                                                       const std::shared_ptr<const std::vector<YScalar>> y) {
 
-    Interp1d<XReal, YScalar>::Initialize(x, y);
+    // The new coefficients are built aside: they replace those of a previous initialization, and nothing is modified
+    // if their allocation fails
+    std::vector<YScalar> a, b;
+    a.reserve(x->size());
+    b.reserve(x->size());
 
-    a.reserve(this->ndata);
-    b.reserve(this->ndata);
+    Interp1d<XReal, YScalar>::Initialize(x, y);
 
     XReal xi, xii, xii_m_xi;
     YScalar yi, yii;
@@ -169,6 +172,9 @@ namespace mathutils {
       b.push_back((yi * xii - xi * yii) / xii_m_xi);
 
     }
+
+    this->a.swap(a);
+    this->b.swap(b);
   }
 
   template<class XReal, class YScalar>
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 1f9e65d..3073c3f 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -112,12 +112,16 @@ namespace mathutils {
                                           const std::shared_ptr<const std::vector<Real>> y,
                                           const std::shared_ptr<const std::vector<Real>> data) {
 
-        Interp2d<Real>::Initialize(x, y, data);
+        // The new coefficients are built aside: they replace those of a previous initialization, and nothing is
+        // modified if their allocation fails or if the data are too short
+        data->at(x->size()*y->size() - 1);
+        std::vector<Real> a1, a2, a3, a4;
+        a1.reserve(x->size()*y->size());
+        a2.reserve(x->size()*y->size());
+        a3.reserve(x->size()*y->size());
+        a4.reserve(x->size()*y->size());
 
-        a1.reserve(this->ndata);
-        a2.reserve(this->ndata);
-        a3.reserve(this->ndata);
-        a4.reserve(this->ndata);
+        Interp2d<Real>::Initialize(x, y, data);
 
         auto ny = this->ny;
 
@@ -161,6 +165,11 @@ namespace mathutils {
             }
         }
 
+        this->a1.swap(a1);
+        this->a2.swap(a2);
+        this->a3.swap(a3);
+        this->a4.swap(a4);
+
     }
 
     template <class Real>
-- 
2.43.0


From 4cc84112af720c5bebc27b30c1930d51a335cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:49 +0000
Subject: [PATCH 04/27] fix: a failed AddY/AddData left a stale series name
 that aliased the next series

---
 src/MathUtils/LookupTable1D.h | 10 +++++++---
 src/MathUtils/LookupTable2D.h | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..9f77e8f 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -113,7 +113,7 @@ namespace mathutils {
     if (!res_pair.second) { // Name already exists into the map
       std::cout << "Data have not been added to the LUT" << std::endl;
 
-    } else {
+    } else try {
       // We can add data
       auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
       Ydata.push_back(Y_shared);
@@ -123,13 +123,17 @@ namespace mathutils {
       // FIXME: ICI, on ne recupere pas comme voulu un pointeur vers un objet FrInterp1dLinear
       // Du coup, la methode Initialize appelee apres n'est que celle de
 
+      auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(interp_ptr);
+
       // Initializing the interpolator
       interp_ptr->Initialize(Xcoords, Y_shared);
 
-      auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(interp_ptr);
-
       interpolators.push_back(std::move(interp_unique));
 
+    } catch (...) { // The LUT is left as it was
+      assoc.erase(res_pair.first);
+      Ydata.resize(i);
+      throw;
     }
 
     return res_pair.second;
diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..933b17a 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -112,18 +112,22 @@ namespace mathutils {
 
         if (!res_pair.second) {
             std::cout << "Data have not been added to the LUT" << std::endl;
-        } else {
+        } else try {
 
             auto Data_shared = std::make_shared<std::vector<Real>>(Data);
             MData.push_back(Data_shared);
 
             auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);
 
-            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
-
             auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);
 
+            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
+
             interpolators.push_back(std::move(interp_unique));
+        } catch (...) { // The LUT is left as it was
+            assoc.erase(res_pair.first);
+            MData.resize(i);
+            throw;
         }
 
         return res_pair.second;
-- 
2.43.0


From 42a77c4d825c21870b86a449d40b967f8f469716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:49 +0000
Subject: [PATCH 05/27] fix: LookupTable2d::Eval(name, coord) did not compile

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 933b17a..7a7dbdf 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -140,7 +140,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From da68ccc8fb6965c16b2de169f9d39b7a9fd8a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:56 +0000
Subject: [PATCH 06/27] fix: moving a LookupTable1D lost its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 9f77e8f..032b98f 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From 8bdcfb04895038b96a02198475a8b6167e3c2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 07/27] fix: a failed AddVar or assignment left a
 RegularGridInterpolator reading freed data; copying an unfilled one crashed

---
 src/MathUtils/RegularGridInterpolator.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..0fb1515 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -110,6 +110,10 @@ template<typename Real, size_t _dim>
 RegularGridInterpolator<Real, _dim> &
 RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &other) {
 
+  // The interpolator refers to m_data: it must not outlive it if a step fails
+  const bool valid = other.IsValid();
+  c_interpolator.reset();
+
   m_grid_list = other.m_grid_list;
 
   std::vector<size_t> ex;
@@ -118,7 +122,7 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  if (valid) _BuildInterpolator();
   return *this;
 }
 
@@ -148,6 +152,9 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
     exit(EXIT_FAILURE);
   }
 
+  // The interpolator refers to m_data: it must not outlive it if a step fails
+  c_interpolator.reset();
+
   // Copying the multi_array
   std::vector<size_t> ex;
   const size_t *shape = ndarray.shape();
-- 
2.43.0


From bb12eb15d9d9c970c270a40722007dc02e368ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 08/27] fix: a failed assignment left a RegularGridNearest with
 the grid of one object and the data of another

---
 src/MathUtils/RegularGridNearest.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..8aa213c 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -105,13 +105,14 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   RegularGridNearest<Data_t, _dim, Coord_t> &
   RegularGridNearest<Data_t, _dim, Coord_t>::operator=(const RegularGridNearest &other) {
-    m_grid_list = other.m_grid_list;
+    GridType grid_list = other.m_grid_list;
 
     std::vector<size_t> ex;
     const size_t *shape = other.m_data.shape();
     ex.assign(shape, shape + other.m_data.num_dimensions());
     m_data.resize(ex);
     m_data = other.m_data;
+    m_grid_list.swap(grid_list);  // only now: grid and data always match, even if a copy fails
 
     return *this;
   }
-- 
2.43.0


From 927fb00621faa5d782902c29440b6990cdeee466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 09/27] fix: GetSurroundingGridNodes returned the last node for
 a point before the first one

---
 src/MathUtils/RegularGridNearest.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 8aa213c..73eb506 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -240,7 +240,7 @@ namespace mathutils {
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      size_t icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -291,7 +291,7 @@ namespace mathutils {
     for (unsigned int i = 0; i < _dim; ++i) {
       const auto &coord = m_grid_list[i];
 
-      if (cell_index[i] < 0) {
+      if (cell_index[i] == static_cast<size_t>(-1)) {  // before the first node
         indices[i] = 0;
       } else if (cell_index[i] >= coord.size() - 1) {
         indices[i] = m_grid_list[i].size() - 1;
-- 
2.43.0


From 3cedaea7c704c57e6a838a7db887eded28991674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 10/27] fix: RegularGridNearest::GetData returned nothing

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 73eb506..9fc2a58 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -180,7 +180,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 7798df9d8b952448eae323a21f1d7f2893f2caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 11/27] fix: computing the coefficients of a Chebyshev series
 again, or after a failure, added to the previous ones

---
 src/MathUtils/ChebyshevSeries1d.h |  8 +++++---
 src/MathUtils/ChebyshevSeries2d.h | 10 ++++++----
 src/MathUtils/ChebyshevSeries3d.h | 14 ++++++++------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..0f308ea 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -56,16 +56,18 @@ namespace mathutils {
 
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
+      VectorN<T> ai = VectorN<T>::Zero(m_order_x + 1);
       for (int i = 0; i <= m_order_x; ++i) {
         for (int r = 0; r <= m_order_x; ++r) {
           double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
-          m_ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
+          ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
         }
-        m_ai(i) *= 2. / (m_order_x + 1.);
+        ai(i) *= 2. / (m_order_x + 1.);
         if (i == 0) {
-          m_ai(i) /= 2.;
+          ai(i) /= 2.;
         }
       }
+      m_ai.swap(ai);
     }
 
     /// This method computes the single Chebyshev series approximation.
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..195fbdb 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -68,22 +68,24 @@ namespace mathutils {
 
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
+      MatrixMN<T> aij = MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1);
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int r = 0; r <= m_order_x; ++r) {
             double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
             for (int s = 0; s <= m_order_y; ++s) {
-              m_aij(i, j) += this->m_function->Evaluate(x.at(r), y.at(s)) * Ti * Chebyshev_polynomial(j, y_tilde.at(s));
+              aij(i, j) += this->m_function->Evaluate(x.at(r), y.at(s)) * Ti * Chebyshev_polynomial(j, y_tilde.at(s));
             }
           }
-          m_aij(i, j) *= 4. / ((m_order_x + 1.) * (m_order_y + 1.));
+          aij(i, j) *= 4. / ((m_order_x + 1.) * (m_order_y + 1.));
           if (i == 0 and j == 0) {
-            m_aij(i, j) /= 4.;
+            aij(i, j) /= 4.;
           } else if ((i == 0 and j != 0) or (i != 0 and j == 0)) {
-            m_aij(i, j) /= 2.;
+            aij(i, j) /= 2.;
           }
         }
       }
+      m_aij.swap(aij);
     }
 
     /// This method computes the double Chebyshev series approximation.
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..3e4b77b 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -80,6 +80,7 @@ namespace mathutils {
       }
 
       // aijk.
+      std::vector<MatrixMN<T>> aijk(m_order_z + 1, MatrixMN<T>::Zero(m_order_x + 1, m_order_y + 1));
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
@@ -90,26 +91,27 @@ namespace mathutils {
                 double ytilde = y_tilde.at(s);
                 double Tj = Chebyshev_polynomial(j, ytilde);
                 for (int t = 0; t <= m_order_z; ++t) {
-                  m_aijk.at(k)(i, j) += this->m_function->Evaluate(x.at(r), y.at(s), z.at(t)) * Ti * Tj
-                                        * Chebyshev_polynomial(k, z_tilde.at(t));
+                  aijk.at(k)(i, j) += this->m_function->Evaluate(x.at(r), y.at(s), z.at(t)) * Ti * Tj
+                                      * Chebyshev_polynomial(k, z_tilde.at(t));
                 }
               }
             }
-            m_aijk.at(k)(i, j) *= 8. / ((m_order_x + 1.) * (m_order_y + 1.) * (m_order_z + 1.));
+            aijk.at(k)(i, j) *= 8. / ((m_order_x + 1.) * (m_order_y + 1.) * (m_order_z + 1.));
             if (i == 0 and j == 0 and k == 0) {
-              m_aijk.at(k)(i, j) /= 8.;
+              aijk.at(k)(i, j) /= 8.;
             }
             else if ((i == 0 and j != 0 and k == 0) or (i != 0 and j == 0 and k == 0)
                      or (i == 0 and j == 0 and k != 0)) {
-              m_aijk.at(k)(i, j) /= 4.;
+              aijk.at(k)(i, j) /= 4.;
             }
             else if((i == 0 and j != 0 and k != 0) or (i != 0 and j == 0 and k != 0)
                     or (i != 0 and j != 0 and k == 0)){
-              m_aijk.at(k)(i, j) /= 2.;
+              aijk.at(k)(i, j) /= 2.;
             }
           }
         }
       }
+      m_aijk.swap(aijk);
     }
 
     /// This method computes the triple Chebyshev series approximation.
-- 
2.43.0


From 8cde6f82b562d75e25f3d12297dcdc159a63749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 12/27] fix: changing the method of a computed Integrate1d kept
 the result of the previous method

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From 8c2b67d77aa04a74d24de0fb2d0c2b2f5cff6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 13/27] fix: the y-derivative of a 3D power series for a
 predefined z used x instead of y

---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From a8e2ddc42a8874c572700e187d3e992dbfb43cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:06 +0000
Subject: [PATCH 14/27] fix: an allocation failure inside a transform left a
 broken plan in the FFT object

---
 src/MathUtils/FFT.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/FFT.h b/src/MathUtils/FFT.h
index 57f5681..b56a900 100644
--- a/src/MathUtils/FFT.h
+++ b/src/MathUtils/FFT.h
@@ -20,19 +20,34 @@ namespace mathutils {
         // TODO: voir pour un zero padding auto ?
         void fft(std::vector<std::complex<Scalar>>& freqVector, const std::vector<Scalar>& vector) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
-            this->fwd(freqVector, vector);
+            try {
+                this->fwd(freqVector, vector);
+            } catch (...) { // A partially built plan must not be used by the next transforms.
+                this->impl().clear();
+                throw;
+            }
         }
 
         void fft(std::vector<std::complex<Scalar>>& freqVector, std::vector<Scalar>& frequencies,
                  const std::vector<Scalar>& vector, const Scalar sampleFrequency, FREQUENCY_UNIT frequencyUnit=HERTZ) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
             // TODO: fournir plutot le vecteur temps et e deduire directement la frequence d'echantilonnage
-            this->fwd(freqVector, vector);
+            try {
+                this->fwd(freqVector, vector);
+            } catch (...) { // A partially built plan must not be used by the next transforms.
+                this->impl().clear();
+                throw;
+            }
             frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);
         }
 
         void ifft(std::vector<Scalar>& vector, const std::vector<std::complex<Scalar>>& freqVector) {
-            this->inv(vector, freqVector);
+            try {
+                this->inv(vector, freqVector);
+            } catch (...) { // A partially built plan must not be used by the next transforms.
+                this->impl().clear();
+                throw;
+            }
         }
 
         void HalfSpectrumON() {
-- 
2.43.0


From 03bbb6187e20c030391c7b6c17421416bd3902c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:42 +0000
Subject: [PATCH 15/27] fix: the Cholesky decomposition accepted non-symmetric
 matrices (IsSymmetric was always true)

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..09f189a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -293,7 +293,7 @@ namespace mathutils {
 //        if (this->adjoint() == this) {
 //            return true;
 //        }
-        return true;
+        return a;
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..b67050d 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -286,7 +286,7 @@ namespace mathutils {
 //        if (this->adjoint() == this) {
 //            return true;
 //        }
-        return true;
+        return a;
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..2801304 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -279,7 +279,7 @@ namespace mathutils {
 //        if (this->adjoint() == this) {
 //            return true;
 //        }
-        return true;
+        return a;
     }
 
     template <class Scalar>
-- 
2.43.0


From f9124c1fa902b3426f3b8b3e770ba0b9005e35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:42 +0000
Subject: [PATCH 16/27] fix: requests outside the domain of a function ended
 the process with a success status

---
 src/MathUtils/BoostFunctions.h        | 8 ++++----
 src/MathUtils/ChebyshevSeries1d.h     | 2 +-
 src/MathUtils/ChebyshevSeries2d.h     | 2 +-
 src/MathUtils/ChebyshevSeries3d.h     | 2 +-
 src/MathUtils/Integration2dTriangle.h | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..e7465c0 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -142,7 +142,7 @@ namespace mathutils {
     }
     else {
       std::cout << "Zero-order Struve function is only defined for a positive argument." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     return Struve;
@@ -173,7 +173,7 @@ namespace mathutils {
     }
     else {
       std::cout << "First-order Struve function is only defined for a positive argument." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     return Struve;
@@ -235,7 +235,7 @@ namespace mathutils {
 
     if(IsClose(x, 0.) || x < 0.) {
       std::cout << "Ei_Chebyshev_approximation: Ei is not defined for x = 0." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     if(x > 0. && x < 6.){
@@ -448,7 +448,7 @@ namespace mathutils {
 
     if(IsClose(x, 0.) || x < 0.) {
       std::cout << "E1_Chebyshev_approximation: E1 is not defined for x = 0." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     if(x > 0. && x < 1.){
diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 0f308ea..d405f5b 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -116,7 +116,7 @@ namespace mathutils {
         std::cout << "The conversion Chebyshev to power series have large numerical inaccuracies for important order." << std::endl;
         std::cout << "The maximum order in xis 18." << std::endl;
         std::cout << "Order in x: " << m_order_x << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index 195fbdb..9bbb204 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -167,7 +167,7 @@ namespace mathutils {
         std::cout << "The maximum order in x and y is 18." << std::endl;
         std::cout << "Order in x: " << m_order_x << std::endl;
         std::cout << "Order in y: " << m_order_y << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3e4b77b..5a9e34e 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -228,7 +228,7 @@ namespace mathutils {
         std::cout << "Order in x: " << m_order_x << std::endl;
         std::cout << "Order in y: " << m_order_y << std::endl;
         std::cout << "Order in z: " << m_order_z << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/Integration2dTriangle.h b/src/MathUtils/Integration2dTriangle.h
index 6b8156e..73f2934 100644
--- a/src/MathUtils/Integration2dTriangle.h
+++ b/src/MathUtils/Integration2dTriangle.h
@@ -105,11 +105,11 @@ namespace mathutils {
       // Warning.
       if (this->m_order > this->m_tables->get_size_tables()) {
         std::cout << "\nToo high order of quadrature for triangle. Use lower order." << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
       if (this->m_order < 1) {
         std::cout << "\nToo low order of quadrature for triangle. Use higher order." << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
     }
-- 
2.43.0


From c2b76a46f6e342b50e1b54f545231704c920f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:28 +0000
Subject: [PATCH 17/27] fix: RegularGridNearest reported itself valid without
 data or with data of another shape

---
 src/MathUtils/RegularGridNearest.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 9fc2a58..990ba84 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -267,6 +267,10 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   bool RegularGridNearest<Data_t, _dim, Coord_t>::IsValid() const {
+    if (m_grid_list.size() != _dim) return false;
+    for (size_t i = 0; i < _dim; ++i) {
+      if (m_grid_list[i].empty() || m_data.shape()[i] != m_grid_list[i].size()) return false;
+    }
     return true;
   }
 
-- 
2.43.0


From 1f6e6c4c63a921337c8cecaa041cc598e709dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:28 +0000
Subject: [PATCH 18/27] fix: RegularGridInterpolator accepted data of another
 shape with the same number of values

---
 src/MathUtils/RegularGridInterpolator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 0fb1515..ad36fc7 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -152,6 +152,13 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
     exit(EXIT_FAILURE);
   }
 
+  // The shape must be the one of the grid, not only the number of values
+  for (size_t i = 0; i < _dim; ++i) {
+    if (ndarray.shape()[i] != m_grid_list[i].size()) {
+      throw std::invalid_argument("RegularGridInterpolator: the data do not have the shape of the grid");
+    }
+  }
+
   // The interpolator refers to m_data: it must not outlive it if a step fails
   c_interpolator.reset();
 
-- 
2.43.0


From 26d529f27f80e83d305e3fa74fd99f22ea074ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:38 +0000
Subject: [PATCH 19/27] fix: five mistyped coefficients in Ei_approximation and
 E1_approximation (E1 was wrong by 1e-3 near x = 4)

With the published digits restored both approximations agree with the
exponential integrals to machine precision over their whole domain.
---
 src/MathUtils/BoostFunctions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index e7465c0..9c3f8c0 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -289,7 +289,7 @@ namespace mathutils {
                                     1.052976392459015155422e1,
                                     -2.421106956980653511550e1,
                                     -2.378372882815725244124e0,
-                                    -2.645977793077147237806e0};
+                                    -2.645677793077147237806e0};
       std::vector<double> betaj = {1.249884822712447891440e0,
                                    -2.369210235636181001661e2,
                                    4.731097187816050252967e2,
@@ -484,11 +484,11 @@ namespace mathutils {
       std::vector<double> pj = {1.737331760720576030932e-8,
                                 9.999989642347613068437e-1,
                                 1.487967702840464066613e1,
-                                7.633628873405946890896e1,
+                                7.633628843705946890896e1,
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-                                1.10732662778631743809e1,
+                                1.107326627786831743809e1,
                                 3.828573121022477169108e-1};
       std::vector<double> qj = {1.000000000000000000000e0,
                                 1.587964570758947927903e1,
@@ -530,11 +530,11 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From 246ad51b56aa36e06f28078df52cb609def341bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 20/27] fix: Vector2d::infNorm returned the largest
 coefficient, not the largest magnitude

---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From b8d728c585d3a4ebffdf23a52657ed650e11983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 21/27] fix: rad2deg by copy did not compile (it converted its
 constant input) and returned nothing

---
 src/MathUtils/Unit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..c3dbaa8 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -52,7 +52,8 @@ namespace mathutils {
   // TODO : faire la meme inplace...
   inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
+    return out;
   }
 
 
-- 
2.43.0


From 82029196ffcf81e14c3ca1206cbc7d6e878c4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 22/27] fix: arange returned values that were not spaced by the
 step it was given

---
 src/MathUtils/VectorGeneration.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..cbb2e9a 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,13 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        auto num = (unsigned long)ceil((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned long i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From 5ad3bfe30ec11ce4a7bc060ff1754d4d31c9fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:51 +0000
Subject: [PATCH 23/27] fix: IsOrthogonal was false for every orthogonal matrix

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index 09f189a..e5cfb38 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -313,7 +313,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return (this->rows() == this->cols()) && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index b67050d..056f9fe 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -301,7 +301,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return (this->rows() == this->cols()) && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 2801304..d47484f 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -294,7 +294,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return (this->rows() == this->cols()) && this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From 0c8d4eaaa179deffc7510270c231d2d2de29751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 24/27] fix: reading a coefficient of a constant Matrix66 did
 not link

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index d47484f..9314b62 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From d9338308d0d84bc885d86c87d60979cc01bac41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:15 +0000
Subject: [PATCH 25/27] fix: series, quadratures and their functions could not
 be deleted through their base class (no virtual destructor)

---
 src/MathUtils/ChebyshevSeries1d.h | 9 +++++++++
 src/MathUtils/ChebyshevSeries2d.h | 9 +++++++++
 src/MathUtils/ChebyshevSeries3d.h | 9 +++++++++
 src/MathUtils/Integrand.h         | 2 ++
 src/MathUtils/Integration2d.h     | 7 +++++++
 src/MathUtils/PowerSeries1d.h     | 7 +++++++
 src/MathUtils/PowerSeries2d.h     | 7 +++++++
 src/MathUtils/PowerSeries3d.h     | 7 +++++++
 8 files changed, 57 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index d405f5b..d3cf05b 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function1d() = default;
+
     /// This function evaluates the function at the point x.
     virtual T Evaluate(const double &x) const = 0;
 
@@ -32,6 +34,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~ChebyshevSeries1dBase() = default;
+    ChebyshevSeries1dBase(const ChebyshevSeries1dBase &) = default;
+    ChebyshevSeries1dBase(ChebyshevSeries1dBase &&) = default;
+    ChebyshevSeries1dBase &operator=(const ChebyshevSeries1dBase &) = default;
+    ChebyshevSeries1dBase &operator=(ChebyshevSeries1dBase &&) = default;
+
     /// Contructor of the class.
     ChebyshevSeries1dBase(Function1d<T> *F, const double &xmin, const int &order_x) : m_function(F), m_x_min(xmin),
                           m_order_x(order_x) {
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index 9bbb204..5d3667a 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function2d() = default;
+
     /// This function evaluates the function at the point (x, y).
     virtual T Evaluate(const double &x, const double &y) const = 0;
 
@@ -32,6 +34,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~ChebyshevSeries2dBase() = default;
+    ChebyshevSeries2dBase(const ChebyshevSeries2dBase &) = default;
+    ChebyshevSeries2dBase(ChebyshevSeries2dBase &&) = default;
+    ChebyshevSeries2dBase &operator=(const ChebyshevSeries2dBase &) = default;
+    ChebyshevSeries2dBase &operator=(ChebyshevSeries2dBase &&) = default;
+
     /// Contructor of the class.
     ChebyshevSeries2dBase(Function2d<T> *F, const double &xmin, const double &ymin, const int &order_x,
                                     const int &order_y) : m_function(F), m_x_min(xmin), m_y_min(ymin),
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 5a9e34e..5a8c17b 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function3d() = default;
+
     /// This function evaluates the function at the point (x, y, z).
     virtual T Evaluate(const double &x, const double &y, const double &z) const = 0;
 
@@ -32,6 +34,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~ChebyshevSeries3dBase() = default;
+    ChebyshevSeries3dBase(const ChebyshevSeries3dBase &) = default;
+    ChebyshevSeries3dBase(ChebyshevSeries3dBase &&) = default;
+    ChebyshevSeries3dBase &operator=(const ChebyshevSeries3dBase &) = default;
+    ChebyshevSeries3dBase &operator=(ChebyshevSeries3dBase &&) = default;
+
     /// Contructor of the class.
     ChebyshevSeries3dBase(Function3d<T> *F, const double &xmin, const double &ymin, const double &zmin,
                                     const int &order_x, const int &order_y, const int &order_z) : m_function(F),
diff --git a/src/MathUtils/Integrand.h b/src/MathUtils/Integrand.h
index c37d7e4..cdc2c80 100644
--- a/src/MathUtils/Integrand.h
+++ b/src/MathUtils/Integrand.h
@@ -15,6 +15,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Integrand() = default;
+
     /// This function evalutes the integrand at the point x.
     virtual T Evaluate(const Vector3d<double> &x) const = 0;
 
diff --git a/src/MathUtils/Integration2d.h b/src/MathUtils/Integration2d.h
index aedea21..a0f52ab 100644
--- a/src/MathUtils/Integration2d.h
+++ b/src/MathUtils/Integration2d.h
@@ -20,6 +20,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~Integration2d() = default;
+    Integration2d(const Integration2d &) = default;
+    Integration2d(Integration2d &&) = default;
+    Integration2d &operator=(const Integration2d &) = default;
+    Integration2d &operator=(Integration2d &&) = default;
+
     /// Contructor of the class.
     Integration2d(Integrand<T>* F, const int& order) : m_order(order), m_integrand(F) {
       m_tables = std::make_unique<QuadratureTables>();
diff --git a/src/MathUtils/PowerSeries1d.h b/src/MathUtils/PowerSeries1d.h
index f4c87a5..76dfc06 100644
--- a/src/MathUtils/PowerSeries1d.h
+++ b/src/MathUtils/PowerSeries1d.h
@@ -19,6 +19,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~PowerSeries1dBase() = default;
+    PowerSeries1dBase(const PowerSeries1dBase &) = default;
+    PowerSeries1dBase(PowerSeries1dBase &&) = default;
+    PowerSeries1dBase &operator=(const PowerSeries1dBase &) = default;
+    PowerSeries1dBase &operator=(PowerSeries1dBase &&) = default;
+
     /// Contructor of the class.
     PowerSeries1dBase(const VectorN<T> &bi, const double &xmin) : m_bi(bi), m_x_min(xmin) {
       m_order_x = bi.rows() - 1;
diff --git a/src/MathUtils/PowerSeries2d.h b/src/MathUtils/PowerSeries2d.h
index 1f7a1ce..d612eea 100644
--- a/src/MathUtils/PowerSeries2d.h
+++ b/src/MathUtils/PowerSeries2d.h
@@ -19,6 +19,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~PowerSeries2dBase() = default;
+    PowerSeries2dBase(const PowerSeries2dBase &) = default;
+    PowerSeries2dBase(PowerSeries2dBase &&) = default;
+    PowerSeries2dBase &operator=(const PowerSeries2dBase &) = default;
+    PowerSeries2dBase &operator=(PowerSeries2dBase &&) = default;
+
     /// Contructor of the class.
     PowerSeries2dBase(const MatrixMN <T> &bij, const double &xmin, const double &ymin) : m_bij(bij),
                                  m_x_min(xmin), m_y_min(ymin) {
diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index c7ac335..21ff5f1 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -19,6 +19,13 @@ namespace mathutils {
 
    public:
 
+    /// Objects are deleted through this class: virtual destructor (copies and moves stay the default ones).
+    virtual ~PowerSeries3dBase() = default;
+    PowerSeries3dBase(const PowerSeries3dBase &) = default;
+    PowerSeries3dBase(PowerSeries3dBase &&) = default;
+    PowerSeries3dBase &operator=(const PowerSeries3dBase &) = default;
+    PowerSeries3dBase &operator=(PowerSeries3dBase &&) = default;
+
     /// Contructor of the class.
     PowerSeries3dBase(const std::vector<MatrixMN <T>> &bijk, const double &xmin, const double &ymin, const double &zmin)
     : m_bijk(bijk), m_x_min(xmin), m_y_min(ymin), m_z_min(zmin) {
-- 
2.43.0


From e15deff0000dbb08918bb7d91b145e1d91526b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:09 +0000
Subject: [PATCH 26/27] fix: Spline built from std::vector survives a failed
 allocation

The default-constructed Eigen spline was assigned afterwards; a failed
reallocation in that assignment left it with a freed buffer that the
constructor's unwinding freed again.
---
 src/MathUtils/Spline.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/MathUtils/Spline.h b/src/MathUtils/Spline.h
index 4d49aa7..95a4921 100644
--- a/src/MathUtils/Spline.h
+++ b/src/MathUtils/Spline.h
@@ -37,19 +37,13 @@ namespace mathutils {
                   )
         { }
 
-        Spline(std::vector<Real>& x_vec, std::vector<Real>& y_vec) {
-            // Converting std vectors to eigen vectors
-            Eigen::VectorXd xvals = Eigen::Map<Eigen::VectorXd>(x_vec.data(), x_vec.size());
-            Eigen::VectorXd yvals = Eigen::Map<Eigen::VectorXd>(y_vec.data(), y_vec.size());
-
-            // Creating a Spline object with standard costructor
-            Spline<Real, Dim, Deg> spl(xvals, yvals);
-
-            // Copying Spline attributes into the current instance
-            x_min = spl.x_min;
-            x_max = spl.x_max;
-            spline_ = spl.spline_;
-        }
+        // Converting std vectors to eigen vectors, then using the standard constructor
+        Spline(std::vector<Real>& x_vec, std::vector<Real>& y_vec)
+                : Spline(Eigen::Matrix<Real, Eigen::Dynamic, 1>(
+                                 Eigen::Map<Eigen::Matrix<Real, Eigen::Dynamic, 1>>(x_vec.data(), x_vec.size())),
+                         Eigen::Matrix<Real, Eigen::Dynamic, 1>(
+                                 Eigen::Map<Eigen::Matrix<Real, Eigen::Dynamic, 1>>(y_vec.data(), y_vec.size())))
+        { }
 
         double operator()(Real x) const {
             // x values need to be scaled down in extraction as well.
-- 
2.43.0


From e1cce7b71d39ade360a5e172786b7954cecb3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:43 +0000
Subject: [PATCH 27/27] fix: coordinate queries of a grid without data returned
 garbage (bounds not set yet, coordinate not given yet)

---
 src/MathUtils/RegularGridInterpolator.h | 10 +++++-----
 src/MathUtils/RegularGridNearest.h      |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index ad36fc7..9d1c834 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -229,7 +229,7 @@ bool RegularGridInterpolator<Real, _dim>::IsValid() const {
 
 template<typename Real, size_t _dim>
 std::vector<Real> RegularGridInterpolator<Real, _dim>::GetCoord(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
@@ -238,20 +238,20 @@ std::vector<Real> RegularGridInterpolator<Real, _dim>::GetCoord(unsigned int idx
 
 template<typename Real, size_t _dim>
 Real RegularGridInterpolator<Real, _dim>::GetCoordMaxVal(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
-  return m_limits[idx].second;
+  return m_grid_list[idx].back();
 }
 
 template<typename Real, size_t _dim>
 Real RegularGridInterpolator<Real, _dim>::GetCoordMinVal(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
-  return m_limits[idx].first;
+  return m_grid_list[idx].front();
 }
 
 }  // end namespace mathutils
diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 990ba84..c9e827b 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -144,7 +144,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   std::vector<Coord_t> RegularGridNearest<Data_t, _dim, Coord_t>::GetCoord(unsigned int idx) const {
-    if (idx >= _dim) {
+    if (idx >= m_grid_list.size()) {
       std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension"
                 << std::endl;
       exit(EXIT_FAILURE);
@@ -154,7 +154,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   Coord_t RegularGridNearest<Data_t, _dim, Coord_t>::GetCoordMinVal(unsigned int idx) const {
-    if (idx >= _dim) {
+    if (idx >= m_grid_list.size()) {
       std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension"
                 << std::endl;
       exit(EXIT_FAILURE);
@@ -164,7 +164,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   Coord_t RegularGridNearest<Data_t, _dim, Coord_t>::GetCoordMaxVal(unsigned int idx) const {
-    if (idx >= _dim) {
+    if (idx >= m_grid_list.size()) {
       std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension"
                 << std::endl;
       exit(EXIT_FAILURE);
-- 
2.43.0

