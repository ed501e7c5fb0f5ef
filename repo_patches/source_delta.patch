From fda81e413547b7f193738b679aa7b4c800b65e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 01/35] fix: TriangularMap::save wrote its components twice, so
 loading misread the coefficient flag

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..864e576 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -129,7 +129,7 @@ public:
         ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
-        ar(comps_, moveCoeffs);
+        ar(moveCoeffs);
     }
 
     template <class Archive>
-- 
2.43.0


From 8ac61aed16ca3932446cd174788f790b41c43452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 02/35] fix: ConstRowMatToKokkos and ConstColMatToKokkos
 ignored the outer stride of matrix blocks

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..b2fbcaa 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From 1494a051ede0dc6088bfe4d3338c305ad2728eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 03/35] fix: strided Kokkos to Eigen conversions passed
 View::stride an array one entry too short

---
 MParT/Utilities/ArrayConversions.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index b2fbcaa..114ee43 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -528,9 +528,10 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>> KokkosToVec(Kokkos::View<ScalarType*, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t stride;
-        view.stride(&stride);
-        return Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>>(view.data(), view.extent(0), Eigen::InnerStride<>(stride));
+        // View::stride fills rank+1 entries
+        size_t strides[2];
+        view.stride(strides);
+        return Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>>(view.data(), view.extent(0), Eigen::InnerStride<>(strides[0]));
     }
 
     /**
@@ -594,7 +595,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> KokkosToMat(Kokkos::View<ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
+        size_t strides[3]; // View::stride fills rank+1 entries
         view.stride(strides);
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
@@ -602,7 +603,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> ConstKokkosToMat(Kokkos::View<const ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
+        size_t strides[3]; // View::stride fills rank+1 entries
         view.stride(strides);
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
@@ -610,7 +611,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> ConstKokkosToMat(Kokkos::View<const ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
+        size_t strides[3]; // View::stride fills rank+1 entries
         view.stride(strides);
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
@@ -641,7 +642,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> KokkosToMat(Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
+        size_t strides[3]; // View::stride fills rank+1 entries
         view.stride(strides);
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
-- 
2.43.0


From cb886a46ccb725a9c7dd585c1d21abab5b04bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 04/35] fix: AffineMap::LogDeterminantInputGrad left its output
 unassigned

---
 src/AffineMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..0d4f195 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant does not depend on the input point
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 5c4bdf4bf9c50d3535e76a807f0e8474cd1569da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 05/35] fix: Clenshaw-Curtis components aborted on every
 gradient because the factory gave the rule a one-entry internal workspace

---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 554b6a8f84b8b3f3bb659655d57cbebe094d681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 06/35] fix: PullbackDensity::LogDensityCoeffGrad on Eigen
 matrices returned the input gradient

---
 src/Distributions/PullbackDensity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..6f5d0f2 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
-    // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    // Call the LogDensityCoeffGrad function
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 7f60709f3ea1db720f04ddac3f67caabdb91f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 07/35] fix: TransportDistributionFactory.h did not compile
 (Distribution takes only the memory space)

---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From 0262024136cadf646137988a5c1f20cb706b6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 08/35] fix: TensorProductFunction.h used DerivativeFlags
 without including it

---
 MParT/TensorProductFunction.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MParT/TensorProductFunction.h b/MParT/TensorProductFunction.h
index f8314b2..a3e74ba 100644
--- a/MParT/TensorProductFunction.h
+++ b/MParT/TensorProductFunction.h
@@ -6,6 +6,8 @@
 #include <Kokkos_Core.hpp>
 #include <Eigen/Core>
 
+#include "MParT/DerivativeFlags.h"
+
 namespace mpart {
 
 
-- 
2.43.0


From 831407e6b771ac8f076bff3a4b883bd4698c6330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 09/35] fix: Gaussian with a full covariance aborted on
 row-major covariances, gradients and samples

---
 MParT/Distributions/GaussianSamplerDensity.h |  4 +++-
 src/Distributions/GaussianSamplerDensity.cpp | 13 ++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..6e5496f 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,9 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Covariance", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..4b264a9 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -73,12 +73,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> solution = covChol_.solve(output);
+        Kokkos::deep_copy(output, solution);
     }
 }
 
-
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -110,8 +109,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The Cholesky factor is applied to column major memory, whatever the layout of the output
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output("normal samples", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -122,11 +121,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From b71ed0895b85864a8c2229da4095efd9083ea1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 10/35] fix: OrthogonalPolynomial::Derivative of order 1
 ignored the normalization

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From 6e40a4b359ca106e49119545d49e8594ec7f3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 11/35] fix: HermiteFunction::SecondDerivative used the basis
 index as the Hermite order

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..4a3ded5 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From 09b90c7deab6838eaeaab32d2e32170fd29c117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 12/35] fix: Factorial overflowed for arguments above 12, so
 higher basis orders were normalized wrongly

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..98ce1cd 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From e002a2ce38a2a1ffe1d5d019173a27650c86a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 13/35] fix: MonotoneComponent::Evaluate and the continuous log
 determinant ignored the nugget

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..873a2e2 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -520,7 +520,7 @@ public:
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
                 // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From c533912421d95d04c4df3fa1d8ff34aa9a6cd983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 14/35] fix: MonotoneComponent::DiscreteMixedJacobian added to
 whatever its output held

---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 873a2e2..b696e74 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -969,7 +969,7 @@ public:
 
                 // Add the Integral to the coefficient gradient
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From a9ffed6699efd6cd72a0f0f713e1ad6300eeba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 15/35] fix: FixedMultiIndexSet in uncompressed form lost the
 end of its last term

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..5aeaa08 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<=numTerms; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From 45b3a5fe4a1c8e33dbc2b3af67be73fd27b8d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 16/35] fix: inverting a one-dimensional component without
 conditioning inputs read outside its empty input

---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index b696e74..683398b 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,7 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From b6ce75bc8bba94a10676b836f69b5d66050822bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 17/35] fix: evaluating a component on an empty set of points
 divided by zero

---
 MParT/Utilities/KokkosHelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..8f2649a 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,7 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From 54f3a41b5fc32b399e5823d46f3cfe83d84baa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 18/35] fix: adaptive quadrature wrote beyond its workspace
 when minSub was not below maxSub

---
 MParT/Quadrature.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..a609e8a 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -624,7 +624,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -914,7 +914,7 @@ public:
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
             // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            if(((error<errorTol)&&(currLevel>=this->minSub_))||(currLevel+1>=this->maxSub_)||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From 7610ad6d0db6e9aec3c531f1bf5ffe3ebd297c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 19/35] fix: MultiIndexSet::Expand returned a term once per
 frontier neighbor instead of once

---
 src/MultiIndices/MultiIndexSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..6f112dd 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -692,6 +692,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        if(IsActive(neighbor)) continue; // Already activated as the neighbor of another frontier term
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From ae9cb1a28310e340e02fd1f3e83f0e0d1955fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 20/35] fix: TrainMapAdaptive discarded the given multi-index
 sets when no expansion improved on them

---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..6db1e05 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From 3591a9b6fd1999381c6a4f79125de29d2b16b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 21/35] fix: TrainMapAdaptive read uninitialized indices when
 no term could be added, and past the reduced margin

---
 src/TrainMapAdaptive.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 6db1e05..811aea8 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
@@ -189,8 +189,9 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         }
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
-        unsigned int maxIdx, maxIdxBlock;
+        unsigned int maxIdx = 0, maxIdxBlock = outputDim;
         findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(maxIdxBlock == outputDim) break; // No term can be added
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From b45d8b9081bff28364044096a935c87110e52ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 22/35] fix: TrainMapAdaptive dropped the trained coefficients
 of the component it enlarged

---
 src/TrainMapAdaptive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 811aea8..19dee01 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -214,6 +214,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         Kokkos::View<double*, Kokkos::HostSpace> newCoeffs ("New component coefficients", newComp->numCoeffs);
         std::copy(oldCoeffs.data(), oldCoeffs.data() + mset_sizes[maxIdxBlock], newCoeffs.data());
         newCoeffs(mset_sizes[maxIdxBlock]) = 0.;
+        newComp->WrapCoeffs(newCoeffs);
         mapBlocks[maxIdxBlock] = newComp;
         mset_sizes[maxIdxBlock]++;
         map = std::make_shared<TriangularMap<Kokkos::HostSpace>>(mapBlocks, true);
-- 
2.43.0


From 853b0a283e04fcff7327d023ae8354989305012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 23/35] fix: Python MultiIndex defines __ne__ and __repr__
 (were misspelt __neq__ and __repl__)

---
 bindings/python/src/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/MultiIndex.cpp b/bindings/python/src/MultiIndex.cpp
index d97c961..5cadb5d 100644
--- a/bindings/python/src/MultiIndex.cpp
+++ b/bindings/python/src/MultiIndex.cpp
@@ -98,10 +98,10 @@ void mpart::binding::MultiIndexWrapper(py::module &m)
         .def("count_nonzero", &MultiIndex::NumNz)
 
         .def("__str__", &MultiIndex::String)
-        .def("__repl__",&MultiIndex::String)
+        .def("__repr__",&MultiIndex::String)
         .def("__len__", &MultiIndex::Length)
         .def("__eq__", &MultiIndex::operator==)
-        .def("__neq__", &MultiIndex::operator!=)
+        .def("__ne__", &MultiIndex::operator!=)
         .def("__lt__", &MultiIndex::operator<)
         .def("__gt__", &MultiIndex::operator>)
         .def("__le__", &MultiIndex::operator<=)
-- 
2.43.0


From f21a0a7cb46f550ec02de7824fe05d83b4837dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 24/35] fix: copy the orders a FixedMultiIndexSet is created
 from in Python

---
 bindings/python/src/MultiIndex.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/MultiIndex.cpp b/bindings/python/src/MultiIndex.cpp
index 5cadb5d..e6b40c6 100644
--- a/bindings/python/src/MultiIndex.cpp
+++ b/bindings/python/src/MultiIndex.cpp
@@ -160,7 +160,12 @@ void mpart::binding::MultiIndexWrapper(py::module &m)
         .def(py::init( [](unsigned int dim,
                           Eigen::Matrix<unsigned int, Eigen::Dynamic, 1> &orders)
         {
-            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, VecToKokkos<unsigned int,Kokkos::HostSpace>(orders));
+            // Deep copy the orders: the set keeps the view, while the memory of the argument only lives as long as this call
+            Kokkos::View<unsigned int*,Kokkos::HostSpace> nzOrders("nzOrders", orders.rows());
+            for(unsigned int i=0; i<orders.rows(); ++i)
+                nzOrders(i) = orders(i);
+
+            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, nzOrders);
         }))
 
         .def(py::init( [](unsigned int dim,
-- 
2.43.0


From 6aae80542bb950de2f15fa3d4aabd44837a3baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 25/35] fix: MultiIndexSet copies the neighbor sets it iterates
 over while terms are added

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 6f112dd..a7c2b86 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -708,7 +708,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  std::set<int> tempSet = outEdges.at(globalIndex);
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -727,7 +727,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex);
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From 088b4e576bfc0016ae633f8c42242dc805a8decc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 26/35] fix: MultiIndexSet::ReducedMargin returns only terms of
 the limiting set with all backward neighbors active

---
 src/MultiIndices/MultiIndexSet.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index a7c2b86..078b74e 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -535,12 +535,8 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
     // If this is an inactive multiindex
     if(!IsActive(globalInd)){
 
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
+      // Inactive terms of the limiting set with only active backward neighbors are exactly the admissible ones
+      if(IsAdmissible(globalInd))
         output.push_back(allMultis.at(globalInd));
 
     }
-- 
2.43.0


From fa93fe1754beff89499499f2d3cbb2ec9cec750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 27/35] fix: MultiIndexSet::SetLimiter checks all active terms
 first and removes all edges of excluded terms

---
 src/MultiIndices/MultiIndexSet.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 078b74e..e59e30c 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,20 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  // make sure all active terms in the set obey the new limiter before changing anything
+  for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
+  {
+    if(IsActive(globalInd) && !newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If an inactive term is not allowed by the new limiter, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
@@ -205,6 +209,10 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
-- 
2.43.0


From fc53f47417a8bbbbce8732af4c60bd6e786adf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 28/35] fix: MultiIndexSet does not activate stored terms that
 its limiter excludes

---
 src/MultiIndices/MultiIndexSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index e59e30c..4a007c7 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -273,7 +273,8 @@ int MultiIndexSet::AddInactive(MultiIndex const& newNode)
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
-    return iter->second;
+    // A stored inactive term might not be allowed by a limiter that was set after the term was added
+    return (IsActive(iter->second) || limiter(newNode)) ? int(iter->second) : -1;
 
   }else if(limiter(newNode)){
     return AddMulti(newNode);
-- 
2.43.0


From 1ad4b5ced071f3d8c4a9ae395bd131d9667b0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 29/35] fix: MultiIndex Set and Get reject an index equal to
 the length

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From a9dd4928ac79901eab64ba1edbb84fa31ae25547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 30/35] fix: FixedMultiIndexSet::MultiToIndex does not read
 past the starts of the terms

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 5aeaa08..1cb247c 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i<Size(); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From 0075002d8d52893bf434339538628a685471fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 31/35] fix: Find_x_ITP interpolates towards the target value
 instead of zero

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..79ec6ad 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -93,7 +93,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
                                          double k1, double k2, double nhalf, double n0, int it, double xtol) {
 
         double xb = 0.5*(xub+xlb); // bisection point
-        double xf = (xub*ylb - xlb*yub)/(ylb-yub); // regula-falsi point
+        double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
-- 
2.43.0


From 4c356b6be01efc68a67069cd07da411f77b140dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:36 +0000
Subject: [PATCH 32/35] fix: InverseSingleBracket reports the iteration limit

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 79ec6ad..c183503 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -160,7 +160,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     };
 
 
-    if(it>maxIts)
+    if(it>=maxIts)
         info = -1;
 
     return 0.5*(xub+xlb);
-- 
2.43.0


From 869bf7982a0e7048fe51add296cf28940af86083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 33/35] fix: SetCoeffs refuses a vector of the wrong size the
 first time as well

---
 src/ParameterizedFunctionBase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..a5151e8 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From 649052209c16155d096532f3948b2f1caf100df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 34/35] fix: GaussianSamplerDensity keeps its own copy of the
 mean

---
 src/Distributions/GaussianSamplerDensity.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index 4b264a9..de3d28d 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -3,7 +3,8 @@
 using namespace mpart;
 
 template<typename MemorySpace>
-GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedVector<double, MemorySpace> mean, StridedMatrix<double, MemorySpace> covar): SampleGenerator<MemorySpace>(mean.extent(0)), DensityBase<MemorySpace>(mean.extent(0)), mean_(mean) {
+GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedVector<double, MemorySpace> mean, StridedMatrix<double, MemorySpace> covar): SampleGenerator<MemorySpace>(mean.extent(0)), DensityBase<MemorySpace>(mean.extent(0)), mean_(Kokkos::View<double*, MemorySpace>("Mean", mean.extent(0))) {
+    Kokkos::deep_copy(mean_, mean);
     Factorize(covar);
 }
 
@@ -13,7 +14,9 @@ GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedMatrix<double
 }
 
 template<typename MemorySpace>
-GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedVector<double, MemorySpace> mean): SampleGenerator<MemorySpace>(mean.extent(0)), DensityBase<MemorySpace>(mean.extent(0)), mean_(mean), idCov_(true) {}
+GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedVector<double, MemorySpace> mean): SampleGenerator<MemorySpace>(mean.extent(0)), DensityBase<MemorySpace>(mean.extent(0)), mean_(Kokkos::View<double*, MemorySpace>("Mean", mean.extent(0))), idCov_(true) {
+    Kokkos::deep_copy(mean_, mean);
+}
 
 template<typename MemorySpace>
 GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(unsigned int dim): SampleGenerator<MemorySpace>(dim), DensityBase<MemorySpace>(dim), idCov_(true) {}
-- 
2.43.0


From 4cdf26353c88fa9d804ac0ff7672d9a6a079dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:38 +0000
Subject: [PATCH 35/35] fix: GaussianSamplerDensity refuses a covariance that
 does not fit its dimension

---
 MParT/Distributions/GaussianSamplerDensity.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 6e5496f..c817b40 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,6 +74,9 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
+        if(Cov.extent(0) != dim_ || Cov.extent(1) != dim_) {
+            throw std::invalid_argument("GaussianSamplerDensity: The covariance must be a square matrix with the dimension of the distribution.");
+        }
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Covariance", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
         covChol_.compute(covLeft);
-- 
2.43.0

