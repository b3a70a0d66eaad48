From cc469bc8f1a9b47e31ee402deb302584494d68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 01/41] fix: normalize the derivative of the first order
 polynomial in OrthogonalPolynomial::Derivative

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..31e9cf8 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(1) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From 1aa30a4e46db9ab4e1bd301f3fa6ea3d4f97d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 02/41] fix: second derivative of Hermite functions used the
 wrong order

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..4a3ded5 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From b977330868bf1e5f84408ce03792d5e419cc5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 03/41] fix: factorial overflowed for orders above 12

---
 MParT/Utilities/MathFunctions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..ac47e8c 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -6,10 +6,10 @@
 
 namespace mpart{
 
-    /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    /** Computes the factorial d!  (in floating point, because 13! already overflows a 32 bit integer) */
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From 0a213f9f5334f0a99daa8d5a28711d45904c5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 04/41] fix: AffineMap::LogDeterminantInputGradImpl left its
 output unwritten

---
 src/AffineMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..c30c6d3 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant does not depend on the input
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 20be68fe5af1a9c44b2dd3b3cdcf2968ba286a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 05/41] fix: IdentityMap coefficient gradients aborted instead
 of returning an empty gradient

---
 src/IdentityMap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..a347d7b 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,8 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // The identity has no coefficients, so there is nothing to fill in
+    return;
 }
 
 template<typename MemorySpace>
@@ -80,7 +81,8 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // The identity has no coefficients, so there is nothing to fill in
+    return;
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 0a5b2236c8f362363c705429e7e2139f0ad43997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 06/41] fix: SummarizedMap aborted when its output was not row
 major

---
 src/SummarizedMap.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..0bebf9a 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -164,10 +164,10 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From f25571f495c1f83d019de462d1081d5815f0a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 07/41] fix: AffineMap inverse aborted when its output was a
 strided column major block

---
 src/AffineMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index c30c6d3..5ff8d19 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -71,11 +71,11 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
 
     int numPts = r.extent(1);
 
-    // Make sure we work with a column major output matrix if there is a linear component
+    // Make sure we work with a contiguous column major output matrix if there is a linear component
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From fd112de140b864bbf3d89ce6af3babef4a8c9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 08/41] fix: affine gradients read their output before writing
 it

---
 src/AffineFunction.cpp | 2 ++
 src/AffineMap.cpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/AffineFunction.cpp b/src/AffineFunction.cpp
index 1969ecd..67a7e7a 100644
--- a/src/AffineFunction.cpp
+++ b/src/AffineFunction.cpp
@@ -84,6 +84,8 @@ void AffineFunction<MemorySpace>::GradientImpl(StridedMatrix<const double, Memor
 {
     // Linear part
     if(A_.extent(0)>0){
+        // Initialize output to zeros
+        Kokkos::deep_copy(output, 0.0);
         dgemm<MemorySpace>(1.0, transpose(A_), sens, 0.0, output);
     }else{
         Kokkos::deep_copy(output, sens);
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 5ff8d19..7735c48 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -186,6 +186,8 @@ void AffineMap<MemorySpace>::GradientImpl(StridedMatrix<const double, MemorySpac
 {
     // Linear part
     if(A_.extent(0)>0){
+        // Initialize output to zeros
+        Kokkos::deep_copy(output, 0.0);
         dgemm<MemorySpace>(1.0, transpose(A_), sens, 0.0, output);
     }else{
         Kokkos::deep_copy(output, sens);
-- 
2.43.0


From 686f72dfd418fc7845137b7223208b785bc7319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 09/41] fix: SetCoeffs rejects a coefficient vector of the
 wrong length even when no coefficients were set before

---
 src/ParameterizedFunctionBase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..a5151e8 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From 27a9d2d5a380121f066346d700c86d7a262f7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 10/41] fix: SummarizedMap reports a summary function without
 coefficients instead of reading unset memory

---
 src/SummarizedMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 0bebf9a..98a923f 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -80,6 +80,8 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
     StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
+    if(!sumFunc_->CheckCoefficients())
+        throw std::runtime_error("Error in SummarizedMap, the coefficients of the summary function have not been set yet.");
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-- 
2.43.0


From 2c25595afd299a99afdfa45a311f11d2f6b935e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 11/41] fix: Gaussian log density wrote outside a strided
 output vector

---
 src/Distributions/GaussianSamplerDensity.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..cefa8f8 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -45,9 +45,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
     }
 
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    // The reduction needs contiguous memory, but the output might be strided
+    Kokkos::View<double*, MemorySpace> quadForm("quadForm", N);
+    Kokkos::parallel_reduce(M, rr, quadForm.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = quadForm(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
-- 
2.43.0


From 13a7e27da977ffbe646debd7d8e2de330c57d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 12/41] fix: Gaussian density gradient aborted on row-major
 outputs

---
 src/Distributions/GaussianSamplerDensity.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index cefa8f8..18aaf7c 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -75,7 +75,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        // The solver needs a contiguous column major matrix
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> grad("grad", M, N);
+        Kokkos::deep_copy(grad, output);
+        covChol_.solveInPlace(grad);
+        Kokkos::deep_copy(output, grad);
     }
 }
 
-- 
2.43.0


From 84f386049363c0e8945f3e8f8845fa17722f76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 13/41] fix: Gaussian densities aborted on row-major covariance
 matrices

---
 MParT/Distributions/GaussianSamplerDensity.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..b2730be 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The factorization needs a contiguous column major matrix
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("cov", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
-- 
2.43.0


From 77efb3b7a730cf917693b5b4f351d7249a8873e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 14/41] fix: PullbackDensity::LogDensityCoeffGrad with Eigen
 matrices returned the input gradient

---
 src/Distributions/PullbackDensity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..6f5d0f2 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
-    // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    // Call the LogDensityCoeffGrad function
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 6a4d747af77012f39d53beb6a9b07db6cf02052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 15/41] fix: KL objective gradient wrote outside a strided
 gradient vector

---
 src/MapObjective.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..7f31683 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -60,7 +60,10 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
         sum -= densityX(i);
     }, sumDensity);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous memory, but the gradient might be strided
+    Kokkos::View<double*, MemorySpace> meanGrad("meanGrad", map->numCoeffs);
+    Kokkos::parallel_reduce(N_samps, rc, meanGrad.data());
+    Kokkos::deep_copy(grad, meanGrad);
     return sumDensity/N_samps;
 }
 
@@ -82,7 +85,10 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous memory, but the gradient might be strided
+    Kokkos::View<double*, MemorySpace> meanGrad("meanGrad", map->numCoeffs);
+    Kokkos::parallel_reduce(N_samps, rc, meanGrad.data());
+    Kokkos::deep_copy(grad, meanGrad);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From 0263f55976b7124e9a4fdde1a81c38cbfa94fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 16/41] fix: MapObjective wrote the gradient through a null
 pointer for derivative-free optimizers

---
 src/MapObjective.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index 7f31683..d95332a 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,12 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+    // Optimizers which do not use derivatives do not provide storage for the gradient
+    if(grad == nullptr) {
+        return ObjectiveImpl(train_, map);
+    }
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From cd18c4cb6d95d04d8c387433fc8d42f66c2cb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 17/41] fix: InverseSingleBracket reports running out of
 iterations

The loop leaves with it==maxIts, which the test it>maxIts never saw, so a
bracket wider than the tolerance was returned as a solution with info=0.
---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..ee4de85 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -160,7 +160,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     };
 
 
-    if(it>maxIts)
+    if(it>=maxIts)
         info = -1;
 
     return 0.5*(xub+xlb);
-- 
2.43.0


From 8db1eb0376c1f7d6d5e47ffa6ccf46c5ecd4c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 18/41] fix: evaluation and continuous derivative of a monotone
 component include the nugget

---
 MParT/MonotoneComponent.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..4e6ca3f 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -519,8 +519,8 @@ public:
                 // Compute \partial_d f
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
-                // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                // Compute g(df/dx) + nugget
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From c26325e0b1a372262dcc5c66dc371285693d16ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 19/41] fix: DiscreteMixedJacobian overwrites its output

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 4e6ca3f..0d6830c 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -967,9 +967,9 @@ public:
                 // Compute \int_0^x g( \partial_D f(x_1,...,x_{D-1},t)) dt as well as the gradient of this term wrt the coefficients of f
                 quad_.Integrate(workspace.data(), integrand, 0, 1, integral.data());
 
-                // Add the Integral to the coefficient gradient
+                // The map slope is the integral alone, f(x_1,...,x_{D-1},0) does not depend on x_D
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From ee098f09612ba9b5ec2e9ad14a6adc62198b6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 20/41] fix: inverting a monotone component at leading inputs
 only does not read past them

---
 MParT/MonotoneComponent.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 0d6830c..6fe4b2f 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,9 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                // The last coordinate of the point, when there is one, serves as the initial guess
+                const double guess = (pt.extent(0)>=dim_) ? pt(dim_-1) : 0.0;
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, guess, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From 80c574e28f35c807b5f754e6ebb447192398b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 21/41] fix: reading or writing a multi-index entry just past
 its end is rejected

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From 13b5723870706dea0def023f97ea798789fec474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 22/41] fix: the maximum of a multi-index without entries is
 zero

---
 src/MultiIndices/MultiIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index 72bd341..2438881 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -9,7 +9,7 @@ using namespace mpart;
 MultiIndex::MultiIndex() : MultiIndex((unsigned int)0, (unsigned int)0) {};
 
 MultiIndex::MultiIndex(unsigned int lengthIn, unsigned val) : length(lengthIn),
-                                                                maxValue(val),
+                                                                maxValue((lengthIn>0) ? val : 0),
                                                                 totalOrder(lengthIn*val)
 {
   if(val>0){
-- 
2.43.0


From f7caf22c3f87a6c7764f1070cb859ff7ef462a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 23/41] fix: a multi-index can be built from an empty vector

---
 MParT/MultiIndices/MultiIndex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MultiIndices/MultiIndex.h b/MParT/MultiIndices/MultiIndex.h
index 6fe85f0..a4a389b 100644
--- a/MParT/MultiIndices/MultiIndex.h
+++ b/MParT/MultiIndices/MultiIndex.h
@@ -34,7 +34,7 @@ public:
         @param[in] indIn Row vector of unsigned integers defining the
                         multiindex.
     */
-    MultiIndex(std::vector<unsigned int> const& indIn) : MultiIndex(&indIn[0], indIn.size()){};
+    MultiIndex(std::vector<unsigned int> const& indIn) : MultiIndex(indIn.data(), indIn.size()){};
 
     /** Constructs a multiindex from an Eigen vector. */
     template <typename Derived>
-- 
2.43.0


From 51060aada5892163c686896cbd6ed91629a6cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 24/41] fix: searching a compressed index set for an absent
 multi-index reads past its arrays

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..a48828b 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,8 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        const unsigned int numTerms = Size();
+        for(unsigned int i=0; i<numTerms; ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From 7a4fabda387b9111d5f28ec815abefb09dd1c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 25/41] fix: forced expansion iterated over neighbour sets that
 move while it adds terms

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..c817aaa 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -707,7 +707,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  std::set<int> tempSet = outEdges.at(globalIndex); // copied, because adding terms below can move the sets
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -726,7 +726,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex); // copied, because adding terms below can move the sets
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From 32b96065d5186e6d9abda87c059e505c67f89d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 26/41] fix: expanding a whole set returned terms shared by
 several frontier members repeatedly

---
 src/MultiIndices/MultiIndexSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index c817aaa..f290606 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -692,6 +692,8 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        if(IsActive(neighbor)) // several frontier terms can share a forward neighbor
+            continue;
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From eec1f48cb1b621b798ea9cfcfd5ae2cac5b6edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 27/41] fix: the reduced margin contained terms whose backward
 neighbors are not all active

---
 src/MultiIndices/MultiIndexSet.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f290606..19eeead 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -532,18 +532,9 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
 
   for(unsigned int globalInd=0; globalInd<global2active.size(); ++globalInd){
 
-    // If this is an inactive multiindex
-    if(!IsActive(globalInd)){
-
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
-        output.push_back(allMultis.at(globalInd));
-
-    }
+    // If this is an inactive multiindex in the limiting set with active backward neighbors only
+    if(!IsActive(globalInd) && IsAdmissible(globalInd))
+      output.push_back(allMultis.at(globalInd));
   }
 
   return output;
-- 
2.43.0


From 9620c73c8cdb6efbbd1a9814f4ecf6801e26749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 28/41] fix: a known multi-index that violates the current
 limiter could be activated

---
 src/MultiIndices/MultiIndexSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 19eeead..e2be7ca 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -262,16 +262,16 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  if(!limiter(newNode))
+    return -1;
+
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
     return iter->second;
 
-  }else if(limiter(newNode)){
-    return AddMulti(newNode);
-
   }else{
-    return -1;
+    return AddMulti(newNode);
   }
 }
 
-- 
2.43.0


From 8e5908c2ab88ade0688a35934bd81b3b3b5381fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 29/41] fix: a refused limiter left the multi-index set using
 it

---
 src/MultiIndices/MultiIndexSet.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index e2be7ca..945f412 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,20 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  //  make sure all active terms in the set obey the new limiter before changing anything
+  for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
+  {
+    if(IsActive(globalInd) && !newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
   //  If a term is inactive, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
-- 
2.43.0


From 7eee546852d759db2508c29d81369bdf6818f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 30/41] fix: forced activation could add a term that a later
 limiter excludes

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 945f412..d9b60c9 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -209,6 +209,10 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
-- 
2.43.0


From 6840c461863c1eda687ec070fd15c2fdfdc8e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 31/41] fix: viewing a vector as a matrix without columns
 divided by zero

---
 MParT/Utilities/ArrayConversions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..2410f8b 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -194,7 +194,7 @@ namespace mpart{
     template<typename ScalarType, class MemorySpace>
     StridedMatrix<ScalarType, MemorySpace> MatToKokkos(std::vector<ScalarType> &vec, int cols)
     {
-        auto rows = vec.size()/cols;
+        auto rows = (cols==0) ? 0 : vec.size()/cols;
         return Kokkos::View<ScalarType**, MemorySpace>(vec.data(), rows, cols);
     }
 
@@ -215,7 +215,7 @@ namespace mpart{
     template<typename ScalarType, class MemorySpace>
     StridedMatrix<const ScalarType, MemorySpace> MatToConstKokkos(std::vector<ScalarType> &vec, int cols)
     {
-        auto rows = vec.size()/cols;
+        auto rows = (cols==0) ? 0 : vec.size()/cols;
         return Kokkos::View<const ScalarType**, MemorySpace>(vec.data(), rows, cols);
     }
 
-- 
2.43.0


From 0918a5754b1a7ebaa9c3c4e4d88aeb6bceb8a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 32/41] fix: converting a block of an Eigen matrix to a view
 ignored the spacing of its rows or columns

---
 MParT/Utilities/ArrayConversions.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 2410f8b..95dfd64 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -430,14 +430,17 @@ namespace mpart{
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
     inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        // The rows of a block are further apart than its number of columns
+        Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> full(ref.data(), ref.rows(), ref.outerStride());
+        return Kokkos::subview(full, std::make_pair(Eigen::Index(0), ref.rows()), std::make_pair(Eigen::Index(0), ref.cols()));
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
     inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        // The columns of a block are further apart than its number of rows
+        Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> full(ref.data(), ref.outerStride(), ref.cols());
+        return Kokkos::subview(full, std::make_pair(Eigen::Index(0), ref.rows()), std::make_pair(Eigen::Index(0), ref.cols()));
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From 89f30a82146cbf3d540c68661555ac5bed9ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 33/41] fix: a Clenshaw-Curtis rule used the midpoint only on
 reversed intervals

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..d86efde 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -285,7 +285,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(std::abs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
-- 
2.43.0


From c41fccf37ed4dcb75e5d640f25c3614b84c30926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 34/41] fix: adaptive Clenshaw-Curtis built around user views
 filled in a rule one level too low

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index d86efde..d1b01d3 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -773,7 +773,7 @@ public:
                                                                                 finePts_(finePts),
                                                                                 fineWts_(fineWts)
     {
-        const unsigned int level = std::log2(coarsePts.extent(0)-2);
+        const unsigned int level = std::log2(coarsePts.extent(0)-1);
         assert(std::pow(2,level)+1 >=3);
 
         ClenshawCurtisQuadrature<MemorySpace>::GetRule(std::pow(2,level)+1,  coarseWts_.data(), coarsePts_.data());
-- 
2.43.0


From 010e92dbb8184326c861596fbc16b76c73491abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 35/41] fix: adaptive quadrature never ended once it subdivided
 beyond 31 levels

---
 MParT/Quadrature.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index d1b01d3..d39e70c 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -2,6 +2,7 @@
 #define MPART_QUADRATURE_H
 
 #include <math.h>
+#include <cstdint>
 #include <sstream>
 #include <vector>
 
@@ -561,7 +562,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        uint64_t currSegment = 0; // One bit for each level
 
         double midPt = 0.5*(lb+ub);
 
@@ -632,7 +633,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -642,7 +643,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (2*currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -693,7 +694,7 @@ private:
 
     
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, uint64_t currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         midVal = &workspace[2*this->fdim_];
@@ -827,7 +828,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        uint64_t currSegment = 0; // One bit for each level
 
         double midPt = 0.5*(lb+ub);
         double scale = (ub-lb);
@@ -922,7 +923,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -932,7 +933,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -985,7 +986,7 @@ public:
 
 private:
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, uint64_t currSegment, double* &leftVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         rightVal = &workspace[this->fdim_];
-- 
2.43.0


From 872c5ac71649a192d2c1a3f88f3867484c55a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:47 +0000
Subject: [PATCH 36/41] fix: Clenshaw-Curtis components from the factory
 tripped the workspace assertion when differentiated

The factory gave the rule an internal workspace for scalar integrands. The
component passes its own workspace and asks for vector valued integrands, so
SetDim's assertion failed as soon as a coefficient gradient was computed. Like
the adaptive rules, build it without internal workspace.
---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 5d874b76004df8661090c6739e2392f8e8280480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 37/41] fix: a saved triangular map wrote its components twice
 and could not be read back

save wrote the components, then the components and the coefficient flag, while
load_and_construct reads the components once and then the flag. The flag was
taken from the second copy, so maps whose coefficients live in the components
came back with coefficients of their own or failed to load, and whatever
followed the map in the archive was misread.
---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 5e7edd96641a1560aa5608317bfff6d6bb33f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 38/41] fix: saving a block of a larger matrix wrote the
 entries between its rows or columns

The view was written as one contiguous piece of memory, but a block of a
LayoutLeft or LayoutRight matrix keeps the spacing of the matrix it is taken
from. Copy such blocks to contiguous memory first.
---
 MParT/Utilities/Serialization.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/Serialization.h b/MParT/Utilities/Serialization.h
index bd70476..5c4ce05 100644
--- a/MParT/Utilities/Serialization.h
+++ b/MParT/Utilities/Serialization.h
@@ -62,8 +62,14 @@ namespace cereal {
         ar(m,n);
 
         if((m>0)&&(n>0)){
-            Kokkos::View<ScalarType**,Traits...> mat_h = mat;
-            ar(binary_data(mat_h.data(), m * n * sizeof(ScalarType)));
+            if(mat.span_is_contiguous()){
+                ar(binary_data(mat.data(), m * n * sizeof(ScalarType)));
+            }else{
+                // A block of a larger matrix has gaps between its rows or columns
+                Kokkos::View<std::remove_const_t<ScalarType>**,Traits...> mat_h(name, m, n);
+                Kokkos::deep_copy(mat_h, mat);
+                ar(binary_data(mat_h.data(), m * n * sizeof(ScalarType)));
+            }
         }
     }
 
-- 
2.43.0


From 36ee26e82877e06696cf1a987c40189c6efa6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 39/41] fix: adaptive training dropped the given terms when no
 refinement improved the test error

The best sets started out as constant-only sets instead of the sets the
initial map is built from, so when no step had a smaller test error the
returned map, and the sets handed back, only had constant terms.
---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..6db1e05 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From 2cc5cbafea32f4baacb8f8f68ef9af04becd66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 40/41] fix: adaptive training read past an empty reduced
 margin

A component whose limiter admits no further terms has an empty reduced margin.
---
 src/TrainMapAdaptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 6db1e05..d439e63 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
-- 
2.43.0


From cd8fe073a0548fbb93a0472b913164c7ede7345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 41/41] fix: adaptive training used unset indices when no term
 had a nonzero gradient

When all terms of the reduced margin are excluded by the maximum degrees or
the limiters, or all their gradients vanish, the index of the added term was
never set. Stop when there is no candidate, and otherwise pick the first one.
---
 src/TrainMapAdaptive.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index d439e63..e96ab27 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,16 +3,19 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+// Returns false if there is no candidate at all
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
     double maxVal = 0.;
+    bool found = false;
     unsigned int blockStart = 0;
     for(int output = 0; output < outputDim; output++) {
         for(int i = 0; i < multis_rm[output].size(); i++) {
             unsigned int idx = multis_rm[output][i];
             double gradVal = std::abs(gradCoeff(blockStart + idx));
-            if(gradVal > maxVal) {
+            if(!found || gradVal > maxVal) {
+                found = true;
                 maxVal = gradVal;
                 maxIdx = idx;
                 maxIdxBlock = output;
@@ -20,6 +23,7 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
         }
         blockStart += msets[output].Size();
     }
+    return found;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -190,7 +194,10 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            // Every term that could be added exceeds the maximum degrees or the limiters of the sets
+            break;
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0

