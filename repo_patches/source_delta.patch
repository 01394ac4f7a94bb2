From c0d80ce2ef36590dbca1c71a5a173175c6d80122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:16 +0000
Subject: [PATCH 01/41] fix: use the biorthogonal kernels for the non-periodic
 biorthogonal basis

The non-periodic BiorthogonalBasisFunction was dispatched to the full weighting
kernels in both directions; the biorthogonal boundary kernels were never used
for it.
---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From afa24afd225097fb05c8fcbbe2167d45de5f7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:39 +0000
Subject: [PATCH 02/41] fix: getLocalLinearIndex(global linear index) on
 decomposed grids

The global vector index was linearized with the local strides; convert it to
the local vector index first.
---
 src/fullgrid/DistributedFullGrid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..c70204b 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -811,9 +811,11 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   globAxisIndex.resize(dim_);
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
-  if (this->isGlobalIndexHere(globAxisIndex)) {
+  static thread_local IndexVector locAxisIndex(dim_);
+  locAxisIndex.resize(dim_);
+  if (getLocalVectorIndex(globAxisIndex, locAxisIndex)) {
     // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From 6ef8cd0ee39925e007e80f07678c7a1481d0ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:39 +0000
Subject: [PATCH 03/41] fix: last entry of the power-of-two tables

The tables have 30 entries but only 29 initializers, so grids of level 29
(allowed by the constructor) got a grid spacing of 0.
---
 src/utils/PowerOfTwo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/PowerOfTwo.hpp b/src/utils/PowerOfTwo.hpp
index 77e7da1..5f3f02d 100644
--- a/src/utils/PowerOfTwo.hpp
+++ b/src/utils/PowerOfTwo.hpp
@@ -18,7 +18,7 @@ inline IndexType powerOfTwoByBitshift(LevelType x) {
 const int powerOfTwo[30] = {
     1,       2,       4,       8,       16,       32,       64,       128,       256,      512,
     1024,    2048,    4096,    8192,    16384,    32768,    65536,    131072,    262144,   524288,
-    1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456};
+    1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912};
 
 /** vector with one over power two */
 const double oneOverPowOfTwo[30] = {
@@ -27,6 +27,7 @@ const double oneOverPowOfTwo[30] = {
     1.0 / 1024.0,     1.0 / 2048.0,     1.0 / 4096.0,      1.0 / 8192.0,     1.0 / 16384.0,
     1.0 / 32768.0,    1.0 / 65536.0,    1.0 / 131072.0,    1.0 / 262144.0,   1.0 / 524288.0,
     1.0 / 1048576.0,  1.0 / 2097152.0,  1.0 / 4194304.0,   1.0 / 8388608.0,  1.0 / 16777216.0,
-    1.0 / 33554432.0, 1.0 / 67108864.0, 1.0 / 134217728.0, 1.0 / 268435456.0};
+    1.0 / 33554432.0, 1.0 / 67108864.0, 1.0 / 134217728.0, 1.0 / 268435456.0,
+    1.0 / 536870912.0};
 
 }  // namespace combigrid
-- 
2.43.0


From 8535c9b3d9141b75c4b0f130bb17caae57faf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:23 +0000
Subject: [PATCH 04/41] fix: evaluate grids with one-sided boundary at
 coordinate 1

The interpolant is periodic in dimensions with a one-sided boundary, but the
wrap-around was not recognized if the coordinate is exactly 1, giving 0.
---
 src/fullgrid/DistributedFullGrid.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index c70204b..112dac2 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1202,6 +1202,10 @@ void DistributedFullGrid<FG_ELEMENT>::evalLocal(const std::vector<real>& coords,
                this->getCartesianUtils().isOnLowerBoundaryInDimension(d)) {
       // if we have periodic boundary and this process is at the lower end of the dimension d
       // we need the periodic coordinate => don't return 0
+      if (localIndexLowerNonzeroNeighborIndexInThisDimension == this->getGlobalSizes()[d]) {
+        // at the upper end of the domain: the upper neighbor of the last cell is the wrap-around
+        --localIndexLowerNonzeroNeighborIndexInThisDimension;
+      }
     } else if (localIndexLowerNonzeroNeighborIndexInThisDimension > this->getLocalSizes()[d] - 1) {
       // index too high
       value = 0.;
-- 
2.43.0


From df0059a249efa9675f25442d322591d2b4c8406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:13 +0000
Subject: [PATCH 05/41] fix: header of plot files

The readers expect the dimension and the extents as ints; the dimension was
written as one byte and always six extents were written, shifting the header
and reading behind the end of the extents for less than six dimensions.
---
 src/fullgrid/DistributedFullGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 112dac2..289561a 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1454,10 +1454,11 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      int dimInt = static_cast<int>(dim);
+      MPI_File_write(fh, &dimInt, 1, MPI_INT, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      MPI_File_write(fh, &res[0], dimInt, MPI_INT, MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From 5d47d5fa8d795d423a833e06ca639d8105a69ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:55 +0000
Subject: [PATCH 06/41] fix: runfirst leaves no process group without a task

---
 src/manager/ProcessManager.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..31cfb92 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -38,8 +38,15 @@ bool ProcessManager<CombiDataType>::runfirst(bool doInitDSGUs) {
   }
 
   for (size_t i = 0; i < tasks_.size(); ++i) {
-    // wait for available process group
-    ProcessGroupManagerID<CombiDataType> g = wait();
+    ProcessGroupManagerID<CombiDataType> g;
+    if (i < pgroups_.size()) {
+      // every process group needs at least one task, no matter how fast the others are
+      g = pgroups_[i];
+      waitForPG(g);
+    } else {
+      // wait for available process group
+      g = wait();
+    }
 
     // assign instance to group
     g->runfirst(tasks_[i]);
-- 
2.43.0


From f8782f0d14db9f9cf339d412a7f061909136f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 07/41] fix: level of constant dimensions in the classical
 combination scheme

The dummy dimensions were given the maximum level of the first dimensions
instead of their own.
---
 src/combischeme/CombiMinMaxScheme.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..8835e44 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -44,9 +44,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   // re-insert dummy dimensions left out
   for (size_t i = 0; i < dummyDims.size(); ++i) {
     for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[dummyDims[i]]);
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    lmin_[dummyDims[i]] = lmax_[dummyDims[i]];
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
-- 
2.43.0


From 9769f7445a2de01d3f3c904f0e4024661d4a836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:47 +0000
Subject: [PATCH 08/41] fix: adaptive combination scheme for unequal level
 differences

The down set was shrunk to sum(lmax) - (d-1)*max(lmax-lmin), so that the scheme
did not reach lmax, or was empty, if the differences are not all equal.
---
 src/combischeme/CombiMinMaxScheme.cpp | 6 +-----
 src/utils/LevelSetUtils.cpp           | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 8835e44..98e5f5e 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -79,11 +79,7 @@ void CombiMinMaxScheme::createAdaptiveCombischeme() {
   // // TODO: Why levelSum-1 ?
   // createLevelsRec(dim_, n_ - 1, dim_, l, lmax_);
   auto n = static_cast<LevelType>(n_ - combigrid::levelSum(lmin_));
-  auto rlmin = lmax_;
-  for (auto& rl: rlmin) {
-    rl = static_cast<LevelType>(rl - n);
-  }
-  combigrid::createTruncatedHierarchicalLevels(lmax_, rlmin, levels_);
+  combigrid::createTruncatedHierarchicalLevelsRec(0, n, l, lmax_, lmin_, levels_);
 
   for (auto level : levels_) {
     int l1norm = std::accumulate(level.begin(), level.end(), 0);
diff --git a/src/utils/LevelSetUtils.cpp b/src/utils/LevelSetUtils.cpp
index fcabc46..50c01f9 100644
--- a/src/utils/LevelSetUtils.cpp
+++ b/src/utils/LevelSetUtils.cpp
@@ -65,7 +65,7 @@ void createTruncatedHierarchicalLevelsRec(DimType dim, size_t n, LevelVector& l,
                                           std::vector<LevelVector>& created) {
   assert(lmax.size() == lmin.size());
   auto dimensionality = static_cast<DimType>(lmax.size());
-  assert(lmax[dim] == lmin[dim] + n);
+  assert(lmax[dim] <= lmin[dim] + static_cast<LevelType>(n));
 
   // sum leftmost entries of level vector
   LevelType lsum(0);
-- 
2.43.0


From c71684278cb5d2177522eb6ae4cd62d8ca9df86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 09/41] fix: classical combination scheme with constant
 dimensions

With all dimensions constant no component grid was listed, and the down set
lacked the coarser levels in the constant dimensions.
---
 src/combischeme/CombiMinMaxScheme.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 98e5f5e..effd528 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -22,8 +22,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   }
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
-    levels_.push_back(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
+    createDownSet();
     return;
   }
   // compute c which fulfills lmax - c*1  >= lmin
@@ -57,6 +58,10 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
     }
   }
   computeCombiCoeffsClassical();
+  // with dummy dimensions, the levels lack the coarser ones in the dummy dimensions
+  if (!dummyDims.empty()) {
+    createDownSet();
+  }
 
   if (levels_.empty()) {
     throw std::runtime_error("No combination levels!");
-- 
2.43.0


From de4540e9c16bbf76aa1cc10265ec2befbf60d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 10/41] fix: HypercubeDownSetGenerator for unequal levels

It stopped at the level with all entries equal to the first one's maximum.
---
 src/utils/LevelSetUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..57bc69d 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -130,8 +130,7 @@ class HypercubeDownSetGenerator {
 
  private:
   bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
+    return std::equal(currentLevel_.begin(), currentLevel_.end(), levelUpTo_.begin());
   }
 
   const LevelVector levelUpTo_;
-- 
2.43.0


From 6858b0193a4e4558004061b4852df53cbe3e4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 11/41] fix: partitioned sparse grid sizes with process
 boundaries at level-1 points

A level-1 point at the lower bound of a process was counted for the process
before it.
---
 src/combischeme/CombiMinMaxScheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.hpp b/src/combischeme/CombiMinMaxScheme.hpp
index c1ace2c..c7b3bc5 100644
--- a/src/combischeme/CombiMinMaxScheme.hpp
+++ b/src/combischeme/CombiMinMaxScheme.hpp
@@ -302,9 +302,9 @@ inline IndexType getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(
     }
   } else if (hierarchicalSubspaceLevel == 1) {
     if (nodalIndex > 0) {
-      if (nodalIndex >= (powerOfTwo[referenceLevel])) {
+      if (nodalIndex > (powerOfTwo[referenceLevel])) {
         index = 2;
-      } else if (nodalIndex >= (powerOfTwo[referenceLevel] / 2)) {
+      } else if (nodalIndex > (powerOfTwo[referenceLevel] / 2)) {
         index = 1;
       } else {
         index = 0;
-- 
2.43.0


From 09842ade790b59ec0ec6126d61f87791024673df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 12/41] fix: assign all component grids if the fractions do not
 add up exactly

Fractions are accepted up to a deviation of 1e-3, but then grids at the end of
a large scheme were assigned to no system, or read past its end.
---
 src/combischeme/CombiThirdLevelScheme.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/combischeme/CombiThirdLevelScheme.cpp b/src/combischeme/CombiThirdLevelScheme.cpp
index 724a217..554a569 100644
--- a/src/combischeme/CombiThirdLevelScheme.cpp
+++ b/src/combischeme/CombiThirdLevelScheme.cpp
@@ -1,5 +1,7 @@
 #include "combischeme/CombiThirdLevelScheme.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <numeric>
 #include <vector>
 
@@ -44,9 +46,15 @@ void CombiThirdLevelScheme::decomposeScheme(const std::vector<LevelVector>& full
   real scannedFrac = 0.;
   auto beginNextL = fullScheme.begin();
   auto beginNextC = fullSchemeCoeffs.begin();
-  for (auto frac : fractionsOfScheme) {
-    scannedFrac += frac;
-    auto currentSystemUpToIndex = std::round(static_cast<real>(fullScheme.size()) * scannedFrac);
+  for (size_t i = 0; i < fractionsOfScheme.size(); ++i) {
+    scannedFrac += fractionsOfScheme[i];
+    // the last system gets all that is left, even if the fractions do not add up exactly
+    const bool isLast = (i + 1 == fractionsOfScheme.size());
+    const auto currentSystemUpToIndex =
+        isLast ? fullScheme.size()
+               : std::min(fullScheme.size(),
+                          static_cast<size_t>(std::round(static_cast<real>(fullScheme.size()) *
+                                                         scannedFrac)));
     auto endIntervalL = fullScheme.begin() + currentSystemUpToIndex;
     auto endIntervalC = fullSchemeCoeffs.begin() + currentSystemUpToIndex;
     decomposedScheme.emplace_back(beginNextL, endIntervalL);
-- 
2.43.0


From 55d8914408f1128e2ba5fa5b17d235d805e72622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 13/41] fix: size of the Kahan buffer to be zeroed

The size of a pointer was used instead of the size of an element: too much for
float, too little for complex<double>.
---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..889e824 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From 04c35e160a801f03f5fff090cb69464a039a72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 14/41] fix: maximum coefficient of subspaces with negative
 values only

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 889e824..d091182 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From bc48ad7b46ad5bfe9444cdd7d71e6addacf5ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 15/41] fix: search for a subspace after one that is not
 included

The search started before the first level then.
---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index d091182..8fef466 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -580,7 +580,8 @@ DistributedSparseGridUniform<FG_ELEMENT>::getIndexInRange(const LevelVector& l,
   }
 #endif  // NDEBUG
   auto start = levels_.cbegin();
-  std::advance(start, lowerBound);
+  // the lower bound may be the "not included" result of the last search
+  std::advance(start, std::max(lowerBound, static_cast<IndexType>(0)));
   auto found = std::lower_bound(start, levels_.end(), l);
   if (found != levels_.end() && *found == l) {
     return static_cast<SubspaceIndexType>(std::distance(levels_.cbegin(), found));
-- 
2.43.0


From 5d59b572e9136c7d9cf99b5e3cd497a3896ee00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 16/41] fix: classical combination schemes with more than 255
 component grids

The loop counter was a DimType (uint8_t) and never reached the number of grids.
---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index effd528..d51779a 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -139,7 +139,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From 9433535a1370d6a957e2f5d79e27cc808d42ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:49 +0000
Subject: [PATCH 17/41] fix: (de)hierarchize all grids of a task, not only the
 first one

TaskWorker::numGridsPerTask_ was never set from the parameters, so with several
grids per task all but the first were combined without being hierarchized.
---
 src/manager/ProcessGroupWorker.cpp | 1 +
 src/manager/TaskWorker.hpp         | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..07836dd 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -676,6 +676,7 @@ template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& combiParameters) {
   combiParameters_ = std::move(combiParameters);
   combiParametersSet_ = true;
+  this->getTaskWorker().setNumGridsPerTask(combiParameters_.getNumGrids());
 
   // overwrite local comm with cartesian communicator
   if (combiParameters_.isParallelizationSet()) {
diff --git a/src/manager/TaskWorker.hpp b/src/manager/TaskWorker.hpp
index f250f25..690a6a9 100644
--- a/src/manager/TaskWorker.hpp
+++ b/src/manager/TaskWorker.hpp
@@ -123,6 +123,11 @@ class TaskWorker {
     tasks_.erase(removeIt);
   }
 
+  /**
+   * @brief set the number of grids per task, cf. Task::getDistributedFullGrid()
+   */
+  inline void setNumGridsPerTask(IndexType numGridsPerTask) { numGridsPerTask_ = numGridsPerTask; }
+
   /**
    * @brief run all tasks by calling their run method
    */
@@ -142,6 +147,6 @@ class TaskWorker {
 
  private:
   std::vector<std::unique_ptr<Task<CombiDataType>>> tasks_{};  /// task storage
-  int numGridsPerTask_ = 1;
+  IndexType numGridsPerTask_ = 1;
 };
 } /* namespace combigrid */
-- 
2.43.0


From e389fe1b2b27d771afb820d4be2f54366fe2b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 18/41] fix: values of the previous grid remained when
 evaluating several grids on a level

---
 src/manager/SparseGridWorker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..0ac03a9 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -766,6 +766,8 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
                                                levelToEvaluate, theMPISystem()->getLocalComm(),
                                                boundary, parallelization, false, decomposition);
   for (size_t g = 0; g < this->getNumberOfGrids(); ++g) {  // loop over all grids and plot them
+    // subspaces that are not in the sparse grid are not filled below
+    dfg.setZero();
     this->fillDFGFromDSGU(dfg, g, boundary, hierarchizationDims, hierarchicalBases, lmin);
     // save dfg to file with MPI-IO
     if (endsWith(filename, ".vtk")) {
-- 
2.43.0


From a11a4909f1d80ea3c81a0f601dec1568af8293a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:18 +0000
Subject: [PATCH 19/41] fix: reducing values from a file hung when ranks need
 different numbers of reads

The reads are collective, but every rank stopped after its own values.
---
 src/io/MPIInputOutput.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..2f19a96 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -50,6 +50,19 @@ inline MPI_Offset getPositionFromNumValues(MPI_Offset numValues, combigrid::Comm
   return position;
 }
 
+/**
+ * @brief get the number of collective reads until the rank with the most values has read them all
+ */
+inline MPI_Offset getMaxNumberOfReads(MPI_Offset numValues, int numElementsToBuffer,
+                                      combigrid::CommunicatorType comm) {
+  MPI_Offset numReads = 0;
+  if (numValues > 0) {
+    numReads = (numValues + numElementsToBuffer - 1) / numElementsToBuffer;
+  }
+  MPI_Allreduce(MPI_IN_PLACE, &numReads, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numReads;
+}
+
 template <typename T>
 class [[nodiscard]] MPIFileConsecutive {
  public:
@@ -248,7 +261,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  // the reads are collective: ranks with fewer values participate with empty reads
+  const auto numReads = getMaxNumberOfReads(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset iRead = 0; iRead < numReads; ++iRead) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -256,7 +271,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    assert(readcountIncrement == numElementsToBuffer);
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -294,7 +309,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  // the reads are collective: ranks with fewer values participate with empty reads
+  const auto numReads = getMaxNumberOfReads(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset iRead = 0; iRead < numReads; ++iRead) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -306,7 +323,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      assert(readcountIncrement == numElementsToBuffer);
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From b54c50593850fd85f32ec111e59913f834f1bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:52 +0000
Subject: [PATCH 20/41] fix: reading compressed values failed on ranks without
 values

An empty frame is finished after the first round; requiring two rounds
made ranks that own no values throw on valid files.
---
 src/io/MPICompression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..f32c38d 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -192,6 +192,8 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
 #ifdef DISCOTEC_USE_LZ4
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
   size_t decompressedSize = 0;
+  // without values, the first round is already the (empty) last one
+  const int expectedNumRounds = numValues > 0 ? 2 : 1;
   int numRounds = 0;
   do {
     decompressedSize = decompressor.decompressNextBlocks(numValues);
@@ -200,7 +202,7 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
     ++numRounds;
   } while (decompressedSize > 0);
   assert(numValues == 0);
-  if (numRounds != 2) {
+  if (numRounds != expectedNumRounds) {
     throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
   }
 #else
-- 
2.43.0


From d77a9ded5b44f28c43288821227f44e81f8a6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:35 +0000
Subject: [PATCH 21/41] fix: reducing compressed values wrote past the end of
 the decompression buffer

When a frame of several blocks leaves part of a value in the buffer, the
next block starts after that remainder, but the full buffer size was
passed as capacity.
---
 src/io/MPICompression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index f32c38d..f2ccb2d 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -76,6 +76,9 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
 
   char* front() { return gptr(); }
 
+  // number of characters that fit between front() and the end of the buffer
+  size_t capacity() const { return static_cast<size_t>(egptr() - gptr()); }
+
  private:
   std::vector<char>& vec_;
 };
@@ -106,7 +109,7 @@ class [[nodiscard]] StreamingFrameDecompressor {
   }
 
   size_t decompressNextBlock() {
-    size_t decompressedSize = sink_.size();
+    size_t decompressedSize = sink_.capacity();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
     [[maybe_unused]] auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
-- 
2.43.0


From 413d3e6b924609ffd5bf90604915f1e91557bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:29 +0000
Subject: [PATCH 22/41] fix: serial evaluation on one-point dimensions ignored
 the other dimensions' weights

For a dimension without boundary on level 1 and a coordinate above 0.5,
the weight was computed as (w * 1 - x) instead of w * (1 - x).
---
 src/fullgrid/FullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/FullGrid.hpp b/src/fullgrid/FullGrid.hpp
index 1fbbad3..b42180c 100644
--- a/src/fullgrid/FullGrid.hpp
+++ b/src/fullgrid/FullGrid.hpp
@@ -491,7 +491,7 @@ FG_ELEMENT FullGrid<FG_ELEMENT>::eval(std::vector<real>& coords) {
         assert(coords[jj] <= 1.0 && coords[jj] >= 0.0);
 
         if (coords[jj] > 0.5)
-          baseVal = baseVal * 1.0 - coords[jj];
+          baseVal = baseVal * (1.0 - coords[jj]);
         else
           baseVal = baseVal * coords[jj];
       } else
-- 
2.43.0


From bbefb96d0d6b26fefdebe85a51eb84ef408f6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:29 +0000
Subject: [PATCH 23/41] fix: received combination parameters lost the mappings
 from level to task

getID, getLevelsToIDs and getCombiDict of a received or broadcast object
did not know the levels of the scheme.
---
 src/manager/CombiParameters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/CombiParameters.hpp b/src/manager/CombiParameters.hpp
index cd2c5e6..45e441c 100644
--- a/src/manager/CombiParameters.hpp
+++ b/src/manager/CombiParameters.hpp
@@ -552,6 +552,8 @@ void CombiParameters::serialize(Archive& ar, const unsigned int version) {
   ar & boundary_;
   ar & levels_;
   ar & coeffs_;
+  ar & levelsToIDs_;
+  ar & combiDictionary_;
   ar & hierarchizationDims_;
   ar & hierarchicalBases_;
   ar & procs_;
-- 
2.43.0


From 906658ce2b3a0b14f8bd367b56b64bec4cd09892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:04 +0000
Subject: [PATCH 24/41] fix: load estimate overflowed for long durations and
 was undefined without history

The durations were summed up as int, and the average over an empty
history was 0/0 instead of the documented zero.
---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..cdf146c 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -28,8 +28,11 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     const LevelVector& lvlVec) {
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
+  if (durations.empty()) {
+    return std::chrono::microseconds{0};
+  }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From 4c1c2a8882587041b2e18be282a40c5ef5612b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:19 +0000
Subject: [PATCH 25/41] fix: rebalancing divided by zero and counted tasks
 instead of process groups

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..5ece14d 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <numeric>
 #include <map>
+#include <set>
 
 namespace combigrid {
 
@@ -24,7 +25,14 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
   // variable containing the result
   std::vector<std::pair<LevelVector, int>> moveTasks{};
 
-  const auto numberOfProcessGroups = levelVectorToProcessGroupIndex.size();
+  std::set<int> processGroups;
+  for (const auto& t : levelVectorToProcessGroupIndex) {
+    processGroups.insert(t.second);
+  }
+  const auto numberOfProcessGroups = processGroups.size();
+  if (numberOfProcessGroups == 0) {
+    return moveTasks;
+  }
 
   // we need to mutate this map for multiple iterations
   auto levelVectorToProcessGroupIndexMutCopy = levelVectorToProcessGroupIndex;
@@ -66,7 +74,10 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       slowestGroup = *minmaxGroup.second;
     }
 
-    if (slowestGroup.second / averageProcessGroupDuration < this->min_inbalance_) {
+    if (averageProcessGroupDuration == 0 ||
+        static_cast<double>(slowestGroup.second) /
+                static_cast<double>(averageProcessGroupDuration) <
+            this->min_inbalance_) {
       return moveTasks;
     }
 
@@ -107,8 +118,8 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
           break;
         }
       } 
+      levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
       if (!alreadyMoved) {
-        levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
         moveTasks.push_back({moveTask.first, fastestGroup.first});
       }
 
-- 
2.43.0


From b1c98ad4fafdefea6fe1897bedf81d580caacc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:22 +0000
Subject: [PATCH 26/41] fix: manager's writeSparseGridMinMaxCoefficients lets
 all groups take part in the reduction

---
 src/manager/ProcessManager.cpp | 5 ++++-
 src/manager/ProcessManager.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index 31cfb92..7bc2c31 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -583,7 +583,10 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the coefficients are reduced across all groups, so every group needs to take part
+  for (auto& pg : pgroups_) {
+    pg->writeSparseGridMinMaxCoefficients(filename);
+  }
 }
 
 template <typename CombiDataType>
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..5b6c77b 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -319,7 +319,7 @@ class ProcessManager {
                                      const std::string& filenamePrefix) const;
 
   /**
-   * @brief signal the last group to write minimum and maximum subspace coefficients to a file
+   * @brief signal all groups to write minimum and maximum subspace coefficients to a file
    *
    * @param filename the filename to write to
    */
-- 
2.43.0


From 9a6fc379b4de51355bee43df0583d1e57f944f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:29 +0000
Subject: [PATCH 27/41] fix: receive the status of a group after diagnostics

---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..3743f53 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -632,6 +632,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From 22254bfc3c59a6bd9bfd25bc93cacd435f819179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:48 +0000
Subject: [PATCH 28/41] fix: wait for the status of the previous command before
 sending the next one to a group

---
 src/manager/ProcessGroupManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 3743f53..ba23b70 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -60,6 +60,9 @@ void ProcessGroupManager<CombiDataType>::sendSignalAndReceive(SignalType signal)
 
 template <typename CombiDataType>
 void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType signal) {
+  // the status of a previous command has to arrive before the next command is sent,
+  // else it would be taken for the status of the next command
+  waitStatus();
   MPI_Send(&signal, 1, MPI_INT, pgroupRootID_, TRANSFER_SIGNAL_TAG,
            theMPISystem()->getGlobalComm());
 }
-- 
2.43.0


From ce4b5eafeb9d51202c00baf225b7d808636fbdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:26 +0000
Subject: [PATCH 29/41] fix: receive file names from the manager in the order
 in which they are sent

---
 src/manager/ProcessGroupWorker.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 07836dd..92ce96c 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,27 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // receive one after the other, in the order in which the manager sends
+      auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
-- 
2.43.0


From d4517ba10ebf800681c608145dd7f6be2f8e9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 30/41] fix: port of an accepted connection in host byte order

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..a96e380 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -342,7 +342,7 @@ std::shared_ptr<ClientSocket> ServerSocket::acceptClient() const {
   }
   // initialize ClientSocket
   client.reset(new ClientSocket);
-  unsigned short port = cliAddr.sin_port;
+  unsigned short port = ntohs(cliAddr.sin_port);
   std::string host = std::string(inet_ntoa(cliAddr.sin_addr));
   client->remoteHost_ = host;
   client->remotePort_ = port;
-- 
2.43.0


From 47d0b5db89a1a3f300e039ec5f0747a088481b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 31/41] fix: off by one when reversing the byte order of
 received values

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..c6261d2 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
-- 
2.43.0


From 449efc90851c4c281841c65591983f26700713df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 32/41] fix: elements received in more than two pieces were
 corrupted

---
 src/third_level/NetworkUtils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index c6261d2..6aa23a3 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -224,6 +224,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //                              0                  recvd-1
 
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    tail_k = std::min(tail_k, recvd); // the element may still be incomplete
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -258,7 +259,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
@@ -335,6 +336,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //                              0                  recvd-1
 
     tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    tail_k = std::min(tail_k, recvd); // the element may still be incomplete
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -377,7 +379,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
-- 
2.43.0


From e139aa6e099eadcb5020c09ce1bbe10b6a493dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 33/41] fix: receiving to a file consumed bytes of the
 following message

---
 src/third_level/NetworkUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index a96e380..61ed2a7 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -1,5 +1,7 @@
 #include "NetworkUtils.hpp"
 
+#include <algorithm>
+
 namespace combigrid{
 
 ClientSocket::ClientSocket(const std::string& host, const int port)
@@ -121,7 +123,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(chunksize, len - total), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
-- 
2.43.0


From 52eeed1c5950ecd65e87cc1b65acc3dfd714e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 34/41] fix: lengths beyond the range of int

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 61ed2a7..afaac4f 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -193,7 +193,7 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
     default:
       lenstr.pop_back();
       assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
+      length = (size_t) std::stoull(lenstr);
       assert(length > 0);
       return true;
   }
-- 
2.43.0


From 810ae2e60155accbd3789ffebdaf7d3d730f7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 35/41] fix: report a closed connection when sending, instead
 of ending by SIGPIPE

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index afaac4f..abd9372 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -57,7 +57,7 @@ bool ClientSocket::sendall(const char* buff, size_t len) const {
   ssize_t sent = -1;
   size_t total = 0;
   while (total < len) {
-    sent = send(sockfd_, &buff[total], len - total, 0);
+    sent = send(sockfd_, &buff[total], len - total, MSG_NOSIGNAL);
     if (sent <= 0)
       break;
     total += static_cast<size_t>(sent);
-- 
2.43.0


From c6ef3e20b5aa5a99d7ed47d312b44a4978e9d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 36/41] fix: statistics of the third level manager without any
 combination

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..e212352 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations == 0 ? 0 : totalBytesTransferredInCombination / numCombinations;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 39db9137ca12e76921c78ce54bb864a8d1c282fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:24 +0000
Subject: [PATCH 37/41] fix: socket descriptors were closed twice, possibly
 closing another connection

---
 src/third_level/NetworkUtils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index abd9372..88dad9e 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -13,7 +13,6 @@ ClientSocket::ClientSocket() : Socket() {
 }
 
 ClientSocket::~ClientSocket() {
-  close(sockfd_);
 }
 
 bool ClientSocket::init() {
@@ -286,6 +285,7 @@ ServerSocket::ServerSocket(const unsigned short port) : Socket(), port_(port) {
 
 ServerSocket::~ServerSocket() {
   close(sockfd_);
+  sockfd_ = -1;
   sleep(5);
 }
 
@@ -361,7 +361,8 @@ Socket::Socket() : sockfd_(-1), initialized_(false) {
 }
 
 Socket::~Socket(){
-  close(sockfd_);
+  if (sockfd_ >= 0)
+    close(sockfd_);
 }
 
 int Socket::getFileDescriptor() const {
-- 
2.43.0


From 15935e72f2fb8dff56d089040086565b5113bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:56 +0000
Subject: [PATCH 38/41] fix: weights of the recombination problem fell below
 the solver's tolerances

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 077ed85..d974470 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -158,7 +158,8 @@ void LP_OPT_INTERP::init_opti_prob(const std::string& prob_name) {
   }
 
   for (int i = 0; i < size_downset; ++i) {
-    neg_norm = -l1_norm(downset_indices[i]);
+    // relative to the coarsest level, such that the weights stay above the solver's tolerances
+    neg_norm = l1_norm(new_levels[0]) - l1_norm(downset_indices[i]);
     coeff = pow(4.0, neg_norm);
 
     aux_var = set_aux_var_name("w", i + 1);
-- 
2.43.0


From 6c154e3371626010cdac187e534482051b730f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 39/41] fix: use the integer solution of the recombination
 problem, not that of its relaxation

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index d974470..c21a042 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -216,7 +216,7 @@ CombigridDict LP_OPT_INTERP::get_results(LevelVectorList& recomp_faults) const {
 
   if (status == GLP_OPT) {
     for (int i = 0; i < size_downset; ++i) {
-      w_i = glp_get_col_prim(i_lp_prob, i + 1);
+      w_i = glp_mip_col_val(i_lp_prob, i + 1);
       w.push_back(w_i);
     }
 
-- 
2.43.0


From 4127a81aff15fea15d367b60d61bf184f0451b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:47 +0000
Subject: [PATCH 40/41] fix: keep the cartesian communicator of a group when
 its parameters are updated while grids use it

---
 src/manager/ProcessGroupWorker.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 92ce96c..e8fd8dc 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -701,6 +701,20 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
     assert(combiParameters_.getDim() == static_cast<DimType>(periods.size()));
     assert(periods.size() == dims.size());
 
+    // a communicator that already has this topology is kept, as grids may be using it
+    int topology = MPI_UNDEFINED;
+    MPI_Topo_test(theMPISystem()->getLocalComm(), &topology);
+    if (topology == MPI_CART) {
+      int currentDim = 0;
+      MPI_Cartdim_get(theMPISystem()->getLocalComm(), &currentDim);
+      std::vector<int> currentDims(currentDim), currentPeriods(currentDim), coords(currentDim);
+      MPI_Cart_get(theMPISystem()->getLocalComm(), currentDim, currentDims.data(),
+                   currentPeriods.data(), coords.data());
+      if (currentDims.size() == dims.size() && currentDims == dims && currentPeriods == periods) {
+        return;
+      }
+    }
+
     // don't let MPI assign arbitrary ranks
     int reorder = false;
 
-- 
2.43.0


From 936d2241a9510a04298f70f0541ade2cc182c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:26 +0000
Subject: [PATCH 41/41] fix: report lost grids of lower diagonals for
 recomputation or redistribution also without faults on the finest diagonals

---
 src/manager/ProcessManager.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index 5b6c77b..c7704cb 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -785,6 +785,15 @@ inline void ProcessManager<CombiDataType>::recomputeOptimumCoefficients(
     std::set_difference(faultsID.begin(), faultsID.end(), recomputeFaultsID.begin(),
                         recomputeFaultsID.end(),
                         std::inserter(redistributeFaultsID, redistributeFaultsID.begin()));
+  } else {
+    // the coefficients stay as they are, lost grids that contribute have to be computed again
+    for (auto id : faultsID) {
+      if (params_.getCoeff(id) != 0.) {
+        recomputeFaultsID.push_back(id);
+      } else {
+        redistributeFaultsID.push_back(id);
+      }
+    }
   }
 }
 
-- 
2.43.0

