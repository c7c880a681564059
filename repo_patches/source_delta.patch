From cfa86143a02c0a3d75b4d12009a08bd12220b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:45 +0000
Subject: [PATCH 01/18] fix: do not write past the strides of a
 zero-dimensional iterator

---
 cxx/MultiArrayIter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/MultiArrayIter.cpp b/cxx/MultiArrayIter.cpp
index dba2d5c..c5f9676 100644
--- a/cxx/MultiArrayIter.cpp
+++ b/cxx/MultiArrayIter.cpp
@@ -35,6 +35,11 @@ MultiArrayIter::build(const std::vector<size_t>& lo, const std::vector<size_t>&
 	}
 
 	this->dimProd.resize(this->ndims);
+	if (this->ndims == 0) {
+		// single element, there are no strides to compute
+		this->begin();
+		return;
+	}
 	if (rowMajor) {
 		this->dimProd[this->ndims - 1] = 1;
 		for (int i = (int) this->ndims - 2; i >= 0; --i) {
-- 
2.43.0


From 68dfb368f4ab60187bda0a94ad90f15e91bab9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 02/18] fix: initialise the members of a default constructed
 iterator

---
 cxx/MultiArrayIter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..7268fd0 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter() : rowMajor(true), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0


From 93f722f95cb2b0519adffdd012c610b7341ece88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 03/18] fix: include the first valid decomposition in the
 search for the cheapest one

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From 0c3d89d05ad32a86e18bcad34f66df5a8d578470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 04/18] fix: accumulate the number of sub-domains in size_t,
 not int

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..973a690 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From 1aecfa4b103688197df1c2295e04c2932f2c2458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 05/18] fix: wrap negative indices periodically for any number
 of cells

---
 cxx/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..2c1e0c5 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -237,7 +237,8 @@ Filter::applyFilter() {
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
           // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          const int numCells = (int) this->globalDims[j];
+          indOffset[j] = ((indOffset[j] % numCells) + numCells) % numCells;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From be76d641bbb676485bf72f0cf3f01f5a139c5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 06/18] fix: create a single window per side, wide enough for
 all the offsets on that side

---
 cxx/Filter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 2c1e0c5..b276738 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,18 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
+      // several offsets can share a side, the widest halo is needed
       std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      size_t& sideGhosts = this->winNumGhosts.insert(pSNG).first->second;
+      if (numGhosts > sideGhosts) {
+        sideGhosts = numGhosts;
+      }
+    }
 
-      this->newWindow(side);
+    // one window per side
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin(); 
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
-- 
2.43.0


From 31d6f7db0e06a326ee14f0c7f9ac2120aee0e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 07/18] fix: look for halo data on the adjacent rank when the
 stencil offset exceeds one cell

---
 cxx/Filter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index b276738..8041b1d 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -218,7 +218,11 @@ Filter::applyFilter() {
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      std::vector<int> direction(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        direction[j] = - side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, direction);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From 2f7baa52af129b4078e8e7c30be59ba56fb6d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 08/18] fix: free the window before the memory it exposes

---
 cxx/Filter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 8041b1d..245dd7f 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -355,16 +355,16 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+    
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From 87c1b5acb5b0430afadc14be50a015add886d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 09/18] fix: do not take the first element of the empty receive
 buffer on non-root ranks

---
 cxx/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 245dd7f..06f1a31 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -514,7 +514,7 @@ Filter::saveVTK(const std::string& filename) {
 
     // gather the data
     MPI_Gather(&this->outData.front(), nLocal, MPI_DOUBLE,
-               &recvBuffer.front(), nLocal, MPI_DOUBLE,
+               recvBuffer.data(), nLocal, MPI_DOUBLE,
                0, MPI_COMM_WORLD);
 
     std::vector<double> globalField;
-- 
2.43.0


From 739456847e9fb52e1bbf81c787ba8af92e127c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 10/18] fix: upwindOMP5: do not run the time loop inside one
 teams distribute region

The time steps depend on one another; distributing them over teams raced on
the field. Offload the two element loops instead.
---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 980f6f06d5b8a66f8ddb361b212e747984d89f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:05 +0000
Subject: [PATCH 11/18] fix: Fortran saveVTK lists the coordinates of each axis
 under the axis it is dimensioned by

---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..285439a 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..e588e1e 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..b2ef655 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..a798e19 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 6808e768283d9e341044742f28ec3f792e5aaf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 12/18] fix: threads of the Fortran programs no longer write
 shared thread counts concurrently

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 285439a..d510fc9 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index e588e1e..910146f 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index a798e19..dca37e0 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp single
     numThreads = omp_get_num_threads()
+    !$omp end single
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0


From 262043bd034f7fdf968f1fafdf01bce0f84944fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 13/18] fix: index set of the OpenACC loop in upwind.F90 is
 private to each iteration

---
 upwind/fortran/upwind.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d510fc9..b890058 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -120,7 +120,7 @@ contains
 
         ! iterate over the cells
         !$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)
-        !$acc parallel loop
+        !$acc parallel loop private(inds, j, oldIndex, upI)
         do i = 1, obj % ntot
 
             ! compute the index set of this cell
-- 
2.43.0


From b8d088756cf93c137f9abcb3d4e0c6e54deb8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 14/18] fix: Fortran programs stop when the number of cells or
 of time steps is not an integer

---
 upwind/fortran/upwind.F90       | 3 +++
 upwind/fortran/upwindF03.F90    | 3 +++
 upwind/fortran/upwindF08.F90    | 3 +++
 upwind/fortran/upwindF08Gpu.F90 | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index b890058..afb5eaf 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -312,6 +312,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
+        if ((argc == 1 .or. argc == 2) .and. ier /= 0) then
+            stop 'number of cells and number of time steps must be integers.'
+        endif
         if (argc == 1) then
             numCells = n
         else if (argc == 2) then
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 910146f..bc2e282 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -319,6 +319,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
+        if ((argc == 1 .or. argc == 2) .and. ier /= 0) then
+            stop 'number of cells and number of time steps must be integers.'
+        endif
         if (argc == 1) then
             numCells = n
         else if (argc == 2) then
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index b2ef655..ff8264a 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -303,6 +303,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
+        if ((argc == 1 .or. argc == 2) .and. ier /= 0) then
+            stop 'number of cells and number of time steps must be integers.'
+        endif
         if (argc == 1) then
             numCells = n
         else if (argc == 2) then
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index dca37e0..666688f 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -395,6 +395,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
+        if ((argc == 1 .or. argc == 2) .and. ier /= 0) then
+            stop 'number of cells and number of time steps must be integers.'
+        endif
         if (argc == 1) then
             numCells = n
         else if (argc == 2) then
-- 
2.43.0


From e1dc3475a1fb2e0374db79b24149c72be9278c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:12 +0000
Subject: [PATCH 15/18] fix: matmult reads the arguments with a status so that
 non-integers are ignored as intended

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From 9b3cfac4941595764c807fbe0959291183246f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 16/18] fix: Python saveVTK separates the field values

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..1d8d869 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f' {flatData[i]}')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From cf960d3ab8dae8593faf249dd3fb5565bcd33275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 17/18] fix: gatherRoot in upwindMPI.py gathers plain arrays,
 the distributed ones cannot be pickled

---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..95e51b0 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From 6cbf64a58d49d705008350a73ebc53dbd891c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:25 +0000
Subject: [PATCH 18/18] fix: upwindMPI.py fetches the up-neighbours on the
 right side for negative velocities

---
 upwind/python/upwindMPI.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 95e51b0..78d1ca5 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -83,16 +83,22 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
+    # cells whose up-neighbour is local, those neighbours and the cells
+    # whose up-neighbour is remote
+    cells = [slice(1, None) if u < 0 else slice(None, -1) for u in self.upDirection]
+    ups = [slice(None, -1) if u < 0 else slice(1, None) for u in self.upDirection]
+    edge = [slice(None, 1) if u < 0 else slice(-1, None) for u in self.upDirection]
+
+    self.f[cells[0], :, :] -= deltaTime*self.coeff[0]*self.fOld[ups[0], :, :]
+    self.f[:, cells[1], :] -= deltaTime*self.coeff[1]*self.fOld[:, ups[1], :]
+    self.f[:, :, cells[2]] -= deltaTime*self.coeff[2]*self.fOld[:, :, ups[2]]
 
     # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
+    self.f[edge[0], :, :] -= deltaTime*self.coeff[0]* \
                         self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
+    self.f[:, edge[1], :] -= deltaTime*self.coeff[1]* \
                         self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
+    self.f[:, :, edge[2]] -= deltaTime*self.coeff[2]* \
                         self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
 
   def checksum(self):
-- 
2.43.0

