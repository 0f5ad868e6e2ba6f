From 1f8319b0b79d1634f94d376bdbb3582b9a7c147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 01/52] fix: record the row sizes of computed rows in the
 hybrid MaskedSpGEMM1p

rowNvals was only set for rows without work, so the row pointers of the
result were computed from uninitialised memory.
---
 spgemm-blocks/masked-spgemm-poly.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..203e622 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -72,11 +72,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
-- 
2.43.0


From 87327ad377f6485a0efb5068b16e38dca94eb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 02/52] fix: accept empty mask rows in the complemented heap
 algorithm

With a complemented mask an empty mask row is legitimate (the whole row of
the product is wanted), but the row routines asserted that it is not empty.
---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 01e6296aa84a9a233983d8051255f3ecd4647fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 03/52] fix: read the first key of a row from B in MCA_v1 and
 MCA_v2

The first key was taken from A.colids although loc is an offset in B, which
gives wrong results (or an out-of-bounds read) whenever A and B differ.
---
 heap_mult_generic.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..22983c8 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -522,9 +522,8 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             IT maskIdx = maskBegin;
 
@@ -594,9 +593,8 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
-
             if (loc == B.rowptr[inner + 1]) { continue; }
+            IT key = B.colids[loc];
 
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
-- 
2.43.0


From c88d256e0b563afcdda7e2d3d3a3fdd171b90a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 04/52] fix: do not look at the next row's mask in MCA_v1 and
 MCA_v3

For an empty mask row the intersection loop compared against (and matched)
the first mask entry of a following row, or read past the mask.
---
 heap_mult_generic.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 22983c8..c14d33a 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -513,6 +513,11 @@ struct MCA_v1 : MCABase {
         const IT maskEnd = M.rowptr[i + 1];
         const IT maskSize = maskEnd - maskBegin;
 
+        if (maskBegin == maskEnd) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
@@ -653,6 +658,11 @@ struct MCA_v3 : MCABase {
         const auto maskEnd = &M.colids[M.rowptr[i + 1]];
         const auto maskSize = maskEnd - maskBegin;
 
+        if (maskBegin == maskEnd) {
+            rowNvals[i] = 0;
+            return;
+        }
+
         prevColIdC++;
         prevValueC++;
 
-- 
2.43.0


From ce30bcf179743a42e4707dc6f7afc1048b9d058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:21 +0000
Subject: [PATCH 05/52] fix: reserve a full mask row for the mask-compressed
 row algorithms

MCA_v1..v3 collect values at their position in the mask row, so a mask row
longer than the number of products was written past the thread's buffer.
---
 heap_mult_generic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index c14d33a..c399463 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -480,7 +480,8 @@ struct MCABase {
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
         IT size = 0;
         for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
+            // the values of a row are first collected by their position in the mask row
+            size += M.rowptr[row + 1] - M.rowptr[row];
         }
         return size;
     }
-- 
2.43.0


From 924a51acd42753e42fc1c0d34705e0bbdea7bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:52 +0000
Subject: [PATCH 06/52] fix: drop the unused binning in innerSpGEMM_nohash,
 which read past B's column pointers

---
 inner_mult.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..44cb2dd 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -70,12 +70,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         C.values[i] = 0;
     }
     
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
-- 
2.43.0


From 94a97c27539fb6fdbf675199edd1ab93f8f8cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:50 +0000
Subject: [PATCH 07/52] fix: two-phase inner product must not write C before A
 and M have been read

---
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 23 +++++++++++++++++++----
 spgemm-blocks/masked-spgemm-inner.h     | 23 +++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..96327fc 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -109,6 +109,9 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 template<class IT, class NT, class MultiplyOperation, class AddOperation>
 void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C, const CSR<IT, NT> &M,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
+    // C may be the same object as A or M, which the numeric phase still reads
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -172,14 +175,14 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -226,6 +229,18 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..0d30e13 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -76,6 +76,9 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
                     MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     using RowAlg = RowAlgorithm<IT, NT, Complemented>;
 
+    // C may be the same object as A or M, which the numeric phase still reads
+    CSR<IT, NT> R;
+
     // Calculate number of threads and init C
     setNumThreads(numThreads);
     verifyInputs(A, B, C, M);
@@ -117,14 +120,14 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
 #pragma omp barrier
 #pragma omp master
         {
-            initC(A, B, C, threadsNvals, numThreads);
+            initC(A, B, R, threadsNvals, numThreads);
         }
 #pragma omp barrier
-        setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
+        setRowOffsets(R, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
+        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
@@ -138,6 +141,18 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free(workPerRow, cumulativeWork, rowNvals, threadsNvals);
+
+    C.make_empty();
+    C.rows = R.rows;
+    C.cols = R.cols;
+    C.nnz = R.nnz;
+    C.rowptr = R.rowptr;
+    C.colids = R.colids;
+    C.values = R.values;
+
+    R.rows = 0;
+    R.cols = 0;
+    R.nnz = 0;
 }
 
 #endif //MASKED_SPGEMM_MASKED_SPGEMM_INNER_H
-- 
2.43.0


From c85ee6142b73a7f1bf44011762cb979b98fe5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:58 +0000
Subject: [PATCH 08/52] fix: a replaced output matrix is zero-based whatever it
 was before

---
 spgemm-blocks/common.h                  | 1 +
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 1 +
 spgemm-blocks/masked-spgemm-inner.h     | 1 +
 spgemm-blocks/masked-spgemm.h           | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..62de976 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -158,6 +158,7 @@ void initC(const AT<IT, NT> &A, const BT<IT, NT> &B, CT<IT, NT> &C, IT *threadsN
 
     C.rows = nrows;
     C.cols = ncols;
+    C.zerobased = true;
     C.rowptr = my_malloc<IT>(C.rows + 1, false);
 
     C.nnz = std::accumulate(threadsNvals, threadsNvals + numThreads, IT(0));
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 96327fc..fe7529f 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -237,6 +237,7 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     C.rowptr = R.rowptr;
     C.colids = R.colids;
     C.values = R.values;
+    C.zerobased = R.zerobased;
 
     R.rows = 0;
     R.cols = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index 0d30e13..58d4d75 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -149,6 +149,7 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     C.rowptr = R.rowptr;
     C.colids = R.colids;
     C.values = R.values;
+    C.zerobased = R.zerobased;
 
     R.rows = 0;
     R.cols = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..c421ccc 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -186,6 +186,7 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     C.rowptr = R.rowptr;
     C.colids = R.colids;
     C.values = R.values;
+    C.zerobased = R.zerobased;
 
     R.rows = 0;
     R.cols = 0;
-- 
2.43.0


From 8add18dd5c725f3042ecf22c51e68190f68d3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:30 +0000
Subject: [PATCH 09/52] fix: count the result of innerSpGEMM_nohash from zero
 when the output object is re-used

---
 inner_mult.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inner_mult.h b/inner_mult.h
index 44cb2dd..f86123e 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -137,6 +137,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     //shrink C
 
     //* sequentially create global rowptr for final shrinked C*
+    C_final.nnz = 0;
     for (IT i = 0; i < C.rows; ++i)
          C_final.nnz += rownnz[i];
     
-- 
2.43.0


From b8e6d72b3df81f9e1d11faf83ebf76555d850917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 10/52] fix: report the hash table's real end as dirty memory
 when the table is aligned past it

---
 spgemm-blocks/hash/HashAccumulator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/hash/HashAccumulator.h b/spgemm-blocks/hash/HashAccumulator.h
index 131dca8..76b92bb 100644
--- a/spgemm-blocks/hash/HashAccumulator.h
+++ b/spgemm-blocks/hash/HashAccumulator.h
@@ -71,6 +71,8 @@ public:
 
         _dirty = dirty;
         getCleanMemory(buffer, bufferSize, _dirty, _table, _capacity);
+        // The table may start past the dirty memory because of its alignment
+        _dirty = reinterpret_cast<std::byte *>(_table) - buffer;
     }
 
     [[nodiscard]] size_t releaseBuffer() {
-- 
2.43.0


From 278e05061bbd21b157b41c9ee95700020ee8031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:13 +0000
Subject: [PATCH 11/52] fix: do not read past the input in the parallel path of
 scan

---
 utility.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..ce21352 100644
--- a/utility.h
+++ b/utility.h
@@ -196,8 +196,11 @@ template <typename T> void scan(T *in, T *out, T N) {
       for (T i = start; i < end - 1; ++i) {
         out[i + 1] = out[i] + in[i];
       }
-      // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // calculate offset in every thread (the last block's total is not needed,
+      // and the input has only N - 1 elements)
+      if (tid < tnum - 1) {
+        partial_sum[tid] = out[end - 1] + in[end - 1];
+      }
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From b95e62b172199fc1d0e0b28cafe9c1a52bc16f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:47 +0000
Subject: [PATCH 12/52] fix: csr2csc_atomic_nosort ran one column past its
 arrays

---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 82d1f61ac0150c042d375b14635c2bc6204052bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:48 +0000
Subject: [PATCH 13/52] fix: accept a graph without edges

---
 CSC.h | 5 +++++
 CSR.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CSC.h b/CSC.h
index 466ae0f..04cf419 100644
--- a/CSC.h
+++ b/CSC.h
@@ -166,6 +166,11 @@ CSC<IT, NT>::CSC(graph &G) : nnz(G.m), rows(G.n), cols(G.n) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edge to start from
+    colptr = my_malloc<IT>(cols + 1);
+    return;
+  }
+
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
diff --git a/CSR.h b/CSR.h
index a2285b9..e22e59c 100644
--- a/CSR.h
+++ b/CSR.h
@@ -255,6 +255,11 @@ CSR<IT, NT>::CSR(graph &G) : nnz(G.m), rows(G.n), cols(G.n), zerobased(true) {
   // } graph;
   cout << "Graph nnz= " << G.m << " and n=" << G.n << endl;
 
+  if (nnz == 0) { // no edge to start from
+    rowptr = my_malloc<IT>(rows + 1);
+    return;
+  }
+
   vector<Triple<IT, NT>> simpleG;
   vector<pair<pair<IT, IT>, NT>> currCol;
   currCol.push_back(make_pair(make_pair(G.start[0], G.end[0]), G.w[0]));
-- 
2.43.0


From 56cec0c719d22b8088d2f1a8c4dd3956c08c1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:48 +0000
Subject: [PATCH 14/52] fix: MergeDuplicates wrote through empty per-column
 lists

---
 CSC.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index 04cf419..2691c28 100644
--- a/CSC.h
+++ b/CSC.h
@@ -382,8 +382,8 @@ void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
-- 
2.43.0


From a53e0bd85d83ea4de0ddbac97b5873e2077f218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:01 +0000
Subject: [PATCH 15/52] fix: CSC from tuples ignored addop and kept repeated
 entries

---
 CSC.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSC.h b/CSC.h
index 2691c28..c70ada2 100644
--- a/CSC.h
+++ b/CSC.h
@@ -472,6 +472,7 @@ CSC<IT, NT>::CSC(vector<tuple<IT, IT, NT>> &tuple, IT m, IT n,
   //   // TO DO: as value I want a pair<kmer_id, vector<posix_in_read>>
   // }
   my_free<IT>(work);
+  MergeDuplicates(addop);
 }
 
 // Construct a Csc object from parallel arrays
-- 
2.43.0


From de681ed25121f2485141446e58b87c1cb5513a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:16 +0000
Subject: [PATCH 16/52] fix: assigning a CSR matrix without columns did not
 copy its row pointers

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index e22e59c..d75b304 100644
--- a/CSR.h
+++ b/CSR.h
@@ -154,7 +154,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From 7e963a9b3bdb6796c58c6087e655aed500d361f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:16 +0000
Subject: [PATCH 17/52] fix: comparing empty matrix objects read arrays they do
 not have

---
 CSC.h | 2 ++
 CSR.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/CSC.h b/CSC.h
index c70ada2..c9d5ef1 100644
--- a/CSC.h
+++ b/CSC.h
@@ -550,6 +550,8 @@ template <class IT, class NT>
 bool CSC<IT, NT>::operator==(const CSC<IT, NT> &rhs) {
   if (nnz != rhs.nnz || rows != rhs.rows || cols != rhs.cols)
     return false;
+  if (cols == 0) // no arrays to compare
+    return true;
   bool same = std::equal(colptr, colptr + cols + 1, rhs.colptr);
   same = same && std::equal(rowids, rowids + nnz, rhs.rowids);
 
diff --git a/CSR.h b/CSR.h
index d75b304..2d27901 100644
--- a/CSR.h
+++ b/CSR.h
@@ -478,6 +478,8 @@ bool CSR<IT, NT>::operator==(const CSR<IT, NT> &rhs) {
            rhs.cols);
     return false;
   }
+  if (rows == 0) // no arrays to compare
+    return true;
   if (zerobased != rhs.zerobased) {
     IT *tmp_rowptr = my_malloc<IT>(rows + 1);
     IT *tmp_colids = my_malloc<IT>(nnz);
-- 
2.43.0


From cc3b47e5fcf41a9f4dc5f40c615b67c8740488b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:16 +0000
Subject: [PATCH 18/52] fix: sumall added floating-point values in the index
 type

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 2d27901..a25080b 100644
--- a/CSR.h
+++ b/CSR.h
@@ -90,7 +90,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From b1d311bc306b2dce4d80ca06bac00d60be33d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 19/52] fix: text readers truncated real values and misread
 lines not separated by single blanks

---
 IO.h | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/IO.h b/IO.h
index a296f9b..6846ecd 100644
--- a/IO.h
+++ b/IO.h
@@ -92,21 +92,12 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
         while (! infile.eof() && cnz < nnz)
         {
             infile.getline(line,256);
-            char *ch = line;
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-            }
-            else {
-                triples[cnz].val = 1.0;
-            }
+            char *ch = line, *end;
+            triples[cnz].row = (IT)(strtoll(ch, &ch, 10));
+            triples[cnz].col = (IT)(strtoll(ch, &ch, 10));
+            /* Read third word (value data)*/
+            long double val = strtold(ch, &end);
+            triples[cnz].val = (end != ch) ? (NT)val : (NT)1;
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
             triples[cnz].row--;
             triples[cnz].col--;
@@ -188,19 +179,11 @@ int ReadASCII_Triples(string	  filename,
         while (! infile.eof() && cnz < nnz)
         {
             infile.getline(line,256);
-            char *ch = line;
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atoi(ch));
-                ch = strchr(ch, ' ');
-			}
+            char *ch = line, *end;
+            IT rid = (IT)(strtoll(ch, &ch, 10));
+            IT cid = (IT)(strtoll(ch, &ch, 10));
+            long double third = strtold(ch, &end);
+			NT val = (end != ch) ? (NT)third : (NT)1;
 
 			if (rand_vals)
 				val = rand()%10 + 7;
-- 
2.43.0


From dcee2fa848e4f321154c522d0cc4fc49b716b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 20/52] fix: CSR file reader left half of 64-bit dimensions
 unset and misread lines not separated by single blanks

---
 CSR.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/CSR.h b/CSR.h
index a25080b..d44fa83 100644
--- a/CSR.h
+++ b/CSR.h
@@ -571,7 +571,11 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   } while (line[0] == '%');
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  long long size_info[3] = {0, 0, 0}; // IT may be wider than an int
+  sscanf(line, "%lld %lld %lld", &size_info[0], &size_info[1], &size_info[2]);
+  rows = (IT)size_info[0];
+  cols = (IT)size_info[1];
+  tmp_nz = (IT)size_info[2];
 
   /* Store in COO format */
   num = 0;
@@ -579,24 +583,17 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
 
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
+  const IT declared_nz = tmp_nz;
+  while (num < declared_nz && fgets(line, LINE_LENGTH_MAX, fp)) {
+    char *end;
     ch = line;
     /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
+    row_coo[num] = (IT)(strtoll(ch, &ch, 10) - 1);
     /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
-      val_coo[num] = 1.0;
-    }
+    col_coo[num] = (IT)(strtoll(ch, &ch, 10) - 1);
+    /* Read third word (value data)*/
+    long double val = strtold(ch, &end);
+    val_coo[num] = (end != ch) ? (NT)val : (NT)1;
     num++;
   }
   fclose(fp);
-- 
2.43.0


From 00d930ef41cac64f98bce8a47c867279e8a0b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 21/52] fix: only the banner of a Matrix Market file tells its
 symmetry, not any comment

---
 CSR.h | 2 +-
 IO.h  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CSR.h b/CSR.h
index d44fa83..7340041 100644
--- a/CSR.h
+++ b/CSR.h
@@ -565,7 +565,7 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   }
   do {
     fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
+    if (strncmp(line, "%%", 2) == 0 && strstr(line, "general")) { // banner: %%MatrixMarket ...
       isUnsy = true;
     }
   } while (line[0] == '%');
diff --git a/IO.h b/IO.h
index 6846ecd..3928a77 100644
--- a/IO.h
+++ b/IO.h
@@ -68,7 +68,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     while(c == '%')
     {
         infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        if (line[0] == '%' && strstr(line, "symmetric")) { // banner: %%MatrixMarket ...
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
@@ -150,7 +150,7 @@ int ReadASCII_Triples(string	  filename,
     while(c == '%')
     {
         infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        if (line[0] == '%' && strstr(line, "symmetric")) { // banner: %%MatrixMarket ...
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
-- 
2.43.0


From 19bea4a0d2b3a91b8ee1b735e78c319cde6a940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 22/52] fix: readers lost their place after a comment line of
 more than 255 characters

---
 CSR.h |  2 +-
 IO.h  | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/CSR.h b/CSR.h
index 7340041..a636ff5 100644
--- a/CSR.h
+++ b/CSR.h
@@ -553,7 +553,7 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   NT *val_coo;
   IT *each_row_index;
   IT *nnz_num;
-  const int LINE_LENGTH_MAX = 256;
+  const int LINE_LENGTH_MAX = 1026; // longest line of the format is 1024
 
   isUnsy = false;
   line = (char *)malloc(sizeof(char) * LINE_LENGTH_MAX);
diff --git a/IO.h b/IO.h
index 3928a77..e4649b9 100644
--- a/IO.h
+++ b/IO.h
@@ -63,11 +63,11 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
+    char line[1026]; // longest line of the format is 1024
     char c = infile.get();
     while(c == '%')
     {
-        infile.getline(line,256);
+        infile.getline(line,sizeof(line));
         if (line[0] == '%' && strstr(line, "symmetric")) { // banner: %%MatrixMarket ...
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
@@ -76,7 +76,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     }
     infile.unget();
 
-    infile.getline(line,256);
+    infile.getline(line,sizeof(line));
     IT m,n,nnz;
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
@@ -91,7 +91,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
         IT cnz = 0;	// current number of nonzeros
         while (! infile.eof() && cnz < nnz)
         {
-            infile.getline(line,256);
+            infile.getline(line,sizeof(line));
             char *ch = line, *end;
             triples[cnz].row = (IT)(strtoll(ch, &ch, 10));
             triples[cnz].col = (IT)(strtoll(ch, &ch, 10));
@@ -145,11 +145,11 @@ int ReadASCII_Triples(string	  filename,
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
+    char line[1026]; // longest line of the format is 1024
     char c = infile.get();
     while(c == '%')
     {
-        infile.getline(line,256);
+        infile.getline(line,sizeof(line));
         if (line[0] == '%' && strstr(line, "symmetric")) { // banner: %%MatrixMarket ...
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
@@ -162,7 +162,7 @@ int ReadASCII_Triples(string	  filename,
 		cout << "will remove diagonals from the matrix" << endl;
 
 	IT m,n,nnz;
-	infile.getline(line,256);
+	infile.getline(line,sizeof(line));
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
 	    
@@ -178,7 +178,7 @@ int ReadASCII_Triples(string	  filename,
         IT cnz = 0;
         while (! infile.eof() && cnz < nnz)
         {
-            infile.getline(line,256);
+            infile.getline(line,sizeof(line));
             char *ch = line, *end;
             IT rid = (IT)(strtoll(ch, &ch, 10));
             IT cid = (IT)(strtoll(ch, &ch, 10));
-- 
2.43.0


From bacc62a9eb957b0c3bdbf12daafc91e563e1f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 23/52] fix: timsort trimmed its merge buffer by the negated
 overlap when elements are smaller than indices

---
 timsort-cpp/include/tim/timsort_stack_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timsort-cpp/include/tim/timsort_stack_buffer.h b/timsort-cpp/include/tim/timsort_stack_buffer.h
index 1d6baa8..8056f09 100644
--- a/timsort-cpp/include/tim/timsort_stack_buffer.h
+++ b/timsort-cpp/include/tim/timsort_stack_buffer.h
@@ -162,8 +162,8 @@ struct timsort_stack_buffer
 		else
 		{
 			std::size_t overlap = 
-				(total_bytes_in_buffer() - bytes_consumed_by_one_more_run()) 
-				- bytes_consumed_by_merge_buffer();
+				bytes_consumed_by_merge_buffer()
+				- (total_bytes_in_buffer() - bytes_consumed_by_one_more_run());
 			overlap = overlap / sizeof(ValueType) + ((overlap % sizeof(ValueType)) > 0);
 			std::destroy(merge_buffer_end() - overlap, merge_buffer_end());
 			num_in_merge_buffer -= overlap;
-- 
2.43.0


From 8571165c280af8c2decda948294991b5961dcead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 24/52] fix: GTgraph heapSort sifted past the end of the edge
 list and did not build the whole heap

---
 GTgraph/R-MAT/utils.c  | 4 ++--
 GTgraph/SSCA2/utils.c  | 4 ++--
 GTgraph/random/utils.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..13b6735 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index cf02a7a..bca529f 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -177,8 +177,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index a9cb33b..3609f07 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -173,8 +173,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From 7cf5b39c7ee4cb6b298f7f4f4ed0bdc8f85055e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 25/52] fix: removeDuplicates reported one triple for an empty
 list

---
 util/triple-util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..536cf58 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -12,7 +12,7 @@ IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
     });
 
-    IT dst = 1;
+    IT dst = numValues > 0 ? 1 : 0;
     for (IT src = 1; src < numValues; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
             triples[dst] = triples[src];
-- 
2.43.0


From 790e2f07eef07a5e6cc3361e2d0a8ff34e615348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 26/52] fix: a push between a consumer's test and its going to
 sleep lost the wake-up

---
 PaRMAT/src/threadsafe_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index ad27924..0de2356 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -142,6 +142,10 @@ void threadsafe_queue<T>::push(T new_value)
 		tail->next=std::move(p);
 		tail=new_tail;
 	}
+	{
+		// A consumer that has found the queue empty holds head_mutex until it sleeps: wait for that, or the notification is lost.
+		std::lock_guard<std::mutex> head_lock(head_mutex);
+	}
 	data_cond.notify_one();
 }
 
-- 
2.43.0


From 943caf7829a10343b32164d9729597b58f0e60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 27/52] fix: threadsafe_queue::empty did not answer

---
 PaRMAT/src/threadsafe_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index 0de2356..e728f26 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -36,7 +36,7 @@ public:
 	std::shared_ptr<T> wait_and_pop();
 	void wait_and_pop(T& value);
 	void push(T new_value);
-	void empty();
+	bool empty();
 
 private:
 	node* get_tail()
@@ -151,7 +151,7 @@ void threadsafe_queue<T>::push(T new_value)
 
 // empty.
 template <typename T>
-void threadsafe_queue<T>::empty()
+bool threadsafe_queue<T>::empty()
 {
 	std::lock_guard<std::mutex> head_lock(head_mutex);
 	return (head.get()==get_tail());
-- 
2.43.0


From b8754549c29efdc0be2d824efbfb725e9421a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 28/52] fix: a request of exactly the capacity waited for ever

---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
-- 
2.43.0


From 8f520e2421a321da30f52a82b1648ebe6eeaf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 29/52] fix: a region without edges ran past its empty edge
 list

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..faa9307 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx+1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
-- 
2.43.0


From abd19843348a09c00c2114cf8553666db024de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 30/52] fix: the in-memory generator started from a region that
 is not square and one vertex too wide

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index faa9307..e4cac6c 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -201,7 +201,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
                                        )
 {
     
-    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices-1, nEdges, 0, 0, 0 ) );
+    std::vector<Square> squares ( 1, Square( 0, nVertices-1, 0, nVertices-1, nEdges, 0, 0, 0 ) );
     
     bool allRecsAreInRange;
     do {
-- 
2.43.0


From 074ccbe074fae0374b4a842a0d166b7b86e5cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 31/52] fix: neighbouring regions shared a row or column of the
 adjacency matrix, so they could generate the same edge

---
 PaRMAT/src/Square.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..d84d2b0 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>	// For std::min.
+
 #include "Square.hpp"
 
 bool Eligible_RNG_Rec( Square& rec, const unsigned long long nEdgesThreshold ) {
@@ -30,9 +32,10 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
+	// Both ends of a range belong to it, so the second halves start behind the middle.
+	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : std::min(((X_start+X_end)>>1)+1, X_end) ;
 	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
+	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : std::min(((Y_start+Y_end)>>1)+1, Y_end) ;
 	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
-- 
2.43.0


From edf7e7735adfd5f9b5908952e21e6c042afc7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:53 +0000
Subject: [PATCH 32/52] fix: noise could give regions a negative number of
 edges, or more than there are

---
 PaRMAT/src/Square.cpp | 11 ++++++-----
 PaRMAT/src/utils.cpp  |  8 ++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index d84d2b0..1a129ff 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,4 +1,4 @@
-#include <algorithm>	// For std::min.
+#include <algorithm>	// For std::min and std::max.
 
 #include "Square.hpp"
 
@@ -40,10 +40,11 @@ Square Square::Get_part( const unsigned int part, double a, double b, double c,
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
 
-	unsigned long long new_nEdges= 	(part==0) ? a_edge_share * nEdgeToGenerate :
-									(part==1) ? b_edge_share * nEdgeToGenerate :
-									(part==2) ? c_edge_share * nEdgeToGenerate :
-												d_edge_share * nEdgeToGenerate ;
+	auto edge_share = 	(part==0) ? a_edge_share :
+						(part==1) ? b_edge_share :
+						(part==2) ? c_edge_share :
+									d_edge_share ;
+	unsigned long long new_nEdges = std::max( edge_share, 0.0 ) * nEdgeToGenerate;	// Noise can make a small share negative.
 	auto new_level = level+1;
 	auto new_index_h = ( recIndex_horizontal << 1 ) +	( ( part == 0 || part == 2 ) ? 0 : 1 );
 	auto new_index_v = ( recIndex_vertical << 1 )   +	( ( part == 0 || part == 1 ) ? 0 : 1 );
diff --git a/PaRMAT/src/utils.cpp b/PaRMAT/src/utils.cpp
index 5061d99..5b0744c 100755
--- a/PaRMAT/src/utils.cpp
+++ b/PaRMAT/src/utils.cpp
@@ -81,6 +81,14 @@ void ShatterSquare( std::vector<Square>& square, const double a, const double b,
 	for( unsigned int i = 0; i < 4; ++i )
 		square.push_back(srcRect.Get_part( i, noise_a+a, noise_b+b, noise_c+c, noise_a_edge_share+a, noise_b_edge_share+b, noise_c_edge_share+c ));
 
+	// The noise may also have made the first three parts ask for more edges than there are.
+	unsigned long long nEdgesLeft = srcRect.getnEdges();
+	for( auto part = square.end()-4; part != square.end()-1; ++part ) {
+		if( part->getnEdges() > nEdgesLeft )
+			part->setnEdges( nEdgesLeft );
+		nEdgesLeft -= part->getnEdges();
+	}
+
 	// Renormalizing: making sure the number of edges still matches, otherwise multiplications with double may impact final total number of edges.
 	square.at(square.size()-1).setnEdges( 	srcRect.getnEdges() -
 													square.at(square.size()-2).getnEdges() -
-- 
2.43.0


From 95733f6d4484dbcd19dd536dc12198ec292e65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:53 +0000
Subject: [PATCH 33/52] fix: the sorted generator wrote the wrong edges when
 there are fewer columns of regions than threads

---
 PaRMAT/src/GraphGen_sorted.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..c7c1d34 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -154,7 +154,8 @@ bool GraphGen_sorted::GenerateGraph(
 					RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads, the oldest one first.
+		recIdx -= tasks_to_complete.size();
 		for( auto& task: tasks_to_complete ) {
 			task.get();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
@@ -190,7 +191,8 @@ bool GraphGen_sorted::GenerateGraph(
 					std::ref(rectagnleVecs.at(recIdx)), std::ref(threads_edges[recIdx%nCPUWorkerThreads]), RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads, the oldest one first.
+		recIdx -= threads.size();
 		for( auto& t: threads ) {
 			t.join();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
-- 
2.43.0


From 6ace665217fdce86bf3c09d9e0b05c5677f08025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 34/52] fix: the sorted generator looked for duplicates before
 the beginning of an empty edge list

---
 PaRMAT/src/GraphGen_sorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index c7c1d34..03eba81 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() > 0 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From 3dcbcc6ee404d224271876c902ba7e73769fcc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 35/52] fix: packing a CSC matrix into GraphBLAS told the wrong
 length of the column pointers

---
 CSC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSC.h b/CSC.h
index c9d5ef1..e833685 100644
--- a/CSC.h
+++ b/CSC.h
@@ -635,7 +635,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
-- 
2.43.0


From 67b9b19814e299d1330bbd430864908dda2e28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 36/52] fix: iso-valued and unsorted GraphBLAS matrices could
 not be unpacked into CSR

---
 CSR.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CSR.h b/CSR.h
index a636ff5..c993ec6 100644
--- a/CSR.h
+++ b/CSR.h
@@ -388,7 +388,6 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 				  "CSR matrix index type and GrB_Matrix index type "
 				  "must be the same");
 
-	bool			is_iso, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Index		nr, nc, nnz;
 	GrB_Descriptor	desc = NULL;
@@ -403,6 +402,7 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 	this->nnz  = nnz;
 	
 	// does not free the matrix, but the matrix has no entries after this
+	// (no iso and jumbled arguments: one value per entry, sorted rows)
 	GxB_Matrix_unpack_CSR(A,
 						  &this->rowptr,
 						  &this->colids,
@@ -410,11 +410,9 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 						  &ap_size,
 						  &aj_size,
 						  &ax_size,
-						  &is_iso,
-						  &is_jumbled,
+						  NULL,
+						  NULL,
 						  desc);
-	assert(!is_iso && "GraphBLAS matrix is iso-valued.");
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
     GrB_Descriptor_free(&desc);
 
-- 
2.43.0


From c336c328358e49e1a5f129288be0ea6add38f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 37/52] fix: CSR exported from an iso-valued GraphBLAS matrix
 had a single value

---
 CSR.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/CSR.h b/CSR.h
index c993ec6..7402ab5 100644
--- a/CSR.h
+++ b/CSR.h
@@ -435,7 +435,6 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
@@ -444,9 +443,8 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  NULL, NULL, // one value per entry, sorted rows
 						  desc); // frees the graphblas matrix
-	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
 
 	return;						  
-- 
2.43.0


From 2f7bf43ddf6bf488d76c87bf48782aeafaab7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 38/52] fix: importing a CSR matrix told GraphBLAS the wrong
 length of the column indices

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 7402ab5..2e576d8 100644
--- a/CSR.h
+++ b/CSR.h
@@ -851,7 +851,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From c75c79a04b220cdfc634a2c5ce08ecc459a5c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 39/52] fix: the lower triangle of a rectangular matrix was
 empty

---
 grb_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grb_util.h b/grb_util.h
index 2e53512..f6e6abd 100644
--- a/grb_util.h
+++ b/grb_util.h
@@ -843,11 +843,12 @@ get_lowtri
 {
 	GrbAlgObj<NT> to_grb;
 	GxB_Scalar Thunk = NULL;
-	GrB_Index n;
-	GrB_Matrix_nrows(&n, A);	
+	GrB_Index n, m;
+	GrB_Matrix_nrows(&n, A);
+	GrB_Matrix_ncols(&m, A);
 
 	GxB_Scalar_new(&Thunk, GrB_INT64);
-	GrB_Matrix_new(L, to_grb.get_type(), n, n);
+	GrB_Matrix_new(L, to_grb.get_type(), n, m);
 	GxB_Scalar_setElement_INT64(Thunk, (int64_t) (-1));
 	GxB_Matrix_select(*L, NULL, NULL, GxB_TRIL, A, Thunk, NULL);
 
-- 
2.43.0


From d76fa37173f06e8b89bc49275a290c42b2b61f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:56 +0000
Subject: [PATCH 40/52] fix: building a GraphBLAS matrix from a one-based CSR
 matrix shifted its rows

---
 CSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index 2e576d8..e5ce4ef 100644
--- a/CSR.h
+++ b/CSR.h
@@ -757,9 +757,9 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr; ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
-- 
2.43.0


From 3b6ca4ae4e0f81cc5f49d8df96d0cdb4491ceddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 41/52] fix: importing a CSR matrix without entries gave
 GraphBLAS dangling arrays

---
 CSR.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CSR.h b/CSR.h
index e5ce4ef..16c7340 100644
--- a/CSR.h
+++ b/CSR.h
@@ -848,6 +848,11 @@ CSR<IT, NT>::get_grb_mat_ptr
 	
 	GrbAlgObj<NT> to_grb;
 	GrB_Descriptor desc = NULL;
+	if (this->nnz == 0) {
+		// not allocated, or already freed, when there are no entries
+		this->colids = NULL;
+		this->values = NULL;
+	}
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-- 
2.43.0


From 41c752e79c8d16597498614936e19fd32cb317c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 42/52] fix: packing a CSR or CSC matrix without entries gave
 GraphBLAS dangling arrays

---
 CSC.h | 6 ++++++
 CSR.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/CSC.h b/CSC.h
index e833685..2b61d2d 100644
--- a/CSC.h
+++ b/CSC.h
@@ -642,6 +642,12 @@ CSC<IT, NT>::get_grb_mat
     GrB_Descriptor desc = NULL;
     GrB_Descriptor_new(&desc);
 
+    if (this->nnz == 0) {
+        // not allocated, or already freed, when there are no entries
+        this->rowids = NULL;
+        this->values = NULL;
+    }
+
     GxB_Matrix_pack_CSC(A,
                         &this->colptr,
                         &this->rowids,
diff --git a/CSR.h b/CSR.h
index 16c7340..6f7009c 100644
--- a/CSR.h
+++ b/CSR.h
@@ -813,6 +813,12 @@ CSR<IT, NT>::get_grb_mat
 	GrB_Descriptor desc = NULL;
 	GrB_Descriptor_new(&desc);
 	
+	if (this->nnz == 0) {
+		// not allocated, or already freed, when there are no entries
+		this->colids = NULL;
+		this->values = NULL;
+	}
+
 	GxB_Matrix_pack_CSR(A,
 						&this->rowptr,
 						&this->colids,
-- 
2.43.0


From 6264120fe418448d701cd1348d6b907e40207d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 43/52] fix: counting the triangles of a graph without edges
 read an uninitialized edge

---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index 8431180..cb095fd 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -227,7 +227,7 @@ void preprocessInput(CSC<IT, NT> &A) {
         return rhs.row < lhs.row || (rhs.row == lhs.row && rhs.col < lhs.col);
     });
 
-    IT dst = 1;
+    IT dst = std::min(idx, IT(1));
     for (IT src = 1; src < idx; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
             triples[dst] = triples[src];
-- 
2.43.0


From 72f30522982d730ea07493d09ec3503e6781a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 44/52] fix: HashIntersect counted the edges of triangles
 instead of the triangles

---
 benchmarks/TriCntAll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index cb095fd..2affa1d 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -246,7 +246,7 @@ void HashIntersect(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, c
                    MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     CSR<IT, NT> Ct;
     HashSpGEMM<true>(A, B, Ct, multop, addop, numThreads);
-    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return rhs; });
+    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return lhs; });
     Ct.make_empty();
 }
 
-- 
2.43.0


From 7a6ed933727a7b32d457971a8ac3e0638c5816d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:06 +0000
Subject: [PATCH 45/52] fix: the 2-truss lost the edges in no triangle

---
 benchmarks/KTrussAllGrb.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/benchmarks/KTrussAllGrb.cpp b/benchmarks/KTrussAllGrb.cpp
index 589965d..dccfbbf 100644
--- a/benchmarks/KTrussAllGrb.cpp
+++ b/benchmarks/KTrussAllGrb.cpp
@@ -91,6 +91,11 @@ grb_ktruss
 				if (i >= witers) { t_mxm += (end-start); }
 				
 				GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
+				if (k == 2)		// no edge is dropped, not even those in no triangle
+				{
+					GrB_Matrix_free(&C);
+					GrB_Matrix_dup(&C, T);
+				}
 
 				if (nsteps > 1)	// don't clear A
 					GrB_Matrix_free(&T);
@@ -230,6 +235,11 @@ msp_ktruss
 				C_msp.get_grb_mat(C); T1_msp.get_grb_mat(T);
 				
 				GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
+				if (k == 2)		// no edge is dropped, not even those in no triangle
+				{
+					GrB_Matrix_free(&C);
+					GrB_Matrix_dup(&C, T);
+				}
 
 				if (nsteps > 1)	// don't clear A
 					GrB_Matrix_free(&T);
@@ -338,6 +348,11 @@ ktruss_mult_ops
         C_msp.get_grb_mat(C); T1_msp.get_grb_mat(T);
 
         GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
+        if (k == 2)		// no edge is dropped, not even those in no triangle
+        {
+            GrB_Matrix_free(&C);
+            GrB_Matrix_dup(&C, T);
+        }
 
         if (nsteps > 1)	// don't clear A
             GrB_Matrix_free(&T);
-- 
2.43.0


From fb481d02cb74ef22204a9cbe4cd1aa7759d99624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 46/52] Revert the three repairs in benchmarks/ (recorded as
 known findings instead)

---
 benchmarks/KTrussAllGrb.cpp | 15 ---------------
 benchmarks/TriCntAll.cpp    |  4 ++--
 2 files changed, 2 insertions(+), 17 deletions(-)

diff --git a/benchmarks/KTrussAllGrb.cpp b/benchmarks/KTrussAllGrb.cpp
index dccfbbf..589965d 100644
--- a/benchmarks/KTrussAllGrb.cpp
+++ b/benchmarks/KTrussAllGrb.cpp
@@ -91,11 +91,6 @@ grb_ktruss
 				if (i >= witers) { t_mxm += (end-start); }
 				
 				GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
-				if (k == 2)		// no edge is dropped, not even those in no triangle
-				{
-					GrB_Matrix_free(&C);
-					GrB_Matrix_dup(&C, T);
-				}
 
 				if (nsteps > 1)	// don't clear A
 					GrB_Matrix_free(&T);
@@ -235,11 +230,6 @@ msp_ktruss
 				C_msp.get_grb_mat(C); T1_msp.get_grb_mat(T);
 				
 				GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
-				if (k == 2)		// no edge is dropped, not even those in no triangle
-				{
-					GrB_Matrix_free(&C);
-					GrB_Matrix_dup(&C, T);
-				}
 
 				if (nsteps > 1)	// don't clear A
 					GrB_Matrix_free(&T);
@@ -348,11 +338,6 @@ ktruss_mult_ops
         C_msp.get_grb_mat(C); T1_msp.get_grb_mat(T);
 
         GxB_Matrix_select(C, NULL, NULL, GxB_GE_THUNK, C, s, NULL);
-        if (k == 2)		// no edge is dropped, not even those in no triangle
-        {
-            GrB_Matrix_free(&C);
-            GrB_Matrix_dup(&C, T);
-        }
 
         if (nsteps > 1)	// don't clear A
             GrB_Matrix_free(&T);
diff --git a/benchmarks/TriCntAll.cpp b/benchmarks/TriCntAll.cpp
index 2affa1d..8431180 100644
--- a/benchmarks/TriCntAll.cpp
+++ b/benchmarks/TriCntAll.cpp
@@ -227,7 +227,7 @@ void preprocessInput(CSC<IT, NT> &A) {
         return rhs.row < lhs.row || (rhs.row == lhs.row && rhs.col < lhs.col);
     });
 
-    IT dst = std::min(idx, IT(1));
+    IT dst = 1;
     for (IT src = 1; src < idx; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
             triples[dst] = triples[src];
@@ -246,7 +246,7 @@ void HashIntersect(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C, c
                    MultiplyOperation multop, AddOperation addop, unsigned numThreads = 0) {
     CSR<IT, NT> Ct;
     HashSpGEMM<true>(A, B, Ct, multop, addop, numThreads);
-    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return lhs; });
+    C = Intersect(Ct, M, [](NT lhs, NT rhs) { return rhs; });
     Ct.make_empty();
 }
 
-- 
2.43.0


From 02cdc185e63a8705a7665ecf80c28eb0212b1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 47/52] fix: operation counts overflowed the index type

---
 multiply.h       | 2 +-
 outer_mult.h     | 2 +-
 outer_mult2.h    | 2 +-
 outer_profile.h  | 2 +-
 outer_profile2.h | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/multiply.h b/multiply.h
index e077b8c..fc5c6c3 100644
--- a/multiply.h
+++ b/multiply.h
@@ -144,7 +144,7 @@ long long int get_flop(const CSC<IT, NT> &A, const CSR<IT, NT> &B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flops += (colnnz * rownnz);
+        flops += static_cast<long long int>(colnnz) * rownnz;
     }
     return (flops * 2);
 }
diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..9f97439 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -40,7 +40,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += static_cast<uint64_t>(colnnz) * rownnz;
     }
     return flop;
 }
diff --git a/outer_mult2.h b/outer_mult2.h
index d4aec84..19ad0d8 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -37,7 +37,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += static_cast<uint64_t>(colnnz) * rownnz;
     }
     return flop;
 }
diff --git a/outer_profile.h b/outer_profile.h
index 8343e94..01f694f 100644
--- a/outer_profile.h
+++ b/outer_profile.h
@@ -42,7 +42,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += static_cast<uint64_t>(colnnz) * rownnz;
     }
     return flop;
 }
diff --git a/outer_profile2.h b/outer_profile2.h
index 8efd4ba..f3af64a 100644
--- a/outer_profile2.h
+++ b/outer_profile2.h
@@ -42,7 +42,7 @@ uint64_t getFlop(const CSC<IT, NT>& A, const CSR<IT, NT>& B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flop += (colnnz * rownnz);
+        flop += static_cast<uint64_t>(colnnz) * rownnz;
     }
     return flop;
 }
-- 
2.43.0


From b041949d6a81a92897629cff65d0b9ce049956e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 48/52] fix: GTgraph random wrote past the estimated number of
 edges

---
 GTgraph/random/graph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 5d83caa..ac5bb91 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -124,6 +124,12 @@ void graphGen(graph* g)
 
                                 if (p > sprng(stream1)) {
 
+					/* more edges than estimated */
+					if (edgeNum == estNumEdges) {
+						estNumEdges = 2*estNumEdges + 1;
+						startVertex = (LONG_T *) realloc(startVertex, estNumEdges * sizeof(LONG_T));
+						endVertex   = (LONG_T *) realloc(endVertex, estNumEdges * sizeof(LONG_T));
+					}
 					startVertex[edgeNum] = i; 
 					endVertex[edgeNum]   = j;
 					edgeNum++;
-- 
2.43.0


From d47227bf3139fbd54d2552e770d2f028a40bbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 49/52] fix: GTgraph R-MAT forgot the output file given before
 a size

---
 GTgraph/R-MAT/init.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GTgraph/R-MAT/init.c b/GTgraph/R-MAT/init.c
index f631951..d206fec 100644
--- a/GTgraph/R-MAT/init.c
+++ b/GTgraph/R-MAT/init.c
@@ -57,7 +57,8 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-					getParams();
+					if (!outfileSpecified)
+						getParams();
 					varSpecified = 1;
 				}
 				n = atol(optarg);
@@ -69,7 +70,8 @@ void parseUserInput(int argc, char** argv) {
 				if (configfileSpecified)
 					break;
 				if (varSpecified == 0) {
-                                        getParams();
+                                        if (!outfileSpecified)
+                                                getParams();
                                         varSpecified = 1;
                                 }
                                 m = atol(optarg);
-- 
2.43.0


From 47ca52433003a672ac0c8e3f3a64d13bbdfa2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 50/52] fix: GTgraph SSCA2 did not know ProbIntercliqueEdges,
 the name its config file uses

---
 GTgraph/SSCA2/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GTgraph/SSCA2/init.c b/GTgraph/SSCA2/init.c
index 49df9c4..8db975b 100644
--- a/GTgraph/SSCA2/init.c
+++ b/GTgraph/SSCA2/init.c
@@ -153,7 +153,8 @@ void getParamsFromFile(char* configfile) {
 			MinWeight = (WEIGHT_T) val;
 		} else if (strcmp(var,"ProbUnidirectional")==0) {
 			ProbUnidirectional = (double) val;
-		} else if (strcmp(var,"ProbInterClEdges")==0) {
+		} else if ((strcmp(var,"ProbIntercliqueEdges")==0) || \
+			   (strcmp(var,"ProbInterClEdges")==0)) {
 			ProbIntercliqueEdges = (double) val;
 		} else if (strcmp(var,"MaxParallelEdges")==0) {
 			MaxParallelEdges = (LONG_T) val;
-- 
2.43.0


From bf50556ffdc25a43f1af48001238d06fc1419017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 51/52] fix: GTgraph SSCA2 drew too few clique sizes, or
 divided by zero

---
 GTgraph/SSCA2/graph.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 7dbf877..f205623 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -34,14 +34,22 @@ void graphGen(graph* g)
 
   	/* Estimate number of clusters required to make up 
 	 * TotVertices and pad by 25% */
-	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize/2);
+	estTotClusters = 1.25 * TotVertices / ((MaxCliqueSize+1)/2);
+	if (estTotClusters < 1)
+		estTotClusters = 1;
 	
 	/* Allocate a block of memory for this cluster-size array */
 	clusterSizes = (LONG_T *) malloc(estTotClusters*sizeof(LONG_T));
 
-	/* Generate random cluster sizes. */
-	for(i = 0; i < estTotClusters; i++) {
+	/* Generate random cluster sizes, enough to hold all vertices. */
+	t = 0;
+	for(i = 0; (i < estTotClusters) || (t < TotVertices); i++) {
+		if (i == estTotClusters) {
+			estTotClusters = 2*estTotClusters;
+			clusterSizes = (LONG_T *) realloc(clusterSizes, estTotClusters*sizeof(LONG_T));
+		}
 		clusterSizes[i] = 1 + (sprng(stream) * MaxCliqueSize);
+		t += clusterSizes[i];
 	}
 
 	totClusters = 0;
-- 
2.43.0


From 8b8e994d39b687962f9a6400827daee2012c428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:36 +0000
Subject: [PATCH 52/52] fix: GTgraph SSCA2 wrote past the estimated number of
 edges

---
 GTgraph/SSCA2/graph.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index f205623..5466114 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -75,12 +75,15 @@ void graphGen(graph* g)
 	/*		generate intra-cluster edges		*/
 	/*------------------------------------------------------*/
  
-	/* Roughly estimate the total number of edges */
-	estNumEdges = (LONG_T) ((TotVertices * (double) MaxCliqueSize * (2-ProbUnidirectional)/2) +\
-		      	        (TotVertices * (double) ProbIntercliqueEdges/(1-ProbIntercliqueEdges))) * \
-				(1+MaxParallelEdges/2);
+	/* The largest possible number of edges: all intra-cluster edges in
+	 * both directions, inter-cluster edges at all distances (see below) */
+	dsize = (LONG_T) (log((double)TotVertices)/log(2));
+	estNumEdges = TotVertices * dsize;
+	for (i_cluster=0; i_cluster < totClusters; i_cluster++)
+		estNumEdges += clusterSizes[i_cluster] * (clusterSizes[i_cluster]-1);
+	estNumEdges *= MaxParallelEdges;
 
-	fprintf(stderr, "\n\tEstimated number of edges - %ld\n", estNumEdges);
+	fprintf(stderr, "\n\tMaximum number of edges - %ld\n", estNumEdges);
 	fprintf(stderr, "Generating intra-cluster edges ... ");
 
 	/* Check if no. of edges is within bounds for 32-bit code */
@@ -163,7 +166,6 @@ void graphGen(graph* g)
         fprintf(stderr, "Generating inter-clique edges ... ");	
 
 	/* generate exponential distances as suggested in the spec */
-	dsize = (LONG_T) (log((double)TotVertices)/log(2));
 	d = (LONG_T *) malloc(dsize * sizeof(LONG_T));
 	for (i = 0; i < dsize; i++) {
 		d[i] = (LONG_T) pow(2, (double) i);
-- 
2.43.0

