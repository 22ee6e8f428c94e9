From ed9be0013913b9da054ae9eb80868b6163cec031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 01/17] fix: csrmatrix_new_count_nnz freed uninitialised
 pointers when the row pointer allocation failed

---
 opm/core/linalg/sparse_sys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..5c9f2cd 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -37,6 +37,8 @@ csrmatrix_new_count_nnz(size_t m)
 
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
+        new->ja = NULL;
+        new->sa = NULL;
         new->ia = malloc((m + 1) * sizeof *new->ia);
 
         if (new->ia != NULL) {
@@ -44,9 +46,6 @@ csrmatrix_new_count_nnz(size_t m)
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
-- 
2.43.0


From 89f5548f33f8478272d2c4eeee6f20fec7cd26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 02/17] fix: source term tables kept dangling pointers when
 growing them ran out of memory

---
 opm/core/pressure/tpfa/compr_source.c          | 11 ++++++-----
 opm/core/transport/implicit/transport_source.c | 13 ++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..a57e508 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,15 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);   free(c);
+    /* A successful realloc() has released the old table. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..fd7d039 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,20 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* A successful realloc() has released the old table. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
 
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From dee886427d2947e3a17bab6aae4cba99a967fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 03/17] fix: compr_bc recorded no capacity and kept dangling
 pointers when growing ran out of memory

---
 opm/core/pressure/tpfa/compr_bc.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..6af3f66 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,16 +53,19 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* A successful realloc() has released the old table. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
 
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
+        bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 21cab7669302bb5421f0701f97077071807e2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 04/17] fix: spu: take the oil mobility upstream when the Darcy
 flux is zero

With zero Darcy flux and negative gravity flux the oil flux is positive,
but both schemes used the oil mobility of the downstream cell; the
implicit scheme then lost conservation, since the two cells of a face
disagreed about the flux.
---
 opm/core/transport/minimal/spu_explicit.c | 2 +-
 opm/core/transport/minimal/spu_implicit.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..4b65bd7 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -68,7 +68,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
 
             else {
                 /* Oil mobility */
-                if (dflux[f]>0) {
+                if (dflux[f]>0 || (!(dflux[f]<0) && gflux[f]<0)) {
                     m2 = mob[2*c1+1];
                 }
                 else {
diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..63cd5cf 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -245,7 +245,7 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     else {
         
         /* Positive oil phase flux */
-        if (darcyflux>0) {
+        if (darcyflux>0 || (!(darcyflux<0) && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From 2b3fe66bf5e1d08f460135d4355dcfe348ca533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 05/17] fix: ifs_tpfa_assemble_comprock_increment: no driving
 forces (F == NULL) was dereferenced

---
 opm/core/pressure/tpfa/ifs_tpfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/ifs_tpfa.c b/opm/core/pressure/tpfa/ifs_tpfa.c
index 9c7a2ee..97851f5 100644
--- a/opm/core/pressure/tpfa/ifs_tpfa.c
+++ b/opm/core/pressure/tpfa/ifs_tpfa.c
@@ -789,7 +789,7 @@ ifs_tpfa_assemble_comprock_increment(struct UnstructuredGrid      *G        ,
             h->b[c]     -= dpvdt + v[c];
         }
 
-        if (F->W != NULL) {
+        if ((F != NULL) && (F->W != NULL)) {
             wdof = G->number_of_cells;
 
             for (w = 0; w < F->W->number_of_wells; w++, wdof++) {
-- 
2.43.0


From 993fc3bc5dcda5624767d93c030d329a3f8e33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 06/17] fix: read_grid trusted the sizes and index totals
 stated in the file

A file with negative sizes, more than three dimensions, or index arrays
that do not match the allocated totals made read_grid write outside the
arrays of the grid.  Validate them and report the failure instead.
---
 opm/core/grid/grid.c | 54 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 58179b7..8eb4034 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -175,8 +176,25 @@ input_error(FILE *fp, const char * const err)
 }
 
 
+/* Can the sizes of the file be represented in an UnstructuredGrid? */
+static int
+valid_grid_sizes(const size_t *dimens)
+{
+    size_t i;
+
+    for (i = GRID_NCELLS; i < GRID_NMETA; i++) {
+        if (dimens[i] > (INT_MAX - 1) / 2) {
+            return 0;
+        }
+    }
+
+    return (1 <= dimens[GRID_NDIMS]) && (dimens[GRID_NDIMS] <= 3);
+}
+
+
 static struct UnstructuredGrid *
-allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
+allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap,
+                        size_t *nfacenodes, size_t *ncellfaces)
 {
     struct UnstructuredGrid *G;
 
@@ -194,7 +212,15 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
     }
 
     if (i == GRID_NMETA) {
-        if (fscanf(fp, "%d %d", has_tag, has_indexmap) == 2) {
+        if (! valid_grid_sizes(dimens)) {
+            fprintf(stderr, "Unsupported grid dimensions\n");
+
+            G = NULL;
+        }
+        else if (fscanf(fp, "%d %d", has_tag, has_indexmap) == 2) {
+            *nfacenodes = dimens[GRID_NFACENODES];
+            *ncellfaces = dimens[GRID_NCELLFACES];
+
             G = allocate_grid(dimens[GRID_NDIMS]     ,
                               dimens[GRID_NCELLS]    ,
                               dimens[GRID_NFACES]    ,
@@ -285,7 +311,7 @@ read_grid_nodes(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
+read_grid_faces(FILE *fp, size_t nfacenodes, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nf, nfn, i;
@@ -305,6 +331,12 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
     if (! ok) {
         input_error(fp, "Unable to read node indirection array");
     }
+    else if ((G->face_nodepos[ nf ] < 0) ||
+             ((size_t) G->face_nodepos[ nf ] > nfacenodes)) {
+        fprintf(stderr, "Node indirection array does not match grid size\n");
+
+        ok = 0;
+    }
     else {
         /* G->face_nodes */
         nfn = G->face_nodepos[ nf ];
@@ -390,7 +422,7 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
 
 static int
 read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
-                struct UnstructuredGrid *G)
+                size_t ncellfaces, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nc, ncf, i;
@@ -409,6 +441,12 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
     if (! ok) {
         input_error(fp, "Unable to read face indirection array");
     }
+    else if ((G->cell_facepos[ nc ] < 0) ||
+             ((size_t) G->cell_facepos[ nc ] > ncellfaces)) {
+        fprintf(stderr, "Face indirection array does not match grid size\n");
+
+        ok = 0;
+    }
     else {
         /* G->cell_faces (and G->cell_facetag if applicable) */
         ncf = G->cell_facepos[ nc ];
@@ -512,18 +550,20 @@ read_grid(const char *fname)
 
     int save_errno;
     int has_tag, has_indexmap, ok;
+    size_t nfacenodes, ncellfaces;
 
     save_errno = errno;
 
     fp = fopen(fname, "rt");
     if (fp != NULL) {
-        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap);
+        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap,
+                                    & nfacenodes, & ncellfaces);
 
         ok = G != NULL;
 
         if (ok) { ok = read_grid_nodes(fp, G); }
-        if (ok) { ok = read_grid_faces(fp, G); }
-        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, G); }
+        if (ok) { ok = read_grid_faces(fp, nfacenodes, G); }
+        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, ncellfaces, G); }
 
         if (! ok) {
             destroy_grid(G);
-- 
2.43.0


From 118501fdc313b62c72d04c8edff4002f56e23b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 07/17] fix: NonuniformTableLinear: rescaleDomain left the
 reversed table of inverse() stale

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..fdde2ac 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // The reversed table caches the old domain.
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From eeb8816bd327232424ce0f3a13ec1455a995c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 08/17] fix: RegulaFalsi left the iteration count unset when it
 returned before iterating

---
 opm/core/utility/RootFinders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 47b6057..18c0fbb 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -117,6 +117,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -134,7 +135,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
@@ -197,6 +197,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -231,7 +232,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
-- 
2.43.0


From 60fd2073733f76b627358cd3dad5fe3234562d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 09/17] fix: SparseVector::addElement accepted a negative index
 as first element

---
 opm/core/utility/SparseVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/SparseVector.hpp b/opm/core/utility/SparseVector.hpp
index 2ca6711..3470727 100644
--- a/opm/core/utility/SparseVector.hpp
+++ b/opm/core/utility/SparseVector.hpp
@@ -101,6 +101,7 @@ namespace Opm
 	/// Elements must be added in index order.
 	void addElement(const T& elem, int index)
 	{
+	    ASSERT(index >= 0);
 	    ASSERT(indices_.empty() || index > indices_.back());
 	    ASSERT(index < size_);
 	    data_.push_back(elem);
-- 
2.43.0


From 23fdaf8919f500a8a804d9acbb5c67f994b6f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 10/17] fix: SimulatorTimer::setCurrentStepNum checks the
 requested step, not the current one

---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..f46cc20 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,8 +72,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0


From 406bbc6a22c812cd2605f26afd5082f54814acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:28 +0000
Subject: [PATCH 11/17] fix: dfs() marks the visited child, not its parent

The node pushed on the stack stayed UNVISITED, so it could be pushed again;
the stack then ran into the edge counters and components were coloured wrongly.
---
 opm/core/pressure/msmfem/dfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/dfs.c b/opm/core/pressure/msmfem/dfs.c
index 248b16a..1330c3a 100644
--- a/opm/core/pressure/msmfem/dfs.c
+++ b/opm/core/pressure/msmfem/dfs.c
@@ -59,7 +59,7 @@ void dfs (int size, int *ia, int *ja, int *ncolors, int *color, int* work)
                 
                 if (color[child] == UNVISITED) {
                     *stack++ = child;
-                    color[c] = VISITED;
+                    color[child] = VISITED;
                 }
    
             } else {
-- 
2.43.0


From 27fb9ceef7d2d36dfd83ef716ebc4d291ded7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 12/17] fix: restore the first start pointer of the
 cell-to-cell graph

partition_create_c2c() left the number of connections in pc2c[0]: cell 0 lost
its connections and create_block_conns() wrote past the end of its arrays.
---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From d6368ac480e619a47f2aeeac98d70da36a3b24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 13/17] fix: destroy_wells tolerates a container without
 management data

create_wells() calls it on such a container when memory runs out.
---
 opm/core/wells/wells.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..71b3bd8 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -410,11 +410,12 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
+        /* Management structure is missing if create_wells() failed */
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             well_controls_destroy(W->ctrls[w]);
         }
 
-        for (w = 0; w < m->well_cpty; w++) {
+        for (w = 0; (m != NULL) && (w < m->well_cpty); w++) {
             free(W->name[w]);
         }
 
-- 
2.43.0


From a769b444ec1cbcd63b2826769bdf01d90b892c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 14/17] fix: release the control sets of new wells when growing
 a Wells container fails

The capacity is not raised on failure, so neither destroy_wells() nor a
later successful growth knew of them.
---
 opm/core/wells/wells.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 71b3bd8..e29133f 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -260,7 +260,9 @@ initialise_new_wells(int nwells, struct Wells *W)
     }
 
     if (! ok) {
-        for (; w < nwells; w++) {
+        /* New wells are not counted in the capacity: release their controls */
+        for (w = w - 1; w >= m->well_cpty; w--) {
+            well_controls_destroy(W->ctrls[w]);
             W->ctrls[w] = NULL;
         }
     }
-- 
2.43.0


From c108b643bd0c42c9fce7791b548fc3f3dcb68a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 15/17] fix: no control is current after clear_well_controls

The index kept pointing past the (empty) list; clone_wells() then ran into
the assertion of set_current_control().
---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index e29133f..38f0abe 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -593,7 +593,8 @@ clear_well_controls(int well_index, struct Wells *W)
     assert ((0 <= well_index) && (well_index < W->number_of_wells));
 
     if (W->ctrls[well_index] != NULL) {
-        W->ctrls[well_index]->num = 0;
+        W->ctrls[well_index]->num     = 0;
+        W->ctrls[well_index]->current = -1;
     }
 }
 
-- 
2.43.0


From 881d0d998b6d7c146767ec509d4ffed529b6bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 16/17] fix: a control appended without distribution does not
 inherit one

After clear_well_controls() the slot still held the distribution of the
removed control.
---
 opm/core/wells/wells.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 38f0abe..c524e94 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -532,7 +532,7 @@ append_well_controls(enum WellControlType type,
                      struct Wells        *W)
 /* ---------------------------------------------------------------------- */
 {
-    int ok, alloc, np;
+    int ok, alloc, np, p;
     struct WellControls    *ctrl;
     struct WellControlMgmt *m;
 
@@ -560,6 +560,12 @@ append_well_controls(enum WellControlType type,
             memcpy(ctrl->distr + (ctrl->num * np), distr,
                    np * sizeof *ctrl->distr);
         }
+        else {
+            /* Slot may hold the distribution of a control since cleared */
+            for (p = 0; p < np; ++p) {
+                ctrl->distr[ctrl->num * np + p] = 0.0;
+            }
+        }
 
         ctrl->num += 1;
     }
-- 
2.43.0


From 47e0658db903bdd501b2f071b195c0d0beaf5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 17/17] fix: degree 2 quadrature in one dimension

CellQuadrature announced one point in 1d and then failed in quadPtCoord and
quadPtWeight (and read a 3d layout without assertions); FaceQuadrature failed
in quadPtWeight. Use Simpson's method for cells and the single point for faces.
---
 opm/core/grid/CellQuadrature.hpp | 17 ++++++++++++++++-
 opm/core/grid/FaceQuadrature.hpp |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/opm/core/grid/CellQuadrature.hpp b/opm/core/grid/CellQuadrature.hpp
index 8fa4542..b23caeb 100644
--- a/opm/core/grid/CellQuadrature.hpp
+++ b/opm/core/grid/CellQuadrature.hpp
@@ -78,6 +78,9 @@ namespace Opm
     ///     Midpoint (centroid) method.
     ///         n = 1, w_0 = cell volume, x_0 = cell centroid
     ///
+    /// Degree 2 method for 1d:
+    ///     Simpson's method (actually this is degree 3).
+    ///
     /// Degree 2 method for 2d (but see the note):
     ///    Based on subdivision of the cell into triangles,
     ///    with the centroid as a common vertex, and the triangle
@@ -134,10 +137,13 @@ namespace Opm
 
         int numQuadPts() const
         {
-            if (degree_ < 2 || grid_.dimensions == 1) {
+            if (degree_ < 2) {
                 return 1;
             }
             // Degree 2 case.
+            if (grid_.dimensions == 1) {
+                return 3;
+            }
             if (grid_.dimensions == 2) {
                 return 3*(grid_.cell_facepos[cell_ + 1] - grid_.cell_facepos[cell_]);
             }
@@ -159,6 +165,11 @@ namespace Opm
                 return;
             }
             // Degree 2 case.
+            if (dim == 1) {
+                const int* hface = grid_.cell_faces + grid_.cell_facepos[cell_];
+                coord[0] = (index == 1) ? cc[0] : grid_.face_centroids[hface[index/2]];
+                return;
+            }
             if (dim == 2) {
                 if (index % 3 == 0) {
                     // Boundary midpoint. This is the face centroid.
@@ -218,6 +229,10 @@ namespace Opm
             }
             // Degree 2 case.
             const int dim = grid_.dimensions;
+            if (dim == 1) {
+                const double simpsonw[3] = { 1.0/6.0, 4.0/6.0, 1.0/6.0 };
+                return grid_.cell_volumes[cell_]*simpsonw[index];
+            }
             const double* cc = grid_.cell_centroids + dim*cell_;
             if (dim == 2) {
                 const int hface = grid_.cell_facepos[cell_] + index/3;
diff --git a/opm/core/grid/FaceQuadrature.hpp b/opm/core/grid/FaceQuadrature.hpp
index 9ed0635..d068f6a 100644
--- a/opm/core/grid/FaceQuadrature.hpp
+++ b/opm/core/grid/FaceQuadrature.hpp
@@ -145,11 +145,11 @@ namespace Opm
 
         double quadPtWeight(const int index) const
         {
-            if (degree_ < 2) {
+            const int dim = grid_.dimensions;
+            if (degree_ < 2 || dim < 2) {
                 return grid_.face_areas[face_];
             }
             // Degree 2 case.
-            const int dim = grid_.dimensions;
             if (dim == 2) {
                 const double simpsonw[3] = { 1.0/6.0, 4.0/6.0, 1.0/6.0 };
                 return grid_.face_areas[face_]*simpsonw[index];
-- 
2.43.0

