From 2a51731862d2a67f7d5f11868774c17e51888f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 01/39] fix: read ARMCI_NONCOLLECTIVE_GROUPS before
 initializing the world group

The world group was initialized before the option was read, so its
noncoll_pgroup_comm was MPI_COMM_NULL and group creation and ARMCI_Finalize
used a null communicator.
---
 src/init_finalize.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..03edfae 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,16 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Noncollective group formation - must be known before the world group is initialized,
+   * because it determines whether the group needs a communicator for group creation. */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -285,12 +295,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
 
   /* Group formation options */
 
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
   ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
 
   /* Check for IOV and Strided flags */
-- 
2.43.0


From de33d5b1db63a08a4bec6b894e793b7e2a46ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 02/39] fix: do not leave translation caches of non-member
 groups uninitialized

A process that is not a member of a group got a group object whose
abs_to_grp/grp_to_abs pointers were never set when rank translation caching
is enabled; ARMCI_Group_free then freed garbage.
---
 src/groups.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..4eec1df 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -63,6 +63,10 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
 
       free(ranks);
     }
+    else {
+      group->abs_to_grp = NULL;
+      group->grp_to_abs = NULL;
+    }
   }
   
   /* Translation caching is disabled */
-- 
2.43.0


From 9d0640d384282c2796f1928eeefd3794b715cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 03/39] fix: ARMCI_Test reports completion for a handle with
 nothing outstanding

A nonblocking operation that finished on the spot (a transfer to the calling
process, or one that moves no data) leaves its handle inactive.  ARMCI_Test
then returned 1 (in progress) forever, so a loop polling it never ended.
---
 src/onesided_nb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..d63f909 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -330,6 +330,9 @@ int PARMCI_Test(armci_hdl_t* handle)
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
 
+    /* no operation is outstanding on this handle, so it is complete */
+    flag = 1;
+
   } else if (handle->batch_size == 1) {
 
     if (handle->single_request == MPI_REQUEST_NULL) {
-- 
2.43.0


From 4742d7daf96ef9ba421c2997c007349bf699d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 04/39] fix: ARMCI_PutS_flag returns zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..79a8e6b 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -661,7 +661,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 54a53bdc8ea204de317db2a7b1bc5fba354c639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 05/39] fix: complete scaled nonblocking vector accumulates
 before freeing the scaled copy

---
 src/vector_nb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..1352b84 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -130,6 +130,12 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
       blocking = 1;
   }
 
+  /* The scaled copy of the source is freed below, so the operation has to be
+   * locally complete by then. */
+  if (ARMCII_Buf_acc_is_scaled(datatype, scale)) {
+      blocking = 1;
+  }
+
   for (int v = 0; v < iov_len; v++) {
     void **src_buf;
     int    overlapping, same_alloc;
-- 
2.43.0


From 53894851a76d60c900efd74796213892e872301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 06/39] fix: do not compute an address range for the NULL base
 of an empty slice

---
 src/gmr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..f5bd07c 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -481,7 +481,7 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
       const uint8_t   *base = mreg->slices[proc].base;
       const gmr_size_t size = mreg->slices[proc].size;
 
-      if ((uint8_t*) ptr >= base && (uint8_t*) ptr < base + size)
+      if (base != NULL && (uint8_t*) ptr >= base && (uint8_t*) ptr < base + size)
         break;
     }
 
-- 
2.43.0


From 3ffb754c6f289fe7c470efe8baaa703951f0ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 07/39] fix: direct strided transfers whose strides are not
 multiples of each other

The subarray built for such a patch truncated the quotient of the strides and
so described other bytes than the ones asked for.  Nest vectors instead.
---
 src/strided.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 79a8e6b..63e36dc 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -26,7 +26,7 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   int sizes   [stride_levels+1];
   int subsizes[stride_levels+1];
   int starts  [stride_levels+1];
-  int i, old_type_size;
+  int i, old_type_size, nested = 1;
 
   MPI_Type_size(old_type, &old_type_size);
 
@@ -42,6 +42,8 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
       /* This assertion is violated by what seems to be valid usage resulting from
        * the new GA API call nga_strided_get during the stride test in GA 5.2.
        * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
+      if (stride_array[i-1] == 0 || (stride_array[i] % stride_array[i-1]) != 0)
+        nested = 0;
     }
   }
 
@@ -53,6 +55,22 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
     MPI_Type_contiguous(elem_count, old_type, new_type);
   }
 
+  /* Transfer is non-contiguous and the strides do not nest, so it is not a subarray */
+  else if (!nested) {
+    MPI_Datatype inner, outer;
+
+    ARMCII_Assert((count[0] % old_type_size) == 0);
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, &inner);
+
+    for (i = 0; i < stride_levels; i++) {
+      MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint) stride_array[i], inner, &outer);
+      MPI_Type_free(&inner);
+      inner = outer;
+    }
+
+    *new_type = inner;
+  }
+
   /* Transfer is non-contiguous */
   else {
 
-- 
2.43.0


From 96e92a4a27bffcda6ac62dd5b44b4a7d035dfbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 08/39] fix: datatype IOV bounds check counts bytes, not
 elements

---
 src/vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 850633a..3e5681c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -306,7 +306,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -366,7 +367,7 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
     }
 
-- 
2.43.0


From 623a792e28cad787c02ca247c802de5b86bbc223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 09/39] fix: Fence and WaitProc skip allocations of groups the
 process is not in

ARMCI_Fence, ARMCI_WaitProc and the put-with-flag operations aborted while an
allocation was live on a group that does not contain the target process.
---
 src/onesided_nb.c | 4 +++-
 src/util.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index d63f909..f7b7da2 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -395,7 +395,9 @@ int PARMCI_WaitProc(int proc)
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 1); /* local only */
+    /* a group's allocation may not include proc */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
   return 0;
diff --git a/src/util.c b/src/util.c
index 2229c77..7a6b5e0 100644
--- a/src/util.c
+++ b/src/util.c
@@ -61,7 +61,9 @@ void PARMCI_Fence(int proc) {
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 0);
+    /* a group's allocation may not include proc */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
   return;
-- 
2.43.0


From 74214f98c2ec346bc7c0cff973378a572106d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 10/39] fix: vector transfers whose segments lie in several
 allocations

The conservative path looked up only the first segment's allocation, so a
transfer it was chosen for because it spans allocations aborted.
---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 3e5681c..80e26ea 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    if (consrv && i > 0) {
+      /* segments may belong to different allocations */
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From f6ba1893f2323a766fbb76c477f8367e33e4c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 11/39] fix: armci_msg_sel result lost when the record is in
 global memory

With ARMCI_SHR_BUF_METHOD=COPY the result was written to the original buffer
and then overwritten by the stale private copy.
---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..9c504d3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -426,7 +426,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
     MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
@@ -436,7 +436,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From f7538cc0f540729c67589c5c365b1941191c0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 12/39] fix: armci_msg_sel must not let MPI split the record

The record was reduced as a vector of MPI_BYTE with an operator that treats
its whole argument as one record.  MPI may apply a reduction operator to
segments of the vector (Open MPI does for records larger than a few KB).
---
 src/message.c | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/message.c b/src/message.c
index 9c504d3..348d502 100644
--- a/src/message.c
+++ b/src/message.c
@@ -299,13 +299,19 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
 /** Min operator for armci_msg_sel
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
+  int         size;
   sel_data_t *sd_1, *sd_2;
 
+  /* The reduction is of a single element, the record */
+  if (*len == 0) return;
+
+  MPI_Type_size(*datatype, &size);
+
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -318,19 +324,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -346,13 +352,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 /** Min operator for armci_msg_sel
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
+  int         size;
   sel_data_t *sd_1, *sd_2;
 
+  /* The reduction is of a single element, the record */
+  if (*len == 0) return;
+
+  MPI_Type_size(*datatype, &size);
+
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -365,19 +377,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -400,8 +412,9 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
 /** Collective index selection reduce operation (scoped).
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
-  MPI_Comm    sel_comm;
-  sel_data_t *data_in, *data_out;
+  MPI_Comm     sel_comm;
+  MPI_Datatype sel_type;
+  sel_data_t  *data_in, *data_out;
   void      **x_buf;
 
   /*
@@ -428,10 +441,15 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x_buf[0], data_in->data, n);
 
+  /* The record is one indivisible element: MPI may apply the operator to any
+   * partition of a vector of elements, but not to a part of an element. */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
@@ -440,6 +458,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
+  MPI_Type_free(&sel_type);
   free(data_in);
   free(data_out);
 }
-- 
2.43.0


From c4422617d7e154b6dacf690b1ef255e9b097f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 13/39] fix: receives must not overwrite the buffer beyond the
 message

With ARMCI_SHR_BUF_METHOD=COPY and a receive buffer in global memory the whole
uninitialized bounce buffer was copied back, not only the bytes received.
---
 src/message.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 348d502..7c177e7 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,18 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  /* Only the bytes that were received may reach the user's buffer */
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 }
 
 
@@ -223,14 +227,18 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  /* Only the bytes that were received may reach the user's buffer */
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From 20c7ab1b3ccebd28eb3061de53e0a159e78b7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 14/39] fix: armci_msg_bintree with SCOPE_NODE

The parent was not set, and the root was process 0 although every process is
alone on its node in this implementation.
---
 src/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 7c177e7..82f60ce 100644
--- a/src/message.c
+++ b/src/message.c
@@ -266,7 +266,8 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
   int me, nproc;
 
   if (scope == SCOPE_NODE) {
-    *root  = 0;
+    *root  = armci_msg_me();
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From bcdc225b834fdfb6aeea7076ced39bf633509166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 15/39] fix: absmin and absmax with SCOPE_NODE do not take
 absolute values

---
 src/message_gop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..6855bca 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -204,7 +204,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  if ((group->size == 1 || comm == MPI_COMM_SELF) && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From 63860c68ab836c5be27a575871d21631408a3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 16/39] fix: clamp integer settings that do not fit an int
 instead of truncating them

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 7a6b5e0..5531491 100644
--- a/src/util.c
+++ b/src/util.c
@@ -169,11 +169,11 @@ char *ARMCII_Getenv(const char *varname) {
 int ARMCII_Getenv_int(const char *varname, int default_value) {
   const char *var = getenv(varname);
   if (var) {
-    int value = atol(var);
+    long value = atol(var);
     /* clamp to the range of int, just in case */
     if (value > INT_MAX) value = INT_MAX;
     if (value < INT_MIN) value = INT_MIN;
-    return value;
+    return (int)value;
   } else {
     return default_value;
   }
-- 
2.43.0


From dbed6dc71b4e922de66959e1bec56aa58614d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 17/39] fix: stack overflow when looking for an Intel MPI
 version

---
 src/init_finalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 03edfae..685c3a7 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -149,7 +149,7 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
       char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
       for (int major = 2030; major >= 2000; major--) {
         for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
+          char version_string[8] = {0}; /* "YYYY.MM" and the terminator */
           sprintf(version_string,"%d.%d",major,minor);
           char * p = strstr(library_version,version_string);
           if (p != NULL) {
-- 
2.43.0


From d65fdfaa49d1db62ee842780eb8be6a3e9724767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 18/39] fix: progress thread naps of a second or more

---
 src/init_finalize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 685c3a7..42b1736 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -41,9 +41,10 @@ static void * progress_function(void * arg)
 {
     volatile int * active = (volatile int*)arg;
 #if defined(HAVE_NANOSLEEP)
-    int naptime = 1000 * ARMCII_GLOBAL_STATE.progress_usleep;
-    struct timespec napstruct = { .tv_sec  = 0,
-                                  .tv_nsec = naptime };
+    int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
+    /* tv_nsec must be less than one second */
+    struct timespec napstruct = { .tv_sec  = naptime / 1000000,
+                                  .tv_nsec = 1000L * (naptime % 1000000) };
 #elif defined(HAVE_USLEEP)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
 #endif
-- 
2.43.0


From b521559055b12a5d26329b058b191393f9ac2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 19/39] fix: range check for transfers to the calling process

---
 src/gmr.c         | 15 +++++++++++++++
 src/gmr.h         |  1 +
 src/onesided.c    |  2 ++
 src/onesided_nb.c |  2 ++
 4 files changed, 20 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index f5bd07c..cb3a866 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -891,6 +891,21 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
   return 0;
 }
 
+/** Check that a range of addresses lies inside the slice of the given process.
+  * Used by transfers that do not go through an RMA operation, which checks this itself.
+  *
+  * @param[in] mreg  Memory region that contains ptr
+  * @param[in] ptr   First address of the range
+  * @param[in] size  Length of the range in bytes
+  * @param[in] proc  Absolute process id
+  */
+void gmr_check_range(gmr_t *mreg, void *ptr, gmr_size_t size, int proc) {
+  gmr_size_t disp = (gmr_size_t) ((uint8_t*)ptr - (uint8_t*)mreg->slices[proc].base);
+
+  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
+  ARMCII_Assert_msg(disp + size <= mreg->slices[proc].size, "Transfer is out of range");
+}
+
 /** One-sided fetch-and-op.  Source and output buffer must be private.
   *
   * @param[in] mreg      Memory region
diff --git a/src/gmr.h b/src/gmr.h
index 602593b..dfee20d 100644
--- a/src/gmr.h
+++ b/src/gmr.h
@@ -45,6 +45,7 @@ int    gmr_destroy_all(void);
 gmr_t *gmr_lookup(void *ptr, int proc);
 
 // blocking
+void gmr_check_range(gmr_t *mreg, void *ptr, gmr_size_t size, int proc);
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst, MPI_Datatype type, MPI_Op op, int proc);
 
 // nonblocking
diff --git a/src/onesided.c b/src/onesided.c
index 490626a..998bb1e 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,7 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    gmr_check_range(src_mreg, src, size, target);
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +163,7 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    gmr_check_range(dst_mreg, dst, size, target);
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index f7b7da2..0a289a8 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -97,6 +97,7 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      gmr_check_range(dst_mreg, dst, size, target);
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -136,6 +137,7 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    gmr_check_range(src_mreg, src, size, target);
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From ca1321335579aa79c1ea91bec960546109ab4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 20/39] fix: range check of read-modify-write ignores the
 operand size

---
 src/gmr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index cb3a866..c5af90f 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -920,19 +920,21 @@ void gmr_check_range(gmr_t *mreg, void *ptr, gmr_size_t size, int proc) {
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 		MPI_Datatype type, MPI_Op op, int proc)
 {
-  int        grp_proc;
+  int        grp_proc, type_size;
   gmr_size_t disp;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   ARMCII_Assert(grp_proc >= 0);
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
 
+  MPI_Type_size(type, &type_size);
+
   /* built-in types only so no chance of seeing MPI_BOTTOM */
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + type_size <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 28caff47dab82af1affc3467f5bf6ea2922d3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 21/39] fix: noncollective group setting leaks from one
 initialization into the next

---
 src/init_finalize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 42b1736..27bf438 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -205,6 +205,8 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
 
 #ifdef ARMCI_GROUP
   ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#else
+  ARMCII_GLOBAL_STATE.noncollective_groups = 0;
 #endif
   if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
     ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-- 
2.43.0


From a0379c8b34223c9e24afbd8fa56befae9e803ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 22/39] fix: mutex numbers beyond the count of the mutex's
 process are not rejected

---
 src/armcix.h          |  1 +
 src/mutex_hdl_queue.c | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/armcix.h b/src/armcix.h
index f4a5ad5..d21a458 100644
--- a/src/armcix.h
+++ b/src/armcix.h
@@ -28,6 +28,7 @@ int ARMCIX_Group_dup(ARMCI_Group *parent, ARMCI_Group *new_group);
 struct armcix_mutex_hdl_s {
   int         my_count;
   int         max_count;
+  int        *counts;     /* Number of mutexes on each process of the group */
   ARMCI_Group grp;
   MPI_Win    *windows;
   uint8_t   **bases;
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index c5b9360..8346a6f 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -22,7 +22,7 @@
   * @return           Handle to the mutex group.
   */
 armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup) {
-  int rank, nproc, max_count, i;
+  int nproc, max_count, i;
   armcix_mutex_hdl_t hdl;
 
   hdl = malloc(sizeof(struct armcix_mutex_hdl_s));
@@ -30,13 +30,19 @@ armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup)
 
   ARMCIX_Group_dup(pgroup, &hdl->grp);
 
-  MPI_Comm_rank(hdl->grp.comm, &rank);
   MPI_Comm_size(hdl->grp.comm, &nproc);
 
   hdl->my_count = my_count;
 
+  /* Every process needs everyone's count to check mutex numbers. */
+  hdl->counts = malloc(sizeof(int)*nproc);
+  ARMCII_Assert(hdl->counts != NULL);
+  MPI_Allgather(&my_count, 1, MPI_INT, hdl->counts, 1, MPI_INT, hdl->grp.comm);
+
   /* Find the max. count to determine how many windows we need. */
-  MPI_Allreduce(&my_count, &max_count, 1, MPI_INT, MPI_MAX, hdl->grp.comm);
+  for (i = 1, max_count = hdl->counts[0]; i < nproc; i++)
+    if (hdl->counts[i] > max_count)
+      max_count = hdl->counts[i];
   ARMCII_Assert_msg(max_count > 0, "Invalid number of mutexes");
 
   hdl->max_count = max_count;
@@ -95,6 +101,7 @@ int ARMCIX_Destroy_mutexes_hdl(armcix_mutex_hdl_t hdl) {
 
   ARMCI_Group_free(&hdl->grp);
   free(hdl->windows);
+  free(hdl->counts);
   free(hdl);
 
   return 0;
@@ -119,6 +126,7 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   /* User gives us the absolute ID.  Translate to the rank in the mutex's group. */
   proc = ARMCII_Translate_absolute_to_group(&hdl->grp, world_proc);
   ARMCII_Assert(proc >= 0);
+  ARMCII_Assert(mutex < hdl->counts[proc]);
 
   buf = malloc(nproc*sizeof(uint8_t));
   ARMCII_Assert(buf != NULL);
@@ -193,6 +201,7 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
 
   proc = ARMCII_Translate_absolute_to_group(&hdl->grp, world_proc);
   ARMCII_Assert(proc >= 0);
+  ARMCII_Assert(mutex < hdl->counts[proc]);
 
   buf = malloc(nproc*sizeof(uint8_t));
 
-- 
2.43.0


From af3733e61b0496bcc9db09f382358c7dbac50e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 23/39] fix: profiling library crashes in finalize after
 ARMCI_Init_mpi_comm

---
 profiler/profiling.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index 4495cbb..f0889e8 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -365,6 +365,12 @@ int ARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
   return rc;
 }
 
+int ARMCI_Init_mpi_comm(MPI_Comm comm) {
+  const int rc = PARMCI_Init_mpi_comm(comm);
+  ARMCII_Profile_init();
+  return rc;
+}
+
 int ARMCI_Finalize(void) {
   ARMCII_Profile_dump(profiling_state.file);
   return PARMCI_Finalize();
-- 
2.43.0


From bb364f6c12a7f1d139225ef99a0d736d9a20d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 24/39] fix: profiling library does not count ARMCI_WaitProc

---
 profiler/profiling.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index f0889e8..210f26c 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -583,6 +583,14 @@ int ARMCI_WaitAll(void) {
   return rc;
 }
 
+int ARMCI_WaitProc(int proc) {
+  const double t0 = MPI_Wtime();
+  const int rc = PARMCI_WaitProc(proc);
+  const double t1 = MPI_Wtime();
+  ARMCII_Update_stats(&profiling_state.wait, t1-t0, 0);
+  return rc;
+}
+
 int ARMCI_NbPut(void *src, void *dst, int bytes, int proc, armci_hdl_t *hdl) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbPut(src, dst, bytes, proc, hdl);
-- 
2.43.0


From e18177f4fa35ffbb263b92292e6c96106fbe13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 25/39] fix: profiling library loses calls after an inner
 finalize and after re-initialization

---
 profiler/profiling.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index 210f26c..acd9d1d 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -9,6 +9,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <stdint.h>
 #include <inttypes.h>
 #include <float.h>
@@ -72,7 +73,8 @@ typedef struct
     ARMCII_Statistics_s nbacc;      // includes C/S/V
     FILE * file;
     int file_needs_closing;         // true if file is not stderr
-    int dump_has_happened;          // because ARMCI is finalized multiple times :-(
+    int init_count;                 // because ARMCI is initialized and finalized multiple times :-(
+    int dump_count;                 // profiles dumped by earlier init-finalize cycles
 }
 ARMCII_Profiling_s;
 
@@ -223,6 +225,15 @@ static void ARMCII_Profile_init(void)
     int me;
     MPI_Comm comm;
 
+    // nested initialization
+    if (profiling_state.init_count++ > 0) return;
+
+    // every init-finalize cycle has its own profile
+    const int dump_count = profiling_state.dump_count;
+    memset(&profiling_state, 0, sizeof(profiling_state));
+    profiling_state.init_count = 1;
+    profiling_state.dump_count = dump_count;
+
     ARMCIX_Get_world_comm(&comm);
     MPI_Comm_rank(comm, &me);
 
@@ -246,7 +257,7 @@ static void ARMCII_Profile_init(void)
         profiling_state.file_needs_closing = 0;
         const char * filename = getenv("ARMCI_PROFILE_OUTPUT");
         if (filename != NULL) {
-            FILE * tryfile = fopen(filename,"w");
+            FILE * tryfile = fopen(filename, dump_count > 0 ? "a" : "w");
             if (tryfile == NULL) {
                 profiling_state.file = stderr;
                 fprintf(stderr,"ARMCI_PROFILE_OUTPUT=%s could not be opened, using stderr instead\n", filename);
@@ -263,7 +274,8 @@ static void ARMCII_Profile_init(void)
 
 static void ARMCII_Profile_dump(FILE * f)
 {
-    if (profiling_state.dump_has_happened) return;
+    // only the outermost finalize ends the profile
+    if (profiling_state.init_count == 0 || --profiling_state.init_count > 0) return;
 
     int me;
     MPI_Comm comm;
@@ -336,7 +348,7 @@ static void ARMCII_Profile_dump(FILE * f)
         }
     }
 
-    profiling_state.dump_has_happened = 1;
+    profiling_state.dump_count++;
 }
 
 /*********************************************************/
-- 
2.43.0


From fbe85a4cc6d04a8685c20282aac1b5c980b01272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 26/39] fix: ARMCI_Free_memdev calls the interposable
 ARMCI_Free

---
 src/armci-memdev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armci-memdev.c b/src/armci-memdev.c
index 151129f..3f30794 100644
--- a/src/armci-memdev.c
+++ b/src/armci-memdev.c
@@ -44,5 +44,5 @@ int PARMCI_Malloc_group_memdev(void **ptr_arr, armci_size_t bytes, ARMCI_Group *
 /* -- end weak symbols block -- */
 int PARMCI_Free_memdev(void *ptr)
 {
-    return ARMCI_Free(ptr);
+    return PARMCI_Free(ptr);
 }
-- 
2.43.0


From a84f5d6ae20b5fa3aeb05520746ef42c2d5819ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 27/39] fix: profiling library counts only the first descriptor
 of vector transfers

---
 profiler/profiling.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index acd9d1d..8fbd380 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -142,9 +142,13 @@ static inline int64_t ARMCII_Strided_count(int count[], int stride_levels)
     return size;
 }
 
-static inline int64_t ARMCII_Vector_count(armci_giov_t * v)
+static inline int64_t ARMCII_Vector_count(armci_giov_t v[], int iov_len)
 {
-    return (v->bytes * v->ptr_array_len);
+    int64_t size = 0;
+    for (int i=0; i<iov_len; i++) {
+        size += (int64_t)v[i].bytes * v[i].ptr_array_len;
+    }
+    return size;
 }
 
 /*********************************************************/
@@ -548,7 +552,7 @@ int ARMCI_PutV(armci_giov_t *iov, int iov_len, int proc) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_PutV(iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.put, t1-t0, size);
   return rc;
 }
@@ -557,7 +561,7 @@ int ARMCI_GetV(armci_giov_t *iov, int iov_len, int proc) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_GetV(iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.get, t1-t0, size);
   return rc;
 }
@@ -566,7 +570,7 @@ int ARMCI_AccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int pr
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_AccV(datatype, scale, iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.acc, t1-t0, size);
   return rc;
 }
@@ -658,7 +662,7 @@ int ARMCI_NbPutV(armci_giov_t *iov, int iov_len, int proc, armci_hdl_t* handle)
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbPutV(iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbput, t1-t0, size);
   return rc;
 }
@@ -667,7 +671,7 @@ int ARMCI_NbGetV(armci_giov_t *iov, int iov_len, int proc, armci_hdl_t* handle)
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbGetV(iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbget, t1-t0, size);
   return rc;
 }
@@ -676,7 +680,7 @@ int ARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbAccV(datatype, scale, iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbacc, t1-t0, size);
   return rc;
 }
-- 
2.43.0


From 0e2da50a27550a85551eb1d4ccf9528a354ffe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 28/39] fix: ARMCIX_Progress and the progress thread do nothing
 without ARMCI_EXPLICIT_NB_PROGRESS

---
 src/util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 5531491..5df1054 100644
--- a/src/util.c
+++ b/src/util.c
@@ -206,7 +206,10 @@ void ARMCII_Getenv_char(char * output, const char *varname, const char *default_
 
 void ARMCIX_Progress(void)
 {
-    gmr_progress();
+    /* explicit requests for progress (and the progress thread) do not depend on
+     * ARMCI_EXPLICIT_NB_PROGRESS, which is only about nonblocking calls */
+    int flag;
+    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, ARMCI_GROUP_WORLD.comm, &flag, MPI_STATUS_IGNORE);
 }
 
 /** Determine if a window supports the unified memory model.
-- 
2.43.0


From 9fedaee6b96b2003aef63a171440abd341fb18f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 29/39] fix: negating the smallest int for
 ARMCI_PROGRESS_USLEEP

---
 src/init_finalize.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 27bf438..ec88243 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -2,6 +2,8 @@
  * Copyright (C) 2010. See COPYRIGHT in top-level directory.
  */
 
+#include <limits.h>
+
 #include <armci.h>
 #include <armci_internals.h>
 #include <debug.h>
@@ -279,7 +281,9 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     if (ARMCII_GLOBAL_STATE.progress_thread && (ARMCII_GLOBAL_STATE.progress_usleep < 0)) {
         ARMCII_Warning("ARMCI progress thread is not a time machine. (%d)\n",
                        ARMCII_GLOBAL_STATE.progress_usleep);
-        ARMCII_GLOBAL_STATE.progress_usleep = -ARMCII_GLOBAL_STATE.progress_usleep;
+        /* -INT_MIN is not an int */
+        ARMCII_GLOBAL_STATE.progress_usleep =
+            (ARMCII_GLOBAL_STATE.progress_usleep < -INT_MAX) ? INT_MAX : -ARMCII_GLOBAL_STATE.progress_usleep;
     }
 #endif /* HAVE_PTHREADS */
 #endif /* ENABLE_PROGRESS */
-- 
2.43.0


From 58a35cc707df8aaffd8c73fc8c4449cd82012d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 30/39] fix: the list of allocations is traversed without its
 lock under MPI_THREAD_MULTIPLE

---
 src/gmr.c         | 25 +++++++++++++++++++++++++
 src/gmr.h         |  3 +++
 src/onesided_nb.c | 14 ++++++++++++++
 src/util.c        | 14 ++++++++++++++
 4 files changed, 56 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index c5af90f..20afce0 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -16,6 +16,27 @@ gmr_t *gmr_list = NULL;
 static pthread_mutex_t gmr_list_mutex = PTHREAD_MUTEX_INITIALIZER;
 #endif
 
+/** Keep other threads from adding or removing regions while the list of
+  * regions is traversed.
+  */
+void gmr_list_lock(void) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
+void gmr_list_unlock(void) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_unlock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
 #ifdef USE_RMA_REQUESTS
 
 #if defined(OPEN_MPI) && defined(OMPI_MAJOR_VERSION) && (OMPI_MAJOR_VERSION >= 5)
@@ -471,6 +492,8 @@ int gmr_destroy_all(void) {
 gmr_t *gmr_lookup(void *ptr, int proc) {
   gmr_t *mreg;
 
+  gmr_list_lock();
+
   mreg = gmr_list;
 
   while (mreg != NULL) {
@@ -488,6 +511,8 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
     mreg = mreg->next;
   }
 
+  gmr_list_unlock();
+
   return mreg;
 }
 
diff --git a/src/gmr.h b/src/gmr.h
index dfee20d..04e28a3 100644
--- a/src/gmr.h
+++ b/src/gmr.h
@@ -39,6 +39,9 @@ typedef struct gmr_s {
 
 extern gmr_t *gmr_list;
 
+void   gmr_list_lock(void);
+void   gmr_list_unlock(void);
+
 gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group);
 void   gmr_destroy(gmr_t *mreg, ARMCI_Group *group);
 int    gmr_destroy_all(void);
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 0a289a8..bf43375 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -282,6 +282,8 @@ int PARMCI_Wait(armci_hdl_t* handle)
 
 #else
 
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   if(handle->aggregate > 0) {
@@ -298,6 +300,8 @@ int PARMCI_Wait(armci_hdl_t* handle)
     }
   }
 
+  gmr_list_unlock();
+
 #endif
 
   return 0;
@@ -394,6 +398,8 @@ int PARMCI_Test(armci_hdl_t* handle)
   */
 int PARMCI_WaitProc(int proc)
 {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
@@ -402,6 +408,9 @@ int PARMCI_WaitProc(int proc)
       gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return 0;
 }
 
@@ -420,12 +429,17 @@ int PARMCI_WaitProc(int proc)
   */
 int PARMCI_WaitAll(void)
 {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return 0;
 }
 
diff --git a/src/util.c b/src/util.c
index 5df1054..152af78 100644
--- a/src/util.c
+++ b/src/util.c
@@ -58,6 +58,8 @@ void PARMCI_Barrier(void) {
   * @param[in] proc Process to target
   */
 void PARMCI_Fence(int proc) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
@@ -66,6 +68,9 @@ void PARMCI_Fence(int proc) {
       gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return;
 }
 
@@ -83,12 +88,17 @@ void PARMCI_Fence(int proc) {
 /** Wait for remote completion on all one-sided operations.
   */
 void PARMCI_AllFence(void) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 0);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return;
 }
 
@@ -240,10 +250,14 @@ int ARMCII_Is_win_unified(MPI_Win win)
 /** Sync all windows
   */
 void ARMCII_Sync(void) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_sync(cur_mreg);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
 }
-- 
2.43.0


From 2f8dbedb1e0be523ca55c75746a8aa439865c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 31/39] fix: threads of one process deadlock when one waits for
 a mutex

---
 src/mutex.c           | 26 ++++++++++++++++----------
 src/mutex_hdl_queue.c |  7 +++++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mutex.c b/src/mutex.c
index ef0f533..8bb4b6c 100644
--- a/src/mutex.c
+++ b/src/mutex.c
@@ -134,11 +134,7 @@ void PARMCI_Lock(int mutex, int proc) {
   }
 #endif
 
-  if (armci_mutex_hdl == NULL) {
-    ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
-  }
-
-  ARMCIX_Lock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -146,6 +142,13 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  if (hdl == NULL) {
+    ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
+  }
+
+  /* Other threads must be able to unlock mutexes while this one waits */
+  ARMCIX_Lock_hdl(hdl, mutex, proc);
 }
 
 
@@ -173,11 +176,7 @@ void PARMCI_Unlock(int mutex, int proc) {
   }
 #endif
 
-  if (armci_mutex_hdl == NULL) {
-    ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
-  }
-
-  ARMCIX_Unlock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -185,4 +184,11 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  if (hdl == NULL) {
+    ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
+  }
+
+  /* Other threads must be able to lock and unlock mutexes while this one waits */
+  ARMCIX_Unlock_hdl(hdl, mutex, proc);
 }
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index 8346a6f..d723399 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -13,6 +13,9 @@
 
 #define ARMCI_MUTEX_TAG 100
 
+/* Threads of one process may wait for mutexes with the same number on different processes */
+#define ARMCI_MUTEX_TAG_FOR(MUTEX,PROC,NPROC) (ARMCI_MUTEX_TAG + (MUTEX)*(NPROC) + (PROC))
+
 /* TODO: Make these all no-ops for sequential runs */
 
 /** Create a group of ARMCI mutexes.  Collective onthe ARMCI group.
@@ -161,7 +164,7 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   if (already_locked) {
     MPI_Status status;
     ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "waiting for notification [proc = %d, mutex = %d]\n", proc, mutex);
-    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm, &status);
+    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, ARMCI_MUTEX_TAG_FOR(mutex,proc,nproc), hdl->grp.comm, &status);
   }
 
   ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "lock acquired [proc = %d, mutex = %d]\n", proc, mutex);
@@ -232,7 +235,7 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
     int p = (rank + i) % nproc;
     if (buf[p] == 1) {
       ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "notifying %d [proc = %d, mutex = %d]\n", p, proc, mutex);
-      MPI_Send(NULL, 0, MPI_BYTE, p, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm);
+      MPI_Send(NULL, 0, MPI_BYTE, p, ARMCI_MUTEX_TAG_FOR(mutex,proc,nproc), hdl->grp.comm);
       break;
     }
   }
-- 
2.43.0


From a45f352bbeb0ef06b44f2a2dd06a9de70f418005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 32/39] fix: data race on the progress thread's stop flag

---
 src/init_finalize.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index ec88243..22a4e64 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -36,12 +36,27 @@
 
 #endif
 
-int progress_active;
+static int progress_active;
+static pthread_mutex_t progress_active_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_t ARMCI_Progress_thread;
 
+static int progress_is_active(void)
+{
+    pthread_mutex_lock(&progress_active_mutex);
+    int active = progress_active;
+    pthread_mutex_unlock(&progress_active_mutex);
+    return active;
+}
+
+static void progress_set_active(int active)
+{
+    pthread_mutex_lock(&progress_active_mutex);
+    progress_active = active;
+    pthread_mutex_unlock(&progress_active_mutex);
+}
+
 static void * progress_function(void * arg)
 {
-    volatile int * active = (volatile int*)arg;
 #if defined(HAVE_NANOSLEEP)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
     /* tv_nsec must be less than one second */
@@ -51,7 +66,7 @@ static void * progress_function(void * arg)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
 #endif
 
-    while(*active) {
+    while(progress_is_active()) {
         ARMCIX_Progress();
 #if defined(HAVE_NANOSLEEP)
         if (naptime) nanosleep(&napstruct,NULL);
@@ -706,8 +721,8 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     /* Create the asynchronous progress thread */
     {
         if(ARMCII_GLOBAL_STATE.progress_thread) {
-            progress_active = 1;
-            int rc = pthread_create(&ARMCI_Progress_thread, NULL, &progress_function, &progress_active);
+            progress_set_active(1);
+            int rc = pthread_create(&ARMCI_Progress_thread, NULL, &progress_function, NULL);
             if (rc) {
                 ARMCII_Warning("ARMCI progress thread creation failed (%d).\n", rc);
             }
@@ -859,7 +874,7 @@ int PARMCI_Finalize(void) {
     /* Destroy the asynchronous progress thread */
     {
         if(ARMCII_GLOBAL_STATE.progress_thread) {
-            progress_active = 0;
+            progress_set_active(0);
             int rc = pthread_join(ARMCI_Progress_thread, NULL);
             if (rc) {
                 ARMCII_Warning("ARMCI progress thread join failed (%d).\n", rc);
-- 
2.43.0


From 01c3ff7b8450ffc2e1f59e5e8b05b5a6089da413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 33/39] fix: vector transfers to offsets beyond 2 GB with the
 datatype method

Element displacements were truncated to int, so a segment more than 2 GB
into a slice aborted and one more than 4 GB into it went to the wrong
place.  Issue the segments one by one when a displacement does not fit.
---
 src/vector.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 80e26ea..23ab375 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -353,8 +353,9 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
      *
      * indexed_block displacements are 32-bit element offsets.  For a scaled/guarded ACC each
      * origin segment is a separate MPI_Alloc_mem allocation (ARMCII_Buf_prepare_acc_vec) and
-     * can be arbitrarily far from the base, so assert the element offset fits in a 32-bit int
-     * rather than silently truncating it into a wild address. */
+     * can be arbitrarily far from the base, and a slice can be larger than 2 GB, so issue the
+     * segments one by one when an element offset does not fit in a 32-bit int rather than
+     * silently truncating it into a wild address. */
     base_loc_ptr = buf_loc[0];
     MPI_Get_address(buf_loc[0], &base_loc);
     for (i = 0; i < count; i++) {
@@ -363,18 +364,22 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     }
 
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
+      off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
       block_len[i] = elem_count;
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
-      ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+
+      if (off_loc > INT_MAX || off_rem > INT_MAX)
+        return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
+
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)off_rem;
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
-- 
2.43.0


From 00e32e2c8742e0210e78efb49c44bab212e57056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 34/39] fix: strided transfers that span more than 2 GB

The displacement of each contiguous chunk was computed in int.
---
 src/strided.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 63e36dc..6bdf7e4 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -3,6 +3,7 @@
  */
 
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -488,15 +489,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      ptrdiff_t disp_src = 0;
+      ptrdiff_t disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (ptrdiff_t)src_stride_ar[i]*idx[i];
+        disp_dst += (ptrdiff_t)dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From a8c29bf19392e43618470bdd9317c7b398000162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 35/39] fix: packing and unpacking more than 2 GB of strided
 data

The offset in the contiguous buffer was computed in int.
---
 src/strided.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 6bdf7e4..865e31e 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -702,7 +702,7 @@ void armci_write_strided(void *src, int stride_levels, int src_stride_arr[],
   ARMCII_Strided_to_iov(&iov, src, src_stride_arr, src, src_stride_arr, count, stride_levels);
 
   for (i = 0; i < iov.ptr_array_len; i++)
-    ARMCI_Copy(iov.src_ptr_array[i], dst + i*count[0], iov.bytes);
+    ARMCI_Copy(iov.src_ptr_array[i], dst + (ptrdiff_t)i*count[0], iov.bytes);
 
   free(iov.src_ptr_array);
   free(iov.dst_ptr_array);
@@ -727,7 +727,7 @@ void armci_read_strided(void *dst, int stride_levels, int dst_stride_arr[],
   ARMCII_Strided_to_iov(&iov, dst, dst_stride_arr, dst, dst_stride_arr, count, stride_levels);
 
   for (i = 0; i < iov.ptr_array_len; i++)
-    ARMCI_Copy(src + i*count[0], iov.dst_ptr_array[i], iov.bytes);
+    ARMCI_Copy(src + (ptrdiff_t)i*count[0], iov.dst_ptr_array[i], iov.bytes);
 
   free(iov.src_ptr_array);
   free(iov.dst_ptr_array);
-- 
2.43.0


From 4a13df4a897a765252a786bd8e782c20ce8c3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 36/39] fix: ARMCI_WaitProc is missing from builds without weak
 symbols

parmci.c provides the ARMCI names when weak symbols are not available or
disabled with --disable-weak-symbols, but had no wrapper for ARMCI_WaitProc,
so programs that use it could not be linked.
---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..776381b 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -177,6 +177,11 @@ int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_NbPut
 int ARMCI_NbPut(void *src, void *dst, int bytes, int proc, armci_hdl_t *hdl) {
   return PARMCI_NbPut(src, dst, bytes, proc, hdl);
-- 
2.43.0


From dcc9093bc9f6ad2ccde8f7b4e9bb04ac83269f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 37/39] fix: builds without progress support have no thread
 safety

Pthreads are detected by configure only as a part of the support for
asynchronous progress.  A library configured with --with-progress=no compiled
out the locks of the allocation list and of the mutex table while it still
accepted MPI_THREAD_MULTIPLE, so concurrent calls used freed allocations.
---
 src/armci_internals.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/armci_internals.h b/src/armci_internals.h
index 720fb4f..a8e0db7 100644
--- a/src/armci_internals.h
+++ b/src/armci_internals.h
@@ -24,6 +24,15 @@
 
 #include <mpi.h>
 
+/* configure looks for Pthreads only when asynchronous progress is enabled, but
+ * the locks that MPI_THREAD_MULTIPLE needs do not depend on the progress thread */
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif
+#if !defined(HAVE_PTHREADS) && defined(_POSIX_THREADS) && (_POSIX_THREADS > 0)
+#define HAVE_PTHREADS 1
+#endif
+
 #ifdef HAVE_PTHREADS
 #  include <pthread.h>
 #endif
-- 
2.43.0


From 02c2a920b5f37ce4cc656ca11250d5a0f78246a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:11 +0000
Subject: [PATCH 38/39] fix: compute the byte size of a reduction without int
 overflow

---
 src/armci_internals.h |  4 ++--
 src/buffer.c          |  9 +++++----
 src/message_gop.c     | 10 ++++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/armci_internals.h b/src/armci_internals.h
index a8e0db7..84f6601 100644
--- a/src/armci_internals.h
+++ b/src/armci_internals.h
@@ -232,13 +232,13 @@ int  ARMCII_Iov_iter_next(armcii_iov_iter_t *it, void **src, void **dst);
 
 /* Shared to private buffer management routines */
 
-int  ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size);
+int  ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int count, size_t size);
 void ARMCII_Buf_finish_read_vec(void **orig_bufs, void **new_bufs, int count, int size);
 int  ARMCII_Buf_prepare_acc_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size,
                             int datatype, void *scale);
 void ARMCII_Buf_finish_acc_vec(void **orig_bufs, void **new_bufs, int count, int size);
 int  ARMCII_Buf_prepare_write_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size);
-void ARMCII_Buf_finish_write_vec(void **orig_bufs, void **new_bufs, int count, int size);
+void ARMCII_Buf_finish_write_vec(void **orig_bufs, void **new_bufs, int count, size_t size);
 
 int  ARMCII_Buf_acc_is_scaled(int datatype, void *scale);
 void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, void *scale);
diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..55f3ebe 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -4,6 +4,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <math.h>
 #include <float.h>
 
@@ -23,7 +24,7 @@
   * @param[in]  size      The size of the buffers (all are of the same size).
   * @return               Number of buffers that were moved.
   */
-int ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size) {
+int ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int count, size_t size) {
   int num_moved = 0;
 
   if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD) {
@@ -42,7 +43,7 @@ int ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int coun
         MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);
         ARMCII_Assert(new_bufs[i] != NULL);
 
-        ARMCI_Copy(orig_bufs[i], new_bufs[i], size);
+        memcpy(new_bufs[i], orig_bufs[i], size);
         // gmr_get(mreg, orig_bufs[i], new_bufs[i], size, ARMCI_GROUP_WORLD.rank);
 
         num_moved++;
@@ -236,7 +237,7 @@ int ARMCII_Buf_prepare_write_vec(void **orig_bufs, void ***new_bufs_ptr, int cou
   * @param[in]  count     Number of entries in the buffer list.
   * @param[in]  size      The size of the buffers (all are of the same size).
   */
-void ARMCII_Buf_finish_write_vec(void **orig_bufs, void **new_bufs, int count, int size) {
+void ARMCII_Buf_finish_write_vec(void **orig_bufs, void **new_bufs, int count, size_t size) {
   if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD) {
     int i;
 
@@ -245,7 +246,7 @@ void ARMCII_Buf_finish_write_vec(void **orig_bufs, void **new_bufs, int count, i
         gmr_t *mreg = gmr_lookup(orig_bufs[i], ARMCI_GROUP_WORLD.rank);
         ARMCII_Assert(mreg != NULL);
 
-        ARMCI_Copy(new_bufs[i], orig_bufs[i], size);
+        memcpy(orig_bufs[i], new_bufs[i], size);
         // gmr_put(mreg, new_bufs[i], orig_bufs[i], size, ARMCI_GROUP_WORLD.rank);
 
         MPI_Free_mem(new_bufs[i]);
diff --git a/src/message_gop.c b/src/message_gop.c
index 6855bca..7a161ec 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -140,6 +140,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   MPI_Datatype mpi_type;
   MPI_Comm     comm;
   int          mpi_type_size;
+  size_t       nbytes;
 
   /* FIXME: scope argument presently ignored */
   if (scope == SCOPE_ALL || scope == SCOPE_MASTERS)
@@ -200,7 +201,8 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   MPI_Type_size(mpi_type, &mpi_type_size);
 
-  ARMCII_Buf_prepare_read_vec(&x, &x_buf, 1, n*mpi_type_size);
+  nbytes = (size_t)n*mpi_type_size;
+  ARMCII_Buf_prepare_read_vec(&x, &x_buf, 1, nbytes);
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
@@ -209,16 +211,16 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   }
 
   else {
-    out = malloc(n*mpi_type_size);
+    out = malloc(nbytes);
     ARMCII_Assert(out != NULL);
 
     MPI_Allreduce(x_buf[0], out, n, mpi_type, mpi_op, comm);
 
-    ARMCI_Copy(out, x_buf[0], n*mpi_type_size);
+    memcpy(x_buf[0], out, nbytes);
     free(out);
   }
 
-  ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n*mpi_type_size);
+  ARMCII_Buf_finish_write_vec(&x, x_buf, 1, nbytes);
 }
 
 void armci_msg_group_igop(int *x, int n, char *op, ARMCI_Group *group) {
-- 
2.43.0


From 207d1634db3a68987df096989ca0eb0a13263997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 39/39] fix: direct I/O vectors with many segments overflow the
 stack

---
 src/vector.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 23ab375..e4a75cc 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -305,10 +305,9 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
     gmr_t *mreg;
     MPI_Datatype  type_loc, type_rem;
-    int           disp_loc[count];
-    int           disp_rem[count];
-    int           block_len[count];
-    MPI_Aint      loc_addr[count];
+    int          *disp_loc;
+    int          *disp_rem;
+    MPI_Aint     *loc_addr;
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
@@ -356,6 +355,12 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
      * can be arbitrarily far from the base, and a slice can be larger than 2 GB, so issue the
      * segments one by one when an element offset does not fit in a 32-bit int rather than
      * silently truncating it into a wild address. */
+    /* The number of segments is up to the caller, too many for the stack. */
+    disp_loc = malloc(count*sizeof(int));
+    disp_rem = malloc(count*sizeof(int));
+    loc_addr = malloc(count*sizeof(MPI_Aint));
+    ARMCII_Assert(disp_loc != NULL && disp_rem != NULL && loc_addr != NULL);
+
     base_loc_ptr = buf_loc[0];
     MPI_Get_address(buf_loc[0], &base_loc);
     for (i = 0; i < count; i++) {
@@ -368,15 +373,18 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
       off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
-      block_len[i] = elem_count;
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
       ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)elem_count*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
 
-      if (off_loc > INT_MAX || off_rem > INT_MAX)
+      if (off_loc > INT_MAX || off_rem > INT_MAX) {
+        free(loc_addr);
+        free(disp_rem);
+        free(disp_loc);
         return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
+      }
 
       disp_loc[i]  = (int)off_loc;
       disp_rem[i]  = (int)off_rem;
@@ -418,6 +426,10 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       MPI_Type_free(&type_rem);
     }
 
+    free(loc_addr);
+    free(disp_rem);
+    free(disp_loc);
+
     if (blocking) {
       gmr_flush(mreg, proc, flush_local);
     }
-- 
2.43.0

