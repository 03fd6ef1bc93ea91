From 25c4f9620a150ef50fde1ed11f2cecce8d40ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 01/45] fix: hold the thread lock in nbtest while it edits the
 shared non-blocking handle lists

---
 global/src/onesided.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..27fca64 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -355,7 +355,11 @@ Integer _d, _factor;                                                           \
 
 Integer pnga_nbtest(Integer *nbhandle) 
 {
-    return !nga_test_internal((Integer *)nbhandle);
+    Integer done;
+    GA_Internal_Threadsafe_Lock();
+    done = !nga_test_internal((Integer *)nbhandle);
+    GA_Internal_Threadsafe_Unlock();
+    return done;
 } 
 
 /**
-- 
2.43.0


From df2db59e476579fdba849a8cbf441d997c00d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 02/45] fix: hold the thread lock while a read-cached get uses
 the shared cache

---
 global/src/onesided.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 27fca64..9bce796 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1170,6 +1170,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
     Integer nstart[MAXDIM], ncount[MAXDIM], nld[MAXDIM];
     Integer bstart[MAXDIM];
     /* ngai_get_common(g_a,lo,hi,buf,ld,0,-1,(Integer *)NULL); */
+    GA_Internal_Threadsafe_Lock();
 
     /* cache is empty condition */
     if (GA[handle].cache_head == NULL) {
@@ -1294,6 +1295,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
       cache_size++;
     }
     /* end */
+    GA_Internal_Threadsafe_Unlock();
   }
 }
 
-- 
2.43.0


From 7b84916231fb8da6a2fc3c8edbd068151ebd071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 03/45] fix: lock and unlock the mutex that was asked for

GA_Lock and GA_Unlock computed the owner and index from the number of
mutexes instead of the mutex number, so every GA mutex was one and the same
lock (holding one and taking another dead-locked), and the bound check let
negative numbers and the number of mutexes through.
---
 global/src/base.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..2a49cd7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5123,10 +5123,10 @@ void pnga_lock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
 
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Lock(m,p);
 }
@@ -5143,10 +5143,10 @@ void pnga_unlock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
    
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Unlock(m,p);
 }              
-- 
2.43.0


From 44da4916d9443f21b4de058bd3ca0f371644120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 04/45] fix: let polling a non-blocking handle complete it in
 the pt and mt ports

---
 comex/src-mpi-mt/comex.c | 22 ++++++++++++++++++++++
 comex/src-mpi-pt/comex.c | 22 ++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..36f59ca 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -954,6 +954,28 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the requests that have completed */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..6710734 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1360,6 +1360,28 @@ int comex_test(comex_request_t* hdl, int *status)
                 g_state.rank);
     }
 
+    /* retire the requests that have completed */
+    while (NULL != nb->send_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->send_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_send1(nb);
+    }
+    while (NULL != nb->recv_head) {
+        int flag = 0;
+        int retval = MPI_Test(&(nb->recv_head->request), &flag,
+                MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (!flag) {
+            break;
+        }
+        nb_wait_for_recv1(nb);
+    }
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
-- 
2.43.0


From 59043ccafd9272ad7ef25344742117685d32715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 05/45] fix: place block-cyclic data by processor-group rank on
 group arrays

A block-cyclic, ScaLAPACK or tiled array created on a processor group sized
and addressed its local storage with world ranks and the world size, while
its pointer table is indexed by group rank: any access on a proper subgroup
read past the table and crashed.
---
 global/src/base.c     | 20 ++++++++++----------
 global/src/iterator.c |  8 ++++----
 global/src/onesided.c |  9 +++++----
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 2a49cd7..63380b5 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2646,7 +2646,7 @@ logical pnga_allocate(Integer g_a)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -2659,7 +2659,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2688,7 +2688,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2718,7 +2718,7 @@ logical pnga_allocate(Integer g_a)
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2998,7 +2998,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -3011,7 +3011,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3029,7 +3029,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3048,7 +3048,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -4290,7 +4290,7 @@ void pnga_randomize(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
 /*
@@ -4389,7 +4389,7 @@ void pnga_fill(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
       case C_DCPL: 
diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..5d60ae0 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -502,7 +502,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
           hdl->offset += jtot;
           /* increment to next block */
-          hdl->iblock += pnga_nnodes();
+          hdl->iblock += pnga_pgroup_nnodes(grp);
           if (hdl->iblock >= blk_tot) {
             hdl->offset = 0;
             hdl->iproc++;
@@ -537,10 +537,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
 
         /* get pointer to data on remote block */
         pinv = idx%nproc;
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block idx */
@@ -550,7 +550,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         hdl->offset += jtot;
 
-        hdl->iblock += pnga_nnodes();
+        hdl->iblock += pnga_pgroup_nnodes(grp);
         if (hdl->iblock >= blk_tot) {
           hdl->iproc++;
           hdl->iblock = hdl->iproc;
@@ -694,10 +694,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         if (n_rstrctd > 0) {
           pinv = rstrctd_list[pinv];
         }
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block */
diff --git a/global/src/onesided.c b/global/src/onesided.c
index 9bce796..11ea14b 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1806,8 +1806,9 @@ void pnga_access_block_ptr(Integer g_a, Integer idx, void* ptr, Integer *ld)
 
   if (GA[handle].distr_type == BLOCK_CYCLIC) {
     offset = 0;
-    inode = index%GAnproc;
-    for (i=inode; i<index; i += GAnproc) {
+    Integer nproc = pnga_pgroup_nnodes(GA[handle].p_handle);
+    inode = index%nproc;
+    for (i=inode; i<index; i += nproc) {
       ga_ownsM(handle,i,lo,hi); 
       tsum = 1;
       for (j=0; j<ndim; j++) {
@@ -2317,7 +2318,7 @@ int rc=0;
     pnga_access_block_ptr(g_a, iproc, &ptr_ref, &ldp);
     pnga_release_block(g_a, iproc);
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer index[2];
       gam_find_block_indices(handle, proc, index);
@@ -4018,7 +4019,7 @@ void *pval;
     if(GAme == proc)GAbytes.rdiloc += (double)sizeof(Integer);
 
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer j, index[MAXDIM];
       gam_find_block_indices(handle, proc, index);
-- 
2.43.0


From df510513991fdf88e77ea48c02ca6c91cdd507d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 06/45] fix: address the owner once in strided transfers on
 group arrays

gai_iterator_next already returns a world rank; mapping it through the
group's table a second time sent the transfer to the wrong process.
---
 global/src/onesided.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 11ea14b..ff5b1fa 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4293,10 +4293,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4373,10 +4369,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4465,10 +4457,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 6b2070d20b70e567ff1dcd397bae79d5dfe117c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 07/45] fix: mark every updated process for GA_Fence

Scatter and strided put/accumulate did not record the processes they write
to (or recorded the group rank), so GA_Fence did not wait for them.
---
 global/src/onesided.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index ff5b1fa..b4461d0 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2361,11 +2361,11 @@ int rc=0;
   desc.dst_ptr_array = ptr_dst;
   desc.ptr_array_len = (int)nv;
 
-  if(GA_fence_set)fence_array[proc]=1;
-
   if (p_handle >= 0) {
     proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
   }
+
+  if(GA_fence_set)fence_array[proc]=1;
   if(alpha != NULL) {
     int optype=-1;
     if(type==C_DBL) optype= ARMCI_ACC_DBL;
@@ -2604,6 +2604,8 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
+
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2621,6 +2623,8 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
+
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2642,6 +2646,8 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
+
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2664,6 +2670,8 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
+
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -3561,6 +3569,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
             desc.src_ptr_array = ptr_loc;
             desc.dst_ptr_array = ptr_rem;
             desc.ptr_array_len = (int)nelems[iproc];
+            if(GA_fence_set) fence_array[tproc]=1;
             rc=ARMCI_PutV(&desc, 1, (int)tproc);
             if(rc) pnga_error("scatter failed in armci",rc);
             break;
@@ -3578,6 +3587,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
               else if(type==C_LONG)optype= ARMCI_ACC_LNG;
               else if(type==C_FLOAT)optype= ARMCI_ACC_FLT; 
               else pnga_error("type not supported",type);
+              if(GA_fence_set) fence_array[tproc]=1;
               rc= ARMCI_AccV(optype, alpha, &desc, 1, (int)tproc);
             }
             if(rc) pnga_error("scatter_acc failed in armci",rc);
@@ -4293,6 +4303,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4457,6 +4468,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 37830107ba42e4462f9a725a80c977ff79d26ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 08/45] fix: use the right rank numbering in ghost and
 restricted-array transfers on group arrays

pnga_get_ghost_block passed a group rank to ARMCI_GetS, the 55/5 ghost update
setups indexed group tables with world ranks, and gai_gatscat_new did not map
the process of a restricted array to its world rank.
---
 global/src/ghosts.c   | 12 +++---------
 global/src/onesided.c |  9 ++++-----
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..ce507d1 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -378,7 +378,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
@@ -2698,7 +2698,7 @@ logical pnga_update55_ghosts(Integer g_a)
 
       /* Get pointer to local data buffer and remote data
          buffer as well as lists of leading dimenstions */
-      gam_LocationWithGhosts(GAme, handle, plo_loc, &ptr_loc, ld_loc);
+      gam_LocationWithGhosts(me, handle, plo_loc, &ptr_loc, ld_loc);
       gam_LocationWithGhosts(proc_rem, handle, plo_rem, &ptr_rem, ld_rem);
 
       /* Evaluate strides on local and remote processors */
@@ -3398,9 +3398,6 @@ logical pnga_set_update5_info(Integer g_a)
             slo_rem, shi_rem, g_a);
 
         *proc_rem = (Integer)_ga_proclist[0];
-        if (p_handle >= 0) {
-          *proc_rem = PGRP_LIST[p_handle].inv_map_proc_list[*proc_rem];
-        }
 
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
         if(scope == 0 && ARMCI_Same_node(*proc_rem))
@@ -3464,9 +3461,6 @@ logical pnga_set_update5_info(Integer g_a)
             slo_rem, shi_rem, g_a);
 
         *proc_rem = (Integer)_ga_proclist[0];
-        if (p_handle >= 0) {
-          *proc_rem = PGRP_LIST[p_handle].inv_map_proc_list[*proc_rem];
-        }
 
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
         if(scope == 0 && ARMCI_Same_node(*proc_rem))
@@ -3501,7 +3495,7 @@ logical pnga_set_update5_info(Integer g_a)
         }
 
 
-        gam_LocationWithGhosts(GAme, handle, plo_loc, ptr_loc, ld_loc);
+        gam_LocationWithGhosts(me, handle, plo_loc, ptr_loc, ld_loc);
         gam_LocationWithGhosts(*proc_rem, handle, plo_rem, ptr_rem, ld_rem);
 
         gam_setstride(ndim, size, ld_loc, ld_rem, stride_rem,
diff --git a/global/src/onesided.c b/global/src/onesided.c
index b4461d0..3e3513a 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3548,11 +3548,10 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
         if (num_rstrctd > 0) {
           tproc = GA[handle].rstrctd_list[iproc];
         } else {
-          if (p_handle < 0) {
-            tproc = iproc;
-          } else {
-            tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
-          }
+          tproc = iproc;
+        }
+        if (p_handle >= 0) {
+          tproc = PGRP_LIST[p_handle].inv_map_proc_list[tproc];
         }
         /* perform vector operation */
         switch(op) { 
-- 
2.43.0


From 8e84dbf4dce56b4cbc921c261666d49c8e9a7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 09/45] fix: pnga_norm_infinity keeps the maximum over all
 local blocks

---
 global/src/matrix.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..7c47269 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -800,7 +800,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -808,17 +807,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -830,10 +824,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -845,14 +835,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
-- 
2.43.0


From 17d5b319e6a35a00347bfa91068b570ffcdad056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 10/45] fix: ga_zero_patch set the upper column bound of the
 patch

The Fortran entry point stored jhi into lo(2), losing jlo and leaving hi(2)
uninitialised.
---
 global/src/fapi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index b5c2cbf..5957d7e 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2641,7 +2641,7 @@ void FATR ga_zero_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo,
     Integer lo[2], hi[2];
 
     lo[0] = *ilo; lo[1] = *jlo;
-    hi[0] = *ihi; lo[1] = *jhi;
+    hi[0] = *ihi; hi[1] = *jhi;
     wnga_zero_patch(*g_a, lo, hi);
 }
 
-- 
2.43.0


From 0edb117c434a40b15fd7f04ed96e6465ed9ad4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 11/45] fix: NGA field transfers pass the leading dimensions
 unchanged

NGA_Put_field, NGA_Get_field and their non-blocking forms converted ld as if
it were an array index and used ld+1.
---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..c2ba2c2 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -5290,7 +5290,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5303,7 +5303,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5316,7 +5316,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5329,7 +5329,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
-- 
2.43.0


From 10c4d980dd94af057aee50d5a0d6c1d00a7c3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 12/45] fix: NGA_NbGet_ghost_dir pass the direction mask
 unchanged

The mask holds -1, 0 or 1 per dimension; it was converted as if it were an
array index, so every direction was shifted by one.
---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index c2ba2c2..99bca58 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1574,7 +1574,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1583,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
-- 
2.43.0


From 02a60f7405f6e22c475da35141f606fb1f72b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 13/45] fix: NGA_Access_ghost_element return the leading
 dimensions

ld is an output, but it was read as an input and never set.
---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 99bca58..193b86a 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld, ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld, ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
-- 
2.43.0


From 4abf3658c18aa6951ff01d1b62d26760eff7df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 14/45] fix: report the processor grid in C dimension order

GA_Get_proc_grid and NGA_Get_proc_grid returned the Fortran order, unlike
GA_Get_proc_index and the grid set with GA_Set_block_cyclic_proc_grid.
---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 193b86a..b438f3e 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2821,7 +2821,7 @@ void GA_Get_proc_grid(int g_a, int dims[])
      Integer ndim = wnga_ndim(a);
      Integer _ga_work[MAXDIM];
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims, ndim);  
 }
 
 void NGA_Get_proc_grid(int g_a, int dims[])
@@ -2830,7 +2830,7 @@ void NGA_Get_proc_grid(int g_a, int dims[])
      Integer _ga_work[MAXDIM];
      Integer ndim = wnga_ndim(a);
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims, ndim);  
 }
 
 void GA_Check_handle(int g_a, char* string)
-- 
2.43.0


From 8a0dbf1b36f6e5493a363dc9e9a648a0e1ef7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 15/45] fix: GA::PGroup::setDefault set the default group

It only replaced the cached handle, so collectives kept using the old default
group, and crashed when getDefault had not been called before.
---
 ga++/src/PGroup.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ga++/src/PGroup.cc b/ga++/src/PGroup.cc
index 8cf3ad4..30baeb7 100644
--- a/ga++/src/PGroup.cc
+++ b/ga++/src/PGroup.cc
@@ -85,7 +85,8 @@ GA::PGroup::self()
 void
 GA::PGroup::setDefault(GA::PGroup* p_handle) 
 {
-    pgDefault->mPHandle = p_handle->mPHandle;
+    GA_Pgroup_set_default(p_handle->mPHandle);
+    getDefault()->mPHandle = p_handle->mPHandle;
 }
 
 void
-- 
2.43.0


From 79e0f6ed6bfe1d42342d7b6887d43568b56edd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 16/45] fix: ga_iscale and its patch forms accept integer
 arrays

---
 global/src/fapi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index 5957d7e..d2e542f 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2423,7 +2423,7 @@ void FATR ga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2433,7 +2433,7 @@ void FATR ga_iscal_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2502,7 +2502,7 @@ void FATR nga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2929,7 +2929,7 @@ void FATR ga_iscal_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     sga_scale_patch(*g_a, ilo, ihi, jlo, jhi, alpha);
 }
@@ -2980,7 +2980,7 @@ void FATR nga_iscale_patch_(Integer *g_a, Integer *lo, Integer *hi, Integer *alp
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     wnga_scale_patch(*g_a, lo, hi, alpha);
 }
-- 
2.43.0


From 777a67f18d3c9174267a75d969728d2902aa60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 17/45] fix: local iteration stops on a process outside the
 grid of blocks

---
 global/src/iterator.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 5d60ae0..42adbf0 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -887,7 +887,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == SCALAPACK ||
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or no blocks at all on this process */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -905,7 +908,10 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == TILED_IRREG) {
     /* Irregular tiled data distribution */
     Integer offset = 0;
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or no blocks at all on this process */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From 78269a8d8d0ca79328311eda38f69da61ae36cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 18/45] fix: patch iteration visits only blocks that exist,
 starting from the first

---
 global/src/iterator.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 42adbf0..6294ac1 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -222,7 +222,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
@@ -471,6 +472,13 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* no blocks left on this process (it may not hold any), go to next */
+        while (hdl->iblock >= blk_tot) {
+          hdl->offset = 0;
+          hdl->iproc++;
+          hdl->iblock = hdl->iproc;
+          if (hdl->iproc >= nproc) return 0;
+        }
         /* get the block corresponding to the current value of iblock */
         idx = hdl->iblock;
         ga_ownsM(handle,idx,blo,bhi);
@@ -570,6 +578,24 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* no blocks on this process if it lies outside the grid of blocks in
+         * any dimension, go to next */
+        for (j=0; j<ndim; j++) {
+          if (hdl->index[j] >= GA[handle].num_blocks[j]) break;
+        }
+        if (j < ndim) {
+          hdl->iproc++;
+          if (hdl->iproc >= nproc) return 0;
+          hdl->offset = 0;
+          if (GA[handle].distr_type == SCALAPACK) {
+            gam_find_proc_indices(handle, hdl->iproc, hdl->proc_index);
+            gam_find_proc_indices(handle, hdl->iproc, hdl->index);
+          } else {
+            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
+            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
+          }
+          continue;
+        }
         /* get bounds for current block */
         if (GA[handle].distr_type == SCALAPACK ||
             GA[handle].distr_type == TILED) {
-- 
2.43.0


From 072324456acf1f7956cda6cf963eef38ddb15153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 19/45] fix: selection ignores the value of a process that does
 not contribute

---
 comex/src-armci/message.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..bee7caf 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
+#include <math.h>
 
 #include <mpi.h>
 
@@ -257,6 +259,9 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
     static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
+    int size;
+
+    MPI_Comm_size(comm, &size);
 
     if (SCOPE_NODE == scope) {
       if (_number_of_procs_per_node == 1) {
@@ -297,26 +302,35 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
+/* a process that does not contribute offers the worst value and a rank past
+ * all of the others, so that any contributor is preferred */
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, SMALLEST, LARGEST) \
     if (type == ARMCI_TYPE) {                                   \
         struct {                                                \
             C_TYPE val;                                         \
             int rank;                                           \
         } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
         in.rank = get_default_rank();                           \
+        if (contribute) {                                       \
+            in.val = *((C_TYPE*)x);                             \
+        } else {                                                \
+            in.val = (MPI_MAXLOC == mpi_op) ?                   \
+                (SMALLEST) : (LARGEST);                         \
+            in.rank += size;                                    \
+        }                                                       \
         if (SCOPE_NODE != scope) {                              \
             comex_barrier(ARMCI_Default_Proc_Group);            \
         }                                                       \
         MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
+        armci_msg_bcast(x, n, out.rank % size);                 \
     }                                                           \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_2INT, INT_MIN, INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT, LONG_MIN, LONG_MAX)
+    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT,
+            LLONG_MIN, LLONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT, -HUGE_VALF, HUGE_VALF)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT, -HUGE_VAL, HUGE_VAL)
     {
         comex_error("unsupported SELECT operation", 1);
     }
-- 
2.43.0


From d12c1e1d9ea9d4c9699781286209ad2f03895731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 20/45] fix: element selection restarts at the first element of
 each block

---
 global/src/select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/select.c b/global/src/select.c
index e287928..4cf6d6e 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -144,6 +144,7 @@ static void snga_select_elem(Integer type, char* op, void *ptr, Integer elems, e
                       Integer *ind)
 {
   Integer i;
+  *ind = 0; /* the scans below start from the first element */
   switch (type){
     int *ia,ival;
     double *da,dval;
-- 
2.43.0


From 1fc772d140804f53278792b5eaac49ef81083c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 21/45] fix: splitting a group into zero parts leaks the node
 list

---
 global/src/base.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 63380b5..3c4717e 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1414,11 +1414,11 @@ Integer pnga_pgroup_split(Integer grp, Integer grp_num)
   Integer *nodes;
   Integer grp_id, ret=-1;
 
-  /* Allocate temporary array */
-  nodes = (Integer*)malloc(GAnproc*sizeof(Integer));
-
   if(grp_num<0) pnga_error("Invalid argument (number of groups < 0)",grp_num);
   if(grp_num==0) return grp;
+
+  /* Allocate temporary array */
+  nodes = (Integer*)malloc(GAnproc*sizeof(Integer));
   
   default_grp = pnga_pgroup_get_default();
   pnga_pgroup_set_default(grp);
-- 
2.43.0


From cd5f70ae399ff05ab45adcaa56d5f18eab92f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 22/45] fix: load balancing heuristics leak their work arrays
 when an allocation fails

---
 global/src/decomp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/global/src/decomp.c b/global/src/decomp.c
index 96e7c86..b970706 100644
--- a/global/src/decomp.c
+++ b/global/src/decomp.c
@@ -163,12 +163,15 @@ void ddb(Integer ndims, Integer ardims[], Integer npes, Integer blk[],
        if(tblk==NULL) {
           fprintf(stderr,"ddb: Memory allocation failed\n");
           for(i=0;i<ndims;i++) pedims[i] = 0;
+          free( tardim );
           return;
        }
        tpedim = (Integer *) calloc((size_t)count,sizeof(Integer));
        if(tpedim==NULL) {
           fprintf(stderr,"ddb: Memory allocation failed\n");
           for(i=0;i<ndims;i++) pedims[i] = 0;
+          free( tblk );
+          free( tardim );
           return;
        }
 
@@ -256,6 +259,7 @@ void ddb_ex( long ndims, Integer ardims[], long npes, double threshold,
       if(tdims==NULL) {
          fprintf(stderr,"ddb_ex: Memory allocation failed\n");
          for(i=0;i<ndims;i++) blk[i] = 0;
+         free(tard);
          return;
       }
 
@@ -267,6 +271,7 @@ void ddb_ex( long ndims, Integer ardims[], long npes, double threshold,
          fprintf(stderr,"ddb_ex: Memory allocation failed\n");
          for(i=0;i<ndims;i++) blk[i] = 0;
          free(tard);
+         free(tdims);
          return;
       }
 
@@ -277,6 +282,7 @@ void ddb_ex( long ndims, Integer ardims[], long npes, double threshold,
              "memory allocation failed");
          for(i=0;i<ndims;i++) blk[i] = 0;
          free(tard);
+         free(tdims);
          free(pdivs);
          return;
       }
-- 
2.43.0


From 3385e9488488294e54bf2da063f78a479d9cdb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 23/45] fix: sparse array operations leak their distribution
 maps

---
 global/src/sketch.c       | 2 ++
 global/src/sparse.array.c | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 79dd477..248fdaf 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -373,6 +373,8 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   free(kweights);
   free(top);
   free(list);
+  free(size);
+  free(map);
   return g_a;
 }
 
diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9091eb4..a78c022 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1583,6 +1583,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   free(nblock);
   free(blkmap);
   free(blksize);
+  free(blkoffset);
   pnga_pgroup_sync(SPA[hdl].grp);
 }
 
@@ -3693,6 +3694,8 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     blocks[1] = 1;
   }
   pnga_set_irreg_distr(g_c,map,blocks);
+  free(map);
+  free(size);
   pnga_set_pgroup(g_c,SPA[hdl_a].grp);
   pnga_mask_sync(local_sync_begin,local_sync_end);
   if (!pnga_allocate(g_c)) {
@@ -4067,6 +4070,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     blocks[1] = 1;
   }
   pnga_set_irreg_distr(g_c,map,blocks);
+  free(map);
+  free(size);
   pnga_set_pgroup(g_c,SPA[hdl_b].grp);
   if (!pnga_allocate(g_c)) {
     pnga_error("(ga_sprs_array_sprsdns_multiply) could not allocate"
-- 
2.43.0


From 7455d4ff3d0606de5842e0fa1853fc573376e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 24/45] fix: pnga_bin_sorter leaks its element counts

---
 global/src/sparse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..4f29e95 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -888,6 +888,7 @@ Integer g_range;
             ptr+=elems;
         }
         pnga_release_update(g_bin, &lo, &hi);             
+        free(bin_cnt);
     }
 
     pnga_sync();
-- 
2.43.0


From 00f7ba537dbb5fbda5865f6f6a1e348e72c7af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 25/45] fix: EAF_Open keeps the memory block of a file it could
 not open

---
 pario/eaf/eaf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index eb8aa33..32d164a 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -175,8 +175,10 @@ int EAF_Open(const char *fname, int type, int *fd)
 	if ((i +1) > eafhack_openfiles) eafhack_openfiles++;
     /* MA hack: we pass   type = sizeof MA alloc in megabytes */
 	MA_get_pointer(handle, &ptr);
-    if (!(file[i].fname = strdup(fname)))
+    if (!(file[i].fname = strdup(fname))) {
+	MA_free_heap(handle);
 	return EAF_ERR_MEMORY;
+    }
       file[i].pointer=ptr;
       file[i].handle=handle;
       file[i].openma=1;
-- 
2.43.0


From 61fc457265f2d03014f4054a1f50302eeade99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 26/45] fix: group broadcast leaks two MPI groups per call

---
 comex/src-armci/message.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index bee7caf..715890a 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -761,6 +761,9 @@ void armci_msg_group_bcast_scope(int scope, void *buf, int len, int root, ARMCI_
         assert(MPI_SUCCESS == err);
         err = MPI_Group_translate_ranks(group_world, 1, &root,
                 group_sub, &root_sub);
+        assert(MPI_SUCCESS == err);
+        MPI_Group_free(&group_world);
+        MPI_Group_free(&group_sub);
         comex_barrier(*group);
         err = MPI_Bcast(buf, len, MPI_BYTE, root_sub, get_comm(group));
         assert(MPI_SUCCESS == err);
-- 
2.43.0


From 634de9da6d35885d018b61415094d0f68da1b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 27/45] fix: mpi-mt leaks the stride description of every
 packed put

---
 comex/src-mpi-mt/comex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 36f59ca..88e495c 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -1751,6 +1751,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     server_recv(packed_buffer, header->length, proc);
     unpack(packed_buffer, header->remote_address,
             stride->stride, stride->count, stride->stride_levels);
+    free(stride);
 
     if ((unsigned)header->length > COMEX_STATIC_BUFFER_SIZE) {
         free(packed_buffer);
-- 
2.43.0


From 2c89b36433b6930d6c4d88ebbd2f8e6866c27ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 28/45] fix: mpi-pt leaks an MPI datatype when it creates its
 semaphores

---
 comex/src-mpi-pt/comex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 6710734..487e140 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -2155,6 +2155,9 @@ void _malloc_semaphore()
     (void)memcpy(&names[SHM_NAME_SIZE*g_state.rank], name, SHM_NAME_SIZE);
     status = MPI_Allgather(MPI_IN_PLACE, 1, shm_name_type,
             names, 1, shm_name_type, g_state.comm);
+    COMEX_ASSERT(MPI_SUCCESS == status);
+    status = MPI_Type_free(&shm_name_type);
+    COMEX_ASSERT(MPI_SUCCESS == status);
 
     /* create/open remote semaphores and store in cache */
     for (i=0; i<g_state.size; ++i) {
-- 
2.43.0


From f9ec68b9e5942342d52019a7a92ed660d6083ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 29/45] fix: mpi3 leaks an MPI group in every one-sided
 operation

---
 comex/src-mpi3/comex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..fd4aafc 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -171,6 +171,7 @@ int get_local_rank_from_win(MPI_Win win, int world_rank, int *local_rank)
     translate_mpi_error(status,"get_local_rank_from_win:MPI_Group_translate_ranks");
     comex_error("MPI_Group_translate_ranks: Failed", status);
   }
+  MPI_Group_free(&group);
 
   return COMEX_SUCCESS;
 }
-- 
2.43.0


From da5c879aafb2c89a9e6ae0ea331c12a775d592b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 30/45] fix: mpi3 leaks the datatype descriptions of vector
 operations

---
 comex/src-mpi3/comex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index fd4aafc..f2be0e6 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -1434,6 +1434,9 @@ void vector_to_struct_dtype(void* src_ptr, void *dst_ptr, comex_giov_t *iov,
   ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"vector_to_struct_dtype:MPI_Type_create_struct");
+  free(blocklengths);
+  free(displacements);
+  free(types);
 #endif
 }
 
@@ -1818,6 +1821,9 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
   ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"create_vector_buf_and_dtypes:MPI_Type_create_struct");
+  free(blocklengths);
+  free(displacements);
+  free(types);
   return src_buf;
 }
 
-- 
2.43.0


From c99a17cdea47bf5f9cc7427d0db6967dbe3eb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 31/45] fix: mpi3 leaks its registration table in every
 collective allocation

---
 comex/src-mpi3/comex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index f2be0e6..f6934ee 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -3373,6 +3373,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
           reg_entries[i].win, igroup);
     }
     comex_igroup_add_win(group,reg_entries[comm_rank].win);
+    free(reg_entries);
 
     comex_wait_all(group);
     /* MPI_Win_fence(0,reg_entries[comm_rank].win); */
-- 
2.43.0


From a90896866719618c29565a78b71e362258c6b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 32/45] fix: pnga_update7_ghosts leaks its process list once
 per neighbour

---
 global/src/ghosts.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index ce507d1..6ac26f3 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -4161,6 +4161,11 @@ logical pnga_update7_ghosts(Integer g_a)
   ntot = 1;
   for (idx=0; idx < ndim; idx++) ntot *= 3;
 
+  _ga_map = malloc((GAnproc*2*MAXDIM+1)*sizeof(Integer));
+  if(!_ga_map) pnga_error("pnga_update7_ghosts:malloc failed (_ga_map)",0);
+  _ga_proclist = malloc(GAnproc*sizeof(Integer));
+  if(!_ga_proclist) pnga_error("pnga_update7_ghosts:malloc failed (_ga_proclist)",0);
+
   /* Loop over all GET operations. The operation corresponding to the
      mask of all zeros is left out. */
   for (ipx=0; ipx < ntot; ipx++) {
@@ -4212,11 +4217,6 @@ logical pnga_update7_ghosts(Integer g_a)
       }
     }
 
-    _ga_map = malloc((GAnproc*2*MAXDIM+1)*sizeof(Integer));
-    if(!_ga_map) pnga_error("pnga_update7_ghosts:malloc failed (_ga_map)",0);
-    _ga_proclist = malloc(GAnproc*sizeof(Integer));
-    if(!_ga_proclist) pnga_error("pnga_update7_ghosts:malloc failed (_ga_proclist)",0);
-
     /* Locate remote processor to which data must be sent */
     if (!pnga_locate_region(g_a, tlo_rem, thi_rem, _ga_map,
        _ga_proclist, &np)) ga_RegionError(pnga_ndim(g_a),
-- 
2.43.0


From 9669700501b248dc5392a43ff7031ecc66f482fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 33/45] fix: pnga_bin_sorter leaves its temporary array behind

---
 global/src/sparse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 4f29e95..657c646 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -892,6 +892,7 @@ Integer g_range;
     }
 
     pnga_sync();
+    pnga_destroy(g_range);
 }
 
 
-- 
2.43.0


From 89e661e420ffe84b3ce1e9afb96f9c481ae4683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 34/45] fix: the count sketch adds up row counts with the type
 they are kept in

The number of rows per process is an Integer, but was reduced as C_INT for
matrices with 32-bit indices, so that only half of the table was added up.
---
 global/src/sketch.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 248fdaf..81616af 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -127,11 +127,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   map = (Integer*)malloc((nprocs+1)*sizeof(Integer));
   for (i=0; i<nprocs; i++) size[i] = 0;
   size[me] = nrows;
-  if (idx_size == 4) {
-    pnga_pgroup_gop(SPA[hdl].grp,C_INT,size,nprocs,"+");
-  } else {
-    pnga_pgroup_gop(SPA[hdl].grp,C_LONG,size,nprocs,"+");
-  }
+  pnga_pgroup_gop(SPA[hdl].grp,pnga_type_f2c(MT_F_INT),size,nprocs,"+");
   map[0] = 1;
   for (i=1; i<nprocs; i++) {
     map[i] = map[i-1] + size[i-1];
-- 
2.43.0


From 56987276b4653cc162d0915805e6b4f9553f51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 35/45] fix: the non-zeros of a dense array are counted as one
 integer

The count is one Integer, but was reduced as nprocs elements of the array's
type, and was not returned.
---
 global/src/sketch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 81616af..dba345d 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -435,5 +435,6 @@ int pnga_sprs_array_num_nonzeros(Integer g_a)
       if (dptr[2*i] != 0.0 || dptr[2*i+1] != 0.0) cnt++;
     }
   }
-  pnga_pgroup_gop(GA[handle].p_handle,type,&cnt,nprocs,"+");
+  pnga_pgroup_gop(GA[handle].p_handle,pnga_type_f2c(MT_F_INT),&cnt,1,"+");
+  return (int)cnt;
 }
-- 
2.43.0


From 03152b4bcd7fc990fcb88ad18327b13e27bff591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 36/45] fix: locating an element outside a block-cyclic array
 fails

The subscripts were compared with the dimensions for regular distributions
only; for the others an owner was made up.
---
 global/src/base.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3c4717e..eaedcf9 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -796,10 +796,10 @@ Integer d, proc, dpos, ndim, ga_handle = GA_OFFSET + g_a, proc_s[MAXDIM];
    ga_check_handleM(g_a, "nga_locate");
    ndim = GA[ga_handle].ndim;
 
-   if (GA[ga_handle].distr_type == REGULAR) {
-     for(d=0, *owner=-1; d< ndim; d++) 
-       if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
+   for(d=0, *owner=-1; d< ndim; d++) 
+     if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
 
+   if (GA[ga_handle].distr_type == REGULAR) {
      for(d = 0, dpos = 0; d< ndim; d++){
        findblock(GA[ga_handle].mapc + dpos, GA[ga_handle].nblock[d],
            GA[ga_handle].scale[d], subscript[d], &proc_s[d]);
-- 
2.43.0


From 7a62a1d42d59a09afc910d840090f53043eaa4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 37/45] fix: a region outside a block-cyclic array is refused

The patch iterator checked the region for regular distributions only; for
the others the part outside of the array was silently left out.
---
 global/src/iterator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 6294ac1..61a2d3d 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -193,6 +193,10 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   int grp = GA[handle].p_handle;
   int nproc = pnga_pgroup_nnodes(grp);
   Integer i;
+  for (i=0; i<ndim; i++) {
+    if (lo[i] < 1 || hi[i] > GA[handle].dims[i] || lo[i] > hi[i])
+      ga_RegionError(pnga_ndim(g_a), lo, hi, g_a);
+  }
   hdl->g_a = g_a;
   hdl->count = 0;
   hdl->oversize = 0;
-- 
2.43.0


From 1cc9da408c97436ed7f6229db545316064bb4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 38/45] fix: a fetch-and-increment outside the array is refused

The owner found for an invalid subscript is -1; it was used as an index
and as the target of the remote operation.
---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3e3513a..a4e6b42 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3991,7 +3991,8 @@ void *pval;
     ndim = GA[handle].ndim;
 
     /* find out who owns it */
-    pnga_locate(g_a, subscript, &proc);
+    if (!pnga_locate(g_a, subscript, &proc))
+       pnga_error("nga_read_inc: invalid subscript",g_a);
 
     /* get an address of the g_a(subscript) element */
     if (GA[handle].distr_type == REGULAR) {
-- 
2.43.0


From 6a615e8b632367a48cad806c929295f86c5d1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 39/45] fix: the C interface reports no owners for a region
 outside the array

NGA_Locate_region and NGA_Locate_nnodes went on with a number of processes
that had not been set.
---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b438f3e..26c4ad5 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2635,8 +2635,7 @@ int NGA_Locate_nnodes(int g_a, int lo[], int hi[])
 
      COPYINDEX_C2F(lo,_ga_lo,ndim);
      COPYINDEX_C2F(hi,_ga_hi,ndim);
-     /* st = wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np); */
-     (void)wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np);
+     if (!wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np)) return 0;
      return (int)np;
 }
 
@@ -2650,8 +2649,7 @@ int NGA_Locate_nnodes64(int g_a, int64_t lo[], int64_t hi[])
 
      COPYINDEX_C2F(lo,_ga_lo,ndim);
      COPYINDEX_C2F(hi,_ga_hi,ndim);
-     /* st = wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np); */
-     (void)wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np);
+     if (!wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np)) return 0;
      return (int)np;
 }
 
@@ -2668,6 +2666,7 @@ int NGA_Locate_region(int g_a,int lo[],int hi[],int map[],int procs[])
      COPYINDEX_C2F(lo,_ga_lo,ndim);
      COPYINDEX_C2F(hi,_ga_hi,ndim);
      st = wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np_guess);
+     if(st==FALSE) return 0;
      tmap = (Integer *)malloc( (int)(np_guess*2*ndim *sizeof(Integer)));
      if(!map)GA_Error("NGA_Locate_region: unable to allocate memory",g_a);
      _ga_map_capi = (Integer*)malloc(np_guess*sizeof(Integer));
@@ -2706,6 +2705,7 @@ int NGA_Locate_region64(int g_a,int64_t lo[],int64_t hi[],int64_t map[],int proc
      COPYINDEX_C2F(lo,_ga_lo,ndim);
      COPYINDEX_C2F(hi,_ga_hi,ndim);
      st = wnga_locate_nnodes(a, _ga_lo, _ga_hi, &np_guess);
+     if(st==FALSE) return 0;
      tmap = (Integer *)malloc( (int)(np_guess*2*ndim *sizeof(Integer)));
      if(!map)GA_Error("NGA_Locate_region: unable to allocate memory",g_a);
      _ga_map_capi = (Integer*)malloc(np_guess*sizeof(Integer));
-- 
2.43.0


From 46bcbd29717e4bc08eef472fdd1c52e523669f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 40/45] fix: destroying a process group twice frees it twice

---
 global/src/base.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index eaedcf9..9c2257b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1336,6 +1336,7 @@ logical pnga_pgroup_destroy(Integer grp_id)
 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
 
+  if (PGRP_LIST[grp_id].actv == 0) return FALSE;
 #ifdef MSG_COMMS_MPI
        ARMCI_Group_free(&PGRP_LIST[grp_id].group);
 #endif
@@ -1350,9 +1351,6 @@ logical pnga_pgroup_destroy(Integer grp_id)
   }while(i<_max_global_array && ok);
   if (!ok) pnga_error("Attempt to destroy process group with attached GAs",grp_id);
   
-  if (PGRP_LIST[grp_id].actv == 0) {
-    ret = FALSE;
-  }
   PGRP_LIST[grp_id].actv = 0;
 
   /* Deallocate memory for lists */
-- 
2.43.0


From e180fc1bf9e4ad05952013b124a67b522335edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 41/45] fix: destroying a read-only array uses its group after
 destroying it

---
 global/src/base.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 9c2257b..a0d6f9e 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3959,6 +3959,7 @@ logical pnga_destroy(Integer g_a)
 {
 Integer ga_handle = GA_OFFSET + g_a, grp_id, grp_me=GAme;
 int local_sync_begin,local_sync_end;
+int read_only;
 
     local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -4016,12 +4017,14 @@ int local_sync_begin,local_sync_end;
     }
     GA[ga_handle].cache_head = NULL;
 
-    if (GA[ga_handle].property == READ_ONLY) {
+    read_only = (GA[ga_handle].property == READ_ONLY);
+    if (read_only) {
       free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
+      GA[ga_handle].old_mapc = NULL;
     }
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
+       if (read_only) pnga_pgroup_destroy(grp_id);
        return TRUE;
     } 
     if (!GA[ga_handle].overlay) {
@@ -4055,6 +4058,8 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* the memory and the sync above still need the group */
+    if (read_only) pnga_pgroup_destroy(grp_id);
     return(TRUE);
 }
 
-- 
2.43.0


From f5da58fc9b8cb97a1c5866d21b87f466a473fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 42/45] fix: an array that is not allocated can be destroyed

---
 global/src/base.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index a0d6f9e..f260a16 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3959,7 +3959,7 @@ logical pnga_destroy(Integer g_a)
 {
 Integer ga_handle = GA_OFFSET + g_a, grp_id, grp_me=GAme;
 int local_sync_begin,local_sync_end;
-int read_only;
+int read_only, has_memory;
 
     local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -3970,13 +3970,15 @@ int read_only;
     else grp_me=GAme;
     
     GAstat.numdes ++; /*regardless of array status we count this call */
-    /* fails if handle is out of range or array not active */
+    /* fails if handle is out of range or not in use; an array without memory
+     * (not allocated yet, or deallocated) still has a handle to give back */
     if(ga_handle < 0 || ga_handle >= _max_global_array){
        return FALSE;
     }
-    if(GA[ga_handle].actv==0){
+    if(GA[ga_handle].actv==0 && GA[ga_handle].actv_handle==0){
        return FALSE;
     }
+    has_memory = GA[ga_handle].actv;
     if (GA[ga_handle].cache)
       free(GA[ga_handle].cache);
     GA[ga_handle].cache = NULL;
@@ -4023,7 +4025,7 @@ int read_only;
       GA[ga_handle].old_mapc = NULL;
     }
 
-    if(GA[ga_handle].ptr[grp_me]==NULL){
+    if(!has_memory || GA[ga_handle].ptr[grp_me]==NULL){
        if (read_only) pnga_pgroup_destroy(grp_id);
        return TRUE;
     } 
-- 
2.43.0


From ea3e0c0a763e860b6896b5f8880ec96cd2d3a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 43/45] fix: unsetting the read_cache property leaves it set

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index f260a16..0ba793e 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2480,6 +2480,7 @@ void pnga_unset_property(Integer g_a) {
     }
     pnga_destroy(g_tmp);
   } else if (GA[ga_handle].property == READ_CACHE) {
+    GA[ga_handle].property = NO_PROPERTY;
     if (GA[ga_handle].cache_head != NULL) {
       cache_struct_t *next;
       next = GA[ga_handle].cache_head->next;
-- 
2.43.0


From 84f5adc69e96c881db69a2d165e3f37552d7c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 44/45] fix: setting the read_only property resets the default
 group

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 0ba793e..c27bf01 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2286,6 +2286,7 @@ void pnga_set_property(Integer g_a, char* property) {
 #endif
     }
     pnga_destroy(g_tmp);
+    pnga_pgroup_set_default(dflt_grp);
   } else if (strcmp(property, "read_cache") == 0) {
     GA[ga_handle].property = READ_CACHE;
     GA[ga_handle].cache_head = NULL; /* (cache_struct_t *)malloc(sizeof(cache_struct_t)) */
-- 
2.43.0


From 088183c1ab0668256f23f29509fe282142b8f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 45/45] fix: a reused array handle keeps the memory device of
 its previous owner

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index c27bf01..a274507 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1557,6 +1557,8 @@ Integer pnga_create_handle()
   GA[ga_handle].actv_handle = 1;
   GA[ga_handle].has_data = 1;
   GA[ga_handle].property = NO_PROPERTY;
+  GA[ga_handle].mem_dev_set = 0;
+  GA[ga_handle].overlay = 0;
   return g_a;
 }
 
-- 
2.43.0

