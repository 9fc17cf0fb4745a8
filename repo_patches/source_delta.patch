From 557908b26d9010b71b459d418376128fa57c06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 001/151] fix: block-cyclic arrays on processor groups use
 group ranks

Allocation, one-sided access and block access of block-cyclic, ScaLAPACK
and tiled arrays created on a processor subgroup sized and addressed the
local blocks with world ranks instead of group ranks.
---
 global/src/base.c     | 26 +++++++++++++-------------
 global/src/iterator.c |  8 ++++----
 global/src/onesided.c |  9 +++++----
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..626d1c7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2646,7 +2646,7 @@ logical pnga_allocate(Integer g_a)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -2659,7 +2659,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2688,7 +2688,7 @@ logical pnga_allocate(Integer g_a)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2718,7 +2718,7 @@ logical pnga_allocate(Integer g_a)
     Integer j, jtot, skip, imin, imax, tot;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     tot = 1;
     for (i=0; i<GA[ga_handle].ndim; i++) {
@@ -2998,7 +2998,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer tsize, j;
     Integer lo[MAXDIM];
     block_size = 0;
-    for (i=GAme; i<nblocks; i +=GAnproc) {
+    for (i=grp_me; i<nblocks; i +=grp_nproc) {
       ga_ownsM(ga_handle,i,lo,hi);
       tsize = 1;
       for (j=0; j<ndim; j++) {
@@ -3011,7 +3011,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_proc_indices(ga_handle,GAme,index);
+    gam_find_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3029,7 +3029,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
        out how much memory is needed by each processor to store blocks */
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -3048,7 +3048,7 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     Integer j, jtot, skip, imin, imax;
     Integer index[MAXDIM];
     Integer offset = 0;
-    gam_find_tile_proc_indices(ga_handle,GAme,index);
+    gam_find_tile_proc_indices(ga_handle,grp_me,index);
     block_size = 1;
     for (i=0; i<ndim; i++) {
       skip = GA[ga_handle].nblock[i];
@@ -4290,7 +4290,7 @@ void pnga_randomize(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
 /*
@@ -4319,7 +4319,7 @@ void pnga_randomize(Integer g_a, void* val)
       default:
         pnga_error("type not supported",GA[handle].type);
     }
-    pnga_release_block_segment(g_a,GAme);
+    pnga_release_block_segment(g_a,pnga_pgroup_nodeid(grp_id));
   }
 
   if(local_sync_end)pnga_pgroup_sync(grp_id);
@@ -4389,7 +4389,7 @@ void pnga_fill(Integer g_a, void* val)
     }
   } else {
     Integer I_elems = (Integer)elems;
-    pnga_access_block_segment_ptr(g_a,GAme,&ptr,&I_elems);
+    pnga_access_block_segment_ptr(g_a,pnga_pgroup_nodeid(grp_id),&ptr,&I_elems);
     elems = (C_Long)I_elems;
     switch (GA[handle].type){
       case C_DCPL: 
@@ -4416,7 +4416,7 @@ void pnga_fill(Integer g_a, void* val)
       default:
         pnga_error("type not supported",GA[handle].type);
     }
-    pnga_release_block_segment(g_a,GAme);
+    pnga_release_block_segment(g_a,pnga_pgroup_nodeid(grp_id));
   }
 
   if(local_sync_end)pnga_pgroup_sync(grp_id);
@@ -4535,7 +4535,7 @@ static void gai_get_proc_from_block_index_(Integer g_a, Integer *index, Integer
        *proc *= ld;
        *proc += index[i];
     }
-    *proc = *proc%pnga_nnodes();
+    *proc = *proc%pnga_pgroup_nnodes((Integer)GA[ga_handle].p_handle);
   }
 }
 #endif
diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..eeb0822 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -502,7 +502,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
           hdl->offset += jtot;
           /* increment to next block */
-          hdl->iblock += pnga_nnodes();
+          hdl->iblock += nproc;
           if (hdl->iblock >= blk_tot) {
             hdl->offset = 0;
             hdl->iproc++;
@@ -537,10 +537,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
 
         /* get pointer to data on remote block */
         pinv = idx%nproc;
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block idx */
@@ -550,7 +550,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         hdl->offset += jtot;
 
-        hdl->iblock += pnga_nnodes();
+        hdl->iblock += nproc;
         if (hdl->iblock >= blk_tot) {
           hdl->iproc++;
           hdl->iblock = hdl->iproc;
@@ -694,10 +694,10 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         if (n_rstrctd > 0) {
           pinv = rstrctd_list[pinv];
         }
+        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         if (p_handle > 0) {
           pinv = PGRP_LIST[p_handle].inv_map_proc_list[pinv];
         }
-        *prem =  GA[handle].ptr[pinv]+l_offset*GA[handle].elemsize;
         *proc = pinv;
 
         /* evaluate new offset for block */
diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..b99c676 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1800,8 +1800,9 @@ void pnga_access_block_ptr(Integer g_a, Integer idx, void* ptr, Integer *ld)
 
   if (GA[handle].distr_type == BLOCK_CYCLIC) {
     offset = 0;
-    inode = index%GAnproc;
-    for (i=inode; i<index; i += GAnproc) {
+    Integer nproc = pnga_pgroup_nnodes((Integer)GA[handle].p_handle);
+    inode = index%nproc;
+    for (i=inode; i<index; i += nproc) {
       ga_ownsM(handle,i,lo,hi); 
       tsum = 1;
       for (j=0; j<ndim; j++) {
@@ -2311,7 +2312,7 @@ int rc=0;
     pnga_access_block_ptr(g_a, iproc, &ptr_ref, &ldp);
     pnga_release_block(g_a, iproc);
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes((Integer)GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer index[2];
       gam_find_block_indices(handle, proc, index);
@@ -4012,7 +4013,7 @@ void *pval;
     if(GAme == proc)GAbytes.rdiloc += (double)sizeof(Integer);
 
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes((Integer)GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer j, index[MAXDIM];
       gam_find_block_indices(handle, proc, index);
-- 
2.43.0


From f8aa7cad2bb77138e8d94b2b00c1dbe33b71a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 002/151] fix: block-cyclic iterator skips processors that hold
 no blocks

With a processor grid larger than the number of blocks along a dimension
(or fewer blocks than processors) the iterator returned blocks that do
not exist.
---
 global/src/iterator.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index eeb0822..525194a 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -464,7 +464,9 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
     int check1, check2;
     if (n_rstrctd > 0) nproc = n_rstrctd;
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      /* Simple block-cyclic distribution */
+      /* Simple block-cyclic distribution. Processors with rank blk_tot or
+       * higher do not hold any blocks */
+      if (nproc > blk_tot) nproc = blk_tot;
       if (hdl->iproc >= nproc) return 0;
       /*if (hdl->iproc == nproc-1 && hdl->iblock >= blk_tot) return 0;*/
       if (hdl->iblock == hdl->iproc) hdl->offset = 0;
@@ -570,8 +572,19 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* a processor may hold no blocks at all if the processor grid is
+         * larger than the number of blocks along some dimension */
+        int has_block = 1;
+        for (j = 0; j < ndim; j++) {
+          if (hdl->index[j] >= GA[handle].num_blocks[j]) has_block = 0;
+        }
         /* get bounds for current block */
-        if (GA[handle].distr_type == SCALAPACK ||
+        if (!has_block) {
+          for (j = 0; j < ndim; j++) {
+            blo[j] = 1;
+            bhi[j] = 0;
+          }
+        } else if (GA[handle].distr_type == SCALAPACK ||
             GA[handle].distr_type == TILED) {
           for (j = 0; j < ndim; j++) {
             blo[j] = hdl->blk_size[j]*(hdl->index[j])+1;
@@ -592,7 +605,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         /* check to see if this block overlaps with requested block
          * defined by lo and hi */
-        chk = 1;
+        chk = has_block;
         for (j=0; j<ndim; j++) {
           /* check to see if at least one end point of the interval
            * represented by blo and bhi falls in the interval
@@ -612,7 +625,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         
         if (!chk) {
           /* update offset for block */
-          itmp = 1;
+          itmp = has_block;
           for (j=0; j<ndim; j++) {
             itmp *= bhi[j]-blo[j]+1;
           }
-- 
2.43.0


From 54857175bae371df028ba39093ec46a984bc716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 003/151] fix: periodic patches more than one period below the
 array are shifted upwards

---
 global/src/global.periodic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..7914ecd 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -99,7 +99,7 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
       }
       if (hi[i] < 1) {
         rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
+        id = -(hi[i]+rmndr)/dims[i]+1; 
         lo[i] = lo[i] + id*dims[i];
         hi[i] = hi[i] + id*dims[i];
         if (id != 0) {
-- 
2.43.0


From ffbe76fc59d08476d5df3b7c1815f101eb551877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 004/151] fix: strided put, get and accumulate on processor
 groups map the process once

---
 global/src/onesided.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index b99c676..5be81a0 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4287,10 +4287,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4367,10 +4363,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4459,10 +4451,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From c32378fc38441042467c1175cdf18c1f69596537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 005/151] fix: field transfers take the leading dimensions as
 given

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..c2ba2c2 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -5290,7 +5290,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5303,7 +5303,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5316,7 +5316,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5329,7 +5329,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
-- 
2.43.0


From 6ae73125fea4ad8ad7eb9b85a19ca442822e34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 006/151] fix: 64-bit scatter, gather and scatter-accumulate
 convert their subscripts

---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index c2ba2c2..8b69870 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From 24387062edb2fe51098312ac30f7d1acaec0827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 007/151] fix: block offsets in tiled arrays for processor
 grids other than 2

---
 global/src/onesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 5be81a0..df2df4c 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1679,9 +1679,9 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
       lo = 0;
       hi = -1;
       */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      if ((num_blocks[i]-proc_index[i]-1)%proc_grid[i] == 0) {
         if (dims[i]%block_dims[i] != 0) {
           lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
         } else {
-- 
2.43.0


From e8a6ddaaea3d483df9a5d79af10d4d2b4216d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 008/151] fix: strided transfers index buffers of more than two
 dimensions

---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index df2df4c..f85ba68 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4185,8 +4185,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From 052acf89a58a0e053c919e7449f6569e3afc3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 009/151] fix: block-cyclic iterator starts at the first block

---
 global/src/iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 525194a..a9fb23c 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -222,7 +222,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
-- 
2.43.0


From cc623edcb80377ce8dc7480a6e9f8c9e39674979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 010/151] fix: scatter and gather on groups and restricted
 arrays count local elements in bounds

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index f85ba68..c78b5fc 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3474,7 +3474,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
       header[idx] = i;
       list[i] = j;
     }
-    *locbytes = item_size * nelems[me];
+    *locbytes = (me < nprocs) ? item_size * nelems[me] : 0;
 
     /* allocate buffers for individual vector calls */
     buf = (char*)malloc(2*maxlen*sizeof(void*));
-- 
2.43.0


From 8709b4d1ca6d3136cdb364b5b9493aef856db0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 011/151] fix: strided transfers by MPI datatype (mpi3, mpi-pr)
 accept any strides and seven stride levels

---
 comex/src-mpi-pr/comex.c | 78 +++++++++-------------------------------
 comex/src-mpi3/comex.c   | 61 ++++++++-----------------------
 2 files changed, 31 insertions(+), 108 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..5be2cfd 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,68 +7492,22 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
-    int i = 0;
-    int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
-
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-
-    /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
-    for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
-    }
+    /* strides need not be multiples of each other (e.g. when elements are
+     * skipped), so nest one vector type per stride level */
+    int i, ierr;
+    MPI_Datatype inner, outer;
+
+    ierr = MPI_Type_contiguous(count[0], base_type, &inner);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
+    for (i=1; i<=levels; i++) {
+        ierr = MPI_Type_create_hvector(count[i], 1, (MPI_Aint)stride_array[i-1],
+                inner, &outer);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        ierr = MPI_Type_free(&inner);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
+        inner = outer;
+    }
+    *type = inner;
 }
 STATIC void check_devshm(int fd, size_t size){
 #ifdef __linux__
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..6a407e0 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -678,53 +678,22 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
-   for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+   /* strides need not be multiples of each other (e.g. when elements are
+    * skipped), so nest one vector type per stride level */
+   int i, ierr;
+   MPI_Datatype inner, outer;
+
+   ierr = MPI_Type_contiguous(count[0], base_type, &inner);
+   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
+   for (i=1; i<=levels; i++) {
+       ierr = MPI_Type_create_hvector(count[i], 1, (MPI_Aint)stride_array[i-1],
+               inner, &outer);
+       translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+       ierr = MPI_Type_free(&inner);
+       translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
+       inner = outer;
    }
+   *type = inner;
 }
 
 /**
-- 
2.43.0


From 87f168090d4598ebaefd3f042657694fcda05cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 012/151] fix: strided loops have room for seven stride levels

---
 comex/src-mpi-mt/comex.c | 22 +++++++++++-----------
 comex/src-mpi-pr/comex.c | 18 +++++++++---------
 comex/src-mpi-pt/comex.c | 22 +++++++++++-----------
 comex/src-mpi/comex.c    | 12 ++++++------
 comex/src-mpi3/comex.c   | 22 +++++++++++-----------
 5 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..118d74f 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -1693,7 +1693,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -2079,7 +2079,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[8], dst_bunit[8];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -3167,8 +3167,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3247,7 +3247,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[8], src_bunit[8];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -3323,8 +3323,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     printf("[%d] nb_gets(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3491,8 +3491,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     COMEX_ASSERT(proc >= 0);
     COMEX_ASSERT(proc < g_state.size);
@@ -4067,7 +4067,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[8], src_bunit[8];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -4132,7 +4132,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[8], dst_bunit[8];
     int packed_index = 0;
     stride_t stride;
 
diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5be2cfd..b05734c 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -1270,7 +1270,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[8], src_bunit[8];
     int packed_index = 0;
     char *packed_buffer = NULL;
 
@@ -1334,7 +1334,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[8], dst_bunit[8];
     int packed_index = 0;
 
     COMEX_ASSERT(stride_levels >= 0);
@@ -4219,7 +4219,7 @@ STATIC void _acc_packed_handler(header_t *header, char *payload, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[8], dst_bunit[8];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -6346,8 +6346,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     fprintf(stderr, "[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -6621,8 +6621,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -6897,8 +6897,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..8a21619 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -927,7 +927,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[8], src_bunit[8];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -992,7 +992,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[8], dst_bunit[8];
     int packed_index = 0;
     stride_t stride;
 
@@ -2579,7 +2579,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -3009,7 +3009,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[8], dst_bunit[8];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -4518,8 +4518,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -4598,7 +4598,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[8], src_bunit[8];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -4676,8 +4676,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -4841,8 +4841,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi/comex.c b/comex/src-mpi/comex.c
index ca89c70..d3c02d7 100644
--- a/comex/src-mpi/comex.c
+++ b/comex/src-mpi/comex.c
@@ -776,8 +776,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -851,8 +851,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -939,8 +939,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 6a407e0..1dfab5d 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -718,8 +718,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
     int status;
 
     /* number of n-element of the first dimension */
@@ -861,8 +861,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
     int status;
 
     /* number of n-element of the first dimension */
@@ -1000,7 +1000,7 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
   int i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
-  int n1dim, src_bvalue[7], src_bunit[7];
+  int n1dim, src_bvalue[8], src_bunit[8];
   *size = 1;
   /* evaluate size of new array */
   for (i=0; i<=levels; i++) {
@@ -1046,8 +1046,8 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
 
   return new_ptr;
 #else
-  int index[7];
-  int lcnt[7];
+  int index[8];
+  int lcnt[8];
   int idx, i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
@@ -1117,8 +1117,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[8], src_bunit[8];
+    int dst_bvalue[8], dst_bunit[8];
     void *get_buf;
 
     /* number of n-element of the first dimension */
@@ -1173,7 +1173,7 @@ int comex_accs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[8], new_count[8];
     reg_entry_t *reg_win;
 #ifdef USE_MPI_REQUESTS
     MPI_Request request;
@@ -2604,7 +2604,7 @@ int comex_nbaccs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[8], new_count[8];
     reg_entry_t *reg_win;
     MPI_Request request;
     MPI_Status status;
-- 
2.43.0


From 618ad66e7f32db9b82d5dff1e7462ce324fb3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 013/151] fix: mpi-mt and mpi-pt reuse non-blocking handles
 when all are taken, as mpi-pr does

---
 comex/src-mpi-mt/comex.c | 8 +++-----
 comex/src-mpi-pt/comex.c | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 118d74f..d4d1300 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -2823,11 +2823,9 @@ STATIC nb_t* nb_wait_for_handle()
     do {
         ++in_use_count;
         if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
+            /* all handles belong to user-level requests; reuse the last one
+             * examined, all of its events are complete */
+            break;
         }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 8a21619..ea05a5c 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4132,11 +4132,9 @@ STATIC nb_t* nb_wait_for_handle()
     do {
         ++in_use_count;
         if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
+            /* all handles belong to user-level requests; reuse the last one
+             * examined, all of its events are complete */
+            break;
         }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
-- 
2.43.0


From 8b6bf3b1a3e7f39457a461330961711524908112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 014/151] fix: mpi-pt strided and vector transfers on one node
 go through shared memory like contiguous ones, keeping program order

---
 comex/src-mpi-pt/comex.c | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index ea05a5c..d9e7918 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -4532,11 +4532,10 @@ STATIC void nb_puts(
     }
 
 #if ENABLE_PUT_PACKED
-#if ENABLE_PUT_SELF
-    /* if not a strided put to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided put to self or SMP, use packed algorithm */
+    if ((!ENABLE_PUT_SELF || g_state.rank != proc)
+            && (!ENABLE_PUT_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_puts_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -4684,11 +4683,10 @@ STATIC void nb_gets(
     }
 
 #if ENABLE_GET_PACKED
-#if ENABLE_GET_SELF
-    /* if not a strided get from self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided get from self or SMP, use packed algorithm */
+    if ((!ENABLE_GET_SELF || g_state.rank != proc)
+            && (!ENABLE_GET_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_gets_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -4849,11 +4847,10 @@ STATIC void nb_accs(
     }
 
 #if ENABLE_ACC_PACKED
-#if ENABLE_ACC_SELF
-    /* if not a strided acc to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
-    {
+    /* if not a strided acc to self or SMP, use packed algorithm */
+    if ((!ENABLE_ACC_SELF || g_state.rank != proc)
+            && (!ENABLE_ACC_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
         nb_accs_packed(datatype, scale, src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
     }
@@ -5029,8 +5026,10 @@ STATIC void nb_putv(
     int i = 0;
 
     for (i=0; i<iov_len; ++i) {
-        /* if not a vector put to self, use packed algorithm */
-        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)) {
+        /* if not a vector put to self or SMP, use packed algorithm */
+        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)
+                && (!ENABLE_PUT_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_putv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5130,8 +5129,10 @@ STATIC void nb_getv(
     int i = 0;
 
     for (i=0; i<iov_len; ++i) {
-        /* if not a vector get from self, use packed algorithm */
-        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)) {
+        /* if not a vector get from self or SMP, use packed algorithm */
+        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)
+                && (!ENABLE_GET_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_getv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5240,8 +5241,10 @@ STATIC void nb_accv(
     int i = 0;
 
     for (i=0; i<iov_len; ++i) {
-        /* if not a vector acc to self, use packed algorithm */
-        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)) {
+        /* if not a vector acc to self or SMP, use packed algorithm */
+        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)
+                && (!ENABLE_ACC_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_accv_packed(datatype, scale, &iov[i], proc, nb);
         }
         else {
-- 
2.43.0


From 397fffb145baa6e51799ca5dfec7d97fda4af7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 015/151] fix: mpi3 non-blocking strided accumulate scales
 complex values by the original real part

---
 comex/src-mpi3/comex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 1dfab5d..3502605 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2681,8 +2681,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(float));
       buf = (float*)packbuf;
       for (i=0; i<nvar; i++) {
+        float tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(float);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
@@ -2696,8 +2697,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(double));
       buf = (double*)packbuf;
       for (i=0; i<nvar; i++) {
+        double tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(double);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
-- 
2.43.0


From 3ef64ea2b136a09596601a1943b14afb25500dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 016/151] fix: GA_Lock and GA_Unlock use the mutex they are
 given

---
 global/src/base.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 626d1c7..3669b24 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5123,10 +5123,10 @@ void pnga_lock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || num_mutexes <= mutex)pnga_error("invalid mutex",mutex);
 
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = mutex/chunk_mutex;
+   m = mutex%chunk_mutex;
 
    ARMCI_Lock(m,p);
 }
@@ -5143,10 +5143,10 @@ void pnga_unlock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || num_mutexes <= mutex)pnga_error("invalid mutex",mutex);
    
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = mutex/chunk_mutex;
+   m = mutex%chunk_mutex;
 
    ARMCI_Unlock(m,p);
 }              
-- 
2.43.0


From 5bfbbb44c9731d93b6bb09b6cfe331505a5419e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 017/151] fix: mpi-mt and mpi-pt accept waits on requests whose
 handle was reused

---
 comex/src-mpi-mt/comex.c | 10 ++--------
 comex/src-mpi-pt/comex.c | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index d4d1300..61715c4 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -924,10 +924,7 @@ int comex_wait(comex_request_t* hdl)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_wait Error: invalid handle\n",
-                g_state.rank);
-    }
+    /* a request whose handle was reused is complete already */
 
     nb_wait_for_all(nb);
 
@@ -949,10 +946,7 @@ int comex_test(comex_request_t* hdl, int *status)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_test Error: invalid handle\n",
-                g_state.rank);
-    }
+    /* a request whose handle was reused is complete already */
 
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index d9e7918..72864ac 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1330,10 +1330,7 @@ int comex_wait(comex_request_t* hdl)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_wait Error: invalid handle\n",
-                g_state.rank);
-    }
+    /* a request whose handle was reused is complete already */
 
     nb_wait_for_all(nb);
 
@@ -1355,10 +1352,7 @@ int comex_test(comex_request_t* hdl, int *status)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_test Error: invalid handle\n",
-                g_state.rank);
-    }
+    /* a request whose handle was reused is complete already */
 
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
-- 
2.43.0


From 456e99921783cf80e8dd765d78823b6dea6b4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 018/151] fix: GA_Fence covers scatter, scatter-accumulate and
 strided transfers

---
 global/src/onesided.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index c78b5fc..6531fd4 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2355,11 +2355,10 @@ int rc=0;
   desc.dst_ptr_array = ptr_dst;
   desc.ptr_array_len = (int)nv;
 
-  if(GA_fence_set)fence_array[proc]=1;
-
   if (p_handle >= 0) {
     proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
   }
+  if(GA_fence_set)fence_array[proc]=1;
   if(alpha != NULL) {
     int optype=-1;
     if(type==C_DBL) optype= ARMCI_ACC_DBL;
@@ -2598,6 +2597,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2615,6 +2615,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2636,6 +2637,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2658,6 +2660,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -3555,6 +3558,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
             desc.src_ptr_array = ptr_loc;
             desc.dst_ptr_array = ptr_rem;
             desc.ptr_array_len = (int)nelems[iproc];
+            if(GA_fence_set) fence_array[tproc]=1;
             rc=ARMCI_PutV(&desc, 1, (int)tproc);
             if(rc) pnga_error("scatter failed in armci",rc);
             break;
@@ -3572,6 +3576,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
               else if(type==C_LONG)optype= ARMCI_ACC_LNG;
               else if(type==C_FLOAT)optype= ARMCI_ACC_FLT; 
               else pnga_error("type not supported",type);
+              if(GA_fence_set) fence_array[tproc]=1;
               rc= ARMCI_AccV(optype, alpha, &desc, 1, (int)tproc);
             }
             if(rc) pnga_error("scatter_acc failed in armci",rc);
@@ -4288,6 +4293,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4452,6 +4458,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 64009145015343e3815535420d4071070bf98c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 019/151] fix: locating blocks finds those that contain the
 whole region

---
 global/src/base.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3669b24..ef63116 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4629,11 +4629,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4820,11 +4818,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -5610,11 +5606,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
-- 
2.43.0


From 57d5c726decae6ee81663f040bc96add92b74715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 020/151] fix: C GA_Get_proc_grid returns the grid in C order,
 as it was set

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 8b69870..7c941b2 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2821,7 +2821,7 @@ void GA_Get_proc_grid(int g_a, int dims[])
      Integer ndim = wnga_ndim(a);
      Integer _ga_work[MAXDIM];
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims, ndim);  
 }
 
 void NGA_Get_proc_grid(int g_a, int dims[])
@@ -2830,7 +2830,7 @@ void NGA_Get_proc_grid(int g_a, int dims[])
      Integer _ga_work[MAXDIM];
      Integer ndim = wnga_ndim(a);
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims, ndim);  
 }
 
 void GA_Check_handle(int g_a, char* string)
-- 
2.43.0


From f3ab15c59f4af44074ca708e8c5d8ca9ac0f71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 021/151] fix: locate_region on block-cyclic grids numbers
 blocks consistently and clips them to the region

---
 global/src/base.c | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index ef63116..f6756a9 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4858,33 +4858,24 @@ logical pnga_locate_region( Integer g_a,
     }
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
-      Integer idx = 0;
-      Integer factor = 1;
-      Integer iproc;
-      Integer p_handle = GA[ga_handle].p_handle;
-      Integer size = pnga_pgroup_nnodes(p_handle);
-      for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
-      }
+      Integer idx;
+      gam_find_block_from_indices(ga_handle, idx, count);
       proclist[cnt] = idx;
       /* store information on this block */
       offset = 2*cnt*ndim;
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
       i = 0;
       count[0]++;
-      while (count[i] > max[i] && i<ndim) {
-        if (i<ndim-1) count[i] = min[i];
-        if (i<ndim-1) {
-          count[i+1]++;
-        }
+      while (i<ndim-1 && count[i] > max[i]) {
+        count[i] = min[i];
+        count[i+1]++;
         i++;
       }
     }
-- 
2.43.0


From be31b31feb7d3790300038653c078215f04560fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 022/151] fix: C NGA_Access_ghost_element returns the leading
 dimensions, NGA_NbGet_ghost_dir passes its mask unchanged

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 7c941b2..0a339a3 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1574,7 +1574,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1583,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld, ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld, ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
-- 
2.43.0


From 502b56a15fd5c57218b7a1a116e6d9e656d1fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 023/151] fix: NGA_Get_ghost_block reads the caller's own block
 on groups

---
 global/src/ghosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..477413c 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -378,7 +378,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,(int)GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
-- 
2.43.0


From a55fa5ace45c920f43e73bbeca724dede815769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 024/151] fix: C NGA_Update_ghost_dir counts dimensions in C
 order

---
 global/src/capi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 0a339a3..98f3032 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1564,7 +1564,7 @@ int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
+    idim = wnga_ndim(a) - idim;
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
-- 
2.43.0


From 2dcbfb9406ddeb95515637e72acade5a2f1459bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 025/151] fix: update3_ghosts sends the last owned cells for
 every ghost width

---
 global/src/ghosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 477413c..77c14b1 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -1241,7 +1241,7 @@ logical pnga_update3_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
-- 
2.43.0


From 9faba51b85d8949228508e5fad8fd44aadb7c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 026/151] fix: ghost updates check interior blocks against the
 ghost width

---
 global/src/ghosts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 77c14b1..2dca6f1 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -786,7 +786,7 @@ static logical gai_check_ghost_distr(Integer g_a)
   for (idx = 0; idx < ndim; idx++) {
     for (np = 0; np < GA[handle].nblock[idx]; np++) {
       if (np < GA[handle].nblock[idx] - 1) {
-        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]+1
+        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]
             <GA[handle].width[idx]) {
           return FALSE;
         }
@@ -2969,7 +2969,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   for (idx = 0; idx < ndim; idx++) {
     for (np = 0; np < GA[handle].nblock[idx]; np++) {
       if (np < GA[handle].nblock[idx] - 1) {
-        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]+1<width[idx]) {
+        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]<width[idx]) {
           return FALSE;
         }
       } else {
-- 
2.43.0


From c735e8040beeb57da352f3fbf8c96b55d473774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 027/151] fix: NGA_Update_ghost_dir skips directions without
 ghost cells

---
 global/src/ghosts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 2dca6f1..c974dac 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -3019,6 +3019,10 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
         inx++;
       }
     }
+    /* skip blocks of ghost cells that have no elements */
+    for (idx = 0; idx < ndim; idx++)
+      if (mask[idx] != 0 && width[idx] == 0) break;
+    if (idx < ndim) continue;
     /* Now that mask has been determined, find processor that contains
      * data needed by the corresponding block of ghost cells */
     for (idx = 0; idx < ndim; idx++) {
-- 
2.43.0


From 0a36d366854e22b2c91d1405d64d927ca97b7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 028/151] fix: local iterator skips processes that lie beyond
 the last block

---
 global/src/iterator.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index a9fb23c..3dcccfb 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -901,7 +901,11 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == SCALAPACK ||
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or none at all if this process lies beyond the last
+     * block in some dimension */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -919,7 +923,11 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == TILED_IRREG) {
     /* Irregular tiled data distribution */
     Integer offset = 0;
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    /* no blocks left, or none at all if this process lies beyond the last
+     * block in some dimension */
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From 38411e448c894cfef807fce8c9549e2e9baedbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 029/151] fix: element-wise product of complex arrays when the
 result is an operand

---
 global/src/elem_alg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..b87197b 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,14 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                const T* const aptr = (const T* const)pA;                   \
+                const T* const bptr = (const T* const)pB;                   \
+                T* const cptr = (T* const)pC;                               \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    /* the result may overwrite one of the operands */      \
+                    const T aval = aptr[i];                                 \
+                    const T bval = bptr[i];                                 \
+                    assign_mul_##AT(cptr[i],aval,bval);                     \
                 }                                                           \
                 break;                                                      \
             }
-- 
2.43.0


From d82660dd609798238203e9d2b82ca2a657985955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 030/151] fix: element-wise operations use the leading
 dimensions of each operand

---
 global/src/elem_alg.c | 70 ++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index b87197b..e330530 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1724,12 +1724,14 @@ static void do_minimum(void *pA, void *pB, void *pC, Integer nelems, Integer typ
 
 static
 void ngai_do_elem2_oper(Integer atype, Integer cndim, Integer *loC, Integer *hiC,
-                        Integer *ldC, void *A_ptr, void *B_ptr, void *C_ptr, int op)
+                        Integer *ldA, Integer *ldB, Integer *ldC,
+                        void *A_ptr, void *B_ptr, void *C_ptr, int op)
 {
   Integer i, j;
-  Integer bvalue[MAXDIM], bunit[MAXDIM], baseldC[MAXDIM];
+  Integer bvalue[MAXDIM], bunit[MAXDIM];
+  Integer baseldA[MAXDIM], baseldB[MAXDIM], baseldC[MAXDIM];
   void *tempA = NULL, *tempB = NULL, *tempC = NULL;
-  Integer idx, n1dim;
+  Integer idxA, idxB, idxC, n1dim;
   /* compute "local" operation accoording to op */
 
   /* number of n-element of the first dimension */
@@ -1741,52 +1743,58 @@ void ngai_do_elem2_oper(Integer atype, Integer cndim, Integer *loC, Integer *hiC
    * baseld[1] = ld[0] * ld[1]
    * baseld[2] = ld[0] * ld[1] * ld[2] .....
    */
+  baseldA[0] = ldA[0]; baseldA[1] = baseldA[0] *ldA[1];
+  baseldB[0] = ldB[0]; baseldB[1] = baseldB[0] *ldB[1];
   baseldC[0] = ldC[0]; baseldC[1] = baseldC[0] *ldC[1];
   for(i=2; i<cndim; i++) {
     bvalue[i] = 0;
     bunit[i] = bunit[i-1] * (hiC[i-1] - loC[i-1] + 1);
+    baseldA[i] = baseldA[i-1] * ldA[i];
+    baseldB[i] = baseldB[i-1] * ldB[i];
     baseldC[i] = baseldC[i-1] * ldC[i];
   }
 
 
   for(i=0; i<n1dim; i++) {
-    idx = 0;
+    idxA = idxB = idxC = 0;
     for(j=1; j<cndim; j++) {
-      idx += bvalue[j] * baseldC[j-1];
+      idxA += bvalue[j] * baseldA[j-1];
+      idxB += bvalue[j] * baseldB[j-1];
+      idxC += bvalue[j] * baseldC[j-1];
       if(((i+1) % bunit[j]) == 0) bvalue[j]++;
       if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
     }
 
     switch(atype){
       case C_DBL:
-        tempA=((double*)A_ptr)+idx;
-        tempB=((double*)B_ptr)+idx;
-        tempC=((double*)C_ptr)+idx;
+        tempA=((double*)A_ptr)+idxA;
+        tempB=((double*)B_ptr)+idxB;
+        tempC=((double*)C_ptr)+idxC;
         break;
       case C_DCPL:
-        tempA=((DoubleComplex*)A_ptr)+idx;
-        tempB=((DoubleComplex*)B_ptr)+idx;
-        tempC=((DoubleComplex*)C_ptr)+idx;
+        tempA=((DoubleComplex*)A_ptr)+idxA;
+        tempB=((DoubleComplex*)B_ptr)+idxB;
+        tempC=((DoubleComplex*)C_ptr)+idxC;
         break;
       case C_SCPL:
-        tempA=((SingleComplex*)A_ptr)+idx;
-        tempB=((SingleComplex*)B_ptr)+idx;
-        tempC=((SingleComplex*)C_ptr)+idx;
+        tempA=((SingleComplex*)A_ptr)+idxA;
+        tempB=((SingleComplex*)B_ptr)+idxB;
+        tempC=((SingleComplex*)C_ptr)+idxC;
         break;
       case C_INT:
-        tempA=((int*)A_ptr)+idx;
-        tempB=((int*)B_ptr)+idx;
-        tempC=((int*)C_ptr)+idx;
+        tempA=((int*)A_ptr)+idxA;
+        tempB=((int*)B_ptr)+idxB;
+        tempC=((int*)C_ptr)+idxC;
         break;
       case C_FLOAT:
-        tempA=((float*)A_ptr)+idx;
-        tempB=((float*)B_ptr)+idx;
-        tempC=((float*)C_ptr)+idx;
+        tempA=((float*)A_ptr)+idxA;
+        tempB=((float*)B_ptr)+idxB;
+        tempC=((float*)C_ptr)+idxC;
         break;
       case C_LONG:
-        tempA=((long *)A_ptr)+idx;
-        tempB=((long *)B_ptr)+idx;
-        tempC=((long *)C_ptr)+idx;
+        tempA=((long *)A_ptr)+idxA;
+        tempB=((long *)B_ptr)+idxB;
+        tempC=((long *)C_ptr)+idxC;
         break;
 
       default: pnga_error(" wrong data type ",atype);
@@ -1885,6 +1893,8 @@ int op; /* operation to be perform between g_a and g_b */
     pnga_distribution(g_A, me, loA, hiA);
     pnga_distribution(g_B, me, loB, hiB);
     pnga_distribution(g_c, me, loC, hiC);
+    /* trailing dimensions that only g_a or g_b has are of length one */
+    for(i=cndim; i<MAXDIM; i++) loC[i] = hiC[i] = 1;
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
@@ -1947,7 +1957,8 @@ int op; /* operation to be perform between g_a and g_b */
       pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
       /* compute "local" operation accoording to op */
-      ngai_do_elem2_oper(atype, cndim, loC, hiC, ldC, A_ptr, B_ptr, C_ptr, op);
+      ngai_do_elem2_oper(atype, cndim, loC, hiC, ldA, ldB, ldC,
+          A_ptr, B_ptr, C_ptr, op);
 
       /* release access to the data */
       pnga_release       (g_A, loC, hiC);
@@ -2032,7 +2043,7 @@ int op; /* operation to be perform between g_a and g_b */
           default:
             break;
         }
-        ngai_do_elem2_oper(atype, cndim, loC, hiC, ldC,
+        ngai_do_elem2_oper(atype, cndim, loC, hiC, ldA, ldB, ldC,
             A_ptr, B_ptr, C_ptr, op);
       }
       /* release access to the data */
@@ -2051,7 +2062,8 @@ int op; /* operation to be perform between g_a and g_b */
         pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
         /* compute "local" operation accoording to op */
-        ngai_do_elem2_oper(atype, cndim, loC, hiC, ldC, A_ptr, B_ptr, C_ptr, op);
+        ngai_do_elem2_oper(atype, cndim, loC, hiC, ldA, ldB, ldC,
+          A_ptr, B_ptr, C_ptr, op);
 
         /* release access to the data */
         pnga_release       (g_A, loC, hiC);
@@ -2125,7 +2137,8 @@ int op; /* operation to be perform between g_a and g_b */
             }
 
             /* compute "local" operation accoording to op */
-            ngai_do_elem2_oper(atype, cndim, loC, hiC, ldC, A_ptr, B_ptr, C_ptr, op);
+            ngai_do_elem2_oper(atype, cndim, loC, hiC, ldA, ldB, ldC,
+          A_ptr, B_ptr, C_ptr, op);
 
             /* release access to the data */
             pnga_release_block       (g_A, idx);
@@ -2208,7 +2221,8 @@ int op; /* operation to be perform between g_a and g_b */
             }
 
             /* compute "local" operation accoording to op */
-            ngai_do_elem2_oper(atype, cndim, loC, hiC, ldC, A_ptr, B_ptr, C_ptr, op);
+            ngai_do_elem2_oper(atype, cndim, loC, hiC, ldA, ldB, ldC,
+          A_ptr, B_ptr, C_ptr, op);
 
             /* release access to the data */
             pnga_release_block_grid       (g_A, index);
-- 
2.43.0


From 93a56f92928949cbe2ee7de7bbeb3b61db1f7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 031/151] fix: GA_Add takes the data type from the result array

---
 global/src/global.nalg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 4a56072..c0e49af 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -777,7 +777,7 @@ int local_sync_begin,local_sync_end;
        /* distributions not identical */
        pnga_inquire(g_a, &type, &andim, adims);
        pnga_inquire(g_b, &type, &bndim, bdims);
-       pnga_inquire(g_b, &type, &cndim, cdims);
+       pnga_inquire(g_c, &type, &cndim, cdims);
 
        pnga_add_patch(alpha, g_a, one_arr, adims, beta, g_b, one_arr, bdims,
                       g_c, one_arr, cdims);
@@ -825,7 +825,7 @@ int local_sync_begin,local_sync_end;
    if (  _lo[0]>0 ){
 
        /* operation on the "local" piece of data */
-       switch(type){
+       switch(typeC){
          int *ia, *ib, *ic;
          double *da,*db,*dc;
          float *fa, *fb, *fc;
-- 
2.43.0


From 63323d4f54b5d1918532a073421502af48d6162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 032/151] fix: GA_Median_patch changes only the patch and
 compares distributions the right way

---
 global/src/matrix.c | 163 +++++++++++++++++++++++++++-----------------
 1 file changed, 100 insertions(+), 63 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..d47cc0d 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -81,13 +81,15 @@ Purpose:
 
 /*\ Utility function to find median values of patch
 \*/
-static void sgai_median_patch_values(Integer type, Integer ndim, Integer *loA,
-                              Integer *hiA, Integer *ldA, void *A_ptr,
-                              void *B_ptr, void *C_ptr, void *M_ptr,
+static void sgai_median_patch_values(Integer type, Integer ndim, Integer *loM,
+                              Integer *hiM, Integer *ldA, Integer *ldB,
+                              Integer *ldC, Integer *ldM,
+                              void *A_ptr, void *B_ptr, void *C_ptr, void *M_ptr,
                               Integer offset)
 {
-  Integer bvalue[MAXDIM], bunit[MAXDIM], baseldA[MAXDIM];
-  Integer idx, n1dim;
+  Integer bvalue[MAXDIM], bunit[MAXDIM];
+  Integer baseldA[MAXDIM], baseldB[MAXDIM], baseldC[MAXDIM], baseldM[MAXDIM];
+  Integer idxA, idxB, idxC, idxM, n1dim;
   Integer i, j;
 
   double na, nb, nc;            /*norm of a, norm of b, norm of c */
@@ -101,7 +103,7 @@ static void sgai_median_patch_values(Integer type, Integer ndim, Integer *loA,
   /* number of n-element of the first dimension */
   n1dim = 1;
   for (i = 1; i < ndim; i++)
-    n1dim *= (hiA[i] - loA[i] + 1);
+    n1dim *= (hiM[i] - loM[i] + 1);
 
   /* calculate the destination indices */
   bvalue[0] = 0;
@@ -114,11 +116,20 @@ static void sgai_median_patch_values(Integer type, Integer ndim, Integer *loA,
    */
   baseldA[0] = ldA[0];
   baseldA[1] = baseldA[0] * ldA[1];
+  baseldB[0] = ldB[0];
+  baseldB[1] = baseldB[0] * ldB[1];
+  baseldC[0] = ldC[0];
+  baseldC[1] = baseldC[0] * ldC[1];
+  baseldM[0] = ldM[0];
+  baseldM[1] = baseldM[0] * ldM[1];
   for (i = 2; i < ndim; i++)
   {
     bvalue[i] = 0;
-    bunit[i] = bunit[i - 1] * (hiA[i - 1] - loA[i - 1] + 1);
+    bunit[i] = bunit[i - 1] * (hiM[i - 1] - loM[i - 1] + 1);
     baseldA[i] = baseldA[i - 1] * ldA[i];
+    baseldB[i] = baseldB[i - 1] * ldB[i];
+    baseldC[i] = baseldC[i - 1] * ldC[i];
+    baseldM[i] = baseldM[i - 1] * ldM[i];
   }
   switch(type) {
     case C_DBL:
@@ -173,110 +184,128 @@ static void sgai_median_patch_values(Integer type, Integer ndim, Integer *loA,
 
     case C_INT: 
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          ia = ((int *) A_ptr)[idx + j];
-          ib = ((int *) B_ptr)[idx + j];
-          ic = ((int *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          ia = ((int *) A_ptr)[idxA + j];
+          ib = ((int *) B_ptr)[idxB + j];
+          ic = ((int *) C_ptr)[idxC + j];
           median(ia, ib, ic, im);
-          ((int *) M_ptr)[idx + j] = im;
+          ((int *) M_ptr)[idxM + j] = im;
         }
       }
       break;
     case C_LONG: 
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          la = ((long *) A_ptr)[idx + j];
-          lb = ((long *) B_ptr)[idx + j];
-          lc = ((long *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          la = ((long *) A_ptr)[idxA + j];
+          lb = ((long *) B_ptr)[idxB + j];
+          lc = ((long *) C_ptr)[idxC + j];
           median(la, lb, lc, lm);
-          ((long *) M_ptr)[idx + j] = lm;
+          ((long *) M_ptr)[idxM + j] = lm;
         }
       }
       break;
     case C_FLOAT: 
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          fa = ((float *) A_ptr)[idx + j];
-          fb = ((float *) B_ptr)[idx + j];
-          fc = ((float *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          fa = ((float *) A_ptr)[idxA + j];
+          fb = ((float *) B_ptr)[idxB + j];
+          fc = ((float *) C_ptr)[idxC + j];
           median(fa, fb, fc, fm);
-          ((float *) M_ptr)[idx + j] = fm;
+          ((float *) M_ptr)[idxM + j] = fm;
         }
       }
       break;
     case C_DBL: 
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          da = ((double *) A_ptr)[idx + j];
-          db = ((double *) B_ptr)[idx + j];
-          dc = ((double *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          da = ((double *) A_ptr)[idxA + j];
+          db = ((double *) B_ptr)[idxB + j];
+          dc = ((double *) C_ptr)[idxC + j];
           median(da, db, dc, dm);
-          ((double *) M_ptr)[idx + j] = dm;
+          ((double *) M_ptr)[idxM + j] = dm;
         }
       }
       break;
     case C_DCPL:
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          za = ((DoubleComplex *) A_ptr)[idx + j];
-          zb = ((DoubleComplex *) B_ptr)[idx + j];
-          zc = ((DoubleComplex *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          za = ((DoubleComplex *) A_ptr)[idxA + j];
+          zb = ((DoubleComplex *) B_ptr)[idxB + j];
+          zc = ((DoubleComplex *) C_ptr)[idxC + j];
           na = sqrt ((za.real) * (za.real) + (za.imag) * (za.imag));
           nb = sqrt ((zb.real) * (zb.real) + (zb.imag) * (zb.imag));
           nc = sqrt ((zc.real) * (zc.real) + (zc.imag) * (zc.imag));
           median_dcpl(na, nb, nc, za, zb, zc, zm);
-          ((DoubleComplex *) M_ptr)[idx + j] = zm;
+          ((DoubleComplex *) M_ptr)[idxM + j] = zm;
         }
       }
       break;
 
     case C_SCPL:
       for (i = 0; i < n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = idxM = 0;
         for (j = 1; j < ndim; j++) {
-          idx += bvalue[j] * baseldA[j - 1];
+          idxA += bvalue[j] * baseldA[j - 1];
+          idxB += bvalue[j] * baseldB[j - 1];
+          idxC += bvalue[j] * baseldC[j - 1];
+          idxM += bvalue[j] * baseldM[j - 1];
           if (((i + 1) % bunit[j]) == 0)     bvalue[j]++;
-          if (bvalue[j] > (hiA[j] - loA[j])) bvalue[j] = 0;
+          if (bvalue[j] > (hiM[j] - loM[j])) bvalue[j] = 0;
         }
-        for (j = 0; j < (hiA[0] - loA[0] + 1); j++) {
-          ca = ((SingleComplex *) A_ptr)[idx + j];
-          cb = ((SingleComplex *) B_ptr)[idx + j];
-          cc = ((SingleComplex *) C_ptr)[idx + j];
+        for (j = 0; j < (hiM[0] - loM[0] + 1); j++) {
+          ca = ((SingleComplex *) A_ptr)[idxA + j];
+          cb = ((SingleComplex *) B_ptr)[idxB + j];
+          cc = ((SingleComplex *) C_ptr)[idxC + j];
           na = sqrt ((ca.real) * (ca.real) + (ca.imag) * (ca.imag));
           nb = sqrt ((cb.real) * (cb.real) + (cb.imag) * (cb.imag));
           nc = sqrt ((cc.real) * (cc.real) + (cc.imag) * (cc.imag));
           median_scpl(na, nb, nc, ca, cb, cc, cm);
-          ((SingleComplex *) M_ptr)[idx + j] = cm;
+          ((SingleComplex *) M_ptr)[idxM + j] = cm;
         }
       }
       break;
@@ -403,8 +432,11 @@ void pnga_median_patch(
     pnga_distribution (g_B, me, loB, hiB);
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
+    /* trailing dimensions that g_m does not have are of length one */
+    for (i = mndim; i < MAXDIM; i++) loM[i] = hiM[i] = 1;
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +454,8 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +473,8 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -485,7 +519,7 @@ void pnga_median_patch(
       pnga_access_ptr (g_C, loM, hiM, &C_ptr, ldC);
       pnga_access_ptr (g_M, loM, hiM, &M_ptr, ldM);
 
-      sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+      sgai_median_patch_values(type, mndim, loM, hiM, ldA, ldB, ldC, ldM,
           A_ptr, B_ptr, C_ptr, M_ptr, offset);
 
       /* release access to the data */
@@ -534,6 +568,9 @@ void pnga_median_patch(
         /*hid[j] = hiM[j];*/
       }
 
+      /* only the part of the block inside the patch is set */
+      if (!pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) continue;
+
       /* evaluate offsets for system */
       offset = 0;
       last = mndim - 1;
@@ -544,7 +581,7 @@ void pnga_median_patch(
       }
       offset += (loM[last]-lod[last])*jtot;
 
-      sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+      sgai_median_patch_values(type, mndim, loM, hiM, ldA, ldB, ldC, ldM,
           A_ptr, B_ptr, C_ptr, M_ptr, offset);
 
     }
@@ -558,7 +595,7 @@ void pnga_median_patch(
         pnga_access_ptr (g_C, loM, hiM, &C_ptr, ldC);
         pnga_access_ptr (g_M, loM, hiM, &M_ptr, ldM);
 
-        sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+        sgai_median_patch_values(type, mndim, loM, hiM, ldA, ldB, ldC, ldM,
             A_ptr, B_ptr, C_ptr, M_ptr, offset);
 
         /* release access to the data */
@@ -597,7 +634,7 @@ void pnga_median_patch(
             }
             offset += (loM[last]-lod[last])*jtot;
 
-            sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+            sgai_median_patch_values(type, mndim, loM, hiM, ldA, ldB, ldC, ldM,
                 A_ptr, B_ptr, C_ptr, M_ptr, offset);
 
             /* release access to the data */
@@ -649,7 +686,7 @@ void pnga_median_patch(
             }
             offset += (loM[last]-lod[last])*jtot;
 
-            sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+            sgai_median_patch_values(type, mndim, loM, hiM, ldA, ldB, ldC, ldM,
                 A_ptr, B_ptr, C_ptr, M_ptr, offset);
 
             /* release access to the data */
-- 
2.43.0


From 09f84304b93c00da4037a4b5b04fb0aacede5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:40 +0000
Subject: [PATCH 033/151] fix: dot products use the leading dimensions of each
 operand

---
 global/src/global.npatch.c | 84 ++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 0ac99f0..dd94723 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -936,7 +936,8 @@ void pnga_copy_patch(char *trans,
 
 
 static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
-                          Integer *hiA, Integer *ldA, void *A_ptr, void *B_ptr,
+                          Integer *hiA, Integer *ldA, Integer *ldB,
+                          void *A_ptr, void *B_ptr,
                           int *alen, void *retval)
 {
   int isum;
@@ -946,8 +947,8 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
   float fsum;
   long lsum;
   long long llsum;
-  Integer i, j, n1dim, idx;
-  Integer bvalue[MAXDIM], bunit[MAXDIM], baseldA[MAXDIM];
+  Integer i, j, n1dim, idxA, idxB;
+  Integer bvalue[MAXDIM], bunit[MAXDIM], baseldA[MAXDIM], baseldB[MAXDIM];
 
   isum = 0; dsum = 0.; zsum.real = 0.; zsum.imag = 0.; fsum = 0;lsum=0;llsum=0;
   csum.real = 0.; csum.imag = 0.;
@@ -962,41 +963,45 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
    * baseldA[2] = ldA[0] * ldA[1] * ldA[2] .....
    */
   baseldA[0] = ldA[0]; baseldA[1] = baseldA[0] *ldA[1];
+  baseldB[0] = ldB[0]; baseldB[1] = baseldB[0] *ldB[1];
   for(i=2; i<andim; i++) {
     bvalue[i] = 0;
     bunit[i] = bunit[i-1] * (hiA[i-1] - loA[i-1] + 1);
     baseldA[i] = baseldA[i-1] * ldA[i];
+    baseldB[i] = baseldB[i-1] * ldB[i];
   }
 
   /* compute "local" contribution to the dot product */
   switch (atype){
     case C_INT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
-          isum += ((int *)A_ptr)[idx+j] *
-            ((int *)B_ptr)[idx+j];
+          isum += ((int *)A_ptr)[idxA+j] *
+            ((int *)B_ptr)[idxB+j];
       }
       *(int*)retval += isum;
       break;
     case C_DCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++) {
-          DoubleComplex a = ((DoubleComplex *)A_ptr)[idx+j];
-          DoubleComplex b = ((DoubleComplex *)B_ptr)[idx+j];
+          DoubleComplex a = ((DoubleComplex *)A_ptr)[idxA+j];
+          DoubleComplex b = ((DoubleComplex *)B_ptr)[idxB+j];
           zsum.real += a.real*b.real  - b.imag * a.imag;
           zsum.imag += a.imag*b.real  + b.imag * a.real;
         }
@@ -1006,16 +1011,17 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
       break;
     case C_SCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++) {
-          SingleComplex a = ((SingleComplex *)A_ptr)[idx+j];
-          SingleComplex b = ((SingleComplex *)B_ptr)[idx+j];
+          SingleComplex a = ((SingleComplex *)A_ptr)[idxA+j];
+          SingleComplex b = ((SingleComplex *)B_ptr)[idxB+j];
           csum.real += a.real*b.real  - b.imag * a.imag;
           csum.imag += a.imag*b.real  + b.imag * a.real;
         }
@@ -1025,61 +1031,65 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
       break;
     case  C_DBL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
-          dsum += ((double*)A_ptr)[idx+j] *
-            ((double*)B_ptr)[idx+j];
+          dsum += ((double*)A_ptr)[idxA+j] *
+            ((double*)B_ptr)[idxB+j];
       }
       *(double*)retval += dsum;
       break;
     case C_FLOAT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
-          fsum += ((float *)A_ptr)[idx+j] *
-            ((float *)B_ptr)[idx+j];
+          fsum += ((float *)A_ptr)[idxA+j] *
+            ((float *)B_ptr)[idxB+j];
       }
       *(float*)retval += fsum;
       break;         
     case C_LONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
-          lsum += ((long *)A_ptr)[idx+j] *
-            ((long *)B_ptr)[idx+j];
+          lsum += ((long *)A_ptr)[idxA+j] *
+            ((long *)B_ptr)[idxB+j];
       }
       *(long*)retval += lsum;
       break;                                     
     case C_LONGLONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = 0;
         for(j=1; j<andim; j++) {
-          idx += bvalue[j] * baseldA[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
-          llsum += ((long long *)A_ptr)[idx+j] *
-            ((long long *)B_ptr)[idx+j];
+          llsum += ((long long *)A_ptr)[idxA+j] *
+            ((long long *)B_ptr)[idxB+j];
       }
       *(long long*)retval += llsum;
       break;
@@ -1208,6 +1218,8 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
     /* find out coordinates of patches of g_A and g_B that I own */
     pnga_distribution(g_A, me, loA, hiA);
     pnga_distribution(g_B, me, loB, hiB);
+    /* trailing dimensions that only g_b has are of length one */
+    for(i=andim; i<MAXDIM; i++) loA[i] = hiA[i] = 1;
 
     if(pnga_comp_patch(andim, loA, hiA, bndim, loB, hiB) &&
         pnga_comp_patch(andim, alo, ahi, bndim, blo, bhi)) compatible = 1;
@@ -1239,7 +1251,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
       pnga_access_ptr(g_A, loA, hiA, &A_ptr, ldA);
       pnga_access_ptr(g_B, loA, hiA, &B_ptr, ldB);
 
-      snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+      snga_dot_local_patch(atype, andim, loA, hiA, ldA, ldB, A_ptr, B_ptr,
           &alen, retval);
       /* release access to the data */
       pnga_release(g_A, loA, hiA);
@@ -1307,7 +1319,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
             B_ptr = (void*)((long long*)(B_ptr) + offset);
             break;                                     
         }
-        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+        snga_dot_local_patch(atype, andim, loA, hiA, ldA, ldB, A_ptr, B_ptr,
             &alen, retval);
       }
     }
@@ -1327,7 +1339,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
         pnga_access_ptr(g_A, loA, hiA, &A_ptr, ldA);
         pnga_access_ptr(g_B, loA, hiA, &B_ptr, ldB);
 
-        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+        snga_dot_local_patch(atype, andim, loA, hiA, ldA, ldB, A_ptr, B_ptr,
             &alen, retval);
         /* release access to the data */
         pnga_release(g_A, loA, hiA);
@@ -1391,7 +1403,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
                 B_ptr = (void*)((long long*)(B_ptr) + offset);
                 break;                                     
             }
-            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+            snga_dot_local_patch(atype, andim, loA, hiA, ldA, ldB, A_ptr, B_ptr,
                 &alen, retval);
             /* release access to the data */
             pnga_release_block(g_A, i);
@@ -1467,7 +1479,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
                 B_ptr = (void*)((long long*)(B_ptr) + offset);
                 break;                                     
             }
-            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+            snga_dot_local_patch(atype, andim, loA, hiA, ldA, ldB, A_ptr, B_ptr,
                 &alen, retval);
             /* release access to the data */
             pnga_release_block_grid(g_A, index);
-- 
2.43.0


From 4b79c4071d3eb76b4f1f61ff608b3936b5005781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 034/151] fix: GA_Copy_patch from a larger group to a smaller
 one copies reshaped and transposed patches

---
 global/src/global.npatch.c | 87 +++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index dd94723..50d3e54 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -167,7 +167,7 @@ void pnga_copy_patch(char *trans,
   Integer i, j;
   Integer idx, factor;
   Integer atype, btype, andim, adims[MAXDIM], bndim, bdims[MAXDIM];
-  Integer nelem;
+  Integer nelem, ndim;
   Integer atotal, btotal;
   Integer los[MAXDIM], his[MAXDIM];
   Integer lod[MAXDIM], hid[MAXDIM];
@@ -276,13 +276,14 @@ void pnga_copy_patch(char *trans,
       }
 
       /* calculate the number of elements in the patch that I own */
-      nelem = 1; for(i=0; i<andim; i++) nelem *= (his[i] - los[i] + 1);
+      ndim = use_put ? andim : bndim;
+      nelem = 1; for(i=0; i<ndim; i++) nelem *= (his[i] - los[i] + 1);
 
       for(i=0; i<andim; i++) ald[i] = ahi[i] - alo[i] + 1;
       for(i=0; i<bndim; i++) bld[i] = bhi[i] - blo[i] + 1;
 
       base = 0; factor = 1;
-      for(i=0; i<andim; i++) {
+      for(i=0; i<ndim; i++) {
         base += los[i] * factor;
         factor *= ld[i];
       }
@@ -419,13 +420,13 @@ void pnga_copy_patch(char *trans,
           src_idx_ptr = (Integer*) pnga_malloc((andim*nelem), MT_F_INT, "si");
           dst_idx_ptr = (Integer*) pnga_malloc((bndim*nelem), MT_F_INT, "di");
 
-          /* calculate the destination indices */
+          /* calculate the source indices */
 
           /* given los and his, find indices for each elements
            * bvalue: starting index in each dimension
            * bunit: stride in each dimension
            */
-          for (i=0; i<andim; i++) {
+          for (i=0; i<bndim; i++) {
             bvalue[i] = los[i];
             if (i == 0) bunit[i] = 1;
             else bunit[i] = bunit[i-1] * (his[i-1] - los[i-1] + 1);
@@ -434,7 +435,7 @@ void pnga_copy_patch(char *trans,
           /* destination indices */
           for (i=0; i<nelem; i++) {
             for (j=0; j<bndim; j++){
-              src_idx_ptr[i*bndim+j] = bvalue[j];
+              dst_idx_ptr[i*bndim+j] = bvalue[j];
               /* if the next element is the first element in
                * one dimension, increment the index by 1
                */
@@ -446,81 +447,79 @@ void pnga_copy_patch(char *trans,
             }
           }
 
-          /* index factor: reshaping without transpose */
+          /* index factor */
           factor_idx1[0] = 1;
           for (j=1; j<bndim; j++) 
             factor_idx1[j] = factor_idx1[j-1] * bld[j-1];
 
-          /* index factor: reshaping with transpose */
-          factor_idx2[bndim-1] = 1;
-          for (j=(bndim-1)-1; j>=0; j--)
-            factor_idx2[j] = factor_idx2[j+1] * bld[j+1];
-
           /* data factor */
           factor_data[0] = 1;
           for (j=1; j<bndim; j++) 
             factor_data[j] = factor_data[j-1] * ld[j-1];
 
-          /* destination indices */
+          /* source indices */
           for(i=0; i<nelem; i++) {
             /* linearize the n-dimensional indices to one dimension */
             idx = 0;
+            for (j=0; j<bndim; j++) 
+              idx += (dst_idx_ptr[i*bndim+j] - blo[j]) * factor_idx1[j];
+
+            /* convert the one dimensional index to n-dimensional
+             * indices of source
+             */
             if (*trans == 'n' || *trans == 'N')
-              for (j=0; j<andim; j++) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx1[j];
+              for (j=0; j<andim; j++) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
             else
               /* if the patch needs to be transposed, reverse
                * the indices: (i, j, ...) -> (..., j, i)
                */
-              for (j=(andim-1); j>=0; j--) 
-                idx += (src_idx_ptr[i*bndim+j] - blo[j]) *
-                  factor_idx2[j];
+              for (j=(andim-1); j>=0; j--) {
+                src_idx_ptr[i*andim+j] = idx % ald[j] + alo[j]; 
+                idx /= ald[j];
+              }
+          }
 
-            /* convert the one dimensional index to n-dimensional
-             * indices of destination
-             */
-            for (j=0; j<andim; j++) {
-              dst_idx_ptr[i*bndim+j] = idx % ald[j] + alo[j]; 
-              idx /= ald[j];
-            }
+          /* collect the elements in the temporary location */
+          pnga_gather(g_a, tmp_ptr, src_idx_ptr, 0, nelem);
 
-            /* move the data block to create a new block */
+          for(i=0; i<nelem; i++) {
             /* linearize the data indices */
             idx = 0;
             for (j=0; j<bndim; j++) 
-              idx += (src_idx_ptr[i*bndim+j]) * factor_data[j];
+              idx += (dst_idx_ptr[i*bndim+j]) * factor_data[j];
 
             /* adjust the position
              * base: starting address of the first element */
             idx -= base;
 
-            /* move the element to the temporary location */
+            /* move the element to its destination */
             switch(atype) {
-              case C_DBL: ((double*)tmp_ptr)[i] =
-                          ((double*)src_data_ptr)[idx]; 
+              case C_DBL: ((double*)src_data_ptr)[idx] =
+                          ((double*)tmp_ptr)[i]; 
                           break;
               case C_INT:
-                          ((int *)tmp_ptr)[i] = ((int *)src_data_ptr)[idx];
+                          ((int *)src_data_ptr)[idx] = ((int *)tmp_ptr)[i];
                           break;
-              case C_DCPL:((DoubleComplex *)tmp_ptr)[i] =
-                          ((DoubleComplex *)src_data_ptr)[idx];
+              case C_DCPL:((DoubleComplex *)src_data_ptr)[idx] =
+                          ((DoubleComplex *)tmp_ptr)[i];
                           break;
-              case C_SCPL:((SingleComplex *)tmp_ptr)[i] =
-                          ((SingleComplex *)src_data_ptr)[idx];
+              case C_SCPL:((SingleComplex *)src_data_ptr)[idx] =
+                          ((SingleComplex *)tmp_ptr)[i];
                           break;
-              case C_FLOAT: ((float *)tmp_ptr)[i] =
-                            ((float *)src_data_ptr)[idx]; 
+              case C_FLOAT: ((float *)src_data_ptr)[idx] =
+                            ((float *)tmp_ptr)[i]; 
                           break;
-              case C_LONG: ((long *)tmp_ptr)[i] =
-                           ((long *)src_data_ptr)[idx];     
+              case C_LONG: ((long *)src_data_ptr)[idx] =
+                           ((long *)tmp_ptr)[i];     
                           break;
-              case C_LONGLONG: ((long long *)tmp_ptr)[i] =
-                           ((long long *)src_data_ptr)[idx];     
+              case C_LONGLONG: ((long long *)src_data_ptr)[idx] =
+                           ((long long *)tmp_ptr)[i];     
             }
           }
-          pnga_release(g_b, los, his);
-          pnga_gather(g_a, tmp_ptr, dst_idx_ptr, 0, nelem);
+          pnga_release_update(g_b, los, his);
           pnga_free(dst_idx_ptr);
           pnga_free(src_idx_ptr);
           pnga_free(tmp_ptr);
-- 
2.43.0


From 9edf2a36b27439b1e2e458f8fbfd15c81825315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:44 +0000
Subject: [PATCH 035/151] fix: GA_Add_patch uses the leading dimensions of each
 operand

---
 global/src/global.npatch.c | 116 ++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 47 deletions(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 50d3e54..b936bec 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -2494,11 +2494,13 @@ static void snga_acc_patch_values(Integer type, void* alpha, Integer ndim,
 /*\ Utility function to add patch values together
 \*/
 static void snga_add_patch_values(Integer type, void* alpha, void *beta,
-                           Integer ndim, Integer *loC, Integer *hiC, Integer *ldC,
+                           Integer ndim, Integer *loC, Integer *hiC,
+                           Integer *ldA, Integer *ldB, Integer *ldC,
                            void *A_ptr, void *B_ptr, void *C_ptr)
 {
-  Integer bvalue[MAXDIM], bunit[MAXDIM], baseldC[MAXDIM];
-  Integer idx, n1dim;
+  Integer bvalue[MAXDIM], bunit[MAXDIM];
+  Integer baseldA[MAXDIM], baseldB[MAXDIM], baseldC[MAXDIM];
+  Integer idxA, idxB, idxC, n1dim;
   Integer i, j;
   /* compute "local" add */
 
@@ -2511,131 +2513,149 @@ static void snga_add_patch_values(Integer type, void* alpha, void *beta,
    * baseld[1] = ld[0] * ld[1]
    * baseld[2] = ld[0] * ld[1] * ld[2] .....
    */
+  baseldA[0] = ldA[0]; baseldA[1] = baseldA[0] *ldA[1];
+  baseldB[0] = ldB[0]; baseldB[1] = baseldB[0] *ldB[1];
   baseldC[0] = ldC[0]; baseldC[1] = baseldC[0] *ldC[1];
   for(i=2; i<ndim; i++) {
     bvalue[i] = 0;
     bunit[i] = bunit[i-1] * (hiC[i-1] - loC[i-1] + 1);
+    baseldA[i] = baseldA[i-1] * ldA[i];
+    baseldB[i] = baseldB[i-1] * ldB[i];
     baseldC[i] = baseldC[i-1] * ldC[i];
   }
 
   switch(type){
     case C_DBL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++)
-          ((double*)C_ptr)[idx+j] =
+          ((double*)C_ptr)[idxC+j] =
             *(double*)alpha *
-            ((double*)A_ptr)[idx+j] +
+            ((double*)A_ptr)[idxA+j] +
             *(double*)beta *
-            ((double*)B_ptr)[idx+j];
+            ((double*)B_ptr)[idxB+j];
       }
       break;
     case C_DCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++) {
-          DoubleComplex a = ((DoubleComplex *)A_ptr)[idx+j];
-          DoubleComplex b = ((DoubleComplex *)B_ptr)[idx+j];
+          DoubleComplex a = ((DoubleComplex *)A_ptr)[idxA+j];
+          DoubleComplex b = ((DoubleComplex *)B_ptr)[idxB+j];
           DoubleComplex x= *(DoubleComplex*)alpha;
           DoubleComplex y= *(DoubleComplex*)beta;
-          ((DoubleComplex *)C_ptr)[idx+j].real = x.real*a.real -
+          ((DoubleComplex *)C_ptr)[idxC+j].real = x.real*a.real -
             x.imag*a.imag + y.real*b.real - y.imag*b.imag;
-          ((DoubleComplex *)C_ptr)[idx+j].imag = x.real*a.imag +
+          ((DoubleComplex *)C_ptr)[idxC+j].imag = x.real*a.imag +
             x.imag*a.real + y.real*b.imag + y.imag*b.real;
         }
       }
       break;
     case C_SCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++) {
-          SingleComplex a = ((SingleComplex *)A_ptr)[idx+j];
-          SingleComplex b = ((SingleComplex *)B_ptr)[idx+j];
+          SingleComplex a = ((SingleComplex *)A_ptr)[idxA+j];
+          SingleComplex b = ((SingleComplex *)B_ptr)[idxB+j];
           SingleComplex x= *(SingleComplex*)alpha;
           SingleComplex y= *(SingleComplex*)beta;
-          ((SingleComplex *)C_ptr)[idx+j].real = x.real*a.real -
+          ((SingleComplex *)C_ptr)[idxC+j].real = x.real*a.real -
             x.imag*a.imag + y.real*b.real - y.imag*b.imag;
-          ((SingleComplex *)C_ptr)[idx+j].imag = x.real*a.imag +
+          ((SingleComplex *)C_ptr)[idxC+j].imag = x.real*a.imag +
             x.imag*a.real + y.real*b.imag + y.imag*b.real;
         }
       }
       break;
     case C_INT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++)
-          ((int*)C_ptr)[idx+j] = *(int *)alpha *
-            ((int*)A_ptr)[idx+j] + *(int*)beta *
-            ((int*)B_ptr)[idx+j];
+          ((int*)C_ptr)[idxC+j] = *(int *)alpha *
+            ((int*)A_ptr)[idxA+j] + *(int*)beta *
+            ((int*)B_ptr)[idxB+j];
       }
       break;
     case C_FLOAT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++)
-          ((float *)C_ptr)[idx+j] = *(float *)alpha *
-            ((float *)A_ptr)[idx+j] + *(float *)beta *
-            ((float *)B_ptr)[idx+j];
+          ((float *)C_ptr)[idxC+j] = *(float *)alpha *
+            ((float *)A_ptr)[idxA+j] + *(float *)beta *
+            ((float *)B_ptr)[idxB+j];
       }
       break;
     case C_LONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++)
-          ((long *)C_ptr)[idx+j] = *(long *)alpha *
-            ((long *)A_ptr)[idx+j] + *(long *)beta *
-            ((long *)B_ptr)[idx+j];
+          ((long *)C_ptr)[idxC+j] = *(long *)alpha *
+            ((long *)A_ptr)[idxA+j] + *(long *)beta *
+            ((long *)B_ptr)[idxB+j];
       }
       break;
     case C_LONGLONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idxA = idxB = idxC = 0;
         for(j=1; j<ndim; j++) {
-          idx += bvalue[j] * baseldC[j-1];
+          idxA += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
+          idxC += bvalue[j] * baseldC[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiC[j]-loC[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiC[0]-loC[0]+1); j++)
-          ((long long*)C_ptr)[idx+j] = *(long long*)alpha *
-            ((long long*)A_ptr)[idx+j] + *(long long*)beta *
-            ((long long*)B_ptr)[idx+j];
+          ((long long*)C_ptr)[idxC+j] = *(long long*)alpha *
+            ((long long*)A_ptr)[idxA+j] + *(long long*)beta *
+            ((long long*)B_ptr)[idxB+j];
       }
       break;
     default: pnga_error(" wrong data type ",type);
@@ -2711,6 +2731,8 @@ void *alpha, *beta;
     pnga_distribution( g_A, me, loA, hiA);
     pnga_distribution( g_B, me, loB, hiB);
     pnga_distribution( g_c, me, loC, hiC);
+    /* trailing dimensions that only g_a or g_b has are of length one */
+    for(i=cndim; i<MAXDIM; i++) loC[i] = hiC[i] = 1;
 
     /* test if the local portion of patches matches */
     if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
@@ -2739,7 +2761,7 @@ void *alpha, *beta;
         pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
         snga_add_patch_values(atype, alpha, beta, cndim,
-            loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+            loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
         /* release access to the data */
         pnga_release       (g_A, loC, hiC);
@@ -2779,7 +2801,7 @@ void *alpha, *beta;
         pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
         snga_add_patch_values(atype, alpha, beta, cndim,
-            loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+            loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
         /* release access to the data */
         pnga_release       (g_A, loC, hiC);
@@ -2813,7 +2835,7 @@ void *alpha, *beta;
         pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
         snga_add_patch_values(atype, alpha, beta, cndim,
-            loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+            loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
         /* release access to the data */
         pnga_release       (g_A, loC, hiC);
@@ -2927,7 +2949,7 @@ void *alpha, *beta;
             break;
         }
         snga_add_patch_values(atype, alpha, beta, cndim,
-            loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+            loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
       }
     }
 #else
@@ -2943,7 +2965,7 @@ void *alpha, *beta;
         pnga_access_ptr(g_c, loC, hiC, &C_ptr, ldC);
 
         snga_add_patch_values(atype, alpha, beta, cndim,
-            loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+            loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
         /* release access to the data */
         pnga_release       (g_A, loC, hiC);
@@ -3018,7 +3040,7 @@ void *alpha, *beta;
                 break;
             }
             snga_add_patch_values(atype, alpha, beta, cndim,
-                loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+                loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
             /* release access to the data */
             pnga_release_block       (g_A, idx);
@@ -3106,7 +3128,7 @@ void *alpha, *beta;
                 break;
             }
             snga_add_patch_values(atype, alpha, beta, cndim,
-                loC, hiC, ldC, A_ptr, B_ptr, C_ptr);
+                loC, hiC, ldA, ldB, ldC, A_ptr, B_ptr, C_ptr);
 
             /* release access to the data */
             pnga_release_block_grid       ( g_A, index);
-- 
2.43.0


From a5dc2bdc6f721c6dd3d0569e41765e2784671e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 036/151] fix: armci_msg_sel_scope ignores processes without a
 contribution

---
 comex/src-armci/message.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..813f73e 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
+#include <math.h>
 
 #include <mpi.h>
 
@@ -184,6 +186,14 @@ static int get_default_rank()
     return rank;
 }
 
+static int get_default_size()
+{
+    int size;
+    MPI_Comm_size(get_default_comm(), &size);
+    return size;
+}
+
+
 
 static void do_gop(void *x, int n, char* op, int type, ARMCI_Group group)
 {
@@ -297,26 +307,29 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, LOWEST, HIGHEST)   \
     if (type == ARMCI_TYPE) {                                   \
         struct {                                                \
             C_TYPE val;                                         \
             int rank;                                           \
         } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
-        in.rank = get_default_rank();                           \
+        /* a process without a contribution must never win */   \
+        in.val = contribute ? *((C_TYPE*)x)                     \
+            : strncmp(op, "min", 3) == 0 ? HIGHEST : LOWEST;    \
+        in.rank = get_default_rank()                            \
+            + (contribute ? 0 : get_default_size());            \
         if (SCOPE_NODE != scope) {                              \
             comex_barrier(ARMCI_Default_Proc_Group);            \
         }                                                       \
         MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
+        armci_msg_bcast(x, n, out.rank % get_default_size());   \
     }                                                           \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_2INT,         INT_MIN,    INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT,     LONG_MIN,   LONG_MAX)
+    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT, LLONG_MIN,  LLONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT,    -HUGE_VALF, HUGE_VALF)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT,   -HUGE_VAL,  HUGE_VAL)
     {
         comex_error("unsupported SELECT operation", 1);
     }
-- 
2.43.0


From fd6ef9378f5b313b0dff0783798d32bc54d311fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 037/151] fix: armci_msg_sel_scope selects long long values

---
 comex/src-armci/message.c | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index 813f73e..b798090 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -27,6 +27,37 @@ extern int ARMCI_Default_Proc_Group;
 
 /* for armci_msg_sel_scope */
 static MPI_Datatype MPI_LONGLONG_INT;
+static MPI_Op longlong_int_minloc_op = MPI_OP_NULL;
+static MPI_Op longlong_int_maxloc_op = MPI_OP_NULL;
+
+typedef struct {
+    long long val;
+    int rank;
+} longlong_int_t;
+
+/* MPI_MINLOC and MPI_MAXLOC are not defined for a derived datatype;
+ * called for a single pair only */
+static void longlong_int_minloc(void *in, void *inout, int *len, MPI_Datatype *type)
+{
+    longlong_int_t *a = in, *b = inout;
+    if (*len > 0) {
+        if (a->val < b->val || (a->val == b->val && a->rank < b->rank)) {
+            b->val = a->val;
+            b->rank = a->rank;
+        }
+    }
+}
+
+static void longlong_int_maxloc(void *in, void *inout, int *len, MPI_Datatype *type)
+{
+    longlong_int_t *a = in, *b = inout;
+    if (*len > 0) {
+        if (a->val > b->val || (a->val == b->val && a->rank < b->rank)) {
+            b->val = a->val;
+            b->rank = a->rank;
+        }
+    }
+}
 
 /* Information on nodes */
 extern int _number_of_procs_per_node;
@@ -295,13 +326,16 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 #else
         MPI_Type_struct(2, block, disp, type, &MPI_LONGLONG_INT);
 #endif
+        MPI_Type_commit(&MPI_LONGLONG_INT);
+        MPI_Op_create(longlong_int_minloc, 1, &longlong_int_minloc_op);
+        MPI_Op_create(longlong_int_maxloc, 1, &longlong_int_maxloc_op);
     }
 
     if (strncmp(op, "min", 3) == 0) {
-        mpi_op = MPI_MINLOC;
+        mpi_op = (ARMCI_LONG_LONG == type) ? longlong_int_minloc_op : MPI_MINLOC;
     }
     else if (strncmp(op, "max", 3) == 0) {
-        mpi_op = MPI_MAXLOC;
+        mpi_op = (ARMCI_LONG_LONG == type) ? longlong_int_maxloc_op : MPI_MAXLOC;
     }
     else {
         comex_error("unsupported armci_msg_sel_scope operation", 1);
-- 
2.43.0


From a0121be61a813f3f4d712658e241b78df281cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 038/151] fix: GA_Select_elem does not reuse the index found in
 an earlier block

---
 global/src/select.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/select.c b/global/src/select.c
index e287928..b92cdf5 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -144,6 +144,8 @@ static void snga_select_elem(Integer type, char* op, void *ptr, Integer elems, e
                       Integer *ind)
 {
   Integer i;
+
+  *ind = 0;
   switch (type){
     int *ia,ival;
     double *da,dval;
-- 
2.43.0


From 5a53b04a363db8574dba5e43735aedef50f9970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 039/151] fix: GA_Zero_diagonal starts at the diagonal of each
 block

---
 global/src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index d47cc0d..d2b46b3 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2349,13 +2349,13 @@ void pnga_zero_diagonal(Integer g_a)
 #if 1
   pnga_local_iterator_init(g_a, &hdl);
   while (pnga_local_iterator_next(&hdl,loA,hiA,&ptr,&ld)) {
-    offset = 0;
     if (loA[0] > 0) {
       lo[0] = GA_MAX (loA[0], loA[1]);
       lo[1] = GA_MAX (loA[0], loA[1]);
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        offset = (lo[0] - loA[0]) + (lo[1] - loA[1])*ld;
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
-- 
2.43.0


From 5b3896c1129d0005fe04a73def6ee40ce3893a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 040/151] fix: GA_Scale_rows and GA_Scale_cols multiply complex
 elements

---
 global/src/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index d2b46b3..5c089f1 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2528,16 +2528,18 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex a = dca[j*ld+i], b = ((DoubleComplex *) buf)[i];
+              (dca[j*ld+i]).real = a.real*b.real - a.imag*b.imag;
+              (dca[j*ld+i]).imag = a.real*b.imag + a.imag*b.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex a = fca[j*ld+i], b = ((SingleComplex *) buf)[i];
+              (fca[j*ld+i]).real = a.real*b.real - a.imag*b.imag;
+              (fca[j*ld+i]).imag = a.real*b.imag + a.imag*b.real;
             }
           break;
         default:
@@ -2734,8 +2736,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex a = dca[j*ld+i], b = ((DoubleComplex *) buf)[j];
+              (dca[j*ld+i]).real = a.real*b.real - a.imag*b.imag;
+              (dca[j*ld+i]).imag = a.real*b.imag + a.imag*b.real;
             }
           break;
         case C_SCPL:
@@ -2743,8 +2746,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex a = fca[j*ld+i], b = ((SingleComplex *) buf)[j];
+              (fca[j*ld+i]).real = a.real*b.real - a.imag*b.imag;
+              (fca[j*ld+i]).imag = a.real*b.imag + a.imag*b.real;
             }
           break;
         default:
-- 
2.43.0


From dd06de54c018e1eee68997c0a71d1ccef22f91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 041/151] fix: GA_Norm1 and GA_Norm_infinity take all local
 blocks into account

---
 global/src/matrix.c | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 5c089f1..3e60c7d 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -837,7 +837,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -845,17 +844,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -867,10 +861,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -882,14 +872,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
@@ -1154,22 +1142,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1181,8 +1165,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1194,14 +1176,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
-- 
2.43.0


From ca24a87489d729e9f0e7ace8ea47ff94d6a6e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 042/151] fix: GA_Step_max_patch and GA_Step_bound_info_patch
 leave out elements outside of the patch

---
 global/src/elem_alg.c | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index e330530..9a2b547 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -3159,6 +3159,11 @@ void pnga_step_bound_info_patch(
      void *sresult = NULL;
      void *sresult2 = NULL;
      void *alpha = NULL,*beta = NULL;
+     double  dposinf = GA_INFINITY_D, dneginf = GA_NEGATIVE_INFINITY_D;
+     long    lposinf = GA_INFINITY_L, lneginf = GA_NEGATIVE_INFINITY_L;
+     int     iposinf = GA_INFINITY_I, ineginf = GA_NEGATIVE_INFINITY_I;
+     float   fposinf = GA_INFINITY_F, fneginf = GA_NEGATIVE_INFINITY_F;
+     void *posinf = NULL, *neginf = NULL; /* values outside of the patch */
      int local_sync_begin,local_sync_end;
      int i;
 
@@ -3260,6 +3265,8 @@ void pnga_step_bound_info_patch(
 	 sresult2 = &iresult2;
 	 alpha    = &ialpha;
 	 beta     = &ibeta;
+	 posinf   = &iposinf;
+	 neginf   = &ineginf;
 	 break;
        case C_DCPL:
        case C_SCPL:
@@ -3271,18 +3278,24 @@ void pnga_step_bound_info_patch(
 	 sresult2 = &dresult2;
 	 alpha    = &dalpha;
 	 beta     = &dbeta;
+	 posinf   = &dposinf;
+	 neginf   = &dneginf;
 	 break;
        case C_FLOAT:
 	 sresult = &fresult;
 	 sresult2 = &fresult2;
 	 alpha    = &falpha;
 	 beta     = &fbeta;
+	 posinf   = &fposinf;
+	 neginf   = &fneginf;
 	 break;
        case C_LONG:
 	 sresult = &lresult;
 	 sresult2 = &lresult2;
 	 alpha    = &lalpha;
 	 beta     = &lbeta;
+	 posinf   = &lposinf;
+	 neginf   = &lneginf;
 	 break;
        default:
 	 pnga_error("Ga_step_max_patch_: alpha/beta set wrong data type.", xxtype);
@@ -3318,11 +3331,12 @@ void pnga_step_bound_info_patch(
        pnga_error("pnga_step_bound_info_patch: Upper bound is not > xx.", -1);
 
      /* Then compute t = positve elements of vv */
-     pnga_zero(g_T);
-     pnga_elem_maximum(g_vv,g_T,g_T);
+     pnga_fill(g_T, posinf);
+     pnga_zero_patch(g_T, xxlo, xxhi);
+     pnga_elem_maximum_patch(g_vv, vvlo, vvhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi);
 
      /* Then, compute (xu-xx)/vv */
-     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, vvlo, vvhi, g_T, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi); 
 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_T, "min", sresult, &index[0]); 
@@ -3363,12 +3377,13 @@ void pnga_step_bound_info_patch(
        pnga_error("pnga_step_bound_info_patch: Lower bound is not < xx.", -1);
 
      /* Then compute r = negative elements of vv */
-     pnga_zero(g_R);
-     pnga_elem_minimum(g_vv,g_R,g_R);
-     pnga_abs_value(g_R);
+     pnga_fill(g_R, posinf);
+     pnga_zero_patch(g_R, xxlo, xxhi);
+     pnga_elem_minimum_patch(g_vv, vvlo, vvhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi);
+     pnga_abs_value_patch(g_R, xxlo, xxhi);
 
      /* Then, compute (xx-xl)/vv */
-     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, vvlo, vvhi, g_R, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi); 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_R, "min", sresult2, &index[0]); 
      switch (xxtype)
@@ -3404,12 +3419,12 @@ void pnga_step_bound_info_patch(
        Set S to be the element-wise product of S and Q.
        It will be zero when either of them is zero.
      */
-     pnga_elem_multiply(g_Q,g_S,g_S);
+     pnga_elem_multiply_patch(g_Q, xxlo, xxhi, g_S, xxlo, xxhi, g_S, xxlo, xxhi);
      /*
        Set Q to the |vv|.
      */
-     pnga_copy(g_vv,g_Q);
-     pnga_abs_value(g_Q);
+     pnga_copy_patch("n", g_vv, vvlo, vvhi, g_Q, xxlo, xxhi);
+     pnga_abs_value_patch(g_Q, xxlo, xxhi);
      /* 
        Now add q and s to get a vector that is zero only
        where g_vv was zero and g_xx meets one of the
@@ -3458,7 +3473,9 @@ void pnga_step_bound_info_patch(
        Then, we will select the maximum of the array g_t, that will
        be boundmax .
      */ 
-     pnga_select_elem(g_T, "max", sresult, &index[0]); 
+     pnga_fill(g_Q, neginf);
+     pnga_copy_patch("n", g_T, xxlo, xxhi, g_Q, xxlo, xxhi);
+     pnga_select_elem(g_Q, "max", sresult, &index[0]); 
      switch (xxtype)
        {
        case C_INT:
@@ -3527,6 +3544,11 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
   int i;
   Integer compatible;
   void *sresult = NULL;
+  double  dneginf = GA_NEGATIVE_INFINITY_D;
+  long    lneginf = GA_NEGATIVE_INFINITY_L;
+  int     ineginf = GA_NEGATIVE_INFINITY_I;
+  float   fneginf = GA_NEGATIVE_INFINITY_F;
+  void *neginf = NULL;
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -3576,6 +3598,7 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
   {
     case C_INT:
       sresult = &iresult;
+      neginf = &ineginf;
       break;
     case C_DCPL:
     case C_SCPL:
@@ -3584,12 +3607,15 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
       break;
     case C_DBL:
       sresult = &dresult;
+      neginf = &dneginf;
       break;
     case C_FLOAT:
       sresult = &fresult;
+      neginf = &fneginf;
       break;
     case C_LONG:
       sresult = &lresult;
+      neginf = &lneginf;
       break;
     default:
       pnga_error("Ga_step_max_patch_: wrong data type.", atype);
@@ -3634,6 +3660,9 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
     if(g_c==0)
       pnga_error("ga_step_max_patch_:fail to duplicate array c", g_a);
 
+    /*elements outside of the patch must not be selected */
+    pnga_fill(g_c, neginf);
+
     /*
        pnga_elem_divide_patch(g_a, alo, ahi, g_b, blo, bhi, g_c, alo, ahi);
      */
-- 
2.43.0


From 03a1912cac7d936a31a9673ba9a8e76e9d625467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 043/151] fix: GA_Step_max of integer arrays ignores positive
 directions

---
 global/src/elem_alg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 9a2b547..2ddcd29 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -3666,7 +3666,11 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
     /*
        pnga_elem_divide_patch(g_a, alo, ahi, g_b, blo, bhi, g_c, alo, ahi);
      */
-    pnga_elem_step_divide_patch(g_a, alo, ahi, g_b, blo, bhi, 
+    /*only the negative elements of g_b limit the step: an integer division
+      by a positive one may give zero */
+    pnga_zero_patch(g_c, alo, ahi);
+    pnga_elem_minimum_patch(g_b, blo, bhi, g_c, alo, ahi, g_c, alo, ahi);
+    pnga_elem_step_divide_patch(g_a, alo, ahi, g_c, alo, ahi,
         g_c, alo, ahi);
 
     /*Now look at each element of the array g_c. If an element of g_c is positive,
-- 
2.43.0


From 7ae238a61539c382058d75cda25a017a76d3f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 044/151] fix: GA_Select_elem accepts arrays whose local blocks
 are not contiguous

---
 global/src/select.c | 50 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/global/src/select.c b/global/src/select.c
index b92cdf5..7831417 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -286,37 +286,41 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   first_pass = 1;
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
-    Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
+    Integer update, nrows = 1, irow;
     participate =1;
-    ptr = (void*)cptr;
+    elems = hi[0]-lo[0]+1;
+    for (i=1; i<ndim; i++) nrows *= hi[i]-lo[i]+1;
+
+    /* the block need not be contiguous, so take one row after the other */
+    for (irow=0; irow<nrows; irow++) {
+      Integer subscr[MAXDIM], offset = 0, stride = 1, rest = irow;
+      for (i=1; i<ndim; i++) {
+        subscr[i] = lo[i] + rest%(hi[i]-lo[i]+1);
+        rest /= hi[i]-lo[i]+1;
+        stride *= ld[i-1];
+        offset += (subscr[i]-lo[i])*stride;
+      }
+      ptr = (void*)(cptr + offset*GAsizeofM(type));
 
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
+      if (first_pass) {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &info, &ind);
+        update = 1;
+      } else {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &new_info, &ind);
 
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+        /* compare with the rows before */
+        update = 0;
+        snga_compare_elem(type,op, &new_info, &info, &update);
       }
-    } else {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &new_info, &ind);
-
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
-        }
+        subscr[0] = lo[0] + ind;
+        for (i=0; i<ndim; i++) info.subscr[i] = subscr[i];
       }
+      first_pass = 0;
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From e65ba9f25e5a08ced26adcaeb007fd2baebec92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 045/151] fix: block-cyclic matrix multiplication honours the
 patches of A, B and C and sizes its buffers by their blocks

---
 global/src/matmul.c | 46 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..3ba0e9f 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2665,36 +2665,37 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
         */
     /* Copy limits since patch intersect modifies loC array */
     for (n=0; n<crank; n++) {
-      lot[n] = loC[n];
-      hit[n] = hiC[n];
+      lot[n] = clo[n];
+      hit[n] = chi[n];
     }
 
     /* check to see if this block overlaps with patch on C */
     if (pnga_patch_intersect(loC,hiC,lot,hit,crank)) {
-      int istart, in;
+      Integer istart, in, rows, cols;
+      rows = hit[0]-lot[0]+1;
+      cols = hit[1]-lot[1]+1;
 
       /* Calculating number of blocks for inner dimension. Assume that 
        * number of rows in block returned by iterator is a good size */
-      num_blocks = (ahi[1]-alo[1]+1)/(hit[0]-lot[0]+1);
-      if (num_blocks*(hit[0]-lot[0]+1) < ahi[1]-alo[1]+1) num_blocks++;
+      num_blocks = k/rows;
+      if (num_blocks*rows < k) num_blocks++;
 
       /* Calculate offset from  src_ptr to beginning of lot */ 
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
+      /* blocks of A are at most rows x rows, blocks of B rows x cols */
+      a_buf = (void*)malloc(rows*rows*elemsize);
+      b_buf = (void*)malloc(rows*cols*elemsize);
 
       /* calculate starting block index */
-      istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
+      istart = (lot[0]-clo[0])/rows;
 
       /* loop over block pairs */
       for (nb=0; nb<num_blocks; nb++) {
@@ -2704,17 +2705,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         */
         in = istart + nb;
         in = in%num_blocks;
-        nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        nlo = alo[1]+in*rows;
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
-        hiA[1] = loA[1]+(hit[0]-lot[0]);
+        hiA[1] = loA[1]+rows-1;
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2723,18 +2720,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
-        nlo = blo[0]+in*(hit[0]-lot[0]+1);
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
+        nlo = blo[0]+in*rows;
         loB[0] = nlo;
-        hiB[0] = loB[0]+(hit[0]-lot[0]);
+        hiB[0] = loB[0]+rows-1;
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
-- 
2.43.0


From c8ec67dfb1ac4112db937c0d8aa829eaa5877ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 046/151] fix: block-cyclic matrix multiplication with beta
 zero does not read C

---
 global/src/matmul.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 3ba0e9f..fe3042e 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2583,6 +2583,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
   SingleComplex ONE_F;
   BlasInt idim_t, jdim_t, kdim_t, adim_t, bdim_t, cdim_t;
   char *src_ptr;
+  int need_scaling;
   _iterator_hdl hdl_c;
   int local_sync_begin,local_sync_end;
 
@@ -2656,8 +2657,25 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     pnga_error("Outer dimensions of A and B do not match dimensions of C ",0);
   }
 
-  /* Scale patch of C by beta */
-  pnga_scale_patch(g_c,clo,chi,beta);
+  /* Scale patch of C by beta. If beta is zero C is overwritten, whatever it holds */
+  switch (atype) {
+    case C_DCPL:
+      need_scaling = ((DoubleComplex*)beta)->real != 0 ||
+        ((DoubleComplex*)beta)->imag != 0;
+      break;
+    case C_SCPL:
+      need_scaling = ((SingleComplex*)beta)->real != 0 ||
+        ((SingleComplex*)beta)->imag != 0;
+      break;
+    case C_DBL:
+      need_scaling = *(DoublePrecision*)beta != 0;
+      break;
+    default:
+      need_scaling = *(float*)beta != 0;
+      break;
+  }
+  if (need_scaling) pnga_scale_patch(g_c,clo,chi,beta);
+  else pnga_fill_patch(g_c,clo,chi,beta);
 
   /* Multiplication is feasible. Start iterating over patches of C */
   pnga_local_iterator_init(g_c, &hdl_c);
-- 
2.43.0


From 89592b7a3b78a0031d1a857eb1f18a9b2c8613a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 047/151] fix: matmul_patch_alt transposes the matrix plane of
 both operands in arrays of more than two dimensions

---
 global/src/matmul.c | 130 +++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 87 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index fe3042e..bdf6bf9 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2396,6 +2396,45 @@ void pnga_matmul_patch(char *transa, char *transb, void *alpha, void *beta,
     g_b,blo,bhi,-1,g_c,clo,chi);
 }
 
+/*\ turn the bounds of a patch before the transpose into those after it, by
+ *  exchanging its two non-unit dimensions. If the patch is a vector in an array
+ *  of more than two dimensions, vec is the dimension it lies on
+\*/
+static void gai_swap_2d_patch(Integer rank, Integer lo[], Integer hi[], int *vec)
+{
+  Integer tmp;
+  int d, e = 0, ipos = -1, jpos = -1;
+
+  *vec = -1;
+  if (rank > 2) {
+    /* find out how many patch dimensions are greater than 1*/
+    for (d=0; d<rank; d++) {
+      if (hi[d]-lo[d] > 0) {
+        if (e == 0) ipos = d;
+        else if (e == 1) jpos = d;
+        else pnga_error("Patch has more than 2 dimensions",0);
+        e++;
+      }
+    }
+    if (e == 0) return;
+    if (e == 1) {
+      /* patch is a vector */
+      *vec = ipos;
+      if (ipos < rank-1) {
+        jpos = ipos + 1;
+      } else {
+        jpos = ipos;
+        ipos--;
+      }
+    }
+  } else {
+    ipos = 0;
+    jpos = 1;
+  }
+  tmp = lo[ipos]; lo[ipos] = lo[jpos]; lo[jpos] = tmp;
+  tmp = hi[ipos]; hi[ipos] = hi[jpos]; hi[jpos] = tmp;
+}
+
 /*\ MATRIX MULTIPLICATION for 2d patches of multi-dimensional arrays 
  *  
  *  C[lo:hi,lo:hi] = alpha*op(A)[lo:hi,lo:hi] * op(B)[lo:hi,lo:hi]        
@@ -2419,103 +2458,20 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
     Integer g_b, Integer blo[], Integer bhi[], 
     Integer g_c, Integer clo[], Integer chi[])
 {
-  int aivec, bivec;
-  int e, d, ipos, jpos;
-  Integer atype, btype, arank, brank, lo, hi;
+  int aivec = -1, bivec = -1;
+  Integer atype, btype, arank, brank;
   Integer adims[GA_MAX_DIM],bdims[GA_MAX_DIM];
   /* if the patch is transposed, find the two indices that correspond to the
    * non-unit dimensions */
   if (*transa == 't' || *transa == 'T') {
     pnga_inquire(g_a, &atype, &arank, adims);
-    aivec = -1;
-    if (arank > 2) {
-      ipos = -1;
-      jpos = -1;
-      e = 0;
-      /* find out how many patch dimensions are greater than 1*/
-      for (d=0; d<arank; d++) {
-        if (ahi[d]-alo[d] > 0 && ipos == -1) {
-          ipos = d;
-          e++;
-        } else if (ahi[d]-alo[d] > 0 && jpos == -1) {
-          jpos = d;
-          e++;
-        } else if (ahi[d]-alo[d] > 0) {
-          pnga_error("Patch A has more than 2 dimensions",0);
-        }
-      }
-      if (e == 0) {
-        aivec = -1;
-      } else if (e == 1) {
-        /* array is a vector */
-        aivec = ipos;
-        if (ipos < arank-1) {
-          jpos = ipos + 1;
-        } else {
-          jpos = ipos;
-          ipos--;
-        }
-      } else {
-        aivec = -1;
-      }
-    }
-    lo = alo[0];
-    hi = ahi[0];
-    alo[0] = alo[1];
-    ahi[0] = ahi[1];
-    alo[1] = lo;
-    ahi[1] = hi;
+    gai_swap_2d_patch(arank, alo, ahi, &aivec);
   }
   if (*transb == 't' || *transb == 'T') {
     pnga_inquire(g_b, &btype, &brank, bdims);
-    bivec = -1;
-    if (brank > 2) {
-      ipos = -1;
-      jpos = -1;
-      e = 0;
-      /* find out how many patch dimensions are greater than 1*/
-      for (d=0; d<brank; d++) {
-        if (bhi[d]-blo[d] > 0 && ipos == -1) {
-          ipos = d;
-          e++;
-        } else if (bhi[d]-blo[d] > 0 && jpos == -1) {
-          jpos = d;
-          e++;
-        } else if (bhi[d]-blo[d] > 0) {
-          pnga_error("Patch A has more than 2 dimensions",0);
-        }
-      }
-      if (e == 0) {
-        bivec = -1;
-      } else if (e == 1) {
-        /* array is a vector */
-        bivec = ipos;
-        if (ipos < arank-1) {
-          jpos = ipos + 1;
-        } else {
-          jpos = ipos;
-          ipos--;
-        }
-      } else {
-        bivec = -1;
-      }
-      lo = blo[ipos];
-      hi = bhi[ipos];
-      blo[ipos] = blo[jpos];
-      bhi[ipos] = bhi[jpos];
-      blo[jpos] = lo;
-      bhi[jpos] = hi;
-    } else {
-      lo = blo[0];
-      hi = bhi[0];
-      blo[0] = blo[1];
-      bhi[0] = bhi[1];
-      blo[1] = lo;
-      bhi[1] = hi;
-    }
+    gai_swap_2d_patch(brank, blo, bhi, &bivec);
   }
 
-
   gai_matmul_patch(transa,transb,alpha,beta,g_a,alo,ahi,aivec,
     g_b,blo,bhi,bivec,g_c,clo,chi);
 }
-- 
2.43.0


From f5d4a1b2d92f2ddba5f2e3c6e42664867f2f1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 048/151] fix: GA_List_nodeid allocates room for Integer, not
 int, entries

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 98f3032..558c186 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1496,7 +1496,7 @@ void GA_List_nodeid(int *nlist, int nprocs)
   Integer i, procs;
   Integer *list;
   procs = (Integer)(nprocs);
-  list = malloc(procs*sizeof(int));
+  list = malloc(procs*sizeof(Integer));
   wnga_list_nodeid(list, procs);
   for (i=0; i<procs; i++) {
     nlist[i] = (int)list[i];
@@ -1509,7 +1509,7 @@ void NGA_List_nodeid(int *nlist, int nprocs)
   Integer i, procs;
   Integer *list;
   procs = (Integer)(nprocs);
-  list = malloc(procs*sizeof(int));
+  list = malloc(procs*sizeof(Integer));
   wnga_list_nodeid(list, procs);
   for (i=0; i<procs; i++) {
     nlist[i] = (int)list[i];
-- 
2.43.0


From 57b5de1ea602424d395b8af081be51fcb6f43885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 049/151] fix: reductions, broadcasts and barriers on the world
 handle use the world, not the default group

---
 global/src/collect.c | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/global/src/collect.c b/global/src/collect.c
index 32b564e..9cd7306 100644
--- a/global/src/collect.c
+++ b/global/src/collect.c
@@ -31,6 +31,22 @@ extern MPI_Comm armci_group_comm(ARMCI_Group *group);
 #endif
 
 
+#ifdef MSG_COMMS_MPI
+/* the ARMCI group behind a GA group handle; the world for the world handle,
+ * whatever the default group is */
+static ARMCI_Group gai_armci_group(Integer p_grp)
+{
+    ARMCI_Group group;
+    if (p_grp > 0) {
+        group = PGRP_LIST[p_grp].group;
+    } else {
+        ARMCI_Group_get_world(&group);
+    }
+    return group;
+}
+#endif
+
+
 #if HAVE_SYS_WEAK_ALIAS_PRAGMA
 #   pragma weak wnga_msg_brdcst = pnga_msg_brdcst
 #endif
@@ -91,7 +107,12 @@ void pnga_pgroup_brdcst(Integer grp_id, Integer type, void *buf,
 #endif
     } else {
        int aroot = (int)originator;
+#ifdef MSG_COMMS_MPI
+       ARMCI_Group group = gai_armci_group(p_grp);
+       armci_msg_group_bcast_scope(SCOPE_ALL,buf,(int)len,aroot,&group);
+#else
        armci_msg_bcast(buf, (int)len, (int)aroot);
+#endif
     }
 }
 
@@ -156,7 +177,8 @@ void pnga_msg_pgroup_sync(Integer grp_id)
     }
     else {
 #     if defined(MSG_COMMS_MPI)
-       armci_msg_barrier();
+       ARMCI_Group group = gai_armci_group(p_grp);
+       armci_msg_group_barrier(&group);
 #     else
        tcg_synch(GA_TYPE_SYN);
 #    endif
@@ -170,39 +192,41 @@ void pnga_msg_pgroup_sync(Integer grp_id)
 void pnga_pgroup_gop(Integer p_grp, Integer type, void *x, Integer n, char *op)
 {
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-    if (p_grp > 0) {
 #if defined(MSG_COMMS_MPI)
-        int group = (int)p_grp;
+    {
+        ARMCI_Group group = gai_armci_group(p_grp);
         switch (type){
             case C_INT:
-                armci_msg_group_igop((int*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_igop((int*)x, n, op, &group);
                 break;
             case C_LONG:
-                armci_msg_group_lgop((long*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_lgop((long*)x, n, op, &group);
                 break;
             case C_LONGLONG:
-                armci_msg_group_llgop((long long*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_llgop((long long*)x, n, op, &group);
                 break;
             case C_FLOAT:
-                armci_msg_group_fgop((float*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_fgop((float*)x, n, op, &group);
                 break;
             case C_DBL:
-                armci_msg_group_dgop((double*)x, n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_dgop((double*)x, n, op, &group);
                 break;
             case C_SCPL:
-                armci_msg_group_fgop((float*)x, 2*n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_fgop((float*)x, 2*n, op, &group);
                 break;
             case C_DCPL:
-                armci_msg_group_dgop((double*)x, 2*n, op, (&(PGRP_LIST[group].group)));
+                armci_msg_group_dgop((double*)x, 2*n, op, &group);
                 break;
             default: pnga_error(" wrong data type ",type);
         }
+    }
 #else
+    if (p_grp > 0) {
         pnga_error("Groups not implemented for system",0);
-#endif
     } else {
         pnga_gop(type, x, n, op);
     }
+#endif
 }
 
 
-- 
2.43.0


From 40ca97a14e39fd71486bffc48f1f2888d9ed8400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 050/151] fix: the product reduction of complex vectors uses
 complex multiplication

---
 global/src/collect.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/global/src/collect.c b/global/src/collect.c
index 9cd7306..26d05fe 100644
--- a/global/src/collect.c
+++ b/global/src/collect.c
@@ -44,6 +44,23 @@ static ARMCI_Group gai_armci_group(Integer p_grp)
     }
     return group;
 }
+
+/* "+", max, ... act on the two parts of a complex number on their own, but
+ * the product needs complex arithmetic */
+static void gai_group_cgop(Integer type, void *x, Integer n, char *op,
+                           ARMCI_Group *group)
+{
+    if (strncmp(op, "*", 1) == 0) {
+        armci_msg_group_barrier(group);
+        MPI_Allreduce(MPI_IN_PLACE, x, (int)n,
+                type == C_SCPL ? MPI_C_FLOAT_COMPLEX : MPI_C_DOUBLE_COMPLEX,
+                MPI_PROD, armci_group_comm(group));
+    } else if (type == C_SCPL) {
+        armci_msg_group_fgop((float*)x, 2*n, op, group);
+    } else {
+        armci_msg_group_dgop((double*)x, 2*n, op, group);
+    }
+}
 #endif
 
 
@@ -212,10 +229,8 @@ void pnga_pgroup_gop(Integer p_grp, Integer type, void *x, Integer n, char *op)
                 armci_msg_group_dgop((double*)x, n, op, &group);
                 break;
             case C_SCPL:
-                armci_msg_group_fgop((float*)x, 2*n, op, &group);
-                break;
             case C_DCPL:
-                armci_msg_group_dgop((double*)x, 2*n, op, &group);
+                gai_group_cgop(type, x, n, op, &group);
                 break;
             default: pnga_error(" wrong data type ",type);
         }
@@ -259,10 +274,8 @@ void pnga_gop(Integer type, void *x, Integer n, char *op)
                 armci_msg_dgop((double*)x, n, op);
                 break;
             case C_SCPL:
-                armci_msg_fgop((float*)x, 2*n, op);
-                break;
             case C_DCPL:
-                armci_msg_dgop((double*)x, 2*n, op);
+                pnga_pgroup_gop(p_grp, type, x, n, op);
                 break;
             default:
                 pnga_error(" wrong data type ",type);
-- 
2.43.0


From c2d61b5bd68dcbd2349ac854b2f3c89e0e997d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 051/151] fix: GA_Pgroup_duplicate gives the copy the members
 of the original for every parent and default group

---
 global/src/base.c | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index f6756a9..c2fba55 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1216,13 +1216,12 @@ Integer pnga_pgroup_create(Integer *list, Integer count)
 
 Integer pnga_pgroup_duplicate(Integer grp)
 {
-    Integer pgrp_handle, i, j, nprocs, itmp;
+    Integer pgrp_handle, i;
     int tmp_count;
-    int *tmp_list, *tmp2_list;
+    int *tmp_list;
 #ifdef MSG_COMMS_MPI
     ARMCI_Group *tmpgrp;
 #endif
-    Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
@@ -1261,32 +1260,19 @@ Integer pnga_pgroup_duplicate(Integer grp)
           = i;
       }
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
+    tmp_count = (int)pnga_pgroup_nnodes(grp);
 
+    /* the members are listed by their world ids, so the communication group
+       has to be created in the world, whatever the default group is */
     tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
+    for (i=0; i<tmp_count; i++) {
+       tmp_list[i] = PGRP_LIST[pgrp_handle].inv_map_proc_list[i];
     }
     
     PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
     PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
+    PGRP_LIST[pgrp_handle].parent = grp != -1 ? PGRP_LIST[grp].parent : -1;
     PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
 #ifdef MSG_COMMS_MPI
     tmpgrp = &PGRP_LIST[pgrp_handle].group;
 #if ENABLE_CHECKPOINT
@@ -1294,10 +1280,16 @@ Integer pnga_pgroup_duplicate(Integer grp)
        tmpgrp = ARMCI_Get_ft_group();
     else
 #endif
+    {
+       ARMCI_Group save_grp, world_grp;
+       ARMCI_Group_get_default(&save_grp);
+       ARMCI_Group_get_world(&world_grp);
+       ARMCI_Group_set_default(&world_grp);
        ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
+       ARMCI_Group_set_default(&save_grp);
+    }
 #endif
 
-    GA_Default_Proc_Group = save_grp;
     /* Clean up temporary arrays */
     free(tmp_list);
 
-- 
2.43.0


From a02a6fc86bb54bf0f3653ab1e16147312217d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 052/151] fix: destroying a processor group twice is reported
 instead of freeing it twice

---
 global/src/base.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index c2fba55..cd4023a 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1328,6 +1328,10 @@ logical pnga_pgroup_destroy(Integer grp_id)
 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
 
+  if (PGRP_LIST[grp_id].actv == 0) {
+    return FALSE;
+  }
+
 #ifdef MSG_COMMS_MPI
        ARMCI_Group_free(&PGRP_LIST[grp_id].group);
 #endif
@@ -1342,9 +1346,6 @@ logical pnga_pgroup_destroy(Integer grp_id)
   }while(i<_max_global_array && ok);
   if (!ok) pnga_error("Attempt to destroy process group with attached GAs",grp_id);
   
-  if (PGRP_LIST[grp_id].actv == 0) {
-    ret = FALSE;
-  }
   PGRP_LIST[grp_id].actv = 0;
 
   /* Deallocate memory for lists */
-- 
2.43.0


From 3dc6f9497a95399df32d2459d917a0c3e31c8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 053/151] fix: MA refuses requests whose length in bytes
 overflows

---
 ma/ma.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..3eaed70 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2007,6 +2007,17 @@ public Boolean MA_allocate_heap(
      * attempt to allocate space
      */
 
+    /* a request larger than the segment cannot succeed; refusing it here keeps
+     * the computation of its length from overflowing */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_allocate_heap", ma_ebuf);
+        return MA_FALSE;
+    }
+
     ar.datatype = datatype;
     ar.nelem = nelem;
 
@@ -3302,6 +3313,17 @@ public Boolean MA_push_stack(
      * attempt to allocate space
      */
 
+    /* a request larger than the segment cannot succeed; refusing it here keeps
+     * the computation of its length from overflowing */
+    if ((ulongi)nelem > (ulongi)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     ar.datatype = datatype;
     ar.nelem = nelem;
 
-- 
2.43.0


From 2c5f2369d06850ad68b71021be903c75a098b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 054/151] fix: MA_free_heap_piece keeps the block's own layout
 when the requested alignment has changed

---
 ma/ma.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 3eaed70..4104117 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2209,7 +2209,6 @@ public Boolean MA_free_heap_piece(
     AD        *ad;        /* AD for memhandle */
     AD        *ad_reclaim;    /* AD for data returned */
     AR        ar;        /* AR for data kept */
-    Pointer    client_space;    /* location of client_space */
     ulongi    nbytes;        /* length of block for data kept */
 
 #ifdef STATS
@@ -2248,8 +2247,15 @@ public Boolean MA_free_heap_piece(
     ar.datatype = ad->datatype;
     ar.nelem = ad->nelem - nelem;
 
-    /* perform trial allocation to determine size */
-    balloc_after(&ar, (Pointer)ad, &client_space, &nbytes);
+    /*
+     * Determine the size of the data kept.  The client space stays where it
+     * is, so a trial allocation will not do: the alignment requested with
+     * MA_set_numalign may have changed since the block was allocated.
+     */
+    nbytes = (ulongi)mai_round((size_t)(ad->client_space
+            + (ar.nelem * ma_sizeof[ar.datatype])
+            + sizeof(Guard) - (Pointer)ad),
+        (ulongi)ALIGNMENT);
 
     if (nbytes < ad->nbytes)
     {
-- 
2.43.0


From 700c2bc0165a55688d5c54e43260396cc05bafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 055/151] fix: MA_inquire_heap_no_partition counts free heap
 blocks beyond the partition

---
 ma/ma.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 4104117..da1ff2f 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -176,7 +176,7 @@ private void list_insert_ordered(AD *ad, AD **list, Boolean (*pred)(AD *, AD *))
 private Boolean list_member(AD *ad, AD *list);
 private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
-private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem);
+private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem, Pointer limit);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
@@ -1465,13 +1465,14 @@ private void list_verify(list, block_type, preamble, blocks,
 /*
  * Return the maximum number of datatype elements that can currently be
  * accomodated in a heap fragment (a block on the heap free list) entirely
- * within the heap region, or 0 if this number is less than min_nelem.
+ * below limit, or 0 if this number is less than min_nelem.
  */
 /* ------------------------------------------------------------------------- */
 
-private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
+private Integer ma_max_heap_frag_nelem(datatype, min_nelem, limit)
     Integer    datatype;    /* of elements */
     Integer    min_nelem;    /* for fragment to be considered */
+    Pointer    limit;    /* first address past the memory considered */
 {
     ulongi    min_bytes;    /* for fragment to be considered */
     AD        *ad;        /* traversal pointer */
@@ -1489,20 +1490,20 @@ private Integer ma_max_heap_frag_nelem(datatype, min_nelem)
         /*
          * There are 3 cases to consider:
          *
-         * (a) fragment is outside heap region
-         * (b) fragment straddles partition between heap and stack regions
-         * (c) fragment is inside heap region
+         * (a) fragment is beyond limit
+         * (b) fragment straddles limit
+         * (c) fragment is below limit
          */
 
-        if ((Pointer)ad >= ma_partition)
+        if ((Pointer)ad >= limit)
         {
             /* case (a): reject */
             continue;
         }
-        else if (((Pointer)ad + ad->nbytes) >= ma_partition)
+        else if (((Pointer)ad + ad->nbytes) >= limit)
         {
-            /* case (b): truncate fragment at partition */
-            nbytes = (ulongi)(ma_partition - (Pointer)ad);
+            /* case (b): truncate fragment at limit */
+            nbytes = (ulongi)(limit - (Pointer)ad);
         }
         else
         {
@@ -2759,7 +2760,7 @@ public Integer MA_inquire_heap(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2830,7 +2831,7 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_partition);
 
     /* success */
     return max(nelem_gap, nelem_frag);
@@ -2901,7 +2902,7 @@ public Integer MA_inquire_heap_no_partition(Integer datatype)
         nelem_gap = 0;
 
     /* try heap fragments */
-    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap);
+    nelem_frag = ma_max_heap_frag_nelem(datatype, nelem_gap, ma_sp);
 
     /* success */
     return max(nelem_gap, nelem_frag);
-- 
2.43.0


From 2bbb06040f730abd30f4e6529f68c4f11be8b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 056/151] fix: MA stack and heap inquiries honour an overgrown
 partition and the layout of stack blocks

---
 ma/ma.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index da1ff2f..a79ac1e 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -178,6 +178,7 @@ private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
 private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem, Pointer limit);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
+private Integer ma_nelem_before(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
 private void mh_free(AD *ad);
@@ -1564,6 +1565,48 @@ private Integer ma_nelem(address, length, datatype)
     return ar.nelem;
 }
 
+/* ------------------------------------------------------------------------- */
+/*
+ * Return the maximum number of datatype elements that can currently
+ * be accomodated in length bytes ending at address.
+ */
+/* ------------------------------------------------------------------------- */
+
+private Integer ma_nelem_before(address, length, datatype)
+    Pointer    address;    /* end of hypothetical block */
+    ulongi    length;        /* length of hypothetical block */
+    Integer    datatype;    /* of elements in hypothetical block */
+{
+    AR        ar;        /* allocation request */
+    Pointer    client_space;    /* location of client_space */
+    ulongi    nbytes;        /* length of block for ar */
+
+    if (length <= BLOCK_OVERHEAD_FIXED)
+        /* no point in computing anything */
+        return (Integer)0;
+
+    /* compute initial request */
+    ar.datatype = datatype;
+    ar.nelem = (length - BLOCK_OVERHEAD_FIXED) / ma_sizeof[datatype];
+
+    /* make requests until one succeeds or we give up */
+    while (ar.nelem > 0)
+    {
+        /* perform trial allocation to determine size */
+        balloc_before(&ar, address, &client_space, &nbytes);
+
+        if (nbytes > length)
+            /* not enough space for ar.nelem elements */
+            ar.nelem--;
+        else
+            /* enough space for ar.nelem elements */
+            break;
+    }
+
+    /* return the result */
+    return ar.nelem;
+}
+
 /* ------------------------------------------------------------------------- */
 /*
  * Perform operations necessary to allow certain functions to be invoked
@@ -2825,7 +2868,7 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
 
     /* try space between heap and partition or heap and stack */
     gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if ((ma_partition > ma_hp) && (gap_length > 0))
         nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -2963,9 +3006,8 @@ public Integer MA_inquire_stack(Integer datatype)
 
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
-    /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    if (ma_sp > ma_partition)
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
@@ -3031,8 +3073,8 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
 
     /* try space between partition and stack or heap and stack */
     gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    if ((ma_sp > ma_partition) && (gap_length > 0))
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
@@ -3102,7 +3144,7 @@ public Integer MA_inquire_stack_no_partition(Integer datatype)
     gap_length = (size_t)(ma_sp - ma_hp);
     /*if (ma_sp > ma_hp)*/
     if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
-- 
2.43.0


From 07890b54d71a58139b0a67dab7cab0a7670e9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 057/151] fix: GA_Freemem reads the size of the segment before
 freeing it

---
 global/src/base.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index cd4023a..84cd653 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3657,6 +3657,7 @@ void GA_Freemem(void *ptr)
 int extra = sizeof(getmem_t)+GAnproc*sizeof(char*); 
 getmem_t *info = (getmem_t *)((char*)ptr - extra);
 char **ptr_arr = (char**)(info+1);
+int size = info->size; /* the header goes away with the memory */
 
 #ifndef AVOID_MA_STORAGE
     if(ARMCI_Uses_shm()){
@@ -3669,7 +3670,7 @@ char **ptr_arr = (char**)(info+1);
     }
 #endif
 
-    if(GA_memory_limited) GA_total_memory += info->size;
+    if(GA_memory_limited) GA_total_memory += size;
 }
 
 /**
-- 
2.43.0


From 1eefd6c9cba8920d02f54f5db3c8305228beb525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 058/151] fix: GA_Getmem returns no memory when the request
 exceeds the memory limit

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 84cd653..c697b78 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3624,6 +3624,7 @@ Integer status;
          pnga_gop(pnga_type_f2c(MT_F_INT), &status, 1, "&&");
          if(!status)GA_total_memory +=bytes+extra;
      }else status = 1;
+     if(!status) return NULL;
 
      ptr_arr=malloc(GAnproc*sizeof(char**));
      rc= gai_getmem("ga_getmem", ptr_arr,(Integer)bytes+extra, type, &id, grp_id);
-- 
2.43.0


From 25ac83161e5d7ede0bfeaf40e631a05146461fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 059/151] fix: setting a memory limit takes the memory already
 in use into account

---
 global/src/base.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index c697b78..69d5ecd 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -148,6 +148,7 @@ struct ga_stat_t GAstat;
 struct ga_bytes_t GAbytes ={0.,0.,0.,0.,0.,0.,0.,0.,0.,0.,0.,0.};
 long   *GAstat_arr;
 static Integer GA_memory_limit=0;
+static Integer _ga_getmem_bytes=0;   /* in segments from GA_Getmem */
 Integer GAme, GAnproc;
 static Integer MPme;
 Integer *mapALL;
@@ -645,9 +646,11 @@ void pnga_set_memory_limit(Integer mem_limit)
 
     /* if we had the limit set we need to adjust the amount available */
     if (mem_limit>=0)
+    {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    }else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
@@ -657,7 +660,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   }else{
 
     GA_total_memory = GA_memory_limit  = mem_limit;
-    if(mem_limit >= 0) GA_memory_limited = 1;
+    if(mem_limit >= 0) {
+      GA_memory_limited = 1;
+      /* memory that is in use already counts against the limit */
+      if(GAinitialized) GA_total_memory -= pnga_inquire_memory() + _ga_getmem_bytes;
+    }
   }
 }
 
@@ -3629,6 +3636,7 @@ Integer status;
      ptr_arr=malloc(GAnproc*sizeof(char**));
      rc= gai_getmem("ga_getmem", ptr_arr,(Integer)bytes+extra, type, &id, grp_id);
      if(rc)pnga_error("ga_getmem: failed to allocate memory",bytes+extra);
+     _ga_getmem_bytes += bytes+extra;
 
      myptr = ptr_arr[GAme];  
 
@@ -3672,6 +3680,7 @@ int size = info->size; /* the header goes away with the memory */
 #endif
 
     if(GA_memory_limited) GA_total_memory += size;
+    _ga_getmem_bytes -= size;
 }
 
 /**
@@ -3939,6 +3948,8 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
 
       GAstat.curmem += (long)GA[ga_handle].size;
       GAstat.maxmem  = (long)GA_MAX(GAstat.maxmem, GAstat.curmem);
+      /* from here on the memory counts as the array's */
+      _ga_getmem_bytes -= (Integer)GA[ga_handle].size;
 
       pnga_sync();
 
@@ -4184,6 +4195,7 @@ Integer i, handle;
     pnga_sync();
 
     GA_total_memory = -1; /* restore "unlimited" memory usage status */
+    _ga_getmem_bytes = 0;
     GA_memory_limited = 0;
     gai_finalize_onesided();
     free(mapALL);
-- 
2.43.0


From f6bac164fb32c14641580ffe9d04a9dd6de40138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 060/151] fix: GA_Inquire_memory does not count the memory of
 an overlaid array twice

---
 global/src/base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 69d5ecd..5f5efc9 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -609,7 +609,7 @@ Integer pnga_inquire_memory()
 {
 Integer i, sum=0;
     for(i=0; i<_max_global_array; i++) 
-        if(GA[i].actv) sum += (Integer)GA[i].size; 
+        if(GA[i].actv && !GA[i].overlay) sum += (Integer)GA[i].size; 
     return(sum);
 }
 
-- 
2.43.0


From fe8ef327fbce2596b33bd3e7552ddcfb02406e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 061/151] fix: a refused GA_Overlay does not free memory it
 never had

---
 global/src/base.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 5f5efc9..d76746b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1559,6 +1559,8 @@ Integer pnga_create_handle()
   GA[ga_handle].actv_handle = 1;
   GA[ga_handle].has_data = 1;
   GA[ga_handle].property = NO_PROPERTY;
+  GA[ga_handle].overlay = 0;
+  GA[ga_handle].mem_dev_set = 0;
   return g_a;
 }
 
@@ -3119,6 +3121,8 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
   }
   GA[ga_handle].id = INVALID_MA_HANDLE;
   GA[ga_handle].size = (C_Long)mem_size;
+  GA[ga_handle].overlay = 1; /* never has memory of its own */
+  GA[ga_handle].ptr[grp_me] = NULL;
   /* check if everybody has enough memory to fit overlay GA */
   status = (GA[ga_handle].size <= GA[g_p].size) ? 1 : 0;
   if (p_handle > 0) {
@@ -3128,7 +3132,6 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
   }
 
   if (status) {
-    GA[ga_handle].overlay = 1;
     GA[ga_handle].id = GA[g_p].id;
     for (i=0; i<grp_nproc; i++) {
       GA[ga_handle].ptr[i] = GA[g_p].ptr[i];
-- 
2.43.0


From 87aeca954a1e517b14b99888994ff7088a3160a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 062/151] fix: destroying an array that has no memory releases
 its handle

---
 global/src/base.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index d76746b..9521193 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3973,20 +3973,25 @@ int local_sync_begin,local_sync_end;
 
     local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
     _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
-    grp_id = (Integer)GA[ga_handle].p_handle;
-    if(local_sync_begin)pnga_pgroup_sync(grp_id);
 
-    if (grp_id > 0) grp_me = PGRP_LIST[grp_id].map_proc_list[GAme];
-    else grp_me=GAme;
-    
     GAstat.numdes ++; /*regardless of array status we count this call */
-    /* fails if handle is out of range or array not active */
+    /* fails if handle is out of range or not in use */
     if(ga_handle < 0 || ga_handle >= _max_global_array){
        return FALSE;
     }
-    if(GA[ga_handle].actv==0){
+    if(GA[ga_handle].actv_handle==0){
        return FALSE;
     }
+    grp_id = (Integer)GA[ga_handle].p_handle;
+    if(grp_id == (Integer)GA_Init_Proc_Group) grp_id = GA_Default_Proc_Group;
+    if(local_sync_begin)pnga_pgroup_sync(grp_id);
+
+    if (grp_id > 0) grp_me = PGRP_LIST[grp_id].map_proc_list[GAme];
+    else grp_me=GAme;
+    
+    /* not allocated yet, or deallocated: there is no memory to release */
+    if(GA[ga_handle].actv==0) GA[ga_handle].ptr[grp_me] = NULL;
+
     if (GA[ga_handle].cache)
       free(GA[ga_handle].cache);
     GA[ga_handle].cache = NULL;
-- 
2.43.0


From 048f4f476ed98e276a91341119dd68218ec72197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 063/151] fix: unsetting the read_cache property really unsets
 it

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 9521193..8fcdb89 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2499,6 +2499,7 @@ void pnga_unset_property(Integer g_a) {
       }
     }
     GA[ga_handle].cache_head = NULL;
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
-- 
2.43.0


From 37484fbc6287ac9e175e034b165fd10994570d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 064/151] fix: setting the read_only property keeps the default
 group

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 8fcdb89..e4156b7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2130,6 +2130,7 @@ void pnga_set_property(Integer g_a, char* property) {
     }
     handle = pnga_pgroup_create(list, nprocs);
     free(list);
+    pnga_pgroup_set_default(dflt_grp);
     GA[ga_handle].p_handle = handle;
     GA[ga_handle].property = READ_ONLY;
 
-- 
2.43.0


From 065269f4f8d9bb38f12c787e38a3066b87215f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 065/151] fix: destroying a read_only array frees its memory
 before its process group

---
 global/src/base.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index e4156b7..bfd03ac 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4034,12 +4034,11 @@ int local_sync_begin,local_sync_end;
     }
     GA[ga_handle].cache_head = NULL;
 
-    if (GA[ga_handle].property == READ_ONLY) {
-      free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
-    }
-
     if(GA[ga_handle].ptr[grp_me]==NULL){
+       if (GA[ga_handle].property == READ_ONLY) {
+         free(GA[ga_handle].old_mapc);
+         pnga_pgroup_destroy(grp_id);
+       }
        return TRUE;
     } 
     if (!GA[ga_handle].overlay) {
@@ -4073,6 +4072,11 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    if (GA[ga_handle].property == READ_ONLY) {
+      free(GA[ga_handle].old_mapc);
+      pnga_pgroup_destroy(grp_id);
+      GA[ga_handle].property = NO_PROPERTY;
+    }
     return(TRUE);
 }
 
-- 
2.43.0


From f842baebe64c160ee18f7a85c2c651be30b785e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 066/151] fix: duplicating an array does not share its overlay
 flag, read cache or read-only group

---
 global/src/base.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index bfd03ac..b3ddc45 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3804,6 +3804,28 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
     GA[ga_handle].mapc[maplen] = -1;
   }
 
+  /* the copy has memory of its own and starts with an empty read cache */
+  GA[ga_handle].overlay = 0;
+  GA[ga_handle].cache_head = NULL;
+
+  /*** a read-only array has its own process group ***/
+  if (GA[ga_handle].property == READ_ONLY) {
+    Integer nproc = PGRP_LIST[grp_id].map_nproc;
+    Integer dflt_grp = pnga_pgroup_get_default();
+    Integer *list = (Integer*)malloc(nproc*sizeof(Integer));
+    int btot = 0;
+    for (i=0; i<nproc; i++) list[i] = PGRP_LIST[grp_id].inv_map_proc_list[i];
+    pnga_pgroup_set_default(pnga_pgroup_get_world());
+    grp_id = pnga_pgroup_create(list, nproc);
+    pnga_pgroup_set_default(dflt_grp);
+    free(list);
+    GA[ga_handle].p_handle = grp_id;
+    for (i=0; i<GA[ga_handle].ndim; i++) btot += GA[ga_handle].old_nblock[i];
+    GA[ga_handle].old_mapc = (Integer*)malloc((btot+1)*sizeof(Integer));
+    for (i=0; i<btot+1; i++)
+      GA[ga_handle].old_mapc[i] = GA[GA_OFFSET + g_a].old_mapc[i];
+  }
+
   /*** if ghost cells are used, initialize ghost cache data ***/
   GA[ga_handle].cache = NULL;
   pnga_set_ghost_info(*g_b);
@@ -3943,6 +3965,10 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
         for(i=0;i<maplen; i++)GA[ga_handle].mapc[i] = GA[GA_OFFSET+ g_a].mapc[i];
         GA[ga_handle].mapc[maplen] = -1;
       }
+      GA[ga_handle].overlay = 0;
+      GA[ga_handle].cache_head = NULL;
+      GA[ga_handle].cache = NULL;
+      pnga_set_ghost_info(g_b);
 
       /* get ptrs and datatype from user memory */
       gam_checktype(pnga_type_f2c(info->type));
-- 
2.43.0


From 8fbe962628238c6c72362b5ce6af5acef1f11a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 067/151] fix: GA_Duplicate and GA_Assemble_duplicate refuse
 names that do not fit

---
 global/src/base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index b3ddc45..80be339 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3794,6 +3794,8 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   /*** copy content of the data structure ***/
   save_ptr = GA[ga_handle].ptr;
   GA[ga_handle] = GA[GA_OFFSET + g_a]; /* <--- shallow copy */
+  if (strlen(array_name) > FNAM)
+    pnga_error("Array name exceeds maximum array name length",FNAM);
   strcpy(GA[ga_handle].name, array_name);
   GA[ga_handle].ptr = save_ptr;
   GA[ga_handle].distr_type = GA[GA_OFFSET + g_a].distr_type;
@@ -3958,6 +3960,8 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       /*** copy content of the data structure ***/
       save_ptr = GA[ga_handle].ptr;
       GA[ga_handle] = GA[GA_OFFSET + g_a];
+      if (strlen(array_name) > FNAM)
+        pnga_error("Array name exceeds maximum array name length",FNAM);
       strcpy(GA[ga_handle].name, array_name);
       GA[ga_handle].ptr = save_ptr;
       if (maplen > 0) {
-- 
2.43.0


From c08d6865fa1acc1cb207b93221592e51bbee9bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 068/151] fix: GA_Assemble_duplicate has its own lists of
 restricted processes

---
 global/src/base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 80be339..1bd0979 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3973,6 +3973,12 @@ int maplen = calc_maplen(GA_OFFSET + g_a);
       GA[ga_handle].cache_head = NULL;
       GA[ga_handle].cache = NULL;
       pnga_set_ghost_info(g_b);
+      GA[ga_handle].rstrctd_list = NULL;
+      GA[ga_handle].rank_rstrctd = NULL;
+      GA[ga_handle].num_rstrctd = 0;
+      if (GA[GA_OFFSET + g_a].num_rstrctd > 0)
+        pnga_set_restricted(g_b, GA[GA_OFFSET + g_a].rstrctd_list,
+            GA[GA_OFFSET + g_a].num_rstrctd);
 
       /* get ptrs and datatype from user memory */
       gam_checktype(pnga_type_f2c(info->type));
-- 
2.43.0


From ff059f5d0b3db34c4af05beabd2aa9d3868ed186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 069/151] fix: strided ARMCI transfers are contiguous only if
 all strides are

---
 comex/src-armci/armci.c | 57 ++++++++---------------------------------
 1 file changed, 11 insertions(+), 46 deletions(-)

diff --git a/comex/src-armci/armci.c b/comex/src-armci/armci.c
index 5f7d4b4..c1bff2b 100644
--- a/comex/src-armci/armci.c
+++ b/comex/src-armci/armci.c
@@ -3,6 +3,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -118,56 +119,20 @@ int armci_check_contiguous(int *src_stride, int *dst_stride,
   /* This is code from the merge between CMX and the current develop branch
    * (2018/7/5) */
   int i;
-  int ret = 1;
-  int stridelen = 1;
-  int gap = 0;
-  int src_ld[7], dst_ld[7];
-  /**
-   * Calculate physical dimensions of buffers from stride arrays
-   */
-  src_ld[0] = src_stride[0];
-  dst_ld[0] = dst_stride[0];
-  for (i=1; i<n_stride; i++) {
-    src_ld[i] = src_stride[i]/src_stride[i-1];
-    dst_ld[i] = dst_stride[i]/dst_stride[i-1];
-  }
-  /* NOTE: The count array contains the length of the final dimension and can
-   * be used to evaluate some corner cases
+  int stridelen = count[0];
+  /* A stride only matters if there is more than one step along it. The data
+   * is contiguous if every such stride equals the number of bytes below it.
    */
   for (i=0; i<n_stride; i++) {
+    long tmp;
+    if (count[i+1] == 1) continue;
+    if (src_stride[i] != stridelen || dst_stride[i] != stridelen) return 0;
     /* check for overflow */
-    int tmp = stridelen * count[i];
-    if (stridelen != 0 && tmp / stridelen != count[i]) {
-      ret = 0;
-      break;
-    }
-    stridelen = tmp;
-    if ((count[i] < src_ld[i] || count[i] < dst_ld[i])
-        && gap == 1) {
-      /* Data is definitely strided in memory */
-      ret = 0;
-      break;
-    } else if ((count[i] < src_ld[i] || count[i] < dst_ld[i]) &&
-        gap == 0) {
-      /* First dimension that doesn't match physical dimension */
-      gap = 1;
-    } else if (count[i] != 1 && gap == 1) {
-      /* Found a mismatch between requested block and physical dimensions
-       * indicating a possible stride in memory
-       * */
-      ret = 0;
-      break;
-    }
-  }
-  /**
-   * Everything looks good up to this point but need to verify that last
-   * dimension is 1 if a mismatch between requested block and physical
-   * array dimensions has been found previously
-   */
-  if (gap == 1 && ret == 1 && n_stride > 0) {
-    if (count[n_stride] != 1) ret = 0;
+    tmp = (long)stridelen * count[i+1];
+    if (tmp > INT_MAX) return 0;
+    stridelen = (int)tmp;
   }
-  return ret;
+  return 1;
 #else
   int i;
   int ret = 1;
-- 
2.43.0


From f13525ac550773baec48f83039d2dc07271e5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 070/151] fix: comex.h can be included from C++

---
 comex/src-common/comex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comex/src-common/comex.h b/comex/src-common/comex.h
index 9657d64..de38bb3 100644
--- a/comex/src-common/comex.h
+++ b/comex/src-common/comex.h
@@ -7,7 +7,7 @@
 #include <stdlib.h>
 
 #if defined(__cplusplus) || defined(c_plusplus)
-extern "c" {
+extern "C" {
 #endif
 
 typedef struct {
-- 
2.43.0


From 72310fb3234cb98d476788787bd55b2bdabac0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 071/151] fix: the root of the armci_msg_bintree tree has no
 parent

---
 comex/src-armci/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index b798090..0a30526 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -597,7 +597,7 @@ void armci_msg_bintree(int scope, int* Root, int *Up, int *Left, int *Right)
     root  = 0;
     nproc = armci_msg_nproc();
     index = armci_msg_me() - root;
-    up    = (index-1)/2 + root; if( up < root) up = -1;
+    up    = index > 0 ? (index-1)/2 + root : -1;
     left  = 2*index + 1 + root; if(left >= root+nproc) left = -1;
     right = 2*index + 2 + root; if(right >= root+nproc)right = -1;
 
-- 
2.43.0


From 12d7864fffdce3a74ca5fca82482ef757ec2aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 072/151] fix: comex_test makes progress on mpi-mt and mpi-pt

---
 comex/src-mpi-mt/comex.c | 29 +++++++++++++++++++++++++++++
 comex/src-mpi-pt/comex.c | 29 +++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 61715c4..dddea60 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -193,6 +193,7 @@ STATIC void nb_wait_for_send1(nb_t *nb);
 STATIC void nb_wait_for_recv(nb_t *nb);
 STATIC void nb_wait_for_recv1(nb_t *nb);
 STATIC void nb_wait_for_all(nb_t *nb);
+STATIC void nb_test_for_all(nb_t *nb);
 STATIC void nb_wait_all();
 STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb);
 STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb);
@@ -948,6 +949,8 @@ int comex_test(comex_request_t* hdl, int *status)
 
     /* a request whose handle was reused is complete already */
 
+    nb_test_for_all(nb);
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -2975,6 +2978,32 @@ STATIC void nb_wait_for_all(nb_t *nb)
 }
 
 
+/* finishes the requests which are complete, in order */
+STATIC void nb_test_for_all(nb_t *nb)
+{
+    int flag = 1;
+    int retval = 0;
+
+    COMEX_ASSERT(NULL != nb);
+
+    while (NULL != nb->send_head && flag) {
+        retval = MPI_Test(&(nb->send_head->request), &flag, MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) {
+            nb_wait_for_send1(nb);
+        }
+    }
+    flag = 1;
+    while (NULL != nb->recv_head && flag) {
+        retval = MPI_Test(&(nb->recv_head->request), &flag, MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) {
+            nb_wait_for_recv1(nb);
+        }
+    }
+}
+
+
 STATIC void nb_wait_all()
 {
     int i = 0;
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 72864ac..642427f 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -221,6 +221,7 @@ STATIC void nb_wait_for_send1(nb_t *nb);
 STATIC void nb_wait_for_recv(nb_t *nb);
 STATIC void nb_wait_for_recv1(nb_t *nb);
 STATIC void nb_wait_for_all(nb_t *nb);
+STATIC void nb_test_for_all(nb_t *nb);
 STATIC void nb_wait_all();
 STATIC void nb_put(void *src, void *dst, int bytes, int proc, nb_t *nb);
 STATIC void nb_get(void *src, void *dst, int bytes, int proc, nb_t *nb);
@@ -1354,6 +1355,8 @@ int comex_test(comex_request_t* hdl, int *status)
 
     /* a request whose handle was reused is complete already */
 
+    nb_test_for_all(nb);
+
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -4290,6 +4293,32 @@ STATIC void nb_wait_for_all(nb_t *nb)
 }
 
 
+/* finishes the requests which are complete, in order */
+STATIC void nb_test_for_all(nb_t *nb)
+{
+    int flag = 1;
+    int retval = 0;
+
+    COMEX_ASSERT(NULL != nb);
+
+    while (NULL != nb->send_head && flag) {
+        retval = MPI_Test(&(nb->send_head->request), &flag, MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) {
+            nb_wait_for_send1(nb);
+        }
+    }
+    flag = 1;
+    while (NULL != nb->recv_head && flag) {
+        retval = MPI_Test(&(nb->recv_head->request), &flag, MPI_STATUS_IGNORE);
+        CHECK_MPI_RETVAL(retval);
+        if (flag) {
+            nb_wait_for_recv1(nb);
+        }
+    }
+}
+
+
 STATIC void nb_wait_all()
 {
     int i = 0;
-- 
2.43.0


From 65f51bd6f7169687bd44eb06a9d710ea0e18c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 073/151] fix: shared memory of mpi-pt is named after user and
 process, not rank

---
 comex/src-mpi-pt/comex.c      | 15 ++++++---------
 comex/src-mpi-pt/comex_impl.h |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 642427f..2c73e4f 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1047,21 +1047,19 @@ STATIC void unpack(char *packed_buffer,
 STATIC char* _generate_shm_name(int rank)
 {
     int snprintf_retval = 0;
-    /* /cmxPPPPPPPPCCCCCCC  */
-    /* 00000000011111111112 */
-    /* 12345678901234567890 */
+    /* /cmxUUUUUUUUUUPPPPPPPPPPCCCCCCN */
+    /* 0000000001111111111222222222233 */
+    /* 1234567890123456789012345678901 */
     char *name = NULL;
     static const unsigned int limit = 62;
     static const char letters[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
-    static unsigned int counter[7] = {0};
-    unsigned int urank = rank;
+    static unsigned int counter[6] = {0};
 
     COMEX_ASSERT(rank >= 0);
     name = malloc(SHM_NAME_SIZE*sizeof(char));
     COMEX_ASSERT(name);
     snprintf_retval = snprintf(name, SHM_NAME_SIZE,
-            "/cmx%08u%c%c%c%c%c%c%c", urank,
-            letters[counter[6]],
+            "/cmx%010u%010u%c%c%c%c%c%c", getuid(), getpid(),
             letters[counter[5]],
             letters[counter[4]],
             letters[counter[3]],
@@ -1076,8 +1074,7 @@ STATIC char* _generate_shm_name(int rank)
     if (counter[2] >= limit) { ++counter[3]; counter[2] = 0; }
     if (counter[3] >= limit) { ++counter[4]; counter[3] = 0; }
     if (counter[4] >= limit) { ++counter[5]; counter[4] = 0; }
-    if (counter[5] >= limit) { ++counter[6]; counter[5] = 0; }
-    if (counter[6] >= limit) {
+    if (counter[5] >= limit) {
         comex_error("_generate_shm_name: too many names generated", -1);
     }
 #if DEBUG
diff --git a/comex/src-mpi-pt/comex_impl.h b/comex/src-mpi-pt/comex_impl.h
index 6d98d75..8f47100 100644
--- a/comex/src-mpi-pt/comex_impl.h
+++ b/comex/src-mpi-pt/comex_impl.h
@@ -11,7 +11,7 @@
 #define COMEX_MAX_STRIDE_LEVEL 8
 #define COMEX_TAG 27624
 #define COMEX_STATIC_BUFFER_SIZE (2u*1048576u)
-#define SHM_NAME_SIZE 20
+#define SHM_NAME_SIZE 31
 #define UNLOCKED -1
 
 /* performance or correctness related settings */
-- 
2.43.0


From 47e054ea1c5b2bf612010033e87d40b3e27c713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 074/151] fix: vector accumulates on mpi3 add whole segments,
 not their first elements

---
 comex/src-mpi3/comex.c | 223 +++++++++++------------------------------
 1 file changed, 60 insertions(+), 163 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 3502605..ff71533 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -1592,184 +1592,78 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
     void *scale, MPI_Datatype base_type,
     MPI_Datatype *src_type, MPI_Datatype *dst_type)
 {
-  int i, j, size, ierr;
+  int i, j, k, size, ierr;
   int nelems, icnt, ratio;
+  size_t nbytes;
   void* src_buf;
   int *blocklengths;
   MPI_Aint *displacements;
   MPI_Datatype *types;
   MPI_Aint displ;
   MPI_Type_size(base_type,&size);
-  /* find total number of elements */
-  nelems = 0;
-  for (i=0; i<iov_len; i++) {
-    nelems += iov[i].count;
-  }
-  /* create temporary buffers for scaled accumulate values */
-  MPI_Type_size(base_type, &size);
   ratio = comex_size/size;
 #if DEBUG
   printf("p[%d] Ratio: %d comex_size: %d size: %d\n",l_state.rank,
       ratio,comex_size,size);
 #endif
-  src_buf=malloc(nelems*comex_size);
-  if (base_type == MPI_INT) {
-    int *buf = (int*)src_buf;
-    int iscale = *((int*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((int*)(iov[i].src[j]));
-        buf[icnt] *= iscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_LONG) {
-    long *buf = (long*)src_buf;
-    long lscale = *((long*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((long*)(iov[i].src[j]));
-        buf[icnt] *= lscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 1) {
-    float *buf = (float*)src_buf;
-    float fscale = *((float*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((float*)(iov[i].src[j]));
-        buf[icnt] *= fscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 1) {
-    double *buf = (double*)src_buf;
-    double dscale = *((double*)scale);
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        buf[icnt] = *((double*)(iov[i].src[j]));
-        buf[icnt] *= dscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 2) {
-    float *buf = (float*)src_buf;
-    float crscale = *((float*)scale);
-    float ciscale = *((float*)scale+1);
-    float rval, ival;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        rval = *((float*)(iov[i].src[j]));
-        ival = *((float*)(iov[i].src[j])+1);
-        buf[2*icnt] = rval*crscale-ival*ciscale;
-        buf[2*icnt+1] = rval*ciscale+ival*crscale;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 2) {
-    double *buf = (double*)src_buf;
-    double crscale = *((double*)scale);
-    double ciscale = *((double*)scale+1);
-    double rval, ival;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        rval = *((double*)(iov[i].src[j]));
-        ival = *((double*)(iov[i].src[j])+1);
-        buf[2*icnt] = rval*crscale-ival*ciscale;
-        buf[2*icnt+1] = rval*ciscale+ival*crscale;
-        icnt++;
-      }
-    }
+  /* find total number of segments and of bytes; a segment consists of
+   * iov[i].bytes/comex_size elements */
+  nelems = 0;
+  nbytes = 0;
+  for (i=0; i<iov_len; i++) {
+    nelems += iov[i].count;
+    nbytes += (size_t)iov[i].count*iov[i].bytes;
   }
-
+  /* create temporary buffer for scaled accumulate values */
+  src_buf = malloc(nbytes > 0 ? nbytes : 1);
   /* allocate buffers to create data types */
-  blocklengths = (int*)malloc(ratio*nelems*sizeof(int));
-  displacements = (MPI_Aint*)malloc(ratio*nelems*sizeof(MPI_Aint));
-  types = (MPI_Datatype*)malloc(ratio*nelems*sizeof(MPI_Datatype));
-  if (base_type == MPI_INT) {
-    int *buf;
-    buf = (int*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_LONG) {
-    long *buf;
-    buf = (long*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 1) {
-    float *buf;
-    buf = (float*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 1) {
-    double *buf;
-    buf = (double*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 1;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_FLOAT && ratio == 2) {
-    float *buf;
-    buf = (float*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+2*icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 2;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
-      }
-    }
-  } else if (base_type == MPI_DOUBLE && ratio == 2) {
-    double *buf;
-    buf = (double*)src_buf;
-    icnt = 0;
-    for (i=0; i<iov_len; i++) {
-      for (j=0; j<iov[i].count; j++) {
-        displ = (MPI_Aint)(buf+2*icnt)-(MPI_Aint)buf;
-        blocklengths[icnt] = 2;
-        displacements[icnt] = displ;
-        types[icnt] = base_type;
-        icnt++;
+  blocklengths = (int*)malloc(nelems*sizeof(int));
+  displacements = (MPI_Aint*)malloc(nelems*sizeof(MPI_Aint));
+  types = (MPI_Datatype*)malloc(nelems*sizeof(MPI_Datatype));
+  icnt = 0;
+  displ = 0;
+  for (i=0; i<iov_len; i++) {
+    int n = iov[i].bytes/comex_size;
+    for (j=0; j<iov[i].count; j++) {
+      void *seg = (char*)src_buf+displ;
+      if (base_type == MPI_INT) {
+        int *buf = (int*)seg, *src = (int*)iov[i].src[j];
+        int iscale = *((int*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*iscale;
+      } else if (base_type == MPI_LONG) {
+        long *buf = (long*)seg, *src = (long*)iov[i].src[j];
+        long lscale = *((long*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*lscale;
+      } else if (base_type == MPI_FLOAT && ratio == 1) {
+        float *buf = (float*)seg, *src = (float*)iov[i].src[j];
+        float fscale = *((float*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*fscale;
+      } else if (base_type == MPI_DOUBLE && ratio == 1) {
+        double *buf = (double*)seg, *src = (double*)iov[i].src[j];
+        double dscale = *((double*)scale);
+        for (k=0; k<n; k++) buf[k] = src[k]*dscale;
+      } else if (base_type == MPI_FLOAT && ratio == 2) {
+        float *buf = (float*)seg, *src = (float*)iov[i].src[j];
+        float crscale = *((float*)scale);
+        float ciscale = *((float*)scale+1);
+        for (k=0; k<n; k++) {
+          buf[2*k] = src[2*k]*crscale-src[2*k+1]*ciscale;
+          buf[2*k+1] = src[2*k]*ciscale+src[2*k+1]*crscale;
+        }
+      } else if (base_type == MPI_DOUBLE && ratio == 2) {
+        double *buf = (double*)seg, *src = (double*)iov[i].src[j];
+        double crscale = *((double*)scale);
+        double ciscale = *((double*)scale+1);
+        for (k=0; k<n; k++) {
+          buf[2*k] = src[2*k]*crscale-src[2*k+1]*ciscale;
+          buf[2*k+1] = src[2*k]*ciscale+src[2*k+1]*crscale;
+        }
       }
+      blocklengths[icnt] = n*ratio;
+      displacements[icnt] = displ;
+      types[icnt] = base_type;
+      icnt++;
+      displ += (MPI_Aint)n*comex_size;
     }
   }
   ierr =MPI_Type_create_struct(nelems, blocklengths, displacements, types,
@@ -1786,6 +1680,9 @@ void* create_vector_buf_and_dtypes(void *dst_ptr,
   ierr = MPI_Type_create_struct(nelems, blocklengths, displacements, types,
       dst_type);
   translate_mpi_error(ierr,"create_vector_buf_and_dtypes:MPI_Type_create_struct");
+  free(blocklengths);
+  free(displacements);
+  free(types);
   return src_buf;
 }
 
-- 
2.43.0


From f745fc139241ef4c736114f882337b4cf08b31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 075/151] fix: the barriers of NXTVAL let the server answer
 requests

---
 tcgmsg/tcgmsg-mpi/nxtval-armci.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tcgmsg/tcgmsg-mpi/nxtval-armci.c b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
index 553247c..8f9de51 100644
--- a/tcgmsg/tcgmsg-mpi/nxtval-armci.c
+++ b/tcgmsg/tcgmsg-mpi/nxtval-armci.c
@@ -51,20 +51,16 @@ long NXTVAL_(long *mproc)
         }
 
         if (*mproc < 0) {
-            rc=MPI_Barrier(TCGMSG_Comm); 
-            if(rc!=MPI_SUCCESS) {
-                Error("nxtval: barrier failed",0);
-            }
+            /* the barrier of ARMCI, unlike that of MPI, lets the server answer
+             * requests of processes that have not entered yet */
+            armci_msg_barrier();
 
             /* reset the counter value to zero */
             if( NODEID_() == server) {
                 *pnxtval_counter = 0;
             }
 
-            rc=MPI_Barrier(TCGMSG_Comm); 
-            if(rc!=MPI_SUCCESS) {
-                Error("nxtval: barrier failed",0);
-            }
+            armci_msg_barrier();
         }
         if (*mproc > 0) {
 #if   SIZEOF_F77_INTEGER == SIZEOF_INT
-- 
2.43.0


From e7baaf4526b17722afb2ac4f1478274656291f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 076/151] fix: WAITCOM waits for asynchronous sends

---
 tcgmsg/tcgmsg-mpi/p2p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcgmsg/tcgmsg-mpi/p2p.c b/tcgmsg/tcgmsg-mpi/p2p.c
index 017f521..dc40743 100644
--- a/tcgmsg/tcgmsg-mpi/p2p.c
+++ b/tcgmsg/tcgmsg-mpi/p2p.c
@@ -48,6 +48,7 @@ void SND_(long *type, void *buf, long *lenbuf, long *node, long *sync)
         msg_q[n_in_msg_q].type   = *type;
         msg_q[n_in_msg_q].lenbuf = *lenbuf;
         msg_q[n_in_msg_q].snd = 1;
+        n_in_msg_q++;
     }
 }
 
-- 
2.43.0


From 82e65d8f42e9f8468384340d70bcff129914bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 077/151] fix: the Fortran interface of TCGMSG honours the
 length of its strings

---
 tcgmsg/fapi.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tcgmsg/fapi.c b/tcgmsg/fapi.c
index 5b49730..85d4219 100644
--- a/tcgmsg/fapi.c
+++ b/tcgmsg/fapi.c
@@ -57,18 +57,34 @@ void FATR _BRDCST_(Integer *type, void *buf, Integer *lenbuf, Integer *originato
 }
 
 
+#define OP_LEN 8 /**< long enough for the longest operation */
+
+/** a C string with the operation of a global operation */
+static void copy_op(char *aop, char *op, int oplen)
+{
+    int i;
+
+    for (i=0; i<oplen && i<OP_LEN-1 && op[i]; ++i) {
+        aop[i] = op[i];
+    }
+    aop[i] = '\0';
+}
+
+
 void FATR _DGOP_(Integer *type, DoublePrecision *x, Integer *n, char *op, int oplen)
 {
     long atype = *type;
     long an = *n;
     double *ax;
+    char aop[OP_LEN];
     int i;
 
+    copy_op(aop, op, oplen);
     ax = (double*)malloc(an * sizeof(double));
     for (i=0; i<an; ++i) {
         ax[i] = (double)x[i];
     }
-    DGOP_(&atype, ax, &an, op, strlen(op));
+    DGOP_(&atype, ax, &an, aop, strlen(aop));
     for (i=0; i<an; ++i) {
         x[i] = (DoublePrecision)ax[i];
     }
@@ -87,13 +103,15 @@ void FATR _IGOP_(Integer *type, Integer *x, Integer *n, char *op, int oplen)
     long atype = *type;
     long an = *n;
     long *ax;
+    char aop[OP_LEN];
     int i;
 
+    copy_op(aop, op, oplen);
     ax = (long*)malloc(an * sizeof(long));
     for (i=0; i<an; ++i) {
         ax[i] = (long)x[i];
     }
-    IGOP_(&atype, ax, &an, op, strlen(op));
+    IGOP_(&atype, ax, &an, aop, strlen(aop));
     for (i=0; i<an; ++i) {
         x[i] = (Integer)ax[i];
     }
@@ -222,7 +240,7 @@ void FATR _PFCOPY_(Integer *type, Integer *node0, char *filename, int flen)
     long atype = *type;
     long anode0 = *node0;
 
-    PFILECOPY_(&atype, &anode0, filename);
+    PFCOPY_(&atype, &anode0, filename, flen);
 }
 
 
-- 
2.43.0


From f29e6c38055b3f42bb5e13d93cda26cd3d2f222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 078/151] fix: unsetting the read_only property frees the
 memory only when every process has read it

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 1bd0979..ae75d56 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2374,6 +2374,8 @@ void pnga_unset_property(Integer g_a) {
       pnga_access_ptr(g_tmp,lo,hi,&ptr,ld);
       pnga_get(g_a,lo,hi,ptr,ld);
     }
+    /* nobody may still be reading the memory that is freed now */
+    pnga_pgroup_sync(GA[ga_handle].old_handle);
 
     /* Get rid of current memory allocation */
 #ifndef AVOID_MA_STORAGE
-- 
2.43.0


From 59213d5891dd6c2e7c8cad2a7e92c316ec34146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:11 +0000
Subject: [PATCH 079/151] fix: unsetting the read_only property restores the
 scale used to locate blocks

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index ae75d56..6e73c31 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2409,6 +2409,8 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].nblock[i] = GA[ga_handle].old_nblock[i];
       GA[ga_handle].lo[i] = GA[ga_handle].old_lo[i];
       GA[ga_handle].chunk[i] = GA[ga_handle].old_chunk[i];
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
       btot += GA[ga_handle].nblock[i];
     }
     free(GA[ga_handle].mapc);
-- 
2.43.0


From d0ace1975010a3a913c5c3613d44375fc0b5928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 080/151] fix: DRA_Init with the default number of arrays
 allocated a negative amount of memory

---
 pario/dra/disk.arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index 947d8a9..ed089a4 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -547,7 +547,7 @@ Integer FATR dra_init_(
 
     Dra_num_serv = drai_get_num_serv();
 
-    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)*max_arrays);
+    DRA = (disk_array_t*)malloc(sizeof(disk_array_t)* (int)_max_disk_array);
     if(!DRA) dai_error("dra_init: memory alocation failed\n",0);
     for(i=0; i<_max_disk_array ; i++)DRA[i].actv=0;
 
-- 
2.43.0


From b20030d3bfe462037192ba726df5c6e6133eaebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 081/151] fix: DRA_Open of a disk array that does not exist
 kept the handle it had taken

---
 pario/dra/disk.arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index ed089a4..f57db99 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -894,7 +894,10 @@ Integer drai_open(char *filename, Integer *mode, Integer *d_a)
     /*translate DRA mode into ELIO mode*/
     emode = dai_elio_mode((int)*mode);
 
-    if(dai_read_param(DRA[handle].fname, *d_a))return((Integer)-1);
+    if(dai_read_param(DRA[handle].fname, *d_a)){
+        dai_release_handle(d_a);
+        return((Integer)-1);
+    }
 
     DRA[handle].indep = dai_file_config(filename); /*check file configuration*/
 
-- 
2.43.0


From 8007221adfb1f4ebf0fdb42022dfa5f705d31401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 082/151] fix: DRA_Terminate left the open disk arrays open

---
 pario/dra/disk.arrays.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index f57db99..b9b7576 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -1786,6 +1786,14 @@ Integer FATR dra_delete_(Integer* d_a)
  */
 Integer FATR dra_terminate_()
 {
+    Integer i, d_a;
+
+    for (i=0; i<_max_disk_array; i++) {
+        if (DRA[i].actv) {
+            d_a = i - DRA_OFFSET;
+            dra_close_(&d_a);
+        }
+    }
     free(DRA);
     buf_terminate(&buf_ctxt);
 
-- 
2.43.0


From b75561192004db0acd624696d472049c2ae9d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 083/151] fix: a reopened disk array had a newline at the end
 of its name

---
 pario/dra/disk.param.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pario/dra/disk.param.c b/pario/dra/disk.param.c
index 2a245d5..1f0e5bf 100644
--- a/pario/dra/disk.param.c
+++ b/pario/dra/disk.param.c
@@ -124,7 +124,8 @@ int dai_read_param(char* filename,Integer d_a)
             DRA[dra_hndl].ioprocs = (Integer) input;
 
             fgets(dummy,HDLEN,fd); /*advance to next line*/
-            if(!fgets(DRA[dra_hndl].name,DRA_MAX_NAME,fd))dai_error("dai_read_param:name",0);
+            if(!fgets(DRA[dra_hndl].name,sizeof(DRA[dra_hndl].name),fd))dai_error("dai_read_param:name",0);
+            DRA[dra_hndl].name[strcspn(DRA[dra_hndl].name,"\n")] = '\0';
 
             if(fclose(fd))dai_error("dai_read_param: fclose failed",0);
         }else rc = -1;
-- 
2.43.0


From 5520d6a53d4cc44b4444364d1ddc427de8d80329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 084/151] fix: transposed disk array transfers used their
 temporary buffer before or after the non-blocking global array operation

---
 pario/dra/disk.arrays.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pario/dra/disk.arrays.c b/pario/dra/disk.arrays.c
index b9b7576..f8cb965 100644
--- a/pario/dra/disk.arrays.c
+++ b/pario/dra/disk.arrays.c
@@ -1389,6 +1389,10 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
             for (i=0; i<ndim; i++) ldg[i] = gs_chunk.hi[i] - gs_chunk.lo[i] + 1;
             /* copy data from global array to temporary buffer */
             nga_get_sectM(gs_chunk, base_addr, ldg, ga_movhdl); 
+            if (ga_movhdl != NULL) { /* complete it, nothing is left to wait for */
+                pnga_nbwait(ga_movhdl);
+                *ga_movhdl = 0;
+            }
             for (i=0; i<nelem1; i++ ) {
                 /* find indices of elements in MA buffer */
                 if (ndim > 1) {
@@ -1497,6 +1501,10 @@ void nga_move(int op, int trans, section_t gs_a, section_t ds_a,
                 }
             }
             nga_put_sectM(gs_chunk, base_addr, ldt, ga_movhdl); 
+            if (ga_movhdl != NULL) { /* complete it, nothing is left to wait for */
+                pnga_nbwait(ga_movhdl);
+                *ga_movhdl = 0;
+            }
         }
         MA_pop_stack(vhandle);
     } else {
-- 
2.43.0


From 70c686cfa3ff230ea0820fd298c10a474b9f7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 085/151] fix: asynchronous transfers of EAF memory files move
 the data the right way and complete

---
 pario/eaf/eaf.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index eb8aa33..b09e57f 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -306,13 +306,14 @@ int EAF_Awrite(
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if(offset+bytes>file[fd].size){
 	rc=0;
 	printf("eaf_awrite: offset %f larger than MA size %ld \n", offset, file[fd].size);
 	return EAF_ERR_WRITE;
       }else{
       memcpy(((char*)file[fd].pointer)+(long)offset, buf, bytes);
-      rc=bytes;
+      req=ELIO_DONE;
+      rc=0;
       }
     }else{
     rc = elio_awrite(file[fd].elio_fd, (Off_t)offset, buf, (Size_t)bytes, &req);
@@ -377,12 +378,13 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
+      if(offset+bytes>file[fd].size){
 	rc=0;
 	printf("eaf_aread: offset %f larger than MA size %ld \n", offset, file[fd].size);
         return EAF_ERR_READ;
       }else{
-      memcpy(file[fd].pointer, buf, bytes);
+      memcpy(buf, ((char*)file[fd].pointer)+(long)offset, bytes);
+      req=ELIO_DONE;
       rc=0;
       }
     }else{
@@ -406,7 +408,7 @@ int EAF_Aread(int fd, eaf_off_t offset, void *buf, size_t bytes, int *req_id)
 int EAF_Wait(int fd, int req_id)
 {
     double start = wall_time();
-    int code;
+    int code = EAF_OK;
 
     io_request_t req = req_id;
     if (file[fd].size > 0) {
-- 
2.43.0


From 9748b950ad78f3bc3fe40f5e89134eb67d5d0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 086/151] fix: EAF_Read past the end of a memory file is an
 error

---
 pario/eaf/eaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index b09e57f..c27ceaf 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -340,9 +340,9 @@ int EAF_Read(int fd, eaf_off_t offset, void *buf, size_t bytes)
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
     
     if (file[fd].size > 0) {
-      if(offset>file[fd].size){
-	rc=0;
+      if(offset+bytes>file[fd].size){
 	printf("eaf_read: offset %f larger than MA size %ld \n", offset, file[fd].size);
+	return EAF_ERR_READ;
       }else{
       memcpy(buf, ((char*)file[fd].pointer)+(long)offset,  bytes);
       rc=bytes;
-- 
2.43.0


From 8980b534d76f9e572660db26ca1e7fc53af483ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 087/151] fix: EAF_Probe asks for the status of the request

---
 pario/eaf/eaf.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index c27ceaf..407123e 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -432,16 +432,8 @@ int EAF_Probe(int req_id, int *status)
 {
     io_request_t req = req_id;
     int rc;
-#if 0
-    if (file[fd].size > 0) {
-      /* got nothin' to do */
-      rc=0;
-    }else{
+    /* requests on memory files are complete when they are issued */
     rc = elio_probe(&req, status);
-    }
-#else
-    rc=0;
-#endif
     if(!rc) *status = !(*status == ELIO_DONE);
     return rc;
 }
-- 
2.43.0


From 150add940ef196ed20f58f89bcca91bd0c0b28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 088/151] fix: EAF memory files are found by name wherever they
 are in the table

---
 pario/eaf/eaf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index 407123e..6357574 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -149,8 +149,8 @@ int EAF_Open(const char *fname, int type, int *fd)
     if (i == EAF_MAX_FILES) return EAF_ERR_MAX_OPEN;
 	
     file[i].size=0;
-    for (j=0; j< i; j++){
-      if(strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
+    for (j=0; j< EAF_MAX_FILES; j++){
+      if(file[j].fname && strcmp(file[j].fname,fname) == 0 && file[j].size >0) {
 	found=1;
 	break;
       }
@@ -172,7 +172,7 @@ int EAF_Open(const char *fname, int type, int *fd)
 
 	if (!MA_alloc_get(MT_CHAR, file[i].size, fname, &handle, &index))
 	  return EAF_ERR_OPEN;
-	if ((i +1) > eafhack_openfiles) eafhack_openfiles++;
+	if ((i +1) > eafhack_openfiles) eafhack_openfiles=i+1;
     /* MA hack: we pass   type = sizeof MA alloc in megabytes */
 	MA_get_pointer(handle, &ptr);
     if (!(file[i].fname = strdup(fname)))
-- 
2.43.0


From 84b8bb5bcc6d1165a182e991f6a5ff50d2ce1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 089/151] fix: EAF_Truncate of a memory file used the
 descriptor of another file

---
 pario/eaf/eaf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index 6357574..bcd3eb3 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -592,6 +592,8 @@ int EAF_Truncate(int fd, eaf_off_t length)
 {
     if (!valid_fd(fd)) return EAF_ERR_INVALID_FD;
 
+    if (file[fd].size > 0) return EAF_ERR_UNIMPLEMENTED; /* memory file */
+
     if(elio_truncate(file[fd].elio_fd, (Off_t)length)) return EAF_ERR_TRUNCATE;
 
     return EAF_OK;
-- 
2.43.0


From c2d4345bc00621f51b833fdbeefd8ef22441079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 090/151] fix: EAF_Eof recognises the end of file error of the
 EAF calls

---
 pario/eaf/eaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pario/eaf/eaf.c b/pario/eaf/eaf.c
index bcd3eb3..8846578 100644
--- a/pario/eaf/eaf.c
+++ b/pario/eaf/eaf.c
@@ -57,7 +57,7 @@
 #   include <sys/time.h>
 #endif
 
-#include "elio.h"
+#include "eliop.h"
 #include "eaf.h"
 #include "eafP.h"
 #include "macdecls.h"
@@ -528,7 +528,7 @@ int EAF_Stat(const char *path, long *avail_mb, char *fstype, int fslen)
  */
 int EAF_Eof(int code)
 {
-    return !(code == EAF_ERR_EOF);
+    return !(code == EAF_ERR_EOF || code == EOFFAIL);
 }
 
 
-- 
2.43.0


From a4446601f62b4df9408274a5f3778938050909b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 091/151] fix: the Fortran eaf_eof is true at the end of file

---
 pario/eaf/eaf_f2c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/eaf/eaf_f2c.c b/pario/eaf/eaf_f2c.c
index b1afad3..bd22681 100644
--- a/pario/eaf/eaf_f2c.c
+++ b/pario/eaf/eaf_f2c.c
@@ -135,7 +135,7 @@ Integer FATR eaf_length_(Integer *fd, double *length)
 
 logical eaf_eof_(Integer *code)
 {
-    return (logical) EAF_Eof((int) *code);
+    return (logical) (EAF_Eof((int) *code) == 0);
 }
 
 
-- 
2.43.0


From 93cb367198f53569cf226d2e82d6de659c3b20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 092/151] fix: elio_errmsg read past the end of the table of
 messages

---
 pario/elio/elio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/elio/elio.c b/pario/elio/elio.c
index 67e21bc..32391e2 100644
--- a/pario/elio/elio.c
+++ b/pario/elio/elio.c
@@ -918,7 +918,7 @@ void elio_errmsg(int code, char *msg)
      }
      else if(code == ELIO_PENDING_ERR) code = elio_pending_error;
 
-     if(code<OFFSET || code >OFFSET+ERRLEN) *msg=(char)0;
+     if(code<OFFSET || code >=OFFSET+ERRLEN) *msg=(char)0;
      else (void) strcpy(msg, errtable[-OFFSET + code]);
 }
       
-- 
2.43.0


From ce53da34e3373481fb2db9b11a94f3f4a9fbf797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 093/151] fix: the Fortran EAF calls refuse offsets with a
 fraction

---
 pario/eaf/eaf_f2c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pario/eaf/eaf_f2c.c b/pario/eaf/eaf_f2c.c
index bd22681..35e67fa 100644
--- a/pario/eaf/eaf_f2c.c
+++ b/pario/eaf/eaf_f2c.c
@@ -39,7 +39,7 @@
 
 static int valid_offset(double offset)
 {
-    return ((offset - ((double) ((eaf_off_t) offset))) == 0.0);
+    return ((offset - ((double) ((long long) offset))) == 0.0);
 }
 
     
-- 
2.43.0


From c719a453047493ad2b090d48c6d27f672651760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 094/151] fix: the second ga_bin_index on a tree with a missing
 right child

---
 global/src/sparse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..3feab96 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -735,7 +735,8 @@ int len, lenmes, tag=32100, i, me=armci_msg_me();
     if (right > -1) armci_msg_snd(tag, offset, len, right);
     if (left > -1) {
             /* we saved num elems for right subtree to adjust offset for left*/
-            for(i=0; i<n; i++) workR[i] = offset[i] -workR[i]; 
+            if (right > -1) for(i=0; i<n; i++) workR[i] = offset[i] -workR[i]; 
+            else for(i=0; i<n; i++) workR[i] = offset[i];
             armci_msg_snd(tag, workR, len, left);
     }
 /*    printf("%d:left=%d right=%d up=%d root=%d off=%d\n",me,left, right,up,root,offset[0]);
-- 
2.43.0


From ae62de40e68594afca090de6714a7d28c4b25b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 095/151] fix: ga_bin_sorter aborted on empty bins

---
 global/src/sparse.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 3feab96..b54bc69 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -776,10 +776,20 @@ Integer tlo[2], thi[2];
     if(lobin>0){ /* enter this block when we have data */
       Integer first_proc, last_proc, p;
       Integer first_off, last_off;
-      Integer *myoff, bin;
+      Integer *myoff, *mycnt, bin;
 
       /* get offset values stored on my processor to first and last bin */
       pnga_access_ptr(g_off, &lobin, &hibin, &myoff, &crap);
+
+      /* empty bins at either end are located nowhere */
+      mycnt = (Integer*)malloc((hibin-lobin+1)*sizeof(Integer));
+      if(!mycnt) pnga_error("ga_bin_sorter:memory allocation failed",hibin-lobin+1);
+      crap = hibin-lobin+1;
+      pnga_get(g_cnt, &lobin, &hibin, mycnt, &crap);
+      for(bin=lobin; hibin>=lobin && mycnt[hibin-bin]==0; ) hibin--;
+      for(; lobin<=hibin && mycnt[lobin-bin]==0; myoff++) lobin++;
+      free(mycnt);
+      if(lobin > hibin) return TRUE;
       first_off = myoff[0]; last_off = myoff[hibin-lobin];
 /*
       pnga_get(g_off,&lobin,&lobin,&first_off,&lo);
@@ -872,7 +882,7 @@ Integer g_range;
         rlo[0] = 1; rlo[1]= me+1; rhi[0]=2; rhi[1]=rlo[1];
         pnga_get(g_range, rlo, rhi, bin_range, rhi); /* local */
         nbin = bin_range[1]-bin_range[0]+1;
-        if(nbin<1 || nbin> totbin || nbin>(hi-lo+1))
+        if(nbin<1)
            pnga_error("ga_bin_sorter:bad nbin",nbin);
 
         /* get count of elements in each bin stored on this task */
-- 
2.43.0


From 5e1b1307009fc701ea4e7c5212ae4e06efe73564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 096/151] fix: ga_bin_sorter read the ranges of bins before
 they had arrived

---
 global/src/sparse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index b54bc69..5cde139 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -869,6 +869,7 @@ Integer g_range;
 
     if(FALSE==pnga_create_bin_range(g_bin, g_cnt, g_off, &g_range))
         pnga_error("ga_bin_sorter: failed to create temp bin range array",0); 
+    pnga_sync();
 
     pnga_inquire(g_bin, &type, &ndim, &totbin);
     if(ndim !=1) pnga_error("ga_bin_sorter: 1-dim array required",ndim);
-- 
2.43.0


From 0c3611ac7a13c6fd7650c1da8139989e42833140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 097/151] fix: ga_bin_sorter never destroyed its temporary
 arrays

---
 global/src/sparse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 5cde139..ca28e62 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -900,8 +900,10 @@ Integer g_range;
             ptr+=elems;
         }
         pnga_release_update(g_bin, &lo, &hi);             
+        free(bin_cnt);
     }
 
+    pnga_destroy(g_range);
     pnga_sync();
 }
 
-- 
2.43.0


From d95787fefee7d97e67766d61fcb40bdcf5a166db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 098/151] fix: ga_sprs_array_matvec_multiply of complex
 matrices multiplied the vector by itself

---
 global/src/sparse.array.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9091eb4..00f39b4 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1234,10 +1234,10 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
       for (j=0; j<ncols; j++) {                                \
             rbuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)];        \
             ibuf = _buf[2*(_jptr[_iptr[i-ilo]+j]-jlo)+1];      \
-            rval = _buf[2*(_iptr[i-ilo]+j)];                   \
-            ival = _buf[2*(_iptr[i-ilo]+j)+1];                 \
-            _sum[2*(i-ilo)] = rval*rbuf-ival*ibuf;             \
-            _sum[2*(i-ilo)+1] = rval*ibuf+ival*rbuf;           \
+            rval = _ptr[2*(_iptr[i-ilo]+j)];                   \
+            ival = _ptr[2*(_iptr[i-ilo]+j)+1];                 \
+            _sum[2*(i-ilo)] += rval*rbuf-ival*ibuf;            \
+            _sum[2*(i-ilo)+1] += rval*ibuf+ival*rbuf;          \
       }                                                        \
     }                                                          \
     free(_buf);                                                \
-- 
2.43.0


From b7a70f4a6009d598c26b3cabecbe07ba091eca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 099/151] fix: ga_sprs_array_matvec_multiply demanded a product
 as long as the second dimension

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 00f39b4..2c7ed7c 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1174,8 +1174,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (adim != SPA[s_hdl].jdim) {
     pnga_error("length of A must equal second dimension of sparse matrix",adim);
   }
-  if (vdim != SPA[s_hdl].jdim) {
-    pnga_error("length of V must equal second dimension of sparse matrix",vdim);
+  if (vdim != SPA[s_hdl].idim) {
+    pnga_error("length of V must equal first dimension of sparse matrix",vdim);
   }
   if (atype != SPA[s_hdl].type || vtype != SPA[s_hdl].type) {
     pnga_error("Data type of sparse matrix and A and V vectors must match",
-- 
2.43.0


From 55ef7fb015d8abfddbde4df4c5f2c9729c45fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 100/151] fix: ga_sprs_array_matvec_multiply added
 uninitialised memory for empty row blocks

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 2c7ed7c..d4574ef 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1295,7 +1295,7 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
 #undef SPRS_REAL_MULTIPLY_M
 #undef SPRS_COMPLEX_MULTIPLY_M
 
-  if (ihi>=ilo) {
+  if (ihi>=ilo && !zflag) {
     klo = ilo + 1;
     khi = ihi + 1;
     pnga_acc(g_v,&klo,&khi,vsum,&one,&one_r);
-- 
2.43.0


From d8a38afaafb92cdd60fb6da687692e82bf29757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 101/151] fix: ga_sprs_array_get_diag only looked at one column
 block, even an empty one

---
 global/src/sparse.array.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d4574ef..a0da835 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1606,7 +1606,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   Integer iproc;
   Integer one = 1;
   Integer lo, hi;
-  Integer ilo, ihi, jlo, jhi, ncols;
+  Integer ilo, ihi, ncols;
   int *iptr, *jptr;
   int64_t *ilptr, *jlptr;
   int idx_size = SPA[hdl].idx_size;
@@ -1643,9 +1643,10 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
   pnga_access_ptr(*g_d, &lo, &hi, &diag, &one);
   /* extract diagonal elements */
   pnga_sprs_array_row_distribution(s_a,me,&ilo,&ihi);
-  pnga_sprs_array_column_distribution(s_a,me,&jlo,&jhi);
+  for (iproc=0; iproc<nproc; iproc++) {
   if (idx_size == 4) {
-    pnga_sprs_array_access_col_block(s_a,me,&iptr,&jptr,&vptr);
+    pnga_sprs_array_access_col_block(s_a,iproc,&iptr,&jptr,&vptr);
+    if (vptr == NULL) continue;
     for (i=ilo; i<=ihi; i++) {
       ncols = iptr[i+1-ilo]-iptr[i-ilo];
       for (j=0; j<ncols; j++) {
@@ -1669,7 +1670,8 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
       }
     }
   } else {
-    pnga_sprs_array_access_col_block(s_a,me,&ilptr,&jlptr,&vptr);
+    pnga_sprs_array_access_col_block(s_a,iproc,&ilptr,&jlptr,&vptr);
+    if (vptr == NULL) continue;
     for (i=ilo; i<=ihi; i++) {
       ncols = ilptr[i+1-ilo]-ilptr[i-ilo];
       for (j=0; j<ncols; j++) {
@@ -1693,6 +1695,7 @@ void pnga_sprs_array_get_diag(Integer s_a, Integer *g_d)
       }
     }
   }
+  }
   free(map);
   pnga_release_update(*g_d, &lo, &hi);
   if (local_sync_end) pnga_pgroup_sync(grp);
-- 
2.43.0


From 678733b58780e7ac9267bd9e1d004a74e5002c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 102/151] fix: ga_sprs_array_diag_right_multiply compared the
 vector with the wrong dimension

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index a0da835..9193b80 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1861,7 +1861,7 @@ void pnga_sprs_array_diag_right_multiply(Integer s_a, Integer g_d)
   if (local_sync_begin) pnga_pgroup_sync(grp);
 
   /* check for basic compatibility */
-  if (SPA[hdl].idim != GA[d_hdl].dims[0]) {
+  if (SPA[hdl].jdim != GA[d_hdl].dims[0]) {
     pnga_error("(pnga_sprs_array_diag_right_multiply) dimensions don't match",0);
   }
   if (type != GA[d_hdl].type) {
-- 
2.43.0


From ce56dc3aa4b85201c88dbd3af6c3daa819a15bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 103/151] fix: ga_sprs_array_get_block left the pointers of
 empty blocks undefined

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9193b80..72df64a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2259,9 +2259,9 @@ logical pnga_sprs_array_get_block(Integer s_a, Integer irow, Integer icol,
     */
   } else {
     /* block has no data */
-    *idx == NULL;
-    *jdx == NULL;
-    *data == NULL;
+    *idx = NULL;
+    *jdx = NULL;
+    *data = NULL;
     ret = 0;
   }
   return ret;
-- 
2.43.0


From 0a0ee44877b637f4ffd639dbe2d8ae5373f6776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 104/151] fix: ga_sprs_array_matmat_multiply read 32-bit
 indices as 64-bit ones

---
 global/src/sparse.array.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 72df64a..e52da22 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2512,6 +2512,17 @@ void update_map(Integer **top, Integer **list, Integer **idx, Integer **jdx,
 }
 #endif
 
+/**
+ * Convert 32-bit indices at the start of a buffer that has room for
+ * Integers to Integers
+ */
+static void sprs_widen_indices(void *buf, Integer n)
+{
+  int *src = (int*)buf;
+  Integer *dst = (Integer*)buf;
+  while (n-- > 0) dst[n] = (Integer)src[n];
+}
+
 /**
  * Multiply sparse matrices A and B to get sparse matrix C
  * C = A.B
@@ -2625,6 +2636,12 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
             &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) continue;
       idx_b = (Integer*)iptr;
       jdx_b = (Integer*)jptr;
+      if (!longidx) {
+        sprs_widen_indices(idx_a,ihi_a-ilo_a+2);
+        sprs_widen_indices(jdx_a,idx_a[ihi_a-ilo_a+1]);
+        sprs_widen_indices(idx_b,ihi_b-ilo_b+2);
+        sprs_widen_indices(jdx_b,idx_b[ihi_b-ilo_b+1]);
+      }
       if (type == C_INT) {
         SPRS_REAL_MATMAT_MULTIPLY_M(int,idx_a,jdx_a,idx_b,jdx_b);
       } else if (type == C_LONG) {
-- 
2.43.0


From b87ce53688e40a9d6150db028e3bd605f2424c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 105/151] fix: ga_sprs_array_matmat_multiply leaked blocks that
 meet an empty block

---
 global/src/sparse.array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index e52da22..d0ab7e0 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2633,7 +2633,12 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       idx_a = (Integer*)iptr;
       jdx_a = (Integer*)jptr;
       if (!pnga_sprs_array_get_block(s_b, l, n, &iptr, &jptr,
-            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) continue;
+            &data_b, &ilo_b, &ihi_b, &jlo_b, &jhi_b)) {
+        free(idx_a);
+        free(jdx_a);
+        free(data_a);
+        continue;
+      }
       idx_b = (Integer*)iptr;
       jdx_b = (Integer*)jptr;
       if (!longidx) {
-- 
2.43.0


From a66e96fa4529b29cc77116ddb33af672ab342f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 106/151] fix: ga_sprs_array_matmat_multiply wrote behind the
 offsets of empty row blocks

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index d0ab7e0..57411f6 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2722,7 +2722,7 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
       nblocks++;
     }
   }
-  SPA[hdl_c].offset[0] = 0;
+  if (nblocks > 0) SPA[hdl_c].offset[0] = 0;
   for (i=1; i<nblocks; i++) {
     SPA[hdl_c].offset[i] = SPA[hdl_c].offset[i-1]+SPA[hdl_c].blksize[i-1];
   }
-- 
2.43.0


From 93098d5b5058f2e8c17ae22e88b93ab546685c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 107/151] fix: ga_sprs_array_sprsdns_multiply assumed as many
 columns in B as in A

---
 global/src/sparse.array.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 57411f6..b66134d 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3737,9 +3737,10 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = SPA[hdl_a].ilo+1;
     hi_c[0] = SPA[hdl_a].ihi+1;
-    pnga_sprs_array_column_distribution(s_a,l,&lo_c[1],&hi_c[1]);
-    lo_c[1]++;
-    hi_c[1]++;
+    /* divide the columns of B among the target blocks */
+    lo_c[1] = (jdim*l)/nprocs+1;
+    hi_c[1] = (jdim*(l+1))/nprocs;
+    if (hi_c[1] < lo_c[1]) continue;
     /* loop over all sub-blocks in column and row block that contribute
      * to target block */
     if (trans) {
-- 
2.43.0


From e6c7e4865cb7388995e2cef1ff60d8f62e72d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 108/151] fix: ga_sprs_array_dnssprs_multiply compared the
 columns of A with those of B

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index b66134d..8e92b1e 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4012,8 +4012,8 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     pnga_error("(ga_sprs_array_dnssprs_multiply) matrix A must be"
     " of dimension 2",GA[hdl_a].ndim);
   }
-  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].jdim) ||
-      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].jdim)) {
+  if ((trans && GA[hdl_a].dims[0] != SPA[hdl_b].idim) ||
+      (!trans && GA[hdl_a].dims[1] != SPA[hdl_b].idim)) {
     pnga_error("(ga_sprs_array_dnssprs_multiply) column dimension of"
       " A must match row dimension of B",0);
   }
-- 
2.43.0


From b1884bb8770fc4dcfd7f1c44cb11aaa7d367abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 109/151] fix: ga_sprs_array_dnssprs_multiply took the columns
 of its product from the rows of B

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 8e92b1e..af83349 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4110,7 +4110,7 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
     Integer tlo_c[2], thi_c[2];
     lo_c[0] = ilo;
     hi_c[0] = ihi;
-    pnga_sprs_array_row_distribution(s_b,l,&lo_c[1],&hi_c[1]);
+    pnga_sprs_array_column_distribution(s_b,l,&lo_c[1],&hi_c[1]);
     lo_c[1]++;
     hi_c[1]++;
     if (trans) {
-- 
2.43.0


From b5e8f1ce0f97a5df4276bfee3f32b0192745026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 110/151] fix: ga_sprs_array_dnssprs_multiply read the wrong
 imaginary parts in Fortran order

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index af83349..06a0e3a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3942,7 +3942,7 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
           _type _ra, _ia, _rb, _ib, _rc, _ic;                        \
           _jj = _jptr_b[_iptr_b[_kk]+_j]-_jlo_b+1;                   \
           _ra = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)];                 \
-          _ia = ((_type*)_ptr_a)[2*(_ii*_kk*_ld_a)+1];               \
+          _ia = ((_type*)_ptr_a)[2*(_ii+_kk*_ld_a)+1];               \
           _rb = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)];               \
           _ib = ((_type*)_ptr_b)[2*(_iptr_b[_kk]+_j)+1];             \
           ((_type*)_ptr_c)[2*(_jj*_ld_c + _ii)]                      \
-- 
2.43.0


From 9c8137c6c56c3033d82ed4e00e4c678e26209373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 111/151] fix: ga_sprs_array_dnssprs_multiply leaked every
 block of B

---
 global/src/sparse.array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 06a0e3a..140026a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4228,8 +4228,13 @@ Integer pnga_sprs_array_dnssprs_multiply(Integer g_a, Integer s_b, Integer trans
         }
       }
       free(buf_a);
+      free(iptr_b);
+      free(jptr_b);
+      free(val_b);
     }
   }
+  free(map);
+  free(size);
   if (local_sync_end) pnga_pgroup_sync(SPA[hdl_b].grp);
   return g_c;
 }
-- 
2.43.0


From e3c8ec2bee0aff7135a4adb667dcf9ba00980737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 112/151] fix: ga_sprs_array_sprsdns_multiply leaked its
 distribution buffers

---
 global/src/sparse.array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 140026a..a7c4b51 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3861,6 +3861,8 @@ Integer pnga_sprs_array_sprsdns_multiply(Integer s_a, Integer g_b, Integer trans
       free(buf_b);
     }
   }
+  free(map);
+  free(size);
   if (local_sync_end) pnga_pgroup_sync(SPA[hdl_a].grp);
   return g_c;
 }
-- 
2.43.0


From 5a8200aba035fc0e5f29f462d8821f628e9ac46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 113/151] fix: ga_sprs_array_create_from_sparse swapped the
 dimensions of the dense array

---
 global/src/sparse.array.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index a7c4b51..b3e2ce2 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3454,8 +3454,13 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     map[nprocs] = 1;
   }
   g_a = pnga_create_handle();
-  dims[0] = SPA[handle].idim;
-  dims[1] = SPA[handle].jdim;
+  if (trans) {
+    dims[0] = SPA[handle].jdim;
+    dims[1] = SPA[handle].idim;
+  } else {
+    dims[0] = SPA[handle].idim;
+    dims[1] = SPA[handle].jdim;
+  }
   pnga_set_data(g_a,two,dims,SPA[handle].type);
   if (trans) {
     nblock[0] = 1;
@@ -3477,7 +3482,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   ihi = SPA[handle].ihi;
   if (trans) {
     lo[0] = 1;
-    hi[0] = SPA[handle].idim;
+    hi[0] = SPA[handle].jdim;
     lo[1] = ilo+1;
     hi[1] = ihi+1;
   } else {
-- 
2.43.0


From 1981d2535be0188480045ed6b71175d143a68c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 114/151] fix: ga_sprs_array_create_from_sparse shifted the row
 blocks in Fortran order

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index b3e2ce2..cbbd86a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3439,7 +3439,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
   if (trans) {
     map[me+1] = SPA[handle].ilo+1;
   } else {
-    map[me+1] = SPA[handle].ilo+1;
+    map[me] = SPA[handle].ilo+1;
   }
   plus[0] = '+';
   plus[1] = '\0';
-- 
2.43.0


From 7edf94d2c8be94265e7eebd085a88b11f0dd518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 115/151] fix: ga_sprs_array_create_from_sparse ignored the
 process group

---
 global/src/sparse.array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index cbbd86a..32bcf77 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3469,6 +3469,7 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
     nblock[0] = nprocs;
     nblock[1] = 1;
   }
+  pnga_set_pgroup(g_a,SPA[handle].grp);
   pnga_set_irreg_distr(g_a, map, nblock);
   if (!pnga_allocate(g_a)) {
     pnga_error("(ga_sprs_array_create_from_sparse) failed to create"
-- 
2.43.0


From 7a604ecff39a57aa0f40ebaaf3c16e77930190b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 116/151] fix: ga_sprs_array_create_from_dense failed on
 processes without dense data

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 32bcf77..69dc204 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3346,7 +3346,7 @@ Integer pnga_sprs_array_create_from_dense(Integer g_a, Integer idx_size,
   /* find bounding indices of locally owned block from global array */
   pnga_distribution(g_a,me,lo,hi);
   /* get pointer to locally owned block */
-  pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
+  if (lo[0] <= hi[0] && lo[1] <= hi[1]) pnga_access_ptr(g_a, lo, hi, &vptr, &ld);
   /* add all non-zero entries from g_a to s_a. Add diagonal elements
    * to s_a even if they are zero */
   if (idx_size == 4) {
-- 
2.43.0


From fa0e4ab790831d4d8a6726c429b20e41089c7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 117/151] fix: ga_sprs_array_matvec_multiply accumulated with a
 factor of the wrong type

---
 global/src/sparse.array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 69dc204..db8bd28 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1154,7 +1154,6 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   int64_t *ilptr = NULL, *jlptr = NULL;
   int *iptr = NULL, *jptr = NULL;
   Integer i, j, iproc, ncols;
-  double one_r = 1.0;
   Integer one = 1;
   Integer adim, vdim, arank, vrank, dims[GA_MAX_DIM];
   Integer atype, vtype;
@@ -1298,7 +1297,8 @@ void pnga_sprs_array_matvec_multiply(Integer s_a, Integer g_a, Integer g_v)
   if (ihi>=ilo && !zflag) {
     klo = ilo + 1;
     khi = ihi + 1;
-    pnga_acc(g_v,&klo,&khi,vsum,&one,&one_r);
+    /* each process has its own rows of the product */
+    pnga_put(g_v,&klo,&khi,vsum,&one);
   }
   if (local_sync_end)  pnga_pgroup_sync(s_grp);
   free(vsum);
-- 
2.43.0


From 54b55b225fb08a8a0a16159ab169771569e8881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 118/151] fix: ga_sprs_array_export wrote complex values of the
 wrong elements

---
 global/src/sparse.array.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index db8bd28..8d203c0 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1530,12 +1530,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
@@ -1558,12 +1558,12 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-                float rval = ((float*)vptr)[2*k+loffset];
-                float ival = ((float*)vptr)[2*k+1+loffset];
+                float rval = ((float*)vptr)[2*(k+loffset)];
+                float ival = ((float*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               } else if (type == C_DCPL) {
-                double rval = ((double*)vptr)[2*k+loffset];
-                double ival = ((double*)vptr)[2*k+1+loffset];
+                double rval = ((double*)vptr)[2*(k+loffset)];
+                double ival = ((double*)vptr)[2*(k+loffset)+1];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,rval,ival);
               }
             }
-- 
2.43.0


From 73d59f17f1a2eb6d5fca29b833ab5c8bd7605128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 119/151] fix: ga_sprs_array_export left out the values of long
 long matrices

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 8d203c0..7e931c7 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1458,7 +1458,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   } else if (type == C_INT) {
     strncpy(cptr," \%d",3);
     offset = 3;
-  } else if (type == C_LONG) {
+  } else if (type == C_LONG || type == C_LONGLONG) {
     strncpy(cptr," \%ld",4);
     offset = 4;
   } else if (type == C_SCPL || type == C_DCPL) {
@@ -1526,7 +1526,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
@@ -1554,7 +1554,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
               } else if (type == C_INT) {
                 int val = ((int*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
-              } else if (type == C_LONG) {
+              } else if (type == C_LONG || type == C_LONGLONG) {
                 int64_t val = ((int64_t*)vptr)[k+loffset];
                 fprintf(SPRS,frmt,iilo+1,jdx[k]+1,val);
               } else if (type == C_SCPL) {
-- 
2.43.0


From 95d45e146b91fd73e7c27477e2b2b63248679256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 120/151] fix: ga_sprs_array_count_sketch summed the row counts
 as the wrong type

---
 global/src/sketch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 79dd477..7963916 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -127,7 +127,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   map = (Integer*)malloc((nprocs+1)*sizeof(Integer));
   for (i=0; i<nprocs; i++) size[i] = 0;
   size[me] = nrows;
-  if (idx_size == 4) {
+  if (sizeof(Integer) == 4) {
     pnga_pgroup_gop(SPA[hdl].grp,C_INT,size,nprocs,"+");
   } else {
     pnga_pgroup_gop(SPA[hdl].grp,C_LONG,size,nprocs,"+");
-- 
2.43.0


From 2dee836c18cd00412e834451b66ccb8fbb309d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 121/151] fix: ga_sprs_array_count_sketch used the position of
 a block instead of its column

---
 global/src/sketch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index 7963916..a990bad 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -253,7 +253,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           if (idx_size == 4) {
             int *iptr;
             int *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
@@ -294,7 +294,7 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
           } else {
             int64_t *iptr;
             int64_t *jptr;
-            pnga_sprs_array_access_col_block(s_a,n,&iptr,&jptr,&vptr);
+            pnga_sprs_array_access_col_block(s_a,nblk,&iptr,&jptr,&vptr);
             Integer idx = irow;
             Integer kcols = iptr[idx+1]-iptr[idx];
             for (k = 0; k<kcols; k++) {
-- 
2.43.0


From 4ecbd19962c20598bb2638158804755d49d29449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 122/151] fix: ga_sprs_array_count_sketch leaked its
 distribution buffers

---
 global/src/sketch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sketch.c b/global/src/sketch.c
index a990bad..4c04575 100644
--- a/global/src/sketch.c
+++ b/global/src/sketch.c
@@ -373,6 +373,8 @@ Integer pnga_sprs_array_count_sketch(Integer s_a, Integer size_k,
   free(kweights);
   free(top);
   free(list);
+  free(map);
+  free(size);
   return g_a;
 }
 
-- 
2.43.0


From cb2a90ba0876efabaf11b5d50d531fa31a2f5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 123/151] fix: ga_sprs_array_export failed when a process holds
 no elements

---
 global/src/sparse.array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 7e931c7..a1a8155 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1486,17 +1486,17 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
       pnga_distribution(SPA[hdl].g_data, iproc, &lo, &hi);
       nlen_data = hi-lo+1;
       vptr = malloc(nlen_data*size);
-      pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
+      if (hi >= lo) pnga_get(SPA[hdl].g_data,&lo,&hi,vptr,&ld);
 
       pnga_distribution(SPA[hdl].g_i, iproc, &lo, &hi);
       nlen_i = hi-lo+1;
       iptr = malloc(nlen_i*idx_size);
-      pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
+      if (hi >= lo) pnga_get(SPA[hdl].g_i,&lo,&hi,iptr,&ld);
 
       pnga_distribution(SPA[hdl].g_j, iproc, &lo, &hi);
       nlen_j = hi-lo+1;
       jptr = malloc(nlen_j*idx_size);
-      pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
+      if (hi >= lo) pnga_get(SPA[hdl].g_j,&lo,&hi,jptr,&ld);
 
       nblocks = nblock[iproc];
       /* loop over rows. Not the most efficient way of printing out information
-- 
2.43.0


From c3bcf3772f427430de63185444a4ceed6bdf0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 124/151] fix: ga_sprs_array_duplicate failed when a process
 holds no elements

---
 global/src/sparse.array.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index a1a8155..9b5fd9a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2091,9 +2091,7 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   Integer me = pnga_pgroup_nodeid(grp);
   Integer nproc = pnga_pgroup_nnodes(grp);
   Integer s_dup;
-  Integer lo, hi;
   Integer i;
-  char p_trans[2];
 
   local_sync_begin = _ga_sync_begin; local_sync_end = _ga_sync_end;
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
@@ -2123,23 +2121,14 @@ Integer pnga_sprs_array_duplicate(Integer s_a)
   }
 
   /* Copy data from old array to new array */
-  p_trans[0]='N';
-  p_trans[1]='\0';
-  pnga_distribution(SPA[new_hdl].g_i,me,&lo,&hi);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_i,&lo,&hi,SPA[new_hdl].g_i,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_j,me,&lo,&hi);
+  pnga_copy(SPA[hdl].g_i,SPA[new_hdl].g_i);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_j,&lo,&hi,SPA[new_hdl].g_j,&lo,&hi);
-  pnga_distribution(SPA[new_hdl].g_data,me,&lo,&hi);
+  pnga_copy(SPA[hdl].g_j,SPA[new_hdl].g_j);
   pnga_mask_sync(local_sync_begin,local_sync_end);
-  pnga_copy_patch(p_trans,SPA[hdl].g_data,&lo,&hi,SPA[new_hdl].g_data,&lo,&hi);
-  {
-    Integer tlo[3],thi[3];
-    pnga_distribution(SPA[new_hdl].g_blk,me,tlo,thi);
-    pnga_mask_sync(local_sync_begin,local_sync_end);
-    pnga_copy_patch(p_trans,SPA[hdl].g_blk,tlo,thi,SPA[new_hdl].g_blk,tlo,thi);
-  }
+  pnga_copy(SPA[hdl].g_data,SPA[new_hdl].g_data);
+  pnga_mask_sync(local_sync_begin,local_sync_end);
+  pnga_copy(SPA[hdl].g_blk,SPA[new_hdl].g_blk);
   /* copy remaining data structures */
   SPA[new_hdl].ilo = SPA[hdl].ilo;
   SPA[new_hdl].ihi = SPA[hdl].ihi;
-- 
2.43.0


From a2bd376296d3bb9dbe1d73b02c0e21f30f7f97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 125/151] fix: ga_sprs_array_export wrote a header that is not
 Matrix Market

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 9b5fd9a..67e7baa 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -1473,7 +1473,7 @@ void pnga_sprs_array_export(Integer s_a, const char* file)
   if (me == 0) {
     /* open file */
     SPRS = fopen(file,"w");
-    fprintf(SPRS,"\%\%MatrixMarket matrix coordinate real general\n");
+    fprintf(SPRS,"%%%%MatrixMarket matrix coordinate real general\n");
     fprintf(SPRS,"%ld %ld %ld\n",SPA[hdl].idim, SPA[hdl].jdim, nnz);
     /* Loop over all row blocks */
     for (iproc = 0; iproc<nprocs; iproc++) {
-- 
2.43.0


From 161c8164b27dcbc01cce01aa5ff6052e4a299425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 126/151] fix: ga_sprs_array_scale failed when a process holds
 no elements

---
 global/src/sparse.array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 67e7baa..c1e896a 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -4283,7 +4283,7 @@ void pnga_sprs_array_scale(Integer s_a, void *scale)
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous masking*/
   if (local_sync_begin) pnga_pgroup_sync(SPA[hdl_a].grp);
   pnga_distribution(SPA[hdl_a].g_data,me,&s_lo,&s_hi);
-  pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
+  if (s_lo <= s_hi) pnga_access_ptr(SPA[hdl_a].g_data,&s_lo,&s_hi,&vptr,&ld);
   if (SPA[hdl_a].type == C_INT) {
     SPRS_REAL_SCALE_M(int,vptr,s_lo,s_hi,scale);
   } else if (SPA[hdl_a].type == C_LONG) {
-- 
2.43.0


From 1d4bafd064bf70566f416107de9ef27d68a0fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 127/151] fix: ga_sprs_array_matmat_multiply failed when a
 process holds no elements of the product

---
 global/src/sparse.array.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index c1e896a..35c5aac 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -2836,19 +2836,26 @@ Integer pnga_sprs_array_matmat_multiply(Integer s_a, Integer s_b)
     char *cdata, *ctdata;
     /* Get pointers to global arrays */
     pnga_distribution(SPA[hdl_c].g_i,me,&tlo,&thi);
-    if (longidx) {
+    if (tlo > thi) {
+      lti = NULL;
+      ti = NULL;
+    } else if (longidx) {
       pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&lti,&tld);
     } else {
       pnga_access_ptr(SPA[hdl_c].g_i,&tlo,&thi,&ti,&tld);
     }
     pnga_distribution(SPA[hdl_c].g_j,me,&tlo,&thi);
-    if (longidx) {
+    if (tlo > thi) {
+      ltj = NULL;
+      tj = NULL;
+    } else if (longidx) {
       pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&ltj,&tld);
     } else {
       pnga_access_ptr(SPA[hdl_c].g_j,&tlo,&thi,&tj,&tld);
     }
     pnga_distribution(SPA[hdl_c].g_data,me,&tlo,&thi);
-    pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
+    tdata = NULL;
+    if (tlo <= thi) pnga_access_ptr(SPA[hdl_c].g_data,&tlo,&thi,&tdata,&tld);
     idx = SPA[hdl_c].idx;
     jdx = SPA[hdl_c].jdx;
     cdata = (char*)SPA[hdl_c].val;
-- 
2.43.0


From 3ee3942726043d70c7f90ad23ed8c6b89e75d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 128/151] fix: ga_sprs_array_sprsdns_multiply looped over the
 wrong columns in Fortran order

---
 global/src/sparse.array.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/global/src/sparse.array.c b/global/src/sparse.array.c
index 35c5aac..c0b7446 100644
--- a/global/src/sparse.array.c
+++ b/global/src/sparse.array.c
@@ -3558,10 +3558,10 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
             *((_type*)_ptr_b)[_kk*_ld_b+(_j-_lo_b)];                 \
         }                                                            \
       } else {                                                       \
-        for (_j=_lo_b; _j<=_hi_b; _j++) {                            \
-          ((_type*)_ptr_c)[_ld_c*(_j-_lo_b) + (_i-_ilo_a)]           \
+        for (_j=tlo_b[1]; _j<=thi_b[1]; _j++) {                      \
+          ((_type*)_ptr_c)[_ld_c*(_j-tlo_b[1]) + (_i-_ilo_a)]        \
             += ((_type*)_ptr_a)[_iptr_a[_ii]+_k]                     \
-            *((_type*)_ptr_b)[_kk+(_j-_lo_b)*_ld_b];                 \
+            *((_type*)_ptr_b)[_kk+(_j-tlo_b[1])*_ld_b];              \
         }                                                            \
       }                                                              \
     }                                                                \
@@ -3591,15 +3591,15 @@ Integer pnga_sprs_array_create_from_sparse(Integer s_a,
             += _ia*_rb+_ra*_ib;                                      \
         }                                                            \
       } else {                                                       \
-        for (_j=_lo_b; _j<=_hi_b; _j++) {                            \
+        for (_j=tlo_b[1]; _j<=thi_b[1]; _j++) {                      \
           _type _ra, _ia, _rb, _ib, _rc, _ic;                        \
           _ra = ((_type*)_ptr_a)[2*(_iptr_a[_ii]+_k)];               \
           _ia = ((_type*)_ptr_a)[2*(_iptr_a[_ii]+_k)+1];             \
-          _rb = ((_type*)_ptr_b)[2*(_kk+(_j-_lo_b)*_ld_b)];          \
-          _ib = ((_type*)_ptr_b)[2*(_kk+(_j-_lo_b)*_ld_b)+1];        \
-          ((_type*)_ptr_c)[2*((_j-_lo_b)*_ld_c + (_i-_ilo_a))]       \
+          _rb = ((_type*)_ptr_b)[2*(_kk+(_j-tlo_b[1])*_ld_b)];       \
+          _ib = ((_type*)_ptr_b)[2*(_kk+(_j-tlo_b[1])*_ld_b)+1];     \
+          ((_type*)_ptr_c)[2*((_j-tlo_b[1])*_ld_c + (_i-_ilo_a))]    \
             += _ra*_rb-_ia*_ib;                                      \
-          ((_type*)_ptr_c)[2*((_j-_lo_b)*_ld_c + (_i-_ilo_a))+1]     \
+          ((_type*)_ptr_c)[2*((_j-tlo_b[1])*_ld_c + (_i-_ilo_a))+1]  \
             += _ia*_rb+_ra*_ib;                                      \
         }                                                            \
       }                                                              \
-- 
2.43.0


From 6d3f783b46e449d661d3f071d1e7508c53f66e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 129/151] fix: GA_Lu_solve always failed without ScaLAPACK
 although ga_lu_solve works

---
 global/src/sclstubs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/sclstubs.c b/global/src/sclstubs.c
index 7665a70..b28d28c 100644
--- a/global/src/sclstubs.c
+++ b/global/src/sclstubs.c
@@ -53,7 +53,7 @@ void pnga_lu_solve_alt(Integer tran, Integer g_a, Integer g_b) {
     pnga_error("ga_lu_solve:scalapack interfaced, need configure --enable-f77",0L);
 #   endif
 #else
-    pnga_error("ga_lu_solve:scalapack not interfaced",0L);
+    pnga_lu_solve(tran ? "t" : "n", g_a, g_b);
 #endif
 }
 
-- 
2.43.0


From fa71c18a57e41f8520f40a1b2ef514a7244568cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 130/151] fix: nga_locate answered an owner for subscripts
 outside block-cyclic arrays

---
 global/src/base.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 6e73c31..41b437e 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -803,10 +803,10 @@ Integer d, proc, dpos, ndim, ga_handle = GA_OFFSET + g_a, proc_s[MAXDIM];
    ga_check_handleM(g_a, "nga_locate");
    ndim = GA[ga_handle].ndim;
 
-   if (GA[ga_handle].distr_type == REGULAR) {
-     for(d=0, *owner=-1; d< ndim; d++) 
-       if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
+   for(d=0, *owner=-1; d< ndim; d++) 
+     if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
 
+   if (GA[ga_handle].distr_type == REGULAR) {
      for(d = 0, dpos = 0; d< ndim; d++){
        findblock(GA[ga_handle].mapc + dpos, GA[ga_handle].nblock[d],
            GA[ga_handle].scale[d], subscript[d], &proc_s[d]);
-- 
2.43.0


From ab2572f853295927bda016580202a1db08caf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 131/151] fix: nga_locate_nnodes and nga_locate_region left the
 count undefined for a region outside the array

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 41b437e..b450f5b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4632,6 +4632,7 @@ logical pnga_locate_nnodes( Integer g_a,
 
   ga_handle = GA_OFFSET + g_a;
 
+  *np = 0;
   for(d = 0; d< GA[ga_handle].ndim; d++)
     if((lo[d]<1 || hi[d]>GA[ga_handle].dims[d]) ||(lo[d]>hi[d]))return FALSE;
 
@@ -4752,6 +4753,7 @@ logical pnga_locate_region( Integer g_a,
 
   ga_handle = GA_OFFSET + g_a;
 
+  *np = 0;
   for(d = 0; d< GA[ga_handle].ndim; d++)
     if((lo[d]<1 || hi[d]>GA[ga_handle].dims[d]) ||(lo[d]>hi[d]))return FALSE;
 
-- 
2.43.0


From c6e62b781088e153c19ca193a89350f2e56fd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 132/151] fix: fill_patch, zero_patch and scale_patch accepted
 patches outside the array

---
 global/src/global.npatch.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index b936bec..9913150 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -1681,6 +1681,10 @@ void pnga_fill_patch(Integer g_a, Integer *lo, Integer *hi, void* val)
 
 
   pnga_inquire(g_a,  &type, &ndim, dims);
+  for (i=0; i<ndim; i++) {
+    if (lo[i] < 1 || hi[i] > dims[i] || lo[i] > hi[i])
+      pnga_error("ga_fill_patch: indices out of range ", g_a);
+  }
   num_blocks = pnga_total_blocks(g_a);
 
 #if 1
@@ -2083,7 +2087,7 @@ static void snga_scale_patch_value(Integer type, Integer ndim, Integer *loA, Int
 #endif
 void pnga_scale_patch(Integer g_a, Integer *lo, Integer *hi, void *alpha)
 {
-  Integer ndim, dims[MAXDIM], type;
+  Integer i, ndim, dims[MAXDIM], type;
   Integer loA[MAXDIM], hiA[MAXDIM];
   Integer ld[MAXDIM];
   char *src_data_ptr;
@@ -2098,6 +2102,10 @@ void pnga_scale_patch(Integer g_a, Integer *lo, Integer *hi, void *alpha)
 
 
   pnga_inquire(g_a,  &type, &ndim, dims);
+  for (i=0; i<ndim; i++) {
+    if (lo[i] < 1 || hi[i] > dims[i] || lo[i] > hi[i])
+      pnga_error("ga_scale_patch: indices out of range ", g_a);
+  }
   num_blocks = pnga_total_blocks(g_a);
 
 #if 1
-- 
2.43.0


From 4004f916eff163905322e0a098730cf4da9ac76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 133/151] fix: put, get and accumulate accepted regions outside
 block-cyclic arrays

---
 global/src/iterator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 3dcccfb..d91d1be 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -203,6 +203,10 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
     hdl->lo[i] = lo[i];
     hdl->hi[i] = hi[i];
   }
+  for (i=0; i<ndim; i++) {
+    if (lo[i] < 1 || hi[i] > GA[handle].dims[i] || lo[i] > hi[i])
+      ga_RegionError(ndim, lo, hi, g_a);
+  }
   /* Standard GA distribution */
   if (GA[handle].distr_type == REGULAR) {
     /* Locate the processors containing some portion of the patch
-- 
2.43.0


From 8668b9d76cf94fa655666e1c23a927119032ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 134/151] fix: abs_value_patch, add_constant_patch and
 recip_patch accepted patches outside the array

---
 global/src/elem_alg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 2ddcd29..0a3435b 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -721,7 +721,7 @@ void ngai_do_oper_elem(Integer type, Integer ndim, Integer *loA, Integer *hiA,
 static void gai_oper_elem(Integer g_a, Integer *lo, Integer *hi, void *scalar, Integer op)
 {
 
-  Integer ndim, dims[MAXDIM], type;
+  Integer ndim, dims[MAXDIM], type, d;
   Integer loA[MAXDIM], hiA[MAXDIM], ld[MAXDIM];
   char *data_ptr;
   Integer me= pnga_nodeid();
@@ -739,6 +739,10 @@ static void gai_oper_elem(Integer g_a, Integer *lo, Integer *hi, void *scalar, I
   pnga_inquire(g_a,  &type, &ndim, dims);
   num_blocks = pnga_total_blocks(g_a);
 
+  for (d=0; d<ndim; d++)
+    if (lo[d] < 1 || hi[d] > dims[d] || lo[d] > hi[d])
+      pnga_error("g_a indices out of range ", g_a);
+
   pnga_local_iterator_init(g_a, &hdl);
   while (pnga_local_iterator_next(&hdl,loA,hiA,&data_ptr,ld)) {
     Integer offset, i, j, jtmp, chk;
-- 
2.43.0


From 5364d6f40c0e0cf27671485fcffe8faf1bb6cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 135/151] fix: ga_symmetrize accepted block-cyclic matrices
 that are not square

---
 global/src/ga_symmetr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..0c8f0da 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -72,10 +72,10 @@ void pnga_symmetrize(Integer g_a) {
   if (type != C_DBL)
     pnga_error("ga_symmetrize: only implemented for double precision",0);
 
-  if (num_blocks_a < 0) {
+  if (dims[ndim-1] != dims[ndim-2]) 
+    pnga_error("ga_sym: can only sym square matrix", 0L);
 
-    if (dims[ndim-1] != dims[ndim-2]) 
-      pnga_error("ga_sym: can only sym square matrix", 0L);
+  if (num_blocks_a < 0) {
 
     /* Find the local distribution */
     pnga_distribution(g_a, me, alo, ahi);
-- 
2.43.0


From 105010cff65476c279f7724ae68b7d248a8deb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 136/151] fix: nga_read_inc looked up an owner for subscripts
 outside the array

---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 6531fd4..d7f5b4f 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3981,7 +3981,8 @@ void *pval;
     ndim = GA[handle].ndim;
 
     /* find out who owns it */
-    pnga_locate(g_a, subscript, &proc);
+    if (!pnga_locate(g_a, subscript, &proc))
+      pnga_error("nga_read_inc: subscript out of range", g_a);
 
     /* get an address of the g_a(subscript) element */
     if (GA[handle].distr_type == REGULAR) {
-- 
2.43.0


From 9cbb77087149ce9aa76efdd3d7fb8369c18dcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 137/151] fix: matrix operations given an array of more than
 two dimensions overran their dimension buffers

---
 global/src/DP.c           |  4 ++--
 global/src/fapi.c         |  2 +-
 global/src/ga_solve_seq.c |  4 +++-
 global/src/global.util.c  |  2 +-
 global/src/matmul.c       |  6 +++---
 global/src/matrix.c       | 14 +++++++-------
 6 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/global/src/DP.c b/global/src/DP.c
index 41e226d..0b0cf3f 100644
--- a/global/src/DP.c
+++ b/global/src/DP.c
@@ -73,7 +73,7 @@ Integer lo[2], hi[2];
 Integer ldT;
 char transp;
 DoublePrecision *dbl_ptrA=NULL, *dbl_ptrB=NULL;
-Integer ndim, dims[2];
+Integer ndim, dims[MAXDIM];
 
    pnga_check_handle(g_a, "pnga_copy_patch_dp");
    pnga_check_handle(g_b, "pnga_copy_patch_dp");
@@ -181,7 +181,7 @@ char    transp, transp_a, transp_b;
 DoublePrecision  sum = 0.;
 DoublePrecision *dbl_ptrA;
 DoublePrecision *dbl_ptrB;
-Integer ndim, dims[2];
+Integer ndim, dims[MAXDIM];
 
    pnga_check_handle(g_a, "pnga_ddot_patch_dp");
    pnga_check_handle(g_b, "pnga_ddot_patch_dp");
diff --git a/global/src/fapi.c b/global/src/fapi.c
index b5c2cbf..2279e46 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -504,7 +504,7 @@ logical FATR nga_initialized_()
 
 void FATR ga_inquire_(Integer *g_a, Integer *type, Integer *dim1, Integer *dim2)
 {
-  Integer dims[2], ndim;
+  Integer dims[MAXDIM], ndim;
   wnga_inquire(*g_a, type, &ndim, dims);
   if (ndim != 2) wnga_error("Wrong array dimension in ga_inquire",ndim);
   *type = pnga_type_c2f(*type);
diff --git a/global/src/ga_solve_seq.c b/global/src/ga_solve_seq.c
index fdc5611..120725a 100644
--- a/global/src/ga_solve_seq.c
+++ b/global/src/ga_solve_seq.c
@@ -492,7 +492,7 @@ void pnga_lu_solve_seq(char *trans, Integer g_a, Integer g_b) {
 #else
   Integer info=0;
 #endif
-  Integer dims[2], ndim;
+  Integer dims[MAXDIM], ndim;
   Integer lo[2], hi[2];
 
   /** check environment */
@@ -502,9 +502,11 @@ void pnga_lu_solve_seq(char *trans, Integer g_a, Integer g_b) {
   pnga_check_handle(g_a, "ga_lu_solve: a");
   pnga_check_handle(g_b, "ga_lu_solve: b");
   pnga_inquire(g_a, &typeA, &ndim, dims);
+  if (ndim != 2) pnga_error("ga_lu_solve: g_a must be a matrix ", ndim);
   dimA1 = dims[0];
   dimA2 = dims[1];
   pnga_inquire(g_b, &typeB, &ndim, dims);
+  if (ndim != 2) pnga_error("ga_lu_solve: g_b must be a matrix ", ndim);
   dimB1 = dims[0];
   dimB2 = dims[1];
   
diff --git a/global/src/global.util.c b/global/src/global.util.c
index a14142a..617ed68 100644
--- a/global/src/global.util.c
+++ b/global/src/global.util.c
@@ -74,7 +74,7 @@ void pnga_print_patch_file2d(file, g_a, ilo, ihi, jlo, jhi, pretty)
   long lbuf[BUFSIZE]; 
   long long llbuf[BUFSIZE]; 
   char *name;
-  Integer ndim, dims[2];
+  Integer ndim, dims[MAXDIM];
   Integer lo[2], hi[2];
 
   a_grp = pnga_get_pgroup(g_a);
diff --git a/global/src/matmul.c b/global/src/matmul.c
index bdf6bf9..d94b63d 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -596,7 +596,7 @@ static void gai_matmul_regular(transa, transb, alpha, beta, atype,
   SingleComplex ONE_CF;
   int offset=0, gTaskId=0;
   int numblocks=0, has_more_blocks=1;
-  Integer ctype, cndim, cdims[2];
+  Integer ctype, cndim, cdims[MAXDIM];
   Integer iblock=0, proc_index[2], index[2];
   Integer blocks[2], block_dims[2], topology[2];
   _iterator_hdl hdl;
@@ -1299,7 +1299,7 @@ void pnga_matmul(transa, transb, alpha, beta,
      char    *transa, *transb;
 {
     DoubleComplex *a=NULL, *b, *c, *a_ar[2], *b_ar[2], *c_ar[2];
-    Integer adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[2];
+    Integer adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[MAXDIM];
     Integer atype, btype, ctype, rank, me= pnga_nodeid();
     Integer n, m, k, Ichunk, Kchunk, Jchunk;
     Integer loA[2]={0,0}, hiA[2]={0,0};
@@ -1599,7 +1599,7 @@ void pnga_matmul_mirrored(transa, transb, alpha, beta,
 #else
    DoubleComplex *a, *b, *c;
 #endif
-Integer atype, btype, ctype, adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[2], rank;
+Integer atype, btype, ctype, adim1=0, adim2=0, bdim1=0, bdim2=0, cdim1=0, cdim2=0, dims[MAXDIM], rank;
 Integer me= pnga_nodeid(), nproc;
 Integer i, ijk = 0, i0, i1, j0, j1;
 Integer ilo, ihi, idim, jlo, jhi, jdim, klo, khi, kdim;
diff --git a/global/src/matrix.c b/global/src/matrix.c
index 3e60c7d..f467667 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -1500,7 +1500,7 @@ void pnga_get_diag(Integer g_a, Integer g_v)
 {
   Integer vndim, vdims, dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -1727,7 +1727,7 @@ void pnga_add_diagonal(Integer g_a, Integer g_v)
 {
   Integer vndim, vdims, dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -1957,7 +1957,7 @@ void pnga_set_diagonal(Integer g_a, Integer g_v)
 {
   Integer vndim, vdims, dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
@@ -2159,7 +2159,7 @@ static void sgai_shift_diagonal_block(Integer g_a, void *ptr, Integer *loA, Inte
 void pnga_shift_diagonal(Integer g_a, void *c)
 {
   Integer loA[2], hiA[2]/*, dim1, dim2*/, ld;
-  Integer andim, adims[2], type, atype;
+  Integer andim, adims[MAXDIM], type, atype;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
   char *ptr;
   Integer num_blocks_a;
@@ -2312,7 +2312,7 @@ void pnga_zero_diagonal(Integer g_a)
   Integer me = pnga_nodeid (), i, offset;
   char *ptr;
   Integer num_blocks_a;
-  Integer atype, andim, adims[2];
+  Integer atype, andim, adims[MAXDIM];
   int local_sync_begin,local_sync_end;
   _iterator_hdl hdl;
 
@@ -2541,7 +2541,7 @@ void pnga_scale_rows(Integer g_a, Integer g_v)
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i, chk;
   char *ptr;
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   Integer num_blocks_a;
   int local_sync_begin,local_sync_end;
   _iterator_hdl hdl;
@@ -2749,7 +2749,7 @@ void pnga_scale_cols(Integer g_a, Integer g_v)
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i;
   char *ptr;
-  Integer andim, adims[2];
+  Integer andim, adims[MAXDIM];
   int local_sync_begin,local_sync_end;
   Integer num_blocks_a;
   Integer chk;
-- 
2.43.0


From f6216a66c63b6afe6ca088176ec64ba6f119b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 138/151] fix: vector and bin operations given arrays of more
 than one dimension overran their dimension variables

---
 global/src/matrix.c   | 34 +++++++++++++++++-----------------
 global/src/sclstubs.c |  4 +++-
 global/src/sparse.c   | 24 ++++++++++++++++--------
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index f467667..92e5794 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -1498,7 +1498,7 @@ static void sgai_get_diagonal_block(Integer g_a, void *ptr, Integer g_v,
 #endif
 void pnga_get_diag(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
   Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
@@ -1518,7 +1518,7 @@ void pnga_get_diag(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1526,7 +1526,7 @@ void pnga_get_diag(Integer g_a, Integer g_v)
   if (vndim != 1)
     pnga_error("ga_get_diag: wrong dimension for g_v.", vndim);
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_get_diag: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -1725,7 +1725,7 @@ static void sgai_add_diagonal_block(Integer g_a, void *ptr, Integer g_v,
 #endif
 void pnga_add_diagonal(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
   Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
@@ -1745,7 +1745,7 @@ void pnga_add_diagonal(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire(g_v, &vtype, &vndim, &vdims);
+  pnga_inquire(g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1754,7 +1754,7 @@ void pnga_add_diagonal(Integer g_a, Integer g_v)
     pnga_error("ga_add_diagonal: wrong dimension for g_v.", vndim);
 
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_add_diagonal: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -1955,7 +1955,7 @@ static void sgai_set_diagonal_block(Integer g_a, void *ptr, Integer g_v, Integer
 #endif
 void pnga_set_diagonal(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1, dim2, vtype, atype, type;
   Integer me = pnga_nodeid (), i, nproc = pnga_nnodes();
   Integer andim, adims[MAXDIM];
   Integer loA[2], hiA[2], ld;
@@ -1975,7 +1975,7 @@ void pnga_set_diagonal(Integer g_a, Integer g_v)
   dim1 = adims[0];
   dim2 = adims[1];
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -1984,7 +1984,7 @@ void pnga_set_diagonal(Integer g_a, Integer g_v)
     pnga_error("ga_set_diagonal: wrong dimension for g_v.", vndim);
 
 
-  if (vdims != GA_MIN (dim1, dim2))
+  if (vdims[0] != GA_MIN (dim1, dim2))
     pnga_error
       ("ga_set_diagonal: The size of the first array's diagonal is greater than the size of the second array.",
        type);
@@ -2537,7 +2537,7 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
 #endif
 void pnga_scale_rows(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims, dim1/*, dim2*/, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM], dim1/*, dim2*/, vtype, atype, type;
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i, chk;
   char *ptr;
@@ -2557,7 +2557,7 @@ void pnga_scale_rows(Integer g_a, Integer g_v)
   dim1 = adims[0];
   /*dim2 = adims[1];*/
   type = atype;
-  pnga_inquire (g_v, &vtype, &vndim, &vdims);
+  pnga_inquire (g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -2567,10 +2567,10 @@ void pnga_scale_rows(Integer g_a, Integer g_v)
 
   /*in internal functions, dim1 = number of rows of the matrix g_a*/
   /*in internal functions, dim2 = number of columns of the matrix g_a*/
-  if (vdims != dim1)
+  if (vdims[0] != dim1)
     pnga_error
       ("ga_scale_rows_: The size of the scalar array is not the same as the number of the rows of g_a.",
-       vdims);
+       vdims[0]);
 
   if (vtype != atype)
   {
@@ -2745,7 +2745,7 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
 #endif
 void pnga_scale_cols(Integer g_a, Integer g_v)
 {
-  Integer vndim, vdims/*, dim1*/, dim2, vtype, atype, type;
+  Integer vndim, vdims[MAXDIM]/*, dim1*/, dim2, vtype, atype, type;
   Integer ld, lo[2], hi[2];
   Integer me = pnga_nodeid (), i;
   char *ptr;
@@ -2766,7 +2766,7 @@ void pnga_scale_cols(Integer g_a, Integer g_v)
   /*dim1 = adims[0];*/
   dim2 = adims[1];
   type = atype;
-  pnga_inquire(g_v, &vtype, &vndim, &vdims);
+  pnga_inquire(g_v, &vtype, &vndim, vdims);
 
   /* Perform some error checking */
   if (andim != 2)
@@ -2776,10 +2776,10 @@ void pnga_scale_cols(Integer g_a, Integer g_v)
 
   /*in internal functions, dim1 = number of rows of the matrix g_a*/
   /*in internal functions, dim2 = number of columns of the matrix g_a*/
-  if (vdims != dim2)
+  if (vdims[0] != dim2)
     pnga_error
       ("ga_scale_cols_: The size of the scalar array is not the same as the number of the rows of g_a.",
-       vdims);
+       vdims[0]);
 
   if (vtype != atype)
     {
diff --git a/global/src/sclstubs.c b/global/src/sclstubs.c
index b28d28c..54a81ad 100644
--- a/global/src/sclstubs.c
+++ b/global/src/sclstubs.c
@@ -64,13 +64,15 @@ void pnga_lu_solve(char *tran, Integer g_a, Integer g_b) {
 
   Integer dimA1, dimA2, typeA;
   Integer dimB1, dimB2, typeB;
-  Integer dimsA[2], dimsB[2], ndim;
+  Integer dimsA[MAXDIM], dimsB[MAXDIM], ndim;
 
   /** check GA info for input arrays */
   pnga_check_handle(g_a, "ga_lu_solve: a");
   pnga_check_handle(g_b, "ga_lu_solve: b");
   pnga_inquire (g_a, &typeA, &ndim, dimsA);
+  if (ndim != 2) pnga_error("ga_lu_solve: g_a must be a matrix", ndim);
   pnga_inquire (g_b, &typeB, &ndim, dimsB);
+  if (ndim != 2) pnga_error("ga_lu_solve: g_b must be a matrix", ndim);
   dimA1 = dimsA[0];
   dimA2 = dimsA[1];
   dimB1 = dimsB[0];
diff --git a/global/src/sparse.c b/global/src/sparse.c
index ca28e62..1376972 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -109,10 +109,11 @@ void pnga_scan_copy(Integer g_src, Integer g_dst, Integer g_msk,
     if(!pnga_compare_distr(g_dst, g_msk))
         pnga_error("ga_scan_copy: different distribution dst",0);
 
+    ndim = pnga_ndim(g_msk);
+    if(ndim>1)pnga_error("ga_scan_copy: applicable to 1-dim arrays",ndim);
     pnga_inquire(g_src, &type_src, &ndim, &dims);
     pnga_inquire(g_dst, &type_dst, &ndim, &dims);
     pnga_inquire(g_msk, &type_msk, &ndim, &dims);
-    if(ndim>1)pnga_error("ga_scan_copy: applicable to 1-dim arrays",ndim);
     if(g_src == g_dst) {
         pnga_error("ga_scan_copy: src and dst must be different arrays", 0);
     }
@@ -246,10 +247,11 @@ void pnga_scan_add(Integer g_src, Integer g_dst, Integer g_msk,
     if(!pnga_compare_distr(g_dst, g_msk))
         pnga_error("ga_scan_add: different distribution dst",0);
 
+    ndim = pnga_ndim(g_msk);
+    if(ndim>1)pnga_error("ga_scan_add: applicable to 1-dim arrays",ndim);
     pnga_inquire(g_src, &type_src, &ndim, &dims);
     pnga_inquire(g_dst, &type_dst, &ndim, &dims);
     pnga_inquire(g_msk, &type_msk, &ndim, &dims);
-    if(ndim>1)pnga_error("ga_scan_add: applicable to 1-dim arrays",ndim);
     if(g_src == g_dst) {
         pnga_error("ga_scan_add: src and dst must be different arrays", 0);
     }
@@ -573,18 +575,21 @@ static void sga_pack_unpack(Integer g_src, Integer g_dst, Integer g_msk,
     pnga_check_handle(g_src, "ga_pack src");
     pnga_check_handle(g_dst, "ga_pack dst");
     pnga_check_handle(g_msk, "ga_pack msk");
-    pnga_inquire(g_src, &type_src, &ndim_src, &dims);
-    pnga_inquire(g_dst, &type_dst, &ndim_dst, &dims);
-    pnga_inquire(g_msk, &type_msk, &ndim_msk, &dims);
+    ndim_src = pnga_ndim(g_src);
     if (1 != ndim_src) {
         pnga_error("ga_pack: supports 1-dim arrays only: src", ndim_src);
     }
+    pnga_inquire(g_src, &type_src, &ndim_src, &dims);
+    ndim_dst = pnga_ndim(g_dst);
     if (1 != ndim_dst) {
         pnga_error("ga_pack: supports 1-dim arrays only: dst", ndim_dst);
     }
+    pnga_inquire(g_dst, &type_dst, &ndim_dst, &dims);
+    ndim_msk = pnga_ndim(g_msk);
     if (1 != ndim_msk) {
         pnga_error("ga_pack: supports 1-dim arrays only: msk", ndim_msk);
     }
+    pnga_inquire(g_msk, &type_msk, &ndim_msk, &dims);
     if (type_src != type_dst) {
         pnga_error("ga_pack: src and dst must be same type", 0);
     }
@@ -763,8 +768,9 @@ Integer type, ndim, nbin, lobin, hibin, me=pnga_nodeid(),crap;
 Integer dims[2], nproc=pnga_nnodes(),chunk[2];
 Integer tlo[2], thi[2];
 
-    pnga_inquire(g_bin, &type, &ndim, &nbin);
+    ndim = pnga_ndim(g_bin);
     if(ndim !=1) pnga_error("ga_bin_index: 1-dim array required",ndim);
+    pnga_inquire(g_bin, &type, &ndim, &nbin);
     if(type!= C_INT && type!=C_LONG && type!=C_LONGLONG)
        pnga_error("ga_bin_index: not integer type",type);
 
@@ -871,8 +877,9 @@ Integer g_range;
         pnga_error("ga_bin_sorter: failed to create temp bin range array",0); 
     pnga_sync();
 
-    pnga_inquire(g_bin, &type, &ndim, &totbin);
+    ndim = pnga_ndim(g_bin);
     if(ndim !=1) pnga_error("ga_bin_sorter: 1-dim array required",ndim);
+    pnga_inquire(g_bin, &type, &ndim, &totbin);
      
     pnga_distribution(g_bin, me, &lo, &hi);
     if (lo > 0 ){ /* we get 0 if no elements stored on this process */
@@ -920,8 +927,9 @@ int i, my_nbin=0;
 int *all_bin_contrib, *offset;
 Integer type, ndim, nbin;
 
-    pnga_inquire(g_bin, &type, &ndim, &nbin);
+    ndim = pnga_ndim(g_bin);
     if(ndim !=1) pnga_error("ga_bin_index: 1-dim array required",ndim);
+    pnga_inquire(g_bin, &type, &ndim, &nbin);
     if(type!= C_INT && type!=C_LONG && type!=C_LONGLONG)
        pnga_error("ga_bin_index: not integer type",type);
 
-- 
2.43.0


From 8b1fe0556a7a83c49a7595ceba5b3c8a6daf3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 139/151] fix: ga_pgroup_destroy freed the group before
 refusing because arrays use it, and took any number for a handle

---
 global/src/base.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index b450f5b..4a82a82 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1335,13 +1335,10 @@ logical pnga_pgroup_destroy(Integer grp_id)
 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
 
-  if (PGRP_LIST[grp_id].actv == 0) {
+  if (grp_id < 0 || grp_id >= _max_global_array || PGRP_LIST[grp_id].actv == 0) {
     return FALSE;
   }
 
-#ifdef MSG_COMMS_MPI
-       ARMCI_Group_free(&PGRP_LIST[grp_id].group);
-#endif
   /* check to make sure there are no GAs that depend on this process group */
   i=0;
   ok = 1;
@@ -1352,6 +1349,10 @@ logical pnga_pgroup_destroy(Integer grp_id)
       i++;
   }while(i<_max_global_array && ok);
   if (!ok) pnga_error("Attempt to destroy process group with attached GAs",grp_id);
+
+#ifdef MSG_COMMS_MPI
+       ARMCI_Group_free(&PGRP_LIST[grp_id].group);
+#endif
   
   PGRP_LIST[grp_id].actv = 0;
 
-- 
2.43.0


From 4d9620d646e93e192702d5590a7be696fc106953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 140/151] fix: ga_zero_patch in Fortran zeroed an undefined
 region

---
 global/src/fapi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index 2279e46..c0a7461 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2641,7 +2641,7 @@ void FATR ga_zero_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo,
     Integer lo[2], hi[2];
 
     lo[0] = *ilo; lo[1] = *jlo;
-    hi[0] = *ihi; lo[1] = *jhi;
+    hi[0] = *ihi; hi[1] = *jhi;
     wnga_zero_patch(*g_a, lo, hi);
 }
 
-- 
2.43.0


From 67356973a1479bd5ee317371a4b9bc35d23450f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 141/151] fix: ga_iscal_patch and nga_iscale_patch rejected
 every type

---
 global/src/fapi.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/fapi.c b/global/src/fapi.c
index c0a7461..f2f4e6f 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -2423,7 +2423,7 @@ void FATR ga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2433,7 +2433,7 @@ void FATR ga_iscal_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2502,7 +2502,7 @@ void FATR nga_iscale_(Integer *g_a, Integer* alpha)
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong type ", 0L);
     wnga_scale(*g_a, alpha);
 }
@@ -2929,7 +2929,7 @@ void FATR ga_iscal_patch_(Integer *g_a, Integer *ilo, Integer *ihi, Integer *jlo
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     sga_scale_patch(*g_a, ilo, ihi, jlo, jhi, alpha);
 }
@@ -2980,7 +2980,7 @@ void FATR nga_iscale_patch_(Integer *g_a, Integer *lo, Integer *hi, Integer *alp
     Integer atype;
 
     pnga_inquire_type(*g_a, &atype);
-    if (atype != C_INT || atype != C_LONG || atype != C_LONGLONG)
+    if (atype != C_INT && atype != C_LONG && atype != C_LONGLONG)
         pnga_error(" wrong types ", 0L);
     wnga_scale_patch(*g_a, lo, hi, alpha);
 }
-- 
2.43.0


From 4f0a17b521754994e2e9aa95663b74c4a573f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 142/151] fix: get_array_name refused allocated arrays and
 never returned the name in Fortran

---
 global/src/base.c | 4 +---
 global/src/fapi.c | 8 ++++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 4a82a82..df80804 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1641,10 +1641,8 @@ void pnga_set_array_name(Integer g_a, char *array_name)
 void pnga_get_array_name(Integer g_a, char *array_name)
 {
   Integer ga_handle = g_a + GA_OFFSET;
-  if (GA[ga_handle].actv == 1)
+  if (GA[ga_handle].actv_handle == 0)
     pnga_error("Cannot get array name on array that has not been allocated",0);
-  if (strlen(array_name) > FNAM)
-    pnga_error("Array name exceeds maximum array name length",FNAM);
   strcpy(array_name, GA[ga_handle].name);
 }
 
diff --git a/global/src/fapi.c b/global/src/fapi.c
index f2f4e6f..f06c685 100644
--- a/global/src/fapi.c
+++ b/global/src/fapi.c
@@ -921,16 +921,16 @@ void FATR nga_set_array_name_(Integer *g_a, char *array_name, int slen)
 
 void FATR ga_get_array_name_(Integer *g_a, char *array_name, int slen)
 {
-  char buf[FNAM];
-  ga_f2cstring(array_name ,slen, buf, FNAM);
+  char buf[FNAM+1];
   wnga_get_array_name(*g_a, buf);
+  ga_c2fstring(buf, array_name, slen);
 }
 
 void FATR nga_get_array_name_(Integer *g_a, char *array_name, int slen)
 {
-  char buf[FNAM];
-  ga_f2cstring(array_name ,slen, buf, FNAM);
+  char buf[FNAM+1];
   wnga_get_array_name(*g_a, buf);
+  ga_c2fstring(buf, array_name, slen);
 }
 
 void FATR ga_set_block_cyclic_(Integer *g_a, Integer *dims)
-- 
2.43.0


From fb56eecf680ab8be0ab83414ec781f40ba06a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 143/151] fix: two-dimensional ga_scatter_acc permuted the
 caller's values and subscripts

---
 global/src/onesided.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index d7f5b4f..6ce08ef 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2688,6 +2688,8 @@ Integer item_size;
 Integer first, nelem, proc, type=GA[GA_OFFSET + g_a].type;
 Integer *int_ptr;
 Integer subscrpt[2];
+void *v_sort;
+Integer *i_sort;
 
   if (nv < 1) return;
 
@@ -2712,7 +2714,13 @@ Integer subscrpt[2];
   item_size = GAsizeofM(type);
   GAbytes.scatot += (double)item_size*nv ;
 
-  /* Sort the entries by processor */
+  /* Sort the entries by processor; the caller's lists are left alone */
+  v_sort = pnga_malloc(nv, (Integer)type, "ga_scatter_acc--v");
+  i_sort = (Integer*) pnga_malloc(2*nv, MT_F_INT, "ga_scatter_acc--ij");
+  memcpy(v_sort, v, (size_t)item_size*nv);
+  memcpy(i_sort, i, sizeof(Integer)*nv);
+  memcpy(i_sort+nv, j, sizeof(Integer)*nv);
+  v = v_sort; i = i_sort; j = i_sort+nv;
   ga_sort_scat(&nv, v, i, j, int_ptr, type );
 
   /* go through the list again executing scatter for each processor */
@@ -2738,6 +2746,8 @@ Integer subscrpt[2];
 
   }while (first< nv);
 
+  pnga_free(i_sort);
+  pnga_free(v_sort);
   pnga_free(int_ptr);
 
 }
-- 
2.43.0


From 43192b097269eaf3493c7a9a5f513fb6aa007e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 144/151] fix: GP_Get_size, GP_Get and GP_Put failed on
 processes that hold no elements of the array

---
 gparrays/src/gponesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index be48dd5..80e77ff 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -90,7 +90,7 @@ void pgp_get_size(Integer g_p, Integer *lo, Integer *hi,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get_size: illegal block size specified", g_p);
   }
 
@@ -172,7 +172,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_get: illegal block size specified", g_p);
   }
   /*bjp
@@ -403,7 +403,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
   }
   ndim = pnga_ndim(GP[handle].g_ptr_array);
   for (i=0; i<ndim; i++) {
-    if (GP[handle].lo[i] > GP[handle].hi[i])
+    if (lo[i] > hi[i])
       pnga_error("gp_put: illegal block size specified", g_p);
   }
 
-- 
2.43.0


From 67946053dd19644372fb9550dff6eea4fec5d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 145/151] fix: GP_Gather and GP_Scatter freed undefined
 pointers for elements of size zero

---
 gparrays/src/gponesided.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index 80e77ff..f8c568f 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -811,8 +811,9 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
       }
 #endif
 
-      /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
+      /* free arrays; one pair was allocated per non-empty element */
+      while (j > 0) {
+        j--;
         free(src_array[j]);
         free(dst_array[j]);
       }
@@ -983,8 +984,9 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
       }
 #endif
 
-      /* free arrays */
-      for (j=0; j<nelems[iproc]; j++) {
+      /* free arrays; one pair was allocated per non-empty element */
+      while (j > 0) {
+        j--;
         free(src_array[j]);
         free(dst_array[j]);
       }
-- 
2.43.0


From 1bcf4a05b8549d882eadac23108a28368bf8f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 146/151] fix: GP_Gather and GP_Scatter added up 32-bit sizes
 as 64-bit integers

---
 gparrays/src/gponesided.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index f8c568f..125e9ce 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -831,7 +831,11 @@ void pgp_gather(Integer g_p, Integer nv, Integer *subscript, void *buf,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += ((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
 
@@ -1004,6 +1008,10 @@ void pgp_scatter(Integer g_p, Integer nv, Integer *subscript, void **buf_ptr,
   
   *size = 0;
   for (i=0; i<nv; i++) {
-    *size += (Integer)((Integer*)buf_size)[i];
+    if (intsize == 4) {
+      *size += (Integer)((int*)buf_size)[i];
+    } else {
+      *size += (Integer)((int64_t*)buf_size)[i];
+    }
   }
 }
-- 
2.43.0


From 5c088322e9feeb292a87b83341c8e887d7c4acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 147/151] fix: GP_Put compared the wrong sizes when the size
 list has leading dimensions of its own

---
 gparrays/src/gponesided.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index 125e9ce..5fb5883 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -425,14 +425,22 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       tmpsize64 = (int64_t*)malloc(nelems*sizeof(int64_t));
       pnga_get(GP[handle].g_size_array, lo, hi, tmpsize64, block_ld);
     }
-    if (intsize == 4) {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize32[i] != (int)((int*)buf_size)[i])
-          pnga_error("gp_put: mismatch in element sizes", i);
+    for (i=0; i<nelems; i++) {
+      /* buf_size has strides of its own */
+      itmp = i;
+      for (d=0; d<ndim-1; d++) {
+        index[d] = itmp%block_ld[d];
+        itmp = (itmp - index[d])/block_ld[d];
       }
-    } else {
-      for (i=0; i<nelems; i++) {
-        if (tmpsize64[i] != (int64_t)((int64_t*)buf_size)[i])
+      offset_sz = itmp;
+      for (d=ndim-2; d>=0; d--) {
+        offset_sz = offset_sz*ld_sz[d] + index[d];
+      }
+      if (intsize == 4) {
+        if (tmpsize32[i] != (int)((int*)buf_size)[offset_sz])
+          pnga_error("gp_put: mismatch in element sizes", i);
+      } else {
+        if (tmpsize64[i] != (int64_t)((int64_t*)buf_size)[offset_sz])
           pnga_error("gp_put: mismatch in element sizes", i);
       }
     }
-- 
2.43.0


From 88ed3c44b63e9585e0103af3c33ed91ca557b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 148/151] fix: GP_Put and GP_Get with user buffers did not
 report the size moved

---
 gparrays/src/gponesided.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index 5fb5883..ef1a8eb 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -303,6 +303,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
       } else {
         bytes = (int)((int64_t*)buf_size)[offset_sz];
       }
+      if (setbuf) *size += (Integer)bytes;
       /*bjp
         printf("p[%d] bytes: %d\n",me,bytes);
        */
@@ -453,6 +454,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
 
   idx = 0;
   offset_ptr = 0;
+  *size = 0;
 
   /* locate the processors containing some portion of the patch represented by
    * lo and hi and return the results in _gp_map, gp_proclist, and np.
@@ -515,6 +517,7 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       } else {
         bytes = (int)((int64_t*)buf_size)[offset_sz];
       }
+      *size += (Integer)bytes;
       if (bytes > 0) {
         if (rem_ptr[offset_rem].cpid == me) {
           (dst_array[j])[0] = ((void*)(rem_ptr[offset_rem].addr));
-- 
2.43.0


From 9bfac4c75abc1353fbd7179d04732530676f69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 149/151] fix: GP_Put and GP_Get leaked their pointer lists

---
 gparrays/src/gponesided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gparrays/src/gponesided.c b/gparrays/src/gponesided.c
index ef1a8eb..e9116b3 100644
--- a/gparrays/src/gponesided.c
+++ b/gparrays/src/gponesided.c
@@ -353,7 +353,7 @@ void pgp_get(Integer g_p, Integer *lo, Integer *hi, void *buf,
       if (rc) pnga_error("ARMCI_GetV failure in gp_get",rc);
     }
 #endif
-    for (j=0; j<jcnt; j++) {
+    for (j=0; j<nelems; j++) {
       free(src_array[j]);
       free(dst_array[j]);
     }
@@ -554,16 +554,16 @@ void pgp_put(Integer g_p, Integer *lo, Integer *hi, void **buf_ptr,
       if (rc) pnga_error("ARMCI_PutV failure in gp_put",rc);
     }
 #endif
-    for (j=0; j<jcnt; j++) {
+    for (j=0; j<nelems; j++) {
       free(src_array[j]);
       free(dst_array[j]);
     }
     /* Free temporary buffers */
     free(rem_ptr);
     free(desc);
+    free(src_array);
+    free(dst_array);
   }
-  free(src_array);
-  free(dst_array);
 }
 
 /**
-- 
2.43.0


From baee6a6f09cf4911ad545863d9302bc987c37f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 150/151] fix: GP_Memzero failed on processes that hold no
 elements of the array

---
 gparrays/src/gpbase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gparrays/src/gpbase.c b/gparrays/src/gpbase.c
index a0a3dfa..42f0097 100644
--- a/gparrays/src/gpbase.c
+++ b/gparrays/src/gpbase.c
@@ -500,6 +500,10 @@ void pgp_memzero(Integer g_p, Integer intsize)
   for (i=0; i<ndim; i++) {
     nelems *= (hi[i]-lo[i]+1);
   }
+  if (nelems < 1) {
+    pnga_sync();
+    return;
+  }
 
   /* Get pointers to local data elements and their sizes */
   pnga_access_ptr(GP[handle].g_ptr_array,lo,hi,&gp_ptr,ld);
-- 
2.43.0


From 08f503de692daa88567694e2830471ec3746bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:05 +0000
Subject: [PATCH 151/151] fix: a get served from the read cache ignored the
 caller's leading dimensions

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 6ce08ef..2f3f715 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1229,7 +1229,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
-- 
2.43.0

