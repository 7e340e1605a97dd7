From 6565e6ebd040e7bedae2a6f936d953e3b5268e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 01/54] fix: keep bands aligned with dates in the model of
 insufficient clear observations

---
 src/cxx/cold.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..f9efc77 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
@@ -5206,8 +5206,10 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        for (i = 0; i < end; i++) // sort a copy so that the bands stay aligned with the dates
+            temp_v_dif[1][i] = clry[1][i];
+        quick_sort_float(temp_v_dif[1], 0, end - 1);
+        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From b0f20f014a45d63411fe2f3961953404296d22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 02/54] fix: keep dates aligned per band in the permanent snow
 model

---
 src/cxx/cold.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index f9efc77..fb01f01 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4868,6 +4868,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_band;                  /* dates of the observations valid in one band */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -4883,6 +4884,12 @@ int inefficientobs_procedure
         RETURN_ERROR("ERROR allocating clrx memory", FUNC_NAME, FAILURE);
     }
 
+    clrx_band = malloc(valid_num_scenes * sizeof(int));
+    if (clrx_band == NULL)
+    {
+        RETURN_ERROR("ERROR allocating clrx_band memory", FUNC_NAME, FAILURE);
+    }
+
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
     if (clry == NULL)
@@ -4968,6 +4975,7 @@ int inefficientobs_procedure
         if (n_sn < N_TIMES * MIN_NUM_C) // not enough snow pixels
         {
             free(clrx);
+            free(clrx_band);
             status = free_2d_array((void **) clry);
             if (status != SUCCESS)
             {
@@ -5018,7 +5026,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5031,7 +5039,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5047,13 +5055,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5328,6 +5336,7 @@ int inefficientobs_procedure
     *num_fc = *num_fc + 1;
 
     free(clrx);
+    free(clrx_band);
     status = free_2d_array((void **) clry);
     if (status != SUCCESS)
     {
-- 
2.43.0


From cb062d90cb043d291aec6662740607416f430213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 03/54] fix: reconstruct missing collection-2 thermal values
 like COLD does

---
 src/cxx/cold.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index fb01f01..2c936a7 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5537,8 +5537,12 @@ int obcold_reconstruction_procedure
                         clry[k][n_clr] = (float)buf_s1[i];
                     else if (k == 5)
                         clry[k][n_clr] = (float)buf_s2[i];
-                    else if (k == 6)
-                        clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    else if (k == 6){
+                        if ((b_c2 == TRUE) && (buf_t[i] == 0))
+                            clry[k][n_clr] = 0;
+                        else
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    }
                     //printf("%3.2f\n", clry[k][n_clr]);
                 }
                 n_clr++;
-- 
2.43.0


From 29cd1875acdca876c54761f34e1317116ffda4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 04/54] fix: compute the snow percentage used by the
 reconstruction's fallback

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 2c936a7..e929a94 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5512,6 +5512,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From 3ea01a0a61c09b923a37cc8c531439126984a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 05/54] fix: do not count the break observation in a segment's
 number of observations

---
 src/cxx/cold.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index e929a94..bc21563 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1305,7 +1305,7 @@ int stand_procedure_fixeddays
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[0];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
@@ -3704,7 +3704,7 @@ int stand_procedure
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[i_dense-1];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
@@ -5790,7 +5790,7 @@ int obcold_reconstruction_procedure
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
             // rec_cg[*num_fc].t_confirmed = 0;
-            rec_cg[*num_fc].num_obs = i_break - i_last_break + 1;
+            rec_cg[*num_fc].num_obs = i_break - i_last_break;
             rec_cg[*num_fc].category = 0 + update_num_c;
 
             /* note that each time we calculate change magnitude for the last curve, not current curve*/
-- 
2.43.0


From 48609eda169e2484fd1c0f6a914913f84c933b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 06/54] fix: size the record arrays for every segment a series
 can have

---
 src/cxx/cold.c                      | 45 -----------------------------
 src/python/pycold/_colds_cython.pyx | 14 +++++----
 2 files changed, 9 insertions(+), 50 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index bc21563..c5372d9 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3754,21 +3754,6 @@ int stand_procedure
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -4353,21 +4338,6 @@ int stand_procedure
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -4704,21 +4674,6 @@ int stand_procedure
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..ef87f35 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -172,7 +172,8 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    # a segment takes at least 12 observations, except for the first and the last
+    rec_cg = np.zeros(max(NUM_FC, valid_num_scenes // 12 + 2), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
@@ -258,7 +259,7 @@ cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     # allocate memory for rec_cg
     cdef int num_fc = 0
     cdef Output_t t
-    rec_cg = np.zeros(NUM_FC, dtype=reccg_dt)
+    rec_cg = np.zeros(max(NUM_FC, break_date_len + 1), dtype=reccg_dt)
 
     cdef long [:] dates_view = dates
     cdef long [:] ts_b_view = ts_b
@@ -336,10 +337,12 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
     cdef int num_fc = 0
     cdef int num_nrt_queue = 0
     cdef int num_fc_pinpoint = 0
-    rec_cg = np.zeros(NUM_FC_SCCD, dtype=sccd_dt)
+    # a segment takes at least 18 observations
+    rec_cg = np.zeros(max(NUM_FC_SCCD, valid_num_scenes // 18 + 2), dtype=sccd_dt)
     nrt_queue = np.zeros(NUM_NRT_QUEUE, dtype=nrtqueue_dt)
     nrt_model = np.zeros(1, dtype=nrtmodel_dt)
-    rec_cg_pinpoint = np.zeros(NUM_FC_SCCD, dtype=pinpoint_dt)
+    # at most one pinpoint break a year
+    rec_cg_pinpoint = np.zeros(max(NUM_FC_SCCD, (dates[-1] - dates[0]) // 365 + 2), dtype=pinpoint_dt)
     cdef int nrt_mode = 0
 
     if dates[-1] - dates[0] < 365.25:
@@ -471,7 +474,8 @@ cpdef _sccd_update(sccd_pack,
     cdef Output_sccd_pinpoint* rec_cg_pinpoint = <Output_sccd_pinpoint*> PyMem_Malloc(sizeof(t4))
 
     # grab inputs from the input
-    rec_cg_new = np.empty(NUM_FC_SCCD, dtype=sccd_dt)
+    # the segments so far, and those the observations at hand can still make
+    rec_cg_new = np.empty(max(NUM_FC_SCCD, num_fc + (valid_num_scenes + num_nrt_queue) // 18 + 2), dtype=sccd_dt)
     if num_fc > 0:
         rec_cg_new[0:num_fc] = sccd_pack.rec_cg[0:num_fc]
 
-- 
2.43.0


From f2d3c9266c014787781a39c98471ef33b0c7d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 07/54] fix: keep change magnitudes outside the requested
 periods from overwriting memory

---
 src/python/pycold/_colds_cython.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index ef87f35..e45ea9c 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -194,8 +194,12 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
            starting_date = dates[0]
         if n_cm == 0:
            n_cm = math.ceil((dates[valid_num_scenes-1] - starting_date + 1) / cm_output_interval) + 1
-        cm_outputs = np.full(n_cm, -9999, dtype=np.short)
-        cm_outputs_date = np.full(n_cm, -9999, dtype=np.short)
+        # observations may precede the starting date or follow the last period: give them room too
+        n_lead = max(0, -((dates[0] - starting_date) // cm_output_interval))
+        starting_date = starting_date - n_lead * cm_output_interval
+        n_all = max(n_lead + n_cm, (dates[valid_num_scenes-1] - starting_date) // cm_output_interval + 1)
+        cm_outputs = np.full(n_all, -9999, dtype=np.short)
+        cm_outputs_date = np.full(n_all, -9999, dtype=np.short)
     # set the length to 1 to save memory, as they won't be assigned values
     else:
         cm_outputs = np.full(1, -9999, dtype=np.short)
@@ -217,7 +221,7 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
                 return rec_cg[:num_fc] # np.asarray uses also the buffer-protocol and is able to construct
                                                              # a dtype-object from cython's array
             else:  # for object-based COLD
-                return [rec_cg[:num_fc], cm_outputs, cm_outputs_date]
+                return [rec_cg[:num_fc], cm_outputs[n_lead:n_lead + n_cm], cm_outputs_date[n_lead:n_lead + n_cm]]
 
 
 cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
-- 
2.43.0


From 24402c06ab8f1c70997912c41a23b67f6cfa6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 08/54] fix: do not crash reconstructing a pixel without usable
 observations

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..b0e1b02 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -1115,7 +1115,7 @@ int find_index_clrx
     int i;
     bool find_success = FALSE;
     int min_abs_diff = 9999999;
-    int minabsdiff_i_record ;
+    int minabsdiff_i_record = 0;
     for(i = 0; i < end; i++){
         if (clrx[i] == input_ordinal_date){
            find_success = TRUE;
-- 
2.43.0


From 67e5cf15c64f611c114d4dd63a4e34119f5c6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 09/54] fix: do not change the noise levels of the pack given
 to sccd_update

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index e45ea9c..dd153e9 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -492,7 +492,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 08c32cbf43c4bec02e2a26381bc33a8c4931f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/54] fix: mosaic change maps of tiles with unequal numbers
 of block columns and rows

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From 8f86f11f125bceecad63ce5cf22fb29900097418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/54] fix: leave fill in the change maps where a block has no
 file

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..110d8d3 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 5aa8a706e56540911f34df68bfe1cdbe11d3d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 12/54] fix: assemble tiles with unequal numbers of block
 columns and rows

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 110d8d3..486d66c 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From d4659788790f817dd02f6764079e94da50607090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/54] fix: assemble the change date maps with fewer than 16
 cores too

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..955d0e6 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -633,7 +633,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From a322a5dc6342d654982a796e4eee4c9be2a3dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 14/54] fix: let every core prepare the result folders it
 writes to

---
 src/python/pycold/imagetool/tile_processing.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 955d0e6..ce374d5 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -370,13 +370,11 @@ def main(
             print("reading start dates errors: {}".format(start_time.strftime("%Y-%m-%d %H:%M:%S")))
             exit()
 
-    # logging and folder preparation
+    # logging and folder preparation; any core may come first
+    os.makedirs(result_path, exist_ok=True)
+    if method == "OBCOLD":
+        os.makedirs(join(result_path, "cm_maps"), exist_ok=True)
     if rank == 1:
-        if not os.path.exists(result_path):
-            os.makedirs(result_path)
-        if method == "OBCOLD":
-            if not os.path.exists(join(result_path, "cm_maps")):
-                os.makedirs(join(result_path, "cm_maps"))
         print(
             "The per-pixel time series processing begins: {}".format(
                 start_time.strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From f969b5fb2444d0bf04a1fb9b408f116cff0a2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 15/54] fix: let files that other cores wait for appear only
 when complete

---
 src/python/pycold/ob_analyst.py   | 10 ++++++++--
 src/python/pycold/pyclassifier.py | 20 +++++++++++++++-----
 src/python/pycold/utils.py        | 17 ++++++++++++++++-
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..1a1f11e 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -12,7 +12,13 @@ from scipy import stats
 from scipy.stats import chi2
 from os.path import join, exists
 from logging import Logger
-from pycold.utils import get_block_x, get_block_y, read_blockdata, get_rowcol_intile
+from pycold.utils import (
+    get_block_x,
+    get_block_y,
+    read_blockdata,
+    get_rowcol_intile,
+    save_complete,
+)
 from pycold.app import defaults
 from pycold import obcold_reconstruct
 from skimage.segmentation import slic
@@ -1016,7 +1022,7 @@ class ObjectAnalystHPC:
         )
         for i in range(self.dataset_info.n_block_y):
             for j in range(self.dataset_info.n_block_x):
-                np.save(
+                save_complete(
                     join(self.obia_path, filenm + "_x{}_y{}.npy".format(j + 1, i + 1)),
                     result_blocks[i][j],
                 )
diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..d17729d 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,14 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import (
+    get_block_y,
+    get_block_x,
+    get_col_index,
+    get_row_index,
+    assemble_array,
+    save_complete,
+)
 from pycold.common import DatasetInfo
 
 
@@ -422,7 +429,7 @@ class PyClassifierHPC(PyClassifier):
 
         """
         for id, year in enumerate(self.year_list_to_predict):
-            np.save(
+            save_complete(
                 os.path.join(self.tmp_path, "tmp_feature_year{}_block{}.npy").format(
                     year, block_id
                 ),
@@ -439,7 +446,10 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        # other cores start reading as soon as rf_path exists
+        part = "{}.part{}".format(rf_path, os.getpid())
+        joblib.dump(rf_model, part, compress=3)
+        os.replace(part, rf_path)
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -451,7 +461,7 @@ class PyClassifierHPC(PyClassifier):
         outfile = join(
             self.tmp_path, "tmp_yearlyclassification{}_block{}.npy".format(year, block_id)
         )
-        np.save(outfile, cmap)
+        save_complete(outfile, cmap)
 
     def _is_finished_step3_classification(self):
         """
@@ -465,7 +475,7 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        save_complete(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
             full_yearlyclass_array,
         )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 486d66c..7e37f4e 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -70,6 +70,21 @@ def get_row_index(pos, n_cols, current_block_y, block_height):
     return int((pos - 1) / n_cols) - (current_block_y - 1) * block_height
 
 
+def save_complete(path, array):
+    """
+    save an array so that the file only appears once it is complete, for files that other cores wait for or may
+    be reading
+    Parameters
+    ----------
+    path: string, path of the npy file
+    array: the array to save
+    """
+    folder, name = os.path.split(path)
+    part = join(folder, "part{}_{}".format(os.getpid(), name))
+    np.save(part, array)
+    os.replace(part, path)
+
+
 def assemble_cmmaps(
     dataset_info: DatasetInfo,
     result_path: str,
@@ -165,7 +180,7 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        save_complete(outfile, cm_map)
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
-- 
2.43.0


From d9cdcceb281d085d751fe6ee053b1be2e14746cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 16/54] fix: do not fail classifying a block again after the
 maps were assembled

---
 src/python/pycold/pyclassifier.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index d17729d..2e9f0f0 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -613,9 +613,15 @@ class PyClassifierHPC(PyClassifier):
             ) from e
 
         for year in self.year_list_to_predict:
-            tmp_feature_block = get_features(
-                join(self.tmp_path, "tmp_feature_year{}_block{}.npy".format(year, block_id))
-            )
+            try:
+                tmp_feature_block = get_features(
+                    join(self.tmp_path, "tmp_feature_year{}_block{}.npy".format(year, block_id))
+                )
+            except FileNotFoundError:
+                # in a restarted run, another core may have assembled the maps and cleaned meanwhile
+                if self.is_finished_step4_assemble():
+                    return
+                raise
             cmap = self.classification_block(rf_model, tmp_feature_block)
             self._save_yearlyclassification_maps(block_id, year, cmap)
         with open(
-- 
2.43.0


From b5dab4090191de25c9e0a7b189331dff514dc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 17/54] fix: go on with the next pixel when COLD fails at one

---
 src/python/pycold/imagetool/tile_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index ce374d5..96bf413 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -532,9 +532,12 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
+                        if method == "OBCOLD":
+                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     except Exception:
                         if method == "OBCOLD":
                             CM = np.full(n_cm_maps, -9999, dtype=np.short)
-- 
2.43.0


From 7beb620bb5bd94bd82a160ed135f0c536343dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 18/54] fix: treat a block without images within the date
 bounds as empty

---
 src/python/pycold/imagetool/tile_processing.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 96bf413..9d28906 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,13 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
-    if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
-    if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+    files_date_zip = sorted(
+        (date, file)
+        for date, file in zip(img_dates, img_files)
+        if date >= low_datebound and (high_datebound <= 0 or date <= high_datebound)
+    )
+    if len(files_date_zip) == 0:
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From 9addc5cad0eaca5b42a6a84d52a41ff1704ce2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 19/54] fix: reconstruct from the same images and collection as
 the change maps

---
 src/python/pycold/imagetool/tile_processing.py | 3 ++-
 src/python/pycold/ob_analyst.py                | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 9d28906..9b1c515 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -729,13 +729,14 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 1a1f11e..ce47a9e 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1086,6 +1086,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1094,6 +1095,8 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            conse: the number of consecutive observations
+            b_c2: True if it is collection 2 or hls data
         Returns:
             change records
         """
@@ -1137,6 +1140,7 @@ class ObjectAnalystHPC:
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
+                    b_c2=b_c2,
                 )
             except RuntimeError:
                 logger.error(
-- 
2.43.0


From 55004d6a67e3b52801d62874a95e4b5d8aeaf8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 20/54] fix: do not crash reconstructing a block without images
 or records

---
 src/python/pycold/imagetool/tile_processing.py | 2 ++
 src/python/pycold/ob_analyst.py                | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 9b1c515..fdde158 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -731,6 +731,8 @@ def main(
             img_tstack, img_dates_sorted = get_stack_date(
                 dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index ce47a9e..f05bd8d 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1155,6 +1155,8 @@ class ObjectAnalystHPC:
         return result_collect
 
     def save_obcoldrecords(self, block_id, result_collect):
+        if not result_collect:  # as for COLD, there is no file without records
+            return
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
         np.save(
-- 
2.43.0


From 8473b426559f05154d2f9a4554dfa035dc7879c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 21/54] fix: read a block of the stack with its own number of
 pixels

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index f05bd8d..881ee5d 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1115,7 +1115,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From 76d6a2d9a5fd91d9e71a7d44441a7026867d71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 22/54] fix: use the flood fill ratio given to obia_execute

---
 src/python/pycold/ob_analyst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 881ee5d..561291f 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -936,7 +936,8 @@ class ObjectAnalystHPC:
                             cmname_fromdate(date - cm_output_interval) + ".npy",
                         )
                     ),
-                    date_array_last
+                    date_array_last,
+                    floodfill_ratio=floodfill_ratio,
                 )
             elif method == "slic":
                 [object_map_s1, cm_date_array_updated, object_map_s2, s1_info] = segmentation_slic(
-- 
2.43.0


From 0bc5cae659bedeaa017d562b4553bc802aced621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 23/54] fix: write the classification maps to the requested
 folder

---
 src/python/pycold/pyclassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 2e9f0f0..fa44ddc 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -371,7 +371,7 @@ class PyClassifierHPC(PyClassifier):
         if output_path is None:
             self.output_path = join(record_path, "feature_maps")  # default path
         else:
-            self.output_path = self.tmp_path
+            self.output_path = output_path
 
         self.n_features = band_num * len(feature_outputs)
 
-- 
2.43.0


From 6dc2dec3675c16eb827578dd7957d0f8ad6424be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 24/54] fix: give the index image its reference's columns and
 rows

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 7e37f4e..7d2b092 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -538,7 +538,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From 21b969b8108b8d8faf1c8e8b1af9b89961e5304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 25/54] fix: do not count unlabelled pixels as the last land
 cover category

---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index fa44ddc..1803f4d 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -120,7 +120,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From b7a13603e3b76de49030421ad3fb8dceb3b72593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 26/54] fix: run the slic segmentation on one-channel maps

---
 src/python/pycold/ob_analyst.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 561291f..3fc8291 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -550,6 +550,7 @@ def segmentation_slic(
             mask=mask,
             n_segments=n_segments,
             compactness=0.01,
+            channel_axis=None,
             min_size_factor=n_segments / cm_stack.shape[0] / cm_stack.shape[1],
         )
 
-- 
2.43.0


From 1e0120739b1a0e6411e4005cc716cd575ac52537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 27/54] fix: check cm_output_interval, b_c2 and b_monitor_init
 like the other parameters

---
 src/python/pycold/colds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..0a766ee 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -19,6 +19,9 @@ _parameter_constraints: dict = {
     "n_cm": [Interval(Integral, 0, None, closed="left")],
     "conse": [Interval(Integral, 0, 12, closed="neither")],
     "b_output_cm": ["boolean"],
+    "cm_output_interval": [Interval(Integral, 0, None, closed="left")],
+    "b_c2": ["boolean"],
+    "b_monitor_init": ["boolean"],
     "gap_days": [Interval(Real, 0.0, None, closed="left")],
     "b_pinpoint": ["boolean"],
     "gate_tcg": [Interval(Real, 0.0, None, closed="neither")],
-- 
2.43.0


From b89eb8dda74990e8053120035dd9d915d6e1b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 28/54] fix: name obcold_reconstruct in its own parameter
 errors

---
 src/python/pycold/colds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 0a766ee..9b55d4b 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -288,7 +288,7 @@ def obcold_reconstruct(
     ----------
     change records: the COLD outputs that characterizes each temporal segment
     """
-    _validate_params(func_name="sccd_detect", pos=pos, conse=conse, b_c2=b_c2)
+    _validate_params(func_name="obcold_reconstruct", pos=pos, conse=conse, b_c2=b_c2)
     dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates = _validate_data(
         dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates
     )
-- 
2.43.0


From c01bbc351a16a7acef66e99dc9432a241b72141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 29/54] fix: refuse a conse beyond S-CCD's maximum in
 sccd_update too

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index dd153e9..70fc419 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -463,6 +463,9 @@ cpdef _sccd_update(sccd_pack,
             nrt_queue: obs queue if queue mode, empty if monitor mode
     """
 
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int valid_num_scenes = qas.shape[0]
     # allocate memory for rec_cg
     # cdef int num_fc = 0
-- 
2.43.0


From e402e68a6a12c88feeeefb089ec3c7df5576dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 30/54] fix: reconstruct a pixel that has no break dates

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 70fc419..68b08c2 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -258,6 +258,9 @@ cpdef _obcold_reconstruct(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
         change records: the COLD outputs that characterizes each temporal segment
     """
 
+    if break_dates.shape[0] == 0:  # no break, for which a 0 stands
+        break_dates = np.zeros(1, dtype=np.int64)
+
     cdef int valid_num_scenes = qas.shape[0]
     cdef int break_date_len = break_dates.shape[0]
     # allocate memory for rec_cg
-- 
2.43.0


From 78988e752215bb551e2871dd95666a012b6a1bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 31/54] fix: identify disturbances from the stored tail,
 whatever its length

---
 src/python/pycold/colds.py |  4 ++--
 src/python/pycold/utils.py | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 9b55d4b..9dde235 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -9,7 +9,7 @@ from ._param_validation import (
     check_consistent_length,
     check_1d,
 )
-from .utils import calculate_sccd_cm
+from .utils import calculate_sccd_cm, get_sccd_tail_length
 from .app import defaults
 
 _parameter_constraints: dict = {
@@ -536,7 +536,7 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    get_sccd_tail_length(sccd_pack) - sccd_pack.nrt_model[0]["conse_last"]
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 7d2b092..fc2a06d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -548,6 +548,13 @@ def generate_rowcolimage(ref_image_path, out_path):
     del ref_image
 
 
+def get_sccd_tail_length(sccd_pack):
+    """
+    the number of observations kept in the tail of nrt_model (i.e., conse; the slots beyond it are zero)
+    """
+    return int(np.count_nonzero(np.any(sccd_pack.nrt_model[0]["obs"] != 0, axis=0)))
+
+
 def calculate_sccd_cm(sccd_pack):
     """
     Parameters
@@ -558,7 +565,8 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    tail_length = get_sccd_tail_length(sccd_pack)
+    start_index = tail_length - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
@@ -572,9 +580,7 @@ def calculate_sccd_cm(sccd_pack):
             for b in range(defaults["SCCD"]["NRT_BAND"])
         ]
     )
-    cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
-    )
+    cm = sccd_pack.nrt_model[0]["obs"][:, start_index:tail_length] - pred_ref
     return np.median(cm, axis=1)
 
 
-- 
2.43.0


From 81325aece070dcf1765bc96c5534ef3087380039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 32/54] fix: identify no disturbance in a pack without a model

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 9dde235..d5e2749 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -510,6 +510,7 @@ def sccd_identify(
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
+        or len(sccd_pack.nrt_model) == 0
     ):
         return sccd_pack, 0
 
-- 
2.43.0


From 155bc42707b9a1716fb1f3ec4df058890c65ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 33/54] fix: do not feed the empty slots of the stored tail
 back as observations

---
 src/cxx/s_ccd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..cedce38 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -167,11 +167,14 @@ int sccd(
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
         for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
         {
+            // slots beyond conse are empty (a valid observation has a positive NIR)
+            if ((*nrt_mode % 10 == NRT_MONITOR_STANDARD) && (nrt_model->obs_date_since1982[k] == 0) && (nrt_model->obs[3][k] == 0))
+                continue;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-                clry[i_b][k] = nrt_model->obs[i_b][k];
+                clry[i_b][n_clr] = nrt_model->obs[i_b][k];
             }
-            clrx[k] = nrt_model->obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH;
+            clrx[n_clr] = nrt_model->obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH;
             n_clr++;
         }
     }
-- 
2.43.0


From 5ae76cf405b24f46e748040de7046e1f1d8a2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 34/54] fix: keep the newest observations when the queue is
 full

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index cedce38..fc0ae01 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2509,7 +2509,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From a58af798244420034bdca77eec978099bf7daf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 35/54] fix: date the first segment from its first observation

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index fc0ae01..ff81a9b 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1378,7 +1378,7 @@ int step1_cold_initialize(
         /*                                            */
         /**********************************************/
         rec_cg[*num_curve].t_break = clrx[*i_start];
-        rec_cg[*num_curve].t_start = clrx[0];
+        rec_cg[*num_curve].t_start = clrx[*i_dense];
         rec_cg[*num_curve].num_obs = *i_start - *prev_i_break; // SY 09182018
         *prev_i_break = *i_start;
 
-- 
2.43.0


From d73778c535a748001fc69edde83dfb0ac2e4caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 36/54] fix: keep pinpoint records within the observations

---
 src/cxx/s_ccd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index ff81a9b..d69a0d0 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1882,9 +1882,9 @@ int step2_KF_ChangeDetection(
                     {
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = k < conse ? (short int)clry[i_b][cur_i + k] : 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = k < conse ? (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH) : 0;
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From c0bdd6282974923214341c0a08d1d4db9e356661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 37/54] fix: return the pinpoint structure for a void pixel too

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 68b08c2..a7386df 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -417,7 +417,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From 6592d7b897361b93f3f21c2133320632f3a4ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 38/54] fix: measure the first break on its own segment only

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index d69a0d0..eef2f25 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1347,7 +1347,7 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From 9c58a3395844309b95453343c7f056bb6f81f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 39/54] fix: start each state-space model from a fresh
 covariance

---
 src/cxx/s_ccd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index eef2f25..206c733 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -455,6 +455,7 @@ int step1_ssm_initialize(
     /*  initialize p */
     // ini_p = caculate_ini_p(instance->m, state_a, instance->Z);
     ini_p = INI_P;
+    gsl_matrix_set_zero(cov_p);
 
     for (k = 0; k < instance->m; k++)
     {
-- 
2.43.0


From 34e824665a3c45f0b379fe5e4dcff7fe594f2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 40/54] fix: confirm changes independently of the pinpoint gate

With pinpoint records requested, an observation below the gate threshold ruled out a change even
when it exceeded the change threshold, so asking for pinpoint records changed the segments.
---
 src/cxx/s_ccd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 206c733..4007e3d 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1714,6 +1714,7 @@ int step2_KF_ChangeDetection(
     float *medium_v_dif;
     float max_rmse[TOTAL_IMAGE_BANDS_SCCD];
     bool change_flag = TRUE;
+    bool pinpoint_flag = TRUE;
     float mean_angle = 0;
     float tmp;
     double vt;
@@ -1795,6 +1796,9 @@ int step2_KF_ChangeDetection(
         if (b_pinpoint == TRUE)
         {
             if ((break_mag < gate_tcg) & (i_conse < PINPOINT_CONSE))
+                pinpoint_flag = FALSE;
+            // the gate is for pinpoint breaks only: a change may still be there if it lies above the change threshold
+            if ((pinpoint_flag == FALSE) & (break_mag < tcg))
             {
                 change_flag = FALSE;
                 break;
@@ -1830,7 +1834,7 @@ int step2_KF_ChangeDetection(
 
     if (b_pinpoint == TRUE)
     {
-        if (i_conse >= PINPOINT_CONSE)
+        if ((pinpoint_flag == TRUE) & (i_conse >= PINPOINT_CONSE))
         { // meaning that over 3 anomaly pixel
             current_CM_n = (clrx[cur_i] - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR;
             if (CM_outputs[current_CM_n] == 0)
-- 
2.43.0


From c0c938b7d425e21f5e4aac4dca228d32633b563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 41/54] fix: give every band a noise level when there is one
 observation

---
 src/cxx/misc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..2b7c948 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,18 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From 114e9a666d8f5acf69f70fc31c61c8539fff49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 42/54] fix: take the ordinal of dates without Timestamp in
 export_change_map

---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..1742f79 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -477,7 +477,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
         else:
@@ -486,7 +486,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -527,7 +527,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - datetime.date(break_year, 1, 1).toordinal()
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
-- 
2.43.0


From d56db25707f4db7511f177c85ef428b0b48ed2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 43/54] fix: read S-CCD packs with the current model layout in
 export_change_map

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 1742f79..d24c689 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 03a79254f44934c749a0feaa434a5f786c3e67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 44/54] fix: write the temporary maps of S-CCD blocks in
 export_change_map

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index d24c689..81a3f39 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -557,15 +557,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From 407e0825781f0ad138085455768c9747eba7abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 45/54] fix: give exported maps the tile's columns and rows

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 81a3f39..4595135 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -587,7 +587,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -613,7 +613,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -638,7 +638,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -656,7 +656,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
-- 
2.43.0


From 3bcc8235f001c0b599502802a3900b75f8baaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 46/54] fix: cut the strip of blocks into as many rows as there
 are block rows when exporting

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 4595135..02ae1bf 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -579,7 +579,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -605,7 +605,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
-- 
2.43.0


From 9b3219873aeab7d9a06415666d045145830afd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 47/54] fix: export blocks without records as blocks without
 data

---
 src/python/pycold/imagetool/export_change_map.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 02ae1bf..d84f252 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -431,6 +431,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
@@ -481,7 +486,7 @@ def main(
                         - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
-        else:
+        elif len(cold_block) > 0:
             cold_block.sort(order="pos")
             current_processing_pos = cold_block[0]["pos"]
             current_dist_type = 0
-- 
2.43.0


From 17e2dcbf0714b1d114706d1c5f56afb474c9e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 48/54] fix: look for afforestation in the pixel's own records
 when exporting

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index d84f252..faacbc6 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -199,7 +199,9 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -218,7 +220,9 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
-- 
2.43.0


From 5bd902cda0bea75a6217d28cd1bf2c47455d5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 49/54] fix: export the breaks of a block's last record

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index faacbc6..c4e47aa 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -462,7 +462,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
@@ -503,11 +503,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From 22d59c9e359dde5f689ecc555d43d0116b236225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 50/54] fix: accept spaces in the list of coefficients to
 export

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index c4e47aa..03e6325 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -322,7 +322,7 @@ def main(
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-            coefs = [str(coef) for coef in coefs]
+            coefs = [coef.strip() for coef in coefs]
         except ValueError:
             print(
                 "Illegal coefs inputs: example, --coefs='a0, c1, a1, b1, a2, b2, a3, b3, cv, rmse'"
-- 
2.43.0


From f4d40139c60daee19db6372870b68ff828913ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 51/54] fix: scale swir2 of collection 2 as reflectance and the
 thermal band as temperature

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..1217640 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1009,8 +1009,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1491,8 +1491,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From a8fb7c1513390aa381edd8a89f6e0df3940568e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 52/54] fix: leave out collection 2 images without a band
 instead of stopping

---
 src/python/pycold/imagetool/prepare_ard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1217640..bb168a1 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1273,7 +1273,7 @@ def single_image_stacking_collection2(
             srcNodata=1,
             outputType=gdal.GDT_UInt16,
         ).ReadAsArray()
-    except ValueError as e:
+    except (ValueError, TypeError, AttributeError) as e:
         # logger.error('Cannot open QA band for {}: {}'.format(folder, e))
         logger.error("Cannot open QA band for {}: {}".format(folder, e))
         return
@@ -1391,7 +1391,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
@@ -1467,7 +1467,7 @@ def single_image_stacking_collection2(
                     srcNodata=0,
                     outputType=gdal.GDT_UInt16,
                 ).ReadAsArray()
-            except ValueError as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # logger.error('Cannot open spectral bands for {}: {}'.format(folder, e))
                 logger.error("Cannot open Landsat bands for {}: {}".format(folder, e))
                 return
-- 
2.43.0


From 549971e74d75b5f8e8c22a5c65d5e699130486fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 53/54] fix: leave out images whose archive cannot be read
 instead of stopping

---
 src/python/pycold/imagetool/prepare_ard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index bb168a1..76d9849 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -790,7 +790,7 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
         # return
 
@@ -803,7 +803,7 @@ def single_image_stacking(
                 # logger.warning('Unzip fails for {}'.format(folder.replace("SR", "BT")))
                 logger.error("Unzip fails for {}".format(folder.replace("SR", "BT")))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder.replace("SR", "BT"), e))
         return
 
@@ -1258,7 +1258,7 @@ def single_image_stacking_collection2(
                 # logger.warning('Unzip fails for {}'.format(folder))
                 logger.error("Unzip fails for {}".format(folder))
                 return
-    except IOError as e:
+    except (IOError, tarfile.TarError) as e:
         logger.error("Unzip fails for {}: {}".format(folder, e))
         # return
 
-- 
2.43.0


From 7b4706d4ad911088121d866d999cf9b705b6f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 54/54] fix: take the reference for the map of paths from an
 image that can be read

---
 src/python/pycold/imagetool/prepare_ard.py | 34 +++++++++++++---------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 76d9849..2714b37 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1886,21 +1886,27 @@ def main(
                     # conus_image_fpath = (Path(__file__).parent / 'singlepath_landsat_conus.tif').resolve()
                     conus_image = gdal.Open(os.fspath(conus_image_fpath))
 
-                if os.path.exists(join(tmp_path, folder_list[0])):
-                    shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
-                with tarfile.open(join(source_dir, folder_list[0] + ".tar")) as tar_ref:
+                ref_image = None
+                for ref_folder in folder_list:  # the first image that can be read
+                    if os.path.exists(join(tmp_path, ref_folder)):
+                        shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
                     try:
-                        tar_ref.extractall(join(tmp_path, folder_list[0]))
+                        with tarfile.open(join(source_dir, ref_folder + ".tar")) as tar_ref:
+                            tar_ref.extractall(join(tmp_path, ref_folder))
                     except Exception:
-                        logger.error("Unzip fails for {}".format(folder_list[0]))
-                if collection == "ARD":
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}B1.tif".format(folder_list[0]))
-                    )
-                else:
-                    ref_image = gdal.Open(
-                        join(tmp_path, folder_list[0], "{}_B1.TIF".format(folder_list[0]))
-                    )
+                        logger.error("Unzip fails for {}".format(ref_folder))
+                        continue
+                    if collection == "ARD":
+                        ref_image = gdal.Open(
+                            join(tmp_path, ref_folder, "{}B1.tif".format(ref_folder))
+                        )
+                    else:
+                        ref_image = gdal.Open(
+                            join(tmp_path, ref_folder, "{}_B1.TIF".format(ref_folder))
+                        )
+                    if ref_image is not None:
+                        break
+                    shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
                 trans = ref_image.GetGeoTransform()
                 proj = ref_image.GetProjection()
                 xmin = trans[0]
@@ -1919,7 +1925,7 @@ def main(
                 # must close the dst
                 dst = None  # NOQA
                 out_img = None  # NOQA
-                shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
+                shutil.rmtree(join(tmp_path, ref_folder), ignore_errors=True)
 
         if collection == "ARD" or collection == "ARD-C2":
             ordinal_dates = [
-- 
2.43.0

