From b11e167e51db78b75ec9ac335b7287329fd7d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 01/44] fix: initialise the CRC of messages shorter than the
 CRC

---
 polar_scl/ca_polar_scl_main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..4005ac9 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -106,12 +106,14 @@ int get_best_in_list(
   else {
     int sum_len = x_len + crc_len;
     int i;
-    int *tmp = (int *)malloc(x_len * sizeof(int));
+    // The work buffer is preceded by crc_len zeros, which the CRC of a message shorter than the CRC starts with.
+    int *tmp = (int *)malloc(sum_len * sizeof(int));
     if (tmp == NULL) {
       return 0;
     }
+    memset(tmp, 0, crc_len * sizeof(int));
     for (i = 0; i < lsiz; i++) {
-      if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
+      if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp + crc_len)) {
         free(tmp);
         return i;
       }
@@ -418,6 +420,8 @@ enc_bpsk(
          err_msg("enc_bpsk: Short of memory.");
          return RC_ERROR;
       }
+      // The CRC of a message shorter than the CRC starts with zeros.
+      memset(x_crc, 0, dd->crc_len * sizeof(int));
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
       smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
-- 
2.43.0


From bbeee97c77d72c8848831b5b63ca8f0414133224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 02/44] fix: look for a valid CRC only among the candidates the
 list really holds

---
 polar_scl/ca_polar_scl_main.c | 5 +++--
 polar_scl/polar_scl_inner.c   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 4005ac9..d010065 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -446,6 +446,7 @@ dec_bpsk(
    uint8 *mem_buf, *mem_buf_ptr;
    int mem_buf_size;
    int best_ind;
+   int lsiz; // Number of candidates in the final list.
    int is_erasure = 0;
 
    dd = (cdc_inst_type *)cdc;
@@ -473,8 +474,8 @@ dec_bpsk(
    for (int i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
 
    if (dd->dc.ret_list) {
-      polar_dec(&(dd->dc), dec_input, x_candidates, NULL);
-      best_ind = get_best_in_list(x_candidates, dd->eff_k, dd->dc.peak_lsiz, dd->crc, dd->crc_len);
+      lsiz = polar_dec(&(dd->dc), dec_input, x_candidates, NULL);
+      best_ind = get_best_in_list(x_candidates, dd->eff_k, lsiz, dd->crc, dd->crc_len);
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 328377b..ad39164 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -358,7 +358,7 @@ void polar_dec_inner(
   YLIST_RESET(m - 1);
 }
 
-// Decoding procedure.
+// Decoding procedure. Returns the size of the final list.
 int
 polar_dec(
    decoder_type *dd, // Decoder instance data.
@@ -544,5 +544,5 @@ polar_dec(
     }
   }
 
-  return 0;
+  return cur_lsiz;
 }
-- 
2.43.0


From 817ffb39a3b00314f65a72eafbceecb44d23add5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 03/44] fix: keep the reliability of strong samples finite

---
 formats/formats.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..9fae39e 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = tanh(-0.5 * y[i]); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -96,8 +95,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = tanh(-0.5 * y[i]); \
    } \
 }
 #endif // if not FORMAT_USE_CLIPPING
-- 
2.43.0


From 33f88d70d951011f8bc2b0b522f76230492c7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/44] fix: size the list decoder's buffer for the largest
 list of distance_threshold

---
 dtrm_glp/dtrm_glp_main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..148e9a0 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -204,6 +204,11 @@ cdc_init(
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
+   if (dd->use_var_list != 0) {
+      // The decoder memory buffer must suffice for the largest list.
+      for (i = 0; i < dd->dist_t_n; i++)
+         dd->dc.peak_lsiz = MAX(dd->dc.peak_lsiz, dd->lsiz[i]);
+   }
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
-- 
2.43.0


From 8f3623e0379198789309b800873c364defdeade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 05/44] fix: compute the displayed bit error rate without
 integer overflow

---
 simulators/sim_bg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..f059990 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -514,7 +514,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -527,7 +527,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 5c701d312ac1e0287fdc371d5020b63f4eea75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 06/44] fix: keep the requested number of trials within the
 range of int

---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index f059990..c8d8aac 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <limits.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -44,7 +45,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR INT_MAX
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
-- 
2.43.0


From fe71b80726004037702b317395fdb91cf497ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 07/44] fix: do not lower the required number of trials below
 the requested minimum

---
 simulators/sim_bg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c8d8aac..c9c0e45 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -331,8 +331,8 @@ static void update_trn_req(
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
-      estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      estimate = MIN(sim->pt[csnrn].trn * 1.5 + 0.5, MAX_TRIALS_PER_SNR);
+      if (estimate > sim->trn_req[csnrn]) sim->trn_req[csnrn] = (int)estimate;
     }
   }
 }
-- 
2.43.0


From 1746db97e4e6a1dbe40152aa2a6e71b42e438455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 08/44] fix: simulate at least the number of trials listed in
 SNR_val_trn

---
 simulators/sim_bg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c9c0e45..93d138f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -92,6 +92,7 @@ typedef struct {
   int min_trn;
   int min_en_bl;
   int trn_req[SNR_NUM_MAX];
+  int trn_min[SNR_NUM_MAX]; // Number of trials requested for each SNR value.
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -294,6 +295,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -327,7 +329,7 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
-- 
2.43.0


From 621d25a04ff535a1b0fda81776181cd7f8172135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 09/44] fix: look for an SNR value in the whole results file
 before adding it

---
 simulators/sim_bg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 93d138f..72e4a6b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -637,8 +637,14 @@ sim_save_res(
     for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
       if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
       n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
+      while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+      if (n >= snr_num) {
+        if (snr_num >= SNR_NUM_MAX) {
+          err_msg("sim_bg saving error: too many SNR values in the res file.");
+          return RC_ERROR;
+        }
+        n = 0;
+        while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
         // Make room for the new at n if required.
         for (j = snr_num; j > n; j--) {
           snr_db[j] = snr_db[j - 1];
-- 
2.43.0


From e41fd72b29eaae1416ae2bb32d320a3b516db6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 10/44] fix: remove the busy flag when saving fails and only
 after the results are written

---
 simulators/sim_bg.c | 52 ++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 72e4a6b..35164fe 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -538,6 +538,8 @@ sim_cur_res_str(
   }
 }
 
+static int update_res_file(sim_bg_inst *sim, char *str1);
+
 // Save simulation results.
 int
 sim_save_res(
@@ -546,18 +548,8 @@ sim_save_res(
   sim_bg_inst *sim;
   FILE *fp;
   char bsyfn[FN_LEN_MAX]; // Busy flag file name.
-  char *str1, *token; // For old res file parsing.
-  int snr_num = 0;
-  double snr_db[SNR_NUM_MAX];
-  sim_point pt_file[SNR_NUM_MAX];
-  int trn_n = 0;
-  int ml_trn_n = 0;
-  int en_bit_n = 0;
-  int en_bl_n = 0;
-  int er_n_n = 0;
-  int enml_bl_n = 0;
-  char err_reading_str[] = "sim_bg saving error: error reading old res file.";
-  int i, j, n, snrs_to_save;
+  char *str1; // For old res file parsing.
+  int n, rc;
 
   sim = (sim_bg_inst *)inst;
 
@@ -583,7 +575,37 @@ sim_save_res(
   fclose(fp);
 
   // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+  if (spf_tryread_preparse(sim->rf_name, &str1) != 0) str1 = NULL;
+
+  rc = update_res_file(sim, str1);
+  free(str1);
+
+  // Delete busy flag file.
+  remove(bsyfn);
+
+  return rc;
+}
+
+// Add the results to the old ones and write them to the res file.
+static int update_res_file(
+  sim_bg_inst *sim, // Simulation instance.
+  char *str1 // Preparsed old res file or NULL.
+) {
+  FILE *fp;
+  char *token; // For old res file parsing.
+  int snr_num = 0;
+  double snr_db[SNR_NUM_MAX];
+  sim_point pt_file[SNR_NUM_MAX];
+  int trn_n = 0;
+  int ml_trn_n = 0;
+  int en_bit_n = 0;
+  int en_bl_n = 0;
+  int er_n_n = 0;
+  int enml_bl_n = 0;
+  char err_reading_str[] = "sim_bg saving error: error reading old res file.";
+  int i, j, n, snrs_to_save;
+
+  if (str1 != NULL) {
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
@@ -624,7 +646,6 @@ sim_save_res(
       if (rc == RC_ERROR) return RC_ERROR;
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
-    free(str1);
 
     // Check validity of the data.
     if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n != trn_n)
@@ -738,9 +759,6 @@ sim_save_res(
     );
   }
 
-  // Delete busy flag file.
-  remove(bsyfn);
-
   fclose(fp);
   return RC_OK;
 }
-- 
2.43.0


From 058e118955b8abb52f378d8d20827dced6334cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 11/44] fix: keep counters to be saved when the results file
 cannot be opened

---
 simulators/sim_bg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 35164fe..6eaab17 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -692,10 +692,6 @@ static int update_res_file(
       copy_sim_point(&pt_file[n], &sim->pt[n]);
     }
   }
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
-
   // Save updated data.
 
   fp = fopen(sim->rf_name, "wt");
@@ -704,6 +700,10 @@ static int update_res_file(
     return RC_ERROR;
   }
 
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
+
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-- 
2.43.0


From b4f5a36a07887d487856b03fca6940ded152d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 12/44] fix: write SNR values with the digits needed to find
 them again

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 6eaab17..78d9be4 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -707,7 +707,7 @@ static int update_res_file(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From 7f041885e6600dfe86b0c7be402fb9ae486f2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 13/44] fix: preparse an include at the very end of a parameter
 file

---
 common/spf_par.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..0c06f24 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -140,6 +140,10 @@ spf_read_preparse_ext(
    // Remove comments from str1 and copy the result to str2.
    str2_len = strcpy_strip_comments(str1, i1, 1, str2);
 
+   // The last token needs a separator: an include may follow it.
+   str2[str2_len++] = ' ';
+   str2[str2_len] = 0;
+
    // ----- Preparse parameters.
 
    token = strtok(str2, token_seps);
@@ -148,7 +152,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || (sp_file = fopen(token, "rb")) == NULL) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
-- 
2.43.0


From 4b7762006b46969c1ff4c762bcf6b915e33eca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 14/44] fix: separate the closing brace of a group written as
 one word

---
 common/spf_par.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 0c06f24..14d019f 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -189,14 +189,11 @@ spf_read_preparse_ext(
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+         token++;
+         if (token[0] == 0) {
+            token = strtok(NULL, token_seps);
+            continue;
          }
-         token = strtok(NULL, token_seps);
-         continue;
       }
 
       // Group ends.
-- 
2.43.0


From 3fb74eee4b0b42027ac07f82a16381fd618d523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 15/44] fix: keep the preparsed parameters within their buffer

---
 common/spf_par.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index 14d019f..2c5913f 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -184,6 +184,14 @@ spf_read_preparse_ext(
          continue;
       }
       
+      // A token takes up to three characters more than its length.
+      if (sp_str_len + strlen(token) + 4 > SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Group begins.
       if (token[0] == GROUP_CHAR_BEGIN) {
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
-- 
2.43.0


From 185dae4c41bab95efa4d61cc469e0f0018d67a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 16/44] fix: separate an include file that ends in a comment
 from what follows it

---
 common/spf_par.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 2c5913f..50728df 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -166,9 +166,15 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
+         if (i1 >= SP_STR_MAX - 1) {
+            err_msg("spf_read_preparse(): file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
+         i1 = strcpy_strip_comments(str1, i1, 1, str1);
          str1[i1++] = ' ';
          str1[i1] = 0;
-         i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
             err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
-- 
2.43.0


From 81a79a0d3a279326915fb50d5eb7057b87fdfc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 17/44] fix: report unterminated groups, missing values and too
 many group items

---
 common/spf_par.c    |  8 ++++++--
 common/spf_par.h    | 27 ++++++++++++++++++++-------
 simulators/sim_bg.c | 13 +++++++++++--
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 50728df..f749fe7 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -269,14 +269,18 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
         *x = atoi(tk);
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
+      if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
+        err_msg(erstr);
+        return RC_ERROR;
+      }
     }
     else {
       err_msg(erstr);
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..5061939 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -44,6 +44,7 @@
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -53,6 +54,7 @@
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -62,6 +64,7 @@
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -72,12 +75,16 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
+         if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
+            err_msg(erstr); \
+            return 1; \
+         } \
       } \
       else { \
          err_msg(erstr); \
@@ -93,14 +100,20 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_END)) (tk) = NULL; \
+            if ((tk) == NULL) break; \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
+         if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
+            err_msg(erstr); \
+            return 1; \
+         } \
       } \
       else { \
          err_msg(erstr); \
@@ -114,12 +127,12 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) != NULL) (tk) = strtok(NULL, tk_seps_prepared); \
 }
 
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 78d9be4..912b4b0 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -221,6 +221,7 @@ int sim_init(
 
     if (strcmp(token, res_file_token) == 0) {
       token = strtok(NULL, tk_seps_prepared);
+      if (token == NULL) continue;
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
         return RC_ERROR;
@@ -233,14 +234,22 @@ int sim_init(
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
         token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
+        if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
           token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
+          while ((token != NULL) && (token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            if ((token == NULL) || (token[0] == GROUP_CHAR_END)) {
+              err_msg("sim_bg init error: an item of SNR_val_trn has no number of trials.");
+              return RC_ERROR;
+            }
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
+          if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
+            err_msg("sim_bg init error: too many SNR_val_trn items.");
+            return RC_ERROR;
+          }
         }
         else {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-- 
2.43.0


From d42f1e6e57f25f659d0dcce4c9609fb7a7b834d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 18/44] fix: leave room for the suffix of the busy flag's file
 name

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 912b4b0..263f858 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -556,7 +556,7 @@ sim_save_res(
 ) {
   sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  char bsyfn[FN_LEN_MAX + 4]; // Busy flag file name.
   char *str1; // For old res file parsing.
   int n, rc;
 
-- 
2.43.0


From f11dbec66bf964ccffe3fb6e58dbb4acdbb37ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 19/44] fix: do not overwrite an old results file that cannot
 be read

---
 simulators/sim_bg.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 263f858..fbebc16 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -584,9 +584,20 @@ sim_save_res(
   fclose(fp);
 
   // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) != 0) str1 = NULL;
+  rc = RC_OK;
+  if (spf_tryread_preparse(sim->rf_name, &str1) != 0) {
+    str1 = NULL;
+    // Don't overwrite results that can't be read.
+    if ((fp = fopen(sim->rf_name, "rb")) != NULL) {
+      if (fgetc(fp) != EOF) {
+        err_msg("sim_bg saving error: cannot read old res file.");
+        rc = RC_ERROR;
+      }
+      fclose(fp);
+    }
+  }
 
-  rc = update_res_file(sim, str1);
+  if (rc == RC_OK) rc = update_res_file(sim, str1);
   free(str1);
 
   // Delete busy flag file.
-- 
2.43.0


From 9b46724242a8c3cefccef6f1ba81225e624b8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 20/44] fix: keep operator commands within the SNR points and
 the range of int

---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index fbebc16..4de8a52 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -793,10 +793,11 @@ void sim_control(
 
   sim = (sim_bg_inst *)inst;
   csnrn = sim->csnrn;
+  if (csnrn >= sim->snr_num) return; // Nothing to control.
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      sim->trn_req[csnrn] += MIN(sim->trn_req[csnrn] / 2, MAX_TRIALS_PER_SNR - sim->trn_req[csnrn]);
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From c068b4ffd793f7fb080087365d46f58df87b489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 21/44] fix: release memory when a parameter group of the glp
 codec is malformed

---
 common/spf_par.h         | 13 +++++++++----
 dtrm_glp/dtrm_glp_main.c |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/common/spf_par.h b/common/spf_par.h
index 5061939..0be44b7 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -41,6 +41,11 @@
 
 #define RC_SPF_UNKNOWN (RC_CUSTOM + 1)
 
+// What the group macros below do on errors. Define before including to release resources.
+#ifndef SPF_ERROR_ACTION
+#define SPF_ERROR_ACTION return 1
+#endif
+
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -83,12 +88,12 @@
          } \
          if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
             err_msg(erstr); \
-            return 1; \
+            SPF_ERROR_ACTION; \
          } \
       } \
       else { \
          err_msg(erstr); \
-         return 1; \
+         SPF_ERROR_ACTION; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
@@ -112,12 +117,12 @@
          } \
          if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
             err_msg(erstr); \
-            return 1; \
+            SPF_ERROR_ACTION; \
          } \
       } \
       else { \
          err_msg(erstr); \
-         return 1; \
+         SPF_ERROR_ACTION; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 148e9a0..d902625 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -26,6 +26,7 @@
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
 #include "../interfaces/codec.h"
+#define SPF_ERROR_ACTION goto ret_err
 #include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../common/srm_utils.h"
-- 
2.43.0


From 50122ef8ab2384e166e4be9854aa1a289b15deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 22/44] fix: do not read the value of a key that is the last
 word, nor lose memory on errors and repeated keys

---
 dtrm_glp/dtrm_glp_main.c      | 3 +++
 polar_scl/ca_polar_scl_main.c | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index d902625..cd9ffb7 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -126,6 +126,8 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -139,6 +141,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d010065..4a9733d 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -176,6 +176,8 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -189,6 +191,8 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
+         if (dd->crc != NULL) free(dd->crc);
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -202,6 +206,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) continue;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -343,6 +348,7 @@ ret_err:
    if (str1 != NULL) free(str1);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
+      if (dd->crc != NULL) free(dd->crc);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
-- 
2.43.0


From f4f8e4f512c1e6ab597e5f03025e94f066747077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 23/44] fix: reject malformed permutations in cdc_init

---
 dtrm_glp/dtrm_glp_main.c      | 34 +++++++++++++++++++++++++++-------
 polar_scl/ca_polar_scl_main.c | 34 +++++++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index cd9ffb7..e5b33d6 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -38,6 +38,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max total length of the permutations.
+#define P_INFO_LEN          10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -97,7 +100,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int p_info[P_INFO_LEN], inf_coeff[2048];
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -147,26 +150,43 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
+               if (i1 + c_m > P_INFO_LEN) {
+                  err_msg("cdc_init(): parameters file: too many permutations.");
+                  goto ret_err;
+               }
                for (i = 0; i < c_m; i++) {
-                  p_info[i1++] = atoi(token);
-                  token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
+                  char *end = NULL;
+                  long p = (token == NULL) ? -1 : strtol(token, &end, 10);
+                  if ((end == token) || (p < 0) || (p >= c_m) || (*end != 0)) {
                      err_msg("cdc_init(): parameters file: permutations.");
                      goto ret_err;
                   }
+                  p_info[i1] = (int)p;
+                  for (j = i1 - i; j < i1; j++) {
+                     if (p_info[j] == p_info[i1]) {
+                        err_msg("cdc_init(): parameters file: permutations.");
+                        goto ret_err;
+                     }
+                  }
+                  i1++;
+                  token = strtok(NULL, tk_seps_prepared);
                }
                p_num++;
             }
+            if (token == NULL) {
+               err_msg("cdc_init(): parameters file: permutations.");
+               goto ret_err;
+            }
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 4a9733d..f4a4330 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -40,6 +40,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max total length of the permutations.
+#define P_INFO_LEN          10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -148,7 +151,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int p_info[P_INFO_LEN], inf_coeff[2048];
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -213,26 +216,43 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
+               if (i1 + c_m > P_INFO_LEN) {
+                  err_msg("cdc_init(): parameters file: too many permutations.");
+                  goto ret_err;
+               }
                for (i = 0; i < c_m; i++) {
-                  p_info[i1++] = atoi(token);
-                  token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
+                  char *end = NULL;
+                  long p = (token == NULL) ? -1 : strtol(token, &end, 10);
+                  if ((end == token) || (p < 0) || (p >= c_m) || (*end != 0)) {
                      err_msg("cdc_init(): parameters file: permutations.");
                      goto ret_err;
                   }
+                  p_info[i1] = (int)p;
+                  for (j = i1 - i; j < i1; j++) {
+                     if (p_info[j] == p_info[i1]) {
+                        err_msg("cdc_init(): parameters file: permutations.");
+                        goto ret_err;
+                     }
+                  }
+                  i1++;
+                  token = strtok(NULL, tk_seps_prepared);
                }
                p_num++;
             }
+            if (token == NULL) {
+               err_msg("cdc_init(): parameters file: permutations.");
+               goto ret_err;
+            }
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
-- 
2.43.0


From f58b0bdeab55997e76a77d72455bda7a35753253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 24/44] fix: reject RM_r outside 1..RM_m in cdc_init

---
 dtrm/dtrm0.c             | 4 ++++
 dtrm/dtrm1.c             | 4 ++++
 dtrm_glp/dtrm_glp_main.c | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..d7fd094 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -188,6 +188,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 0) || (c_m < c_r) || (c_m > 30)) {
+      err_msg("cdc_init: wrong RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..d8af19a 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -195,6 +195,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 0) || (c_m < c_r) || (c_m > 30)) {
+      err_msg("cdc_init: wrong RM_m or RM_r.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index e5b33d6..98e7637 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -213,6 +213,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_r < 0) || (c_m < c_r) || (c_m > 30)) {
+      err_msg("cdc_init: wrong RM_m or RM_r.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
-- 
2.43.0


From 99059d74f7dfc00f52ee0176c6797225e752c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 25/44] fix: reject masks that are too short and polar codes
 without information bits in cdc_init

---
 dtrm_glp/dtrm_glp_main.c      |  7 +++++++
 polar_scl/ca_polar_scl_main.c | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 98e7637..5e9db8c 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -232,6 +232,13 @@ cdc_init(
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
+   // Check the number of border nodes, {m \choose r}.
+   i1 = 1;
+   for (i = 1; (i <= c_r) && (i1 <= dd->dc.node_table_len); i++) i1 = (int)((double)i1 * (c_m - c_r + i) / i + 0.5);
+   if (i1 > dd->dc.node_table_len) {
+      err_msg("cdc_init: too short border nodes map.");
+      goto ret_err;
+   }
    if (dd->use_var_list != 0) {
       // The decoder memory buffer must suffice for the largest list.
       for (i = 0; i < dd->dist_t_n; i++)
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index f4a4330..826070d 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -274,10 +274,18 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 0) || (c_m > 30)) {
+      err_msg("cdc_init: wrong c_m.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
+   if (dd->dc.node_table_len < (1 << c_m)) {
+      err_msg("cdc_init: too short info_bits_mask.");
+      goto ret_err;
+   }
    if (dd->dc.peak_lsiz == 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
@@ -287,6 +295,10 @@ cdc_init(
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if (dd->eff_k < 1) {
+      err_msg("cdc_init: Not enough information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
-- 
2.43.0


From 7927bcae9243685403a0302ce8a9aeb1433b25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 26/44] fix: room for permutations of codes longer than 2048

---
 dtrm_glp/dtrm_glp_main.c      | 11 +++++++++--
 polar_scl/ca_polar_scl_main.c |  9 ++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 5e9db8c..d4bf301 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -100,7 +100,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[P_INFO_LEN], inf_coeff[2048];
+   int p_info[P_INFO_LEN], *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -259,7 +259,7 @@ cdc_init(
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
@@ -267,6 +267,11 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -300,6 +305,7 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -322,6 +328,7 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 826070d..e90557a 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -151,7 +151,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[P_INFO_LEN], inf_coeff[2048];
+   int p_info[P_INFO_LEN], *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -323,6 +323,11 @@ cdc_init(
       py = dd->dc.pyarr;
       p1 = p_info;
    }
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
    i1 = 0;
@@ -356,6 +361,7 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -378,6 +384,7 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->crc != NULL) free(dd->crc);
-- 
2.43.0


From 4e3a6be6d86a85d917bf25165278a297e61297a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 27/44] fix: dtrm0 decoding of full-rank parts longer than 1024

---
 dtrm/dtrm0.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index d7fd094..4e20f88 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,19 +92,18 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = YLDEC0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = YLDEC1;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
       return 0;
    }
 
-- 
2.43.0


From 4dbc7775ccc09feca2f1e8c976a88eac0601993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 28/44] fix: dtrm1 decoding of border nodes longer than 4096

---
 dtrm/dtrm1.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index d8af19a..f9e2ac7 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp;
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -85,15 +85,15 @@ tri1_dec(
 
       for (i = 0; i < n; i++) {
          if (y_in[i] > 0) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = 1.0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = -1.0;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec);
 
       return 0;
 
@@ -107,8 +107,11 @@ tri1_dec(
 #else
       if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;
 #endif
+      tmp = (int *)malloc(n * sizeof(int));
+      if (tmp == NULL) return 1;
       mrm_enc_bsc(m, r, x_dec, tmp);
       for (i = 0; i < n; i++) y_dec[i] = (double)(1 - (tmp[i] << 1));
+      free(tmp);
       return 0;
    } // if (r == 1).
 
-- 
2.43.0


From ea2fc84f44631a41736a611e72bf67dc0c49c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 29/44] fix: release everything when sim_init fails

---
 simulators/sim_bg.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 4de8a52..85a8cfe 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -34,6 +34,7 @@
 #include <string.h>
 #include <time.h>
 #include "../common/std_defs.h"
+#define SPF_ERROR_ACTION goto ret_err
 #include "../common/spf_par.h"
 #include "../interfaces/simul.h"
 #include "../interfaces/codec.h"
@@ -191,9 +192,9 @@ int sim_init(
   void **inst // Simulation instance.
 ) {
   char *sp_str; // Simulation parameters string.
-  sim_bg_inst *sim; // Simulator instance.
+  sim_bg_inst *sim = NULL; // Simulator instance.
   // Temporary variables.
-  char *token, *str1;
+  char *token, *str1 = NULL;
 
   // Read and preparse simulation parameters.
   if (spf_read_preparse(sp->spf_name, &sp_str) != RC_OK) return RC_ERROR;
@@ -202,7 +203,7 @@ int sim_init(
   sim = (sim_bg_inst *)malloc(sizeof(sim_bg_inst));
   if (sim == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   memset(sim, 0, sizeof(sim_bg_inst));
 
@@ -210,7 +211,7 @@ int sim_init(
   str1 = (char *)malloc(SP_STR_MAX);
   if (str1 == NULL) {
     err_msg("sim_bg init error: short of memory!");
-    return RC_ERROR;
+    goto ret_err;
   }
   str1[0] = 0;
 
@@ -224,7 +225,7 @@ int sim_init(
       if (token == NULL) continue;
       if (strlen(token) >= FN_LEN_MAX) {
         err_msg("sim_bg init error: output file name is too long.");
-        return RC_ERROR;
+        goto ret_err;
       }
       strcpy(sim->rf_name, token);
       token = strtok(NULL, tk_seps_prepared);
@@ -241,19 +242,19 @@ int sim_init(
             token = strtok(NULL, tk_seps_prepared);
             if ((token == NULL) || (token[0] == GROUP_CHAR_END)) {
               err_msg("sim_bg init error: an item of SNR_val_trn has no number of trials.");
-              return RC_ERROR;
+              goto ret_err;
             }
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
           if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
             err_msg("sim_bg init error: too many SNR_val_trn items.");
-            return RC_ERROR;
+            goto ret_err;
           }
         }
         else {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
-          return RC_ERROR;
+          goto ret_err;
         }
         sim->snr_num = i;
         token = strtok(NULL, tk_seps_prepared);
@@ -277,7 +278,7 @@ int sim_init(
   strcpy(str1, sp_str);
   if (cdc_init(str1, &(sim->dc_inst))) {
     err_msg("sim_bg init error: cannot init codec.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   sim->code_n = cdc_get_n(sim->dc_inst);
@@ -286,7 +287,7 @@ int sim_init(
   // Check if all necessary parameters are specified.
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
   if (sim->min_trn <= 0) {
     sim->min_trn = 1;
@@ -296,7 +297,7 @@ int sim_init(
   }
   if ((sim->code_n == 0) || (sim->code_k == 0)) {
     err_msg("sim_bg init error: code_n or code_k are not specified.");
-    return RC_ERROR;
+    goto ret_err;
   }
 
   // Assign other settings and init counters in the simulation instance.
@@ -317,6 +318,16 @@ int sim_init(
   (*inst) = sim;
 
   return RC_OK;
+
+ret_err:
+
+  free(str1);
+  free(sp_str);
+  if (sim != NULL) {
+    if (sim->dc_inst != NULL) cdc_close(sim->dc_inst);
+    free(sim);
+  }
+  return RC_ERROR;
 }
 
 // Delete simulation instance.
@@ -781,6 +792,10 @@ static int update_res_file(
 
   fclose(fp);
   return RC_OK;
+
+ret_err:
+
+  return RC_ERROR;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From d0a0c672dc0c8bd68e54371bd48138fa84abd9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 30/44] fix: loadsrf rejects malformed groups instead of
 crashing

---
 Octave/loadsrf.c | 49 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..5414824 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -20,9 +20,11 @@
 // Includes.
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include "../interfaces/ui_utils.h"
 #include "../common/std_defs.h"
+#define SPF_ERROR_ACTION { free(str1); return; }
 #include "../common/spf_par.h"
 #include "mex.h"
 
@@ -32,26 +34,6 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MEX_TRYGET_GRDOUBLE_TOKEN(tk, tk_samp, x, n, nmax, erstr) { \
-   if (strcmp((tk), (tk_samp)) == 0) { \
-      int i = 0; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
-         (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
-            (tk) = strtok(NULL, tk_seps_prepared); \
-         } \
-      } \
-      else { \
-         err_msg(erstr); \
-      } \
-      (n) = i; \
-      (tk) = strtok(NULL, tk_seps_prepared); \
-      continue; \
-   } \
-}
-
 //-----------------------------------------------------------------------------
 // Functions.
 
@@ -96,15 +78,28 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   }
   token = strtok(str1, tk_seps_prepared);
   while (token != NULL) {
+    int rc;
     TRYGET_INT_TOKEN(token, code_n_token, c_n)
     TRYGET_INT_TOKEN(token, code_k_token, c_k)
-    MEX_TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
-    if (tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(int), &ml_trn_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
-    if (tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(int), &enml_bl_n, SNR_NUM_MAX, err_reading_msg) == RC_OK) continue;
+    TRYGET_GRDOUBLE_TOKEN(token, SNR_token, snr_db, snr_num, SNR_NUM_MAX, err_reading_msg)
+    rc = tryread_group_int_param(&token, tr_num_token, trn, sizeof(int), &trn_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
+    rc = tryread_group_int_param(&token, en_bit_token, en_bit, sizeof(int), &en_bit_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
+    rc = tryread_group_int_param(&token, en_bl_token, en_bl, sizeof(int), &en_bl_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
+    rc = tryread_group_int_param(&token, er_n_token, er_n, sizeof(int), &er_n_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
+    rc = tryread_group_int_param(&token, ml_tr_num_token, ml_trn, sizeof(int), &ml_trn_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
+    rc = tryread_group_int_param(&token, enml_bl_token, enml_bl, sizeof(int), &enml_bl_n, SNR_NUM_MAX, err_reading_msg);
+    if (rc == RC_OK) continue;
+    if (rc == RC_ERROR) SPF_ERROR_ACTION
     SPF_SKIP_UNKNOWN_PARAMETER(token)
   }
   free(str1);
-- 
2.43.0


From c055f7a99ddc833e5fccc9f1a3b917b6747bd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 31/44] fix: BER of loadsrf for more than 2^31 simulated bits

---
 Octave/loadsrf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 5414824..6562ff2 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -125,7 +125,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
-- 
2.43.0


From 37ea9ff0b3909a93e0b633a5d8cbe375575a8214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 32/44] fix: exit status and trailing options of the simulator
 program

---
 simulators/main_txt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..9fad9a0 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -69,8 +69,8 @@ int main(int argc, char **argv) {
 
    for (i = 2; i < argc; i++) {
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
-      if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-si") == 0) && (i + 1 < argc)) save_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-ri") == 0) && (i + 1 < argc)) sp.ret_int = atoi(argv[++i]);
    }
 
 #ifdef WIN32
@@ -127,9 +127,9 @@ int main(int argc, char **argv) {
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return rc;
 }
\ No newline at end of file
-- 
2.43.0


From a573d2bbe0e2b150b430d4f5e9b8255c3f4c1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 33/44] fix: reject permutations of RM subcodes, which overran
 the decoded vector

---
 dtrm_glp/dtrm_glp_main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index d4bf301..3981447 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -255,6 +255,15 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   if (c_k != calc_rm_k(c_m, c_r)) {
+      // The generation of the permutation arrays below is for RM codes, not for their subcodes.
+      for (i = 0; i < p_num * c_m; i++) {
+         if (p_info[i] != i % c_m) {
+            err_msg("cdc_init: permutations are for complete RM codes only.");
+            goto ret_err;
+         }
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-- 
2.43.0


From 50a2e3e12b84f0983b545e689d3841cc78e544db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 34/44] fix: reject permutations of polar codes with frozen
 bits, which overran the decoded vector

---
 polar_scl/ca_polar_scl_main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index e90557a..46e30ac 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -311,6 +311,15 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   if (c_k != c_n) {
+      // The generation of the permutation arrays below is for codes without frozen bits.
+      for (i = 0; i < p_num * c_m; i++) {
+         if (p_info[i] != i % c_m) {
+            err_msg("cdc_init: permutations are not usable with frozen bits.");
+            goto ret_err;
+         }
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-- 
2.43.0


From d237079be099bd1f305ea25854783886b696f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 35/44] fix: a trial the decoder aborts is not counted and
 leaves no buffers

---
 simulators/sim_bg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 85a8cfe..7d3e464 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -436,6 +436,11 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
+        sim->pt[csnrn].trn--; // The trial has no outcome.
+        free(c_out);
+        free(c_in);
+        free(x_dec);
+        free(x);
         return RC_ERROR;
       }
 
-- 
2.43.0


From 870c6b5bf786eac5ca33764bc00c71a5240eed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 36/44] fix: drop the least likely path when a list of RM
 candidates is cut by one

---
 dtrm_glp/dtrm_glp_inner.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..3e89407 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,8 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
   if (len == 2) {
     if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
     return;
-- 
2.43.0


From c07918b7e124e8a57452c9146b911cba1c1ff7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 37/44] fix: enc_bpsk reports running short of memory as an
 error in every codec

---
 common/srm_utils.c            | 7 ++++---
 polar_scl/ca_polar_scl_main.c | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/srm_utils.c b/common/srm_utils.c
index fac66a3..8b7e40e 100644
--- a/common/srm_utils.c
+++ b/common/srm_utils.c
@@ -26,6 +26,7 @@
 
 #include <stdlib.h>
 #include "srm_utils.h"
+#include "std_defs.h"
 #include "../interfaces/ui_utils.h"
 
 //-----------------------------------------------------------------------------
@@ -127,7 +128,7 @@ int mrm_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("mrm_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    mrm_enc_bsc(m, r, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
@@ -231,7 +232,7 @@ int smrm_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("smrm_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    smrm_enc_bsc(m, r, node_table, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
@@ -322,7 +323,7 @@ int smrm_par0_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("smrm_par0_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    smrm_par0_enc_bsc(m, r, node_table, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 46e30ac..9e48c6e 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -465,6 +465,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -478,9 +479,9 @@ enc_bpsk(
       memset(x_crc, 0, dd->crc_len * sizeof(int));
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return (rc == RC_ERROR) ? RC_ERROR : dd->eff_k;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
-- 
2.43.0


From b9144f5c3e9c141b321b0140ff2efd3987c384ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 38/44] fix: dtrm1 reports running short of memory inside the
 decoding recursion

---
 dtrm/dtrm1.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index f9e2ac7..f012e16 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -126,10 +126,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -137,10 +137,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -314,7 +314,11 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   if (tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf)) {
+      err_msg("dec_bpsk: Short of memory.");
+      free(mem_buf);
+      return -1;
+   }
 
    free(mem_buf);
 
-- 
2.43.0


From ae750933fc4d18dbde4004787b83fc7926742e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 39/44] fix: an unchecked CRC for want of memory is an error,
 not a valid word

---
 polar_scl/ca_polar_scl_main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 9e48c6e..77faf68 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -112,7 +112,7 @@ int get_best_in_list(
     // The work buffer is preceded by crc_len zeros, which the CRC of a message shorter than the CRC starts with.
     int *tmp = (int *)malloc(sum_len * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -2; // short of memory
     }
     memset(tmp, 0, crc_len * sizeof(int));
     for (i = 0; i < lsiz; i++) {
@@ -534,6 +534,11 @@ dec_bpsk(
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
+      if (best_ind == -2) {
+        err_msg("dec_bpsk: Short of memory.");
+        free(mem_buf);
+        return RC_ERROR;
+      }
       if (best_ind < 0) {
         is_erasure = 1;
         best_ind = 0;
-- 
2.43.0


From 3a0e7acb39fcf93934f42ac17e9ab2929dad4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 40/44] fix: a candidate of the variable list that cannot be
 encoded is an error

---
 dtrm_glp/dtrm_glp_main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 3981447..df1b41c 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -462,7 +462,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec) == RC_ERROR) {
+            free(mem_buf);
+            return RC_ERROR;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
-- 
2.43.0


From 5d7fe4362a1e5ccd3a0195a2db118b4142a85a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 41/44] fix: sim_run leaves no buffers when one of them cannot
 be allocated

---
 simulators/sim_bg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 7d3e464..25b2d59 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -395,6 +395,10 @@ int sim_run(
   c_out = (double *)malloc(c_n * sizeof(double));
   if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {
     err_msg("sim_bg run error: short of memory.");
+    CHK_FREE(c_out);
+    CHK_FREE(c_in);
+    CHK_FREE(x_dec);
+    CHK_FREE(x);
     return RC_ERROR;
   }
 
-- 
2.43.0


From 913435f35d9125b0a923c1a38ecca4f494f3d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 42/44] fix: a trial whose encoding fails has no outcome and
 ends the run with an error

---
 simulators/sim_bg.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 25b2d59..467a3ca 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -378,6 +378,7 @@ int sim_run(
   time_t start_time;
   int en = 0;
   int i;
+  sim_point pt0; // Counters before the current trial.
 
   sim = (sim_bg_inst *)inst;
 
@@ -419,12 +420,16 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
+      pt0 = sim->pt[csnrn];
       sim->pt[csnrn].trn++;
 
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in) == RC_ERROR) {
+          err_msg("sim_bg run error: error while encoding.");
+          goto ret_err;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -440,12 +445,7 @@ int sim_run(
       int rc = dec_bpsk(sim->dc_inst, c_out, x_dec);
       if (rc == RC_ERROR) {
         err_msg("sim_bg run error: error while decoding.");
-        sim->pt[csnrn].trn--; // The trial has no outcome.
-        free(c_out);
-        free(c_in);
-        free(x_dec);
-        free(x);
-        return RC_ERROR;
+        goto ret_err;
       }
 
       // Count the number of incorrect information bits.
@@ -471,7 +471,10 @@ int sim_run(
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in) == RC_ERROR) {
+          err_msg("sim_bg run error: error while encoding.");
+          goto ret_err;
+        }
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
@@ -497,6 +500,16 @@ int sim_run(
   free(x);
 
   return RC_OK;
+
+ret_err:
+
+  sim->pt[csnrn] = pt0; // The trial has no outcome.
+  free(c_out);
+  free(c_in);
+  free(x_dec);
+  free(x);
+
+  return RC_ERROR;
 }
 
 // Return short simulation status string.
-- 
2.43.0


From 00058579e8ebc93571adee16b001d7bc354c1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 43/44] fix: strong samples overflowed the conversion in
 rm1_dec_sh and rm1_dec_lst

---
 rm1_ml/rm1_ml.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 0b53c69..7c71460 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -53,10 +53,7 @@ int rm1_dec_sh(
 
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
-   for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
-   }
+   VY_TO_FORMAT(y_in, ylist, c_n);
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
@@ -158,10 +155,7 @@ int rm1_dec_lst(
 
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
-   for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
-   }
+   VY_TO_FORMAT(y_in, ylist, c_n);
 #endif // FORMAT_EPS
 
 #ifdef FORMAT_GAMMA
-- 
2.43.0


From bf105c98959e958245662ce408f3099af3a6e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:19 +0000
Subject: [PATCH 44/44] fix: rm1_dec_lst limits the list size before it fills
 its tables

---
 rm1_ml/rm1_ml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 7c71460..9ee8ef0 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -212,6 +212,9 @@ int rm1_dec_lst(
       n /= 2;
    }
 
+   if (lsiz > c_n) lsiz = c_n;
+   if (lsiz > 4096) lsiz = 4096;
+
    // Last end node (0, 0).
    for (j = 0; j < lsiz; j++) {
       sa[j] = -1e300;
@@ -232,8 +235,6 @@ int rm1_dec_lst(
    }
 
    // "Unpack" ja[] to get information bits.
-   if (lsiz > c_n) lsiz = c_n;
-   if (lsiz > 4096) lsiz = 4096;
    for (j = 0; j < lsiz; j++) {
       for (i = (j + 1) * (c_m + 1) - 1; i >= j * (c_m + 1); i--) {
          x_dec[i] = ja[j] & 1;
-- 
2.43.0

