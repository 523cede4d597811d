From 5936e2c8692ce7c76c1ee341a72997c75d3b4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 01/38] fix: read OI_INSPOL Jones matrix columns as complex

The columns hold complex values but were read as TDOUBLE into arrays of
float complex, so that the values returned were garbage (zero, or part of
the real parts).
---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From c5625b8ef87c1bf0764ef8c514720e5cbaca1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 02/38] fix: allow tables with no rows to be read

Reading a file containing a valid table with zero rows (for instance an
OI_CORR table without correlations, or the OI_TARGET table written after
filtering on a TARGET_ID that is not present) aborted the program because
chkmalloc() rejects zero-size allocations. Represent empty arrays by NULL,
and do not read CATEGORY from the first row if there are no rows.
---
 src/oifitslib/alloc_fits.c | 70 +++++++++++++++++++++-----------------
 src/oifitslib/read_fits.c  |  6 ++--
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/oifitslib/alloc_fits.c b/src/oifitslib/alloc_fits.c
index c826dcd..c2f41bf 100644
--- a/src/oifitslib/alloc_fits.c
+++ b/src/oifitslib/alloc_fits.c
@@ -26,6 +26,12 @@
 #include "exchange.h"
 #include "chkmalloc.h"
 
+/**
+ * Allocate storage for @a n items. A table with no rows (or no channels)
+ * is valid, but chkmalloc() does not permit zero-size allocations.
+ */
+#define ALLOC_N(n, size) ((n) > 0 ? chkmalloc((n) * (size)) : NULL)
+
 /**
  * Allocate storage within oi_array struct
  *
@@ -36,7 +42,7 @@
  */
 void alloc_oi_array(oi_array *pArray, int nelement)
 {
-  pArray->elem = chkmalloc(nelement * sizeof(element));
+  pArray->elem = ALLOC_N(nelement, sizeof(element));
   pArray->nelement = nelement;
 }
 
@@ -50,7 +56,7 @@ void alloc_oi_array(oi_array *pArray, int nelement)
  */
 void alloc_oi_target(oi_target *pTargets, int ntarget)
 {
-  pTargets->targ = chkmalloc(ntarget * sizeof(target));
+  pTargets->targ = ALLOC_N(ntarget, sizeof(target));
   pTargets->ntarget = ntarget;
 }
 
@@ -64,8 +70,8 @@ void alloc_oi_target(oi_target *pTargets, int ntarget)
  */
 void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
 {
-  pWave->eff_wave = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
-  pWave->eff_band = chkmalloc(nwave * sizeof(pWave->eff_band[0]));
+  pWave->eff_wave = ALLOC_N(nwave, sizeof(pWave->eff_band[0]));
+  pWave->eff_band = ALLOC_N(nwave, sizeof(pWave->eff_band[0]));
   pWave->nwave = nwave;
 }
 
@@ -79,9 +85,9 @@ void alloc_oi_wavelength(oi_wavelength *pWave, int nwave)
  */
 void alloc_oi_corr(oi_corr *pCorr, int ncorr)
 {
-  pCorr->iindx = chkmalloc(ncorr * sizeof(pCorr->iindx[0]));
-  pCorr->jindx = chkmalloc(ncorr * sizeof(pCorr->jindx[0]));
-  pCorr->corr = chkmalloc(ncorr * sizeof(pCorr->corr[0]));
+  pCorr->iindx = ALLOC_N(ncorr, sizeof(pCorr->iindx[0]));
+  pCorr->jindx = ALLOC_N(ncorr, sizeof(pCorr->jindx[0]));
+  pCorr->corr = ALLOC_N(ncorr, sizeof(pCorr->corr[0]));
   pCorr->ncorr = ncorr;
 }
 
@@ -99,14 +105,14 @@ void alloc_oi_inspol(oi_inspol *pInspol, long numrec, int nwave)
   int i;
   oi_inspol_record *pRec;
 
-  pInspol->record = chkmalloc(numrec * sizeof(oi_inspol_record));
+  pInspol->record = ALLOC_N(numrec, sizeof(oi_inspol_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pInspol->record[i];
-    pRec->jxx = chkmalloc(nwave * sizeof(pRec->jxx[0]));
-    pRec->jyy = chkmalloc(nwave * sizeof(pRec->jyy[0]));
-    pRec->jxy = chkmalloc(nwave * sizeof(pRec->jxy[0]));
-    pRec->jyx = chkmalloc(nwave * sizeof(pRec->jyx[0]));
+    pRec->jxx = ALLOC_N(nwave, sizeof(pRec->jxx[0]));
+    pRec->jyy = ALLOC_N(nwave, sizeof(pRec->jyy[0]));
+    pRec->jxy = ALLOC_N(nwave, sizeof(pRec->jxy[0]));
+    pRec->jyx = ALLOC_N(nwave, sizeof(pRec->jyx[0]));
   }
   pInspol->numrec = numrec;
   pInspol->nwave = nwave;
@@ -126,15 +132,15 @@ void alloc_oi_vis(oi_vis *pVis, long numrec, int nwave)
   int i;
   oi_vis_record *pRec;
 
-  pVis->record = chkmalloc(numrec * sizeof(oi_vis_record));
+  pVis->record = ALLOC_N(numrec, sizeof(oi_vis_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis->record[i];
-    pRec->visamp = chkmalloc(nwave * sizeof(pRec->visamp[0]));
-    pRec->visamperr = chkmalloc(nwave * sizeof(pRec->visamperr[0]));
-    pRec->visphi = chkmalloc(nwave * sizeof(pRec->visphi[0]));
-    pRec->visphierr = chkmalloc(nwave * sizeof(pRec->visphierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->visamp = ALLOC_N(nwave, sizeof(pRec->visamp[0]));
+    pRec->visamperr = ALLOC_N(nwave, sizeof(pRec->visamperr[0]));
+    pRec->visphi = ALLOC_N(nwave, sizeof(pRec->visphi[0]));
+    pRec->visphierr = ALLOC_N(nwave, sizeof(pRec->visphierr[0]));
+    pRec->flag = ALLOC_N(nwave, sizeof(pRec->flag[0]));
     pRec->visrefmap = NULL;
     pRec->rvis = NULL;
     pRec->rviserr = NULL;
@@ -161,13 +167,13 @@ void alloc_oi_vis2(oi_vis2 *pVis2, long numrec, int nwave)
   int i;
   oi_vis2_record *pRec;
 
-  pVis2->record = chkmalloc(numrec * sizeof(oi_vis2_record));
+  pVis2->record = ALLOC_N(numrec, sizeof(oi_vis2_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pVis2->record[i];
-    pRec->vis2data = chkmalloc(nwave * sizeof(pRec->vis2data[0]));
-    pRec->vis2err = chkmalloc(nwave * sizeof(pRec->vis2err[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->vis2data = ALLOC_N(nwave, sizeof(pRec->vis2data[0]));
+    pRec->vis2err = ALLOC_N(nwave, sizeof(pRec->vis2err[0]));
+    pRec->flag = ALLOC_N(nwave, sizeof(pRec->flag[0]));
   }
   pVis2->numrec = numrec;
   pVis2->nwave = nwave;
@@ -187,15 +193,15 @@ void alloc_oi_t3(oi_t3 *pT3, long numrec, int nwave)
   int i;
   oi_t3_record *pRec;
 
-  pT3->record = chkmalloc(numrec * sizeof(oi_t3_record));
+  pT3->record = ALLOC_N(numrec, sizeof(oi_t3_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pT3->record[i];
-    pRec->t3amp = chkmalloc(nwave * sizeof(pRec->t3amp[0]));
-    pRec->t3amperr = chkmalloc(nwave * sizeof(pRec->t3amperr[0]));
-    pRec->t3phi = chkmalloc(nwave * sizeof(pRec->t3phi[0]));
-    pRec->t3phierr = chkmalloc(nwave * sizeof(pRec->t3phierr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->t3amp = ALLOC_N(nwave, sizeof(pRec->t3amp[0]));
+    pRec->t3amperr = ALLOC_N(nwave, sizeof(pRec->t3amperr[0]));
+    pRec->t3phi = ALLOC_N(nwave, sizeof(pRec->t3phi[0]));
+    pRec->t3phierr = ALLOC_N(nwave, sizeof(pRec->t3phierr[0]));
+    pRec->flag = ALLOC_N(nwave, sizeof(pRec->flag[0]));
   }
   pT3->numrec = numrec;
   pT3->nwave = nwave;
@@ -216,13 +222,13 @@ void alloc_oi_flux(oi_flux *pFlux, long numrec, int nwave)
   int i;
   oi_flux_record *pRec;
 
-  pFlux->record = chkmalloc(numrec * sizeof(oi_flux_record));
+  pFlux->record = ALLOC_N(numrec, sizeof(oi_flux_record));
   for (i = 0; i < numrec; i++)
   {
     pRec = &pFlux->record[i];
-    pRec->fluxdata = chkmalloc(nwave * sizeof(pRec->fluxdata[0]));
-    pRec->fluxerr = chkmalloc(nwave * sizeof(pRec->fluxerr[0]));
-    pRec->flag = chkmalloc(nwave * sizeof(pRec->flag[0]));
+    pRec->fluxdata = ALLOC_N(nwave, sizeof(pRec->fluxdata[0]));
+    pRec->fluxerr = ALLOC_N(nwave, sizeof(pRec->fluxerr[0]));
+    pRec->flag = ALLOC_N(nwave, sizeof(pRec->flag[0]));
   }
   pFlux->numrec = numrec;
   pFlux->nwave = nwave;
diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..782b827 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -800,8 +800,10 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   /* Read optional column */
   if (pTargets->revision >= 2)
   {
-    pTargets->usecategory = read_col_string(
-        fptr, TRUE, "CATEGORY", 3, 1, pTargets->targ[0].category, pStatus);
+    pTargets->usecategory =
+        (pTargets->ntarget > 0 &&
+         read_col_string(fptr, TRUE, "CATEGORY", 3, 1,
+                         pTargets->targ[0].category, pStatus));
     if (pTargets->usecategory)
     {
       for (irow = 2; irow <= pTargets->ntarget; irow++)
-- 
2.43.0


From dbd560dadb1751fbfd786025129267e476318831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 03/38] fix: allow more than 9999 wavelength channels when
 writing

The buffer for the TFORM strings had room for four digits only, so that
the assertion that the string fits failed for NWAVE >= 10000.
---
 src/oifitslib/write_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..389f8b5 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -54,7 +54,7 @@ char **make_tform(const char **template, int n, int value)
   {
     if (template[i][0] == '?')
     {
-      size = strlen(template[i]) + 4; /* allow for extra digits + \0 */
+      size = strlen(template[i]) + 12; /* allow for digits of int + \0 */
       tform[i] = chkmalloc(size);
       needed = snprintf(tform[i], size, "%d%s", value, &template[i][1]);
       assert(needed < size); /* fails if string was truncated */
-- 
2.43.0


From bca60a18aa84e235c487c4365ecfbd3eba1270c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 04/38] fix: copy IVISERR, not RVISERR, in dup_oi_vis()

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From add8edea16f5d0da6b7e4775876bbc2f707f4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 05/38] fix: keep CATEGORY when filtering by TARGET_ID

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..f6f0b48 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,6 +624,7 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
-- 
2.43.0


From 6313dd64ea6b9d514080e261e5e781d7263d80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:35 +0000
Subject: [PATCH 06/38] fix: allow tables with no rows to be copied and
 filtered

---
 src/oifitslib/oifile.h   |  9 +++++++--
 src/oifitslib/oifilter.c | 36 ++++++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/oifitslib/oifile.h b/src/oifitslib/oifile.h
index 547a606..0bf7855 100644
--- a/src/oifitslib/oifile.h
+++ b/src/oifitslib/oifile.h
@@ -58,8 +58,13 @@
 #define MEMDUP(dest, src, size)                                                \
   do                                                                           \
   {                                                                            \
-    (dest) = _chkmalloc(size, __FILE__, __LINE__, __func__);                   \
-    memcpy(dest, src, size);                                                   \
+    if ((size) > 0)                                                            \
+    {                                                                          \
+      (dest) = _chkmalloc(size, __FILE__, __LINE__, __func__);                 \
+      memcpy(dest, src, size);                                                 \
+    }                                                                          \
+    else                                                                       \
+      (dest) = NULL; /* table without rows */                                  \
   } while (0)
 
 /*
diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index f6f0b48..6bc3c0d 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -33,6 +33,9 @@
 /** Internal use GString, defined in oifile.c */
 extern GString *pGStr;
 
+/** Allocate array of @a n items, or give NULL if @a n is zero */
+#define ALLOC_N(n, size) ((n) > 0 ? chkmalloc((n) * (size)) : NULL)
+
 #define RAD2DEG (180.0 / 3.14159)
 
 #define UNSET -9999.9
@@ -704,7 +707,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
     pInWave = (oi_wavelength *)link->data;
     if (ACCEPT_INSNAME(pInWave, pFilter))
     {
-      useWave = chkmalloc(pInWave->nwave * sizeof(useWave[0]));
+      useWave = ALLOC_N(pInWave->nwave, sizeof(useWave[0]));
       pOutWave = chkmalloc(sizeof(oi_wavelength));
       filter_oi_wavelength(pInWave, pFilter->wave_range, pOutWave, useWave);
       if (pOutWave->nwave > 0)
@@ -749,8 +752,8 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   (void)g_strlcpy(pOutWave->insname, pInWave->insname, FLEN_VALUE);
   pOutWave->nwave = 0; /* use as counter */
   /* will reallocate eff_wave and eff_band later */
-  pOutWave->eff_wave = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_wave[0]));
-  pOutWave->eff_band = chkmalloc(pInWave->nwave * sizeof(pInWave->eff_band[0]));
+  pOutWave->eff_wave = ALLOC_N(pInWave->nwave, sizeof(pInWave->eff_wave[0]));
+  pOutWave->eff_band = ALLOC_N(pInWave->nwave, sizeof(pInWave->eff_band[0]));
 
   for (i = 0; i < pInWave->nwave; i++)
   {
@@ -868,8 +871,8 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
 
   /* Filter records */
   nrec = 0; /* counter */
-  pOutTab->record = chkmalloc(pInTab->numrec *
-                              sizeof(oi_inspol_record)); /* will reallocate */
+  pOutTab->record =
+      ALLOC_N(pInTab->numrec, sizeof(oi_inspol_record)); /* will reallocate */
   pOutTab->nwave = pInTab->nwave;                        /* upper limit */
   for (i = 0; i < pInTab->numrec; i++)
   {
@@ -928,7 +931,8 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
     ++nrec;
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_inspol_record));
+  if (pOutTab->record != NULL)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_inspol_record));
 }
 
 /**
@@ -1143,7 +1147,7 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis_record)); /* will reallocate */
+      ALLOC_N(pInTab->numrec, sizeof(oi_vis_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1168,7 +1172,8 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                          pInTab->usecomplex, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
+  if (pOutTab->record != NULL)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
 }
 
 /**
@@ -1334,7 +1339,7 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_vis2_record)); /* will reallocate */
+      ALLOC_N(pInTab->numrec, sizeof(oi_vis2_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1359,7 +1364,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                           &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
+  if (pOutTab->record != NULL)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
 }
 
 /**
@@ -1586,7 +1592,7 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_t3_record)); /* will reallocate */
+      ALLOC_N(pInTab->numrec, sizeof(oi_t3_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1619,7 +1625,8 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                         &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
+  if (pOutTab->record != NULL)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
 }
 
 /**
@@ -1738,7 +1745,7 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
-      chkmalloc(pInTab->numrec * sizeof(oi_flux_record)); /* will reallocate */
+      ALLOC_N(pInTab->numrec, sizeof(oi_flux_record)); /* will reallocate */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -1753,7 +1760,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                           pOutTab->nwave, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
+  if (pOutTab->record != NULL)
+    pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
 }
 
 /**
-- 
2.43.0


From 9b134aa3a18c59582fa302fc3196af132cbb45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 07/38] fix: filter OI_INSPOL records with differing numbers of
 accepted channels

---
 src/oifitslib/oifilter.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 6bc3c0d..e29f573 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -40,6 +40,9 @@ extern GString *pGStr;
 
 #define UNSET -9999.9
 
+/** Value after the last element of boolean array of channels to accept */
+#define USE_WAVE_END 2
+
 /** Filter specified on command-line via g_option_context_parse() */
 static oi_filter_spec parsedFilter;
 /** Values set by g_option_context_parse(), used to set parsedFilter */
@@ -707,7 +710,8 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
     pInWave = (oi_wavelength *)link->data;
     if (ACCEPT_INSNAME(pInWave, pFilter))
     {
-      useWave = ALLOC_N(pInWave->nwave, sizeof(useWave[0]));
+      useWave = chkmalloc((pInWave->nwave + 1) * sizeof(useWave[0]));
+      useWave[pInWave->nwave] = USE_WAVE_END;
       pOutWave = chkmalloc(sizeof(oi_wavelength));
       filter_oi_wavelength(pInWave, pFilter->wave_range, pOutWave, useWave);
       if (pOutWave->nwave > 0)
@@ -873,7 +877,7 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
   nrec = 0; /* counter */
   pOutTab->record =
       ALLOC_N(pInTab->numrec, sizeof(oi_inspol_record)); /* will reallocate */
-  pOutTab->nwave = pInTab->nwave;                        /* upper limit */
+  pOutTab->nwave = 0; /* use as longest of accepted records */
   for (i = 0; i < pInTab->numrec; i++)
   {
     if (pFilter->target_id >= 0 &&
@@ -894,16 +898,17 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
            sizeof(oi_inspol_record));
     if (pFilter->target_id >= 0) pOutTab->record[nrec].target_id = 1;
     pOutTab->record[nrec].jxx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxx[0]));
+        chkmalloc(pInTab->nwave * sizeof(pOutTab->record[0].jxx[0]));
     pOutTab->record[nrec].jyy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyy[0]));
+        chkmalloc(pInTab->nwave * sizeof(pOutTab->record[0].jyy[0]));
     pOutTab->record[nrec].jxy =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jxy[0]));
+        chkmalloc(pInTab->nwave * sizeof(pOutTab->record[0].jxy[0]));
     pOutTab->record[nrec].jyx =
-        chkmalloc(pOutTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
+        chkmalloc(pInTab->nwave * sizeof(pOutTab->record[0].jyx[0]));
     k = 0;
     g_assert(useWave != NULL);
-    for (j = 0; j < pInTab->nwave; j++)
+    /* Table may have more channels than this INSNAME, if already filtered */
+    for (j = 0; j < pInTab->nwave && useWave[j] != USE_WAVE_END; j++)
     {
       if (useWave[j])
       {
@@ -914,19 +919,14 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
         ++k;
       }
     }
-    if (nrec == 0 && k < pOutTab->nwave)
+    if (k > pOutTab->nwave) pOutTab->nwave = k;
+    /* Records with fewer channels (as INSNAME differs) end in NaNs */
+    for (; k < pInTab->nwave; k++)
     {
-      /* For 1st output record, length of vectors wasn't known when
-         originally allocated, so reallocate */
-      pOutTab->nwave = k;
-      pOutTab->record[nrec].jxx = realloc(
-          pOutTab->record[nrec].jxx, k * sizeof(pOutTab->record[0].jxx[0]));
-      pOutTab->record[nrec].jyy = realloc(
-          pOutTab->record[nrec].jyy, k * sizeof(pOutTab->record[0].jyy[0]));
-      pOutTab->record[nrec].jxy = realloc(
-          pOutTab->record[nrec].jxy, k * sizeof(pOutTab->record[0].jxy[0]));
-      pOutTab->record[nrec].jyx = realloc(
-          pOutTab->record[nrec].jyx, k * sizeof(pOutTab->record[0].jyx[0]));
+      pOutTab->record[nrec].jxx[k] = NAN;
+      pOutTab->record[nrec].jyy[k] = NAN;
+      pOutTab->record[nrec].jxy[k] = NAN;
+      pOutTab->record[nrec].jyx[k] = NAN;
     }
     ++nrec;
   }
-- 
2.43.0


From 44311a690d79820409408ed6b9113a82bc936f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 08/38] fix: iterate past tables that are empty or lack an
 OI_WAVELENGTH

---
 src/oifitslib/oiiter.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 5c975fe..cb79e71 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -225,13 +225,17 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
   ((pFilter)->corrname_pttn == NULL ||                                         \
    g_pattern_match_string((pFilter)->corrname_pttn, (pTable)->corrname))
 
+/** Does table have rows and channels, with known wavelengths? */
+#define HAS_DATA(pTable, pIter)                                                \
+  ((pTable)->numrec > 0 && (pTable)->nwave > 0 && (pIter)->pWave != NULL)
+
 /**
  * Does current OI_VIS table pass filter?
  */
 static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 {
   oi_vis *pTable = (oi_vis *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter) && ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -242,7 +246,7 @@ static bool oi_vis_iter_accept_table(oi_vis_iter *pIter)
 static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 {
   oi_vis2 *pTable = (oi_vis2 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter) && ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
@@ -253,7 +257,7 @@ static bool oi_vis2_iter_accept_table(oi_vis2_iter *pIter)
 static bool oi_t3_iter_accept_table(oi_t3_iter *pIter)
 {
   oi_t3 *pTable = (oi_t3 *)pIter->link->data;
-  return (ACCEPT_ARRNAME(pTable, &pIter->filter) &&
+  return (HAS_DATA(pTable, pIter) && ACCEPT_ARRNAME(pTable, &pIter->filter) &&
           ACCEPT_INSNAME(pTable, &pIter->filter) &&
           ACCEPT_CORRNAME(pTable, &pIter->filter));
 }
-- 
2.43.0


From 81397ae73f594f87783d3cd79db33b14909995f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 09/38] fix: merge any number of targets

---
 src/oifitslib/oimerge.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..63002f8 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,16 +229,19 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
+
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
+  alloc_oi_target(pOutTab, maxTarget); /* upper limit */
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -252,7 +255,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
@@ -261,7 +263,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
+  if (pOutTab->ntarget > 0)
+    pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From 14ddce0bc5a68f31e016edd73d01f618faf10426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 10/38] fix: keep CATEGORY of merged targets

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 63002f8..10c4745 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -240,6 +240,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
+  pOutTab->usecategory = FALSE;
   alloc_oi_target(pOutTab, maxTarget); /* upper limit */
   pOutTab->ntarget = 0;
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
@@ -249,6 +250,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     pInTab = &((oi_fits *)link->data)->targets;
     if (pInTab->revision > pOutTab->revision)
       pOutTab->revision = pInTab->revision;
+    if (pInTab->usecategory) pOutTab->usecategory = TRUE;
     for (i = 0; i < pInTab->ntarget; i++)
     {
       if (!g_hash_table_lookup(targetIdHash, pInTab->targ[i].target))
@@ -259,6 +261,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (!pInTab->usecategory)
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 1df423ef0ec4bdfd142f49aed2040a9dd84830a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 11/38] fix: make sure that tables renamed by merge get unused
 names

---
 src/oifitslib/oimerge.c | 49 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 10c4745..be0033c 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -313,12 +313,16 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         upgrade_oi_array(pOutTab);
         if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+          int num = pOutput->numArray + 1;
+          do
+          {
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname, num);
+            else
+              g_snprintf(newName, FLEN_VALUE, "array%03d", num);
+            ++num;
+          } while (g_hash_table_lookup(pOutput->arrayHash, newName) != NULL);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -375,13 +379,16 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
             NULL)
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+          int num = pOutput->numWavelength + 1;
+          do
+          {
+            /* Avoid truncation at FLEN_VALUE - 1 */
+            if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
+              g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname, num);
+            else
+              g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
+            ++num;
+          } while (g_hash_table_lookup(pOutput->wavelengthHash, newName) != NULL);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -435,12 +442,16 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
       pOutTab = dup_oi_corr(pInTab);
       if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+        int num = pOutput->numCorr + 1;
+        do
+        {
+          /* Avoid truncation at FLEN_VALUE - 1 */
+          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname, num);
+          else
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
+          ++num;
+        } while (g_hash_table_lookup(pOutput->corrHash, newName) != NULL);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From 8df67bef57a784c007cf1ccff4c35a56738c251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 12/38] fix: hash tables read from file even if no
 OI_VIS/VIS2/T3 refers to them

---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..e31d6c0 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -732,6 +732,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
     ++pOi->numArray;
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
   }
   free(pArray);
   if (*pStatus != END_OF_FILE) goto except;
@@ -749,6 +751,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
     ++pOi->numWavelength;
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
   }
   free(pWave);
   if (*pStatus != END_OF_FILE) goto except;
@@ -778,6 +782,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
     ++pOi->numCorr;
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
   }
 
   /* Read all OI_INSPOL tables, skipping over failed tables */
-- 
2.43.0


From 8254a813ef2584d77d25040d76c2d58cdfa8f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 13/38] fix: skip image and ASCII table HDUs when looking for a
 named table

---
 src/oifitslib/read_fits.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 782b827..1bd3c2e 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -338,20 +338,18 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   {
     fits_movabs_hdu(fptr, ihdu, &hdutype, pStatus);
     if (*pStatus) return *pStatus;
-    if (hdutype == BINARY_TBL)
+    if (hdutype != BINARY_TBL) continue; /* next HDU */
+    fits_write_errmark();
+    fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
+    fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
+    if (*pStatus)
     {
-      fits_write_errmark();
-      fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
-      fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
-      if (*pStatus)
-      {
-        *pStatus = 0;
-        fits_clear_errmark();
-        continue; /* next HDU */
-      }
-      if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
-        continue; /* next HDU */
+      *pStatus = 0;
+      fits_clear_errmark();
+      continue; /* next HDU */
     }
+    if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
+      continue; /* next HDU */
     break; /* current HDU matches */
   }
   if (ihdu > nhdu)
-- 
2.43.0


From 43d68c8499d004b95d3c2a7578a2ed7f4db0e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 14/38] fix: merge files with DATE-OBS outside the 20th and
 21st centuries

---
 src/oifitslib/oimerge.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index be0033c..142a63d 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -147,6 +147,7 @@ static long files_min_mjd(const GList *list)
   {
     pHeader = &((oi_fits *)link->data)->header;
     if (sscanf(pHeader->date_obs, "%4ld-%2ld-%2ld", &year, &month, &day) == 3 &&
+        year >= 1901 && year <= 2099 && /* limits of date2mjd() */
         (mjd = date2mjd(year, month, day)) < minMjd)
       minMjd = mjd;
 
-- 
2.43.0


From 571bc3afa6de596e4d29f46bf51bc912235e8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 15/38] fix: require all arguments of oifits-upgrade

---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From 0c09b0c7d9372154fc99b78bf3e91cd3a88164c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:00 +0000
Subject: [PATCH 16/38] fix: merge records that refer to a missing target

---
 src/oifitslib/oimerge.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 142a63d..0c9f1b0 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -501,13 +501,16 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   do                                                                           \
   {                                                                            \
     int ii;                                                                    \
+    target *pTarg;                                                             \
     for (ii = 0; ii < (pTab)->numrec; ii++)                                    \
     {                                                                          \
+      pTarg = oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id);      \
       /* hash table is indexed by target name */                               \
-      (pTab)->record[ii].target_id = *((int *)g_hash_table_lookup(             \
-          targetIdHash,                                                        \
-          oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id)           \
-              ->target));                                                      \
+      if (pTarg != NULL)                                                       \
+        (pTab)->record[ii].target_id =                                         \
+            *((int *)g_hash_table_lookup(targetIdHash, pTarg->target));        \
+      else                                                                     \
+        (pTab)->record[ii].target_id = 0; /* not in any OI_TARGET */           \
     }                                                                          \
   } while (0)
 
-- 
2.43.0


From 714df3778fc15414732cc91fac0df489e5fc96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 17/38] fix: report missing tables and invalid revisions in the
 same dataset

---
 src/oifitslib/oicheck.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..a2508af 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -123,6 +123,9 @@ void print_check_result(oi_check_result *pResult)
   printf("%s", format_check_result(pResult));
 }
 
+/** Description of all problems found by check_tables() */
+#define TABLES_DESC "Mandatory table missing or invalid OI_REVN"
+
 #define CHECK_BAD_TAB_REVISION(tabList, tabType, tabName, rev)                 \
   do                                                                           \
   {                                                                            \
@@ -137,8 +140,7 @@ void print_check_result(oi_check_result *pResult)
       {                                                                        \
         g_snprintf(location, FLEN_VALUE, "%s #%d", tabName,                    \
                    g_list_position((tabList), link) + 1);                      \
-        set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN",           \
-                   location);                                                  \
+        set_result(pResult, OI_BREACH_NOT_OIFITS, TABLES_DESC, location);      \
       }                                                                        \
       link = link->next;                                                       \
     }                                                                          \
@@ -154,7 +156,7 @@ void print_check_result(oi_check_result *pResult)
  */
 oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 {
-  const char desc1[] = "Mandatory table missing";
+  const char desc1[] = TABLES_DESC;
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -185,7 +187,7 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 
     if (pOi->targets.revision != OI_REVN_V2_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, TABLES_DESC, "OI_TARGET");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V2_ARRAY);
@@ -219,7 +221,7 @@ oi_breach_level check_tables(const oi_fits *pOi, oi_check_result *pResult)
 
     if (pOi->targets.revision != OI_REVN_V1_TARGET)
     {
-      set_result(pResult, OI_BREACH_NOT_OIFITS, "Invalid OI_REVN", "OI_TARGET");
+      set_result(pResult, OI_BREACH_NOT_OIFITS, TABLES_DESC, "OI_TARGET");
     }
     CHECK_BAD_TAB_REVISION(pOi->arrayList, oi_array, "OI_ARRAY",
                            OI_REVN_V1_ARRAY);
-- 
2.43.0


From d6093e4c2708a329d32c24337e2326717690afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 18/38] fix: check elements when some OI_INSPOL tables lack
 ARRNAME

---
 src/oifitslib/oicheck.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index a2508af..d898c12 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -717,7 +717,6 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
   oi_t3 *pT3;
   oi_flux *pFlux;
   const char desc[] = "Reference to missing array element";
-  const char desc2[] = "ARRNAME missing"; //:BUG:
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
@@ -743,8 +742,8 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
-      set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
+                 g_list_position(pOi->inspolList, link) + 1);
+      set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
     }
     link = link->next;
   }
-- 
2.43.0


From 2516f03d28adf24453bb7ca9137fefb12b59dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 19/38] fix: report which OI_INSPOL table lacks ARRNAME

---
 src/oifitslib/oicheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index d898c12..be87b75 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -629,7 +629,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
-- 
2.43.0


From b510f820e871362ffc8d3dffe488bc3678a40932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 20/38] fix: check that targets referenced by OI_INSPOL are
 present

---
 src/oifitslib/oicheck.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index be87b75..72de421 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -519,11 +519,29 @@ oi_breach_level check_targets_present(const oi_fits *pOi,
   oi_vis2 *pVis2;
   oi_t3 *pT3;
   oi_flux *pFlux;
+  oi_inspol *pInspol;
   const char desc[] = "Reference to missing target record";
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
 
+  /* Check OI_INSPOL tables */
+  link = pOi->inspolList;
+  while (link != NULL)
+  {
+    pInspol = link->data;
+    for (i = 0; i < pInspol->numrec; i++)
+    {
+      if (oi_fits_lookup_target(pOi, pInspol->record[i].target_id) == NULL)
+      {
+        g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d record %d",
+                   g_list_position(pOi->inspolList, link) + 1, i + 1);
+        set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
+      }
+    }
+    link = link->next;
+  }
+
   /* Check OI_VIS tables */
   link = pOi->visList;
   while (link != NULL)
-- 
2.43.0


From 754950c2b91418b591fab8ad3e90f7220f493463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 21/38] fix: check OI_FLUX tables with no rows

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 72de421..b536766 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -1233,7 +1233,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1, pFlux->arrname);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index != -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index != -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Calibrated but STA_INDEX present",
@@ -1250,7 +1250,7 @@ oi_breach_level check_flux(const oi_fits *pOi, oi_check_result *pResult)
                    g_list_position(pOi->fluxList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
-      if (pFlux->record[0].sta_index == -1)
+      if (pFlux->numrec > 0 && pFlux->record[0].sta_index == -1)
       {
         g_snprintf(location, FLEN_VALUE,
                    "OI_FLUX #%d Uncalibrated but STA_INDEX missing",
-- 
2.43.0


From 921463826135a246ef1c6030cf4a8c52b9fbc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 22/38] fix: do not use results of a failed checksum
 verification

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 1bd3c2e..f6a8657 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -241,6 +241,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
   fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+  if (*pStatus) return *pStatus;
   if (dataok == -1 || hduok == -1)
   {
     fits_get_hdu_num(fptr, &hdunum);
-- 
2.43.0


From 6e2bd15bcf33a67c42f4d0f6767925b4e2bcdafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 23/38] fix: reject OI_VIS tables that lack correlation index
 columns

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index f6a8657..c440f39 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1145,6 +1145,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus; /* don't mistake for missing VISREFMAP */
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
-- 
2.43.0


From ae96736e5beab3c5d36604c8a99f99b9ea72f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 24/38] fix: reject OI_FLUX tables that lack mandatory columns

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index c440f39..5a41df8 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1609,6 +1609,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_get_colnum(fptr, CASEINSEN, "FLAG", &colnum, pStatus);
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
+    if (*pStatus) goto except; /* don't mistake for missing STA_INDEX */
     /* read optional columns */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
-- 
2.43.0


From d3a15a9a575106f271abd6eac9faedde70437b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 25/38] fix: do not take a truncated table for the end of the
 file

---
 src/oifitslib/read_fits.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 5a41df8..9697c0d 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -265,6 +265,17 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   return *pStatus;
 }
 
+/**
+ * Turn END_OF_FILE status into READ_ERROR.
+ *
+ * To be called once a table has been found: callers of the read_next_oi_*()
+ * functions take END_OF_FILE to mean that there are no more tables.
+ */
+static void eof_is_error(STATUS *pStatus)
+{
+  if (*pStatus == END_OF_FILE) *pStatus = READ_ERROR;
+}
+
 /**
  * Move to next binary table HDU with specified EXTNAME.
  *
@@ -875,6 +886,7 @@ STATUS read_next_oi_array(fitsfile *fptr, oi_array *pArray, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_array_chdu(fptr, pArray, NULL, pStatus);
+  eof_is_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -935,6 +947,7 @@ STATUS read_next_oi_wavelength(fitsfile *fptr, oi_wavelength *pWave,
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_wavelength_chdu(fptr, pWave, NULL, pStatus);
+  eof_is_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -994,6 +1007,7 @@ STATUS read_next_oi_corr(fitsfile *fptr, oi_corr *pCorr, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_corr_chdu(fptr, pCorr, NULL, pStatus);
+  eof_is_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -1023,6 +1037,7 @@ STATUS read_next_oi_inspol(fitsfile *fptr, oi_inspol *pInspol, STATUS *pStatus)
   if (*pStatus == END_OF_FILE) return *pStatus; /* don't report EOF to stderr */
   verify_chksum(fptr, pStatus);
   read_oi_inspol_chdu(fptr, pInspol, pStatus);
+  eof_is_error(pStatus);
 
   if (*pStatus && !oi_hush_errors)
   {
@@ -1269,6 +1284,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   read_oi_vis_opt(fptr, pVis, pStatus);
 
 except:
+  eof_is_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1383,6 +1399,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   }
 
 except:
+  eof_is_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "FITSIO error in %s:\n", function);
@@ -1513,6 +1530,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   }
 
 except:
+  eof_is_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1634,6 +1652,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   }
 
 except:
+  eof_is_error(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 926fed9230030fa9442d1fddc5c364ae083d3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:07 +0000
Subject: [PATCH 26/38] fix: check that the file holds the HDU before
 allocating storage for it

---
 src/oifitslib/read_fits.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 9697c0d..f338bc6 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -223,6 +223,37 @@ static bool read_col_string_truncate(fitsfile *fptr, bool optional,
   }
 }
 
+/**
+ * Check that the file is long enough to hold the data in the current HDU.
+ *
+ * To be used before calculating checksums or allocating storage, as either
+ * could exhaust resources if a keyword giving the size has been corrupted.
+ */
+static STATUS check_hdu_size(fitsfile *fptr, STATUS *pStatus)
+{
+  int hdutype;
+  LONGLONG datastart, dataend, space, width, nrows;
+
+  if (*pStatus) return *pStatus; /* error flag set - do nothing */
+
+  fits_get_hduaddrll(fptr, NULL, &datastart, &dataend, pStatus);
+  fits_get_hdu_type(fptr, &hdutype, pStatus);
+  if (*pStatus) return *pStatus;
+  /* dataend includes padding to a whole number of 2880-byte blocks */
+  space = fptr->Fptr->filesize - datastart;
+  if (dataend < datastart || dataend - datastart >= space + 2880)
+    *pStatus = READ_ERROR;
+  if (hdutype == BINARY_TBL)
+  {
+    fits_read_key(fptr, TLONGLONG, "NAXIS1", &width, NULL, pStatus);
+    fits_get_num_rowsll(fptr, &nrows, pStatus);
+    if (*pStatus) return *pStatus;
+    if (nrows > 0 && (width < 1 || nrows > space / width))
+      *pStatus = READ_ERROR;
+  }
+  return *pStatus;
+}
+
 /**
  * Verify current HDU against CHECKSUM and DATASUM keywords.
  *
@@ -240,6 +271,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
+  check_hdu_size(fptr, pStatus);
   fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
   if (*pStatus) return *pStatus;
   if (dataok == -1 || hduok == -1)
-- 
2.43.0


From 0a3ac740ebff7134a0e4f349ff27a742bac997c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:07 +0000
Subject: [PATCH 27/38] fix: read OI_VIS tables with optional columns but no
 channels

---
 src/oifitslib/read_fits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index f338bc6..5390028 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1114,7 +1114,7 @@ static STATUS read_oi_vis_complex(fitsfile *fptr, oi_vis *pVis, bool correlated,
     snprintf(keyword, FLEN_KEYWORD, "TUNIT%d", colnum);
     fits_read_key(fptr, TSTRING, keyword, pVis->complexunit, NULL, pStatus);
 
-    for (irow = 1; irow <= pVis->numrec; irow++)
+    for (irow = 1; irow <= pVis->numrec && pVis->nwave > 0; irow++)
     {
       pVis->record[irow - 1].rvis =
           chkmalloc(pVis->nwave * sizeof(pVis->record[0].rvis[0]));
@@ -1208,7 +1208,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   else
   {
     pVis->usevisrefmap = TRUE;
-    for (irow = 1; irow <= pVis->numrec; irow++)
+    for (irow = 1; irow <= pVis->numrec && pVis->nwave > 0; irow++)
     {
       pVis->record[irow - 1].visrefmap = chkmalloc(
           pVis->nwave * pVis->nwave * sizeof(pVis->record[0].visrefmap[0]));
-- 
2.43.0


From d2316cf2b588b5a02faeaae74e86813fb6d31794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:53 +0000
Subject: [PATCH 28/38] fix: give up reading when the next HDU cannot be
 accessed

---
 src/oifitslib/oifile.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index e31d6c0..3f2385b 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -671,6 +671,22 @@ except:
   return *pStatus;
 }
 
+/**
+ * Has file moved to another HDU since the last call?
+ *
+ * If not, the next HDU cannot be accessed and there is no point in
+ * trying to skip over a bad table.
+ */
+static BOOL has_advanced(fitsfile *fptr, int *pLastHdu)
+{
+  int hdunum;
+
+  fits_get_hdu_num(fptr, &hdunum);
+  if (hdunum == *pLastHdu) return FALSE;
+  *pLastHdu = hdunum;
+  return TRUE;
+}
+
 /**
  * Read all OIFITS tables from FITS file
  *
@@ -686,7 +702,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   const char function[] = "read_oi_fits";
   char desc[FLEN_STATUS];
   fitsfile *fptr = NULL;
-  int hdutype;
+  int hdutype, lastHdu;
   oi_array *pArray;
   oi_wavelength *pWave;
   oi_corr *pCorr;
@@ -762,6 +778,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_CORR tables, skipping over failed tables */
   pOi->numCorr = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pCorr = chkmalloc(sizeof(oi_corr));
@@ -775,6 +792,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_CORR */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_CORR (%s)\n", desc);
       *pStatus = 0;
@@ -789,6 +807,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_INSPOL tables, skipping over failed tables */
   pOi->numInspol = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pInspol = chkmalloc(sizeof(oi_inspol));
@@ -802,6 +821,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_INSPOL */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_INSPOL (%s)\n", desc);
       *pStatus = 0;
@@ -815,6 +835,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
    * corr tables, skipping over failed tables */
   pOi->numVis = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pVis = chkmalloc(sizeof(oi_vis));
@@ -828,6 +849,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_VIS (%s)\n", desc);
       *pStatus = 0;
@@ -856,6 +878,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
    * and corr tables, skipping over failed tables */
   pOi->numVis2 = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pVis2 = chkmalloc(sizeof(oi_vis2));
@@ -869,6 +892,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS2 */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_VIS2 (%s)\n", desc);
       *pStatus = 0;
@@ -897,6 +921,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
    * corr tables, skipping over failed tables */
   pOi->numT3 = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pT3 = chkmalloc(sizeof(oi_t3));
@@ -910,6 +935,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_T3 */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_T3 (%s)\n", desc);
       *pStatus = 0;
@@ -938,6 +964,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
    * tables, skipping over failed tables */
   pOi->numFlux = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  lastHdu = 0;
   while (TRUE)
   {
     pFlux = chkmalloc(sizeof(oi_flux));
@@ -951,6 +978,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_FLUX */
       }
+      if (!has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_FLUX (%s)\n", desc);
       *pStatus = 0;
-- 
2.43.0


From a2fcea59fe75ac73cc53e8a1cf914b4968c1392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 29/38] fix: fail on a read error instead of skipping to other
 tables

---
 src/oifitslib/oifile.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 3f2385b..31a7a61 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -792,7 +792,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_CORR */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_CORR (%s)\n", desc);
       *pStatus = 0;
@@ -821,7 +821,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_INSPOL */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_INSPOL (%s)\n", desc);
       *pStatus = 0;
@@ -849,7 +849,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_VIS (%s)\n", desc);
       *pStatus = 0;
@@ -892,7 +892,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS2 */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_VIS2 (%s)\n", desc);
       *pStatus = 0;
@@ -935,7 +935,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_T3 */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_T3 (%s)\n", desc);
       *pStatus = 0;
@@ -978,7 +978,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_FLUX */
       }
-      if (!has_advanced(fptr, &lastHdu)) goto except;
+      if (*pStatus == READ_ERROR || !has_advanced(fptr, &lastHdu)) goto except;
       fits_get_errstatus(*pStatus, desc);
       fprintf(stderr, "\nSkipping bad OI_FLUX (%s)\n", desc);
       *pStatus = 0;
-- 
2.43.0


From c84d891cdb4748192d0cbdd7bb0e7a43430712ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:20 +0000
Subject: [PATCH 30/38] fix: report failure to write the last part of a file

---
 src/oifitslib/oifile.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 31a7a61..26491ff 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -32,6 +32,7 @@
 #include <math.h>
 
 #include <fitsio.h>
+#include <glib/gstdio.h> /* g_stat() */
 
 /** GLib expanding string buffer, for use within OIFITSlib. */
 GString *pGStr = NULL;
@@ -615,6 +616,28 @@ void set_oi_header(oi_fits *pOi)
   g_strlcpy(pOi->header.insmode, "UNKNOWN", FLEN_VALUE);
 }
 
+/**
+ * Close file that has been written, checking that nothing is missing.
+ *
+ * CFITSIO ignores failures to flush the last buffer to disk.
+ */
+static STATUS close_written_file(fitsfile *fptr, STATUS *pStatus)
+{
+  char urltype[FLEN_FILENAME] = "", name[FLEN_FILENAME];
+  LONGLONG end = 0;
+  GStatBuf buf;
+
+  fits_url_type(fptr, urltype, pStatus);
+  fits_file_name(fptr, name, pStatus);
+  fits_get_hduaddrll(fptr, NULL, NULL, &end, pStatus);
+  fits_close_file(fptr, pStatus);
+  if (*pStatus) return *pStatus;
+  if (strcmp(urltype, "file://") == 0 &&
+      (g_stat(name, &buf) || buf.st_size < end))
+    *pStatus = WRITE_ERROR;
+  return *pStatus;
+}
+
 /**
  * Write OIFITS tables to new FITS file
  *
@@ -662,7 +685,7 @@ STATUS write_oi_fits(const char *filename, oi_fits oi, STATUS *pStatus)
   WRITE_OI_LIST(fptr, oi.fluxList, oi_flux, write_oi_flux, pStatus);
 
 except:
-  if (fptr) fits_close_file(fptr, pStatus);
+  if (fptr) close_written_file(fptr, pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 11301399c969f27718338f1f8bd9a89fd927bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 31/38] fix: keep names made by merge short enough for a
 keyword

---
 src/oifitslib/oimerge.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 0c9f1b0..2373faa 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -317,8 +317,8 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
           int num = pOutput->numArray + 1;
           do
           {
-            /* Avoid truncation at FLEN_VALUE - 1 */
-            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
+            /* Keyword values are limited to 68 characters */
+            if (strlen(pOutTab->arrname) < (FLEN_VALUE - 6))
               g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname, num);
             else
               g_snprintf(newName, FLEN_VALUE, "array%03d", num);
@@ -383,8 +383,8 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
           int num = pOutput->numWavelength + 1;
           do
           {
-            /* Avoid truncation at FLEN_VALUE - 1 */
-            if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
+            /* Keyword values are limited to 68 characters */
+            if (strlen(pOutTab->insname) < (FLEN_VALUE - 6))
               g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname, num);
             else
               g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
@@ -446,8 +446,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
         int num = pOutput->numCorr + 1;
         do
         {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
+          /* Keyword values are limited to 68 characters */
+          if (strlen(pOutTab->corrname) < (FLEN_VALUE - 6))
             g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname, num);
           else
             g_snprintf(newName, FLEN_VALUE, "ins%03d", num);
-- 
2.43.0


From a6bc532fc52f206e336b79adf4f04433bfcb5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 32/38] fix: filter tables whose channels differ in number from
 their OI_WAVELENGTH

A data table with more channels than its OI_WAVELENGTH made the filter read
beyond the array of accepted channels, and a table with none of its own
channels accepted made it abort on a request for zero bytes.
---
 src/oifitslib/oifilter.c | 62 +++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index e29f573..c27858f 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -782,6 +782,31 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   }
 }
 
+/**
+ * Count channels of a data table that are accepted
+ *
+ * @param useWave  boolean array giving wavelength channels to accept
+ * @param pWave    pointer to oi_wavelength referenced by table, or NULL
+ * @param nwave    number of channels in data table
+ *
+ * @return Number of channels accepted. None are accepted if the table
+ *         has more channels than its OI_WAVELENGTH
+ */
+static int count_use_wave(const char *useWave, const oi_wavelength *pWave,
+                          int nwave)
+{
+  int j, n;
+
+  if (pWave != NULL && nwave > pWave->nwave) return 0;
+  n = 0;
+  for (j = 0; j < nwave; j++)
+  {
+    if (useWave[j] == USE_WAVE_END) return 0;
+    if (useWave[j]) ++n;
+  }
+  return n;
+}
+
 /**
  * Filter OI_CORR tables
  *
@@ -892,6 +917,11 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
       continue; /* skip record as MJD ranges don't overlap */
     useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
     if (useWave == NULL) continue; /* skip record as INSNAME filtered out */
+    /* Table may have fewer channels than this INSNAME */
+    for (j = 0; j < pInTab->nwave && useWave[j] == FALSE; j++)
+      ;
+    if (j == pInTab->nwave || useWave[j] == USE_WAVE_END)
+      continue; /* skip record as none of its channels accepted */
 
     /* Create output record */
     memcpy(&pOutTab->record[nrec], &pInTab->record[i],
@@ -1135,20 +1165,18 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                    const oi_wavelength *pWave, const char *useWave,
                    oi_vis *pOutTab)
 {
-  int i, j, nrec;
+  int i, nrec;
   double u1, v1, bas;
 
   /* Copy table header items */
   memcpy(pOutTab, pInTab, sizeof(oi_vis));
-  pOutTab->nwave = 0;
-  for (j = 0; j < pInTab->nwave; j++)
-    if (useWave[j]) ++pOutTab->nwave;
+  pOutTab->nwave = count_use_wave(useWave, pWave, pInTab->nwave);
 
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
       ALLOC_N(pInTab->numrec, sizeof(oi_vis_record)); /* will reallocate */
-  for (i = 0; i < pInTab->numrec; i++)
+  for (i = 0; i < pInTab->numrec && pOutTab->nwave > 0; i++)
   {
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
@@ -1327,20 +1355,18 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                     const oi_wavelength *pWave, const char *useWave,
                     oi_vis2 *pOutTab)
 {
-  int i, j, nrec;
+  int i, nrec;
   double bas, u1, v1;
 
   /* Copy table header items */
   memcpy(pOutTab, pInTab, sizeof(oi_vis2));
-  pOutTab->nwave = 0;
-  for (j = 0; j < pInTab->nwave; j++)
-    if (useWave[j]) ++pOutTab->nwave;
+  pOutTab->nwave = count_use_wave(useWave, pWave, pInTab->nwave);
 
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
       ALLOC_N(pInTab->numrec, sizeof(oi_vis2_record)); /* will reallocate */
-  for (i = 0; i < pInTab->numrec; i++)
+  for (i = 0; i < pInTab->numrec && pOutTab->nwave > 0; i++)
   {
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
@@ -1580,20 +1606,18 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                   const oi_wavelength *pWave, const char *useWave,
                   oi_t3 *pOutTab)
 {
-  int i, j, nrec;
+  int i, nrec;
   double u1, v1, u2, v2, bas;
 
   /* Copy table header items */
   memcpy(pOutTab, pInTab, sizeof(oi_t3));
-  pOutTab->nwave = 0;
-  for (j = 0; j < pInTab->nwave; j++)
-    if (useWave[j]) ++pOutTab->nwave;
+  pOutTab->nwave = count_use_wave(useWave, pWave, pInTab->nwave);
 
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
       ALLOC_N(pInTab->numrec, sizeof(oi_t3_record)); /* will reallocate */
-  for (i = 0; i < pInTab->numrec; i++)
+  for (i = 0; i < pInTab->numrec && pOutTab->nwave > 0; i++)
   {
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
@@ -1734,19 +1758,17 @@ static void filter_oi_flux_record(const oi_flux_record *pInRec,
 void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                     const char *useWave, oi_flux *pOutTab)
 {
-  int i, j, nrec;
+  int i, nrec;
 
   /* Copy table header items */
   memcpy(pOutTab, pInTab, sizeof(oi_flux));
-  pOutTab->nwave = 0;
-  for (j = 0; j < pInTab->nwave; j++)
-    if (useWave[j]) ++pOutTab->nwave;
+  pOutTab->nwave = count_use_wave(useWave, NULL, pInTab->nwave);
 
   /* Filter records */
   nrec = 0; /* counter */
   pOutTab->record =
       ALLOC_N(pInTab->numrec, sizeof(oi_flux_record)); /* will reallocate */
-  for (i = 0; i < pInTab->numrec; i++)
+  for (i = 0; i < pInTab->numrec && pOutTab->nwave > 0; i++)
   {
     if (pFilter->target_id >= 0 &&
         pInTab->record[i].target_id != pFilter->target_id)
-- 
2.43.0


From 0796dd6668cb2536a524600565355eb6de79eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 33/38] fix: iterators skip tables with more channels than
 wavelengths

They read beyond the end of the eff_wave array.
---
 src/oifitslib/oiiter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index cb79e71..9b2db67 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -227,7 +227,8 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
 
 /** Does table have rows and channels, with known wavelengths? */
 #define HAS_DATA(pTable, pIter)                                                \
-  ((pTable)->numrec > 0 && (pTable)->nwave > 0 && (pIter)->pWave != NULL)
+  ((pTable)->numrec > 0 && (pTable)->nwave > 0 && (pIter)->pWave != NULL &&    \
+   (pTable)->nwave <= (pIter)->pWave->nwave)
 
 /**
  * Does current OI_VIS table pass filter?
-- 
2.43.0


From 230a9010e1764b3d0fb2ffb5e3b99b58e06ea2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 34/38] fix: writing OI_VIS with complex data but no channels
 aborted

---
 src/oifitslib/write_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index 389f8b5..f53e8b2 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -600,10 +600,10 @@ static STATUS write_oi_vis_opt(fitsfile *fptr, oi_vis vis, STATUS *pStatus)
 
     for (irow = 1; irow <= vis.numrec; irow++)
     {
-      assert(vis.record[irow - 1].rvis != NULL);
-      assert(vis.record[irow - 1].rviserr != NULL);
-      assert(vis.record[irow - 1].ivis != NULL);
-      assert(vis.record[irow - 1].iviserr != NULL);
+      assert(vis.nwave == 0 || vis.record[irow - 1].rvis != NULL);
+      assert(vis.nwave == 0 || vis.record[irow - 1].rviserr != NULL);
+      assert(vis.nwave == 0 || vis.record[irow - 1].ivis != NULL);
+      assert(vis.nwave == 0 || vis.record[irow - 1].iviserr != NULL);
       fits_write_col(fptr, TDOUBLE, 9, irow, 1, vis.nwave,
                      vis.record[irow - 1].rvis, pStatus);
       fits_write_col(fptr, TDOUBLE, 10, irow, 1, vis.nwave,
-- 
2.43.0


From fbeee881067f63ce30b2d4160c6eec3153fd28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 35/38] fix: treat optional string keywords that are blank as
 absent

A table with CORRNAME = '' was rejected for want of CORRINDX columns.
---
 src/oifitslib/read_fits.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 5390028..8a005b3 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -39,6 +39,8 @@
 /**
  * Read optional string-valued header keyword.
  *
+ * A keyword whose value is blank is treated as if it were absent.
+ *
  * @return TRUE if keyword read successfully, FALSE otherwise
  */
 static bool read_key_opt_string(fitsfile *fptr, const char *keyname,
@@ -57,6 +59,11 @@ static bool read_key_opt_string(fitsfile *fptr, const char *keyname,
     }
     return FALSE;
   }
+  if (keyval[strspn(keyval, " ")] == '\0')
+  {
+    keyval[0] = '\0';
+    return FALSE;
+  }
   return TRUE;
 }
 
-- 
2.43.0


From 3ac401999872858b7aa2798e41ae9821531924ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 36/38] fix: ignore binary tables whose EXTNAME has no value

The file could not be read.
---
 src/oifitslib/read_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 8a005b3..b839d49 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -342,7 +342,7 @@ static STATUS next_named_hdu(fitsfile *fptr, const char *reqName,
     {
       fits_write_errmark();
       fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
-      if (*pStatus == KEY_NO_EXIST)
+      if (*pStatus == KEY_NO_EXIST || *pStatus == VALUE_UNDEFINED)
       {
         printf("WARNING! Skipping binary table HDU with no EXTNAME\n");
         *pStatus = 0;
-- 
2.43.0


From 0d30f33ab48c2261df3767cd5d1c53a01906a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 37/38] fix: treat optional keywords without a value as absent

A file with an undefined value for one (e.g. 'AUTHOR  =') could not be read,
a table with one was left out.
---
 src/oifitslib/read_fits.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index b839d49..83932d4 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -39,7 +39,7 @@
 /**
  * Read optional string-valued header keyword.
  *
- * A keyword whose value is blank is treated as if it were absent.
+ * A keyword whose value is blank or undefined is treated as if it were absent.
  *
  * @return TRUE if keyword read successfully, FALSE otherwise
  */
@@ -52,7 +52,7 @@ static bool read_key_opt_string(fitsfile *fptr, const char *keyname,
   if (fits_read_key(fptr, TSTRING, keyname, keyval, NULL, pStatus))
   {
     keyval[0] = '\0';
-    if (*pStatus == KEY_NO_EXIST)
+    if (*pStatus == KEY_NO_EXIST || *pStatus == VALUE_UNDEFINED)
     {
       *pStatus = 0;
       fits_clear_errmark();
@@ -70,6 +70,8 @@ static bool read_key_opt_string(fitsfile *fptr, const char *keyname,
 /**
  * Read optional integer-valued header keyword.
  *
+ * A keyword whose value is undefined is treated as if it were absent.
+ *
  * @return TRUE if keyword read successfully, FALSE otherwise
  */
 static bool read_key_opt_int(fitsfile *fptr, const char *keyname, int *keyval,
@@ -81,7 +83,7 @@ static bool read_key_opt_int(fitsfile *fptr, const char *keyname, int *keyval,
   if (fits_read_key(fptr, TINT, keyname, keyval, NULL, pStatus))
   {
     *keyval = -1;
-    if (*pStatus == KEY_NO_EXIST)
+    if (*pStatus == KEY_NO_EXIST || *pStatus == VALUE_UNDEFINED)
     {
       *pStatus = 0;
       fits_clear_errmark();
@@ -94,6 +96,8 @@ static bool read_key_opt_int(fitsfile *fptr, const char *keyname, int *keyval,
 /**
  * Read optional double-valued header keyword.
  *
+ * A keyword whose value is undefined is treated as if it were absent.
+ *
  * @return TRUE if keyword read successfully, FALSE otherwise
  */
 static bool read_key_opt_double(fitsfile *fptr, const char *keyname,
@@ -111,7 +115,7 @@ static bool read_key_opt_double(fitsfile *fptr, const char *keyname,
   if (fits_read_key(fptr, TDOUBLE, keyname, keyval, NULL, pStatus))
   {
     *keyval = nan;
-    if (*pStatus == KEY_NO_EXIST)
+    if (*pStatus == KEY_NO_EXIST || *pStatus == VALUE_UNDEFINED)
     {
       *pStatus = 0;
       fits_clear_errmark();
-- 
2.43.0


From d16a63467b942233daae2abf5eb17ec0262795d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:44 +0000
Subject: [PATCH 38/38] fix: tell values that are not numbers from others when
 merging tables

---
 src/oifitslib/oimerge.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 2373faa..84ae0e1 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -54,6 +54,17 @@ static element *lookup_element(const oi_array *pArray, int staIndex)
   return NULL;
 }
 
+/**
+ * Do values differ by more than specified tolerance?
+ *
+ * A value that is not a number only matches another such value.
+ */
+static BOOL differ(double a, double b, double tol)
+{
+  if (isnan(a) || isnan(b)) return isnan(a) != isnan(b);
+  return a != b && fabs(a - b) > tol;
+}
+
 /**
  * Return pointer to first oi_array in list that contains identical
  * coordinates and station indices to pArray.
@@ -77,22 +88,22 @@ static oi_array *match_oi_array(const oi_array *pArray, const GList *list)
     pCmp = (oi_array *)link->data;
     link = link->next; /* follow link now so we can use continue statements */
 
-    if (fabs(pArray->arrayx - pCmp->arrayx) > tol) continue;
-    if (fabs(pArray->arrayy - pCmp->arrayy) > tol) continue;
-    if (fabs(pArray->arrayz - pCmp->arrayz) > tol) continue;
+    if (differ(pArray->arrayx, pCmp->arrayx, tol)) continue;
+    if (differ(pArray->arrayy, pCmp->arrayy, tol)) continue;
+    if (differ(pArray->arrayz, pCmp->arrayz, tol)) continue;
 
     for (i = 0; i < pArray->nelement; i++)
     {
       pCmpEl = lookup_element(pCmp, pArray->elem[i].sta_index);
       if (pCmpEl == NULL) break;
-      if (fabs(pArray->elem[i].staxyz[0] - pCmpEl->staxyz[0]) > tol) break;
-      if (fabs(pArray->elem[i].staxyz[1] - pCmpEl->staxyz[1]) > tol) break;
-      if (fabs(pArray->elem[i].staxyz[2] - pCmpEl->staxyz[2]) > tol) break;
-      if (fabs(pArray->elem[i].diameter - pCmpEl->diameter) > ftol) break;
+      if (differ(pArray->elem[i].staxyz[0], pCmpEl->staxyz[0], tol)) break;
+      if (differ(pArray->elem[i].staxyz[1], pCmpEl->staxyz[1], tol)) break;
+      if (differ(pArray->elem[i].staxyz[2], pCmpEl->staxyz[2], tol)) break;
+      if (differ(pArray->elem[i].diameter, pCmpEl->diameter, ftol)) break;
       if (pArray->revision >= 2 && pCmp->revision >= 2)
       {
         /* compare FOV in OIFITS v2+ */
-        if (fabs(pArray->elem[i].fov - pCmpEl->fov) > tol) break;
+        if (differ(pArray->elem[i].fov, pCmpEl->fov, tol)) break;
         if (strcmp(pArray->elem[i].fovtype, pCmpEl->fovtype) != 0) break;
       }
     }
@@ -121,8 +132,8 @@ static oi_wavelength *match_oi_wavelength(const oi_wavelength *pWave,
     {
       for (i = 0; i < pWave->nwave; i++)
       {
-        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
-            fabs(pCmp->eff_band[i] - pWave->eff_band[i]) >= tol)
+        if (differ(pCmp->eff_wave[i], pWave->eff_wave[i], tol) ||
+            differ(pCmp->eff_band[i], pWave->eff_band[i], tol))
           break;
       }
       if (i == pWave->nwave) return pCmp; /* all wavebands match */
-- 
2.43.0

