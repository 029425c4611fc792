From 0c27dac15f4a2e34d8dcd24d6a29905c2c17a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 01/16] fix: leave ECOS_solve through the common exit on fatal
 and outside-cone results

The early returns left the SIGINT handler installed, the cost vector equilibrated and the iterate unscaled.
---
 src/ecos.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..13b45c1 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1114,6 +1114,16 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+        /* there is no iterate to scale back yet, but the cost vector and the signal handler have to be restored */
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for(i = 0; i <w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if PROFILING > 0
+        w->info->tsolve = toc(&tsolve);
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1304,11 +1314,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1339,7 +1347,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 98078f71a1740cd17ca07c33437fb870ff29eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 02/16] fix: do not fall back to a best iterate that was never
 recorded

Stopping at the very first iterate (iteration limit 0, interrupt, NaN) compared against and restored
uninitialised memory, or the best iterate of an earlier solve.
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 13b45c1..78e926a 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1215,7 +1215,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = interrupted ? "SIGINT intercepted" : "Maximum number of iterations reached";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
@@ -1248,7 +1248,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = "Reached NAN dead end";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
-- 
2.43.0


From 08ee6238ebb7700e8e1fc8f8ab0c70f84118258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 03/16] fix: detect the minimum step with the workspace's step
 damping

The step is scaled by stgs->gamma, but was compared with the built-in default.
---
 src/ecos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index 78e926a..2cb13a9 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1191,7 +1191,7 @@ idxint ECOS_solve(pwork* w)
              */
 
             /* Did the line search cock up? (zero step length) */
-            if( w->info->iter > 0 && w->info->step == STEPMIN*GAMMA ){
+            if( w->info->iter > 0 && w->info->step == STEPMIN*w->stgs->gamma ){
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) deleteLastProgressLine( w->info );
                 if( w->stgs->verbose ) PRINTTEXT("No further progress possible, recovering best iterate (%i) and stopping.", (int)w->best_info->iter );
-- 
2.43.0


From 968d50d8ae29851803b6584279f74c68f86d7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 04/16] fix: ECOS_updateData dereferenced the equality matrix
 of problems without equalities

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 2cb13a9..c3c36e8 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1665,10 +1665,10 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* This is required for backward compatibility since existing code might need this step. */
     if (
         ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
+        (!w->A || (Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
         ((c + w->n < w->c) || (w->c + w->n < c)) &&
         ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        (!w->A || (b + w->p < w->b) || (w->b + w->p < b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From e9f036a97fe2eb833569d76b5ebbc7a21730cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 05/16] fix: line search lost track of the cone offsets after
 skipping a degenerate cone

---
 src/ecos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index c3c36e8..345426b 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -997,8 +997,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0) {
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From 7b57bb9056df01dcee16c499e0e65ebaf0148480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 06/16] fix: transpose of a matrix without entries had
 uninitialised column pointers

---
 src/splamm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..c3cc547 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,10 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    for( i=0; i < M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 9e77dcf37d7a824ad6845921358e71240531a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 07/16] fix: refuse inconsistent cone sizes before anything is
 allocated

The check came after most of the workspace had been allocated and leaked all of it.
---
 src/preproc.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..29b2488 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,27 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += (idxint)q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +736,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From 9103912d00320a187a815e4d14f9c43dbf55ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 08/16] fix: setup leaked its memory and left the user's data
 scaled when the ordering failed

---
 src/preproc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/preproc.c b/src/preproc.c
index 29b2488..4f9ab15 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -940,6 +940,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* give back everything obtained so far, and the user's data unscaled */
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        mywork->KKT->P = P;
+        mywork->KKT->L = newSparseMatrix(nK, nK, 0);
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From b57098bf06aa8086bdf71abf46b3c1be9a0f34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 09/16] fix: branch and bound forgot an incumbent found by
 rounding at the root

---
 ecos_bb/ecos_bb.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..8c76141 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,7 +1143,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From 2b9cb4966d519a145c39241138386c80061cdec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 10/16] fix: branch and bound handed over an uninitialised or
 stale incumbent

When no integer-feasible point was found, the never-written (or previous) best point
overwrote the solution of the last relaxation.
---
 ecos_bb/ecos_bb.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 8c76141..6d6b633 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1170,7 +1170,11 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
-    load_solution(prob);
+    /* without an incumbent there is nothing to hand over */
+    if (!isinf(prob->global_U))
+    {
+        load_solution(prob);
+    }
 
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
-- 
2.43.0


From b70b01aaa1f519e9cd366239abdee4f477dbfcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 11/16] fix: integer updateDataEntry_h ignored the bound rows
 of integer variables

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 6d6b633..03c3656 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1187,7 +1187,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From ad3dac51d7179450727c700ab9e500aed3bb0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 12/16] fix: reliability branching chose variables by the
 solution of a trial branching

Every trial solve overwrites ecos_prob->x, from which the remaining candidates were judged.
---
 ecos_bb/ecos_bb.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 03c3656..8081f12 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -752,7 +752,12 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+    /* the trial solves below overwrite the relaxed solution, so keep it */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    /* set split idx to something impossible */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +774,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -793,8 +798,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
-- 
2.43.0


From f869f4d2dd0f00cf786912072ab90b1cff6f5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 13/16] fix: bounds of integer variables went to other
 variables' rows

The bound rows were laid out in column order, but are set by position in the boolean and integer
index lists; the two disagree as soon as an integer variable precedes a boolean one or a list is unsorted.
---
 ecos_bb/ecos_bb_preproc.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..85ebde7 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -54,6 +54,18 @@ static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
     return (int)ans;
 }
 
+/* Position of idx in a list of variable indices (the last one if it is listed twice) */
+static idxint position(idxint idx, idxint num, idxint *vars_idx)
+{
+    idxint i;
+    for (i = num - 1; i > 0; --i)
+    {
+        if (vars_idx[i] == idx)
+            break;
+    }
+    return i;
+}
+
 /* Augments the G and b arrays to take lb and ub constraints
  * for all of the variables marked integer
  * USES MALLOC
@@ -74,11 +86,13 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
         if (contains(i, num_bool_vars, bool_vars_idx))
         {
+            /* set_prob addresses the rows by position in the index lists */
+            j = position(i, num_bool_vars, bool_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -103,11 +117,11 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else if (contains(i, num_int_vars, int_vars_idx))
         {
+            j = num_bool_vars + position(i, num_int_vars, int_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +146,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From 47fdbf3925c402f36aadb3161cbc374c0f5cdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 14/16] fix: ECOS_BB_setup crashed when the relaxation could
 not be set up

---
 ecos_bb/ecos_bb_preproc.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 85ebde7..1fd58a3 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -294,6 +294,36 @@ ecos_bb_pwork *ECOS_BB_setup(
         Apr, Ajc, Air,
         c, prob->h_new, b);
 
+    if (prob->ecos_prob == NULL)
+    {
+        FREE(prob->tmp_bool_node_id);
+        FREE(prob->tmp_int_node_id);
+        FREE(prob->tmp_branching_bool_node_id);
+        FREE(prob->tmp_branching_int_node_id);
+        FREE(prob->Gpr_new);
+        FREE(prob->Gjc_new);
+        FREE(prob->Gir_new);
+        FREE(prob->h_new);
+        FREE(prob->nodes);
+        FREE(prob->bool_node_ids);
+        FREE(prob->int_node_ids);
+        FREE(prob->x);
+        FREE(prob->y);
+        FREE(prob->z);
+        FREE(prob->s);
+        FREE(prob->info);
+        FREE(prob->pseudocost_bin_cnt);
+        FREE(prob->pseudocost_bin_sum);
+        FREE(prob->pseudocost_int_cnt);
+        FREE(prob->pseudocost_int_sum);
+        if (prob->default_settings)
+        {
+            FREE(prob->stgs);
+        }
+        FREE(prob);
+        return NULL;
+    }
+
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
     prob->num_int_vars = num_int_vars;
-- 
2.43.0


From 9b73e68b09f85d6439344e9515972fa371e7811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 15/16] fix: the flag set by the signal handler was not
 async-signal-safe

---
 src/ctrlc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctrlc.c b/src/ctrlc.c
index 0986fd7..8a87956 100644
--- a/src/ctrlc.c
+++ b/src/ctrlc.c
@@ -84,8 +84,8 @@ int check_ctrlc(void)
 /* Use POSIX clocl_gettime() for timing on non-Windows machines */
 
 #include <signal.h>
-static int int_detected;
-struct sigaction oact;
+static volatile sig_atomic_t int_detected;
+static struct sigaction oact;
 void handle_ctrlc(int dummy)
 {
     int_detected = dummy?dummy:-1;
-- 
2.43.0


From 1774fca3e4be02a412bb9eefad86a9cb8ef9a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:21 +0000
Subject: [PATCH 16/16] fix: only a proven trial result lets strong branching
 fix a variable

check_infeasible_bool_var/check_infeasible_int_var fixed a variable when a trial
relaxation was unbounded, or when the cost of an iterate that had not converged
(iteration limit, numerical problems, interrupt) exceeded the incumbent. Neither
shows that the trial branch holds no better point.
---
 ecos_bb/ecos_bb.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 8081f12..d4abe0e 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -328,15 +328,17 @@ static void set_prob(ecos_bb_pwork *prob, char *bool_node_id, pfloat *int_node_i
 
 static char is_infeasible(idxint ecos_result)
 {
-    if (ecos_result == ECOS_DINF ||
-        ecos_result == ECOS_PINF ||
-        ecos_result == ECOS_DINF + ECOS_INACC_OFFSET ||
-        ecos_result == ECOS_PINF + ECOS_INACC_OFFSET)
-    {
-        return 1;
-    }
+    return ecos_result == ECOS_PINF || ecos_result == ECOS_PINF + ECOS_INACC_OFFSET;
+}
 
-    return 0;
+/*
+ * A trial branch cannot improve on the incumbent if it is infeasible or if its optimal value is
+ * worse; the cost of an iterate that did not converge is no bound
+ */
+static int is_cut_off(const ecos_bb_pwork *problem, const idxint ecos_result, const pfloat relaxation)
+{
+    return is_infeasible(ecos_result) ||
+           ((ecos_result == ECOS_OPTIMAL || ecos_result == ECOS_OPTIMAL + ECOS_INACC_OFFSET) && relaxation > problem->global_U);
 }
 
 /*
@@ -408,7 +410,7 @@ static int check_infeasible_bool_var(ecos_bb_pwork *problem, const idxint ecos_r
                                      const char other_val, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                      const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_cut_off(problem, ecos_result, relaxation))
     {
         //fix value to MI_ONE, no branching needed
         get_bool_node_id(node_idx, problem)[var_idx] = other_val;
@@ -434,7 +436,7 @@ static int check_infeasible_int_var(ecos_bb_pwork *problem, const idxint ecos_re
                                     const int fix_lb, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                     const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_cut_off(problem, ecos_result, relaxation))
     {
         // fix lower bound
         const pfloat fix_val = fix_lb
-- 
2.43.0

