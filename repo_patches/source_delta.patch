From bb313f646dc50e94b294af41e86c2e1c4dfa5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 01/48] fix: store text as data, never as a printf format

---
 apop_conversions.m4.c | 4 ++--
 apop_data.m4.c        | 2 +-
 apop_db_sqlite.c      | 2 +-
 apop_rake.m4.c        | 4 ++--
 apop_regression.m4.c  | 6 +++---
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..83f0736 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -573,7 +573,7 @@ static void get_field_names(int has_col_names, char **field_names, FILE *infile,
             parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
-            if (field_names) apop_text_set(fn, i, 0, field_names[i]);
+            if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
 }
@@ -932,7 +932,7 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
         for (int j=0; j< data->textsize[1]; j++)
-            apop_text_set(data, i, j, text[ctr++]);
+            {apop_text_set(data, i, j, text[ctr] ? "%s" : NULL, text[ctr]); ctr++;}
     return data;
 }
 
diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..2f1df04 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1187,7 +1187,7 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
     if (in->names && in->names->textct && !in->names->colct)
         apop_name_stack(out->names, in->names, 't', 'r');
diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..ee25ea2 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -202,7 +202,7 @@ static int db_to_chars(void *qinfo,int argc, char **argv, char **column){
             apop_name_add(d->names, argv[jj], 'r'); 
             ncshift ++;
         } else {
-            apop_text_set(d, rows, jj-ncshift, (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
+            apop_text_set(d, rows, jj-ncshift, "%s", (argv[jj]==NULL)? apop_opts.nan_string: argv[jj]);
             //Asprintf(&(d->text[rows][jj-ncshift]), "%s", (argv[jj]==NULL)? "NaN": argv[jj]);
             if(addnames)
                 apop_name_add(d->names, column[jj], 't'); 
diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 7b0e800..aa00c42 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -349,12 +349,12 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
         for (int i=0; i< all_vars_d->textsize[0]; i++)
             if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
                  && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, all_vars_d->text[i][1]);
+                    apop_text_set(all_vars_d, 0, ctr++, "%s", all_vars_d->text[i][1]);
         apop_text_alloc(all_vars_d, 1, ctr);
         *var_ct = ctr;
     } else {
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
-        for (int i=0; i<*var_ct; i++) apop_text_set(all_vars_d, 0, i, varlist[i]);
+        for (int i=0; i<*var_ct; i++) apop_text_set(all_vars_d, 0, i, "%s", varlist[i]);
     }
     Apop_stopif(!all_vars_d, apop_return_data_error(y), 0, "Trouble getting/parsing the list of variables.");
     return all_vars_d;
diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index ad892ab..48852a4 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -107,7 +107,7 @@ apop_data * apop_text_unique_elements(const apop_data *d, size_t col){
     //pack and ship
     apop_data *out = apop_text_alloc(NULL, elmt_ctr, 1);
     for (int j=0; j< elmt_ctr; j++)
-        apop_text_set(out, j, 0, telmts[j]);
+        apop_text_set(out, j, 0, "%s", telmts[j]);
     free(telmts);
     return out;
 }
@@ -236,12 +236,12 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
             else {
                 index = elmt_ctr++;
                 *factor_list = apop_text_alloc(*factor_list, elmt_ctr, 1);
-                apop_text_set(*factor_list, index, 0, d->text[i][col]);
+                apop_text_set(*factor_list, index, 0, "%s", d->text[i][col]);
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 apop_data_set(*factor_list, index, -1, index);
 
                 telmts = apop_text_alloc(telmts, 1, elmt_ctr);
-                apop_text_set(telmts, 0, index, d->text[i][col]);
+                apop_text_set(telmts, 0, index, "%s", d->text[i][col]);
                 if (dummyfactor == 'd'){
                     out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
                     gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
-- 
2.43.0


From a312400130c5ea141c4367f62083d34db398ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 02/48] fix: restore the GSL error handler on the early exits
 of the linear algebra functions

---
 apop_linear_algebra.m4.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index e2f1c26..71dadbf 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -38,9 +38,9 @@ then \c *out is pointed to the matrix inverse. In case of difficulty, I will set
 */
 
 double apop_det_and_inv(const gsl_matrix *in, gsl_matrix **out, int calc_det, int calc_inv) {
-    Set_gsl_handler
-    Apop_stopif(in->size1 != in->size2, *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
+    Apop_stopif(in->size1 != in->size2, if (out) *out=NULL; return GSL_NAN, 0, "You asked me to invert a %zu X %zu matrix, "
             "but inversion requires a square matrix.", in->size1, in->size2);
+    Set_gsl_handler
     int sign;
     double the_determinant = GSL_NAN;
 	gsl_matrix *invert_me = gsl_matrix_alloc(in->size1, in->size1);
@@ -114,15 +114,15 @@ APOP_VAR_HEAD apop_data * apop_matrix_pca(gsl_matrix *data, int const dimensions
 APOP_VAR_ENDHEAD
     Set_gsl_handler
     apop_data *pc_space	= apop_data_alloc(0, data->size2, dimensions_we_want);
-    Apop_stopif(pc_space->error, return pc_space, 0, "Allocation error.");
+    Apop_stopif(pc_space->error, Unset_gsl_handler return pc_space, 0, "Allocation error.");
 	pc_space->vector = gsl_vector_alloc(dimensions_we_want);
-    Apop_stopif(!pc_space->vector, pc_space->error='a'; return pc_space, 
+    Apop_stopif(!pc_space->vector, pc_space->error='a'; Unset_gsl_handler return pc_space, 
                 0, "Allocation error setting up a %i vector.", dimensions_we_want);
     gsl_matrix *eigenvectors = gsl_matrix_alloc(data->size2, data->size2);
     gsl_vector *dummy_v 	 = gsl_vector_alloc(data->size2);
     gsl_vector *all_evalues  = gsl_vector_alloc(data->size2);
     gsl_matrix *square  	 = gsl_matrix_calloc(data->size2, data->size2);
-    Apop_stopif(!eigenvectors || !dummy_v || !all_evalues || !square, pc_space->error='a'; return pc_space, 
+    Apop_stopif(!eigenvectors || !dummy_v || !all_evalues || !square, pc_space->error='a'; Unset_gsl_handler return pc_space, 
                 0, "Allocation error setting up workspace for %zu dimensions.", data->size2);
     double eigentotals	= 0;
     for (int i=0; i< data->size2; i++)
@@ -385,7 +385,6 @@ APOP_VAR_HEAD apop_data * apop_dot(const apop_data *d1, const apop_data *d2, cha
     char apop_varad_var(form1, 0)
     char apop_varad_var(form2, 0)
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     int         uselm, userm;
     gsl_matrix  *lm = d1->matrix, 
                 *rm = d2->matrix;
@@ -410,6 +409,7 @@ APOP_VAR_ENDHEAD
         Apop_stopif(1, return NULL, 0, "The right data set has neither non-NULL "
                                   "matrix nor vector. Returning NULL.");
     }
+    Set_gsl_handler
     apop_data *out = apop_data_alloc();
     #define Dimcheck(lr, lc, rr, rc) Apop_stopif((lc)!=(rr), out->error='d'; goto done,\
         0, "mismatched dimensions: %zuX%zu dot %zuX%zu. %s", (lr), (lc), (rr), (rc),\
-- 
2.43.0


From 57e4988ce6ac9820ed285f36cb70dad45dc3d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 03/48] fix: restore the GSL error handler on the early exits
 of apop_data_set and apop_data_alloc

---
 apop_data.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 2f1df04..c963bdf 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -52,12 +52,12 @@ APOP_VAR_ENDHEAD
     Set_gsl_handler
     if (msize2 > 0  && msize1 > 0){
         setme->matrix = gsl_matrix_alloc(msize1,msize2);
-        Apop_stopif(!setme->matrix, setme->error='a'; return setme,
+        Apop_stopif(!setme->matrix, setme->error='a'; Unset_gsl_handler return setme,
                 0, "malloc failed on a %zu x %i matrix. Probably out of memory.", msize1, msize2);
     }
     if (vsize){
         setme->vector = gsl_vector_alloc(vsize);
-        Apop_stopif(!setme->vector, setme->error='a'; return setme,
+        Apop_stopif(!setme->vector, setme->error='a'; Unset_gsl_handler return setme,
                 0, "malloc failed on a vector of size %zu. Probably out of memory.", vsize);
     }
     Unset_gsl_handler
@@ -903,10 +903,10 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
 APOP_VAR_ENDHEAD
     Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
-        Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(!data->vector, Unset_gsl_handler return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
         gsl_vector_set(data->vector, row, val);
     } else {
-        Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(!data->matrix, Unset_gsl_handler return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
         gsl_matrix_set(data->matrix, row, col, val);
     }
     Unset_gsl_handler
-- 
2.43.0


From 0366a2d0b16337fa0158ea2ec0488fe95c88cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 04/48] fix: apop_data_set returns -1 for an element outside
 the bounds, as documented

---
 apop_data.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c963bdf..0383267 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -901,7 +901,8 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
+    error_for_set = 0;
+    gsl_error_handler_t *prior_handler = gsl_set_error_handler(apop_gsl_error_for_set);
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, Unset_gsl_handler return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
         gsl_vector_set(data->vector, row, val);
-- 
2.43.0


From f9271e87f0b9afcfd217012fdcae3aacec370667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 05/48] fix: apop_db_to_crosstab puts back db_name_column and
 reports query errors

---
 apop_conversions.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 83f0736..3aabdcf 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -133,8 +133,9 @@ APOP_VAR_ENDHEAD
                                     is_aggregate!='n' ? "," : "",
                                     is_aggregate!='n' ? col : "");
     datachars = apop_query_to_text("%s", Q);
-    Apop_stopif(!datachars, free(Q); return NULL, 2, "[%s] returned an empty table.", Q);
-    Apop_stopif(datachars->error, free(Q); goto bailout, 0, "error from [%s].", Q);
+    Apop_stopif(!datachars, free(Q); apop_data_free(outdata); apop_opts.db_name_column = p; return NULL, 2, "[%s] returned an empty table.", Q);
+    Apop_stopif(datachars->error, free(Q); outdata->error='q'; goto bailout, 0, "error from [%s].", Q);
+    free(Q);
 
     //A bit inefficient, but well-encapsulated.
     //Pull the distinct (sorted) list of headers, copy into outdata->names.
-- 
2.43.0


From 393514474a17547f10d25896947e1e7440f1a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 06/48] fix: put back the caller's SIGINT handler after an
 optimization

---
 apop_mle.m4.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 7377bfb..0d24f1d 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -445,7 +445,7 @@ Inside the infostruct, you'll find these elements:
     if (setjmp(i->bad_eval_jump))
         Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
-    signal(SIGINT, mle_sigint);
+    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
     do { 	
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -462,7 +462,7 @@ Inside the infostruct, you'll find these elements:
             printf ("%5i %.5f  f()=%10.5f gradient=%.3f\n", iter, gsl_vector_get (s->x, 0),  s->f, gsl_vector_get(s->gradient,0));
         Apop_stopif(status == GSL_SUCCESS, apopstatus=0, 2, "Optimum found.");
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, NULL);
+    signal(SIGINT, prior_sigint);
 	Apop_stopif(iter==mp->max_iterations, apopstatus = -1, 1, "Max iterations reached, implying that I did not find an optimum.");
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
@@ -492,7 +492,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
         Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
-    signal(SIGINT, mle_sigint);
+    void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
     do {  
         iter++;
         if (setjmp(i->bad_eval_jump)) {
@@ -517,7 +517,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
             }
         }
     } while (status == GSL_CONTINUE && iter < mp->max_iterations && !ctrl_c);
-    signal(SIGINT, NULL);
+    signal(SIGINT, prior_sigint);
 	Apop_stopif(iter == mp->max_iterations && mp->verbose, /*continue*/, 
                 1, "Optimization reached maximum number of iterations.");
     if (status == GSL_SUCCESS) apopstatus = 0;
@@ -853,12 +853,13 @@ static void apop_annealing(infostruct *i){
     if (mp && mp->verbose>1)    printing_fn = annealing_print;
     else if (mp && mp->verbose) printing_fn = annealing_print2;
     annealing_check_constraint(i); //shift starting point if needed.
+    void (*volatile prior_sigint)(int) = SIG_ERR; //SIG_ERR: not yet replaced
     if (setjmp(i->bad_eval_jump)) {
         apopstatus = -1;
         goto done;
     }
     if (!setjmp(anneal_jump)){
-        signal(SIGINT, anneal_sigint);
+        prior_sigint = signal(SIGINT, anneal_sigint);
         gsl_siman_solve(r,    // const gsl_rng * r
           i,                  // void * x0_p
           annealing_energy,   // gsl_siman_Efunc_t Ef
@@ -871,11 +872,11 @@ static void apop_annealing(infostruct *i){
           betasize,           // size_t element_size
           simparams);         // gsl_siman_params_t params
     }
-    signal(SIGINT, NULL);
     apop_data_unpack(i->beta, i->model->parameters); 
     apop_estimate_parameter_tests(i->model);
     apopstatus = 0;
 done:
+    if (prior_sigint != SIG_ERR) signal(SIGINT, prior_sigint);
     if (mp->rng) r = NULL;
     auxinfo(i->model->parameters, i, apopstatus, i->best_ll);
 }
-- 
2.43.0


From 1cf010f640417ac684ad6ee3c33f8804dbc3a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 07/48] fix: notice an output file that could not be opened

---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 3bbde30..7319363 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -59,7 +59,7 @@ int apop_prep_output(char const *output_name, FILE ** output_pipe, char *output_
     else *output_pipe = output_name
                         ? fopen(output_name, *output_append == 'a' ? "a" : "w")
                         : stdout;
-    Apop_stopif(!output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
+    Apop_stopif(!*output_pipe && output_name, return -1, 0, "Trouble opening file %s.", output_name);
     return 0;
 }
 
-- 
2.43.0


From 39c27d71d305da9bc78455ba3209b55f83e17aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 08/48] fix: state the actual default of output_append

---
 apop_output.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_output.m4.c b/apop_output.m4.c
index 7319363..335001f 100644
--- a/apop_output.m4.c
+++ b/apop_output.m4.c
@@ -24,7 +24,7 @@
   \param output_pipe If you have already opened a file and have a \c FILE* on hand, use
   this instead of giving the file name.
   \param output_type \c 'p' = pipe, \c 'f'= file, \c 'd' = database
-  \param output_append \c 'a' = append (default), \c 'w' = write over.
+  \param output_append \c 'a' = append, \c 'w' = write over (default).
 
 At the end, \c output_name, \c output_pipe, and \c output_type are all set.
 Notably, the local \c output_pipe will have the correct location for the calling function to \c fprintf to.
-- 
2.43.0


From 361010591653d50fa72275cf49cec28361881673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 09/48] fix: apop_data_set takes its arguments in the declared
 order

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 0383267..3dfe4ee 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -878,7 +878,7 @@ extension enabled.
 
 \li This function uses the \ref designated syntax for inputs.
 */
-APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const double val, const char *colname, const char *rowname, const char *page){
+APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const double val, const char *rowname, const char *colname, const char *page){
     apop_data * apop_varad_var(data, NULL);
     Apop_stopif(!data, return -1, 0, "You sent me a NULL data set.");
     size_t apop_varad_var(row, 0);
-- 
2.43.0


From e40aeeba7c2bb12ff7744c085d65b19b71680f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 10/48] fix: the search vector of a maximum likelihood search
 was read after being freed

---
 apop_mle.m4.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 0d24f1d..e2db234 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -467,7 +467,6 @@ Inside the infostruct, you'll find these elements:
 	//Clean up, copy results to output estimate.
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fdfminimizer_free(s);
-    gsl_vector_free(i->beta);
     auxinfo(est->parameters, i, apopstatus, i->best_ll);
 }
 
@@ -648,7 +647,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
                        .model          = dist};
     get_desires(dist, &info);
     info.beta = apop_data_pack(dist->parameters);
-    if (setup_starting_point(mp, info.beta)) return;
+    if (setup_starting_point(mp, info.beta)) {gsl_vector_free(info.beta); return;}
     info.model->data = data;
     if (mp->dim_cycle_tolerance)            dim_cycle(data, dist, info);
     else if (!strcasecmp(mp->method, "annealing"))   apop_annealing(&info);  //below.
@@ -657,6 +656,7 @@ void apop_maximum_likelihood(apop_data * data, apop_model *dist){
             !strcasecmp(mp->method, "Newton hybrid")||
             !strcasecmp(mp->method, "Newton hybrid no scale")) find_roots (info);
     else   /* Conjugate Gradient*/   apop_maximum_likelihood_w_d(data, &info);
+    gsl_vector_free(info.beta);
 }
 
 /** Maximum likelihod searches are not guaranteed to find a global optimum, and it can be
@@ -911,7 +911,6 @@ static apop_model * find_roots (infostruct p) {
     Apop_notify(2, "status = %s\n", gsl_strerror(status));
     apop_data_unpack(s->x, dist->parameters);
     gsl_multiroot_fsolver_free (s);
-    gsl_vector_free (p.beta);
     auxinfo(dist->parameters, &p, apopstatus, 0); //root-finders don't store best val.
     return dist;
 }
-- 
2.43.0


From 7b375ac959aadc41f08b492fbeac9793c096c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 11/48] fix: free the work vectors and minimizers of the
 maximum likelihood search

---
 apop_mle.m4.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index e2db234..b5c20bb 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -104,6 +104,7 @@ static void apop_internal_numerical_gradient(apop_fn_with_params ll,
 		gsl_deriv_central(&F, gsl_vector_get(beta,j), delta, &result, &err);
 		gsl_vector_set(out, j, result);
 	}
+    gsl_vector_free(i.gp->beta);
     gsl_vector_free(beta);
 }
 
@@ -198,7 +199,6 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(model->parameters) //tsize
     size_t betasize  = tsize;
     apop_data *out = apop_data_calloc(0, betasize, betasize);
-    gsl_vector *dscore = gsl_vector_alloc(betasize);
     apop_model_for_infomatrix_struct ms = { .base_model = model, .current_index = &k, };
     apop_model *m = apop_model_copy(apop_model_for_infomatrix);
     m->parameters = model->parameters;
@@ -206,7 +206,7 @@ APOP_VAR_ENDHEAD
     if (apop_settings_get_group(model, apop_mle))
         apop_settings_copy_group(m, model, "apop_mle");
     for (k=0; k< betasize; k++){
-        dscore = apop_numerical_gradient(data, m, delta);
+        gsl_vector *dscore = apop_numerical_gradient(data, m, delta);
         //We get two estimates of the (k,j)th element, which are often very close,
         //and take the mean.
         for (size_t j=0; j< betasize; j++){
@@ -443,7 +443,7 @@ Inside the infostruct, you'll find these elements:
         .params	= i};
     ctrl_c = 0;
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fdfminimizer_free(s); return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
 	gsl_multimin_fdfminimizer_set (s, &minme, i->beta, mp->step_size, mp->tolerance);
     void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
     do { 	
@@ -488,7 +488,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     gsl_vector_set_all (ss,  mp->step_size);
     gsl_multimin_function  minme = {.f = negshell, .n= betasize, .params = i};
     if (setjmp(i->bad_eval_jump))
-        Apop_stopif(1, return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
+        Apop_stopif(1, gsl_multimin_fminimizer_free(s); gsl_vector_free(ss); return, 0, "Failure evaluating likelihood at the starting point. Add a starting point?");
     gsl_multimin_fminimizer_set (s, &minme, i->beta,  ss);
     //i->beta = s->x;
     void (*prior_sigint)(int) = signal(SIGINT, mle_sigint);
@@ -522,6 +522,7 @@ static void apop_maximum_likelihood_no_d(apop_data * data, infostruct * i){
     if (status == GSL_SUCCESS) apopstatus = 0;
     apop_data_unpack(s->x, est->parameters);
 	gsl_multimin_fminimizer_free(s);
+    gsl_vector_free(ss);
     auxinfo(est->parameters, i, apopstatus, i->best_ll);
 }
 
@@ -735,7 +736,7 @@ APOP_VAR_ENDHEAD
         prm->starting_pt = malloc(sizeof(double)*v->size);
         memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
     }
-    Apop_stopif(!apop_vector_bounded(v, boundary), return e, 
+    Apop_stopif(!apop_vector_bounded(v, boundary), gsl_vector_free(v); return e, 
                 0, "Your model has diverged (element(s) > %g);"
                    " returning your original model without restarting.", boundary);
     gsl_vector_free(v);
@@ -765,7 +766,10 @@ static double annealing_distance(void *xin, void *yin) {
     gsl_vector *to = apop_vector_copy(((infostruct*)yin)->beta);
     gsl_vector_div(from, ((infostruct*)xin)->starting_pt);
     gsl_vector_div(to, ((infostruct*)xin)->starting_pt);//starting pts are the same.
-    return apop_vector_distance(from, to, .metric='m');
+    double dist = apop_vector_distance(from, to, .metric='m');
+    gsl_vector_free(from);
+    gsl_vector_free(to);
+    return dist;
 }
 
 static void annealing_check_constraint(infostruct *i){
@@ -877,6 +881,7 @@ static void apop_annealing(infostruct *i){
     apopstatus = 0;
 done:
     if (prior_sigint != SIG_ERR) signal(SIGINT, prior_sigint);
+    gsl_vector_free(i->starting_pt);
     if (mp->rng) r = NULL;
     auxinfo(i->model->parameters, i, apopstatus, i->best_ll);
 }
-- 
2.43.0


From 8bd79fb5442ecc9d5a12a7d74f5c852a65984edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 12/48] fix: an error data set carries the error code it was
 given, not always 'E'

---
 apop.m4.h             |  2 +-
 apop_asst.m4.c        |  6 +++---
 apop_bootstrap.m4.c   |  4 ++--
 apop_conversions.m4.c |  2 +-
 apop_mapply.m4.c      |  2 +-
 apop_rake.m4.c        | 22 +++++++++++-----------
 apop_regression.m4.c  | 16 ++++++++--------
 7 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..b1c59d1 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -631,7 +631,7 @@ Apop_stopif(x < 0,  , 1, "warning: x is %g.", x);
 
 /** \cond doxy_ignore */
 //For use in stopif, to return a blank apop_data set with an error attached.
-#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error='E'; return out;}
+#define apop_return_data_error(E) {apop_data *out=apop_data_alloc(); out->error=(E); return out;}
 
 /* The Apop_stopif macro is currently favored, but there's a long history of prior
    error-handling setups. Consider all of the Assert... macros below to be deprecated.
diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..9990dc4 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -404,8 +404,8 @@ Here is a two-line program to draw a different set of ten Standard Normals on ev
 */
 APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_data *draws){
     apop_model * apop_varad_var(model, NULL);
-    Apop_stopif(!model, apop_return_data_error(n), 0, "Input model is NULL.");
-    Apop_stopif(!model->dsize, apop_return_data_error(n), 0, "Input model has dsize==0.");
+    Apop_stopif(!model, apop_return_data_error('n'), 0, "Input model is NULL.");
+    Apop_stopif(!model->dsize, apop_return_data_error('n'), 0, "Input model has dsize==0.");
     apop_data * apop_varad_var(draws, NULL);
     int apop_varad_var(count, 1000);
     if (draws) {
@@ -414,7 +414,7 @@ APOP_VAR_HEAD apop_data *apop_model_draws(apop_model *model, int count, apop_dat
                 1, "Input data set's matrix column count is less than model->dsize.");
         count = draws->matrix->size1;
     } else
-        Apop_stopif(model->dsize<=0, apop_return_data_error(n), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
+        Apop_stopif(model->dsize<=0, apop_return_data_error('n'), 0, "model->dsize<=0, so I don't know the size of matrix to allocate.");
 APOP_VAR_ENDHEAD
     apop_data *out = draws ? draws : apop_data_alloc(count, model->dsize);
 
diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index cf6cff4..4ba3c30 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -48,7 +48,7 @@ For example:
 \include jack.c
 */
 apop_data * apop_jackknife_cov(apop_data *in, apop_model *model){
-    Apop_stopif(!in, apop_return_data_error(n), 0, "The data input can't be NULL.");
+    Apop_stopif(!in, apop_return_data_error('n'), 0, "The data input can't be NULL.");
     Get_vmsizes(in); //msize1, msize2, vsize
     apop_model *e = apop_model_copy(model);
     int i, n = GSL_MAX(msize1, GSL_MAX(vsize, in->textsize[0]));
@@ -167,7 +167,7 @@ APOP_VAR_ENDHEAD
     apop_data_free(subset);
     apop_model_free(e);
     int set_error=0;
-    Apop_stopif(i == 0 && nan_draws == iterations, apop_return_data_error(N),
+    Apop_stopif(i == 0 && nan_draws == iterations, apop_return_data_error('N'),
                 1, "I ran into %i NaNs and no not-NaN estimations, and so stopped. "
                        , iterations);
     Apop_stopif(nan_draws == iterations,  set_error++;
diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 3aabdcf..5e13bd6 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -615,7 +615,7 @@ APOP_VAR_ENDHEAD
     apop_data *add_this_line= apop_data_alloc();
     int row = 0,
         hasrows = (has_row_names == 'y');
-    Apop_stopif(prep_text_reading(text_file, &infile), apop_return_data_error(t),
+    Apop_stopif(prep_text_reading(text_file, &infile), apop_return_data_error('t'),
             0, "trouble opening %s", text_file);
 
     line_parse_t L={ };
diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..de65790 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -145,7 +145,7 @@ APOP_VAR_ENDHEAD
     int by_apop_rows = fn_r || fn_rp || fn_rpi || fn_ri;
 
     Apop_stopif((part=='c' || part=='r') && (fn_d || fn_dp || fn_dpi || fn_di), 
-                        apop_return_data_error(p),
+                        apop_return_data_error('p'),
                         0, "You asked for a vector-oriented operation (.part='r' or .part='c'), but "
                         "gave me a scalar-oriented function. Did you mean part=='a'?");
 
diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index aa00c42..296a18c 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -340,7 +340,7 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
                         char * const *varlist, int *var_ct){
     apop_data *all_vars_d=NULL;
     if (!varlist){
-        Apop_stopif(apop_opts.db_engine=='m', apop_return_data_error(y),
+        Apop_stopif(apop_opts.db_engine=='m', apop_return_data_error('y'),
                     0, "I need a list of the full set of variable "
                        "names sent as .varlist= (char *[]){\"var1\", \"var2\",...}");
         //use SQLite's table_info, then shift the second col to the first.
@@ -356,7 +356,7 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
         for (int i=0; i<*var_ct; i++) apop_text_set(all_vars_d, 0, i, "%s", varlist[i]);
     }
-    Apop_stopif(!all_vars_d, apop_return_data_error(y), 0, "Trouble getting/parsing the list of variables.");
+    Apop_stopif(!all_vars_d, apop_return_data_error('y'), 0, "Trouble getting/parsing the list of variables.");
     return all_vars_d;
 }
 
@@ -524,15 +524,15 @@ apop_query("update data_table set count_col = 1e-3 where count_col = 0");
 */
 APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_list, int var_ct, char * const *contrasts, int contrast_ct, char const *structural_zeros, int max_iterations, double tolerance, char const *count_col, char const *init_table, char const *init_count_col, double nudge){
     char const * apop_varad_var(margin_table, NULL);
-    Apop_stopif(!margin_table, apop_return_data_error(i), 0,  
+    Apop_stopif(!margin_table, apop_return_data_error('i'), 0,  
                         "I need the name of a table in the database that will be the data source.");
-    Apop_stopif(!apop_table_exists(margin_table), apop_return_data_error(i), 
+    Apop_stopif(!apop_table_exists(margin_table), apop_return_data_error('i'), 
                         0, "your margin_table, %s, doesn't exist in the database.", margin_table);
     char *const* apop_varad_var(var_list, NULL);
     int apop_varad_var(var_ct, 0);
     char *const * apop_varad_var(contrasts, NULL); //default to all vars?
     int apop_varad_var(contrast_ct, 0);
-    Apop_stopif(contrasts&&!contrast_ct, apop_return_data_error(i),
+    Apop_stopif(contrasts&&!contrast_ct, apop_return_data_error('i'),
             0, "you gave me a list of contrasts but not the count. "
             "This is C--I can't count them myself. Please provide the count and re-run.");
     char const * apop_varad_var(structural_zeros, NULL);
@@ -541,7 +541,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     double apop_varad_var(tolerance, 1e-5);
     char const * apop_varad_var(init_count_col, NULL);
     char const * apop_varad_var(init_table, NULL);
-    Apop_stopif(init_table && !apop_table_exists(init_table), apop_return_data_error(i),
+    Apop_stopif(init_table && !apop_table_exists(init_table), apop_return_data_error('i'),
                0, "your init_table, %s, doesn't exist in the database.", init_table);
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
@@ -565,7 +565,7 @@ APOP_VAR_ENDHEAD
         free(tab);
         Apop_stopif(setup_nonzero_contrast(margin_table, all_vars_d,  
                         run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table),
-                 apop_return_data_error(q),
+                 apop_return_data_error('q'),
                  0, "Couldn't calculate the set of nonzero cells.");
     }
 
@@ -598,11 +598,11 @@ APOP_VAR_ENDHEAD
         xprintf(&format, "m%s", format);
     apop_data *d, *contrast_grid;
     d = apop_query_to_mixed_data(format, "%s", marginq);
-    Apop_stopif(!d || d->error, apop_return_data_error(q),
+    Apop_stopif(!d || d->error, apop_return_data_error('q'),
             0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
     free(marginq);
 
-    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error(q),
+    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error('q'),
             0, "This query:\n%s\ngenerated a blank or broken table.", pre_init_q);
 
     apop_data *fit;
@@ -610,8 +610,8 @@ APOP_VAR_ENDHEAD
         fit = (nudge) 
                ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
                : apop_query_to_mixed_data(format, "%s", init_q);
-        Apop_stopif(!fit, apop_return_data_error(q), 0, "Query returned a blank table.");
-        Apop_stopif(fit->error, apop_return_data_error(q), 0, "Query error.");
+        Apop_stopif(!fit, apop_return_data_error('q'), 0, "Query returned a blank table.");
+        Apop_stopif(fit->error, apop_return_data_error('q'), 0, "Query error.");
     } else {
         fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 48852a4..0d42ac2 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -334,13 +334,13 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error(d),
+        Apop_stopif((col == -1) && d->vector, apop_return_data_error('d'),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
-        Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error(d),
+        Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error('d'),
                                 0, "You asked for the matrix element %i "
                                 "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
-    } else Apop_stopif(col >= d->textsize[1], apop_return_data_error(d),
+    } else Apop_stopif(col >= d->textsize[1], apop_return_data_error('d'),
                                 0, "You asked for the text element %i but "
                                     "the data's text element has only %zu elements.", col, d->textsize[1]);
     apop_data *fdummy;
@@ -428,15 +428,15 @@ APOP_VAR_HEAD apop_data *apop_data_to_factors(apop_data *data, char intype, int
     char apop_varad_var(intype, 't')
 APOP_VAR_ENDHEAD
     if (intype=='t'){
-        Apop_stopif(incol >= data->textsize[1], apop_return_data_error(d),
+        Apop_stopif(incol >= data->textsize[1], apop_return_data_error('d'),
                         0, "You asked for the text column %i but the "
                            "data's text has only %zu elements.", incol, data->textsize[1]);
     } else {
-        Apop_stopif((incol == -1) && !data->vector, apop_return_data_error(d),
+        Apop_stopif((incol == -1) && !data->vector, apop_return_data_error('d'),
                 0, "You asked for the vector of the data set but there is none.");
-        Apop_stopif((incol != -1) && !data->matrix, apop_return_data_error(d),
+        Apop_stopif((incol != -1) && !data->matrix, apop_return_data_error('d'),
                 0, "You asked for the matrix column %i but the matrix is NULL.", incol);
-        Apop_stopif((incol != -1) && (incol >= data->matrix->size2), apop_return_data_error(d),
+        Apop_stopif((incol != -1) && (incol >= data->matrix->size2), apop_return_data_error('d'),
                 0, "You asked for the matrix column %i but "
                             "the matrix has only %zu elements.", incol, data->matrix->size2);
     }
@@ -472,7 +472,7 @@ Also, the <tt>more</tt> element is a reference table of names and column numbers
 \exception out->error=='d'  dimension error.
 */
 apop_data *apop_text_to_factors(apop_data *d, size_t textcol, int datacol){
-    Apop_stopif(textcol >= d->textsize[1],  apop_return_data_error(d),
+    Apop_stopif(textcol >= d->textsize[1],  apop_return_data_error('d'),
                 0, "You asked for the text element %i but the data's "
                    "text has only %zu elements.", datacol, d->textsize[1]);
     if (!d->vector && datacol == -1) //allocate a vector for the user.
-- 
2.43.0


From 0dcbf68f80bd8ad873ac8e6d08368e0a2b19b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 13/48] fix: reading text files: the last line need not end in
 a newline, empty files end, and nothing is left open

---
 apop_conversions.m4.c | 79 ++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 5e13bd6..394007f 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -510,9 +510,10 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
         ci = parse_next_char(buffer, ptr, infile, delimiters);
         //comments are to end of line, so they're basically a newline.
         if (ci.type=='#' && !inqq){
-            for(int c='x'; (c!='\n' && c!=EOF); )
+            int c='x';
+            while (c!='\n' && c!=EOF)
                 c = get_next(buffer, ptr, infile);
-            ci.type='n';
+            ci.type = (c==EOF) ? 'E' : 'n';
         }
 
         //The escape-type cases: \\ and "".
@@ -564,19 +565,23 @@ static line_parse_t parse_a_line(FILE *infile, char *buffer, size_t *ptr, apop_d
 }
 
 //On return, fn has copies of the field names, and add_this_line has the first data line.
-static void get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
+//Returns the field count of that first data line (zero if there is none), and whether it ended the file.
+static line_parse_t get_field_names(int has_col_names, char **field_names, FILE *infile, char *buffer, size_t *ptr,
                                 apop_data *add_this_line, apop_data *fn, int const *field_ends, char const *delimiters){
+    line_parse_t L = { };
     if (has_col_names && field_names == NULL){
-        while (fn->textsize[0] ==0) parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
-        while (add_this_line->textsize[0] ==0) parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (!L.eof && fn->textsize[0] ==0) L=parse_a_line(infile, buffer, ptr, fn, field_ends, delimiters);
+        while (!L.eof && add_this_line->textsize[0] ==0) L=parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
     } else{
-        while (add_this_line->textsize[0] ==0) 
-            parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
+        while (!L.eof && add_this_line->textsize[0] ==0) 
+            L=parse_a_line(infile, buffer, ptr, add_this_line, field_ends, delimiters);
         fn	= apop_text_alloc(fn, add_this_line->textsize[0], 1);
         for (int i=0; i< fn->textsize[0]; i++)
             if (field_names) apop_text_set(fn, i, 0, "%s", field_names[i]);
             else             apop_text_set(fn, i, 0, "col_%i", i);
     }
+    L.ct = *add_this_line->textsize;
+    return L;
 }
 
 /** Read a delimited or fixed-wisdth text file into the matrix element of an \ref apop_data set.
@@ -615,16 +620,15 @@ APOP_VAR_ENDHEAD
     apop_data *add_this_line= apop_data_alloc();
     int row = 0,
         hasrows = (has_row_names == 'y');
-    Apop_stopif(prep_text_reading(text_file, &infile), apop_return_data_error('t'),
+    Apop_stopif(prep_text_reading(text_file, &infile), apop_data_free(add_this_line); apop_return_data_error('t'),
             0, "trouble opening %s", text_file);
 
     line_parse_t L={ };
     //First, handle the top line, if we're told that it has column names.
     if (has_col_names=='y'){
         apop_data *field_names = apop_data_alloc();
-        get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
-        L.ct = *add_this_line->textsize;
-        set = apop_data_alloc(0,1, L.ct - hasrows);
+        L = get_field_names(1, NULL, infile, buffer, &ptr, add_this_line, field_names, field_ends, delimiters);
+        set = L.ct > hasrows ? apop_data_alloc(0,1, L.ct - hasrows) : apop_data_alloc();
 	    set->names->colct = 0;
 	    set->names->col = malloc(sizeof(char*));
         for (int j=0; j< L.ct - hasrows; j++)
@@ -633,7 +637,7 @@ APOP_VAR_ENDHEAD
     } 
 
     //Now do the body.
-	while(!set || !L.eof || L.ct){
+	while(!L.eof || L.ct){
         if (!L.ct) { //skip blank lines
             L=parse_a_line(infile,buffer, &ptr,  add_this_line, field_ends, delimiters);
             continue;
@@ -642,14 +646,14 @@ APOP_VAR_ENDHEAD
         row++;
         int cols = set->matrix  ? set->matrix->size2 : L.ct - hasrows;
         set->matrix = apop_matrix_realloc(set->matrix, row, cols);
-        Apop_stopif(!set->matrix, set->error='a'; return set, 0, "allocation error.");
+        Apop_stopif(!set->matrix, set->error='a'; goto done, 0, "allocation error.");
         if (hasrows) {
             apop_name_add(set->names, *add_this_line->text[0], 'r');
-            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; return set, 1,
+            Apop_stopif(L.ct-1 > set->matrix->size2, set->error='t'; goto done, 1,
                  "row %i (not counting rownames) has %i elements (not counting the rowname), "
                  "but I thought this was a data set with %zu elements per row. "
                  "Stopping the file read; returning what I have so far.", row, L.ct-1, set->matrix->size2);
-        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; return set, 1,
+        } else Apop_stopif(L.ct > set->matrix->size2, set->error='t'; goto done, 1,
                  "row %i has %i elements, "
                  "but I thought this was a data set with %zu elements per row. "
                  "Stopping the file read; returning what I have so far. Set has_row_names?", row, L.ct, set->matrix->size2);
@@ -668,8 +672,10 @@ APOP_VAR_ENDHEAD
         if (L.eof) break;//hit when the last line has elements and is terminated by EOF.
         L=parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
 	}
+done:
     apop_data_free(add_this_line);
     if (strcmp(text_file,"-")) fclose(infile);
+    Apop_stopif(!set, apop_return_data_error('t'), 0, "%s has no data.", text_file);
 	return set;
 }
 
@@ -961,7 +967,7 @@ static int tab_create_mysql(char *tabname, int has_row_names, apop_data *field_p
     xprintf(&q, "%s %s%s%s)", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
     apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -979,7 +985,7 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
     xprintf(&q, "%s' %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
     apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), return -1, 0, "query \"%s\" failed.", q);
+    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -1065,9 +1071,9 @@ int apop_prepare_prepared_statements(char const *tabname, size_t col_ct, sqlite3
         Asprintf(&q, "INSERT INTO %s VALUES (", tabname);
         for (size_t i = 0; i < col_ct; i++)
             xprintf(&q, "%s?%c", q, i==col_ct-1 ? ')' : ',');
-        Apop_stopif(!db, return -1, 0, "The database should be open by now but isn't.");
+        Apop_stopif(!db, free(q); return -1, 0, "The database should be open by now but isn't.");
         Apop_stopif(sqlite3_prepare_v2(db, q, -1, statement, NULL) != SQLITE_OK, 
-                    return -1, apop_errorlevel, "Failure preparing prepared statement: %s", sqlite3_errmsg(db));
+                    free(q); return -1, apop_errorlevel, "Failure preparing prepared statement: %s", sqlite3_errmsg(db));
         free(q);
         return 0;
     #endif
@@ -1134,13 +1140,12 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1;
+      	 col_ct, ct = 0, rows = 1, status = -1;
     FILE *infile;
     char buffer[bs];
     size_t ptr = bs;
-    apop_data *add_this_line = apop_data_alloc();
     sqlite3_stmt *statement = NULL;
-    line_parse_t L = {1,0};
+    line_parse_t L = { };
         
     bool tab_exists = apop_table_exists(tabname);
     if (tab_exists){
@@ -1155,14 +1160,15 @@ APOP_VAR_ENDHEAD
 
     //get names and the first row.
     if (prep_text_reading(text_file, &infile)) return -1;
+    apop_data *add_this_line = apop_data_alloc();
     apop_data *fn = apop_data_alloc();
-    get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
+    L = get_field_names(has_col_names=='y', field_names, infile, buffer, &ptr,
                                     add_this_line, fn, field_ends, delimiters);
-    col_ct = L.ct = *add_this_line->textsize;
-    Apop_stopif(!col_ct, return -1, 0, "counted zero columns in the input file (%s).", tabname);
+    col_ct = L.ct;
+    Apop_stopif(!col_ct, goto done, 0, "counted zero columns in the input file (%s).", tabname);
     if (!tab_exists)
         Apop_stopif( ((apop_opts.db_engine=='m') ? tab_create_mysql : tab_create_sqlite)(tabname, has_row_names=='y', field_params, table_params, fn),
-            return -1, 0, "Creating the table in the database failed.");
+            goto done, 0, "Creating the table in the database failed.");
 #if SQLITE_VERSION_NUMBER < 3003009
     Apop_notify(1, "Apophenia was compiled using a version of SQLite from mid-2007 or earlier. "
                     "The code for reading in text files using such an old version is no longer supported, "
@@ -1171,10 +1177,10 @@ APOP_VAR_ENDHEAD
     int use_sqlite_prepared_statements = apop_use_sqlite_prepared_statements(col_ct);
     if (use_sqlite_prepared_statements)
         Apop_stopif(apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-                return -1, 0, "Trouble preparing the prepared statement for SQLite.");
+                goto done, 0, "Trouble preparing the prepared statement for SQLite.");
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
-	while(L.ct && !L.eof){
+	while(L.ct){
         line_to_insert(L, add_this_line, tabname, statement, rows);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
@@ -1182,22 +1188,25 @@ APOP_VAR_ENDHEAD
             int err = sqlite3_step(statement);
             if (err!=0 && err != 101) //0=ok, 101=done
                 Apop_notify(0, "sqlite insert query gave error code %i.\n", err);
-            Apop_assert_c(!sqlite3_reset(statement), -1, apop_errorlevel, "SQLite error.");
+            Apop_stopif(sqlite3_reset(statement), goto done, apop_errorlevel, "SQLite error.");
 #if SQLITE_VERSION_NUMBER >= 3003009
-            Apop_assert_c(!sqlite3_clear_bindings(statement), -1, apop_errorlevel, "SQLite error."); //needed for NULLs
+            Apop_stopif(sqlite3_clear_bindings(statement), goto done, apop_errorlevel, "SQLite error."); //needed for NULLs
 #endif
         }
+        if (L.eof) break;//the last line has elements and is terminated by EOF.
         do {
             L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
             rows ++;
         } while (!L.ct && !L.eof); //skip blank lines
 	}
+    status = rows;
+done:
     apop_data_free(add_this_line);
-#if SQLITE_VERSION_NUMBER >= 3003009
-	if (use_sqlite_prepared_statements){
-        Apop_assert_c(sqlite3_finalize(statement) ==SQLITE_OK, -1, apop_errorlevel, "SQLite error.");
+    apop_data_free(fn);
+    if (sqlite3_finalize(statement) != SQLITE_OK && status != -1){ //no-op for a NULL statement
+        Apop_notify(apop_errorlevel, "SQLite error.");
+        status = -1;
     }
-#endif
     if (strcmp(text_file,"-")) fclose(infile);
-	return rows;
+	return status;
 }
-- 
2.43.0


From 7155d8add4a0c85eefd7420e304588acdc1a4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 14/48] fix: apop_text_to_db reports failed insertions and
 returns the number of rows

---
 apop_conversions.m4.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 394007f..01c9620 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -1025,10 +1025,10 @@ char *prep_string_for_sqlite(int prepped_statements, char const *astring){
     return out;
 }
 
-static void line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname, 
+static int line_to_insert(line_parse_t L, apop_data const*addme, char const *tabname, 
                              sqlite3_stmt *p_stmt, int row){
-    if (!L.ct) return;
-    int field = 1;
+    if (!L.ct) return 0;
+    int field = 1, status = 0;
     char comma = ' ';
     char *q = NULL;
     if (!p_stmt) Asprintf(&q, "INSERT INTO %s VALUES (", tabname);
@@ -1039,7 +1039,7 @@ static void line_to_insert(line_parse_t L, apop_data const*addme, char const *ta
                 field++; //leave NULL and cleared
             else 
                Apop_stopif(sqlite3_bind_text(p_stmt, field++, prepped, -1, SQLITE_TRANSIENT)!=SQLITE_OK,
-                /*keep going */, 0, "Something wrong on line %i, field %i [%s].\n"
+                status = -1; /*keep going */, 0, "Something wrong on line %i, field %i [%s].\n"
                                             , row, field-1, *addme->text[col]);
         } else {
             xprintf(&q, "%s%c %s", q, comma,  (prepped && strlen(prepped) ? prepped : " NULL"));
@@ -1048,9 +1048,10 @@ static void line_to_insert(line_parse_t L, apop_data const*addme, char const *ta
         free(prepped);
     }
     if (!p_stmt){
-        apop_query("%s)",q); 
+        if (apop_query("%s)",q)) status = -1;
         free (q);
     }
+    return status;
 }
 
 int apop_use_sqlite_prepared_statements(size_t col_ct){
@@ -1140,21 +1141,22 @@ APOP_VAR_HEAD int apop_text_to_db(char const *text_file, char *tabname, int has_
     char apop_varad_var(if_table_exists, 'n')
 APOP_VAR_ENDHEAD
     int  batch_size  = 10000,
-      	 col_ct, ct = 0, rows = 1, status = -1;
+      	 col_ct, ct = 0, rows = 1, inserted = 0, status = -1;
     FILE *infile;
     char buffer[bs];
     size_t ptr = bs;
     sqlite3_stmt *statement = NULL;
     line_parse_t L = { };
         
-    bool tab_exists = apop_table_exists(tabname);
+    int tab_exists = apop_table_exists(tabname);
+    Apop_stopif(tab_exists == -1, return -1, 0, "trouble looking for table %s.", tabname);
     if (tab_exists){
         Apop_stopif(if_table_exists=='n', return -1, 0, "table %s exists; not recreating it.", tabname);
         if (if_table_exists=='d')      
-            apop_query("delete from %s", tabname);
+            Apop_stopif(apop_query("delete from %s", tabname), return -1, 0, "trouble emptying table %s.", tabname);
         else if (if_table_exists=='o') {
-            apop_query("drop table %s", tabname); 
-            tab_exists=false;
+            Apop_stopif(apop_query("drop table %s", tabname), return -1, 0, "trouble dropping table %s.", tabname);
+            tab_exists=0;
         }
     }
 
@@ -1181,7 +1183,7 @@ APOP_VAR_ENDHEAD
     //done with table & query setup.
     //convert a data line into SQL: insert into TAB values (0.3, 7, "et cetera");
 	while(L.ct){
-        line_to_insert(L, add_this_line, tabname, statement, rows);
+        Apop_stopif(line_to_insert(L, add_this_line, tabname, statement, rows), goto done, 0, "trouble inserting line %i.", rows);
         if (apop_opts.verbose > 1 && !(ct++ % batch_size)) 
             {fprintf(stderr, "."); fflush(NULL);}
         if (use_sqlite_prepared_statements){
@@ -1193,13 +1195,14 @@ APOP_VAR_ENDHEAD
             Apop_stopif(sqlite3_clear_bindings(statement), goto done, apop_errorlevel, "SQLite error."); //needed for NULLs
 #endif
         }
+        inserted++;
         if (L.eof) break;//the last line has elements and is terminated by EOF.
         do {
             L = parse_a_line(infile, buffer, &ptr, add_this_line, field_ends, delimiters);
             rows ++;
         } while (!L.ct && !L.eof); //skip blank lines
 	}
-    status = rows;
+    status = inserted;
 done:
     apop_data_free(add_this_line);
     apop_data_free(fn);
-- 
2.43.0


From fe13beb010988db07d30f26b90bb40baa3cc77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 15/48] fix: no use of a closed mySQL connection

---
 apop_db_mysql.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_db_mysql.c b/apop_db_mysql.c
index 81a4ff7..ecca316 100644
--- a/apop_db_mysql.c
+++ b/apop_db_mysql.c
@@ -26,13 +26,14 @@ static int apop_mysql_db_open(char const *in){
     Apop_stopif(!mysql_db, return 1, 0, "mysql_init() failed (probably out of memory)");
     Apop_mstopif (!mysql_real_connect (mysql_db, opt_host_name, apop_opts.db_user, apop_opts.db_pass,
                         in, opt_port_num, opt_socket_name, CLIENT_MULTI_STATEMENTS+opt_flags),
-                mysql_close (mysql_db); return 1, 
+                mysql_close (mysql_db); mysql_db = NULL; return 1, 
                 "mysql_real_connect() failed");
     return 0;
 }
 
 static void apop_mysql_db_close(int ignoreme){
     if (mysql_db) mysql_close (mysql_db);
+    mysql_db = NULL;
 }
 
 /*
-- 
2.43.0


From dbd812cc43f19c5d8b92067b999b4ad6d25d67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 16/48] fix: queries free their text and error messages on
 every exit; a failed query is not taken for data

---
 apop_db.m4.c    | 61 +++++++++++++++++++++++++++----------------------
 apop_db_mysql.c | 44 +++++++++++++++++++----------------
 2 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index fe7243f..0ac5385 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -17,8 +17,7 @@ apop_opts_type apop_opts	=
             .log_file = NULL,
             .rng_seed = 479901,            .version = m4_apop_version };
 
-#define ERRCHECK {Apop_stopif(err, return 1, 0, "%s: %s",query, err); }
-#define ERRCHECK_NR {Apop_stopif(err, return NULL, 0, "%s: %s",query, err); }
+#define ERRCHECK(retval) {Apop_stopif(err, sqlite3_free(err); return (retval), 0, "%s: %s",query, err); }
 #define ERRCHECK_SET_ERROR(outdata) {Apop_stopif(err, if (!(outdata)) (outdata)=apop_data_alloc(); (outdata)->error='q'; sqlite3_free(err); return outdata, 0, "%s: %s",query, err); }
 
 #include "apop_db_sqlite.c" // callback_t is defined here, btw.
@@ -144,9 +143,10 @@ APOP_VAR_END_HEAD
     tab_exists_t tev = { .name = name };
 	if (db==NULL) return 0;
 	sqlite3_exec(db, "select name from sqlite_master where type='table'", tab_exists_callback, &te, &err); 
-	sqlite3_exec(db, "select name from sqlite_master where type='view'", tab_exists_callback, &tev, &err); 
     char query[]="Selecting names from sqlite_master";//for ERRCHECK.
-	ERRCHECK
+	ERRCHECK(-1)
+	sqlite3_exec(db, "select name from sqlite_master where type='view'", tab_exists_callback, &tev, &err); 
+	ERRCHECK(-1)
 	if ((remove==1|| remove=='d') && (te.isthere||tev.isthere)){
         if (te.isthere)
             Asprintf(&q2, "drop table %s;", name);
@@ -154,7 +154,7 @@ APOP_VAR_END_HEAD
             Asprintf(&q2, "drop view %s;", name);
 		sqlite3_exec(db, q2, NULL, NULL, &err); 
         free(q2);
-        ERRCHECK
+        ERRCHECK(-1)
     }
 	return (te.isthere||tev.isthere);
 }
@@ -180,13 +180,12 @@ APOP_VAR_END_HEAD
         {Apop_stopif(1, return -1, 0, "Apophenia was compiled without mysql support.");}
 #endif
     else {
-        char *err, *query = "db close";//for errcheck.
+        char *err=NULL, *query = "db close";//for errcheck.
         if (vacuum==1 || vacuum=='v') {
             sqlite3_exec(db, "VACUUM", NULL, NULL, &err);
-            ERRCHECK
+            ERRCHECK(1)
         }
         sqlite3_close(db);
-    	//ERRCHECK
         db  = NULL;
     }
     return 0;
@@ -203,22 +202,22 @@ age);", tablename)</tt>.
 */
 int apop_query(const char *fmt, ...){
     char *err=NULL;
+    int status = 0;
     Fillin(query, fmt)
     if (!apop_opts.db_engine) get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
-        {Apop_stopif(!mysql_db, return 1, 0, "No mySQL database is open.");
-        return apop_mysql_query(query);}
+        status = apop_mysql_query(query);
 #else
-        Apop_stopif(1, return 1, 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, status=1, 0, "Apophenia was compiled without mysql support.");
 #endif
-    else 
-        {if (!db) apop_db_open(NULL);
+    else {
+        if (!db) apop_db_open(NULL);
         sqlite3_exec(db, query, NULL,NULL, &err);
-	    ERRCHECK
-        }
+        Apop_stopif(err, sqlite3_free(err); status=1, 0, "%s: %s", query, err);
+    }
 	free(query);
-	return 0;
+	return status;
 }
 
 /** Dump the results of a query into an array of strings.
@@ -256,7 +255,7 @@ apop_data * apop_query_to_text(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_core(query, process_result_set_chars);
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, free(query); apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
 #endif
     } else out = apop_sqlite_query_to_text(query);
     free(query);
@@ -322,9 +321,11 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     if (!apop_opts.db_engine) get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
-        return apop_mysql_query_core(query, process_result_set_data);
+        {apop_data *out = apop_mysql_query_core(query, process_result_set_data);
+        free(query);
+        return out;}
 #else
-        Apop_stopif(1, apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, free(query); apop_return_data_error('d'), 0, "Apophenia was compiled without mysql support.");
 #endif
 
     //else
@@ -332,8 +333,9 @@ apop_data * apop_query_to_data(const char * fmt, ...){
     callback_t qinfo = {.firstcall = 1, .namecol=-1};
 	if (db==NULL) apop_db_open(NULL);
     sqlite3_exec(db, query,db_to_table,&qinfo, &err); 
+    Apop_stopif(err, if (!qinfo.outdata) qinfo.outdata=apop_data_alloc(); qinfo.outdata->error='q'; sqlite3_free(err),
+            0, "%s: %s", query, err);
     free (query);
-    ERRCHECK_SET_ERROR(qinfo.outdata)
 	return qinfo.outdata;
 }
 
@@ -366,9 +368,11 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
     if (!apop_opts.db_engine) get_db_type();
     if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
-        return apop_mysql_query_core(query, process_result_set_vector);
+        {gsl_vector *outv = apop_mysql_query_core(query, process_result_set_vector);
+        free(query);
+        return outv;}
 #else
-        Apop_stopif(1, return NULL, 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, free(query); return NULL, 0, "Apophenia was compiled without mysql support.");
 #endif
     apop_data *d=NULL;
     gsl_vector *out;
@@ -376,7 +380,9 @@ gsl_vector * apop_query_to_vector(const char * fmt, ...){
     Store_settings
 	d	= apop_query_to_data("%s", query);
     Restore_settings
-    Apop_stopif(!d, return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(!d, free(query); return NULL, 2, "Query [%s] turned up a blank table. Returning NULL.", query);
+    Apop_stopif(d->error || !d->matrix, apop_data_free(d); free(query); return NULL, d->error ? 0 : 2,
+            "Query [%s] %s. Returning NULL.", query, d->error ? "failed" : "turned up no columns of data");
     //else:
     out = gsl_vector_alloc(d->matrix->size1);
 	gsl_matrix_get_col(out, d->matrix, 0);
@@ -411,7 +417,7 @@ double apop_query_to_float(const char * fmt, ...){
 #ifdef HAVE_MYSQL
         out = apop_mysql_query_to_float(query);
 #else
-        Apop_stopif(1, return NAN, 0, "Apophenia was compiled without mysql support.");
+        Apop_stopif(1, free(query); return NAN, 0, "Apophenia was compiled without mysql support.");
 #endif
     } else {
         apop_data *d=NULL;
@@ -419,9 +425,9 @@ double apop_query_to_float(const char * fmt, ...){
         Store_settings
         d = apop_query_to_data("%s", query);
         Restore_settings
-        Apop_stopif(!d, return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
-        Apop_stopif(d->error, return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
-        out	= apop_data_get(d);
+        Apop_stopif(!d, free(query); return GSL_NAN, 2, "Query [%s] turned up a blank table. Returning NaN.", query);
+        Apop_stopif(d->error, apop_data_free(d); free(query); return GSL_NAN, 0, "Query [%s] failed. Returning NaN.", query);
+        out	= d->matrix ? apop_data_get(d) : GSL_NAN;
         apop_data_free(d);
     }
     free(query);
@@ -460,6 +466,7 @@ apop_data * apop_query_to_mixed_data(const char *typelist, const char * fmt, ...
         return out;}
 #else
         {Apop_notify(0, "Apophenia was compiled without mysql support.");
+        free(query);
         return 0;}
 #endif
     //else
diff --git a/apop_db_mysql.c b/apop_db_mysql.c
index ecca316..833e65f 100644
--- a/apop_db_mysql.c
+++ b/apop_db_mysql.c
@@ -45,17 +45,18 @@ static void process_results(void){
 }
         */
 
-static double apop_mysql_query(char *query){
+static int apop_mysql_query(char *query){
+    Areweconected(1);
     Apop_mstopif(mysql_query(mysql_db, query), return 1, "apop_mysql_query failed");
     MYSQL_RES *result = mysql_store_result(mysql_db);
     if (result) mysql_free_result(result);
     return 0;
 }
 
-static double apop_mysql_table_exists(char const *table, int delme){
-    Areweconected(GSL_NAN);
+static int apop_mysql_table_exists(char const *table, int delme){
+    Areweconected(-1);
     MYSQL_RES *res_set = mysql_list_tables(mysql_db, table);
-    Apop_mstopif(!mysql_list_tables(mysql_db, table), return GSL_NAN,
+    Apop_mstopif(!res_set, return -1,
           "show tables query failed.");
     int is_found = mysql_num_rows(res_set);
     mysql_free_result(res_set);
@@ -64,7 +65,9 @@ static double apop_mysql_table_exists(char const *table, int delme){
     if (delme =='d' || delme=='D'){
        char *a_query;
        Asprintf(&a_query, "drop table %s", table);
-       Apop_mstopif(mysql_query (mysql_db, a_query), GSL_NAN, 
+       int failed = mysql_query (mysql_db, a_query);
+       free(a_query);
+       Apop_mstopif(failed, return -1,
             "table exists, but table dropping failed");
     }
     return 1;
@@ -146,7 +149,7 @@ static void * process_result_set_chars (MYSQL *conn, MYSQL_RES *res_set) {
 
     for (int i=0; (row = mysql_fetch_row (res_set)); i++){
         int passed_name = 0;
-		for (size_t jj=0; jj<total_cols; jj++){
+		for (size_t jj=0; jj<total_cols + (name_row>=0); jj++){
             if (jj==name_row){
                 apop_name_add(out->names, row[jj], 'r');
                 passed_name = 1;
@@ -155,18 +158,18 @@ static void * process_result_set_chars (MYSQL *conn, MYSQL_RES *res_set) {
             apop_text_set(out, i, jj-passed_name, "%s", (row[jj]==NULL)?  apop_opts.nan_string : row[jj]);
 		}
     }
-    check_and_clean(;)
+    check_and_clean(apop_data_free(out))
 }
 
 static void * apop_mysql_query_core(char *query, void *(*callback)(MYSQL*, MYSQL_RES*)){
-    Areweconected(NULL);
-    apop_data *output = NULL;
-    Apop_mstopif(mysql_query (mysql_db, query), return NULL, "mysql_query() failed");
+#define Return_query_error {if (callback == process_result_set_data || callback==process_result_set_chars) \
+                                apop_return_data_error('q') \
+                            else return NULL;}
+    Apop_stopif(!mysql_db, Return_query_error, 0, "No connection to a mySQL/mariadb database. apop_db_open() failure?");
+    void *output = NULL;
+    Apop_mstopif(mysql_query (mysql_db, query), Return_query_error, "mysql_query() failed");
     MYSQL_RES *res_set = mysql_store_result (mysql_db);
-    Apop_mstopif(!res_set, 
-        if (callback == process_result_set_data || callback==process_result_set_data) apop_return_data_error('q') 
-            else return NULL, 
-            "mysql_store_result() failed");
+    Apop_mstopif(!res_set, Return_query_error, "mysql_store_result() failed");
     if (!res_set->row_count) goto done; //just a blank table.
     output = callback(mysql_db, res_set);
 
@@ -181,23 +184,24 @@ static double apop_mysql_query_to_float(char *query){
           "mysql_query() failed");
     MYSQL_RES *res_set = mysql_store_result (mysql_db);
     Apop_mstopif(!res_set, return GSL_NAN, "mysql_store_result() failed");
-    if (mysql_num_rows(res_set)==0) return GSL_NAN;
+    if (mysql_num_rows(res_set)==0) {mysql_free_result(res_set); return GSL_NAN;}
     MYSQL_ROW row = mysql_fetch_row (res_set);
     Apop_mstopif(mysql_errno (mysql_db),
         mysql_free_result (res_set); return GSL_NAN,
         "mysql_fetch_row() failed");
-    double out = atof(row[0]);
+    double out = row[0] ? atof(row[0]) : GSL_NAN;
     mysql_free_result (res_set);
     return out;
 }
 
 apop_data* apop_mysql_mixed_query(char const *intypes, char const *query){
-    Areweconected(NULL);
+    Apop_stopif(!intypes, apop_return_data_error('t'), 0, "You gave me NULL for the list of input types. I can't work with that.");
+    Apop_stopif(!mysql_db, apop_return_data_error('q'), 0, "No connection to a mySQL/mariadb database. apop_db_open() failure?");
     apop_data *out = NULL;
-    Apop_mstopif(mysql_query (mysql_db, query), return NULL, "mysql_query() failed");
+    Apop_mstopif(mysql_query (mysql_db, query), apop_return_data_error('q'), "mysql_query() failed");
     MYSQL_RES *res_set = mysql_store_result(mysql_db);
     MYSQL_ROW row;
-    Apop_mstopif(!res_set, return NULL, "mysql_store_result() failed");
+    Apop_mstopif(!res_set, apop_return_data_error('q'), "mysql_store_result() failed");
     if (!res_set->row_count) goto done; //just a blank table.
 
     unsigned int total_cols = mysql_num_fields(res_set);
@@ -213,7 +217,7 @@ apop_data* apop_mysql_mixed_query(char const *intypes, char const *query){
                            info.intypes[2]);
 
     int requested = info.intypes[0]+info.intypes[1]+info.intypes[2]+info.intypes[3]+info.intypes[4];
-    int excess = requested - total_cols;
+    int excess = (int)total_cols - requested;
     Apop_stopif(excess > 0, out->error='d' /*and continue.*/, 1, 
       "you asked for %i columns in your list of types(%s), but your query produced %u columns. "
       "The remainder will be placed in the text section. Output data set's ->error element set to 'd'." , requested, intypes, total_cols);
-- 
2.43.0


From 0aedc96bad788dbb905e0498f8fbea0a0d7687c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 17/48] fix: apop_data_to_db reports failures, releases what it
 took, and keeps columns aligned

---
 apop_db.m4.c | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/apop_db.m4.c b/apop_db.m4.c
index 0ac5385..354214b 100644
--- a/apop_db.m4.c
+++ b/apop_db.m4.c
@@ -500,29 +500,36 @@ static void add_a_number (char **q, char *comma, double v){
     *comma = ',';
 }
 
-static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
+static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt, int use_row){
 #if SQLITE_VERSION_NUMBER < 3003009
      Apop_stopif(1, return -1, 0, "Attempting to use prepared statements, but using a version of SQLite that doesn't support them.");
 #else
     Get_vmsizes(set) //firstcol, msize1, maxsize
     for (size_t row=0; row < maxsize; row++){
         size_t field =1;
-        if (set->names && set->names->rowct>row){
-            if (!strlen(set->names->row[row])) field++; //leave NULL and cleared
-            Apop_stopif(sqlite3_bind_text(p_stmt, field++, set->names->row[row], -1, SQLITE_TRANSIENT),
+        //Every column has its field, even where this row has no element for it (which leaves NULL and cleared).
+        if (use_row){
+            if (set->names->rowct>row && strlen(set->names->row[row]))
+                Apop_stopif(sqlite3_bind_text(p_stmt, field, set->names->row[row], -1, SQLITE_TRANSIENT),
                     return -1, apop_errorlevel, 
                     "Something wrong with the row name for line %zu, [%s].\n" , row, set->names->row[row]);
+            field++;
         }
-        if (set->vector && set->vector->size > row)
-                Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, -1)),
+        if (set->vector){
+            if (set->vector->size > row)
+                Apop_stopif(sqlite3_bind_double(p_stmt, field, apop_data_get(set, row, -1)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the vector element on line %zu, [%g].\n" ,row,  apop_data_get(set, row, -1));
-        if (msize1 > row)
+            field++;
+        }
+        if (msize1 <= row) field += msize2;
+        else
             for (size_t col=0; col < msize2; col++)
                 Apop_stopif(sqlite3_bind_double(p_stmt, field++, apop_data_get(set, row, col)),
                     return -1, apop_errorlevel, 
                     "Something wrong with the matrix element %zu on line %zu, [%g].\n" ,col, row,  apop_data_get(set, row, col));
-        if (*set->textsize > row)
+        if (*set->textsize <= row) field += set->textsize[1];
+        else
             for (size_t col=0; col < set->textsize[1]; col++){
                 if (!strlen(set->text[row][col]) || (apop_opts.nan_string && !strcasecmp(apop_opts.nan_string, set->text[row][col])))
                     {field++; continue;} //leave NULL and cleared
@@ -540,7 +547,6 @@ static int run_prepared_statements(apop_data const *set, sqlite3_stmt *p_stmt){
         Apop_stopif(sqlite3_reset(p_stmt), return -1, apop_errorlevel, "SQLite error.");
         Apop_stopif(sqlite3_clear_bindings(p_stmt), return -1, apop_errorlevel, "SQLite error."); //needed for NULLs
     }
-    Apop_stopif(sqlite3_finalize(p_stmt)!=SQLITE_OK, return -1, apop_errorlevel, "SQLite error.");
     return 0;
 #endif
 }
@@ -553,10 +559,13 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
     char comma = ' ';
     int use_row = (apop_opts.db_name_column && strlen(apop_opts.db_name_column))  && set->names
                 && ((set->matrix && set->names->rowct == set->matrix->size1)
-                    || (set->vector && set->names->rowct == set->vector->size));
+                    || (set->vector && set->names->rowct == set->vector->size)
+                    || (*set->textsize && set->names->rowct == *set->textsize));
 
     if (!apop_opts.db_engine) get_db_type();
-    if (apop_table_exists(tabname))
+    int status = 0, tab_exists = apop_table_exists(tabname);
+    Apop_stopif(tab_exists == -1, return -1, 0, "Trouble looking for table %s.", tabname);
+    if (tab_exists)
         Asprintf(&q, " ");
     else if (apop_opts.db_engine == 'm')
 #ifdef HAVE_MYSQL
@@ -590,7 +599,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
                     qxprintf(&q, "%s%c\n %s  varchar(1000) ", q, comma, set->names->text[i]);
                 comma = ',';
             }
-            apop_query("%s); ", q);
+            status = apop_query("%s); ", q);
             sprintf(q, " ");
         }
 #else 
@@ -626,22 +635,23 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             }
             if (set->weights) qxprintf(&q, "%s%c\n \"weights\" numeric", q, comma);
             qxprintf(&q,"%s);",q);
-            apop_query("%s", q);
+            status = apop_query("%s", q);
             qxprintf(&q," ");
         }
     }
+    Apop_stopif(status, free(q); return -1, 0, "Trouble creating table %s.", tabname);
 
     Get_vmsizes(set) //firstcol, msize2, maxsize
-    int col_ct = (set->names ? !!set->names->rowct : 0) + set->textsize[1] + msize2 - firstcol + !!set->weights;
-    Apop_stopif(!col_ct, return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
+    int col_ct = use_row + set->textsize[1] + msize2 - firstcol + !!set->weights;
+    Apop_stopif(!col_ct, free(q); return -1, 0, "Input data set has zero columns of data (no rownames, text, matrix, vector, or weights). I can't create a table like that, sorry.");
     if(apop_use_sqlite_prepared_statements(col_ct)){
         sqlite3_stmt *statement;
         Apop_stopif(
             apop_prepare_prepared_statements(tabname, col_ct, &statement), 
-            return -1, 0, "Trouble preparing prepared statements.");
-        Apop_stopif(
-            run_prepared_statements(set, statement), 
-            return -1, 0, "error in insertions.");
+            free(q); return -1, 0, "Trouble preparing prepared statements.");
+        status = run_prepared_statements(set, statement, use_row);
+        if (sqlite3_finalize(statement) != SQLITE_OK) status = -1;
+        Apop_stopif(status, free(q); return -1, 0, "error in insertions.");
     } else {
         for(i=0; i< maxsize; i++){
             comma = ' ';
@@ -666,7 +676,7 @@ int apop_data_to_db(const apop_data *set, const char *tabname, const char output
             if (set->weights)
                add_a_number (&q, &comma, gsl_vector_get(set->weights,i));
             qxprintf(&q,"%s);",q);
-            apop_query("%s", q); 
+            Apop_stopif(apop_query("%s", q), free(q); return -1, 0, "error in insertions.");
             q[0]='\0';
         }
     }
-- 
2.43.0


From e55bf6b58af0de5282c5e3abc784d1ab564d4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 18/48] fix: bootstrap with NaN draws: keep the row when asked
 to, and allocate the list at the first usable draw

---
 apop_bootstrap.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_bootstrap.m4.c b/apop_bootstrap.m4.c
index 4ba3c30..0352e9c 100644
--- a/apop_bootstrap.m4.c
+++ b/apop_bootstrap.m4.c
@@ -148,15 +148,15 @@ APOP_VAR_ENDHEAD
 		//get the parameter estimates.
 		apop_model *est = apop_estimate(subset, e);
         gsl_vector *estp = apop_data_pack(est->parameters);
-        if (!gsl_isnan(apop_sum(estp))){
-            if (i==0){
+        if (ignore_nans!='y' || !gsl_isnan(apop_sum(estp))){
+            if (!array_of_boots){
                 array_of_boots	      = apop_data_alloc(iterations, estp->size);
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'v');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'c');
                 apop_name_stack(array_of_boots->names, est->parameters->names, 'c', 'r');
             }
             gsl_matrix_set_row(array_of_boots->matrix, i, estp);
-        } else if (ignore_nans=='y'){
+        } else {
             i--; 
             nan_draws++;
         }
-- 
2.43.0


From 88082addd744bb12f6017920dd35d3231e305f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 19/48] fix: transposing in place swaps the lookup hashes along
 with the names

---
 apop_data.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3dfe4ee..41b90ed 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1135,6 +1135,9 @@ APOP_VAR_ENDHEAD
             char **tmp = out->names->col;
             out->names->col = out->names->row;
             out->names->row = tmp;
+            unsigned long *tmphash = out->names->colhash;
+            out->names->colhash = out->names->rowhash;
+            out->names->rowhash = tmphash;
             int tmpct = out->names->colct;
             out->names->colct = out->names->rowct;
             out->names->rowct = tmpct;
-- 
2.43.0


From 7b4cb394ed9460e907ce04613dfb7da9986c77ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 20/48] fix: F test and ANOVA release what they took, leave the
 contrast as given, and report failed queries

---
 apop_tests.m4.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 5f99135..8f6cbcc 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -144,7 +144,7 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
     if (!contrast) contrast = apop_data_alloc(), free_data=1;
     if (!contrast->matrix) {
         int size = est->parameters->vector->size;
-        contrast->matrix= gsl_matrix_calloc(size - 1, size);
+        contrast->matrix= gsl_matrix_calloc(size - 1, size), free_matrix=1;
         for (int i=1; i< size; i++)
             apop_data_set(contrast, i-1, i, 1);
     }
@@ -152,8 +152,8 @@ APOP_VAR_HEAD apop_data * apop_f_test (apop_model *est, apop_data *contrast){
 
     apop_data *out = apop_f_test_base(est, contrast);
     if (free_data) {apop_data_free(contrast); return out;}
-    if (free_matrix) gsl_matrix_free(contrast->matrix);
-    if (free_vector) gsl_vector_free(contrast->vector);
+    if (free_matrix) gsl_matrix_free(contrast->matrix), contrast->matrix=NULL;
+    if (free_vector) gsl_vector_free(contrast->vector), contrast->vector=NULL;
     return out;
 APOP_VAR_ENDHEAD
     apop_data *out = apop_data_alloc();
@@ -185,26 +185,31 @@ APOP_VAR_ENDHEAD
         }
 
     apop_data xpxinv = (apop_data){.matrix=apop_matrix_inverse(xpx->matrix)};
+    apop_data_free(xpx);
     Apop_stopif(!xpxinv.matrix, out->error='i'; return out, 0, "inversion of X'X error");
     apop_data *qprimexpxinv = apop_dot(contrast, &xpxinv, 'm', 'm');
     apop_data *qprimexpxinvq = apop_dot(qprimexpxinv, contrast, 'm', 't');
-    Apop_stopif(qprimexpxinvq->error || qprimexpxinv->error, out->error='m'; return out, 0, "broken dot");
+    gsl_matrix_free(xpxinv.matrix);
+    apop_data_free(qprimexpxinv);
+    Apop_stopif(!qprimexpxinvq || qprimexpxinvq->error, apop_data_free(qprimexpxinvq); out->error='m'; return out, 0, "broken dot");
     apop_data qprimexpxinvqinv = (apop_data){.matrix=apop_matrix_inverse(qprimexpxinvq->matrix)};
-    Apop_stopif(!qprimexpxinvqinv.matrix, out->error='i'; return out, 0, "inversion of Q'(X'X)^{-1}Q error");
     apop_data_free(qprimexpxinvq);
-    apop_data_free(qprimexpxinv);
+    Apop_stopif(!qprimexpxinvqinv.matrix, out->error='i'; return out, 0, "inversion of Q'(X'X)^{-1}Q error");
     apop_data *qprimebeta = apop_dot(contrast, est->parameters, 'm', 'v');
-    Apop_stopif(qprimebeta->error, out->error='m'; return out, 0, "broken dot");
+    Apop_stopif(!qprimebeta || qprimebeta->error, apop_data_free(qprimebeta); gsl_matrix_free(qprimexpxinvqinv.matrix);
+            out->error='m'; return out, 0, "broken dot");
     gsl_vector_sub(qprimebeta->vector, contrast->vector);
     apop_data *qprimebetaminusc_qprimexpxinvqinv = apop_dot(&qprimexpxinvqinv, qprimebeta, .form2='v');
-    Apop_stopif(qprimebetaminusc_qprimexpxinvqinv->error, out->error='m'; return out, 0, "broken dot");
+    gsl_matrix_free(qprimexpxinvqinv.matrix);
+    Apop_stopif(qprimebetaminusc_qprimexpxinvqinv->error, apop_data_free(qprimebeta); apop_data_free(qprimebetaminusc_qprimexpxinvqinv);
+            out->error='m'; return out, 0, "broken dot");
     gsl_blas_ddot(qprimebeta->vector, qprimebetaminusc_qprimexpxinvqinv->vector, &f_stat);
-    apop_data_free(xpx);
     apop_data_free(qprimebeta);
     apop_data_free(qprimebetaminusc_qprimexpxinvqinv);
 
     apop_data *r_sq_list = apop_estimate_coefficient_of_determination (est);
     double variance = apop_data_get(r_sq_list, .rowname="sse");
+    apop_data_free(r_sq_list);
     f_stat *=  data_df / (variance * contrast_ct);
     pval    = (contrast_ct > 0 && data_df > 0) ? gsl_cdf_fdist_Q(f_stat, contrast_ct, data_df): GSL_NAN; 
 
@@ -268,13 +273,16 @@ static apop_data* apop_anova_one_way(char *table, char *data, char *grouping){
  
     //total sum of squares:
     apop_data* tss = apop_query_to_data("select var_pop(%s), count(*) from %s", data, table);
-    Apop_stopif(!tss, apop_return_data_error('q'), 0, "Query 'select var_pop(%s), count(*) from %s' returned NULL. Does that look right to you?", data, table);
+    Apop_stopif(!tss || tss->error, apop_data_free(out); apop_data_free(tss); apop_return_data_error('q'),
+            0, "Query 'select var_pop(%s), count(*) from %s' failed or returned NULL. Does that look right to you?", data, table);
     apop_data_set(out, 2, 0, apop_data_get(tss, 0, 0)*apop_data_get(tss, 0, 1)); //total sum of squares
     double total_df = apop_data_get(tss, 0, 1);
     apop_data_set(out, 2, 1, apop_data_get(tss, 0, 1)); //total df.
 
     //within group sum of squares:
     apop_data* wss = apop_query_to_data("select var_pop(%s), count(*) from %s group by %s", data,  table, grouping);
+    Apop_stopif(!wss || wss->error, apop_data_free(out); apop_data_free(tss); apop_data_free(wss); apop_return_data_error('q'),
+            0, "Query 'select var_pop(%s), count(*) from %s group by %s' failed or returned NULL. Does that look right to you?", data, table, grouping);
     double group_df = wss->matrix->size1-1;
     apop_data_set(out, 0, 0, apop_data_get(wss, 0, 0)*group_df); //within sum of squares
     apop_data_set(out, 0, 1, group_df);
@@ -313,16 +321,20 @@ APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, ch
     char *apop_varad_var(data, NULL)
     Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
     char *apop_varad_var(grouping1, NULL)
-    Apop_stopif(!data, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
+    Apop_stopif(!grouping1, return NULL, 0, "I need at least grouping1, a column in the %s table.", table);
     char *apop_varad_var(grouping2, NULL)
 APOP_VAR_ENDHEAD
     apop_data *first = apop_anova_one_way(table, data, grouping1);
     Apop_stopif(first->error, return first, 0, "Error (%c) running one-way ANOVA.", first->error);
     if (!grouping2) return first;
     apop_data *second = apop_anova_one_way(table, data, grouping2);
+    Apop_stopif(second->error, apop_data_free(first); return second, 0, "Error (%c) running one-way ANOVA.", second->error);
     char *joined = NULL;
     Asprintf(&joined, "%s, %s", grouping1, grouping2);
     apop_data *interaction = apop_anova_one_way(table, data, joined);
+    free(joined);
+    Apop_stopif(interaction->error, apop_data_free(first); apop_data_free(second); return interaction,
+                    0, "Error (%c) running the interaction ANOVA.", interaction->error);
     apop_data *out = apop_data_calloc(5, 6);
     apop_name_stack(out->names, first->names, 'c');
     apop_data_add_names(out, 'r', first->names->row[0], second->names->row[0],
@@ -356,7 +368,6 @@ APOP_VAR_ENDHEAD
     apop_data_set(out, 2, 4, gsl_cdf_fdist_P(apop_data_get(out, 2, 3), gsl_vector_get(interrow, 1), residual_df));//pval
     apop_data_set(out, 2, 5, 1- apop_data_get(out, 2, 4));//confidence
 
-    free(joined);
     apop_data_free(first);
     apop_data_free(second);
     apop_data_free(interaction);
-- 
2.43.0


From c7d609be84b95f53ba14b08dd7fa9eaa352e1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 21/48] fix: instrumental variables without instruments is OLS
 and no more; linear models release their work space

---
 model/apop_ols.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 1d032b2..075b190 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -79,8 +79,10 @@ static void prep_names (apop_model *e){
         apop_name_add(predicted->names, "Residual", 'c');
     }
 	if (e->data->names->vector) { //this is post ols shuffle.
-        if (e->parameters)
+        if (e->parameters) {
+            free(e->parameters->names->title);
             Asprintf(&e->parameters->names->title, "Regression of %s", e->data->names->vector);
+        }
         apop_name_add(e->parameters->names, "parameters", 'v');
         for(int i=0; i< e->data->names->colct; i++)
             apop_name_add(e->parameters->names, e->data->names->col[i], 'r');
@@ -102,7 +104,8 @@ static void ols_shuffle(apop_data *d){
         gsl_vector_set_all(independent, 1);     //affine; first column is ones.
         if (d->names->colct > 0) {		
             apop_name_add(d->names, d->names->col[0], 'v');
-            sprintf(d->names->col[0], "1");
+            free(d->names->col[0]);
+            d->names->col[0] = strdup("1");
         }
     }
 }
@@ -168,6 +171,7 @@ static long double ols_log_likelihood (apop_data *d, apop_model *p){
         weight = d->weights ? gsl_vector_get(d->weights, i) : 1; 
         ll += logl(gsl_ran_gaussian_pdf(gsl_vector_get(errors, i), sigma)* weight * x_prob);
     }
+    gsl_vector_free(errors);
     return ll;
 }
 
@@ -201,6 +205,8 @@ static void ols_score(apop_data *d, gsl_vector *gradient, apop_model *p){
             *gsl_vector_ptr(gradient, j) += weight * apop_data_get(d, i, j) * gsl_vector_get(normscore, 0);
 	} 
     gsl_vector_free(errors);
+    gsl_vector_free(normscore);
+    apop_data_free(subdata);
     apop_model_free(norm);
 }
 
@@ -276,7 +282,7 @@ static int ols_rng(double *out, gsl_rng *r, apop_model *m){
     Apop_stopif(!olp, return 1, 0, "no apop_lm settings group attached. Has this model been estimated yet?");
 
     gsl_vector *tempdata = gsl_vector_alloc(m->parameters->vector->size);
-    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), return 2,
+    Apop_stopif(apop_draw(tempdata->data, r, olp->input_distribution), gsl_vector_free(tempdata); return 2,
             0, "Couldn't draw from the distribution of the input data.");
     gsl_blas_ddot(tempdata, m->parameters->vector, out);
 
@@ -450,7 +456,7 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     apop_parts_wanted_settings *pwant = apop_settings_get_group(ep, apop_parts_wanted);
     if (!olp) olp = Apop_model_add_group(ep, apop_lm);
     if (!olp->instruments || !(olp->instruments->matrix || olp->instruments->vector)) 
-        apop_ols->estimate(inset, ep);
+        {apop_ols->estimate(inset, ep); return;}
     ep->data = inset;
     if (ep->parameters) apop_data_free(ep->parameters);
     ep->parameters = apop_data_alloc(inset->matrix->size2);
-- 
2.43.0


From ccfabc792e8b8f1c0db5b30a99477361c3faf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 22/48] fix: release temporaries on every exit of settings
 initialisers, text paste and linear algebra helpers

---
 apop_arms.c                      | 6 +++---
 apop_asst.m4.c                   | 2 ++
 apop_linear_algebra.m4.c         | 2 +-
 apop_regression.m4.c             | 2 +-
 apop_stats.m4.c                  | 6 ++++--
 model/apop_loess.c               | 2 +-
 model/apop_multivariate_normal.c | 4 ++--
 transform/apop_fix_params.c      | 2 +-
 8 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 0aad8e5..6f3e2d1 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -51,14 +51,14 @@ Apop_settings_init(apop_arms,
     Apop_varad_set(do_metro, 'y');
     Apop_varad_set(xprev, (out->xinit[0]+out->xinit[out->ninit-1])/2.);
     Apop_varad_set(neval, 1000);
-    Apop_assert(out->model, "the model input (e.g.: .model = parent_model) is mandatory.");
+    Apop_stopif(!out->model, free(out); return NULL, 0, "the model input (e.g.: .model = parent_model) is mandatory.");
 
   // allocate the state 
     out->state = malloc(sizeof(arms_state));
-    Apop_assert(out->state, "Malloc failed. Out of memory?");
+    Apop_stopif(!out->state, free(out); return NULL, 0, "Malloc failed. Out of memory?");
     *out->state = (arms_state) { };
     int err = initial(out, out->state);
-    Apop_assert_c(!err, NULL, 0, "init failed, error %i. Returning NULL", err);
+    Apop_stopif(err, free(out->state->p); free(out->state); free(out); return NULL, 0, "init failed, error %i. Returning NULL", err);
 
   /* finish setting up metropolis struct (can only do this after setting up env) */
     if(out->do_metro=='y'){
diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 9990dc4..fc56fef 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -120,6 +120,8 @@ APOP_VAR_ENDHEAD
         //if (oneline)  apop_tack_on(&out, oneline);
     }
     apop_tack_on(&out, oneline); //the final one never got a chance to be prior_line
+    free(oneline);
+    free(prior_line);
     apop_tack_on(&out, after);
     Apop_notify(3, "%s", out);
     return out;
diff --git a/apop_linear_algebra.m4.c b/apop_linear_algebra.m4.c
index 71dadbf..ed9d30c 100644
--- a/apop_linear_algebra.m4.c
+++ b/apop_linear_algebra.m4.c
@@ -428,8 +428,8 @@ APOP_VAR_ENDHEAD
                  (rt== CblasNoTrans) ? rm->size2:rm->size1)
         gsl_matrix *outm = gsl_matrix_calloc((lt== CblasTrans)? lm->size2: lm->size1, 
                                              (rt== CblasTrans)? rm->size1: rm->size2);
-        Check_gsl_with_out(gsl_blas_dgemm (lt,rt, 1, lm, rm, 0, outm))
         out->matrix = outm;
+        Check_gsl_with_out(gsl_blas_dgemm (lt,rt, 1, lm, rm, 0, outm))
     } else if (!uselm && userm){
         Dimcheck((size_t)1, lv->size,
                  (rt== CblasNoTrans) ? rm->size1:rm->size2,
diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 0d42ac2..639430c 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -522,10 +522,10 @@ SST, and SSR (and calculate the \f$R^2\f$s using those values).
 apop_data *apop_estimate_coefficient_of_determination (apop_model *m){
   double          sse, sst, rsq, adjustment;
   size_t          indep_ct= m->data->matrix->size2 - 1;
-  apop_data       *out    = apop_data_alloc();
     gsl_vector *weights = m->data->weights; //typically NULL.
     apop_data *expected = apop_data_get_page(m->info, "<Predicted>");
     Apop_stopif(!expected, return NULL, 0, "I couldn't find a \"<Predicted>\" page in your data set. Returning NULL.\n");
+    apop_data *out = apop_data_alloc();
     size_t obs = expected->matrix->size1;
     Apop_col_tv(expected, "residual", v)
     if (!weights)
diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..9f1e05e 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -898,7 +898,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
         
         //construct Q = pruned eigenvals
         apop_data_rm_columns(eigenvecs, mask);
-        if (!eigenvecs->matrix) break;
+        if (!eigenvecs->matrix) {apop_data_free(eigenvecs); gsl_vector_free(eigenvals); free(mask); break;}
         
         //construct D = positive eigen diagonal
         apop_data *eigendiag = apop_data_calloc(0, plussize, plussize);
@@ -959,5 +959,7 @@ double apop_matrix_to_positive_semidefinite(gsl_matrix *m){
     apop_data_free(qdq); gsl_vector_free(diag);
     apop_data_free(eigenvecs); gsl_vector_free(eigenvals);
     gsl_matrix_sub(original, m);
-    return biggest_elmt(original)/origsize;
+    double out = biggest_elmt(original)/origsize;
+    gsl_matrix_free(original);
+    return out;
 }
diff --git a/model/apop_loess.c b/model/apop_loess.c
index 8f06449..61599de 100644
--- a/model/apop_loess.c
+++ b/model/apop_loess.c
@@ -3505,7 +3505,7 @@ void matrix_to_FORTRAN(gsl_matrix *inmatrix, double *outFORTRAN, int start_col){
 #define apop_strcmp(a, b) (((a)&&(b) && !strcmp((a), (b))) || (!(a) && !(b)))
 
 Apop_settings_init(apop_loess,
-    Apop_assert(in.data, "I need a .data element to allocate apop_loess_settings.");
+    Apop_stopif(!in.data, free(out); return NULL, 0, "I need a .data element to allocate apop_loess_settings.");
     int n = in.data->matrix->size1;
 	int	max_kd = n > 200 ? n : 200;
     int p =  (in.data->vector)
diff --git a/model/apop_multivariate_normal.c b/model/apop_multivariate_normal.c
index dcbb656..76e1697 100644
--- a/model/apop_multivariate_normal.c
+++ b/model/apop_multivariate_normal.c
@@ -34,9 +34,9 @@ static long double apop_multinormal_ll(apop_data *data, apop_model * m){
     double ll = 0;
     determinant = apop_det_and_inv(m->parameters->matrix, &inverse, 1,1);
     Apop_stopif(isnan(determinant) || determinant == 0,
-        gsl_vector_free(x_minus_mu); return GSL_NEGINF, //tell maximizers to look elsewhere.
+        gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return GSL_NEGINF, //tell maximizers to look elsewhere.
          1, "the determinant of the given covariance is zero or NaN. Returning GSL_NEGINF."); 
-    Apop_stopif(determinant <= 0, return NAN, 0, "The determinant of the covariance matrix you gave me "
+    Apop_stopif(determinant <= 0, gsl_vector_free(x_minus_mu); gsl_matrix_free(inverse); return NAN, 0, "The determinant of the covariance matrix you gave me "
             "is negative, but a covariance matrix must always be positive semidefinite "
             "(and so have nonnegative determinant). Maybe run apop_matrix_to_positive_semidefinite?");
     for (i=0; i< data->matrix->size1; i++){
diff --git a/transform/apop_fix_params.c b/transform/apop_fix_params.c
index 53bbccb..c2d49d1 100644
--- a/transform/apop_fix_params.c
+++ b/transform/apop_fix_params.c
@@ -117,7 +117,7 @@ static void pack(apop_data *in, apop_model *m){
 
 //The macros generating the fixed_param_settings group's init/copy/free functions:
 Apop_settings_init(apop_fix_params, 
-    Apop_assert(in.base_model, "I can't fix a NULL model's parameters.");
+    Apop_stopif(!in.base_model, free(out); return NULL, 0, "I can't fix a NULL model's parameters.");
 )
 Apop_settings_copy(apop_fix_params, )
 Apop_settings_free(apop_fix_params, )
-- 
2.43.0


From f1985dc34ea5ced2386bd05d6118c80a02b584e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 23/48] fix: each thread gets its own generator, and shared
 tables are read under their lock

---
 apop_asst.m4.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index fc56fef..59cc94f 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -149,6 +149,7 @@ When reading the code, remember that the zeroth element holds the value for N=1,
     static int		 count	= 0;
     static long double ** precalced=NULL;
     int	old_len, i;
+    long double out;
     OMP_critical(generalized_harmonic)
     { //Due to memoization, this can't parallelize.
 	for (i=0; i< count; i++)
@@ -174,8 +175,9 @@ When reading the code, remember that the zeroth element holds the value for N=1,
 		for (int j = old_len; j<N; j++)
 			precalced[i][j] = precalced[i][j-1] + 1/pow((j+1),s);
 	}
+    out = precalced[i][N-1];
     }
-	return 	precalced[i][N-1];
+	return out;
 }
 
 /** Call \c system(), but with <tt>printf</tt>-style arguments. E.g.,
@@ -359,23 +361,20 @@ gsl_rng *apop_rng_get_thread_base(int thread){
     static gsl_rng **rngs;
     static int rng_ct = -1;
 
-    if (thread==-1){
-        #ifdef OpenMP
-            thread = omp_get_thread_num();
-        #else
-            thread = 0;
-        #endif
-    }
+    if (thread==-1) thread = omp_threadnum;
 
+    gsl_rng *out;
     OMP_critical(rng_get_thread)
-    if (thread > rng_ct)
-        {
+    {
+        if (thread > rng_ct) {
             rngs = realloc(rngs, sizeof(gsl_rng*)*(thread+1));
             for (int i=rng_ct+1; i<= thread; i++)
                 rngs[i] = apop_rng_alloc(++apop_opts.rng_seed);
             rng_ct = thread;
         }
-    return rngs[thread];
+        out = rngs[thread];
+    }
+    return out;
 }
 
 /** Make a set of random draws from a model and write them to an \ref apop_data set.
-- 
2.43.0


From 65f0a99adc3f8bbc7c34a4fff113abd6df532670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 24/48] fix: apop_rake releases its work space, drops its
 temporary table and reports failed queries on every exit

---
 apop_rake.m4.c | 111 ++++++++++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 296a18c..5bace88 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -1,6 +1,9 @@
 //#define __USE_POSIX //for strtok_r
 #include "apop_internal.h"
 #include <stdbool.h>
+#ifdef _OPENMP
+    #include <omp.h>
+#endif
 #include <gsl/gsl_sort_vector.h>
 void xprintf(char **q, char *format, ...); //in apop_conversions.c
 
@@ -62,6 +65,17 @@ int index_add_node(mnode_t **mnodes, size_t dim, size_t row, double val, bool is
     return 0;
 }
 
+void index_free(mnode_t **in){
+	for (int i=0; in[i]; i++){
+		for (int j=0; !isinf(in[i][j].val); j++){
+			free(in[i][j].margin_ptrs);
+			free(in[i][j].fit_ptrs);
+        }
+        free(in[i]);
+	}
+    free(in);
+}
+
 mnode_t **index_generate(apop_data const *in, apop_data const *in2){
     size_t margin_ct = in->matrix->size2;
     size_t margin_rows = in->matrix->size1;
@@ -83,7 +97,7 @@ mnode_t **index_generate(apop_data const *in, apop_data const *in2){
     //put data from the matrix into the right pigeonhole
     for(size_t i=0; i < margin_ct; i++){
         for(size_t j=0; j < in->matrix->size1; j++)
-            Apop_stopif(index_add_node(mnodes, i, j, apop_data_get(in, j, i), true) == -1, return mnodes,
+            Apop_stopif(index_add_node(mnodes, i, j, apop_data_get(in, j, i), true) == -1, index_free(mnodes); return NULL,
             0, "I can't find a value, %g, that should've already been inserted.", apop_data_get(in, j, i));
         for(size_t j=0; j < in2->matrix->size1; j++) //these values may not be present, in which case ignore them.
             index_add_node(mnodes, i, j, apop_data_get(in2, j, i), false);
@@ -91,17 +105,6 @@ mnode_t **index_generate(apop_data const *in, apop_data const *in2){
     return mnodes;
 }
 
-void index_free(mnode_t **in){
-	for (int i=0; in[i]; i++){
-		for (int j=0; !isinf(in[i][j].val); j++){
-			free(in[i][j].margin_ptrs);
-			free(in[i][j].fit_ptrs);
-        }
-        free(in[i]);
-	}
-    free(in);
-}
-
 /* The next two functions are a recursive iteration over all combinations of values
 for a given index (which may be the whole thing or a margin). index_foreach does the
 initialization of some state variables; value_loop does the odometer-like recursion. At
@@ -181,7 +184,7 @@ static void rakeinfo_grow(rake_t *r){
 
 static void rakeinfo_free(rake_t r){
     #define free_and_clear(in) free(in), (in) = NULL
-    for (int i=0; i < r.ct; i++)
+    for (size_t i=0; i < r.ct; i++)
         free_and_clear(r.elmtlist[i]);
     free_and_clear(r.index); //these are just pointers to the main index.
     free_and_clear(r.elmtlist_sizes);
@@ -289,6 +292,7 @@ Re: the contrast array: Each _column_ is a contrast. Put a one in each col
 static void c_loglin(const apop_data *config, const apop_data *indata, 
                         apop_data *fit, double tolerance, int maxit) {
     mnode_t ** index = index_generate(indata, fit);
+    Apop_stopif(!index, fit->error='v'; return, 0, "Couldn't index the margins.");
 
     /* Make a preliminary adjustment to obtain the fit to an empty configuration list */
     //fit->weights is either all 1 (for synthetic data) or the initial counts from the db.
@@ -344,13 +348,17 @@ apop_data *get_var_list(char const *margin_table, char const *count_col, char co
                     0, "I need a list of the full set of variable "
                        "names sent as .varlist= (char *[]){\"var1\", \"var2\",...}");
         //use SQLite's table_info, then shift the second col to the first.
-        all_vars_d = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        apop_data *info = apop_query_to_text("PRAGMA table_info(%s)", margin_table);
+        Apop_stopif(!info || info->error, apop_data_free(info); apop_return_data_error('y'),
+                    0, "Trouble getting the list of variables in %s.", margin_table);
         int ctr=0;
-        for (int i=0; i< all_vars_d->textsize[0]; i++)
-            if (all_vars_d->text[i][1] && (count_col ? strcmp(all_vars_d->text[i][1], count_col) : 1)
-                 && (init_count_col ? strcmp(all_vars_d->text[i][1], init_count_col): 1))
-                    apop_text_set(all_vars_d, 0, ctr++, "%s", all_vars_d->text[i][1]);
+        all_vars_d = apop_text_alloc(NULL, 1, info->textsize[0]);
+        for (int i=0; i< info->textsize[0]; i++)
+            if (info->text[i][1] && (count_col ? strcmp(info->text[i][1], count_col) : 1)
+                 && (init_count_col ? strcmp(info->text[i][1], init_count_col): 1))
+                    apop_text_set(all_vars_d, 0, ctr++, "%s", info->text[i][1]);
         apop_text_alloc(all_vars_d, 1, ctr);
+        apop_data_free(info);
         *var_ct = ctr;
     } else {
         all_vars_d = apop_text_alloc(NULL, 1, *var_ct); 
@@ -395,18 +403,21 @@ static int setup_nonzero_contrast(char const *margin_table,
               apop_data const * allvars, int run_number,
               char const *list_of_fields, apop_data *const* contras, int contrast_ct,
               double nudge, char const * structural_zeros, bool have_init_table){
-    char *q;
+    char *q, *fields = apop_text_paste(allvars, .between=",");
     bool used[allvars->textsize[1]];
     memset(used, 0, sizeof(bool)*allvars->textsize[1]);
 	Asprintf(&q, "create table apop_zerocontrasts_%i as select %s, %g from\n", 
-            run_number, apop_text_paste(allvars, .between=","), nudge);
+            run_number, fields, nudge);
+    free(fields);
     for (int i=0; i < contrast_ct; i++){
+        fields = apop_text_paste(contras[i], .between=",");
         xprintf(&q, "%s%s (select distinct %s  from %s) \n", 
                   q, i>0 ? "natural join" : "", 
-                  apop_text_paste(contras[i], .between=","),  margin_table);
+                  fields,  margin_table);
+        free(fields);
         for (int j=0; j<*contras[i]->textsize; j++){
             int val=find_in_allvars(*contras[i]->text[j], allvars);
-            Apop_stopif(val==-1, return -1, 0, "Error setting up contrasts");
+            Apop_stopif(val==-1, free(q); return -1, 0, "Error setting up contrasts");
             used[val]=true; 
         }
     } 
@@ -420,7 +431,7 @@ static int setup_nonzero_contrast(char const *margin_table,
         //Keep out margins with values for now; join them in below.
         xprintf(&q, "%s except\nselect %s, %g from %s", q, list_of_fields, nudge, margin_table);
     }
-	Apop_stopif(apop_query("%s", q), return 1, 0, "query failed.");
+	Apop_stopif(apop_query("%s", q), free(q); return 1, 0, "query failed.");
     free(q);
     return 0;
 }
@@ -546,7 +557,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
 APOP_VAR_ENDHEAD
-    #ifdef OpenMP
+    #ifdef _OPENMP
         int run_number = omp_get_thread_num();
     #else
         int run_number = 0;
@@ -554,9 +565,11 @@ APOP_VAR_ENDHEAD
 
 	apop_data **contras = generate_list_of_contrasts(contrasts, contrast_ct);
     apop_data *all_vars_d = get_var_list(margin_table, count_col, init_count_col, var_list, &var_ct);
-    Apop_stopif(all_vars_d->error, return all_vars_d, 0, "Trouble setting up the list of variables.");
-    int tt = all_vars_d->textsize[0]; all_vars_d->textsize[0] = 1; //mask all but the first row
-    char *list_of_fields = apop_text_paste(all_vars_d, .between=", ");
+    apop_data *d=NULL, *fit=NULL, *contrast_grid=NULL;
+    char *list_of_fields=NULL, *init_q=NULL, *marginq=NULL, *format=NULL, *initt=NULL, *cc;
+    char error='\0';
+    Apop_stopif(all_vars_d->error, error=all_vars_d->error; goto done, 0, "Trouble setting up the list of variables.");
+    list_of_fields = apop_text_paste(all_vars_d, .between=", ");
 
     if (nudge || !init_table){
         char *tab;
@@ -565,18 +578,17 @@ APOP_VAR_ENDHEAD
         free(tab);
         Apop_stopif(setup_nonzero_contrast(margin_table, all_vars_d,  
                         run_number, list_of_fields, contras, contrast_ct, (nudge ? nudge : 1), structural_zeros, init_table),
-                 apop_return_data_error('q'),
+                 error='q'; goto done,
                  0, "Couldn't calculate the set of nonzero cells.");
     }
 
-    char *initt=NULL; //handle structural zeros via subquery
+    //handle structural zeros via subquery
     //note that margin data may have invalid rows.
     if (init_table){
         if (structural_zeros) 
              Asprintf(&initt, "(select * from %s where not (%s))", init_table, structural_zeros);
         else Asprintf(&initt, "%s", init_table);
     }
-    char *init_q, *pre_init_q = NULL;
     if (init_table){
         char *countstr;
         if (init_count_col) Asprintf(&countstr, "sum(%s) as %s", init_count_col, init_count_col);
@@ -586,37 +598,31 @@ APOP_VAR_ENDHEAD
         free(countstr);
     }
 
-    char *marginq, *cc; 
     if (count_col) Asprintf(&cc, "sum(%s)", count_col);
     else           cc = strdup("count(*)");
     Asprintf(&marginq, "select %s, %s  from %s\ngroup by %s", 
                        list_of_fields, cc, margin_table, list_of_fields);
-    free(cc); free(initt);
+    free(cc);
 
-    char *format=strdup("w");
+    format=strdup("w");
     for (int i =0 ; i< var_ct; i++)
         xprintf(&format, "m%s", format);
-    apop_data *d, *contrast_grid;
     d = apop_query_to_mixed_data(format, "%s", marginq);
-    Apop_stopif(!d || d->error, apop_return_data_error('q'),
+    Apop_stopif(!d || d->error, error='q'; goto done,
             0, "This query:\n%s\ngenerated a blank or broken table.", marginq);
-    free(marginq);
 
-    if (pre_init_q) Apop_stopif(apop_query("%s", pre_init_q), apop_return_data_error('q'),
-            0, "This query:\n%s\ngenerated a blank or broken table.", pre_init_q);
-
-    apop_data *fit;
     if (init_table) {
         fit = (nudge) 
                ? apop_query_to_mixed_data(format, "%s\nunion\nselect * from apop_zerocontrasts_%i ", init_q, run_number)
                : apop_query_to_mixed_data(format, "%s", init_q);
-        Apop_stopif(!fit, apop_return_data_error('q'), 0, "Query returned a blank table.");
-        Apop_stopif(fit->error, apop_return_data_error('q'), 0, "Query error.");
+        Apop_stopif(!fit, error='q'; goto done, 0, "Query returned a blank table.");
+        Apop_stopif(fit->error, error='q'; goto done, 0, "Query error.");
     } else {
         fit = apop_query_to_mixed_data(format, "select * from apop_zerocontrasts_%i ", run_number);
+        Apop_stopif(!fit, error='q'; goto done, 0, "Query returned a blank table.");
+        Apop_stopif(fit->error, error='q'; goto done, 0, "Query error.");
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
     }
-    free(format);
     apop_vector_apply(fit->weights, nan_to_zero);
     if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge);
 
@@ -625,15 +631,18 @@ APOP_VAR_ENDHEAD
 		for (int j=0; j< contras[i]->textsize[0]; j++)
 			apop_data_set(contrast_grid, get_var_index(*all_vars_d->text, all_vars_d->textsize[1], contras[i]->text[j][0]), i, 1);
 	
-    if (!init_table || nudge)
-        for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
-
     c_loglin(contrast_grid, d, fit, tolerance, max_iterations);
+done:
+    if (!init_table || nudge) apop_query("drop table if exists apop_zerocontrasts_%i", run_number);
+    for (int i=0; i< contrast_ct; i++) apop_data_free(contras[i]);
+    free(contras);
     apop_data_free(d);
-    
-    all_vars_d->textsize[0] = tt;
     apop_data_free(all_vars_d);
-    if (!init_table || nudge) apop_query("drop table apop_zerocontrasts_%i", run_number);
-	apop_data_free(contrast_grid);
-	return fit;
+    apop_data_free(contrast_grid);
+    free(list_of_fields); free(init_q); free(marginq); free(format); free(initt);
+    if (error) {
+        apop_data_free(fit);
+        apop_return_data_error(error);
+    }
+    return fit;
 }
-- 
2.43.0


From 540be5020d12033440cc04c85da65be429af038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 25/48] fix: dummies in place: no use of freed names, no write
 past the column list, NULL parts refused

---
 apop_regression.m4.c | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/apop_regression.m4.c b/apop_regression.m4.c
index 639430c..6c65076 100644
--- a/apop_regression.m4.c
+++ b/apop_regression.m4.c
@@ -226,8 +226,10 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
                 index = elmt_ctr++;
                 (*factor_list)->vector = apop_vector_realloc((*factor_list)->vector, elmt_ctr);
                 gsl_vector_set((*factor_list)->vector, index, val);
-                out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, elmt_ctr);
-                gsl_vector_set_zero(Apop_cv(out, index));
+                if (dummyfactor == 'd'){
+                    out->matrix = apop_matrix_realloc(out->matrix, out->matrix->size1, out->matrix->size2+1);
+                    gsl_vector_set_zero(Apop_cv(out, out->matrix->size2-1));
+                }
             }
         } else {
             size_t posn = (size_t)bsearch(&(d->text[i][col]), *telmts->text, elmt_ctr, sizeof(char**), strcmpwrap);
@@ -260,13 +262,15 @@ static apop_data * dummies_and_factors_core(apop_data *d, int col, char type,
     if (dummyfactor == 'd'){
         char *basename = apop_get_factor_basename(d, col, type);
         for (size_t i = (keep_first!='n') ? 0 : 1; i< elmt_ctr; i++){
-            char n[1000];
             if (type =='d'){
-                sprintf(n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
+                char *n;
+                Asprintf(&n, "%s dummy %g", basename, gsl_vector_get(delmts,i));
+                apop_name_add(out->names, n, 'c');
+                free(n);
             } else
-                sprintf(n, "%s", telmts->text[0][i]);
-            apop_name_add(out->names, n, 'c');
+                apop_name_add(out->names, telmts->text[0][i], 'c');
         }
+        free(basename);
     }
     apop_data_free(telmts);
     return out;
@@ -334,9 +338,12 @@ APOP_VAR_HEAD apop_data * apop_data_to_dummies(apop_data *d, int col, char type,
     if (remove =='y' && type == 't') Apop_notify(1, "Remove isn't implemented for text source columns yet.");
 APOP_VAR_ENDHEAD
     if (type == 'd'){
-        Apop_stopif((col == -1) && d->vector, apop_return_data_error('d'),
+        Apop_stopif((col == -1) && !d->vector, apop_return_data_error('d'),
                                 0, "You asked for the vector element "
                                 "(col==-1) but the data's vector element is NULL.");
+        Apop_stopif((col != -1) && !d->matrix, apop_return_data_error('d'),
+                                0, "You asked for the matrix element %i "
+                                "but the data's matrix element is NULL.", col);
         Apop_stopif((col != -1) && (col >= d->matrix->size2), apop_return_data_error('d'),
                                 0, "You asked for the matrix element %i "
                                 "but the data's matrix element has only %zu columns.", col, d->matrix->size2);
@@ -346,31 +353,38 @@ APOP_VAR_ENDHEAD
     apop_data *fdummy;
     apop_data *dummies= dummies_and_factors_core(d, col, type, keep_first, 0, 'd', &fdummy);
     //Now process the append and remove options.
-    size_t orig_size = d->matrix ? d->matrix->size1 : 0;
-    int rm_list[orig_size+1];
-    memset (rm_list, 0, (orig_size+1)*sizeof(int)); 
-    if (append =='i'){
-        apop_data **split = apop_data_split(d, col+1, 'c');
+    if (append =='i' && type!='t'){
+        apop_data **split = apop_data_split(d, col+1, 'c'); //either may be NULL
         //stack names, then matrices
         for (int i=0; i < d->names->colct; i++)
             free(d->names->col[i]);
-        apop_name_stack(d->names, split[0]->names, 'c');
-        for (int k = d->names->colct; k < (split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
+        d->names->colct = 0;
+        if (split[0]) apop_name_stack(d->names, split[0]->names, 'c');
+        for (int k = d->names->colct; k < (split[0] && split[0]->matrix ? split[0]->matrix->size2 : 0); k++)
             apop_name_add(d->names, "", 'c'); //pad so the name stacking is aligned (if needed)
         apop_name_stack(d->names, dummies->names, 'c');
-        apop_name_stack(d->names, split[1]->names, 'c');
+        if (split[1]) apop_name_stack(d->names, split[1]->names, 'c');
         gsl_matrix_free(d->matrix);
-        d->matrix = apop_matrix_stack(split[0]->matrix, dummies->matrix, 'c');
+        d->matrix = apop_matrix_stack(split[0] ? split[0]->matrix : NULL, dummies->matrix, 'c');
+        if (split[1] && split[1]->matrix)
+            d->matrix = apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
         apop_data_free(dummies);
         apop_data_free(split[0]);
-        apop_matrix_stack(d->matrix, split[1]->matrix, 'c', .inplace='y');
         apop_data_free(split[1]);
-        return d;
+        free(split);
     }
     if (remove!='n' && type!='t'){
-        rm_list[col]=1;
-        apop_data_rm_columns(d, rm_list);
+        if (col == -1){
+            gsl_vector_free(d->vector);
+            d->vector = NULL;
+        } else {
+            int rm_list[d->matrix->size2];
+            memset (rm_list, 0, d->matrix->size2*sizeof(int)); 
+            rm_list[col]=1;
+            apop_data_rm_columns(d, rm_list);
+        }
     }
+    if (append =='i' && type!='t') return d;
     if (append =='y' || append == 'e' || append ==1 || (append=='i' && type=='t')){
         d = apop_data_stack(d, dummies, 'c', .inplace='y');
         apop_data_free(dummies);
-- 
2.43.0


From 5afab822ceeaa0f31e3cbaaf4f838fa66e7bf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 26/48] fix: kernel draws, MCMC steps and instrumental
 variables release their work space

---
 apop_mcmc.m4.c       |  1 +
 model/apop_kerneld.c |  4 ++--
 model/apop_ols.c     | 10 ++++++----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/apop_mcmc.m4.c b/apop_mcmc.m4.c
index 54b461a..ce44f1e 100644
--- a/apop_mcmc.m4.c
+++ b/apop_mcmc.m4.c
@@ -135,6 +135,7 @@ static void one_step(apop_data *d, gsl_vector *draw, apop_model *m, apop_mcmc_se
         apop_data_unpack(draw, m->parameters); //keep the last success in m->parameters.
     }
     if (out_row>=0) gsl_vector_memcpy(Apop_rv(out, out_row), draw);
+    gsl_vector_free(clean_copy);
 }
 
 
diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index f3c8d1b..bb582a6 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -146,11 +146,11 @@ static int kernel_draw(double *d, gsl_rng *r, apop_model *m){
     apop_kernel_density_settings *ks = apop_settings_get_group(m, apop_kernel_density);
     apop_model *pmf = apop_settings_get(m, apop_kernel_density, base_pmf);
     apop_data *point = apop_data_alloc(1, pmf->dsize);
-    Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
+    Apop_stopif(apop_draw(Apop_rv(point, 0)->data, r, pmf), apop_data_free(point); return 1, 0, "Unable to use the PMF over kernels to select a kernel from which to draw.");
     (ks->set_fn)(point, ks->kernel);
+    apop_data_free(point);
     //Now draw from the distribution around that point.
     Apop_stopif(apop_draw(d, r, ks->kernel), return 2, 0, "unable to draw from a single selected kernel.");
-    apop_data_free(point);
     return 0;
 }
 
diff --git a/model/apop_ols.c b/model/apop_ols.c
index 075b190..bcff915 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -517,10 +517,12 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     }
     */
 
-    apop_data_free(zpx);// apop_data_free(zpxinv);
-    apop_data_free(zpy);
-
-    if (!olp->destroy_data) apop_data_free(set);
+    apop_data_free(z);
+    apop_data_free(zpz_xpzinv);
+    if (set != inset) {
+        apop_data_free(set);
+        gsl_vector_free(weights);
+    }
 }
 
 apop_model *apop_iv = &(apop_model){.name="instrumental variables", .vsize = -1, .dsize=-1,
-- 
2.43.0


From c7c648fdb835a45f6e1dcd422420bf711a763a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 27/48] fix: values a function sets up on first use are
 per-thread, not raced for

---
 apop_internal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_internal.h b/apop_internal.h
index 9993889..f071f7c 100644
--- a/apop_internal.h
+++ b/apop_internal.h
@@ -15,8 +15,8 @@
     int maxsize = GSL_MAX(vsize, GSL_MAX(msize1, d?d->textsize[0]:0));\
     (void)(tsize||wsize||firstcol||maxsize) /*prevent unused variable complaints */;
 
-// Define a static variable, and initialize on first use.
-#define Staticdef(type, name, def) static type (name) = NULL; if (!(name)) (name) = (def);
+// Define a static variable, one per thread, and initialize on first use.
+#define Staticdef(type, name, def) static threadlocal type (name) = NULL; if (!(name)) (name) = (def);
 
 // Check for NULL and complain if so.
 #define Nullcheck(in, errval) Apop_assert_c(in, errval, apop_errorlevel, "%s is NULL.", #in);
-- 
2.43.0


From 98b65585782a7afceb7875448dc999115515381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 28/48] fix: a logit draw uses the odds of its own X, sets the
 choice drawn, and releases its work space

---
 model/apop_probit.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/model/apop_probit.c b/model/apop_probit.c
index 8cddb54..d098a62 100644
--- a/model/apop_probit.c
+++ b/model/apop_probit.c
@@ -320,13 +320,16 @@ static int logit_rng(double *out, gsl_rng *r, apop_model *m){
     xbeta_w_numeraire->weights = xbeta_w_numeraire->vector;
     xbeta_w_numeraire->vector = NULL;
 
-    Staticdef(apop_model*, a_pmf, apop_model_copy(apop_pmf))
-    a_pmf->dsize = 0; //so draws produce a row number
+    apop_model *a_pmf = apop_model_copy(apop_pmf); //a new CDF for every X
+    a_pmf->dsize = 0;
     a_pmf->data = xbeta_w_numeraire;
-    Apop_stopif(apop_draw(out, r, a_pmf), return 1, 
-                        0, "Couldn't draw from a PMF populated using X'β.");
-    if (m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
+    Apop_model_add_group(a_pmf, apop_pmf, .draw_index='y'); //so draws produce a row number
+    int draw_failed = apop_draw(out, r, a_pmf);
+    if (!draw_failed && m->dsize>1) memcpy(out+1, x->vector->data, datasize *sizeof(double));
+    apop_model_free(a_pmf);
+    apop_data_free(xbeta_w_numeraire);
     apop_data_free(x);
+    Apop_stopif(draw_failed, return 1, 0, "Couldn't draw from a PMF populated using X'β.");
     return 0;
 }
 
-- 
2.43.0


From 3d67d9f55301c6a5e1b9bfc04e54f65d545dda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 29/48] fix: names: a copy has a title only if the original has
 one; the title is released with the rest

---
 apop_model.m4.c | 3 +--
 apop_name.m4.c  | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index ad03cd3..bdb7b70 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -32,8 +32,7 @@ apop_model * apop_model_clear(apop_data * data, apop_model *model){
     if (!model->parameters && (vsize || msize1*msize2)) 
         model->parameters = apop_data_alloc(vsize, msize1, msize2);
     if (!model->info) model->info = apop_data_alloc();
-    if (model->info->names->title && !strlen(model->info->names->title))
-        free(model->info->names->title);
+    free(model->info->names->title);
     Asprintf(&model->info->names->title, "<Info>");
     if (!model->data) model->data = data;
 	return model;
diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..2656ffd 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -130,7 +130,8 @@ void  apop_name_free(apop_name * free_me){
 	for (size_t i=0; i < free_me->colct; i++)  free(free_me->col[i]);
 	for (size_t i=0; i < free_me->textct; i++) free(free_me->text[i]);
 	for (size_t i=0; i < free_me->rowct; i++)  free(free_me->row[i]);
-    if (free_me->vector) free(free_me->vector);
+    free(free_me->vector);
+    free(free_me->title);
 	free(free_me->col);  free(free_me->colhash);
 	free(free_me->text); free(free_me->texthash);
 	free(free_me->row);  free(free_me->rowhash);
@@ -193,7 +194,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in->title) {Asprintf(&out->title, "%s", in->title);}
     return out;
 }
 
-- 
2.43.0


From e0143a5e3988fe8f4f0d51fccfddd9f2251b5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 30/48] fix: apop_data_memcpy checks the text grid before
 copying it; no overflow reshaping text; removed pages are freed whole

---
 apop_data.m4.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 41b90ed..a1e2cda 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -170,6 +170,14 @@ char apop_data_free_base(apop_data *freeme){
     return 0;
 }
 
+//Put a copy of the name in a slot of a name list. Both ends may be views of the same list.
+static void replace_name(char **slot, char const *name){
+    if (*slot && !strcmp(*slot, name)) return;
+    char *old = *slot;
+    Asprintf(slot, "%s", name);
+    free(old);
+}
+
 /** Copy one \ref apop_data structure to another.
 
 This function does not allocate the output structure or the vector, matrix, text,
@@ -231,20 +239,21 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        //If out is a view, then its title and vector name belong to the data set it is a view of.
+        if (in->names->title && (!out->names->title || strcmp(out->names->title, in->names->title)))
+            {Asprintf(&out->names->title, "%s", in->names->title);}
+        if (out->names->vector && in->names->vector && strcmp(out->names->vector, in->names->vector))
+            {Asprintf(&out->names->vector, "%s", in->names->vector);}
         for (int i=0; i< in->names->rowct; i++)
-            if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
+            if (i< out->names->rowct) replace_name(out->names->row+i, in->names->row[i]);
             else  apop_name_add(out->names, in->names->row[i], 'r');
         for (int i=0; i< in->names->colct; i++)
-            if (i< out->names->colct) {Asprintf(out->names->col+i, "%s", in->names->col[i]);}
+            if (i< out->names->colct) replace_name(out->names->col+i, in->names->col[i]);
             else  apop_name_add(out->names, in->names->col[i], 'c');
         for (int i=0; i< in->names->textct; i++)
-            if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
+            if (i< out->names->textct) replace_name(out->names->text+i, in->names->text[i]);
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
@@ -1059,7 +1068,7 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
             Apop_stopif(!in->text, in->error='a'; return in,
                             0, "realloc failed setting up %zu rows. Probably out of memory.", row);
             for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
+                in->text[i] = malloc(sizeof(char*) * cols_now); //the columns are resized below.
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
                 for (int j=0; j < cols_now; j++)
@@ -1365,7 +1374,8 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title
+                            || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
@@ -1374,7 +1384,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From 7d93c8db456e697ee42c8014a98e106aee422645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 31/48] fix: leaks on early exits of restart, cross, lognormal,
 IV and Fisher; a cross of one model is that model

---
 apop_fexact.c          | 2 +-
 apop_mle.m4.c          | 2 +-
 model/apop_normal.c    | 2 +-
 model/apop_ols.c       | 7 ++++---
 transform/apop_cross.c | 4 ++--
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/apop_fexact.c b/apop_fexact.c
index 3e218c8..1b91d20 100644
--- a/apop_fexact.c
+++ b/apop_fexact.c
@@ -188,7 +188,7 @@ static void fexact(int *nrow, int *ncol, int *table, int *ldtabl,
 
     iwkpt = 0;
 
-    Apop_stopif(*nrow > *ldtabl, has_error=true; return, 0, "NROW must be less than or equal to LDTABL.");
+    Apop_stopif(*nrow > *ldtabl, has_error=true; free(equiv); return, 0, "NROW must be less than or equal to LDTABL.");
 
     ntot = 0;
     for (i = 0; i < *nrow; ++i) {
diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index b5c20bb..1f47695 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -736,7 +736,7 @@ APOP_VAR_ENDHEAD
         prm->starting_pt = malloc(sizeof(double)*v->size);
         memcpy(prm->starting_pt, v->data, sizeof(double)*v->size);
     }
-    Apop_stopif(!apop_vector_bounded(v, boundary), gsl_vector_free(v); return e, 
+    Apop_stopif(!apop_vector_bounded(v, boundary), gsl_vector_free(v); apop_model_free(copy); return e, 
                 0, "Your model has diverged (element(s) > %g);"
                    " returning your original model without restarting.", boundary);
     gsl_vector_free(v);
diff --git a/model/apop_normal.c b/model/apop_normal.c
index 54e4297..32feaf1 100644
--- a/model/apop_normal.c
+++ b/model/apop_normal.c
@@ -183,7 +183,7 @@ static long double lognormal_log_likelihood(apop_data *d, apop_model *params){
 /* \adoc estimated_info   Reports <tt>log likelihood</tt>. */
 static void lognormal_estimate(apop_data * data, apop_model *est){
     apop_data *cp = apop_data_copy(data);
-    Apop_stopif(!cp->matrix && !cp->vector, est->error='d'; return, 
+    Apop_stopif(!cp->matrix && !cp->vector, est->error='d'; apop_data_free(cp); return, 
             0, "Neither matrix nor vector in the input data.");
     Get_vmsizes(cp); //vsize, msize1
 
diff --git a/model/apop_ols.c b/model/apop_ols.c
index bcff915..2560a9b 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -441,11 +441,11 @@ static apop_data *prep_z(apop_data *x, apop_data *instruments){
     else if (instruments->names->colct)
         for (int i=0; i< instruments->names->colct; i++){
             int colnumber = apop_name_find(x->names, instruments->names->col[i], 'c');
-            Apop_assert(colnumber != -2, "You asked me to substitute instrument column %i "
+            Apop_stopif(colnumber == -2, apop_data_free(out); return NULL, 0, "You asked me to substitute instrument column %i "
                     "for the data column named %s, but I could find no such name.",  i, instruments->names->col[i]);
             gsl_vector_memcpy(Apop_cv(out, colnumber), Apop_cv(instruments, i));
         }
-    else Apop_assert(0, "Your instrument matrix has data, but neither a vector element "
+    else Apop_stopif(1, apop_data_free(out); return NULL, 0, "Your instrument matrix has data, but neither a vector element "
                        "nor column names indicating what columns in the original data should be replaced.");
     return out;
 }
@@ -460,8 +460,9 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     ep->data = inset;
     if (ep->parameters) apop_data_free(ep->parameters);
     ep->parameters = apop_data_alloc(inset->matrix->size2);
-    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
     apop_data *z = prep_z(inset, olp->instruments);
+    Apop_stopif(!z, ep->error='d'; return, 0, "I couldn't put the instruments in place of the data columns.");
+    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
     
     gsl_vector *weights = olp->destroy_data      //the weights may be NULL.
                              ? ep->data->weights 
diff --git a/transform/apop_cross.c b/transform/apop_cross.c
index 9bcaeed..e3d5ce8 100644
--- a/transform/apop_cross.c
+++ b/transform/apop_cross.c
@@ -141,9 +141,9 @@ apop_model *apop_cross = &(apop_model){"Cross product of models", .p=cross_p, .l
 
 apop_model *apop_model_cross_base(apop_model *mlist[]){
     apop_model_print_vtable_add(cross_print, apop_cross);
-    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='i', 
+    Apop_stopif(!mlist[0], apop_model *oute = apop_model_copy(apop_cross); oute->error='n'; return oute,
                             0, "No inputs. Returning blank model with outmodel->error=='n'.");
-    Apop_stopif(!mlist[1], return apop_model_copy(mlist[1]), 2, "Only one model input; returning a copy of that model.");
+    Apop_stopif(!mlist[1], return apop_model_copy(mlist[0]), 2, "Only one model input; returning a copy of that model.");
     apop_model *m2 = mlist[2] ? apop_model_cross_base(mlist+1): mlist[1];
     apop_model *out = apop_model_copy(apop_cross);
     Apop_model_add_group(out, apop_cross, .model1=mlist[0], .model2=m2);
-- 
2.43.0


From c18d30ccd5d842b6a7001a5f64ebc83e424f6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 32/48] fix: the mixture log likelihood releases its table of
 log likelihoods

---
 transform/apop_mixture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index 663ed6b..b500e84 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -272,6 +272,7 @@ But I have logs, and want to stay in log-format for as long as possible, to prev
         Apop_col_v(lls, i, onecol);
         gsl_vector_set(ms->next_weights, i, apop_sum(onecol)/lls->matrix->size1);
     }
+    apop_data_free(lls);
     return total_ll;
 }
 
-- 
2.43.0


From 27f260fa802932dba3b3ffa3fd25cdb71a2808b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 33/48] fix: mixed queries: no reading past the type list, text
 cells start empty, nothing leaked on a dimension error

---
 apop_db_sqlite.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ee25ea2..be5fbbc 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -249,12 +249,13 @@ static void count_types(apop_qt *in, const char *intypes){
         Apop_notify(1, "You asked apop_query_to_mixed for multiple weighting vectors. I'll ignore all but the last one.");
 }
 
+extern char *apop_nul_string;
+
 static int multiquery_callback(void *instruct, int argc, char **argv, char **column){
     apop_qt *in = instruct;
     char c;
     int thistcol    = 0, 
         thismcol    = 0,
-        colct       = 0,
         i, addnames = 0;
     in->thisrow ++;
     if (!in->d) {
@@ -275,10 +276,12 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
         in->d->textsize[0]         = in->thisrow;
         in->d->text                = realloc(in->d->text, sizeof(char ***)*in->thisrow);
         in->d->text[in->thisrow-1] = malloc(sizeof(char**) * in->d->textsize[1]);
+        for (size_t j=0; j< in->d->textsize[1]; j++)
+            in->d->text[in->thisrow-1][j] = apop_nul_string;
     }
     if (in->intypes[2])
         apop_matrix_realloc(in->d->matrix, in->thisrow, in->intypes[2]);
-    for (i=in->current=0; i< argc; i++){
+    for (i=in->current=0; i< argc && in->instring[in->current]; i++){
         c   = in->instring[in->current++];
         if (c=='n'||c=='N'){
             apop_name_add(in->d->names, (argv[i]? argv[i] : "NaN")  , 'r'); 
@@ -305,12 +308,11 @@ static int multiquery_callback(void *instruct, int argc, char **argv, char **col
             gsl_vector_set(in->d->weights, in->thisrow-1, 
                                     argv[i] ? atof(argv[i]) : GSL_NAN);
         }
-        colct++;
     }
     int requested = in->intypes[0]+in->intypes[1]+in->intypes[2]+in->intypes[3]+in->intypes[4];
-      Apop_stopif(colct != requested, in->error_thrown='d'; return 1, 1, 
+      Apop_stopif(argc != requested, in->error_thrown='d'; return 1, 1, 
       "you asked for %i columns in your list of types(%s), but your query produced %u columns. "
-      "The remainder will be placed in the text section. Output data set's ->error element set to 'd'." , requested, in->instring, colct);
+      "The remainder will be placed in the text section. Output data set's ->error element set to 'd'." , requested, in->instring, argc);
     return 0;
 }
 
@@ -322,7 +324,7 @@ apop_data *apop_sqlite_multiquery(const char *intypes, char *query){
     count_types(&info, intypes);
 	if (!db) apop_db_open(NULL);
     sqlite3_exec(db, query, multiquery_callback, &info, &err); 
-    Apop_stopif(info.error_thrown, if (!info.d) apop_data_alloc(); info.d->error='d'; return info.d,
+    Apop_stopif(info.error_thrown, if (!info.d) info.d = apop_data_alloc(); info.d->error='d'; sqlite3_free(err); return info.d,
             0, "dimension error");
     ERRCHECK_SET_ERROR(info.d)
 	return info.d;
-- 
2.43.0


From bd4307e77e6a9f6ea09d4c45f00d1e38d0a7a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 34/48] fix: trouble looking a table up is not the same as
 finding it

---
 apop_conversions.m4.c | 8 ++++----
 apop_rake.m4.c        | 4 ++--
 apop_tests.m4.c       | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 01c9620..1b21577 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -966,8 +966,8 @@ static int tab_create_mysql(char *tabname, int has_row_names, apop_data *field_p
     }
     xprintf(&q, "%s %s%s%s)", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
-    apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
+    int failed = apop_query("%s", q);
+    Apop_stopif(failed || apop_table_exists(tabname) != 1, free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
@@ -984,8 +984,8 @@ static int tab_create_sqlite(char *tabname, int has_row_names, apop_data *field_
     }
     xprintf(&q, "%s' %s%s%s);", q, get_field_conditions(*fn->text[fn->textsize[0]-1], field_params)
                                 , table_params? ", ": "", XN(table_params));
-    apop_query("%s", q);
-    Apop_stopif(!apop_table_exists(tabname), free(q); return -1, 0, "query \"%s\" failed.", q);
+    int failed = apop_query("%s", q);
+    Apop_stopif(failed || apop_table_exists(tabname) != 1, free(q); return -1, 0, "query \"%s\" failed.", q);
     free(q);
     return 0;
 }
diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index 5bace88..ffe81ba 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -537,7 +537,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     char const * apop_varad_var(margin_table, NULL);
     Apop_stopif(!margin_table, apop_return_data_error('i'), 0,  
                         "I need the name of a table in the database that will be the data source.");
-    Apop_stopif(!apop_table_exists(margin_table), apop_return_data_error('i'), 
+    Apop_stopif(apop_table_exists(margin_table) < 1, apop_return_data_error('i'), 
                         0, "your margin_table, %s, doesn't exist in the database.", margin_table);
     char *const* apop_varad_var(var_list, NULL);
     int apop_varad_var(var_ct, 0);
@@ -552,7 +552,7 @@ APOP_VAR_HEAD apop_data * apop_rake(char const *margin_table, char * const*var_l
     double apop_varad_var(tolerance, 1e-5);
     char const * apop_varad_var(init_count_col, NULL);
     char const * apop_varad_var(init_table, NULL);
-    Apop_stopif(init_table && !apop_table_exists(init_table), apop_return_data_error('i'),
+    Apop_stopif(init_table && apop_table_exists(init_table) < 1, apop_return_data_error('i'),
                0, "your init_table, %s, doesn't exist in the database.", init_table);
     if (init_count_col && !init_table) init_table = margin_table;
     double apop_varad_var(nudge, 0);
diff --git a/apop_tests.m4.c b/apop_tests.m4.c
index 8f6cbcc..e0f8817 100644
--- a/apop_tests.m4.c
+++ b/apop_tests.m4.c
@@ -317,7 +317,7 @@ APOP_VAR_HEAD apop_data* apop_anova(char *table, char *data, char *grouping1, ch
     char *apop_varad_var(table, NULL)
     Apop_stopif(!table, return NULL, 0, "I need the name of a table in the SQL database.");
     if (!strchr(table, <|')'|>)) //if you found ()s, then it is a temp table spec.
-        Apop_stopif(!apop_table_exists(table), return NULL, 0, "I couldn't find the table %s in the database.", table);
+        Apop_stopif(apop_table_exists(table) < 1, return NULL, 0, "I couldn't find the table %s in the database.", table);
     char *apop_varad_var(data, NULL)
     Apop_stopif(!data, return NULL, 0, "I need the name of the column in the %s table with the count or other data.", table);
     char *apop_varad_var(grouping1, NULL)
-- 
2.43.0


From ea10c2fe8b3767673715c1da238761d95f950a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 35/48] fix: the constraint of a component model, and the free
 function of a settings group, may be missing

---
 apop_settings.c          | 3 ++-
 apop_update.m4.c         | 2 +-
 transform/apop_mixture.c | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/apop_settings.c b/apop_settings.c
index a671d89..62b7a05 100644
--- a/apop_settings.c
+++ b/apop_settings.c
@@ -31,7 +31,8 @@ void apop_settings_remove_group(apop_model *m, char *delme){
  
     while (m->settings[i].name[0] !='\0'){
         if (m->settings[i].name_hash == delme_hash){
-            ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
+            if (m->settings[i].free)
+                ((void (*)(void*))m->settings[i].free)(m->settings[i].setting_group);
             for (int j=i+1; j< ct+1; j++) //don't forget the null sentinel.
                 m->settings[j-1] = m->settings[j];
             i--;
diff --git a/apop_update.m4.c b/apop_update.m4.c
index edf0617..a6cdd96 100644
--- a/apop_update.m4.c
+++ b/apop_update.m4.c
@@ -33,7 +33,7 @@ static long double product_constraint(apop_data *data, apop_model *m){
     gsl_vector *v = apop_data_pack(m->parameters);
     apop_data_unpack(v, pl[1]->parameters);
     gsl_vector_free(v);
-    return pl[1]->constraint(data, pl[1]);
+    return pl[1]->constraint ? pl[1]->constraint(data, pl[1]) : 0;
 }
 
 apop_model *product = &(apop_model){"product of two models", 
diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index b500e84..bbb2c2d 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -306,7 +306,7 @@ static long double mixture_constraint(apop_data *data, apop_model *model_in){
     unpack(model_in);
     //check all component models.
     for (apop_model **m = ms->model_list; *m; m++)
-        penalty += (*m)->constraint(data, *m);
+        if ((*m)->constraint) penalty += (*m)->constraint(data, *m);
     if (penalty){
         int posn=0, i=0;
         for (apop_model **m = ms->model_list; *m; m++){
-- 
2.43.0


From 138fdffbe6085c7c5bbb09d42f3829a3048164c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 36/48] fix: release what apop_cdf and apop_rake pack or map
 for themselves on every path

---
 apop_model.m4.c | 2 +-
 apop_rake.m4.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_model.m4.c b/apop_model.m4.c
index bdb7b70..529f6d4 100644
--- a/apop_model.m4.c
+++ b/apop_model.m4.c
@@ -529,7 +529,6 @@ double apop_cdf(apop_data *d, apop_model *m){
     if (!cs) cs = Apop_model_add_group(m, apop_cdf);
     long int tally = 0; 
     
-    gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
     if (!cs->draws_made){
         if (m->dsize == -1) apop_prep(d, m);
         Apop_stopif(m->dsize==0, return GSL_NAN, 0, "I need to make random draws from your model, but it has dsize==0. Returning NaN");
@@ -537,6 +536,7 @@ double apop_cdf(apop_data *d, apop_model *m){
         for (int i=0; i< cs->draws; i++)
             apop_draw((Apop_mrv(cs->draws_made, i))->data, cs->rng, m);
     }
+    gsl_vector *ref = apop_data_pack(Apop_r(d, 0));
     for (int i=0; i< cs->draws_made->size1; i++)
         tally += lte(Apop_mrv(cs->draws_made, i), ref);
     gsl_vector_free(ref);
diff --git a/apop_rake.m4.c b/apop_rake.m4.c
index ffe81ba..5bbcd19 100644
--- a/apop_rake.m4.c
+++ b/apop_rake.m4.c
@@ -624,7 +624,7 @@ APOP_VAR_ENDHEAD
         gsl_vector_set_all(fit->weights, nudge ? nudge : 1);
     }
     apop_vector_apply(fit->weights, nan_to_zero);
-    if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge);
+    if (nudge) apop_map(fit, .fn_rp=nudge_zeros, .param=&nudge, .inplace='v');
 
     contrast_grid = apop_data_calloc(var_ct, contrast_ct);
 	for (int i=0; i< contrast_ct; i++)
-- 
2.43.0


From 1ce281b1a5076877d4d3ce1846fa3d3417f8ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 37/48] fix: apop_map with inplace='v' and all_pages='y' wrote
 to the output set it does not have

---
 apop_mapply.m4.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index de65790..a48929b 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -210,8 +210,10 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
-        Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
+        apop_data *more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (!out) return more; //inplace=='v'; nothing to return unless there was an error.
+        out->more = more;
+        Apop_stopif(out->more && out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
 }
-- 
2.43.0


From 492b2b5d4448a39b36d99cb1e110c61570b1aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 38/48] fix: dimension cycling left the model's starting point
 on released memory

---
 apop_mle.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_mle.m4.c b/apop_mle.m4.c
index 1f47695..af74c3f 100644
--- a/apop_mle.m4.c
+++ b/apop_mle.m4.c
@@ -542,6 +542,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
     double tol = mp->dim_cycle_tolerance;
     int betasize = info.beta->size;
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, 0);//so sub-estimations won't use this function.
+    double *starting_pt = mp->starting_pt;
     gsl_vector *paramv = apop_data_pack(est->parameters);
     apop_model *full_est = NULL; //an alias
     do {
@@ -568,6 +569,7 @@ static void dim_cycle(apop_data *d, apop_model *est, infostruct info){
         Apop_settings_add(est, apop_mle, starting_pt, paramv->data);
     } while (fabs(this_ll - last_ll) > tol);
     Apop_settings_set(est, apop_mle, dim_cycle_tolerance, tol);
+    Apop_settings_set(est, apop_mle, starting_pt, starting_pt); //paramv is about to go.
     gsl_vector_free(paramv);
 }
 
-- 
2.43.0


From 4bc251f1d6c803d1f585349efb6591ca233ccf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 39/48] fix: apop_map by columns put the names on its input
 instead of its output

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index a48929b..ad3f8d0 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -177,7 +177,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From 73969b30cde1f574a934f23f23505f936daf8b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:31 +0000
Subject: [PATCH 40/48] fix: least squares with destroy_data set to 'n'
 overwrote the data set

---
 model/apop_ols.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/apop_ols.c b/model/apop_ols.c
index 2560a9b..f393d00 100644
--- a/model/apop_ols.c
+++ b/model/apop_ols.c
@@ -319,9 +319,10 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     if (!olp) 
         olp = Apop_model_add_group(ep, apop_lm);
     ep->data = inset;
-    set = olp->destroy_data ? inset : apop_data_copy(inset); 
+    int destroy_data = olp->destroy_data && olp->destroy_data != 'n';
+    set = destroy_data ? inset : apop_data_copy(inset); 
     
-    gsl_vector *weights = olp->destroy_data      //this may be NULL.
+    gsl_vector *weights = destroy_data      //this may be NULL.
                            ? ep->data->weights 
                            : apop_vector_copy(ep->data->weights);
     if (weights)
@@ -352,7 +353,7 @@ static void apop_estimate_OLS(apop_data *inset, apop_model *ep){
     apop_data_stack(ep->info, r_sq, .inplace='y');
 
     apop_data_free(r_sq);
-    if (!olp->destroy_data){
+    if (!destroy_data){
         if (weights) gsl_vector_free(weights);
         apop_data_free(set);
     }
@@ -462,9 +463,10 @@ static void apop_estimate_IV(apop_data *inset, apop_model *ep){
     ep->parameters = apop_data_alloc(inset->matrix->size2);
     apop_data *z = prep_z(inset, olp->instruments);
     Apop_stopif(!z, ep->error='d'; return, 0, "I couldn't put the instruments in place of the data columns.");
-    apop_data *set = olp->destroy_data ? inset : apop_data_copy(inset); 
+    int destroy_data = olp->destroy_data && olp->destroy_data != 'n';
+    apop_data *set = destroy_data ? inset : apop_data_copy(inset); 
     
-    gsl_vector *weights = olp->destroy_data      //the weights may be NULL.
+    gsl_vector *weights = destroy_data      //the weights may be NULL.
                              ? ep->data->weights 
                              : apop_vector_copy(ep->data->weights);
     if (weights)
-- 
2.43.0


From 0d873e50e9f09f9bccfd60b142f29a4543a8fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:31 +0000
Subject: [PATCH 41/48] fix: apop_data_stack left the first set without its
 pages when the copy failed

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a1e2cda..5b0b29e 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -376,8 +376,8 @@ APOP_VAR_ENDHEAD
         apop_data *m = m1->more; //not following the more pointer.
         m1->more =NULL;
         out = apop_data_copy(m1);
-        Apop_stopif(out->error, return out, 0, "initial copy failed; leaving.");
         m1->more = m;
+        Apop_stopif(out->error, return out, 0, "initial copy failed; leaving.");
     }
     Get_vmsizes(m1); //original sizes of vsize, msize1, msize2.
     if (m2->names && !out->names) out->names = apop_name_alloc();
-- 
2.43.0


From 570db08cd9f2fcbf7be7bdedc49d8bfe47ddcf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:19 +0000
Subject: [PATCH 42/48] fix: a copy of a model with apop_arms settings shared
 the original's envelope, freed by both

---
 apop_arms.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/apop_arms.c b/apop_arms.c
index 6f3e2d1..1d35805 100644
--- a/apop_arms.c
+++ b/apop_arms.c
@@ -25,8 +25,18 @@ void display(FILE *f, arms_state *env, apop_arms_settings *);
 int initial (apop_arms_settings* params, arms_state *state);
 
 Apop_settings_copy(apop_arms,
-    out->state = malloc(sizeof(arms_state));
-    *out->state = *in->state;
+    if (in->state){
+        out->state = malloc(sizeof(arms_state));
+        *out->state = *in->state;
+        out->state->convex = &out->convex;
+        //the points of the envelope link to each other; give the copy its own set.
+        out->state->p = malloc(in->state->npoint*sizeof(POINT));
+        for (int i=0; i< in->state->cpoint; i++){
+            out->state->p[i] = in->state->p[i];
+            if (in->state->p[i].pl) out->state->p[i].pl = out->state->p + (in->state->p[i].pl - in->state->p);
+            if (in->state->p[i].pr) out->state->p[i].pr = out->state->p + (in->state->p[i].pr - in->state->p);
+        }
+    }
 )
 
 Apop_settings_free(apop_arms,
@@ -89,6 +99,7 @@ http://www.amsta.leeds.ac.uk/~wally.gilks/adaptive.rejection/web_page/Welcome.ht
 int apop_arms_draw (double *out, gsl_rng *r, apop_model *m){
     apop_arms_settings *params = Apop_settings_get_group(m, apop_arms);
     if (!params) params = Apop_model_add_group(m, apop_arms, .model=m);
+    params->model = m; //in a copy of a model, this may still be the original.
   POINT pwork;        /* a working point, not yet incorporated in envelope */
   int msamp=0;        /* the number of x-values currently sampled */
   arms_state *state = params->state; 
-- 
2.43.0


From 82326100c958ae93ffba8603233024565fe27b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 43/48] fix: copies of a constrained model shared the vector of
 last parameters, released while in use

---
 transform/apop_dconstrain.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/transform/apop_dconstrain.c b/transform/apop_dconstrain.c
index ff3b9e5..0916faa 100644
--- a/transform/apop_dconstrain.c
+++ b/transform/apop_dconstrain.c
@@ -59,9 +59,11 @@ Apop_settings_init(apop_dconstrain,
     if (!in.scaling) out->scaling = get_scaling;
 )
 
-Apop_settings_copy(apop_dconstrain, in->refct++;)
-Apop_settings_free(apop_dconstrain, in->refct--;
-        if(!in->refct) gsl_vector_free(in->last_params);
+Apop_settings_copy(apop_dconstrain,
+        if (in->last_params) out->last_params = apop_vector_copy(in->last_params);
+)
+Apop_settings_free(apop_dconstrain,
+        if (in->last_params) gsl_vector_free(in->last_params);
 )
 
 static void dc_prep(apop_data *d, apop_model *m){
-- 
2.43.0


From 38cbfb987256c11766f555448e93dca95f79e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 44/48] fix: a copied kernel density estimate was left on
 released memory when the original was freed

---
 model/apop_kerneld.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/apop_kerneld.c b/model/apop_kerneld.c
index bb582a6..75b053a 100644
--- a/model/apop_kerneld.c
+++ b/model/apop_kerneld.c
@@ -65,8 +65,8 @@ Apop_settings_init(apop_kernel_density,
 )
 
 Apop_settings_copy(apop_kernel_density,
-    out->own_pmf    =
-    out->own_kernel = 0;
+    if (in->own_pmf)    out->base_pmf = apop_model_copy(in->base_pmf);
+    if (in->own_kernel) out->kernel = apop_model_copy(in->kernel);
 )
 
 Apop_settings_free(apop_kernel_density,
-- 
2.43.0


From 35ab5dbebb4a8fcf58aa444cd782e5fc659c0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 45/48] fix: copies of a mixture shared the list of parameter
 counts, which each of them released

---
 transform/apop_mixture.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/apop_mixture.c b/transform/apop_mixture.c
index bbb2c2d..30dea7c 100644
--- a/transform/apop_mixture.c
+++ b/transform/apop_mixture.c
@@ -98,6 +98,10 @@ This example begins with a fixed mixture distribution, and makes assertions abou
 
 Apop_settings_copy(apop_mixture,
     (*out->cmf_refct)++;
+    if (in->param_sizes){
+        out->param_sizes = malloc(sizeof(int)*in->model_count);
+        memcpy(out->param_sizes, in->param_sizes, sizeof(int)*in->model_count);
+    }
     out->next_weights = apop_vector_copy(in->next_weights);
 )
 
-- 
2.43.0


From 238a5584b162489f6d684b0d5f83238120ff11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 46/48] fix: stack and split data sets without a names element

---
 apop_data.m4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 5b0b29e..87208b5 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -391,7 +391,7 @@ APOP_VAR_ENDHEAD
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            if (m2->names && m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
         }
     }
 
@@ -434,7 +434,7 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
+        int min = !m1->names ? 0 : posn =='r' ? m1->names->rowct : m1->names->colct;
         int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
             apop_name_add(out->names, "", posn); 
@@ -587,7 +587,7 @@ allocation:
     if (set_w2) out[1]->weights  = apop_vector_copy(&w2);
     if (namev0 && out[0]) apop_name_stack(out[0]->names, in->names, 'v');
     if (namev1 && out[1]) apop_name_stack(out[1]->names, in->names, 'v');
-    if (namersplit >=0)
+    if (namersplit >=0 && in->names)
         for (int k=0; k< in->names->rowct; k++){
             int which = (k >= namersplit);
             assert(out[which]);
@@ -597,7 +597,7 @@ allocation:
         if (namer0 && out[0]) apop_name_stack(out[0]->names, in->names, 'r');
         if (namer1 && out[1]) apop_name_stack(out[1]->names, in->names, 'r');
     }
-    if (namecsplit >=0)
+    if (namecsplit >=0 && in->names)
         for (int k=0; k< in->names->colct; k++){
             int which = (k >= namecsplit);
             assert(out[which]);
-- 
2.43.0


From acd239226c30c7b32650da953913a05e09305688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 47/48] fix: sort data sets without a names element

---
 apop_sort.m4.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_sort.m4.c b/apop_sort.m4.c
index 4486e23..3675038 100644
--- a/apop_sort.m4.c
+++ b/apop_sort.m4.c
@@ -31,7 +31,7 @@ static double find_smallest_larger_than(apop_data const *sort_order, double *x){
         candidate_val = v;
         candidate_col = -2;
     }
-    if (sort_order->names->rowct)
+    if (sort_order->names && sort_order->names->rowct)
         if (apop_opts.nan_string && strcmp(*sort_order->names->row, apop_opts.nan_string)
                 && (v=atof(*sort_order->names->row)) > *x && v < candidate_val){
             candidate_val = v;
@@ -55,7 +55,7 @@ static void generate_sort_order(apop_data const *data, apop_data const *sort_ord
         if (data->matrix) for(int i=0; i<data->matrix->size2; i++) so[ctr++] = i;
         if (*data->textsize) for(int i=0; i< data->textsize[1]; i++) so[ctr++] = i+0.5;
         if (data->weights) so[ctr++] = -2;
-        if (data->names->rowct) so[ctr++] = 0.2;
+        if (data->names && data->names->rowct) so[ctr++] = 0.2;
     }
     so[cols_to_sort_ct-1] = -100;
 }
@@ -153,7 +153,7 @@ APOP_VAR_ENDHEAD
 
     apop_data *xx = sort_order ? sort_order : out;
     Get_vmsizes(xx); //firstcol, msize2
-    int cols_to_sort_ct = msize2 - firstcol +1 + !!(xx->weights) + xx->textsize[1] + !!xx->names->rowct;
+    int cols_to_sort_ct = msize2 - firstcol +1 + !!(xx->weights) + xx->textsize[1] + (xx->names && xx->names->rowct);
     double so[cols_to_sort_ct];
     if (!col_order){
         generate_sort_order(out, sort_order, cols_to_sort_ct, so);
-- 
2.43.0


From af632eb15ec5294b5f0def617e283879411ffe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 48/48] fix: crosstab_to_db without names: no crash, room for
 the names made up

---
 apop_conversions.m4.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 1b21577..0358e9b 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -196,17 +196,18 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
     char *colname, *rowname;
     Get_vmsizes(in); //msize1, msize2
     int maxcol= GSL_MAX(msize2, in->textsize[1]);
-    char sparerow[msize1 > 0 ? (int)log10(msize1)+1 : 0];
-    char sparecol[maxcol > 0 ? (int)log10(maxcol)+1 : 0];
+    int maxrow= GSL_MAX(msize1, in->textsize[0]);
+    char sparerow[(maxrow > 0 ? (int)log10(maxrow)+1 : 0) + 2]; //the digits, the prefix, and the closing '\0'
+    char sparecol[(maxcol > 0 ? (int)log10(maxcol)+1 : 0) + 2];
 #define DbType apop_opts.db_engine=='m' ? "text" : "character"
 #define DbType2 apop_opts.db_engine=='m' ? "double" : "numeric"
 	apop_query("CREATE TABLE %s (%s %s, %s %s, %s %s)", tabname, 
                         row_col_name, DbType, col_col_name, DbType, data_col_name, DbType2);
 	apop_query("begin");
     for (int i=0; i< msize1; i++){
-        rowname = (n->rowct > i) ?  n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
+        rowname = (n && n->rowct > i) ?  n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
         for (int j=0; j< msize2; j++){
-            colname = (n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
+            colname = (n && n->colct > j) ? n->col[j] : (sprintf(sparecol, "c%i", j), sparecol);
             double x = gsl_matrix_get(in->matrix, i, j); 
             if (!isnan(x)) apop_query("INSERT INTO %s VALUES ('%s', '%s', %g)", 
                                                 tabname, rowname, colname, x);
@@ -215,9 +216,9 @@ void apop_crosstab_to_db(apop_data *in,  char *tabname, char *row_col_name,
         }
     }
     for (int i=0; i< in->textsize[0]; i++){
-        rowname = (n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
+        rowname = (n && n->rowct > i) ? n->row[i] : (sprintf(sparerow, "r%i", i), sparerow);
         for (int j=0; j< in->textsize[1]; j++){
-            colname = (n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
+            colname = (n && n->textct > j) ? n->text[j] : (sprintf(sparecol, "t%i", j), sparecol);
             apop_query("INSERT INTO %s VALUES ('%s', '%s', '%s')", tabname, 
                 rowname, colname, in->text[i][j]);
         }
-- 
2.43.0

