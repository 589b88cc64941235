From a7e8ccf1cbf0fc9423923fb58353ea7b3e1050fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 1/9] fix: report the iteration limit when a re-solve runs out
 of iterations

QP_SOLVE compared the accumulated IterationCount with maxit, so a second solve
on the same object that hit the limit kept the stale exit flag of the first
solve (possibly QP_OPTIMAL).
---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..739a60f 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx >= myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From 3ecba695db86d1edabda898b7ef053a8e58f6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 2/9] fix: assemble the -I diagonal for inequality rows without
 entries

The -1 diagonal entry of an inequality column of the KKT matrix was appended
inside the loop over the entries of the row of G, so a row of G without
nonzeros got no diagonal entry and later updates overwrote an entry of the
previous column.
---
 src/Auxilary.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..b90a016 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -41,13 +41,10 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt)
 			kkt->ir[kkt_nnz] = Gt->ir[j];
 			kkt->pr[kkt_nnz] = Gt->pr[j];
 			kkt_nnz++;
-			if (j == Gt->jc[i + 1] - 1)
-			{
-				kkt->ir[kkt_nnz] = P->n + i;
-				kkt->pr[kkt_nnz] = -1.0;
-				kkt_nnz++;
-			}
 		}
+		kkt->ir[kkt_nnz] = P->n + i;
+		kkt->pr[kkt_nnz] = -1.0;
+		kkt_nnz++;
 		kkt->jc[i + 1 + P->n] = kkt_nnz;
 	}
 }
@@ -123,13 +120,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +162,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 83f1e4705b04fd8df35d5a09cca22fa9d29c6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 3/9] fix: bound the identity permutation by the solver's own
 dimensions

When the ordering fails the identity permutation was written for n+m+p entries
with the caller's p, although the permutation is allocated without equality
rows when A or b is missing.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 739a60f..d8661e7 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From 2aff3db6d6b86d3440babca51a15931cbf2f8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 4/9] fix: initialise every statistic and the equality-only
 pointers in both setups

---
 src/qpSWIFT.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index d8661e7..bbcc656 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,14 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
+	myQP->stats->tsolve = 0.0;
+	myQP->stats->kkt_time = 0.0;
+	myQP->stats->resolve_kkt = 0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -101,6 +109,9 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 		myQP->A = NULL;
 		myQP->At = NULL;
 		myQP->b = NULL;
+		myQP->y = NULL;
+		myQP->ry = NULL;
+		myQP->delta_y = NULL;
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
@@ -282,6 +293,14 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
+	myQP->stats->tsolve = 0.0;
+	myQP->stats->kkt_time = 0.0;
+	myQP->stats->resolve_kkt = 0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -309,6 +328,9 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 		myQP->A = NULL;
 		myQP->At = NULL;
 		myQP->b = NULL;
+		myQP->y = NULL;
+		myQP->ry = NULL;
+		myQP->delta_y = NULL;
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
-- 
2.43.0


From f486058a273a1775f9ca7b08c32f14dcebd13855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 5/9] fix: print the AMD integer size with the type its format
 expects

---
 src/amd_control.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amd_control.c b/src/amd_control.c
index b3c4e01..62234f9 100644
--- a/src/amd_control.c
+++ b/src/amd_control.c
@@ -59,5 +59,5 @@ GLOBAL void AMD_control
 	PRINTF (("    aggressive absorption:  no\n")) ;
     }
 
-    PRINTF (("    size of AMD integer: %d\n\n", sizeof (Int))) ;
+    PRINTF (("    size of AMD integer: %d\n\n", (int) sizeof (Int))) ;
 }
-- 
2.43.0


From 64d6f9266794eff30c9309f142e2f37b15a43788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 6/9] fix: reject column pointers beyond nz in AMD_valid before
 reading the row indices

---
 src/amd_valid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amd_valid.c b/src/amd_valid.c
index 609abca..b849e20 100644
--- a/src/amd_valid.c
+++ b/src/amd_valid.c
@@ -62,9 +62,9 @@ GLOBAL Int AMD_valid
 	p1 = Ap [j] ;
 	p2 = Ap [j+1] ;
 	AMD_DEBUG2 (("\nColumn: "ID" p1: "ID" p2: "ID"\n", j, p1, p2)) ;
-	if (p1 > p2)
+	if (p1 > p2 || p2 > nz)
 	{
-	    /* column pointers must be ascending */
+	    /* column pointers must be ascending, up to nz = Ap [n] */
 	    AMD_DEBUG0 (("column "ID" pointer bad\n", j)) ;
 	    return (AMD_INVALID) ;
 	}
-- 
2.43.0


From d049722544f6ef757a6df081d8b8cbbd0e8df85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 7/9] fix: Python: check the number of dimensions of c, h and b
 before reading them (0-d arrays crashed)

---
 python/pyqpSWIFT.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..c2637c0 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -49,8 +49,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     qp_real *Ppr, *Apr = NULL, *Gpr;
     qp_real *cpr, *hpr, *bpr = NULL;
 
-    npy_intp *dims;
-
     PyObject *basic_info = NULL, *adv_info = NULL, *result;
 
     /* Temporary Pointer */
@@ -85,19 +83,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
 
     qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
-    if (b && A)
-    {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
-    }
-    else
-    {
-        p = 0;
-    }
 
     /*Check Input Data here*/
     /*---- c vector ------*/
@@ -106,6 +91,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    n = (qp_int)PyArray_DIM(c, 0);
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -114,6 +100,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    m = (qp_int)PyArray_DIM(h, 0);
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
@@ -125,6 +112,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             PyErr_SetString(PyExc_TypeError, "b must be a floating array with one dimension");
             return NULL;
         }
+        p = (qp_int)PyArray_DIM(b, 0);
         /*---- b vector ------*/
 
         /*---- A Matrix ------*/
@@ -141,6 +129,10 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         }
         /*---- A Matrix ------*/
     }
+    else
+    {
+        p = 0;
+    }
 
     /*---- G Matrix ------*/
     if (!PyArray_ISFLOAT(G) || (qp_int)(PyArray_NDIM(G) != 2))
-- 
2.43.0


From a3c04a9cd0f6ae2a4838ebdf60712ca761f167d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 8/9] fix: Python: release the option object when an invalid
 option is rejected

---
 python/pyqpSWIFT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index c2637c0..7545b1e 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -187,6 +187,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
+                Py_DECREF(opts_maxiter);
                 return NULL;
             }
             Py_DECREF(opts_maxiter);
@@ -204,6 +205,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_abstol);
                 return NULL;
             }
             Py_DECREF(opts_abstol);
@@ -221,6 +223,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_reltol);
                 return NULL;
             }
             Py_DECREF(opts_reltol);
@@ -238,6 +241,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
+                Py_DECREF(opts_sigma);
                 return NULL;
             }
             Py_DECREF(opts_sigma);
@@ -256,6 +260,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
+                Py_DECREF(opts_verbose);
                 return NULL;
             }
             Py_DECREF(opts_verbose);
-- 
2.43.0


From ef8b8fc497104227ccc3a3c751e23557f1b720cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 9/9] fix: Python: do not return a result with an exception set
 when the OUTPUT option is invalid

---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 7545b1e..978e355 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -277,7 +277,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear(); /* an integer too large for a C long leaves OverflowError set */
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0

