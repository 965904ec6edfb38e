From 52ba8b48f40e08346069577d2474bf6bd50e2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 01/21] fix: MMG3D_Get_prisms returned the second and third
 vertices of a prism swapped

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d862907..982c2ed 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -839,8 +839,8 @@ int  MMG3D_Get_prisms(MMG5_pMesh mesh, MMG5_int *prisms, MMG5_int *refs, int * a
     j = (i-1)*6;
     pp = &mesh->prism[i];
     prisms[j]   = pp->v[0];
-    prisms[j+2] = pp->v[1];
-    prisms[j+1] = pp->v[2];
+    prisms[j+1] = pp->v[1];
+    prisms[j+2] = pp->v[2];
     prisms[j+3] = pp->v[3];
     prisms[j+4] = pp->v[4];
     prisms[j+5] = pp->v[5];
-- 
2.43.0


From e191881864007e104d4c38e3c198a90121ddac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 02/21] fix: MMGS_Set_edges read the reference of the next edge
 (and past the array end)

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 71cefa6..52da79a 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -670,7 +670,7 @@ int MMGS_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].a    = edges[j];
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
-      mesh->edge[i].ref  = refs[i];
+      mesh->edge[i].ref  = refs[i-1];
     mesh->edge[i].tag |= MG_REF;
   }
 
-- 
2.43.0


From 0bed890fdc373dd7255dc795a28ff814b23250a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 03/21] fix: Set/Get_ithSol_inSolsAtVertices reported success
 for a vector or tensor at an invalid position

---
 src/mmg2d/API_functions_2d.c | 8 ++++----
 src/mmg3d/API_functions_3d.c | 8 ++++----
 src/mmgs/API_functions_s.c   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3205094..7a2bfe3 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1812,11 +1812,11 @@ int  MMG2D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
+    return MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
+    return MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   default:
@@ -1841,11 +1841,11 @@ int  MMG2D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
+    return MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   default:
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 982c2ed..ed4216a 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1763,11 +1763,11 @@ int  MMG3D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1792,11 +1792,11 @@ int  MMG3D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 52da79a..8cf54b4 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1155,11 +1155,11 @@ int  MMGS_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1184,11 +1184,11 @@ int  MMGS_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
-- 
2.43.0


From 5c8207f615db761462f1b0d16aa2101e82bfbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 04/21] fix: 2D vector solutions set or read through the API
 were shifted by one entry with respect to the rest of the library

---
 src/mmg2d/API_functions_2d.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 7a2bfe3..c15b764 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1559,7 +1559,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     return 0;
   }
 
-  isol = (pos-1) * met->size + 1;
+  isol = pos * met->size;
 
   met->m[isol]   = vx;
   met->m[isol+1] = vy;
@@ -1593,8 +1593,8 @@ int MMG2D_Get_vectorSol(MMG5_pSol met, double* vx, double* vy) {
     return 0;
   }
 
-  *vx = met->m[met->size*(met->npi-1)+1];
-  *vy = met->m[met->size*(met->npi-1)+2];
+  *vx = met->m[met->size*met->npi];
+  *vy = met->m[met->size*met->npi+1];
 
   return 1;
 }
@@ -1613,9 +1613,9 @@ int MMG2D_Set_vectorSols(MMG5_pSol met, double *sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
-    m[1] = sols[j];
-    m[2] = sols[j+1];
+    m = &met->m[j+2];
+    m[0] = sols[j];
+    m[1] = sols[j+1];
   }
 
   return 1;
@@ -1627,10 +1627,10 @@ int MMG2D_Get_vectorSols(MMG5_pSol met, double* sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
+    m = &met->m[j+2];
 
-    sols[j]   = m[1];
-    sols[j+1] = m[2];
+    sols[j]   = m[0];
+    sols[j+1] = m[1];
   }
 
   return 1;
-- 
2.43.0


From 9ae0c75c30a809e8a6c03e9bff7d2a54de251d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 05/21] fix: MMG2D_Set_scalarSol and MMG2D_Set_tensorSol wrote
 outside the field for a position lower than 1

---
 src/mmg2d/API_functions_2d.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index c15b764..751f8e0 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1450,6 +1450,12 @@ int MMG2D_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
@@ -1649,6 +1655,12 @@ int MMG2D_Set_tensorSol(MMG5_pSol met, double m11, double m12, double m22,
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
-- 
2.43.0


From 807ca4edf8c892cc3cc56198f0e770db8580bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 06/21] fix: Set/Get_ithSols_inSolsAtVertices reported success
 when the vector or tensor field was rejected

---
 src/mmg2d/API_functions_2d.c | 8 ++++----
 src/mmg3d/API_functions_3d.c | 8 ++++----
 src/mmgs/API_functions_s.c   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 751f8e0..b3eeb24 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1768,11 +1768,11 @@ int  MMG2D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSols(psl,s);
+    return MMG2D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSols(psl,s);
+    return MMG2D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1796,11 +1796,11 @@ int  MMG2D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSols(psl,s);
+    return MMG2D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSols(psl,s);
+    return MMG2D_Get_tensorSols(psl,s);
     break;
 
   default:
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index ed4216a..bde3a28 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1820,11 +1820,11 @@ int  MMG3D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSols(psl,s);
+    return MMG3D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSols(psl,s);
+    return MMG3D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1848,11 +1848,11 @@ int  MMG3D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSols(psl,s);
+    return MMG3D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSols(psl,s);
+    return MMG3D_Get_tensorSols(psl,s);
     break;
 
   default:
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 8cf54b4..c9e2f88 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1212,11 +1212,11 @@ int  MMGS_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSols(psl,s);
+    return MMGS_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSols(psl,s);
+    return MMGS_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1240,11 +1240,11 @@ int  MMGS_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSols(psl,s);
+    return MMGS_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSols(psl,s);
+    return MMGS_Get_tensorSols(psl,s);
     break;
 
   default:
-- 
2.43.0


From 191f756ff36d6ea6cfc4af064b651e37b26bbd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 07/21] fix: MMGS_Set_localParameter wrote past the end of the
 table of local parameters once it was full

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index c9e2f88..4acaad1 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1600,7 +1600,7 @@ int MMGS_Set_localParameter(MMG5_pMesh mesh,MMG5_pSol sol, int typ, MMG5_int ref
     fprintf(stderr," values in local parameters structure. \n");
     return 0;
   }
-  if ( mesh->info.npari > mesh->info.npar ) {
+  if ( mesh->info.npari >= mesh->info.npar ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new local parameter.\n",
             __func__);
     fprintf(stderr,"    max number of local parameters: %d\n",mesh->info.npar);
-- 
2.43.0


From f3d1520c5824a66744dd7a244d999d6fd2d6a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:39 +0000
Subject: [PATCH 08/21] fix: MMG3D_IPARAM_numberOfLSBaseReferences kept the
 insertion cursor of the previous table (write past the end of the new one)

---
 src/mmg3d/API_functions_3d.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index bde3a28..2ff93e1 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2247,8 +2247,14 @@ int MMG3D_Set_iparameter(MMG5_pMesh mesh, MMG5_pSol sol, int iparam,MMG5_int val
 
     break;
   case MMG3D_IPARAM_numberOfLSBaseReferences :
-    mesh->info.nbr = val;
-    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(int),"References",
+    if ( mesh->info.br ) {
+      MMG5_DEL_MEM(mesh,mesh->info.br);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug )
+        fprintf(stderr,"\n  ## Warning: %s: new level-set based references values\n",__func__);
+    }
+    mesh->info.nbr   = val;
+    mesh->info.nbri  = 0;
+    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(MMG5_int),"References",
                  printf("  Exit program.\n");
                  return 0);
     MMG5_SAFE_CALLOC(mesh->info.br,mesh->info.nbr,MMG5_int,return 0);
-- 
2.43.0


From d34e4cd05c40302b272d4566ec6398aee99e4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 09/21] fix: Fortran string wrappers allocate with the
 allocator their release expects

---
 src/common/API_functionsf.c | 8 ++++----
 src/mmg2d/libmmg2d_toolsf.c | 2 +-
 src/mmg3d/libmmg3d_toolsf.c | 2 +-
 src/mmgs/libmmgs_toolsf.c   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/API_functionsf.c b/src/common/API_functionsf.c
index 6b94a51..5132a3c 100644
--- a/src/common/API_functionsf.c
+++ b/src/common/API_functionsf.c
@@ -58,7 +58,7 @@ FORTRAN_NAME(MMG5_SET_INPUTMESHNAME, mmg5_set_inputmeshname,
              (mesh,meshin,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputMeshName(*mesh,tmp);
@@ -76,7 +76,7 @@ FORTRAN_NAME(MMG5_SET_INPUTSOLNAME, mmg5_set_inputsolname,
 
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputSolName(*mesh,*sol,tmp);
@@ -94,7 +94,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTMESHNAME,mmg5_set_outputmeshname,
              (mesh,meshout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputMeshName(*mesh, tmp);
@@ -111,7 +111,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTSOLNAME,mmg5_set_outputsolname,
              (mesh,sol,solout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputSolName(*mesh,*sol,tmp);
diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index 075a5e5..fb80833 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -210,7 +210,7 @@ FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG2D_usage(tmp);
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index cbfefb1..5f47ac5 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -84,7 +84,7 @@ FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG3D_usage(tmp);
diff --git a/src/mmgs/libmmgs_toolsf.c b/src/mmgs/libmmgs_toolsf.c
index 417685f..b8f206d 100644
--- a/src/mmgs/libmmgs_toolsf.c
+++ b/src/mmgs/libmmgs_toolsf.c
@@ -82,7 +82,7 @@ FORTRAN_NAME(MMGS_USAGE,mmgs_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMGS_usage(tmp);
-- 
2.43.0


From 20c470c4796b7c296e35a7c6cd11508bcda37e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 10/21] fix: MMG5_split6 gives the new boundary edges the tags
 of the faces of the split tetra (it read an uninitialised copy)

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index d48af88..890f4c4 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4518,7 +4518,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
 
   /* Store face tags and refs from split tetra*/
   for (i=0; i<4; i++) {
-    ftag[i] = (xt.ftag[i] & ~MG_REF);
+    ftag[i] = (xt0.ftag[i] & ~MG_REF);
   }
 
   /* Modify first tetra */
-- 
2.43.0


From 1cac7678e4f0fe54805648f92bd252ec22d97c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 11/21] fix: MMG5_split3op marks the orientation of the
 interior face of the second tetra, not that of a face of the parent

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 890f4c4..8953e4b 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -2816,7 +2816,7 @@ int MMG5_split3op(MMG5_pMesh mesh, MMG5_pSol met, MMG5_int k, MMG5_int vx[6],int
     xt[1].edg[ie3] = 0;  xt[1].edg[ie4] = 0;
     xt[1].ref [ip0] = 0 ; xt[1].ref [ip2] = 0 ; xt[1].ref [ip3] = 0 ;
     xt[1].ftag[ip0] = 0 ; xt[1].ftag[ip2] = 0 ; xt[1].ftag[ip3] = 0 ;
-    MG_SET(xt[1].ori, ip1); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
+    MG_SET(xt[1].ori, ip0); MG_SET(xt[1].ori, ip2); MG_SET(xt[1].ori, ip3);
 
     pt[2]->v[ip0] = vx[ie0] ; pt[2]->v[ip2] = vx[ie5] ;
     xt[2].tag[ie1] = 0;  xt[2].tag[ie2] = ftag[ip2];
-- 
2.43.0


From 1ab7fc5941bc7bc7ee3490c2facfd6634f517b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 12/21] fix: MMG5_split6 tags the edge of the seventh tetra
 inside face 1 from face 1

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 8953e4b..178c619 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4762,7 +4762,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
     xt.tag[3] = ftag[3];  xt.tag[4] = ftag[0];
     xt.edg[1] = 0;  xt.edg[2] = 0;
     xt.edg[3] = 0;  xt.edg[4] = 0;
-    xt.tag[5] = ftag[3];  xt.edg[5] = 0;
+    xt.tag[5] = ftag[1];  xt.edg[5] = 0;
     xt.ref [0] = 0 ; xt.ref [2] = 0 ; xt.ref [3] = 0;
     xt.ftag[0] = 0 ; xt.ftag[2] = 0 ; xt.ftag[3] = 0;
     MG_SET(xt.ori, 0); MG_SET(xt.ori, 2); MG_SET(xt.ori, 3);
-- 
2.43.0


From 0910417e400635643225fc5b41e9e08643d5e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 13/21] fix: MMG2D_splitbar resets the data of the three
 interior edges, not that of the edges of the split triangle

---
 src/mmg2d/split_2d.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index f87344f..7bbe43c 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -794,14 +794,14 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
   pt1->v[2] = ip;
   pt2->v[0] = ip;
 
-  pt->tag[1] = MG_NOTAG;
-  pt->edg[1] = 0;
+  pt->tag[0] = pt->tag[2] = MG_NOTAG;
+  pt->edg[0] = pt->edg[2] = 0;
 
-  pt1->tag[2] = MG_NOTAG;
-  pt1->edg[2] = 0;
+  pt1->tag[0] = pt1->tag[1] = MG_NOTAG;
+  pt1->edg[0] = pt1->edg[1] = 0;
 
-  pt2->tag[0] = MG_NOTAG;
-  pt2->edg[0] = 0;
+  pt2->tag[1] = pt2->tag[2] = MG_NOTAG;
+  pt2->edg[1] = pt2->edg[2] = 0;
 
   /* Update external adjacencies */
 #ifndef NDEBUG
-- 
2.43.0


From ab4142fe63fec76c1e6dc04e3f88d89c9f3fbda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 14/21] fix: MMG2D_splitbar reads its triangle again after the
 triangle array may have moved

---
 src/mmg2d/split_2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg2d/split_2d.c b/src/mmg2d/split_2d.c
index 7bbe43c..db14552 100644
--- a/src/mmg2d/split_2d.c
+++ b/src/mmg2d/split_2d.c
@@ -769,6 +769,7 @@ int MMG2D_splitbar(MMG5_pMesh mesh,MMG5_int k,MMG5_int ip) {
                         printf("  Exit program.\n");return 0);
   }
 
+  pt = &mesh->tria[k];
   pt->flag = 0;
   pt->base = mesh->base;
 
-- 
2.43.0


From 7733b9abce597dba5fa6a3aa28a19f13d517579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 15/21] fix: setMeshSize_alloc leaves the lists of free points
 and elements empty when the arrays are full

---
 src/mmg2d/zaldy_2d.c | 8 ++++----
 src/mmg3d/zaldy_3d.c | 8 ++++----
 src/mmgs/zaldy_s.c   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mmg2d/zaldy_2d.c b/src/mmg2d/zaldy_2d.c
index 865180e..1515921 100644
--- a/src/mmg2d/zaldy_2d.c
+++ b/src/mmg2d/zaldy_2d.c
@@ -277,11 +277,11 @@ int MMG2D_setMeshSize_alloc( MMG5_pMesh mesh ) {
   }
 
   /* keep track of empty links */
-  mesh->npnil = mesh->np + 1;
-  mesh->nenil = mesh->nt + 1;
+  mesh->npnil = ( mesh->np < mesh->npmax ) ? mesh->np + 1 : 0;
+  mesh->nenil = ( mesh->nt < mesh->ntmax ) ? mesh->nt + 1 : 0;
   mesh->nanil = 0;
 
-  for (k=mesh->npnil; k<mesh->npmax-1; k++) {
+  for (k=mesh->np + 1; k<mesh->npmax-1; k++) {
     /* Set tangent field of point to 0 */
     mesh->point[k].n[0] = 0;
     mesh->point[k].n[1] = 0;
@@ -290,7 +290,7 @@ int MMG2D_setMeshSize_alloc( MMG5_pMesh mesh ) {
     mesh->point[k].tmp  = k+1;
   }
 
-  for (k=mesh->nenil; k<mesh->ntmax-1; k++)
+  for (k=mesh->nt + 1; k<mesh->ntmax-1; k++)
     mesh->tria[k].v[2] = k+1;
 
   return 1;
diff --git a/src/mmg3d/zaldy_3d.c b/src/mmg3d/zaldy_3d.c
index d612924..f5c2f1d 100644
--- a/src/mmg3d/zaldy_3d.c
+++ b/src/mmg3d/zaldy_3d.c
@@ -321,15 +321,15 @@ int MMG3D_setMeshSize_alloc( MMG5_pMesh mesh ) {
   }
 
   /* keep track of empty links */
-  mesh->npnil = mesh->np + 1;
-  mesh->nenil = mesh->ne + 1;
+  mesh->npnil = ( mesh->np < mesh->npmax ) ? mesh->np + 1 : 0;
+  mesh->nenil = ( mesh->ne < mesh->nemax ) ? mesh->ne + 1 : 0;
 
-  for (k=mesh->npnil; k<mesh->npmax-1; k++) {
+  for (k=mesh->np + 1; k<mesh->npmax-1; k++) {
     /* link */
     mesh->point[k].tmp  = k+1;
   }
 
-  for (k=mesh->nenil; k<mesh->nemax-1; k++)
+  for (k=mesh->ne + 1; k<mesh->nemax-1; k++)
     mesh->tetra[k].v[3] = k+1;
 
   return 1;
diff --git a/src/mmgs/zaldy_s.c b/src/mmgs/zaldy_s.c
index a4f0790..ab57dae 100644
--- a/src/mmgs/zaldy_s.c
+++ b/src/mmgs/zaldy_s.c
@@ -240,13 +240,13 @@ int MMGS_setMeshSize_alloc( MMG5_pMesh mesh ) {
   }
 
   /* keep track of empty links */
-  mesh->npnil = mesh->np + 1;
-  mesh->nenil = mesh->nt + 1;
+  mesh->npnil = ( mesh->np < mesh->npmax ) ? mesh->np + 1 : 0;
+  mesh->nenil = ( mesh->nt < mesh->ntmax ) ? mesh->nt + 1 : 0;
 
-  for (k=mesh->npnil; k<mesh->npmax-1; k++)
+  for (k=mesh->np + 1; k<mesh->npmax-1; k++)
     mesh->point[k].tmp  = k+1;
 
-  for (k=mesh->nenil; k<mesh->ntmax-1; k++)
+  for (k=mesh->nt + 1; k<mesh->ntmax-1; k++)
     mesh->tria[k].v[2] = k+1;
 
   return 1;
-- 
2.43.0


From 557a1188b7df95ccb5d4c0c046e3d17db519b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 16/21] fix: MMG5_scale_scalarMetric refuses a non-positive
 size every time, not only the first

---
 src/common/scalem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/scalem.c b/src/common/scalem.c
index 33155d9..d2d6b02 100644
--- a/src/common/scalem.c
+++ b/src/common/scalem.c
@@ -232,8 +232,8 @@ int MMG5_scale_scalarMetric(MMG5_pMesh mesh, MMG5_pSol met, double dd) {
         mmgWarn0 = 1;
         fprintf(stderr,"\n  ## Error: %s: at least 1 wrong metric.\n",
                 __func__);
-        return 0;
       }
+      return 0;
     }
     /* normalization */
     met->m[k] *= dd;
-- 
2.43.0


From 067dd3e8e97f5981ec3fa0657f9bc91b4319d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 17/21] fix: MMG5_unscaleMesh asserts that the solution is not
 a tensor on its type, not on its number of components

---
 src/common/scalem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/scalem.c b/src/common/scalem.c
index d2d6b02..f851480 100644
--- a/src/common/scalem.c
+++ b/src/common/scalem.c
@@ -731,7 +731,7 @@ int MMG5_unscaleMesh(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol sol) {
 
   /* de-normalize level-set or displacement */
   if ( sol && sol->np && sol->m ) {
-    assert ( sol->size != MMG5_Tensor );
+    assert ( sol->type != MMG5_Tensor );
     for (k=1; k<=mesh->np; k++) {
       ppt = &mesh->point[k];
       if ( !MG_VOK(ppt) )  continue;
-- 
2.43.0


From e68e473a0652f30491e85c5e5639f1d93abaaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 18/21] fix: shift the level-set values by the isovalue only
 once in the -lssurf mode of mmg3d

MMG3D_mmg3d2 already subtracts info.ls from the whole solution; the functions
of mmg3d2s.c subtracted it a second time, so that a non-zero isovalue was
searched in the wrong place (and the vertices inserted on it were not
recognised by MMG3D_setref_lssurf, that compares the values to 0).
---
 src/mmg3d/mmg3d2s.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index e3919cd..973d184 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -130,15 +130,15 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
   for (k=1; k<=mesh->np; k++) {
     p0 = &mesh->point[k];
     if ( !MG_VOK(p0) ) continue;
-    if ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPS ) {
+    if ( fabs(sol->m[k]) < MMG5_EPS ) {
       if ( mesh->info.ddebug )
         fprintf(stderr,"  ## Warning: %s: snapping value %" MMG5_PRId "; "
                 "previous value: %E.\n",__func__,k,fabs(sol->m[k]));
 
-      tmp[k] = ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPSD ) ?
-        (mesh->info.ls-100.0*MMG5_EPS) : sol->m[k];
+      tmp[k] = ( fabs(sol->m[k]) < MMG5_EPSD ) ?
+        -100.0*MMG5_EPS : sol->m[k];
       p0->flag = 1;
-      sol->m[k] = mesh->info.ls;
+      sol->m[k] = 0.0;
       ns++;
     }
   }
@@ -190,8 +190,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         if ( p0->flag && p1->flag )  continue;
 
-        v0  = sol->m[ip0]-mesh->info.ls;
-        v1  = sol->m[ip1]-mesh->info.ls;
+        v0  = sol->m[ip0];
+        v1  = sol->m[ip1];
 
         if ( fabs(v0) > MMG5_EPSD2 && fabs(v1) > MMG5_EPSD2 && v0*v1 < 0.0 ) {
           nb ++;
@@ -258,8 +258,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         p0 = &mesh->point[ip0];
         p1 = &mesh->point[ip1];
-        v0 = sol->m[ip0]-mesh->info.ls;
-        v1 = sol->m[ip1]-mesh->info.ls;
+        v0 = sol->m[ip0];
+        v1 = sol->m[ip1];
         if ( fabs(v0) < MMG5_EPSD2 || fabs(v1) < MMG5_EPSD2 )  continue;
         else if ( MG_SMSGN(v0,v1) )  continue;
         else if ( !p0->flag || !p1->flag )  continue;
@@ -311,7 +311,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           }
         }
 
-        sol->m[np] = mesh->info.ls;
+        sol->m[np] = 0.0;
 
         /* If user provide a metric, interpolate it at the new point */
         if ( met && met->m ) {
@@ -439,7 +439,7 @@ int MMG3D_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol) {
       /* Set face ref */
       for (j=0; j<3; j++) {
         ip = pt->v[MMG5_idir[i][j]];
-        v  = sol->m[ip]-mesh->info.ls;
+        v  = sol->m[ip];
         if ( v > 0.0 )
           npls++;
         else if ( v < 0.0 )
-- 
2.43.0


From 56ba9e906b2ee00ccf9def28df037e0be9f774af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 19/21] fix: use the isoref asked by the user at the vertices
 of the level-set in MMG5_setref_lssurf

---
 src/common/mmg2s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mmg2s.c b/src/common/mmg2s.c
index 27ecf1f..54feb67 100644
--- a/src/common/mmg2s.c
+++ b/src/common/mmg2s.c
@@ -204,11 +204,11 @@ int MMG5_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol){
     }
   }
 
-  /* Set MG_ISO ref at vertices on the ls */
+  /* Set mesh->info.isoref at vertices on the ls */
   for (k=1; k<=mesh->np; k++) {
     v = sol->m[k];
     if ( v == 0.0 ) {
-      mesh->point[k].ref = MG_ISO;
+      mesh->point[k].ref = mesh->info.isoref;
     }
   }
 
-- 
2.43.0


From 3eadb621fe4a25495a70c624a67a379512f92477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 20/21] fix: MMG2D_pack updates the number of values of both
 solution structures

---
 src/mmg2d/hash_2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 8d688fa..eb521a0 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -851,6 +851,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   }
   mesh->np = np;
   if ( sol && sol->m ) sol->np  = np;
+  if ( met && met->m ) met->np  = np;
 
   /** Reset ppt->tmp field */
   for(k=1 ; k<=mesh->np ; k++)
-- 
2.43.0


From 4c8637142f667b57a68e7ec0c746713a7419260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:23 +0000
Subject: [PATCH 21/21] fix: MMGS_packMesh keeps the free lists inside the
 arrays and terminates them

---
 src/mmgs/libmmgs.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index e86930d..2fbcf09 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -271,13 +271,23 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   for(k=1 ; k<=mesh->np ; k++)
     mesh->point[k].tmp = 0;
 
-  mesh->npnil = mesh->np + 1;
-  for(k=mesh->npnil; k<mesh->npmax-1; k++)
-    mesh->point[k].tmp  = k+1;
+  if ( mesh->np >= mesh->npmax-1 )
+    mesh->npnil = 0;
+  else {
+    mesh->npnil = mesh->np + 1;
+    for(k=mesh->npnil; k<mesh->npmax-1; k++)
+      mesh->point[k].tmp  = k+1;
+    mesh->point[mesh->npmax-1].tmp = 0;
+  }
 
-  mesh->nenil = mesh->nt + 1;
-  for(k=mesh->nenil; k<mesh->ntmax-1; k++)
-    mesh->tria[k].v[2] = k+1;
+  if ( mesh->nt >= mesh->ntmax-1 )
+    mesh->nenil = 0;
+  else {
+    mesh->nenil = mesh->nt + 1;
+    for(k=mesh->nenil; k<mesh->ntmax-1; k++)
+      mesh->tria[k].v[2] = k+1;
+    mesh->tria[mesh->ntmax-1].v[2] = 0;
+  }
 
   /* to could save the mesh, the adjacency have to be correct */
   if ( mesh->info.ddebug && (!MMG5_chkmsh(mesh,1,1) ) ) {
-- 
2.43.0

