From b17760268929942e0e498dc8f9ec34e20f938f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 01/51] fix: count queries return 0 instead of dereferencing a
 NULL list

MV_Num_Regions (F1, F4), MV_Num_Faces (F4) and MF_Num_AdjFaces (F1)
crashed for entities without the requested adjacency.
---
 src/base/MFace_F1.c   | 4 ++--
 src/base/MVertex_F1.c | 4 ++--
 src/base/MVertex_F4.c | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..640756e 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,8 +169,8 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
-    nf = List_Num_Entries(adjfaces);
-    List_Delete(adjfaces);
+    nf = adjfaces ? List_Num_Entries(adjfaces) : 0;
+    if (adjfaces) List_Delete(adjfaces);
     return nf;
   }
 
diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..a75adb1 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,8 +94,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
 
     return nr;
   }
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..c56811b 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,8 +75,8 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
-    nf = List_Num_Entries(vfaces);
-    List_Delete(vfaces);
+    nf = vfaces ? List_Num_Entries(vfaces) : 0;
+    if (vfaces) List_Delete(vfaces);
     return nf;
   }
 
@@ -91,8 +91,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
-    nr = List_Num_Entries(vregions);
-    List_Delete(vregions);
+    nr = vregions ? List_Num_Entries(vregions) : 0;
+    if (vregions) List_Delete(vregions);
     return nr;
   }
 
-- 
2.43.0


From 278052af576b052e58298f73355b41b6589628cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 02/51] fix: MR_Replace_Faces keeps face sides right when faces
 are removed

Shifting the direction bits of the remaining faces went through
MR_Set_FaceDir_i, which re-attached the region to the wrong side of the
not yet shifted faces.
---
 src/base/MR_Face_Funcs_FNR3R4.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..bf9fe77 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -706,15 +706,23 @@ extern "C" {
 
             /* no more new faces to put in place of old face - just remove
                it from the list (this shifts all the subsequent faces up)
-               Similarly shift all the face dirs up */
-
-            for (ii = i; ii < nf-1; ii++)
-              if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
-                MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
+               Similarly shift all the face dirs up. Move only the bits -
+               the sides of the faces that the region is attached to do
+               not change */
+
+            for (ii = i; ii < nf-1; ii++) {
+              int dir = MR_FaceDir_i(r,ii+1);
+              j = (int) ii/(8*sizeof(unsigned int));
+              k = ii%(8*sizeof(unsigned int));
+              adj->fdirs[j] = adj->fdirs[j] & ~(1U<<k);
+              adj->fdirs[j] = adj->fdirs[j] | ((unsigned int)dir<<k);
+            }
             List_Remi(adj->rfaces,i);
+            nf--;
           }
           
           MF_Rem_Region(f,r);
+          break;
         }
       }
     }
-- 
2.43.0


From bd0dedef01d071bce9b8f4e1e4db617cda639ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 03/51] fix: regions with hanging vertices are not mistaken for
 pyramids, prisms or hexes

---
 src/base/MR_Edge_Funcs_FN.c     |  6 +++---
 src/base/MR_Face_Funcs_FNR3R4.c | 30 +++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..81782ba 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -129,7 +129,7 @@ extern "C" {
 	}
       }
       
-      if (nquads == 3 && ntris == 2) {
+      if (nquads == 3 && ntris == 2 && r->mrtype == PRISM) {
 
 	botfdir = MR_FaceDir_i(r,itri0); /* Sense in which face is used in region */
 	redges = MF_Edges(tri0,!botfdir,0);
@@ -196,7 +196,7 @@ extern "C" {
 	List_Delete(fverts);
 	return redges;
       }
-      else if (nquads == 1 && ntris == 4) {
+      else if (nquads == 1 && ntris == 4 && r->mrtype == PYRAMID) {
 
 	botfdir = MR_FaceDir_i(r,iquad0);  /* Sense in which face is used in region */
 	redges = MF_Edges(quad0,!botfdir,0);
@@ -245,7 +245,7 @@ extern "C" {
 	}
       }
 
-      if (allquad) { /* Hex */
+      if (allquad && r->mrtype == HEX) { /* Hex */
 
 	n = 0;
 	
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index bf9fe77..75e39d7 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -771,6 +771,30 @@ extern "C" {
   }
 
 
+  /* Does every vertex of a region lie on at least three of its faces?
+     If not, the region has hanging vertices (e.g. after splitting one of
+     its edges) and cannot be a standard element even if the number and
+     types of its faces match that of one */
+
+  static int pvtNo_Hanging_Vertices(List_ptr rfaces) {
+    int i, j, k, n, nf = List_Num_Entries(rfaces), ok = 1;
+
+    for (i = 0; i < nf && ok; i++) {
+      List_ptr fverts = MF_Vertices(List_Entry(rfaces,i),1,0);
+      int nfv = List_Num_Entries(fverts);
+      for (j = 0; j < nfv && ok; j++) {
+        MVertex_ptr v = List_Entry(fverts,j);
+        for (k = 0, n = 0; k < nf; k++)
+          if (MF_UsesEntity(List_Entry(rfaces,k),v,MVERTEX))
+            n++;
+        if (n < 3)
+          ok = 0;
+      }
+      List_Delete(fverts);
+    }
+    return ok;
+  }
+
   void MR_Update_ElementType_FNR3R4(MRegion_ptr r) {
 
     int nf;
@@ -811,9 +835,9 @@ extern "C" {
             nquads++;
         }
         
-        if (nquads == 3 && ntris == 2)
+        if (nquads == 3 && ntris == 2 && pvtNo_Hanging_Vertices(adj->rfaces))
           r->mrtype = PRISM;
-        else if (nquads == 1 && ntris == 4)
+        else if (nquads == 1 && ntris == 4 && pvtNo_Hanging_Vertices(adj->rfaces))
           r->mrtype = PYRAMID;
         else
           r->mrtype = POLYHED;        
@@ -828,7 +852,7 @@ extern "C" {
           }
         }
         
-        if (allquad)
+        if (allquad && pvtNo_Hanging_Vertices(adj->rfaces))
           r->mrtype = HEX;
         else
           r->mrtype = POLYHED;        
-- 
2.43.0


From 68b520876ee4e8b41a1de45d6a564b46039ca16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 04/51] fix: ME_Swap2D keeps the classification of the swapped
 edge

---
 src/mod/ME_Swap2D.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mod/ME_Swap2D.c b/src/mod/ME_Swap2D.c
index a5b1ac7..a4e6bb2 100644
--- a/src/mod/ME_Swap2D.c
+++ b/src/mod/ME_Swap2D.c
@@ -23,8 +23,7 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
     MSTK_Report("ME_Swap2D","Can swap edges on model faces only",MSTK_ERROR);
     return 0;
   } 
-  /*  gid = ME_GEntID(eswp); */
-  gid = 0;
+  gid = ME_GEntID(eswp);
  
   /* Collect information */
 
-- 
2.43.0


From 612df2e3587da93291dc487fd7bd86792a7640e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 05/51] fix: ME_Collapse respects classification when merging,
 reports only real merges, and handles edges without faces

---
 src/mod/ME_Collapse.c | 81 ++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..87adba2 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -124,8 +124,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -147,7 +147,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
         if (fregs) List_Delete(fregs);
 
         if (nfr == 1) {
-          vdel_external = 0;
+          vdel_external = 1;
           break;
         }
       }
@@ -397,8 +397,11 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
+          if (nef == 0 || (nef == 1 && eregs)) {
+            /* the degenerate face between the two edges is already
+               deleted, so an external edge of a surface mesh has no
+               face left */
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -415,7 +418,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,8 +432,11 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
-          if (nef == 1) {
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
+          if (nef == 0 || (nef == 1 && eregs)) {
+            /* the degenerate face between the two edges is already
+               deleted, so an external edge of a surface mesh has no
+               face left */
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
@@ -447,9 +453,19 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge2_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
+        /* When the model must be respected, only the entity on the
+           lower dimensional model entity can be kept */
+
+        int lower_dim = 0;
+        if (topoflag) {
+          if (ME_GEntDim(edge) > ME_GEntDim(edge2))
+            continue;    /* merged the other way from the outer loop */
+          lower_dim = ME_GEntDim(edge) < ME_GEntDim(edge2);
+        }
+
         if (edge_on_boundary == edge2_on_boundary) {
           /* if both edges are boundary edges or both are interior, then we
              don't have to worry about topological consistency of the
@@ -462,9 +478,9 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
 
           int egid = ME_GlobalID(edge);
           int egid2 = ME_GlobalID(edge2);
-          if (egid <= egid2) {  /* Want this to work even when egid,egid2 = 0 */
-            MEs_Merge(edge,edge2,topoflag);	
-            List_Rem(vedges,edge2);	
+          if ((lower_dim || egid <= egid2) &&  /* Want this to work even when egid,egid2 = 0 */
+              MEs_Merge(edge,edge2,topoflag)) {
+            List_Rem(vedges,edge2);
             List_Add(*deleted_entities,edge2);
             List_Add(*merged_entity_pairs, edge2);
             List_Add(*merged_entity_pairs, edge);
@@ -476,13 +492,13 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
            * entities may be in boundary sets for boundary
            * conditions. Any other processor encountering these two
            * edges will make the same decision */
-
-          MEs_Merge(edge,edge2,topoflag);	
-          List_Rem(vedges,edge2);	
-          List_Add(*deleted_entities,edge2);
-          List_Add(*merged_entity_pairs, edge2);
-          List_Add(*merged_entity_pairs, edge);
-          break;
+          if (MEs_Merge(edge,edge2,topoflag)) {
+            List_Rem(vedges,edge2);
+            List_Add(*deleted_entities,edge2);
+            List_Add(*merged_entity_pairs, edge2);
+            List_Add(*merged_entity_pairs, edge);
+            break;
+          }
         }
       }
     }
@@ -542,6 +558,16 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
           int face2_on_boundary = ((MF_PType(face2) != PGHOST) && !fregs2) ? 1 : 0;
           if (fregs2) List_Delete(fregs2);
 
+          /* When the model must be respected, only the entity on the
+             lower dimensional model entity can be kept */
+
+          int lower_dim = 0;
+          if (topoflag) {
+            if (MF_GEntDim(face) > MF_GEntDim(face2))
+              continue;    /* merged the other way from the outer loop */
+            lower_dim = MF_GEntDim(face) < MF_GEntDim(face2);
+          }
+
           if (face_on_boundary == face2_on_boundary) {
           /* if both faces are boundary faces or both are interior, then we
              don't have to worry about topological consistency of the
@@ -554,8 +580,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
 
             int fgid = MF_GlobalID(face);
             int fgid2 = MF_GlobalID(face2);
-            if (fgid <= fgid2) {  /* Want this to work when fgid, fgid2 = 0 */
-              MFs_Merge(face,face2,topoflag);	
+            if ((lower_dim || fgid <= fgid2) &&  /* Want this to work when fgid, fgid2 = 0 */
+                MFs_Merge(face,face2,topoflag)) {
               List_Rem(vfaces,face2);
               List_Add(*deleted_entities,face2);
               List_Add(*merged_entity_pairs, face2);
@@ -563,12 +589,13 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               break;
             }
           } else if (face_on_boundary) {
-            MFs_Merge(face,face2,topoflag);	
-            List_Rem(vfaces,face2);
-            List_Add(*deleted_entities,face2);
-            List_Add(*merged_entity_pairs, face2);
-            List_Add(*merged_entity_pairs, face);
-            break;
+            if (MFs_Merge(face,face2,topoflag)) {
+              List_Rem(vfaces,face2);
+              List_Add(*deleted_entities,face2);
+              List_Add(*merged_entity_pairs, face2);
+              List_Add(*merged_entity_pairs, face);
+              break;
+            }
           }
         }
 	
-- 
2.43.0


From b00a864398dd11fd18e5132992d4751e9b16cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 06/51] fix: entities can be removed and looked up by ID after
 a restore

---
 src/base/Mesh.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++++
 src/util/List.c | 11 +++++++---
 2 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..e73850e 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -853,6 +853,8 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else    /* restored entity - its ID may be lower than that of others */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -869,6 +871,8 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else    /* restored entity - its ID may be lower than that of others */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -893,6 +897,8 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else    /* restored entity - its ID may be lower than that of others */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -906,6 +912,8 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else    /* restored entity - its ID may be lower than that of others */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
@@ -939,6 +947,12 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Vertex","Vertex not found in list",MSTK_FATAL);
 
@@ -988,6 +1002,12 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Edge","Edge not found in list",MSTK_FATAL);
 
@@ -1038,6 +1058,12 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Face","Face not found in list",MSTK_FATAL);
 
@@ -1087,6 +1113,12 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_Region","Region not found in list",MSTK_FATAL);
 
@@ -2153,6 +2185,12 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
   if (!fnd)
     fnd = List_RemSorted(mesh->mvertex,v,&(MV_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mvertex,v);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in mesh vertex list",MSTK_FATAL);
 
@@ -2190,6 +2228,12 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
   if (!fnd)
     fnd = List_RemSorted(mesh->medge,e,&(ME_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->medge,e);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in mesh edge list",MSTK_FATAL);
 
@@ -2227,6 +2271,12 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
   if (!fnd)
     fnd = List_RemSorted(mesh->mface,f,&(MF_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mface,f);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostFace","Face not found in mesh face list",MSTK_FATAL);
 
@@ -2263,6 +2313,12 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
   if (!fnd)
     fnd = List_RemSorted(mesh->mregion,r,&(MR_ID));
 
+  /* A restored entity is at the end of the list and not in the
+     position given by its ID */
+
+  if (!fnd)
+    fnd = List_Rem(mesh->mregion,r);
+
   if (!fnd)
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in mesh region list",MSTK_FATAL);
 
diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..89fb1f6 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -711,12 +711,16 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
+    int imin, imax, imid, idmin, idmax, idmid, done, fnd=0, fnd1, imid1;
+    int oldimin, oldimax;
     int nent, p, nrem, rem1, ntot, i, id;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
+    if (nent == 0)
+      return 0;
+
     imin = 0; imax = ntot-1;
     if (!(l->entry[imin])) {
 
@@ -747,6 +751,7 @@ extern "C" {
     i = 0;
     id = (*entry2int)(entry);
     while (!done) { 
+      oldimin = imin; oldimax = imax;
       imid = (int)(0.5+(imin+imax)/2.0);
 
       if (!(l->entry[imid])) {
@@ -797,8 +802,8 @@ extern "C" {
 	fnd = 1;
 	done = 1;
       }
-      else if (imax-imin <= 1) {
-	done = 1;
+      else if (imax-imin <= 1 || (imin == oldimin && imax == oldimax)) {
+	done = 1;               /* entry is not there or list is not sorted */
       }
     }
 
-- 
2.43.0


From ce757921f20b4b6f5f2f124ebdaac1e38ced6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:49 +0000
Subject: [PATCH 07/51] fix: List_Insert inserts before the given entry;
 List_Cat keeps track of gaps

---
 src/util/List.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 89fb1f6..5ec13df 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
@@ -973,10 +973,10 @@ extern "C" {
     }
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
+    if (!nrem_d && nrem_s)
+      rem1_d = ntot_d + rem1_s;
     nent_d += nent_s;
     nrem_d += nrem_s;
-    if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From f891cb8aa5c965dd8cdbf4b36ba3bd91eb3501ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 08/51] fix: entity set insertion returns the set; renaming
 allocates room for the new name

---
 src/base/MSet.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..73118c0 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,6 +58,7 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
+    set->name = (char *) realloc(set->name,(strlen(newname)+1)*sizeof(char));
     strcpy(set->name,newname);
   }
 
@@ -77,20 +78,24 @@ extern "C" {
   }
 
   MSet_ptr    MSet_Add(MSet_ptr set, void *entry) {
-    return List_Add(set->entlist,entry);
+    List_Add(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_ChknAdd(MSet_ptr set, void *entry) {
-    return List_ChknAdd(set->entlist,entry);
+    List_ChknAdd(set->entlist,entry);
+    return set;
   }
 
   MSet_ptr    MSet_Insert(MSet_ptr set, void *nuentry, void *b4entry) {
-    return List_Insert(set->entlist,nuentry,b4entry);
+    List_Insert(set->entlist,nuentry,b4entry);
+    return set;
   }
 
 
   MSet_ptr    MSet_Inserti(MSet_ptr set, void *nuentry, int i) {
-    return List_Inserti(set->entlist,nuentry,i);
+    List_Inserti(set->entlist,nuentry,i);
+    return set;
   }
 
   int         MSet_Rem(MSet_ptr set, void *entry) {
-- 
2.43.0


From b3ee61df049e466445e4c068d8973d33f047737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 09/51] fix: clearing a vector or tensor attribute value does
 not copy from NULL

---
 src/base/MAttrib.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..7e6e7a2 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -155,8 +155,11 @@ extern "C" {
          * before storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        double *vval_copy = NULL;
+        if (pval) {                 /* no data when value is being cleared */
+          vval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        }
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -166,8 +169,11 @@ extern "C" {
          * storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        double *tval_copy = NULL;
+        if (pval) {                 /* no data when value is being cleared */
+          tval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        }
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From 7a8f8e98c673225d17d580d48395ed566bc5d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 10/51] fix: ME_Collapse puts the kept vertex into the sets of
 the deleted one

---
 src/mod/ME_Collapse.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index 87adba2..b8fe1f3 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -51,6 +51,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
   MEdge_ptr edge, edge2, oldedges[3], nuedges[2];
   MFace_ptr face, face2, rface1, rface2;
   MRegion_ptr reg, reg2;
+  MSet_ptr mset;
   List_ptr vedges, efaces, eregs, fedges, rfaces, fverts1, fverts2, vfaces;
   int idx1, idx2, idx3, dir, status, nfe, nrf, nrv, allfound, degenerate;
   int i, j, nfe2, nfv1, nfv2;
@@ -243,6 +244,18 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
   }
   List_Delete(vedges);
 
+  /* Entity sets containing vdel must now contain vkeep (once) */
+
+  idx1 = 0;
+  while ((mset = MESH_Next_MSet(ME_Mesh(e),&idx1))) {
+    if (MSet_Contains(mset,vdel)) {
+      if (MSet_Contains(mset,vkeep))
+        MSet_Rem(mset,vdel);
+      else
+        MSet_Replace(mset,vdel,vkeep);
+    }
+  }
+
   /* Remove edge 'e' from all faces connected to e */
   /* This part of the code is using some reliance on the internal
      implementation of MF_Edges. While unlikely, it _might_ break if
-- 
2.43.0


From d977f7824f794fa3f443df4388ade233ca597d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 11/51] fix: edges and vertex order of standard elements do not
 depend on edges outside the element

---
 src/base/MR_Edge_Funcs_FN.c       | 43 ++++++++++++++++++++++++-------
 src/base/MR_Vertex_Funcs_FNR3R4.c | 17 +++++++++++-
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 81782ba..7d8e2f2 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -17,6 +17,31 @@ extern "C" {
 #endif
 
 
+  /* Edge of the region that connects two of its vertices (two vertices of
+     a region may also be connected by an edge that is not part of it) */
+
+  static MEdge_ptr MR_CommonEdge_FN(MRegion_ptr r, MVertex_ptr v1, 
+                                    MVertex_ptr v2) {
+    int idx1, idx2;
+    MFace_ptr face;
+    MEdge_ptr edge, fnd=NULL;
+    List_ptr fedges;
+    MRegion_Adj_FN *adj = (MRegion_Adj_FN *) r->adj;
+
+    idx1 = 0;
+    while (!fnd && (face = List_Next_Entry(adj->rfaces,&idx1))) {
+      fedges = MF_Edges(face,1,0);
+      idx2 = 0;
+      while (!fnd && (edge = List_Next_Entry(fedges,&idx2)))
+        if (ME_UsesEntity(edge,v1,MVERTEX) && ME_UsesEntity(edge,v2,MVERTEX))
+          fnd = edge;
+      List_Delete(fedges);
+    }
+
+    return fnd;
+  }
+
+
   List_ptr MR_Edges_FN(MRegion_ptr r) {
     MFace_ptr botface;      /* bottom face */
     int botfdir;            /* dir in which bottom face used by region */
@@ -87,7 +112,7 @@ extern "C" {
 	  dir = !(botfdir^fedir);
 	  botvert = ME_Vertex(botedge,dir);
 	  
-	  latedge = MVs_CommonEdge(botvert,vapex);
+	  latedge = MR_CommonEdge_FN(r,botvert,vapex);
 	  if (latedge)
 	    List_Add(redges,latedge);
 	  else {
@@ -149,7 +174,7 @@ extern "C" {
 	for (i = 0; i < 3; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MR_CommonEdge_FN(r,botvert,topvert))) {
 	    found = 1;
 	    break;
 	  }
@@ -172,7 +197,7 @@ extern "C" {
 	dir = !(botfdir^fedir);
 	botvert = ME_Vertex(botedge,dir);
 	topvert = List_Entry(fverts,(i+1)%3);
-	latedge = MVs_CommonEdge(botvert,topvert);
+	latedge = MR_CommonEdge_FN(r,botvert,topvert);
 	if (latedge)
 	  List_Add(redges,latedge);
 	else {
@@ -185,7 +210,7 @@ extern "C" {
 	dir = !(botfdir^fedir);
 	botvert = ME_Vertex(botedge,dir);
 	topvert = List_Entry(fverts,(i+2)%3);
-	latedge = MVs_CommonEdge(botvert,topvert);
+	latedge = MR_CommonEdge_FN(r,botvert,topvert);
 	if (latedge)
 	  List_Add(redges,latedge);
 	else {
@@ -218,7 +243,7 @@ extern "C" {
 	  fedir = MF_EdgeDir(quad0,botedge);	  
 	  dir = !(botfdir^fedir);
 	  botvert = ME_Vertex(botedge,dir);
-	  latedge = MVs_CommonEdge(botvert,vapex);
+	  latedge = MR_CommonEdge_FN(r,botvert,vapex);
 	  if (latedge)
 	    List_Add(redges,latedge);
 	  else {
@@ -294,7 +319,7 @@ extern "C" {
 	for (i = 0; i < 4; i++) {
 	  topvert = List_Entry(fverts,i);
 
-	  if ((latedge = MVs_CommonEdge(botvert,topvert))) {
+	  if ((latedge = MR_CommonEdge_FN(r,botvert,topvert))) {
 	    found = 1;
 	    break;
 	  }
@@ -317,7 +342,7 @@ extern "C" {
 	dir = !(botfdir^fedir);
 	botvert = ME_Vertex(botedge,dir);
 	topvert = List_Entry(fverts,(i+1)%4);
-	latedge = MVs_CommonEdge(botvert,topvert);
+	latedge = MR_CommonEdge_FN(r,botvert,topvert);
 	if (latedge)
 	  List_Add(redges,latedge);
 	else {
@@ -330,7 +355,7 @@ extern "C" {
 	dir = !(botfdir^fedir);
 	botvert = ME_Vertex(botedge,dir);
 	topvert = List_Entry(fverts,(i+2)%4);
-	latedge = MVs_CommonEdge(botvert,topvert);
+	latedge = MR_CommonEdge_FN(r,botvert,topvert);
 	if (latedge)
 	  List_Add(redges,latedge);
 	else {
@@ -344,7 +369,7 @@ extern "C" {
 	dir = !(botfdir^fedir);
 	botvert = ME_Vertex(botedge,dir);
 	topvert = List_Entry(fverts,(i+3)%4);
-	latedge = MVs_CommonEdge(botvert,topvert);
+	latedge = MR_CommonEdge_FN(r,botvert,topvert);
 	if (latedge)
 	  List_Add(redges,latedge);
 	else {
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..f545d19 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -89,7 +89,22 @@ extern "C" {
       for (i = 0; i < 3; i++) {
         vert = List_Entry(fverts,i);
         
-        if (MVs_CommonEdge(rv0,vert)) {
+        /* Must be connected by an edge of one of the quads of the prism */
+
+        found = 0; idx = 0;
+        while (!found && (face = List_Next_Entry(adj->rfaces,&idx))) {
+          if (face == tri0 || face == tri1) continue;
+          adjfedges = MF_Edges(face,1,0);
+          for (j = 0; j < 4; j++) {
+            edge = List_Entry(adjfedges,j);
+            if (ME_UsesEntity(edge,rv0,MVERTEX) && 
+                ME_UsesEntity(edge,vert,MVERTEX))
+              found = 1;
+          }
+          List_Delete(adjfedges);
+        }
+
+        if (found) {
           List_Add(rvertices,vert);
           List_Add(rvertices,List_Entry(fverts,(i+1)%3));
           List_Add(rvertices,List_Entry(fverts,(i+2)%3));
-- 
2.43.0


From 97dfd144d6ac56ba17f894cb75a12bb21449ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 12/51] fix: searching by local ID works after all entities of
 a kind were deleted

---
 src/base/Mesh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index e73850e..92dc077 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -664,21 +664,21 @@ void MESH_Flag_EntLists_As_Unsorted(Mesh_ptr mesh) {
 void MESH_Enable_LocalIDSearch(Mesh_ptr mesh) {
   if (mesh->lidlists_sorted) return;
 
-  if (mesh->nv) {
+  if (mesh->mvertex) {
     List_Compress(mesh->mvertex);  // can't sort list with gaps
     List_Sort(mesh->mvertex, mesh->nv, sizeof(MVertex_ptr), compareID);
   }
-  if (mesh->ne) {
+  if (mesh->medge) {
     List_Compress(mesh->medge);  // can't sort list with gaps
     List_Sort(mesh->medge, mesh->ne, sizeof(MEdge_ptr), compareID);
   }
 
-  if (mesh->nf) {
+  if (mesh->mface) {
     List_Compress(mesh->mface);  // can't sort list with gaps
     List_Sort(mesh->mface, mesh->nf, sizeof(MFace_ptr), compareID);
   }
 
-  if (mesh->nr) {
+  if (mesh->mregion) {
     List_Compress(mesh->mregion);  // can't sort list with gaps
     List_Sort(mesh->mregion, mesh->nr, sizeof(MRegion_ptr), compareID);
   }
-- 
2.43.0


From f6b55bcf208321c6bc1ebe4171d0369bff891a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 13/51] fix: MESH_Copy leaves the new mesh aware of the IDs in
 use and copies regions of R1/R2 meshes by vertices

The copied entities get the IDs of the source, but the maximum IDs cached
by the destination were not updated: after copying a mesh with gaps in its
IDs, lookup by the larger IDs failed and new entities got IDs already in
use.  The test choosing how regions are copied was always true.
---
 src/base/MESH_Copy.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 21aa2a3..50e9008 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -173,7 +173,7 @@ extern "C" {
     }
 
     
-    if (MESH_RepType(srcmesh) != R1 || MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
+    if (MESH_RepType(srcmesh) != R1 && MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
 
       idx = 0;
       while ((mr = MESH_Next_Region(srcmesh,&idx))) {
@@ -413,6 +413,10 @@ extern "C" {
 
     MAttrib_Delete(copyatt);
 
+    /* IDs were set explicitly; let the new mesh know which are in use */
+
+    MESH_Reset_Cached_MaxIDs(dstmesh);
+
     return 1;
   }
 
-- 
2.43.0


From 41a44209942a0825c1c33082049efa294ad9597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:43 +0000
Subject: [PATCH 14/51] fix: native files keep the full precision of
 coordinates and attribute values

Attribute values were written with six decimals and coordinates with 16
decimals, so small or large values did not survive a round trip.
---
 src/base/MESH_WriteToFile.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..bc11f95 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -122,7 +122,7 @@ extern "C" {
     gdim = MV_GEntDim(mv);
     gid = MV_GEntID(mv);
 
-    fprintf(fp,"%24.16lf %24.16lf %24.16lf   %d %d\n",
+    fprintf(fp,"%.17g %.17g %.17g   %d %d\n",
 	    xyz[0],xyz[1],xyz[2],gdim,gid);
     
   }
@@ -448,12 +448,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -473,12 +473,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -498,12 +498,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -524,12 +524,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -550,12 +550,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -573,12 +573,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -596,12 +596,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -619,12 +619,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %.17g ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %.17g ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
-- 
2.43.0


From dae3a836bbdf13a2d00595b9eab14e4634dd15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 15/51] fix: bandwidth-reducing renumbering gives every entity
 one number

Marks were never cleared without MSTK_USE_MARKERS, faces and regions tested them the wrong way, the work array
could be outgrown, gaps in the IDs and disconnected meshes were not handled and work attributes were left behind.
---
 src/hilev/MESH_Renumber.c | 121 ++++++++++++++++++++++++++------------
 src/util/Graph_renumber.c |  22 ++++++-
 2 files changed, 104 insertions(+), 39 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..32ea1e0 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -23,6 +23,17 @@ int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, int *newmap,
                        int *maxwidth);
 
 
+#ifndef MSTK_USE_MARKERS
+/* Clear the marks of all entities in a list */
+static void unmark_entities(List_ptr list, MAttrib_ptr mkatt) {
+  int idx = 0;
+  MEntity_ptr ment;
+  while ((ment = List_Next_Entry(list,&idx)))
+    MEnt_Set_AttVal(ment, mkatt, 0, 0.0, NULL);
+}
+#endif
+
+
 /* Enforce continuous and possibly optimized numbering for mesh entities */
 /* renum_type = 0   --- Sequential renumbering 
               = 1   --- Reverse Cuthill Mckee 
@@ -82,14 +93,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
     int minid, maxid;
     int *nadj, *newmap, *adj, *offset, nconn;
     int nalloc, depth, maxwidth;
-        
+
+    /* IDs are used as indices below, so eliminate any gaps first */
+
+    MESH_Renumber(mesh, 0, mtype);
+
 #ifdef MSTK_USE_MARKERS
     int mkid = MSTK_GetMarker();
 #else
     MAttrib_ptr mkatt = MAttrib_New(mesh, "mkatt", INT, MALLTYPE);
 #endif
 
-    if (mtype == MVERTEX || mtype == MALLTYPE) { 
+    if ((mtype == MVERTEX || mtype == MALLTYPE) && MESH_Num_Vertices(mesh)) { 
       int nv = MESH_Num_Vertices(mesh);      
       
       /* Compute a graph of vertex connections across elements (faces
@@ -127,7 +142,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
           idx2 = 0;
-          while ((vf = List_Next_Entry(vfaces,&idx2))) {
+          while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
             idx3 = 0;
             while ((adjv = List_Next_Entry(fverts,&idx3))) {
@@ -150,14 +165,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fverts);
           }
-          List_Delete(vfaces);
+          if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          unmark_entities(adjvlist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -182,7 +199,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
           idx2 = 0;
-          while ((vr = List_Next_Entry(vregions,&idx2))) {
+          while (vregions && (vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
             idx3 = 0;
             while ((adjv = List_Next_Entry(rverts,&idx3))) {
@@ -205,14 +222,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rverts);
           }
-          List_Delete(vregions);
+          if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          unmark_entities(adjvlist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -324,7 +343,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent nodes
        in ascending order of their valence) */
 
-    if (mtype == MEDGE || mtype == MALLTYPE) {
+    if ((mtype == MEDGE || mtype == MALLTYPE) && MESH_Num_Edges(mesh)) {
       int ne = MESH_Num_Edges(mesh);
       MEdge_ptr ve;
       List_ptr elist;
@@ -339,8 +358,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	   connected to the starting vertex as the first edge */
 
 	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
-	List_Delete(vedges);
+	e0 = vedges ? List_Entry(vedges,0) : NULL;
+	if (vedges) List_Delete(vedges);
+	if (!e0) {
+	  idx = 0;
+	  e0 = MESH_Next_Edge(mesh,&idx);
+	}
       }
       else {
 	/* Find the edge whose mid point is a minimum point */
@@ -381,7 +404,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           efaces = ME_Faces(me);
           idx2 = 0;
-          while ((ef = List_Next_Entry(efaces,&idx2))) {
+          while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
             idx3 = 0;
             while ((adje = List_Next_Entry(fedges,&idx3))) {
@@ -404,14 +427,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fedges);
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          unmark_entities(adjelist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjelist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -436,7 +461,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           eregions = ME_Regions(me);
           idx2 = 0;
-          while ((er = List_Next_Entry(eregions,&idx2))) {
+          while (eregions && (er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
@@ -459,14 +484,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(redges);
           }
-          List_Delete(eregions);
+          if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          unmark_entities(adjelist,mkatt);
 #endif
           
           nadj[i] = List_Num_Entries(adjelist);
           
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -580,7 +607,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
        edges (differs from RCM in that it does not add adjacent graph nodes
        in ascending order of their valence) */
 
-    if (mtype == MFACE || mtype == MALLTYPE) {      
+    if ((mtype == MFACE || mtype == MALLTYPE) && MESH_Num_Faces(mesh)) {      
       int nf = MESH_Num_Faces(mesh);
 
       if (mtype == MALLTYPE) { 
@@ -589,8 +616,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
            connected to the starting vertex as the first edge */
 
         List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
-        List_Delete(vfaces);
+        f0 = vfaces ? List_Entry(vfaces,0) : NULL;
+        if (vfaces) List_Delete(vfaces);
+        if (!f0) {
+          idx = 0;
+          f0 = MESH_Next_Face(mesh,&idx);
+        }
       }
       else {
         /* Find the face whose mid point is a minimum point */
@@ -640,7 +671,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           while ((fv = List_Next_Entry(fverts,&idx2))) {
             List_ptr vfaces = MV_Faces(fv);
             idx3 = 0;
-            while ((adjf = List_Next_Entry(vfaces,&idx3))) {
+            while (vfaces && (adjf = List_Next_Entry(vfaces,&idx3))) {
               if (adjf != mf) {
                 int fmarked;
 #ifdef MSTK_USE_MARKERS
@@ -648,7 +679,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -658,16 +689,18 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
                 }
               }
             }	    
-            List_Delete(vfaces);
+            if (vfaces) List_Delete(vfaces);
           }
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          unmark_entities(adjflist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -692,7 +725,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
           idx2 = 0;
-          while ((fr = List_Next_Entry(fregions,&idx2))) {
+          while (fregions && (fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
@@ -703,7 +736,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -715,14 +748,16 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rfaces);
           }
-          List_Delete(fregions);
+          if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          unmark_entities(adjflist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -863,8 +898,12 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              region */
 
           List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
-          List_Delete(vregions);
+          r0 = vregions ? List_Entry(vregions,0) : NULL;
+          if (vregions) List_Delete(vregions);
+          if (!r0) {
+            idx = 0;
+            r0 = MESH_Next_Region(mesh,&idx);
+          }
         }
         else {
           /* Find the region whose center point is a minimum point */
@@ -913,7 +952,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           while ((rv = List_Next_Entry(rverts,&idx2))) {
             List_ptr vregions = MV_Regions(rv);
             idx3 = 0;
-            while ((adjr = List_Next_Entry(vregions,&idx3))) {
+            while (vregions && (adjr = List_Next_Entry(vregions,&idx3))) {
               if (adjr != mr) {
                 int rmarked;
 #ifdef MSTK_USE_MARKERS
@@ -921,24 +960,28 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
+                  MEnt_Mark(adjr,mkid);
 #else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
 #endif
+                }
               }
             }	    
-            List_Delete(vregions);
+            if (vregions) List_Delete(vregions);
           }
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjrlist,mkid);
+#else
+          unmark_entities(adjrlist,mkatt);
 #endif
 
           nadj[i] = List_Num_Entries(adjrlist);
 
-          if (nentries+nadj[i] > nalloc) {
+          while (nentries+nadj[i] > nalloc) {
             nalloc *= 2;
             adj = (int *) realloc(adj,nalloc*sizeof(int));
           }
@@ -1048,11 +1091,15 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
 #ifdef MSTK_USE_MARKERS
     MSTK_FreeMarker(mkid);
+#else
+    MAttrib_Delete(mkatt);
 #endif
   }
   
 
-  vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
+  vidatt = MESH_AttribByName(mesh,"vidrcm");
+  if (!vidatt)
+    vidatt = MAttrib_New(mesh,"vidrcm",INT,MVERTEX);
   idx = 0;
   while ((mv = MESH_Next_Vertex(mesh,&idx))) {
     MEnt_Set_AttVal(mv,vidatt,MV_ID(mv),0.0,NULL);
diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..c07cddf 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -136,6 +136,15 @@ void Graph_Build_LevelStructure(int nnodes, int adj[], int nadj[],
     
   for (i = 0; i < nnodes; i++) {
 
+    /* If the graph is not connected, continue with a node of the next
+       component */
+
+    if (i == nnew) {
+      for (j = 0; level[j] != 0; j++);
+      level[j] = curlev+1;
+      nodemap[nnew++] = j;
+    }
+
     /* Visit the next node */
         
     curnode = nodemap[i];
@@ -320,7 +329,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   int *nodemap, *zeros, (*levelpairs)[2], *unmarked_nodes;
   int *baselevelwidth, *deltawidth1, *deltawidth2, *cset, *tag, *maxcset;
   int ncset, nmaxcset, num_unmarked;
-  int maxwidth1, maxwidth2, curdepth, curmaxwidth;
+  int maxwidth1, maxwidth2, curdepth, curdepth1, curmaxwidth;
 
   zeros = (int *) calloc(nnodes,sizeof(int));
 
@@ -335,6 +344,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
 
   for (i = 0; i < nnodes; i++)
     levelpairs[i][0] = level[i];
+  curdepth1 = curdepth;
 
   /* Build levels starting from node n_2 - they form the second number in the level pairs */
 
@@ -344,6 +354,8 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   for (i = 0; i < nnodes; i++)
     levelpairs[i][1] = curdepth+1-level[i];
 
+  if (curdepth1 > curdepth) curdepth = curdepth1;
+
   free(nodemap);
 
 
@@ -409,7 +421,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
       
         cset[0] = unmarked_node;
         ncset = 1;
-        tag[i] = 1;
+        tag[unmarked_node] = 1;
       
         for (j = 0; j < ncset; j++) {
           int node = cset[j];
@@ -667,6 +679,12 @@ void Graph_Assign_Numbers(int nnodes, int adj[], int nadj[], int offset[],
     }
   } /* for each level */
 
+  /* Number the nodes that could not be reached level by level */
+
+  for (i = 0; i < nnodes; i++)
+    if (nodemap[i] == -1)
+      nodemap[i] = nnew++;
+
   free(nbrs_curlev);
   free(nbrs_nxtlev);
   free(curlevnodes);
-- 
2.43.0


From 729a7599a2ae9c2d083ea90926a7ec3df0f635ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 16/51] fix: MESH_GetElementGraph grows the adjacency array of
 3D meshes

---
 src/hilev/MESH_GetElementGraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..59fe96c 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -50,7 +50,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
 	(*adjelems)[pos] = MR_ID(oppr)-1;
 	pos++;
-- 
2.43.0


From 8d49472e4d5beda06e513a5156b4e122ff8a012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 17/51] fix: Exodus II readers lost the block of faces of
 surface meshes and made their element sets region sets

---
 src/io/MESH_ReadExodusII_Partial.c | 4 ++--
 src/io/MESH_ReadExodusII_Serial.c  | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8b9553a..1e1a5d9 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -748,7 +748,7 @@ extern "C" {
 	MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	MF_Set_GEntID(mf, b);
-	MF_Set_GEntID(mf, 2);
+	MF_Set_GEntDim(mf, 2);
 
 	MSet_Add(matset[ib], mf);
 	MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);  /* necessary? */
@@ -773,7 +773,7 @@ extern "C" {
 	  MF_Set_GlobalID(mf, elem_ids[e]);
 #endif
 	  MF_Set_GEntID(mf, b);
-	  MF_Set_GEntDim(mf, 3);
+	  MF_Set_GEntDim(mf, 2);
 	
 	  MSet_Add(matset[ib], mf);
 	  MEnt_Set_AttVal(mf, elblockatt, b, 0.0, NULL);
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..8a74ba7 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1100,7 +1100,7 @@ extern "C" {
             MF_Set_Vertices(mf,nnpe[j],fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1150,7 +1150,7 @@ extern "C" {
             MF_Set_Vertices(mf,nelnodes,fverts);
 
             MF_Set_GEntID(mf, elem_blk_ids[i]);
-            MF_Set_GEntID(mf, 2);
+            MF_Set_GEntDim(mf, 2);
 
             if (mesh_type == 1 || mesh_type == 3) {
               MEnt_Set_AttVal(mf,elblockatt,elem_blk_ids[i],0.0,NULL);
@@ -1785,7 +1785,8 @@ extern "C" {
           char elemsetname[256];
           sprintf(elemsetname,"elemset_%-d",elemset_ids[i]);
 	
-          MSet_ptr elemset = MSet_New(mesh,elemsetname,MREGION);
+          MSet_ptr elemset = MSet_New(mesh,elemsetname,
+                                      (mesh_type == 1) ? MFACE : MREGION);
       
           status = ex_get_set_param(exoid, EX_ELEM_SET, elemset_ids[i],
                                     &num_elems_in_set, &num_df_in_set);
-- 
2.43.0


From 4132557e377bce875bf37b4907fd0af3c7700ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 18/51] fix: Exodus II export: wrong option read, missing
 attributes and sets, NULL vector values, left-over work attributes

---
 src/io/MESH_ExportToExodusII.c | 35 +++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..37ad4a2 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -193,7 +193,7 @@ extern "C" {
 
     verbose = opts ? opts[0] : 0;  // default is 0
     enable_geometry_sets = opts ? opts[1] : 0;  // default is 0
-    enforce_contiguous_ids = opts ? opts[1] : 1; // default is 1
+    enforce_contiguous_ids = opts ? opts[2] : 1; // default is 1
 
     if (verbose)
       fprintf(stdout,"\nMesh representation type is %s\n", 
@@ -622,7 +622,8 @@ extern "C" {
     /* write global parameters */
     
     ex_init_params par;
-    strcpy(par.title,filename);
+    strncpy(par.title,filename,MAX_LINE_LENGTH);
+    par.title[MAX_LINE_LENGTH] = '\0';
     par.num_nodes = nvowned;
 
     if (element_dim == 3 || boundary_dim == 2)
@@ -1290,7 +1291,7 @@ extern "C" {
     char veckey[16] = "_veccomp";
     int keylen = strlen(veckey);
     
-    if (natt >= 0 && num_node_atts_glob) {
+    if (num_node_atts_glob) {
       /* TODO: if natt > 0, we have to look in attnames and filter out
        * unneeded ones */
 
@@ -1299,7 +1300,12 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_node_atts_out = 0;      
-      char **node_att_names_out =  malloc(num_node_atts_glob*6*sizeof(char *));
+      for (j = 0; j < num_node_atts_glob; j++) {
+        MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
+        num_node_atts_out += MAttrib_Get_NumComps(att);
+      }
+      char **node_att_names_out = malloc(num_node_atts_out*sizeof(char *));
+      num_node_atts_out = 0;
 
       for (j = 0; j < num_node_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,node_att_names_glob[j]);
@@ -1366,7 +1372,7 @@ extern "C" {
 
               MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
               MEnt_Get_AttVal(mv,att,&ival,&rval,&pval);
-              node_vars[vid-1] = ((double *) pval)[n];
+              node_vars[vid-1] = pval ? ((double *) pval)[n] : 0.0;
             }
     
 #ifdef EXODUS_6_DEPRECATED         
@@ -1421,7 +1427,7 @@ extern "C" {
 
 
 
-    if (natt >= 0 && num_element_atts_glob) {
+    if (num_element_atts_glob) {
       /* TODO: if natt > 0, we have to look in attnames and filter out
        * unneeded ones */
 
@@ -1430,8 +1436,12 @@ extern "C" {
          attribute name with a keyword and component index */
 
       int num_element_atts_out = 0;      
-      char **element_att_names_out = 
-          malloc(num_element_atts_glob*6*sizeof(char *));
+      for (j = 0; j < num_element_atts_glob; j++) {
+        MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
+        num_element_atts_out += MAttrib_Get_NumComps(att);
+      }
+      char **element_att_names_out = malloc(num_element_atts_out*sizeof(char *));
+      num_element_atts_out = 0;
 
       for (j = 0; j < num_element_atts_glob; j++) {
         MAttrib_ptr att = MESH_AttribByName(mesh,element_att_names_glob[j]);
@@ -1511,7 +1521,7 @@ extern "C" {
               idx = 0; k = 0;
               while ((ment = MSet_Next_Entry(element_blocks_glob[i],&idx))) {
                 MEnt_Get_AttVal(ment,att,&ival,&rval,&pval);
-                elem_vars[k++] = ((double *) pval)[n];
+                elem_vars[k++] = pval ? ((double *) pval)[n] : 0.0;
               }
               
 #ifdef EXODUS_6_DEPRECATED
@@ -1682,11 +1692,13 @@ extern "C" {
         MEnt_Unmark(mv,ownedmk);
       
       MSTK_FreeMarker(ownedmk);
-#else
-      MAttrib_Delete(ownedatt);
 #endif
     }
+#ifndef MSTK_USE_MARKERS
+    MAttrib_Delete(ownedatt);
 #endif
+#endif
+    MAttrib_Delete(block_type_att);
 
 
     idx = 0;
@@ -2278,6 +2290,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
-- 
2.43.0


From 120ae830e8d8697ec479e72abfc4521a900982e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 19/51] fix: Exodus II readers oriented polyhedral faces with
 collinear vertices by rounding noise

---
 src/io/MESH_ReadExodusII_Partial.c | 5 ++++-
 src/io/MESH_ReadExodusII_Serial.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 1e1a5d9..0c6833e 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1126,7 +1126,10 @@ extern "C" {
 		  MSTK_VDiff3(fxyz[(k1+nfv-1)%nfv], fxyz[k1], vec2);
 		  MSTK_VCross3(vec1, vec2, normal);
 		  double len2 = MSTK_VLenSqr3(normal);
-		  if (len2 > 0.0) MSTK_VNormalize3(normal);
+		  /* direction at a vertex between collinear edges is noise */
+		  if (len2 <= 1.0e-16*MSTK_VLenSqr3(vec1)*MSTK_VLenSqr3(vec2))
+		    continue;
+		  MSTK_VNormalize3(normal);
 		  MSTK_VSum3(fnormal[k], normal, fnormal[k]);
 		}
 	      }
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8a74ba7..9a870af 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1333,7 +1333,10 @@ extern "C" {
                   MSTK_VDiff3(fxyz[(k1+nfv-1)%nfv], fxyz[k1], vec2);
                   MSTK_VCross3(vec1, vec2, normal);
                   double len2 = MSTK_VLenSqr3(normal);
-                  if (len2 > 0.0) MSTK_VNormalize3(normal);
+                  /* direction at a vertex between collinear edges is noise */
+                  if (len2 <= 1.0e-16*MSTK_VLenSqr3(vec1)*MSTK_VLenSqr3(vec2))
+                    continue;
+                  MSTK_VNormalize3(normal);
                   MSTK_VSum3(fnormal[k], normal, fnormal[k]);
                 }
               }
-- 
2.43.0


From c2c4cb5352499a7f8e5e60106f85bcee2b15c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 20/51] fix: ExodusII_GetElementGraph misplaced side counts of
 polygon/polyhedron blocks and read centres out of bounds

---
 src/io/ExodusII_GetElementGraph.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/ExodusII_GetElementGraph.c b/src/io/ExodusII_GetElementGraph.c
index 9dafa24..9e596ba 100644
--- a/src/io/ExodusII_GetElementGraph.c
+++ b/src/io/ExodusII_GetElementGraph.c
@@ -526,7 +526,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -698,8 +698,8 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
 	      xcoord += xvals[vid-1];
 	      ycoord += yvals[vid-1];
 	      zcoord += zvals[vid-1];
@@ -744,7 +744,7 @@ extern "C" {
 	}
 
 	for (j = 0; j < nel_in_blk; j++) {
-	  nelemfaces[j] = nnpe[j];
+	  nelemfaces[max_elem_id+j] = nnpe[j];
 	  elem_faces[max_elem_id+j] = (int *) malloc(nnpe[j]*sizeof(int));
 	}
 
@@ -810,11 +810,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nnpe[j]; i++) {
-	      int vid = connect[offset+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nnpe[j]; k++) {
+	      int vid = connect[offset+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nnpe[j];
 	    (*elemcen)[max_elem_id][1] = ycoord/nnpe[j];
@@ -918,11 +918,11 @@ extern "C" {
 
 	  if (get_coords) {
 	    double xcoord = 0.0, ycoord = 0.0, zcoord = 0.0;
-	    for (i = 0; i < nelnodes; i++) {
-	      int vid = connect[nelnodes*j+i];
-	      xcoord += xvals[vid]-1;
-	      ycoord += yvals[vid]-1;
-	      zcoord += zvals[vid]-1;
+	    for (k = 0; k < nelnodes; k++) {
+	      int vid = connect[nelnodes*j+k];
+	      xcoord += xvals[vid-1];
+	      ycoord += yvals[vid-1];
+	      zcoord += zvals[vid-1];
 	    }
 	    (*elemcen)[max_elem_id][0] = xcoord/nelnodes;
 	    (*elemcen)[max_elem_id][1] = ycoord/nelnodes;
-- 
2.43.0


From 15a3d668b0da4ba97f9b22215a9265647bb61c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 21/51] fix: OFF export numbers vertices by position counted
 from 0 and closes the file

---
 src/io/MESH_ExportToOFF.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ExportToOFF.c b/src/io/MESH_ExportToOFF.c
index aad997f..c4189b0 100644
--- a/src/io/MESH_ExportToOFF.c
+++ b/src/io/MESH_ExportToOFF.c
@@ -32,7 +32,7 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   if (!(fp = fopen(filename,"w"))) {
     sprintf(mesg,"Couldn't open output file %s\n",filename);
-    MSTK_Report("MESH_ExportToSTL",mesg,MSTK_ERROR);
+    MSTK_Report("MESH_ExportToOFF",mesg,MSTK_ERROR);
     return 0;
   }
 
@@ -44,10 +44,15 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
 
   /* Write vertex info */
   
-  int idx = 0;
+  /* Faces refer to vertices by their position in the file, counted from 0 */
+
+  MAttrib_ptr vposatt = MAttrib_New(mesh,"offvpos",INT,MVERTEX);
+
+  int idx = 0, vpos = 0;
   MVertex_ptr mv;
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     double xyz[3];
+    MEnt_Set_AttVal(mv, vposatt, vpos++, 0.0, NULL);
     MV_Coords(mv, xyz);
     fprintf(fp,"%20.12lf %20.12lf %20.12lf\n",xyz[0],xyz[1],xyz[2]);
   }
@@ -59,12 +64,20 @@ int MESH_ExportToOFF(Mesh_ptr mesh, const char *filename) {
   while ((mf = MESH_Next_Face(mesh, &idx))) {
     List_ptr fverts = MF_Vertices(mf,1,0);
     fprintf(fp,"%d ",List_Num_Entries(fverts));
-    for (int i = 0; i < List_Num_Entries(fverts); i++)
-      fprintf(fp," %d",MV_ID(List_Entry(fverts,i)));
+    for (int i = 0; i < List_Num_Entries(fverts); i++) {
+      double rval;
+      void *pval;
+      MEnt_Get_AttVal(List_Entry(fverts,i), vposatt, &vpos, &rval, &pval);
+      fprintf(fp," %d",vpos);
+    }
     fprintf(fp,"\n");
     List_Delete(fverts);
   }
 
+  MAttrib_Delete(vposatt);
+
+  fclose(fp);
+
   return 1;
 }
 
-- 
2.43.0


From 133e6480e0e9d5cfb6a04df03515c35267e2e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 22/51] fix: STL export ends its lines, closes the file on
 errors, leaks no lists and divides by no zero normal

---
 src/io/MESH_ExportToSTL.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..f7de3ad 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -37,6 +37,7 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
   if (MESH_Num_Regions(mesh)) {
     MSTK_Report("MESH_ExportToSTL","Cannot export solid meshes\n",MSTK_ERROR);
+    fclose(fp);
     return 0;
   }
 
@@ -47,6 +48,7 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       MSTK_Report("MESH_ExportToSTL","If you need polygonal meshes to be exported\n",MSTK_MESG);
       MSTK_Report("MESH_ExportToSTL","as a triangulated surface mesh to STL, \n",MSTK_MESG);
       MSTK_Report("MESH_ExportToSTL","please send a mail to rao@lanl.gov\n",MSTK_MESG);
+      fclose(fp);
       return 0;
     }
   }
@@ -63,6 +65,7 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
     for (i = 0; i < nfv; i++)
       MV_Coords(List_Entry(fverts,i),fxyz[i]);
+    List_Delete(fverts);
       
     {
       vec1[0] = fxyz[1][0]-fxyz[0][0];
@@ -79,18 +82,20 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
       
       len = sqrt(normal[0]*normal[0]+normal[1]*normal[1]+normal[2]*normal[2]);
       
-      normal[0] /= len; normal[1] /= len; normal[2] /= len;
+      if (len > 0.0) {
+        normal[0] /= len; normal[1] /= len; normal[2] /= len;
+      }
     }
 
     fprintf(fp,"facet normal %12.8lf %12.8lf %12.8lf\n",normal[0],normal[1],normal[2]);
     fprintf(fp,"  outer loop\n");
     for (j = 0; j < 3; j++) 
       fprintf(fp,"    vertex %20.10lf %20.10lf %20.10lf\n",fxyz[j][0],fxyz[j][1],fxyz[j][2]);
-    fprintf(fp,"endloop");
-    fprintf(fp,"endfacet");
+    fprintf(fp,"  endloop\n");
+    fprintf(fp,"endfacet\n");
   }
 
-  fprintf(fp,"endsolid");
+  fprintf(fp,"endsolid\n");
 
   fclose(fp);
 
-- 
2.43.0


From cdc5a6881c93487602422e823a74580c647eafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 23/51] fix: GMV files: pyramids, polyhedra with few vertices,
 line elements, vfaces of later cells, colours of interior faces

---
 src/io/MESH_ExportToGMV.c   | 63 +++++++++++--------------------------
 src/io/MESH_ImportFromGMV.c |  9 +++---
 2 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..af2f50c 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
@@ -389,51 +389,23 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
         rfaces = MR_Faces(region);
         nrf = List_Num_Entries(rfaces);
 
-        switch (nrv) {
-        case 4:
-          rtype = TET;
+        /* the number of vertices and faces alone does not tell a
+           standard element from a polyhedron */
+
+        rtype = MR_ElementType(region);
+
+        switch (rtype) {
+        case TET:
           fprintf(fp,"tet 4 ");
           break;
-        case 5:
-          if (nrf == 5) {
-            rtype = PYRAMID;
-            fprintf(fp,"pyramid 5 ");
-          }
-          else 
-            rtype = POLYHED;
+        case PYRAMID:
+          fprintf(fp,"pyramid 5 ");
           break;
-        case 6:
-          if (nrf == 5) { /* need additional check to fully verify */
-            rtype = PRISM;
-            fprintf(fp,"prism 6 ");
-          }
-          else
-            rtype = POLYHED;
+        case PRISM:
+          fprintf(fp,"prism 6 ");
           break;
-        case 8:
-          if (nrf == 6) {
-            /* Really verify that its a hex - all faces must be a quad */
-            /* It is possible to have a non-hex with 6 faces, 8 vertices
-               and 12 edges */
-
-            int allquad = 1;
-            for (jf = 0; jf < nrf; jf++) {
-              face = List_Entry(rfaces,jf);
-              if (MF_Num_Vertices(face) != 4) {
-                allquad = 0;
-                break;
-              }
-            }
-
-            if (allquad) {
-              rtype = HEX;
-              fprintf(fp,"hex 8 ");
-            }
-            else
-              rtype = POLYHED;
-          }
-          else
-            rtype = POLYHED;
+        case HEX:
+          fprintf(fp,"hex 8 ");
           break;
         default:
           rtype = POLYHED;
@@ -701,6 +673,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   if (ncells2) {
     if (opts && opts[1] == 1) {
       MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
+      fclose(fp);
       return 0;
     }
 
@@ -943,6 +916,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
@@ -1037,9 +1011,10 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
               continue;
 	  }
           else {
-            if (strncmp(attname+1,"idatt",5) == 0) {
+            if (strncmp(attname+1,"idatt",5) == 0 ||
+                strcmp(attname,"cellmk") == 0) {
               /* this is a special MSTK attribute created for writing out
-                 contiguous entity IDs - ignore it */
+                 contiguous entity IDs or marking cells - ignore it */
               continue;
             }
             else {
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..563feaf 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -37,7 +37,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
@@ -272,7 +272,7 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
 
 	  non_vface_cells = 1;
 	}
@@ -530,6 +530,7 @@ extern "C" {
 	for (i = 0; i < MAXPF3; i++)
 	  free(rfv_template[i]);
 	free(rfv_template);
+	rfv_template = NULL;
       }
 
       /* END READING CELLS (EXCEPT VFACES FOR VFACE2D and VFACE3D) */
@@ -584,7 +585,7 @@ extern "C" {
 	}
 
 	if (vface2d) {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Edge must have already been defined for adjacent face */
 
@@ -609,7 +610,7 @@ extern "C" {
 	  }
 	}
 	else {
-	  if (opp_fid && opp_fid < fid) {
+	  if (opp_fid && opp_fid < j+1) {
 
 	    /* Face must have already been defined for adjacent region */
 
-- 
2.43.0


From 5333b083b0056692a72a9c699473e6a5b1e9c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 24/51] fix: file formats are deduced from the last extension
 of a path

---
 src/io/MESH_ExportToFile.c   | 8 +-------
 src/io/MESH_ImportFromFile.c | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/io/MESH_ExportToFile.c b/src/io/MESH_ExportToFile.c
index 6746a01..872b40d 100644
--- a/src/io/MESH_ExportToFile.c
+++ b/src/io/MESH_ExportToFile.c
@@ -37,13 +37,7 @@ int MESH_ExportToFile(Mesh_ptr mesh, const char *outfilename, const char *outfor
     strcpy(format,outformat);
   else {
     char *ext;
-    if (outfilename[0] == '.') {
-      ext = strchr(outfilename,'.');
-      ++ext;
-      ext = strchr(ext,'.');
-    }
-    else
-      ext = strchr(outfilename,'.');
+    ext = strrchr(outfilename,'.'); /* directories may have dots in their names */
     if (ext != NULL) {
       ++ext;                 /* go past the . */
       if (strcmp(ext,"mstk") == 0) 
diff --git a/src/io/MESH_ImportFromFile.c b/src/io/MESH_ImportFromFile.c
index 5884369..e77131d 100644
--- a/src/io/MESH_ImportFromFile.c
+++ b/src/io/MESH_ImportFromFile.c
@@ -23,13 +23,7 @@ extern "C" {
       strcpy(format,informat);
     else {
       char *ext;
-      if (infilename[0] == '.') {
-        ext = strchr(infilename,'.');
-        ++ext;
-        ext = strchr(ext,'.');
-      }
-      else
-        ext = strchr(infilename,'.');
+      ext = strrchr(infilename,'.'); /* directories may have dots in their names */
       if (ext != NULL) {
         ++ext;                 /* go past the . */
         if (strcmp(ext,"mstk") == 0) 
-- 
2.43.0


From 522ee86b860fbc3234aee3afa2c33d27ed650bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 25/51] fix: GMV export wrote empty region variables for
 surface meshes

---
 src/io/MESH_ExportToGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index af2f50c..e6e9e57 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -987,7 +987,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
       attrib = MESH_Attrib(mesh,i);
       
       attentdim = MAttrib_Get_EntDim(attrib);
-      if ((attentdim == MVERTEX)  || (attentdim == MREGION) || 
+      if ((attentdim == MVERTEX)  || (ncells3 && attentdim == MREGION) || 
           (ncells2 && attentdim == MFACE) || 
           (ncells1 && attentdim == MEDGE) || (attentdim == MALLTYPE)) {
         
-- 
2.43.0


From 70174f4d35429993d940bacdd9bfe9e6db253d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 26/51] fix: global ID lookup in meshes without entities of a
 kind

---
 src/base/Mesh.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 92dc077..79f8d98 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1509,6 +1509,8 @@ MVertex_ptr MESH_VertexFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MVertex_ptr mv;
 
+  if (!mesh->nv) return NULL;  /* no such entities - search list is not built */
+
   if (!mesh->gid_sorted_mvlist)
     MSTK_Report("MESH_VertexFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1533,6 +1535,8 @@ MEdge_ptr MESH_EdgeFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MEdge_ptr me;
 
+  if (!mesh->ne) return NULL;  /* no such entities - search list is not built */
+
   if (!mesh->gid_sorted_melist)
     MSTK_Report("MESH_EdgeFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
@@ -1557,7 +1561,9 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->nf) return NULL;  /* no such entities - search list is not built */
+
+  if (!mesh->gid_sorted_mflist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1581,7 +1587,9 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->nr) return NULL;  /* no such entities - search list is not built */
+
+  if (!mesh->gid_sorted_mrlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
-- 
2.43.0


From 1f4384def3be38051d08cedb0cd7b9431b746a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 27/51] fix: ghost layer of surface meshes used attributes of
 the wrong meshes

---
 src/par/MESH_AddGhost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_AddGhost.c b/src/par/MESH_AddGhost.c
index 9bc3a74..a9c3ff7 100644
--- a/src/par/MESH_AddGhost.c
+++ b/src/par/MESH_AddGhost.c
@@ -161,8 +161,8 @@ int MESH_Surf_AddGhost_FN(Mesh_ptr mesh, Mesh_ptr submesh, int part_no, int ring
 #ifdef MSTK_USE_MARKERS
   int mkvid = MSTK_GetMarker();
 #else
-  MAttrib_ptr lvidatt = MAttrib_New(mesh, "temp_lv_id", INT, MVERTEX);
-  MAttrib_ptr gvidatt = MAttrib_New(submesh, "temp_gv_id", INT, MVERTEX);
+  MAttrib_ptr lvidatt = MAttrib_New(submesh, "temp_lv_id", INT, MVERTEX);
+  MAttrib_ptr gvidatt = MAttrib_New(mesh, "temp_gv_id", INT, MVERTEX);
 #endif
 
   bverts = List_New(10);
-- 
2.43.0


From 59edbfea33f50052dbdec3e04caf486de11e6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 28/51] fix: attribute values copied to submeshes: unset and
 one-component vectors

---
 src/par/MESH_CopyAttr.c | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..e07d9c2 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -89,7 +89,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -99,12 +99,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? (double *) pval : NULL; /* copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmv);
         for (i = 0; i < num; i++)
@@ -129,7 +124,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -139,12 +134,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? (double *) pval : NULL; /* copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lme);
         for (i = 0; i < num; i++)
@@ -169,7 +159,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -179,12 +169,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? (double *) pval : NULL; /* copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmf);
         for (i = 0; i < num; i++)
@@ -210,7 +195,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       if ((atttype == INT && ival == 0) || 
           (atttype == DOUBLE  && rval == 0.0) ||
-          (atttype == POINTER && pval == NULL))
+          ((atttype == VECTOR || atttype == TENSOR) && pval == NULL))
         continue;
 
       int dummy_ival;
@@ -220,12 +205,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = (atttype == VECTOR || atttype == TENSOR) ? (double *) pval : NULL; /* copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmr);
         for (i = 0; i < num; i++)
-- 
2.43.0


From 79a8fd0ca5589a252cf8c6df6243cc1c7eb319dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 29/51] fix: attribute messages: unset and one-component
 vectors, leaked buffers

---
 src/par/MESH_Recv_Attribute.c         | 11 ++++-------
 src/par/MESH_Recv_AttributeMetaData.c |  5 +----
 src/par/MESH_Send_Attribute.c         |  8 ++++----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..0aa6d41 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,12 +134,9 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
-        nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
-      }
+      rval_arr = &(list_value_double[j*ncomp]); /* copied when set */
+      for(k = 0; k < ncomp; k++)
+        if (rval_arr[k] != 0.0) nullval = 0;
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
 
@@ -149,7 +146,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..8e631f6 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,10 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype);
-      else
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
+      attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
     }
     
     if (natt) {
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..6cd59b6 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -125,12 +125,12 @@ extern "C" {
       if (att_type == INT)
         list_value_int[j] = ival;
       else {
-        if(ncomp == 1)
+        if (att_type == DOUBLE)
           list_value_double[j] = rval;
-        if(ncomp > 1) {
-          rval_arr = (double *)pval;
+        else {
+          rval_arr = (double *)pval;  /* NULL if no value was set */
           for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
-- 
2.43.0


From 547e9eec998a9b97d1b1184e743541095ba82e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 30/51] fix: a mesh can be partitioned again: forget old
 masters; one-component vectors

---
 src/par/MESH_Partition.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Partition.c b/src/par/MESH_Partition.c
index 38c418b..54a99b9 100644
--- a/src/par/MESH_Partition.c
+++ b/src/par/MESH_Partition.c
@@ -106,10 +106,7 @@ extern "C" {
       ncomp = MAttrib_Get_NumComps(attrib);
       mtype = MAttrib_Get_EntDim(attrib);
       for (i = 0; i < num; i++) {
-	if (ncomp == 1)
-	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype);
-	else
-	  attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
+	attrib =  MAttrib_New(submeshes[i], attname, att_type, mtype, ncomp);
       }
     }
 
@@ -176,6 +173,16 @@ extern "C" {
        local entities because they are not being checked, only being
        set. */
 
+    /* Forget the masters from an earlier partitioning of this mesh */
+
+    idx = 0;
+    while ((gmv = MESH_Next_Vertex(mesh,&idx)))
+      MV_Set_MasterParID(gmv,0);
+
+    idx = 0;
+    while ((gme = MESH_Next_Edge(mesh,&idx)))
+      ME_Set_MasterParID(gme,0);
+
     for (part_no = 0; part_no < num; part_no++) {
 
       l2gatt = MAttrib_New(submeshes[part_no],"Local2Global",POINTER,MALLTYPE);
@@ -337,6 +344,20 @@ extern "C" {
     MEdge_ptr *lfedges = (MEdge_ptr *) malloc(MAXPV2*sizeof(MEdge_ptr));
     int *lfedirs = (int *) malloc(MAXPV2*sizeof(int));
 
+    /* Forget the masters from an earlier partitioning of this mesh */
+
+    idx = 0;
+    while ((gmv = MESH_Next_Vertex(mesh,&idx)))
+      MV_Set_MasterParID(gmv,0);
+
+    idx = 0;
+    while ((gme = MESH_Next_Edge(mesh,&idx)))
+      ME_Set_MasterParID(gme,0);
+
+    idx = 0;
+    while ((gmf = MESH_Next_Face(mesh,&idx)))
+      MF_Set_MasterParID(gmf,0);
+
     /* for each partition */
     for (part_no = 0; part_no < num; part_no++) {
 
-- 
2.43.0


From 8953919e978b0f69ef15b6f787efc736af336a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 31/51] fix: a distributed mesh that is kept holds no dangling
 lists; rank 0 has the attributes of the others

---
 src/par/MESH_Partition_and_Send.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..9a70510 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -338,6 +338,15 @@ extern "C" {
           
       }
     }
+    else {
+      /* The submesh kept here must not have attributes that the ones
+         sent away lack, or collective attribute updates won't match */
+
+      for (a = MESH_Num_Attribs(submeshes[rank])-1; a >= 0; a--) {
+        attrib = MESH_Attrib(submeshes[rank],a);
+        if (MAttrib_Get_Type(attrib) != POINTER) MAttrib_Delete(attrib);
+      }
+    }
 
 
     if (*mysubmesh == NULL)
@@ -374,9 +383,9 @@ extern "C" {
     free(submeshes);
 
 
-    /* Delete the lists associated with g2latt attribute but don't
-       remove attribute itself from each of these entities - it will
-       get deleted when the mesh gets deleted */
+    /* Delete the lists associated with g2latt attribute; the attribute
+       itself must go too if the mesh is kept, or a later distribution
+       of the mesh would find and use the deleted lists */
 
     idx = 0;
     while ((mv = MESH_Next_Vertex(parentmesh,&idx))) {
@@ -402,7 +411,11 @@ extern "C" {
       if (g2llist) List_Delete(g2llist);
     }	
 	
-    if (del_inmesh) MESH_Delete(parentmesh);
+    if (del_inmesh)
+      MESH_Delete(parentmesh);
+    else
+      MAttrib_Delete(g2latt);
+
     return 1;
   }
 
-- 
2.43.0


From 5f459edf5050545073e09cc285aed1617c739eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 32/51] fix: overlap edges of rank 0 are on the partition
 boundary too

---
 src/par/MESH_AssignGlobalIDs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par/MESH_AssignGlobalIDs.c b/src/par/MESH_AssignGlobalIDs.c
index 17ff68d..60daae0 100644
--- a/src/par/MESH_AssignGlobalIDs.c
+++ b/src/par/MESH_AssignGlobalIDs.c
@@ -521,6 +521,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
     if(edge_ov_label[rank*max_nbe+i]) {
       me = List_Entry(boundary_edges,i);
       ME_Set_PType(me,POVERLAP);
+      ME_Flag_OnParBoundary(me);  /* not yet done on rank 0 */
       noe++;
   }
 
-- 
2.43.0


From 2bff3eeff236934d96a724635620dd98cac1b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 33/51] fix: attribute update: unset and one-component vectors,
 zero and missing owner values

---
 src/par/MESH_Update1Attribute.c | 44 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..3a64687 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -131,12 +131,12 @@ extern "C" {
 	list_value_int_send[j] = ival;
       }
       else {
-	if (ncomp == 1)
+	if (att_type == DOUBLE)
 	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
-	  rval_arr = (double *)pval;
+	else {
+	  rval_arr = (double *)pval;  /* NULL if no value was set */
 	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
+	    list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
 	}
       }
     }
@@ -305,6 +305,7 @@ extern "C" {
         char msg[256];
         sprintf(msg, "Cannot find entity of type %d with global ID %d in list on proc %d", mtype, global_id, myrank);
         MSTK_Report("MESH_UpdateAttr",msg,MSTK_ERROR);
+        continue;
       }
 
       /* get the index */
@@ -312,29 +313,22 @@ extern "C" {
       if (att_type == INT)
 	ival = list_value_int_recv[i];
       else {
-	if(ncomp == 1) 
+	if (att_type == DOUBLE)
 	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
-	  {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+	else {
+          int allzero = 1;
+          for (k = 0; k < ncomp; k++)
+            if (list_value_double_recv[i*ncomp+k] != 0.0) {
+              allzero = 0;
+              break;
+            }
+          rval_arr = allzero ? NULL : &(list_value_double_recv[i*ncomp]);
+        }
       }
-      if ((att_type == INT && ival) ||
-          (att_type == DOUBLE && rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+
+      /* Set the value even if it is zero since the ghost may have had
+         some other value */
+      MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
     }
 
     /* release the send buffer */
-- 
2.43.0


From 598dd020c847e134d34f543ecf21bc3fe6f2e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 34/51] fix: attribute gather-scatter: vectors,
 min/max/average, fall-through

---
 src/par/MESH_GathScat1Attribute.c | 91 +++++++++++++------------------
 1 file changed, 39 insertions(+), 52 deletions(-)

diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..362828c 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -273,12 +273,12 @@ extern "C" {
 	      list_value_int_send[n] = ival;
 	    }
 	    else {
-	      if (ncomp == 1)
+	      if (att_type == DOUBLE)
 		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
-		rval_arr = (double *)pval;
+	      else {
+		rval_arr = (double *)pval;  /* NULL if no value was set */
 		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
+		  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	      }
 	    }
             n++;
@@ -422,8 +422,11 @@ extern "C" {
       double final_rval;
       double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      rval_arr = (att_type == VECTOR || att_type == TENSOR) ?
+        (double *) pval : NULL;
+      for (k = 0; k < ncomp; k++)
+        final_rval_arr[k] = rval_arr ? rval_arr[k] : 0.0;
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -463,7 +466,7 @@ extern "C" {
           }
         }
         else {
-          if(ncomp == 1) {
+          if (att_type == DOUBLE) {
             rval = list_value_double_recv[ind];
             switch (optype) {
               case ATTOP_MAX:
@@ -480,46 +483,31 @@ extern "C" {
                 break;
             }
           }
-          if(ncomp > 1) {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+          else {
+            /* vectors and tensors are compared by their norm */
+            double final_norm = 0.0, norm = 0.0;
+            rval_arr = &(list_value_double_recv[ind*ncomp]);
+            for (k = 0; k < ncomp; k++) {
+              final_norm += final_rval_arr[k]*final_rval_arr[k];
+              norm += rval_arr[k]*rval_arr[k];
+            }
+            switch (optype) {
+              case ATTOP_MAX:
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_MIN:
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+            }
           }
         }
 
@@ -535,16 +523,15 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
-      
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
-        MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
 
+      /* Set the value even if it is zero since the entity may have had
+         some other value */
+      MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      free(final_rval_arr);
     }
     
         
-- 
2.43.0


From 5a39faa545fea9d392c6b8f58db74186f3bbd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 35/51] fix: edge/face attribute exchange: unset and
 one-component vectors, zero values

---
 src/par/MESH_XchngEdgeFaceAttrib.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..3bb2587 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -266,12 +266,12 @@ extern "C" {
                 list_value_int_send[n] = ival;
               }
               else {
-                if (ncomp == 1)
+                if (att_type == DOUBLE)
                   list_value_double_send[n] = rval;
-                if (ncomp > 1) {
-                  rval_arr = (double *)pval;
+                else {
+                  rval_arr = (double *)pval;  /* NULL if no value was set */
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -430,7 +430,7 @@ extern "C" {
         if (att_type == INT) 
           ival = list_value_int_recv[ind];
         else {
-          if(ncomp == 1) 
+          if (att_type == DOUBLE)
             rval = list_value_double_recv[ind];
           else {
             int allzero = 1;
@@ -439,21 +439,14 @@ extern "C" {
                 allzero = 0;
                 break;
               }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
+            rval_arr = allzero ? NULL : &(list_value_double_recv[ind*ncomp]);
           }
         }
-        
-        if ((att_type == INT && ival) ||
-            (att_type == DOUBLE && rval) ||
-            ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-          MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
-       
+
+        /* Set the value even if it is zero since the master may have
+           had some other value */
+        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
 
-- 
2.43.0


From 9d0a134115f3c5a457b504d012433d0c70c6523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 36/51] fix: parallel check: deadlock, endless loop, short
 buffers, edges of faces and faces of regions

---
 src/par/MESH_Parallel_Check.c | 94 +++++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 16 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..9032d49 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -18,6 +18,7 @@ extern "C" {
 
   /* check is the parallel mesh is valid */
 int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank);
+int MESH_Parallel_Check_SameGIDs(List_ptr ents, int num, int *gids);
 int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
 int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
 int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
@@ -25,6 +26,22 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 int MESH_Parallel_Check_GlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm comm);
 
 
+/* Are 'gids' (sign immaterial) the global IDs of the entities in a list? */
+
+int MESH_Parallel_Check_SameGIDs(List_ptr ents, int num, int *gids) {
+  int i, j;
+
+  if (List_Num_Entries(ents) != num) return 0;
+
+  for (i = 0; i < num; i++) {
+    for (j = 0; j < num; j++)
+      if (abs(gids[j]) == MEnt_GlobalID(List_Entry(ents,i))) break;
+    if (j == num) return 0;
+  }
+  return 1;
+}
+
+
 int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   int valid;
 
@@ -40,8 +57,9 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
   valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+
+  /* collective - must be called even if this processor found errors */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
@@ -135,10 +153,10 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d verts from rank %d\n", rank,count/3, i);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -237,9 +255,9 @@ int MESH_Parallel_Check_VertexGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MVERTEX) ) {
-	MPI_Recv(recv_list_vertex,3*nv,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_vertex,3*max_nv,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
-	MPI_Recv(recv_list_coor,3*nv,MPI_DOUBLE,i,rank,comm,&status);
+	MPI_Recv(recv_list_coor,3*max_nv,MPI_DOUBLE,i,rank,comm,&status);
 	for(j = 0; j < count/3;  j++) {
 	  global_id = recv_list_vertex[3*j+2];
 	  loc = (int *)bsearch(&global_id,
@@ -374,7 +392,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne?
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -466,7 +484,7 @@ int MESH_Parallel_Check_EdgeGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	MPI_Send(list_edge,5*index_me,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MEDGE) ) {
-	MPI_Recv(recv_list_edge,5*ne,MPI_INT,i,rank,comm,&status);  // should we get 5*max_ne
+	MPI_Recv(recv_list_edge,5*max_ne,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(j = 0; j < count/5;  j++) {
 	  global_id = recv_list_edge[5*j+4];
@@ -623,7 +641,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -638,6 +656,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -646,6 +665,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -675,6 +695,14 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      sprintf(mesg,"Global face %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mfedges = MF_Edges(mf,1,0);
+	    if(!MESH_Parallel_Check_SameGIDs(mfedges, nfe, recv_list_face+index_mf+1)) {
+	      valid = 0;
+	      sprintf(mesg,"Global face %-d from processor %d and on processor %d edges mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mfedges);
 	  }
 	  index_mf += (nfe + 4);
 	}
@@ -725,7 +753,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
       }
 
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MFACE) ) {
-	MPI_Recv(recv_list_face,(MAXPV3+4)*nf,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_face,(MAXPV3+4)*max_nf,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//printf("rank %d receives %d faces from rank %d\n", rank,count, i);
 	for(index_mf = 0; index_mf < count;) {
@@ -740,6 +768,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	    sprintf(mesg,"Global face %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mf += (nfe + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -748,6 +777,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
               valid = 0;
               sprintf(mesg,"Could not find overlap face with local ID %d on processor %d", ov_list[nof + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mf += (nfe + 4);
               continue;
             }
 	    gdim = (recv_list_face[index_mf+nfe+1] & 7);
@@ -777,6 +807,14 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
 	      sprintf(mesg,"Global face %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mfedges = MF_Edges(mf,1,0);
+	    if(!MESH_Parallel_Check_SameGIDs(mfedges, nfe, recv_list_face+index_mf+1)) {
+	      valid = 0;
+	      sprintf(mesg,"Global face %-d from processor %d and on processor %d edges mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mfedges);
 	  }
 	  index_mf += (nfe + 4);
 	}
@@ -853,7 +891,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
     if(i == rank) continue;
     if(i < rank) {     
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	//	printf("rank %d receives %d regions from rank %d\n", rank,count, i);
 	for(index_mr = 0; index_mr < count;) {
@@ -868,6 +906,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  } else {
 	    iloc = (int)(loc - ov_list);
@@ -876,6 +915,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -904,6 +944,14 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      sprintf(mesg,"Global region %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mrfaces = MR_Faces(mr);
+	    if(!MESH_Parallel_Check_SameGIDs(mrfaces, nrf, recv_list_region+index_mr+1)) {
+	      valid = 0;
+	      sprintf(mesg,"Global region %-d from processor %d and on processor %d faces mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mrfaces);
 	  }
 	  index_mr += (nrf + 4);
 	}
@@ -952,7 +1000,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	MPI_Send(list_region,index_mr,MPI_INT,i,i,comm);
       }
       if( MESH_Has_Overlaps_On_Prtn(mesh,i,MREGION) ) {
-	MPI_Recv(recv_list_region,(MAXPF3+4)*nr,MPI_INT,i,rank,comm,&status);
+	MPI_Recv(recv_list_region,(MAXPF3+4)*max_nr,MPI_INT,i,rank,comm,&status);
 	MPI_Get_count(&status,MPI_INT,&count);
 	for(index_mr = 0; index_mr < count;) {
 	  nrf = recv_list_region[index_mr];
@@ -966,6 +1014,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	    sprintf(mesg,"Global region %-d from processor %d not found on processor %d ", global_id, i, rank);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+            index_mr += (nrf + 4);
             continue;
 	  }
 	  else {
@@ -975,6 +1024,7 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
               valid = 0;
               sprintf(mesg,"Could not find overlap region with local ID %d on processor %d", ov_list[nor + iloc], rank);
               MSTK_Report(funcname, mesg, MSTK_ERROR);
+              index_mr += (nrf + 4);
               continue;
             }
 	    gdim = (recv_list_region[index_mr+nrf+1] & 7);
@@ -1003,6 +1053,14 @@ int MESH_Parallel_Check_RegionGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Co
 	      sprintf(mesg,"Global region %-d from processor %d is not on processor %d", global_id, i, rank);
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    }
+
+	    mrfaces = MR_Faces(mr);
+	    if(!MESH_Parallel_Check_SameGIDs(mrfaces, nrf, recv_list_region+index_mr+1)) {
+	      valid = 0;
+	      sprintf(mesg,"Global region %-d from processor %d and on processor %d faces mismatch", global_id, i, rank);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	    }
+	    List_Delete(mrfaces);
 	  }
 	  index_mr += (nrf + 4);
 	}
@@ -1037,7 +1095,8 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
   /* check vertex */
   while ((mv = MESH_Next_Vertex(mesh, &idx))) {
     if(MV_PType(mv) == PGHOST) {
-      if (MV_MasterParID(mv) == rank) {
+      if (MV_MasterParID(mv) == rank ||
+          !MESH_Has_Ghosts_From_Prtn(mesh,MV_MasterParID(mv),MVERTEX)) {
 	sprintf(mesg,"Ghost Vertex %-d has master partition id %d but it is on partition %d", MV_GlobalID(mv),MV_MasterParID(mv),rank);
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
@@ -1056,7 +1115,8 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
   idx = 0;
   while ((me = MESH_Next_Edge(mesh, &idx))) {
     if(ME_PType(me) == PGHOST) {
-      if (ME_MasterParID(me) == rank) {
+      if (ME_MasterParID(me) == rank ||
+          !MESH_Has_Ghosts_From_Prtn(mesh,ME_MasterParID(me),MEDGE)) {
 	sprintf(mesg,"Ghost Edge %-d has master partition id %d but it is on partition %d", ME_GlobalID(me), ME_MasterParID(me),rank);
         //	printf("the mismatch edge %d endpoints: (%d,%d)\n", ME_GlobalID(me), MV_GlobalID(ME_Vertex(me,0)), MV_GlobalID(ME_Vertex(me,1)));
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
@@ -1077,7 +1137,8 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
   idx = 0;
   while ((mf = MESH_Next_Face(mesh, &idx))) {
     if(MF_PType(mf) == PGHOST) {
-      if (MF_MasterParID(mf) == rank) {
+      if (MF_MasterParID(mf) == rank ||
+          !MESH_Has_Ghosts_From_Prtn(mesh,MF_MasterParID(mf),MFACE)) {
 	sprintf(mesg,"Ghost Face %-d has master partition id %d but it is on partition %d", MF_GlobalID(mf), MF_MasterParID(mf),rank);
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
@@ -1096,7 +1157,8 @@ int MESH_Parallel_Check_Ghost(Mesh_ptr mesh, int rank) {
   idx = 0;
   while ((mr = MESH_Next_Region(mesh, &idx))) {
     if(MR_PType(mr) == PGHOST) {
-      if (MR_MasterParID(mr) == rank) {
+      if (MR_MasterParID(mr) == rank ||
+          !MESH_Has_Ghosts_From_Prtn(mesh,MR_MasterParID(mr),MREGION)) {
 	sprintf(mesg,"Ghost Region %-d has master partition id %d but it is on partition %d", MR_GlobalID(mr), MR_MasterParID(mr),rank);
 	MSTK_Report(funcname,mesg,MSTK_ERROR);
 	valid = 0;
-- 
2.43.0


From bb65a48c7d6b4387dd9aa0db44136f474112cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 37/51] fix: partitioners: gaps in element IDs, edges with more
 than two faces, neighbors in the Zoltan graph

---
 src/par/FixColumnPartitions.c      | 32 ++++++++++++++-------
 src/par/MESH_PartitionWithMetis.c  | 45 ++++++++++++++++++++++++------
 src/par/MESH_PartitionWithZoltan.c | 39 +++++++++++++++-----------
 3 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/src/par/FixColumnPartitions.c b/src/par/FixColumnPartitions.c
index 9e829a5..13e2dd9 100644
--- a/src/par/FixColumnPartitions.c
+++ b/src/par/FixColumnPartitions.c
@@ -126,13 +126,13 @@ int FixColumnPartitions_UpDownFaces(Mesh_ptr mesh, MRegion_ptr mr, MFace_ptr* up
 
   
 int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) { 
-  int idx, curid, nxtid, homepid, nxtpid, num_cols, num_cells_in_col;
+  int idx, curpos, nxtpos, maxid, homepid, nxtpid, num_cols, num_cells_in_col;
   int num_touches, num_not_touched;
   int interior, done, nmove=0;
   MRegion_ptr mr, curreg, nxtreg;
   MFace_ptr topf, botf, expected_topf;
   List_ptr fregs;
-  int* touched;
+  int* touched, *pos;
   FILE* fid;
   
   if (MESH_Num_Regions(mesh) == 0) return 1; /* Not implemented for 2D (perhaps not needed either) */
@@ -140,6 +140,17 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
   /* ensure every region is touched once */
   touched = calloc(MESH_Num_Regions(mesh),sizeof(int));
   for (idx=0; idx!=MESH_Num_Regions(mesh); ++idx) touched[idx] = 0;
+
+  /* 'part' goes by the position of the regions in the mesh - IDs may have gaps */
+  maxid = 0;
+  idx = 0;
+  while ((mr = MESH_Next_Region(mesh,&idx)))
+    if (MR_ID(mr) > maxid) maxid = MR_ID(mr);
+  pos = (int *) malloc((maxid+1)*sizeof(int));
+  idx = 0; curpos = 0;
+  while ((mr = MESH_Next_Region(mesh,&idx)))
+    pos[MR_ID(mr)] = curpos++;
+
 #ifdef DEBUG
   printf("Read %-d regions", MESH_Num_Regions(mesh));
   /* loop over all regions, finding regions whose "up" face is a boundary */
@@ -165,15 +176,15 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
     num_cells_in_col = 0;
     done = 0;
     curreg = mr;
-    curid = MR_ID(curreg);
-    homepid = part[curid-1];
+    curpos = pos[MR_ID(curreg)];
+    homepid = part[curpos];
 
     /* continue to loop through the column */
     expected_topf = topf;
     while (!done) {
-      if (touched[curid-1]) 
+      if (touched[curpos]) 
         MSTK_Report("FixColumnPartitions","Mesh is not columnar, iteration process touches the same cell twice.",MSTK_FATAL);
-      touched[curid-1] = 1;
+      touched[curpos] = 1;
       num_cells_in_col++;
       num_touches++;
       
@@ -187,15 +198,15 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
         nxtreg = List_Entry(fregs,0);
         if (nxtreg == curreg) nxtreg = List_Entry(fregs,1);
         
-        nxtid = MR_ID(nxtreg);
-        nxtpid = part[nxtid-1];
+        nxtpos = pos[MR_ID(nxtreg)];
+        nxtpid = part[nxtpos];
         if (nxtpid != homepid) {
-          part[nxtid-1] = homepid;
+          part[nxtpos] = homepid;
           nmove++;
         }
 
         curreg = nxtreg;
-        curid = nxtid;
+        curpos = nxtpos;
         expected_topf = botf;
       } else {
         done = 1;
@@ -230,6 +241,7 @@ int FixColumnPartitions(Mesh_ptr mesh, int *part, MSTK_Comm comm) {
     MSTK_Report("FixColumnPartitions",msg,MSTK_MESG);
   }
   free(touched);
+  free(pos);
   
   return 1;
 }
diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..6cc7ddc 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -28,7 +28,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
   MFace_ptr mf, oppf, rface;
   MRegion_ptr mr, oppr;
   List_ptr fedges, efaces, rfaces, fregions;
-  int  i, ncells, ipos;
+  int  i, ncells, ipos, maxid, nadj, *cellpos;
   int  nv, ne, nf, nr, nfe, nef, nfr, nrf, idx, idx2;
   idx_t ngraphvtx, numflag, nedgecut, numparts, ncons;
   idx_t wtflag, metisopts[METIS_NOPTIONS];
@@ -55,9 +55,29 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
     }
 
     xadj = (idx_t *) malloc((nf+1)*sizeof(idx_t));
-    adjncy = (idx_t *) malloc(2*ne*sizeof(idx_t));
     ncells = nf;
 
+    /* IDs may have gaps and an edge may have more than two faces, so
+       find the position of each face in the mesh and count the
+       neighbors first */
+
+    maxid = 0; nadj = 0;
+    idx = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      if (MF_ID(mf) > maxid) maxid = MF_ID(mf);
+    cellpos = (int *) malloc((maxid+1)*sizeof(int));
+    idx = 0; i = 0;
+    while ((mf = MESH_Next_Face(mesh,&idx)))
+      cellpos[MF_ID(mf)] = i++;
+    idx = 0;
+    while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+      efaces = ME_Faces(fedge);
+      nef = efaces ? List_Num_Entries(efaces) : 0;
+      nadj += nef*(nef-1);
+      if (efaces) List_Delete(efaces);
+    }
+    adjncy = (idx_t *) malloc((nadj+1)*sizeof(idx_t));
+
     /* Surface mesh */
 
     idx = 0; i = 0;
@@ -73,15 +93,12 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	efaces = ME_Faces(fedge);
 	nef = List_Num_Entries(efaces);
 	
-	if (nef == 1) {
-	  continue;          /* boundary edge; nothing to do */
-	}
-	else {
+	if (nef > 1) {       /* nothing to do for boundary edges */
           int j;
           for (j = 0; j < nef; j++) {
             oppf = List_Entry(efaces,j);
             if (oppf != mf) {
-              adjncy[ipos] = MF_ID(oppf)-1;
+              adjncy[ipos] = cellpos[MF_ID(oppf)];
               ipos++;
             }
           }
@@ -104,6 +121,17 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
     adjncy = (idx_t *) malloc(2*nf*sizeof(idx_t));
     ncells = nr;
 
+    /* IDs may have gaps - find the position of each region in the mesh */
+
+    maxid = 0;
+    idx = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      if (MR_ID(mr) > maxid) maxid = MR_ID(mr);
+    cellpos = (int *) malloc((maxid+1)*sizeof(int));
+    idx = 0; i = 0;
+    while ((mr = MESH_Next_Region(mesh,&idx)))
+      cellpos[MR_ID(mr)] = i++;
+
     /* Volume mesh */
 
     idx = 0; i = 0;
@@ -124,7 +152,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	  if (oppr == mr)
 	    oppr = List_Entry(fregions,1);
 	  
-	  adjncy[ipos] = MR_ID(oppr)-1;
+	  adjncy[ipos] = cellpos[MR_ID(oppr)];
 	  ipos++;
 	}
         List_Delete(fregions);	
@@ -169,6 +197,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
                         &numparts,tpwgts,ubvec,metisopts,&nedgecut,idxpart);
 
 
+  free(cellpos);
   free(xadj);
   free(adjncy);
 
diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..baea120 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -67,7 +67,7 @@ int NDIM_4_ZOLTAN = 3;
   MFace_ptr mf, oppf, rface;
   MRegion_ptr mr, oppr;
   List_ptr fedges, efaces, rfaces, fregions;
-  int  i, j, k, id;
+  int  i, j, k;
   int  nv, ne, nf, nr=0, nfe, nef, nfr, nrf, idx, idx2;
   int  numflag, nedgecut, ipos;
   int  wtflag;
@@ -166,7 +166,7 @@ int NDIM_4_ZOLTAN = 3;
         graph.nodeGID = (ZOLTAN_ID_TYPE *) malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
         graph.nodeCoords = (double *) malloc(sizeof(double) * NDIM_4_ZOLTAN * nf);
 
-        idx = 0;
+        idx = 0; i = 0;
         while ((mf = MESH_Next_Face(mesh,&idx))) {
           double fxyz[MAXPV2][3], cen[3];
           int nfv;
@@ -178,9 +178,9 @@ int NDIM_4_ZOLTAN = 3;
               cen[k] += fxyz[j][k];              
           for (k = 0; k < NDIM_4_ZOLTAN; k++) cen[k] /= nfv;
 
-          id = MF_ID(mf);
-          graph.nodeGID[id-1] = id;
-          memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*(id-1)]),cen,NDIM_4_ZOLTAN*sizeof(double));
+          graph.nodeGID[i] = MF_ID(mf);
+          memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*i]),cen,NDIM_4_ZOLTAN*sizeof(double));
+          i++;
         }
 
       }
@@ -193,7 +193,7 @@ int NDIM_4_ZOLTAN = 3;
         graph.nodeGID = (ZOLTAN_ID_TYPE *) malloc(sizeof(ZOLTAN_ID_TYPE) * nr);
         graph.nodeCoords = (double *) malloc(sizeof(double) * NDIM_4_ZOLTAN * nr);
 
-        idx = 0;
+        idx = 0; i = 0;
         while ((mr = MESH_Next_Region(mesh,&idx))) {
           double rxyz[MAXPV3][3], cen[3];
           int nrv;
@@ -207,9 +207,9 @@ int NDIM_4_ZOLTAN = 3;
           for (k = 0; k < NDIM_4_ZOLTAN; k++) 
             if (fabs(cen[k]) < 1.0e-10) cen[k] = 0.0; 
 
-          id = MR_ID(mr);
-          graph.nodeGID[id-1] = id;
-          memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*(id-1)]),cen,NDIM_4_ZOLTAN*sizeof(double));
+          graph.nodeGID[i] = MR_ID(mr);
+          memcpy(&(graph.nodeCoords[NDIM_4_ZOLTAN*i]),cen,NDIM_4_ZOLTAN*sizeof(double));
+          i++;
         }
 
       }
@@ -262,8 +262,17 @@ int NDIM_4_ZOLTAN = 3;
 
         graph.nodeGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * nf);
         graph.nborIndex = (int *)malloc(sizeof(int) * (nf + 1));
-        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * 2*ne);
-        graph.nborProc = (int *)malloc(sizeof(int) * 2*ne);
+        /* an edge may have more than two faces */
+        int nadj = 0;
+        idx = 0;
+        while ((fedge = MESH_Next_Edge(mesh,&idx))) {
+          efaces = ME_Faces(fedge);
+          nef = efaces ? List_Num_Entries(efaces) : 0;
+          nadj += nef*(nef-1);
+          if (efaces) List_Delete(efaces);
+        }
+        graph.nborGID = (ZOLTAN_ID_TYPE *)malloc(sizeof(ZOLTAN_ID_TYPE) * (nadj+1));
+        graph.nborProc = (int *)malloc(sizeof(int) * (nadj+1));
       
         graph.nborIndex[0] = 0;
       
@@ -280,13 +289,11 @@ int NDIM_4_ZOLTAN = 3;
             efaces = ME_Faces(fedge);
             nef = List_Num_Entries(efaces);
 	  
-            if (nef == 1) {
-              continue;          /* boundary edge; nothing to do */
-            } else {
+            if (nef > 1) {       /* nothing to do for boundary edges */
               int j;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
-                if (oppf == mf) {
+                if (oppf != mf) {
                   graph.nborGID[ipos] = MF_ID(oppf);
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
@@ -400,7 +407,7 @@ int NDIM_4_ZOLTAN = 3;
   if(rank == 0) {
     *part = (int *) calloc(graph.numMyNodes,sizeof(int));
     for ( i = 0; i < numExport; i++ ) {
-      (*part)[exportGlobalGids[i]-1] = exportToPart[i];
+      (*part)[exportLocalGids[i]] = exportToPart[i]; /* local ID is position in mesh */
     }
     if (graph.nodeGID) free(graph.nodeGID);
     if (graph.nodeCoords) free(graph.nodeCoords);
-- 
2.43.0


From 201755fea4033b108bf426748624a0bf6ad675c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 38/51] fix: classification inference: sharp edges inside a
 face, matching of model edges and vertices, isolated entities

---
 src/hilev/MESH_BuildEdgeClassfn.c   | 26 ++++++++++++--------------
 src/hilev/MESH_BuildVertexClassfn.c | 18 ++++++++----------
 src/hilev/MFs_DihedralAngle.c       |  2 +-
 3 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..9e9882c 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
@@ -158,6 +158,7 @@ extern "C" {
 	geids[ngedges] = max_gedge_id;
 	gefaceids[ngedges] = malloc(1*sizeof(int *));
 	gefaceids[ngedges][0] = 0;
+	ngedges++;
       }
 
       continue; /* nothing else to do */
@@ -203,8 +204,8 @@ extern "C" {
 	    if (gefaceids[i][0] != 2)
 	      continue;
 
-	    if ((loc_gfids[0] == gefaceids[i][0]) && 
-		(gefaceids[i][0] == gefaceids[i][1])) {
+	    if ((loc_gfids[0] == gefaceids[i][1]) && 
+		(gefaceids[i][1] == gefaceids[i][2])) {
 	      fnd = 1;
 	      break;
 	    }
@@ -296,21 +297,18 @@ extern "C" {
 	if (ngef != gefaceids[i][0]) 
 	  continue; /* number of connected model faces is different */
 	
-	/* see if all the model faces of the current edge can be found
-	   in the i'th model edge's faces */
+	/* see if the current edge has the same model faces as the i'th
+	   model edge, each the same number of times */
 
 	fnd2 = 0;
 	for (j = 0; j < ngef; j++) {
-	  
-	  fnd2 = 0;
+	  int n0 = 0, n1 = 0;
+
 	  for (k = 0; k < ngef; k++) {
-	    if (loc_gfids[j] == gefaceids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
+	    if (loc_gfids[k] == loc_gfids[j]) n0++;
+	    if (gefaceids[i][1+k] == loc_gfids[j]) n1++;
 	  }
-
-	  /* Did not find loc_gfid[j] in the list gefaceids[i] */
+	  fnd2 = (n0 == n1);
 
 	  if (!fnd2)
 	    break;
diff --git a/src/hilev/MESH_BuildVertexClassfn.c b/src/hilev/MESH_BuildVertexClassfn.c
index 4356acc..5f860b1 100644
--- a/src/hilev/MESH_BuildVertexClassfn.c
+++ b/src/hilev/MESH_BuildVertexClassfn.c
@@ -124,6 +124,7 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
       gvids[ngverts] = max_gvert_id;
       gvedgeids[ngverts] = malloc(1*sizeof(int *));
       gvedgeids[ngverts][0] = 0;
+      ngverts++;
 
       continue; /* nothing else to do */
     }
@@ -281,21 +282,18 @@ int MESH_BuildVertexClassfn(Mesh_ptr mesh, int use_geometry) {
 	if (ngve != gvedgeids[i][0]) 
 	  continue; /* number of connected model edges is different */
 	
-	/* see if all the model edges of the current vertex can be
-	   found in the i'th model vertex's edges */
+	/* see if the current vertex has the same model edges as the
+	   i'th model vertex, each the same number of times */
 
 	fnd2 = 0;
 	for (j = 0; j < ngve; j++) {
-	  
-	  fnd2 = 0;
+	  int n0 = 0, n1 = 0;
+
 	  for (k = 0; k < ngve; k++) {
-	    if (loc_geids[j] == gvedgeids[i][1+k]) {
-	      fnd2 = 1;
-	      break;
-	    }
+	    if (loc_geids[k] == loc_geids[j]) n0++;
+	    if (gvedgeids[i][1+k] == loc_geids[j]) n1++;
 	  }
-
-	  /* Did not find loc_gfid[j] in the list gvedgeids[i] */
+	  fnd2 = (n0 == n1);
 
 	  if (!fnd2)
 	    break;
diff --git a/src/hilev/MFs_DihedralAngle.c b/src/hilev/MFs_DihedralAngle.c
index c4c0d13..1eccf79 100644
--- a/src/hilev/MFs_DihedralAngle.c
+++ b/src/hilev/MFs_DihedralAngle.c
@@ -119,7 +119,7 @@ extern "C" {
 
     MSTK_VDiff3(fxyz[1],fxyz[0],vec1);
 
-    if (nfv1 == 3) { /* Triangles - always convex */
+    if (nfv2 == 3) { /* Triangles - always convex */
       MSTK_VDiff3(fxyz[2],fxyz[0],vec2);
     }
     else { /* Others - can be non-convex */
-- 
2.43.0


From 6cc33a58ff0f50246788d4ca2c8f9c07108a25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 39/51] fix: topology checker: crashes on broken meshes, second
 vertex and second side of boundary edges were not checked

---
 src/hilev/MESH_CheckTopo.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..ef7aedc 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -138,6 +138,7 @@ extern "C" {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
 	  MSTK_Report(funcname,mesg,MSTK_WARN);
 	  valid = 0;
+	  continue;
 	}
 
 	fcur = vf;
@@ -201,7 +202,7 @@ extern "C" {
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (!fregs || List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -307,6 +308,7 @@ extern "C" {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 
@@ -326,11 +328,13 @@ extern "C" {
 	    sprintf(mesg,"Edge %-d connected to regions but face %-d is not",eid,fid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    continue;
 	  }
 
 	  nfr = List_Num_Entries(fregs);
-	  for (i = 0; i < nfr; i++) {
-	    rcur = List_Entry(fregs,i);
+	  for (k = 0; k < nfr; k++) {
+	    fcur = ebf[0];
+	    rcur = List_Entry(fregs,k);
 	  
 	    rfaces = MR_Faces(rcur);
 	    idx3 = 0;
@@ -347,6 +351,9 @@ extern "C" {
 	    if (!found) {
 	      rid = MR_ID(rcur);
 	      sprintf(mesg,"Could not find second face in region %-d using edge %-d",rid,eid);
+	      MSTK_Report(funcname,mesg,MSTK_ERROR);
+	      valid = 0;
+	      continue;
 	    }
 	    
 	    
@@ -405,7 +412,7 @@ extern "C" {
 	      MSTK_Report(funcname,mesg,MSTK_ERROR);
 	      valid = 0;
 	    }
-	  } /* for (i = 0; i < nfr; i++) */
+	  } /* for (k = 0; k < nfr; k++) */
           List_Delete(fregs);
 
 	} /* if (geid == 2) */
@@ -570,6 +577,7 @@ extern "C" {
             sprintf(mesg,"Cannot find another face in region %-d sharing edge %-d (ID = %-d) of face with ID = %-d",MR_ID(mr),j,ME_ID(fe),MF_ID(rf));
             MSTK_Report(funcname,mesg,MSTK_ERROR);
             valid = 0;
+            continue;
           }
           
           int fedir_adj = MF_EdgeDir(rf2,fe);
-- 
2.43.0


From 2fd4a9b04c3fc91d842da5c6827332716369c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 40/51] fix: MF_Replace_Edges put several edges in the wrong
 places or directions when old and new sets differ in size or span the start
 of the cycle

---
 src/base/MF_Edge_Funcs_F1F3.c | 144 +++++++++++-----------------------
 src/base/MF_Edge_Funcs_F2F4.c | 144 +++++++++++-----------------------
 2 files changed, 92 insertions(+), 196 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..0d55eb2 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -203,7 +203,9 @@ extern "C" {
     MFace_Adj_F1F3 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    List_ptr fedges;
+    unsigned long long edirs;
+    int j, k, n, ne, ncom, nhead, ntail, *olddirs, *newdirs, rev;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -251,79 +253,40 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
-
-
-    /* Replace old edges with new ones (up to the common number of edges) */
-
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+    /* Assemble the new sequence of edges and directions of the face. If
+       the old edges span the start of the edge cycle, the new edges do
+       too - as many of them as there were old edges at the end of the
+       cycle stay at the end and the rest go to the start */
+
+    ntail = (i+nold > ne) ? ne-i : nold;  /* old edges before any wraparound */
+    nhead = nold-ntail;                   /* old edges after wraparound */
+    ncom = (nhead && ntail < nnu) ? ntail : nnu; /* new edges put at i, i+1 .. */
+
+    fedges = List_New(ne-nold+nnu);
+    edirs = 0;
+    n = 0;
+    for (j = ncom; j < nnu; j++, n++) {
+      List_Add(fedges,newedges[j]);
+      edirs |= ((unsigned long long) newdirs[j])<<n;
     }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+    for (k = nhead; k < ne; k++) {
+      if (k == i) {
+	for (j = 0; j < ncom; j++, n++) {
+	  List_Add(fedges,newedges[j]);
+	  edirs |= ((unsigned long long) newdirs[j])<<n;
 	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
       }
-
+      if (k < i || k >= i+ntail) {
+	List_Add(fedges,List_Entry(adj->fedges,k));
+	edirs |= ((unsigned long long) ((adj->edirs>>k) & 1UL))<<n;
+	n++;
+      }
     }
-    else {
-      /* Delete the remaining old edges */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
 
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
-
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
-
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
-
-	ne--;
-      }
-    }
-      
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
@@ -344,7 +307,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F1F3(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F1F3 *adj;
     MEdge_ptr fedge;
 
@@ -373,39 +336,24 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The old edges are consecutive in the edge cycle of the face, in
+       one or the other direction; replacement starts from the one that
+       does not follow another of the old edges. If all edges of the face
+       are to be replaced, start with the first one */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = 0;
+    for (i = 0; i < nold; i++) {
+      for (j = 0, found = 0; j < nold; j++)
+	if (eindex[i] == (eindex[j]+1)%ne) {
+	  found = 1;
+	  break;
+	}
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F1F3(f, nold, istart, nnu, nuedges);
 
     free(eindex);
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..411a297 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -201,7 +201,9 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    List_ptr fedges;
+    unsigned long long edirs;
+    int j, k, n, ne, ncom, nhead, ntail, *olddirs, *newdirs, rev;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -249,79 +251,40 @@ extern "C" {
 #endif
     }
 
-    /* Number of common edges */
-
-    ncom = nold < nnu ? nold : nnu;
-
-
-    /* Replace old edges with new ones (up to the common number of edges) */
-
-    for (j = 0; j < ncom; j++) {
-      k = (i+j)%ne; 
-      List_Replacei(adj->fedges,k,newedges[j]);		      
-      adj->edirs = (adj->edirs & ~(1UL<<k)); /* set bit k to 0 */
-      adj->edirs = (adj->edirs | (newdirs[j]<<k)); /* set to dir */
+    /* Assemble the new sequence of edges and directions of the face. If
+       the old edges span the start of the edge cycle, the new edges do
+       too - as many of them as there were old edges at the end of the
+       cycle stay at the end and the rest go to the start */
+
+    ntail = (i+nold > ne) ? ne-i : nold;  /* old edges before any wraparound */
+    nhead = nold-ntail;                   /* old edges after wraparound */
+    ncom = (nhead && ntail < nnu) ? ntail : nnu; /* new edges put at i, i+1 .. */
+
+    fedges = List_New(ne-nold+nnu);
+    edirs = 0;
+    n = 0;
+    for (j = ncom; j < nnu; j++, n++) {
+      List_Add(fedges,newedges[j]);
+      edirs |= ((unsigned long long) newdirs[j])<<n;
     }
-
-
-
-    if (nold < nnu) {
-      /* Insert the rest of the nuedges at the right place */
-
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
-
-      
-	/* Move the direction bits after the (i+ncom)'th bit to the
-	 left by (nnu-ncom) spaces and insert the direction bits for
-	 the rest of the inserted edges */
-
-	
-	for (k = ne-1; k >= i+j; k--) {
-
-	  /* set bit k+1 to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
-
-	  /* get bit k */
-	  dir = (adj->edirs>>k) & 1UL;
-
-	  /* move bit k to (k+1)'th position */
-	  adj->edirs = adj->edirs | (dir<<(k+1));	
+    for (k = nhead; k < ne; k++) {
+      if (k == i) {
+	for (j = 0; j < ncom; j++, n++) {
+	  List_Add(fedges,newedges[j]);
+	  edirs |= ((unsigned long long) newdirs[j])<<n;
 	}
-
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
-
-	ne++;
       }
-
+      if (k < i || k >= i+ntail) {
+	List_Add(fedges,List_Entry(adj->fedges,k));
+	edirs |= ((unsigned long long) ((adj->edirs>>k) & 1UL))<<n;
+	n++;
+      }
     }
-    else {
-      /* Delete the remaining old edges */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
+    List_Delete(adj->fedges);
+    adj->fedges = fedges;
+    adj->edirs = edirs;
 
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
-      
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
-	  /* set bit k to 0 */
-	  adj->edirs = adj->edirs & ~(1UL<<k);
-
-	  /* get bit k+1 */
-	  dir = (adj->edirs>>(k+1)) & 1UL;
-
-	  /* move bit k+1 to k'th position */
-	  adj->edirs = adj->edirs | (dir<<k);
-	}
-
-	ne--;
-      }
-    }
-      
     /* Update upward adjacencies */
     for (j = 0; j < nold; j++) {
       ME_Rem_Face(oldedges[j],f);
@@ -342,7 +305,7 @@ extern "C" {
      consecutive */
 
   void MF_Replace_Edges_F2F4(MFace_ptr f, int nold, MEdge_ptr *oldedges, int nnu, MEdge_ptr *nuedges) {
-    int i, j, ne, found = 0, imin1, istart, *eindex, nxtidx, ipos1;
+    int i, j, ne, found = 0, istart, *eindex;
     MFace_Adj_F2F4 *adj;
     MEdge_ptr fedge;
 
@@ -371,39 +334,24 @@ extern "C" {
       }
     }
 
-    /* Find the lowest index; set it to be the start index for
-       replacing edges */
+    /* The old edges are consecutive in the edge cycle of the face, in
+       one or the other direction; replacement starts from the one that
+       does not follow another of the old edges. If all edges of the face
+       are to be replaced, start with the first one */
 
-    imin1 = 10000; ipos1 = -1;
-    for (i = 0; i < nold; i++)
-      if (eindex[i] < imin1) {
-	imin1 = eindex[i];
-	ipos1 = i;
-      }
-    istart = imin1;
-    
-    
-    /* Check if there is a break in the edge indices sorted in
-       ascending order. If there is a break, that means the edges are
-       spanning the start vertex in the face vertex cyle.*/
-	
-    nxtidx = imin1+1;
-    for (i = 1; i < nold; i++) {
-      j = (ipos1+i)%nold;
-
-      if (eindex[j] != nxtidx) {
-	/* There is a break in the edge indices and this is the next
-	   smallest index. Use this as the start index for replacing
-	   the edges */
-
-	istart = eindex[j];
+    istart = 0;
+    for (i = 0; i < nold; i++) {
+      for (j = 0, found = 0; j < nold; j++)
+	if (eindex[i] == (eindex[j]+1)%ne) {
+	  found = 1;
+	  break;
+	}
+      if (!found) {
+	istart = eindex[i];
 	break;
       }
-      else
-	nxtidx++;
     }
-      
-	  
+
     MF_Replace_Edges_i_F2F4(f, nold, istart, nnu, nuedges);
 
     free(eindex);
-- 
2.43.0


From a16f00cbd42dcadded313be66d73fc6bc1e396d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 41/51] fix: MF_RegionID crashed on the side of a face that has
 no region

---
 src/base/MF_Region_Funcs_F1F3.c | 3 ++-
 src/base/MF_Region_Funcs_R4.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..8be5400 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,8 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..903b5e0 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -48,7 +48,8 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
-- 
2.43.0


From 6d89aa174c0d53d2c6180a6126e139fc0f80ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 42/51] fix: MF_Set_Vertices (F4) gave a new edge the dimension
 of its second vertex's model entity but the id of the first one's

---
 src/base/MF_Vertex_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Vertex_Funcs_F2F4.c b/src/base/MF_Vertex_Funcs_F2F4.c
index 75301cc..2ff0f78 100644
--- a/src/base/MF_Vertex_Funcs_F2F4.c
+++ b/src/base/MF_Vertex_Funcs_F2F4.c
@@ -54,7 +54,7 @@ extern "C" {
 	}
 	else if (vgdim[(i+1)%n] > vgdim[i]) {
 	  egdim = vgdim[(i+1)%n];
-	  egid = vgid[i];
+	  egid = vgid[(i+1)%n];
 	}
 	else { /* vgdim[i] == vgdim[(i+1)%n] */
 	  if (vgdim[i] == 0) {
-- 
2.43.0


From 911e58e192b2de420a59dc5c0631c92eb33faa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 43/51] fix: F4 meshes did not record the regions of edges,
 kept deleted faces and mixed up the sides of faces

---
 src/base/MEdge_F4.c             |  1 +
 src/base/MF_Edge_Funcs_F2F4.c   | 45 +++++++++++++++++++----
 src/base/MF_Region_Funcs_F2F4.c | 20 +++++++----
 src/base/MFace_F4.c             | 64 +++++++++++++++++++++++++++------
 src/base/MR_Face_Funcs_FNR3R4.c |  3 +-
 src/base/MRegion_F4.c           |  6 ++--
 src/base/MVertex_F4.c           | 60 ++++++++-----------------------
 7 files changed, 126 insertions(+), 73 deletions(-)

diff --git a/src/base/MEdge_F4.c b/src/base/MEdge_F4.c
index 85b02a6..0c7f780 100644
--- a/src/base/MEdge_F4.c
+++ b/src/base/MEdge_F4.c
@@ -156,6 +156,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++)
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 411a297..e817bcc 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -139,17 +139,36 @@ extern "C" {
 
 
 
+  /* Connect the given regions (regions of face f) to all the edges of
+     the face and disconnect them from those of the given old edges that
+     they do not use any more - edges store their connected regions in
+     this representation */
+
+  static void pvtUpdate_Regions(MFace_ptr f, List_ptr fregs, int nold,
+				MEdge_ptr *oldedges) {
+    int i, j, nr = fregs ? List_Num_Entries(fregs) : 0;
+
+    for (i = 0; i < nr; i++) {
+      MRegion_ptr r = List_Entry(fregs,i);
+      MF_Add_Region(f,r,0);
+      for (j = 0; j < nold; j++)
+	if (!MR_UsesEntity(r,(MEntity_ptr) oldedges[j],MEDGE))
+	  ME_Rem_Region(oldedges[j],r);
+    }
+  }
+
   /* Remove an edge from a face */
 
   void MF_Rem_Edge_F2F4(MFace_ptr f, MEdge_ptr remedge) {
-    int i, j, ne, eindex, found;
-    MFace_Adj_F1F3 *adj;
+    int j, ne, eindex, found;
+    List_ptr fregs;
+    MFace_Adj_F2F4 *adj;
 
-    adj = (MFace_Adj_F1F3 *) f->adj;
+    adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
 
     if (ne == 0)
-      MSTK_Report("MF_Remove_Edges_F1F3","No initial set of edges for face",
+      MSTK_Report("MF_Remove_Edges_F2F4","No initial set of edges for face",
 		  MSTK_ERROR);
 
     /* Order the old edges in the direction of the face */
@@ -166,11 +185,14 @@ extern "C" {
     }
 
 
+    fregs = MF_Regions(f);
+
     List_Remi(adj->fedges,eindex);
 
     /* Move the remaining bits to the right */
-    int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    int k;
+    long long dir;
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
@@ -188,6 +210,11 @@ extern "C" {
 
     ME_Rem_Face(remedge,f);
 
+    /* and to those regions of the face that do not use it any more */
+
+    pvtUpdate_Regions(f,fregs,1,&remedge);
+    if (fregs) List_Delete(fregs);
+
   }
 
 
@@ -201,7 +228,7 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    List_ptr fedges;
+    List_ptr fedges, fregs;
     unsigned long long edirs;
     int j, k, n, ne, ncom, nhead, ntail, *olddirs, *newdirs, rev;
 
@@ -281,6 +308,8 @@ extern "C" {
       }
     }
 
+    fregs = MF_Regions(f);
+
     List_Delete(adj->fedges);
     adj->fedges = fedges;
     adj->edirs = edirs;
@@ -292,6 +321,8 @@ extern "C" {
     for (j = 0; j < nnu; j++) {
       ME_Add_Face(newedges[j],f);
     }
+    pvtUpdate_Regions(f,fregs,nold,oldedges);
+    if (fregs) List_Delete(fregs);
 
     free(oldedges);
     free(olddirs);
diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..44bbb27 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -35,7 +35,11 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	if (MR_UsesEntity(r,(MEntity_ptr) f,2)) {
-	  List_Add(fregs,r);
+	  /* region on side 0 of the face goes before the one on side 1 */
+	  if (k && MR_FaceDir(r,f) == 1)
+	    List_Inserti(fregs,r,0);
+	  else
+	    List_Add(fregs,r);
 	  k++;
 	}
 	if (k == 2)
@@ -57,10 +61,14 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
-    *nfr = List_Num_Entries(fregs);
-    for (i = 0; i < *nfr; i++)
-      fregids[i] = MEnt_ID(List_Entry(fregs,i));
-    List_Delete(fregs);
+    if (fregs) {
+      *nfr = List_Num_Entries(fregs);
+      for (i = 0; i < *nfr; i++)
+        fregids[i] = MEnt_ID(List_Entry(fregs,i));
+      List_Delete(fregs);
+    }
+    else
+      *nfr = 0;
   }
 
   MRegion_ptr MF_Region_F2F4(MFace_ptr f, int ir) {
@@ -87,7 +95,7 @@ extern "C" {
       for (i = 0; i < nr; i++) {
 	r = List_Entry(eregs,i);
 	fdir = MR_FaceDir(r,f);
-	if (fdir == !dir) {
+	if (fdir == dir) {
 	  r1 = r;
 	  break;
 	}
diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..9156666 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,22 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj && adj->fedges) {
+	ne = List_Num_Entries(adj->fedges);
+	for (i = 0; i < ne; i++) {
+	  e = List_Entry(adj->fedges,i);
+	  ME_Rem_Face(e,f);
+	}
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +53,19 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++) {
+      e = List_Entry(adj->fedges,i);
+      ME_Add_Face(e,f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
@@ -262,20 +287,37 @@ extern "C" {
 #endif
   }
 
+  /* Faces do not store their regions in this representation - the edges
+     do. So tell the edges of the face that they are connected to the
+     region */
+
   void MF_Add_Region_F4(MFace_ptr f, MRegion_ptr r, int side) {
-#ifdef DEBUG
-    MSTK_Report("MF_Add_Region",
-		"Function call unsuitable for this representation",
-		MSTK_WARN);
-#endif
+    MFace_Adj_F2F4 *adj;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++)
+      ME_Add_Region(List_Entry(adj->fedges,i),r);
   }
 
+  /* Disconnect the edges of the face from the region except those that
+     are still used by a face of the region */
+
   void MF_Rem_Region_F4(MFace_ptr f, MRegion_ptr r) {
-#ifdef DEBUG
-    MSTK_Report("MF_Rem_Region",
-		"Function call unsuitable for this representation",
-		MSTK_WARN);
-#endif
+    MFace_Adj_F2F4 *adj;
+    MEdge_ptr e;
+    int i, ne;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    ne = List_Num_Entries(adj->fedges);
+    for (i = 0; i < ne; i++) {
+      e = List_Entry(adj->fedges,i);
+      if (!MR_UsesEntity(r,(MEntity_ptr) e,MEDGE))
+	ME_Rem_Region(e,r);
+    }
   }
 
   MFace_ptr MF_NextInHash_F4(MFace_ptr f) {
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 75e39d7..aedf520 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -94,8 +94,7 @@ extern "C" {
 
       List_Add(adj->rfaces,rfaces[i]);
 
-      if (MEnt_RepType((MEntity_ptr) r) != F4) 
-	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      MF_Add_Region(rfaces[i],r,!dirs[i]);
     }
 
     MR_Update_ElementType_FNR3R4(r);
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..7fafdc9 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -32,7 +32,7 @@ extern "C" {
     adj = (MRegion_Adj_FN *) r->adj;
 
     if (MEnt_Dim((MEntity_ptr) r) != MDELETED) { /* if regn hasnt been temporarily deleted */
-      if (adj) {
+      if (adj && adj->rfaces) {
 	idx = 0;
 	while ((f = List_Next_Entry(adj->rfaces,&idx))) {	  
 	  fedges = MF_Edges(f,1,0);
@@ -48,8 +48,10 @@ extern "C" {
 
     if (!keep) {
       if (adj) {
-	if (adj->rfaces)
+	if (adj->rfaces) {
+	  free(adj->fdirs);
 	  List_Delete(adj->rfaces);
+	}
 	free(adj);
       }
     }
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index c56811b..ddc2aa9 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -168,11 +168,10 @@ extern "C" {
 
   List_ptr MV_Faces_F4(MVertex_ptr v) {
     MVertex_Adj_F1F4 *adj;
-    int i, j, k, ne, nf, nr, n;
-    List_ptr vedges, eregions, rfaces, efaces, vfaces;
+    int i, k, ne, nf, n;
+    List_ptr vedges, efaces, vfaces;
     MEdge_ptr edge;
     MFace_ptr face;
-    MRegion_ptr region;
 
     adj = (MVertex_Adj_F1F4 *) v->adj;
     vedges = adj->vedges;
@@ -181,52 +180,23 @@ extern "C" {
     n = 0;
     vfaces = List_New(ne);
 
+    /* Every face using the vertex has edges that use the vertex. These
+       may be faces of regions or faces not connected to any region */
+
     for (i = 0; i < ne; i++) {
       edge = List_Entry(vedges,i);
-      eregions = ME_Regions(edge);
-      if (eregions) {
-	nr = List_Num_Entries(eregions);
-	
-	for (j = 0; j < nr; j++) {
-	  region = List_Entry(eregions,j);
-	  
-	  rfaces = MR_Faces(region);
-	  nf = List_Num_Entries(rfaces);
-	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(rfaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-	    if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {		
-		List_Add(vfaces,face);
-		n++;
-	      }
-	    }
-	  }
-	  List_Delete(rfaces);
-	}
-	List_Delete(eregions);
-      }
-      else {
-	/* perhaps the edge has boundary faces (not connected to regions) */
-	efaces = ME_Faces(edge);
-	if (efaces) {
-	  nf = List_Num_Entries(efaces);
-	  
-	  for (k = 0; k < nf; k++) {
-	    face = List_Entry(efaces,k);
-            int fmarked;
-            fmarked = List_Contains(vfaces,face);
-            if (!fmarked) {
-	      if (MF_UsesEntity(face,(MEntity_ptr) v,0)) {
-		List_Add(vfaces,face);
-		n++;
-	      }
-	    }
+      efaces = ME_Faces(edge);
+      if (efaces) {
+	nf = List_Num_Entries(efaces);
+
+	for (k = 0; k < nf; k++) {
+	  face = List_Entry(efaces,k);
+	  if (!List_Contains(vfaces,face)) {
+	    List_Add(vfaces,face);
+	    n++;
 	  }
-	  List_Delete(efaces);
 	}
+	List_Delete(efaces);
       }
     }
     if (n > 0)
-- 
2.43.0


From 7828a2b9bc3e4a7e172f242b3de7e3a02e2dce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 44/51] fix: MR_Delete freed regions of R1 meshes twice

---
 src/base/MRegion_R1.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index eec17c3..d399bcb 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -55,8 +55,6 @@ extern "C" {
 	}
 	free(adj);
       }
-
-      free(r);
     }
   }
 
-- 
2.43.0


From 2f55cb4ccce75186e6bab1d58e7e7043a7b48637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 45/51] fix: MV_AdjVertexIDs was declared but not defined

---
 src/base/MVertex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..9bfa599 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -176,6 +176,11 @@ extern "C" {
     return (*MV_AdjVertices_jmp[RTYPE])(v);
   }
 
+  void MV_AdjVertexIDs(MVertex_ptr v, int *nvadj, int *adjvertids) {
+    RepType RTYPE = MEnt_RepType((MEntity_ptr) v);
+    (*MV_AdjVertexIDs_jmp[RTYPE])(v,nvadj,adjvertids);
+  }
+
   List_ptr MV_Edges(MVertex_ptr v) {
     RepType RTYPE = MEnt_RepType((MEntity_ptr) v);
     return (*MV_Edges_jmp[RTYPE])(v);
-- 
2.43.0


From 407df12e093d5549bff3b50d43751048107f9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 46/51] fix: MSet_Cat was defined under another name and did
 not compare entity types

---
 src/base/MSet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 73118c0..e1ac317 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -147,10 +147,10 @@ extern "C" {
   }
 
 
-  MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
+  MSet_ptr    MSet_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
-	MSet_EntDim(dest) != MSet_EntDim(dest)) {
-      MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
+	MSet_EntDim(dest) != MSet_EntDim(src)) {
+      MSTK_Report("MSet_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
     dest->entlist = List_Cat(dest->entlist, src->entlist);
-- 
2.43.0


From d3629b864960166e3f425ac0606183b673408c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 47/51] fix: simplex splits took an undefined region id and
 gave new entities no or the wrong classification

---
 src/mod/ME_Split_SimplexMesh.c | 28 +++++++++++++++++++++++++++-
 src/mod/MF_Split_SimplexMesh.c | 26 +++++++++++++++++++++++++-
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..b5fa547 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -14,9 +14,10 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 /* Split an edge in a simplex mesh and also subdivide elements (triangles or tetrahedra connected to this edge */
 
 MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
-  int i, j, k, rfdir, ntets=0, ntris=0, *fdim, *fid, *rid=NULL, found;
+  int i, j, k, rfdir, ntets=0, ntris=0, *fdim, *fid, *rdim=NULL, *rid=NULL, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, (*triverts)[3]=NULL, fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr etets, rfaces, etris, fverts;
@@ -29,6 +30,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   if (etets) {
     ntets = List_Num_Entries(etets);   
     tetverts = (MVertex_ptr (*)[4]) malloc(ntets*sizeof(MVertex_ptr [4]));
+    rdim = (int *) malloc(ntets*sizeof(int));
     rid = (int *) malloc(ntets*sizeof(int));
   }
 
@@ -36,6 +38,9 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = List_Entry(etets,i);
 
+    rdim[i] = MR_GEntDim(r);
+    rid[i] = MR_GEntID(r);
+
     rfaces = MR_Faces(r);
 
     /* Find a tet face that uses ev[0] but not ev[1] */
@@ -149,6 +154,13 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
     MF_Set_Vertices(f,3,fvarr);
     MF_Set_GEntDim(f,fdim[i]);
     MF_Set_GEntID(f,fid[i]);
+
+    /* The edge between the two triangles is in the interior of the
+       triangle they replace */
+
+    e = MVs_CommonEdge(vsplit,triverts[i][0]);
+    ME_Set_GEntDim(e,fdim[i]);
+    ME_Set_GEntID(e,fid[i]);
   }
   if (ntris) {
     free(triverts);
@@ -167,6 +179,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,rdim[i]);
     MR_Set_GEntID(r,rid[i]);
 
     rvarr[0] = vsplit;
@@ -176,11 +189,24 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
 
     r = MR_New(mesh);
     MR_Set_Vertices(r,4,rvarr,0,NULL);
+    MR_Set_GEntDim(r,rdim[i]);
     MR_Set_GEntID(r,rid[i]);
+
+    /* The face between the two tets is in the interior of the tet
+       they replace */
+
+    fvarr[0] = vsplit;
+    fvarr[1] = tetverts[i][1];
+    fvarr[2] = tetverts[i][2];
+
+    f = MVs_CommonFace(3,fvarr);
+    MF_Set_GEntDim(f,rdim[i]);
+    MF_Set_GEntID(f,rid[i]);
   }
 
   if (ntets) {
     free(tetverts);
+    free(rdim);
     free(rid);
   }
 
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..d50d057 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -21,9 +21,10 @@ https://github.com/MeshToolkit/MSTK/blob/master/LICENSE
 
 
 MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
-  int i, j, k, rfdir=1, ntets=0, ntris=0, *rid=NULL, fgdim, fgid, found;
+  int i, j, k, rfdir=1, ntets=0, ntris=0, *rdim=NULL, *rid=NULL, fgdim, fgid, found;
   MVertex_ptr vsplit, ev[2], (*tetverts)[4]=NULL, triverts[3], fv;
   MVertex_ptr fvarr[3], rvarr[4];
+  MEdge_ptr e;
   MFace_ptr f;
   MRegion_ptr r;
   List_ptr fedges, ftets, rfaces, fverts;
@@ -35,6 +36,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   if (ftets) {
     ntets = List_Num_Entries(ftets);   
     tetverts = (MVertex_ptr (*)[4]) malloc(ntets*sizeof(MVertex_ptr [4]));
+    rdim = (int *) malloc(ntets*sizeof(int));
     rid = (int *) malloc(ntets*sizeof(int));
   }
 
@@ -42,6 +44,9 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
 
     r = List_Entry(ftets,i);
 
+    rdim[i] = MR_GEntDim(r);
+    rid[i] = MR_GEntID(r);
+
     rfaces = MR_Faces(r);
 
     /* Find the face to be split and get the first three vertices
@@ -123,12 +128,31 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
       rvarr[2] = tetverts[i][(j+1)%3];
       rvarr[3] = tetverts[i][3];
       MR_Set_Vertices(r, 4, rvarr, 0, NULL);
+      MR_Set_GEntDim(r,rdim[i]);
       MR_Set_GEntID(r,rid[i]);
     }
+
+    /* The new edge and the new faces between the three tets are in the
+       interior of the tet they replace */
+
+    e = MVs_CommonEdge(vsplit,tetverts[i][3]);
+    ME_Set_GEntDim(e,rdim[i]);
+    ME_Set_GEntID(e,rid[i]);
+
+    for (j = 0; j < 3; j++) {
+      fvarr[0] = vsplit;
+      fvarr[1] = tetverts[i][j];
+      fvarr[2] = tetverts[i][3];
+
+      f = MVs_CommonFace(3,fvarr);
+      MF_Set_GEntDim(f,rdim[i]);
+      MF_Set_GEntID(f,rid[i]);
+    }
   }
 
   if (ntets) {
     free(tetverts);
+    free(rdim);
     free(rid);
   }
 
-- 
2.43.0


From 5912152da62d24ba64704dafbc68dbe57ceaed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 48/51] fix: MR_Split_with_EdgeLoop refused loops listed
 against the direction of their first edge

---
 src/mod/MR_Split_with_EdgeLoop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mod/MR_Split_with_EdgeLoop.c b/src/mod/MR_Split_with_EdgeLoop.c
index 5bfc6bb..04aa9c6 100644
--- a/src/mod/MR_Split_with_EdgeLoop.c
+++ b/src/mod/MR_Split_with_EdgeLoop.c
@@ -51,7 +51,8 @@ MFace_ptr MR_Split_with_EdgeLoop(MRegion_ptr rsplit, int nfe, MEdge_ptr *fedges)
 
   /* Fix a set of directions for the edges */
 
-  fedirs[0] = 1;
+  fedirs[0] = (ME_Vertex(fedges[0],1) == ME_Vertex(fedges[1],0) ||
+               ME_Vertex(fedges[0],1) == ME_Vertex(fedges[1],1)) ? 1 : 0;
   for (i = 1; i < nfe; i++) {
     MVertex_ptr vprev, v0, v1;
 
-- 
2.43.0


From 0741b745b5990dc2dec7c66a26d43f7c378b47db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 49/51] fix: Exodus II files read in pieces: 2D coordinates,
 blocks and surface meshes

---
 src/io/MESH_ImportFromExodusII.c   |  4 +++-
 src/io/MESH_ReadExodusII_Partial.c | 14 +++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/io/MESH_ImportFromExodusII.c b/src/io/MESH_ImportFromExodusII.c
index 9454ee7..3d1d21f 100644
--- a/src/io/MESH_ImportFromExodusII.c
+++ b/src/io/MESH_ImportFromExodusII.c
@@ -290,7 +290,9 @@ extern "C" {
 	MESH_ReadExodusII_Partial(mesh, filename, rank, num_myelems, myelems);
 
 
-	/* Weave the meshes together to establish interprocessor connectivity */
+	/* Weave the meshes together to establish interprocessor connectivity
+	   (a surface mesh may be embedded in 3D, so go by the elements) */
+	dim = (MESH_Num_Regions(mesh) == 0) ? 2 : 3;
 	int num_ghost_layers = 1;
 	int input_type = 1;
 	MSTK_Weave_DistributedMeshes(mesh, dim, num_ghost_layers, input_type,
diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 0c6833e..e8ddff3 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -666,7 +666,7 @@ extern "C" {
     int *local2global_node_map = (int *) malloc((nnodes2read+1)*sizeof(int)); /* local node IDs start from 1 */
     xvals = (double *) malloc(nnodes2read*sizeof(double));
     yvals = (double *) malloc(nnodes2read*sizeof(double));
-    zvals = (double *) malloc(nnodes2read*sizeof(double));
+    zvals = (double *) calloc(nnodes2read,sizeof(double)); /* stays 0 in 2D */
 
     ibeg = 0;
     while (ibeg < nnodes2read) {
@@ -1798,8 +1798,10 @@ extern "C" {
 	  
 		  int jbeg = begel - elblock_min[b];
 		  int endel = elem_ids[iend];
-		  if (elblock_max[b] < endel)
+		  if (elblock_max[b] < endel) {
 		    endel = elblock_max[b];  /* range spans multiple blocks */
+		    iend = ibeg + endel - begel;
+		  }
 		  int nelems_cur = endel - begel + 1;
 
 		  for (int k = 0; k < ncomp; k++) {
@@ -1862,8 +1864,10 @@ extern "C" {
 		
 		int jbeg = begel - elblock_min[b];
 		int endel = elem_ids[iend];
-		if (elblock_max[b] < endel)
+		if (elblock_max[b] < endel) {
 		  endel = elblock_max[b];  /* range spans multiple blocks */
+		  iend = ibeg + endel - begel;
+		}
 		int nelems_cur = endel - begel + 1;
 		
 		/* ex_get_partial_var is using indices starting from 1 */
@@ -1985,7 +1989,7 @@ extern "C" {
 	    int ibeg = 0;
 	    while (ibeg < nnodes2read) {
 	      int iend = ibeg;
-	      while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	      while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	      int nnodes_cur = iend - ibeg + 1;
 
               int begnode = nodes2read[ibeg];
@@ -2033,7 +2037,7 @@ extern "C" {
 	  int ibeg = 0;
 	  while (ibeg < nnodes2read) {
 	    int iend = ibeg;
-	    while (nodes2read[iend+1] == nodes2read[iend]+1) iend++;
+	    while (iend < nnodes2read-1 && nodes2read[iend+1] == nodes2read[iend]+1) iend++;
 	    int nnodes_cur = iend - ibeg + 1;
 
             int begnode = nodes2read[ibeg];
-- 
2.43.0


From a304a150900546baff2a93ba3990caed31e1d348 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 50/51] fix: polyhedra in Exodus II files read in pieces

---
 src/io/MESH_ReadExodusII_Partial.c | 87 ++++++++++++++++--------------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index e8ddff3..f61db95 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -260,8 +260,6 @@ extern "C" {
 
     int *elem_blockidx = (int *) malloc(nelems*sizeof(int));
 
-    int elcounter = 0;
-
     
     /* Gather info needed for any polyhedral elements */
 
@@ -298,8 +296,10 @@ extern "C" {
 	    
 	    int jbeg = begel - elblock_min[b];  /* jbeg is index in global
 						   list of elements */
-	    if (elblock_max[b] < endel)
+	    if (elblock_max[b] < endel) {
 	      endel = elblock_max[b];    /* range spans multiple blocks */
+	      iend = ibeg + endel - begel;
+	    }
 	    int nelems_cur = endel - begel + 1;
 	    
 	    if (strncasecmp(elblock_type[b],"NFACED",6) == 0) {
@@ -328,11 +328,10 @@ extern "C" {
 	      int nelfaces_cur_sum = 0;
 	      for (j = 0; j < nelems_cur; j++) {
 		nelfaces_cur_sum += nelfaces_cur[jbeg+j];
-		nelfaces[elcounter] = nelfaces_cur[jbeg+j];
-		elem_blockidx[elcounter] = b;
-		global2local_elem_map[begel+j] = elcounter+1;
-		local2global_elem_map[elcounter+1] = begel+j;
-		elcounter++;
+		nelfaces[ibeg+j] = nelfaces_cur[jbeg+j];
+		elem_blockidx[ibeg+j] = b;
+		global2local_elem_map[begel+j] = ibeg+j+1;
+		local2global_elem_map[ibeg+j+1] = begel+j;
 	      }
 
 	      if (nelfaces_alloc < nelfaces_sum + nelfaces_cur_sum) {
@@ -340,17 +339,21 @@ extern "C" {
 		elfaces = (int *) realloc(elfaces, nelfaces_alloc*sizeof(int));
 	      }
 	      
-	      /* ex_get_partial_conn for NFACED elements is different
-		 than for standard elements; for NFACED elements you
-		 have to give it the offset to the first face of the
-		 starting element (begel) and the number of faces to
-		 be read */
-
-	      status = ex_get_partial_conn(exoid, EX_ELEM_BLOCK,
-					   elblock_ids[b], elfaces_beg+1,
-					   nelfaces_cur_sum,
-					   NULL, NULL,
-					   elfaces + nelfaces_sum);
+	      /* ex_get_partial_conn supports only nodal connectivity,
+		 so get the faces of all elements of the block and
+		 keep the ones from the first face of the starting
+		 element (begel) onwards */
+
+	      int nelfaces_blk_sum = 0;
+	      for (j = 0; j < elblock_nelems[b]; j++)
+		nelfaces_blk_sum += nelfaces_cur[j];
+
+	      int *elfaces_blk = (int *) malloc(nelfaces_blk_sum*sizeof(int));
+	      status = ex_get_conn(exoid, EX_ELEM_BLOCK, elblock_ids[b],
+				   NULL, NULL, elfaces_blk);
+	      memcpy(elfaces + nelfaces_sum, elfaces_blk + elfaces_beg,
+		     nelfaces_cur_sum*sizeof(int));
+	      free(elfaces_blk);
 	      if (status < 0) {
 		sprintf(mesg,
 			"Error reading elem block info in Exodus II file %s\n",
@@ -375,10 +378,10 @@ extern "C" {
       memcpy(faces2read_tmp, elfaces, nelfaces_sum*sizeof(int));
       qsort(faces2read_tmp, nelfaces_sum, sizeof(int), compareINT);
       faces2read = (int *) malloc(nelfaces_sum*sizeof(int));
-      faces2read[0] = faces2read_tmp[0];
-      int nfaces2read = 1;
+      if (nelfaces_sum) faces2read[0] = faces2read_tmp[0];
+      nfaces2read = nelfaces_sum ? 1 : 0;
       int curf = 0, nxtf = 1;
-      while (nxtf < nfaces2read) {
+      while (nxtf < nelfaces_sum) {
 	if (faces2read_tmp[nxtf] != faces2read_tmp[curf]) {
 	  faces2read[nfaces2read++] = faces2read_tmp[nxtf];
 	  curf = nxtf;
@@ -410,8 +413,8 @@ extern "C" {
 	status = ex_get_block(exoid, EX_FACE_BLOCK, faceblock_ids[i], face_type,
 			      &(faceblock_nfaces[i]), &nfnodes_cur_sum,
 			      NULL, NULL, NULL);
-	faceblock_min[i] = (i == 0) ? 0 : faceblock_max[i-1]+1;
-	faceblock_max[i] = faceblock_min[i] + faceblock_nfaces[i];
+	faceblock_min[i] = (i == 0) ? 1 : faceblock_max[i-1]+1;
+	faceblock_max[i] = faceblock_min[i] + faceblock_nfaces[i] - 1;
 	nfnodes_sum_max += nfnodes_cur_sum;
       }
 
@@ -423,7 +426,7 @@ extern "C" {
       while (ibeg < nfaces2read) {
 	/* Find range of contiguous face numbers */
 	int iend = ibeg;
-	while (faces2read[iend+1] == faces2read[iend]+1) iend++;
+	while (iend < nfaces2read-1 && faces2read[iend+1] == faces2read[iend]+1) iend++;
 
 	int begf = faces2read[ibeg];
 	int endf = faces2read[iend];
@@ -431,8 +434,10 @@ extern "C" {
 	for (int i = 0; i < nfaceblock_total; i++) {
 	  if (faceblock_min[i] <= begf && begf <= faceblock_max[i]) {
 
-	    if (endf > faceblock_max[i])
+	    if (endf > faceblock_max[i]) {
 	      endf = faceblock_max[i];   /* range spans multiple face blocks */
+	      iend = ibeg + endf - begf;
+	    }
 
 	    int nface_cur = endf - begf + 1;
 	    int jbeg = begf - faceblock_min[i];
@@ -457,12 +462,12 @@ extern "C" {
 	    int fnodes_beg = 0;
 	    int j;
 	    for (j = 0; j < jbeg; j++)
-	      fnodes_beg += nfnodes_cur[0];
+	      fnodes_beg += nfnodes_cur[j];
 
 	    int nfnodes_cur_sum = 0;
 	    for (int j = 0; j < nface_cur; j++) {
 	      nfnodes_cur_sum += nfnodes_cur[jbeg+j];
-	      nfnodes[nfnodes_sum+j] = nfnodes_cur[jbeg+j];
+	      nfnodes[ibeg+j] = nfnodes_cur[jbeg+j];
 	    }
 	    
 	    /* ex_get_partial_conn requires us to provde the offset of
@@ -545,11 +550,10 @@ extern "C" {
 	    int nelnodes_cur_sum = 0;
 	    for (j = 0; j < nelems_cur; j++) {
 	      nelnodes_cur_sum += nelnodes_cur[jbeg+j];
-	      nelnodes[elcounter] = nelnodes_cur[jbeg+j];
-	      elem_blockidx[elcounter] = b;
-	      global2local_elem_map[begel+j] = elcounter+1;
-	      local2global_elem_map[elcounter+1] = begel+j;
-	      elcounter++;
+	      nelnodes[ibeg+j] = nelnodes_cur[jbeg+j];
+	      elem_blockidx[ibeg+j] = b;
+	      global2local_elem_map[begel+j] = ibeg+j+1;
+	      local2global_elem_map[ibeg+j+1] = begel+j;
 	    }
 
 	    if (nelnodes_sum + nelnodes_cur_sum > nelnodes_alloc) {
@@ -604,11 +608,10 @@ extern "C" {
 	       the same number of nodes */
 	    int j;
 	    for (j = 0; j < nelems_cur; j++) {
-	      nelnodes[elcounter] = elblock_nelnodes[b];
-	      elem_blockidx[elcounter] = b;
-	      global2local_elem_map[begel+j] = elcounter+1;
-	      local2global_elem_map[elcounter+1] = begel+j;
-	      elcounter++;
+	      nelnodes[ibeg+j] = elblock_nelnodes[b];
+	      elem_blockidx[ibeg+j] = b;
+	      global2local_elem_map[begel+j] = ibeg+j+1;
+	      local2global_elem_map[ibeg+j+1] = begel+j;
 	    }
 
 	    nelnodes_sum += elblock_nelnodes[b]*nelems_cur;
@@ -787,12 +790,13 @@ extern "C" {
 
 	  mfaces = (MFace_ptr *) malloc(nfaces2read*sizeof(MFace_ptr));
 
+	  int fnoffset = 0;
 	  for (int f = 0; f < nfaces2read; f++) {
 	    mfaces[f] = MF_New(mesh);
 	    for (int n = 0; n < nfnodes[f]; n++)
-	      fverts[n] = mverts[fnodes[n]];
+	      fverts[n] = mverts[fnodes[fnoffset+n]];
+	    fnoffset += nfnodes[f];
 	    MF_Set_Vertices(mfaces[f], nfnodes[f], fverts);
-	    MSet_Add(faceset, mfaces[f]);
 	  }
 
 	  /* replace face numbers in the elfaces array with local face numbers */
@@ -841,6 +845,7 @@ extern "C" {
 		rfdirs[f] = 1;
 	    }
 	    foffset += nrf;
+	    MR_Set_Faces(mr,nrf,rfaces_arr,rfdirs);
 
 	  } else {  /* standard element */
 	  
@@ -1117,7 +1122,6 @@ extern "C" {
 		}
 		for (k1 = 0; k1 < 3; k1++) fcen[k][k1] /= nfv;
 		List_Delete(fvlist);
-		List_Delete(rvlist);
               
 		fnormal[k][0] = fnormal[k][1] = fnormal[k][2] = 0.0;
 		for (k1 = 0; k1 < nfv; k1++) {
@@ -1133,6 +1137,7 @@ extern "C" {
 		  MSTK_VSum3(fnormal[k], normal, fnormal[k]);
 		}
 	      }
+	      List_Delete(rvlist);
 	      for (int k = 0; k < 3; k++) rcen[k] /= nrv;
             
 	      int nfgood = 0;
-- 
2.43.0


From bc8ac8219535ddc80c0b51a80649c0c0214555b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 51/51] fix: Exodus II files written by a distributed mesh

Sides with no owned element were dereferenced as NULL, element and node
sets listed entities that are not written (number 0), and the element map
was written in mesh order instead of the block order of the file.
---
 src/io/MESH_ExportToExodusII.c | 50 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 37ad4a2..2574823 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -1017,19 +1017,21 @@ extern "C" {
    
     for (i = 0; i < num_node_set_glob; i++) {
       int nnodes = MSet_Num_Entries(node_sets_glob[i]);
-#ifdef EXODUS_6_DEPRECATED
-      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
-#else
-      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
-#endif
-
       int *node_list = (int *) malloc(nnodes*sizeof(int));
 
       idx = 0; j = 0;
       while ((mv = MSet_Next_Entry(node_sets_glob[i],&idx))) {
         MEnt_Get_AttVal(mv,vidatt,&vid,&rval,&pval);
+        if (vid == 0) continue;  /* node is not written (e.g. used only by ghosts) */
 	node_list[j++] = vid;
       }
+      nnodes = j;
+
+#ifdef EXODUS_6_DEPRECATED
+      ex_put_node_set_param(exoid, node_set_ids_glob[i], nnodes, 0);
+#else
+      ex_put_set_param(exoid, EX_NODE_SET, node_set_ids_glob[i], nnodes, 0);
+#endif
 
 #ifdef EXODUS_6_DEPRECATED
       ex_put_node_set(exoid, node_set_ids_glob[i], node_list);
@@ -1071,10 +1073,11 @@ extern "C" {
 
 #ifdef MSTK_HAVE_MPI
           if (comm && MR_PType(mr) == PGHOST) {
-            if (List_Num_Entries(fregs) > 1)
-              mr = List_Entry(fregs,1);  /* at least 1 region should be owned */
-            else  // First check in loop should prevent it from coming here
-              MSTK_Report("MESH_ExportToExodusII", "Trying to write out ghost side set face thats not on the parallel boundary", MSTK_FATAL);
+            mr = List_Num_Entries(fregs) > 1 ? List_Entry(fregs,1) : NULL;
+            if (!mr || MR_PType(mr) == PGHOST) { /* No owned region uses it */
+              List_Delete(fregs);
+              continue;
+            }
           }
 #endif
 
@@ -1127,8 +1130,16 @@ extern "C" {
 	  mf = List_Entry(efaces,0);
 
 #ifdef MSTK_HAVE_MPI
-          if (comm && MF_PType(mf) == PGHOST)
-            mf = List_Entry(efaces,1);  /* at least 1 face should be owned */
+          if (comm && MF_PType(mf) == PGHOST) {
+            int nef = List_Num_Entries(efaces), jf = 1;
+            for (mf = NULL; jf < nef && !mf; jf++)
+              if (MF_PType((MFace_ptr) List_Entry(efaces,jf)) != PGHOST)
+                mf = List_Entry(efaces,jf);
+            if (!mf) {  /* No owned face uses it */
+              List_Delete(efaces);
+              continue;
+            }
+          }
 #endif
 
 	  /* Since elements will be read back from the Exodus II file
@@ -1170,15 +1181,18 @@ extern "C" {
   
     for (i = 0; i < num_element_set_glob; i++) {
       int nelements = MSet_Num_Entries(element_sets_glob[i]);
-      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
-
       int *element_list = (int *) malloc(nelements*sizeof(int));
 
       MEntity_ptr ment;
       idx = 0; j = 0;
-      while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx)))
-        element_list[j++] = elem_id[MEnt_ID(ment)-1];
+      while ((ment = MSet_Next_Entry(element_sets_glob[i],&idx))) {
+        id = elem_id[MEnt_ID(ment)-1];
+        if (id == 0) continue;  /* element is not written (e.g. a ghost) */
+        element_list[j++] = id;
+      }
+      nelements = j;
 
+      ex_put_set_param(exoid, EX_ELEM_SET, element_set_ids_glob[i], nelements, 0);
       ex_put_set(exoid, EX_ELEM_SET, element_set_ids_glob[i], element_list, NULL);
 
       free(element_list);
@@ -1242,7 +1256,7 @@ extern "C" {
           MEnt_Get_AttVal(mr, ownedatt, &rowned, &rval, &pval);
 #endif
           if (rowned)
-            elem_map[i++] = MR_GlobalID(mr);
+            elem_map[elem_id[MR_ID(mr)-1]-1] = MR_GlobalID(mr);
         }
       }
       else { // assume surface mesh
@@ -1256,7 +1270,7 @@ extern "C" {
           MEnt_Get_AttVal(mf, ownedatt, &fowned, &rval, &pval);
 #endif
           if (fowned)
-            elem_map[i++] = MF_GlobalID(mf);
+            elem_map[elem_id[MF_ID(mf)-1]-1] = MF_GlobalID(mf);
         }
       }
 #ifdef EXODUS_6_DEPRECATED
-- 
2.43.0

