From bce89d67bb0720baace7b1fb245e3cbbd3b26c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 001/215] fix: merge triangular faces shared by wedge cells

---
 sfepy/discrete/common/extmods/mesh.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..1206b73 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -1291,6 +1291,17 @@ inline int32 sort_local_connectivity(MeshConnectivity *loc, uint32 *oris,
   if ((p)[0] > (p)[1]) SwapValues((p)[0], (p)[1], (work));\
 } while (0)
 
+// Triangular wedge faces have four items with one vertex repeated - move the
+// repeated item to the end, so that the sorted faces can be compared.
+#define MOVE_REPEATED4(p) do {\
+  if ((p)[0] == (p)[1]) {\
+    (p)[1] = (p)[2];\
+    (p)[2] = (p)[3];\
+  } else if ((p)[1] == (p)[2]) {\
+    (p)[2] = (p)[3];\
+  }\
+} while (0)
+
 inline void uint32_sort234_copy(uint32 *out, uint32 *p, uint32 num)
 {
   uint32 ii;
@@ -1308,6 +1319,7 @@ inline void uint32_sort234_copy(uint32 *out, uint32 *p, uint32 num)
     break;
   case 4:
     SORT4(out, work);
+    MOVE_REPEATED4(out);
     break;
   }
 }
@@ -1325,6 +1337,7 @@ inline int32 uint32_sort4(uint32 *p)
   if (p[2] < p[3]) key += 32;
 
   SORT4(p, work);
+  MOVE_REPEATED4(p);
 
   return(key);
 }
-- 
2.43.0


From 97b3774f1bfc5c597453c4918c4fa803ef8ae7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 002/215] fix: centroids and normals of triangular wedge faces

---
 sfepy/discrete/common/extmods/mesh.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 1206b73..df847a0 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -887,7 +887,7 @@ int32 mesh_select_complete(Mesh *mesh, Mask *mask, int32 dim,
 int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
 {
   uint32 nc = mesh->geometry->dim;
-  uint32 id;
+  uint32 id, prev, num;
   float64 *ptr = ccoors;
   float64 *coors = mesh->geometry->coors;
   MeshEntityIterator it0[1], it1[1];
@@ -896,13 +896,19 @@ int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
     for (id = 0; id < nc; id++) {
       ptr[id] = 0.0;
     }
+    num = 0;
+    prev = UINT32_None;
     for (mei_init_conn(it1, it0->entity, 0); mei_go(it1); mei_next(it1)) {
+      // Triangular wedge faces have the last vertex repeated.
+      if (it1->entity->ii == prev) continue;
+      prev = it1->entity->ii;
+      num++;
       for (id = 0; id < nc; id++) {
         ptr[id] += coors[nc * it1->entity->ii + id];
       }
     }
     for (id = 0; id < nc; id++) {
-      ptr[id] /= (float64) it1->it_end;
+      ptr[id] /= (float64) num;
     }
     ptr += nc;
   }
@@ -1117,6 +1123,9 @@ int32 mesh_get_facet_normals(Mesh *mesh, float64 *normals, int32 which)
       ik = loc->indices + loc->offsets[ii]; // Points to local facet vertices.
 
       n_loc = loc->offsets[ii+1] - loc->offsets[ii];
+      if ((n_loc == 4) && (ik[2] == ik[3])) {
+        n_loc = 3; // Triangular wedge faces have the last vertex repeated.
+      }
       if (n_loc == 2) { // Edge normals.
         for (id = 0; id < nc; id++) {
           v0[id] = VS(1, id) - VS(0, id);
-- 
2.43.0


From 9e0ce5b91d2d07a2580398aede09a25a0027184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 003/215] fix: volumes of general wedge cells

---
 sfepy/discrete/common/extmods/mesh.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index df847a0..6fd3bc8 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -1053,19 +1053,15 @@ int32 mesh_get_volumes(Mesh *mesh, float64 *volumes, int32 dim)
           ptr[0] /= 6.0;
         }
       } else if (entity_vertices->num == 6) { // Wedge cells
-          for (id = 0; id < nc; id++) {
-            vv0 = VS(0, id);
-            vv1 = VS(1, id);
-            vv2 = VS(2, id);
-            vv3 = VS(3, id);
+        // Hexahedron formula below with the collapsed vertices 2, 3 and 6, 7.
+        aux = _aux_hex(coors, entity_vertices->indices, nc, 0, 1, 2, 2);
+        aux -= _aux_hex(coors, entity_vertices->indices, nc, 3, 4, 5, 5);
+        aux -= _aux_hex(coors, entity_vertices->indices, nc, 0, 1, 3, 4);
+        aux += _aux_hex(coors, entity_vertices->indices, nc, 2, 2, 5, 5);
+        aux += _aux_hex(coors, entity_vertices->indices, nc, 0, 2, 3, 5);
+        aux -= _aux_hex(coors, entity_vertices->indices, nc, 1, 2, 4, 5);
+        ptr[0] = aux / 12.0;
 
-            v0[id] = vv1 - vv0;
-            v1[id] = vv2 - vv0;
-            v2[id] = vv3 - vv2;
-          }
-          gtr_cross_product(ndir, v0, v1);
-          gtr_dot_v3(ptr, v2, ndir, 3);
-          ptr[0] /= 2.0;
       } else { // Hexahedral cells with trilinear interpolation.
         // See https://math.stackexchange.com/questions/1628540/what-is-the-enclosed-volume-of-an-irregular-cube-given-the-x-y-z-coordinates-of
         // Uses 0 1 3 2 4 5 7 6 ordering w.r.t. sfepy.
-- 
2.43.0


From 568a9bfb33cbdd7c03274bc6de596b962f1e9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 004/215] fix: shape of the connectivity graph of
 CMesh.get_conn_as_graph()

---
 sfepy/discrete/common/extmods/cmesh.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..82d982e 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -485,7 +485,8 @@ cdef class CMesh:
                                np.array(conn.indices, copy=True,
                                         dtype=np.int32),
                                np.array(conn.offsets, copy=True,
-                                        dtype=np.int32)))
+                                        dtype=np.int32)),
+                              shape=(int(self.num[d1]), int(self.num[d2])))
 
         return graph
 
-- 
2.43.0


From d628530046a64700fd80db57cf3064c0e2758ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 005/215] fix: stale entity orientations after freeing and
 re-creating connectivities

---
 sfepy/discrete/common/extmods/cmesh.pyx | 43 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index 82d982e..6db2ad1 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -368,8 +368,6 @@ cdef class CMesh:
         Set up mesh edge (2D and 3D) and face connectivities (3D only) as well
         as their orientations.
         """
-        cdef np.npy_intp shape[1]
-
         if not self.entities:
             msg = 'CMesh.setup_entities() must be called after'\
                   ' CMesh.set_local_entities()!'
@@ -381,27 +379,37 @@ cdef class CMesh:
         else:
             self.setup_connectivity(1, 0)
 
-            ii = self._get_conn_indx(self.mesh.topology.max_dim, 1)
-            shape[0] = <np.npy_intp> self.conns[ii].n_incident
-            ptr = self.mesh.topology.edge_oris
-            self.edge_oris = np.PyArray_SimpleNewFromData(1, shape,
-                                                          np.NPY_UINT32,
-                                                          <void *> ptr)
-
             if self.tdim == 3:
                 self.setup_connectivity(2, 0)
 
-                ii = self._get_conn_indx(self.mesh.topology.max_dim, 2)
-                shape[0] = <np.npy_intp> self.conns[ii].n_incident
+    def _update_orientations(self):
+        """
+        Update the edge and face orientations according to the current
+        cell-edge and cell-face connectivities.
+        """
+        cdef np.npy_intp shape[1]
+
+        self.edge_oris = self.face_oris = self.facet_oris = None
+
+        if self.tdim > 1:
+            conn = self.conns[self._get_conn_indx(self.tdim, 1)]
+            if conn is not None:
+                shape[0] = <np.npy_intp> conn.n_incident
+                ptr = self.mesh.topology.edge_oris
+                self.edge_oris = np.PyArray_SimpleNewFromData(1, shape,
+                                                              np.NPY_UINT32,
+                                                              <void *> ptr)
+            self.facet_oris = self.edge_oris
+
+        if self.tdim == 3:
+            conn = self.conns[self._get_conn_indx(self.tdim, 2)]
+            if conn is not None:
+                shape[0] = <np.npy_intp> conn.n_incident
                 ptr = self.mesh.topology.face_oris
                 self.face_oris = np.PyArray_SimpleNewFromData(1, shape,
                                                               np.NPY_UINT32,
                                                               <void *> ptr)
-
-                self.facet_oris = self.face_oris
-
-            else:
-                self.facet_oris = self.edge_oris
+            self.facet_oris = self.face_oris
 
     def setup_connectivity(self, d1, d2):
         cdef MeshConnectivity *pconn
@@ -427,6 +435,8 @@ cdef class CMesh:
                 cconn._set_conn(pconn)
                 self.conns[ii] = cconn
 
+        self._update_orientations()
+
     def _update_num(self):
         self.num[0] = self.n_coor
         self.num[self.mesh.topology.max_dim] = self.n_el
@@ -451,6 +461,7 @@ cdef class CMesh:
 
         mesh_free_connectivity(self.mesh, d1, d2)
         self._update_num()
+        self._update_orientations()
 
         max_dim = self.mesh.topology.max_dim
         if (max_dim > d1 > 0) and (d2 == 0):
-- 
2.43.0


From 278ea3a4ea2abd683b440f4d1c751bda355097e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 006/215] fix: Mesh.create_conn_graph() of meshes with several
 cell types

---
 sfepy/discrete/fem/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 5878863..3e11658 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -549,8 +549,8 @@ class Mesh(Struct):
         timer = Timer(start=True)
 
         graph = 0
-        for tdim in self.dims:
-            conn = self.get_conn(self.descs[0], tdim=tdim)
+        for desc, tdim in zip(self.descs, self.dims):
+            conn = self.get_conn(desc, tdim=tdim)
             graph += create_dof_graph(conn, conn, shape).tocsr()
 
         output('...done in %.2f s' % timer.stop(), verbose=verbose)
-- 
2.43.0


From b36dbc79961dd22a7ba6edb45ed5292551b6d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 007/215] fix: double free of connectivities freed before their
 mesh

---
 sfepy/discrete/common/extmods/mesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 6fd3bc8..149312c 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -265,6 +265,8 @@ int32 conn_free(MeshConnectivity *conn)
 {
    free_mem(conn->indices);
    free_mem(conn->offsets);
+   conn->indices = 0;
+   conn->offsets = 0;
    conn->num = 0;
    conn->n_incident = 0;
 
-- 
2.43.0


From 916116f10e6f8b711a3764eb0de162a1961e4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 008/215] fix: CMesh.get_local_ids() of entities with no
 incident entities

---
 sfepy/discrete/common/extmods/cmesh.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index 6db2ad1..3e8ec73 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -584,7 +584,7 @@ cdef class CMesh:
         cdef MeshConnectivity _incident[1]
         cdef np.ndarray[uint32, mode='c', ndim=1] out
 
-        if not entities.shape[0] > 0:
+        if not ((entities.shape[0] > 0) and (incident.shape[0] > 0)):
             return np.empty(0, dtype=np.uint32)
 
         _entities.num = entities.shape[0]
-- 
2.43.0


From a268ad8a76ce4821644a92757f8a52acc20e9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 009/215] fix: Region.get_cell_indices() of regions with
 unsorted cells

---
 sfepy/discrete/common/region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..9d37449 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -635,7 +635,9 @@ class Region(Struct):
         if not iin.all():
             raise ValueError(f'some cells are not in region {self.name} cells!')
 
-        iis = nm.searchsorted(fcells, cells)
+        # The region cells, e.g. those incident to facets, need not be sorted.
+        order = nm.argsort(fcells, kind='stable')
+        iis = order[nm.searchsorted(fcells, cells, sorter=order)]
         assert_((fcells[iis[iin]] == cells[iin]).all())
 
         ii = nm.where(iin, iis, -1)
-- 
2.43.0


From 947ec4c1d93bacdb91c04285d7101cb064c48868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 010/215] fix: Region.contains() of partially overlapping
 regions

---
 sfepy/discrete/common/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 9d37449..6c30417 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -778,7 +778,7 @@ class Region(Struct):
         se = self.get_entities(tdim)
         oe = other.entities[tdim]
 
-        return len(nm.intersect1d(se, oe))
+        return nm.isin(oe, se).all()
 
     def get_charfun(self, by_cell=False, val_by_id=False):
         """
-- 
2.43.0


From f42acf266f6057f58cda17be021a3ac6cb109b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 011/215] fix: lower kinds of regions defined by higher
 dimension entities

---
 sfepy/discrete/common/region.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 6c30417..f497eb6 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -281,12 +281,22 @@ class Region(Struct):
             self.can_edges = can[1]
             self.can_faces = can[2]
 
+        self.set_kind_tdim()
+
+        if self.entities[self.kind_tdim] is None:
+            # Get the kind entities before removing the higher dimension ones.
+            sizes = [None if ents is None else len(ents)
+                     for ents in self.entities]
+            if any(sizes[self.kind_tdim + 1:]):
+                self.setup_from_highest(self.kind_tdim)
+
+            elif (0 in sizes) and not any(sizes):
+                self.entities[self.kind_tdim] = nm.empty(0, dtype=nm.uint32)
+
         for ii, ican in enumerate(self.can):
             if not ican:
                 self.entities[ii] = nm.empty(0, dtype=nm.uint32)
 
-        self.set_kind_tdim()
-
     def set_kind_tdim(self):
         if 'vertex' in self.true_kind:
             self.kind_tdim = 0
-- 
2.43.0


From 68387b108fb95a3b52f1bafe15926f909149c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 012/215] fix: 'cells by' region selector on surface and curve
 meshes

---
 sfepy/discrete/common/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..bdf678f 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -82,7 +82,7 @@ def region_leaf(domain, regions, rdef, functions, tdim):
         elif token == 'E_CBF':
             where = details[2]
 
-            coors = domain.get_centroids(dim)
+            coors = cmesh.get_centroids(cmesh.tdim)
 
             fun = functions[where]
             cells = fun(coors, domain=domain)
-- 
2.43.0


From f8621fabcef2b9052f96b595d0e8a3828ae31b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 013/215] fix: allow empty regions defined by facets, edges or
 cells

---
 sfepy/discrete/common/region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index f497eb6..b908550 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -497,6 +497,10 @@ class Region(Struct):
         all already existing (accessed) entities of lower topological dimension
         from the kind entities.
         """
+        if allow_empty:
+            self.is_empty = not any(ents is not None and len(ents)
+                                    for ents in self.entities)
+
         self._access(self.kind_tdim)
         is_empty = self.entities[self.kind_tdim].shape[0] == 0
         if allow_empty:
-- 
2.43.0


From a0375e4fa5bedabe5d7c83d4c88bac7ca5062c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 014/215] fix: cell sets of meshes with several cell types
 written by meshio

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..501e071 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -531,7 +531,7 @@ class MeshioLibIO(MeshIO):
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-                cell_sets[str(k)].append(cidxs[idxs])
+                cell_sets[str(k)].append(idxs)
 
         if self.file_format in ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu']:
             point_sets, cell_sets = None, None
-- 
2.43.0


From db7f9e2adc29152b2f6fcfb62145d46d84a9ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 015/215] fix: cell groups of meshes read with omitted facets

---
 sfepy/discrete/fem/meshio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 501e071..93e1ed6 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -447,9 +447,11 @@ class MeshioLibIO(MeshIO):
 
                 continue
 
-            if (not omit_facets) or (c.dim == dim):
-                cells.append(c.data)
-                cell_types.append(self.cell_types[(c.type, dim)])
+            if omit_facets and (c.dim != dim):
+                continue
+
+            cells.append(c.data)
+            cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
                 cgroups.append(nm.asarray(cgdata[ic]).flatten())
-- 
2.43.0


From 83236244deee2c5a5b595bf19986ef5d9a270b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 016/215] fix: reading cell data of meshes with several cell
 types

---
 sfepy/discrete/fem/meshio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 93e1ed6..c06d13d 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -576,6 +576,8 @@ class MeshioLibIO(MeshIO):
 
             return data
 
+        max_cell_dim = max(c.dim for c in m.cells)
+
         out = {}
         for key, data in m.point_data.items():
             aux = _fix_shape(data).astype(nm.float64)
@@ -584,7 +586,10 @@ class MeshioLibIO(MeshIO):
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
         for key, data in m.cell_data.items():
-            aux = _fix_shape(data[0]).astype(nm.float64)
+            # The data of the cells with the highest dimension.
+            data = nm.concatenate([val for val, c in zip(data, m.cells)
+                                   if c.dim == max_cell_dim])
+            aux = _fix_shape(data).astype(nm.float64)
             if key.endswith(':ref'):
                 key = 'mat_id'
             out[key] = Struct(name=key, mode='cell', data=aux)
-- 
2.43.0


From 1901d3022db0f8dc6a03c8dbea1f866336f2b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 017/215] fix: reading non-vector data from meshio formats

---
 sfepy/discrete/fem/meshio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index c06d13d..a048ab5 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -569,7 +569,9 @@ class MeshioLibIO(MeshIO):
 
         def _fix_shape(data):
             if data.ndim == 2:
-                data = data[:, :dim]
+                # Remove padding of vectors to 3D.
+                if (data.shape[1] == 3) and not data[:, dim:].any():
+                    data = data[:, :dim]
 
             elif data.ndim == 3:
                 data = data[:, None, ...]
-- 
2.43.0


From 99a2a55019a291d58588863c271dbb1d9416a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 018/215] fix: writing cell data of meshes with cells of
 several dimensions

---
 sfepy/discrete/fem/meshio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index a048ab5..fa24f3f 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -529,7 +529,13 @@ class MeshioLibIO(MeshIO):
 
             cgroups.append(cmesh.cell_groups[cidxs])
             for k in cell_data_keys:
-                cell_data[k].append(out[k].data[cidxs, 0, :, 0])
+                data = out[k].data[:, 0, :, 0]
+                if cmesh is mesh.cmesh:
+                    data = data[cidxs]
+                else: # No data in cells of a lower dimension.
+                    data = nm.zeros((len(cidxs),) + data.shape[1:],
+                                    dtype=data.dtype)
+                cell_data[k].append(data)
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-- 
2.43.0


From d6b65c6bbc2b2dfd5e143754acf4f48c97f9076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 019/215] fix: reading vtk meshes of cells not in the xy plane

---
 sfepy/discrete/fem/meshio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index fa24f3f..03cfb3e 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -372,9 +372,10 @@ class MeshioLibIO(MeshIO):
 
     @staticmethod
     def _get_dimension(points, squeeze=True):
-        if squeeze: # Ignore axes with all-equal coordinates.
-            dim = nm.sum(nm.max(points, axis=0)
-                         - nm.min(points, axis=0) > 1e-15)
+        if squeeze: # Ignore last axes with all-equal coordinates.
+            ii = nm.where(nm.max(points, axis=0)
+                          - nm.min(points, axis=0) > 1e-15)[0]
+            dim = ii[-1] + 1 if len(ii) else 0
 
         else:
             dim = points.shape[1]
-- 
2.43.0


From 5202c425f2f502ff38e67845a0a12164bf5c8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 020/215] fix: order of time steps read from DG gmsh files

---
 sfepy/discrete/fem/meshio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 03cfb3e..6bc17f7 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2092,7 +2092,8 @@ class GmshIO(MeshioLibIO):
             import glob
             from os.path import join as pjoin
             filename_wildcard = self._get_filename_wildcard(filename)
-            filenames = glob.glob(filename_wildcard)[self.load_slices[step]]
+            filenames = sorted(glob.glob(filename_wildcard))
+            filenames = filenames[self.load_slices[step]]
 
             for filename in filenames:
                 element_node_out = self._read_element_node_data(filename)
-- 
2.43.0


From 7fbb80b5d427eecfa94aa2f677540e1f73823e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 021/215] fix: writing wedge meshes in the HDF5-XDMF format

---
 sfepy/discrete/fem/meshio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 6bc17f7..cc913bc 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1035,6 +1035,7 @@ class HDF5MeshIO(MeshIO):
             '2_3': 'Triangle',
             '2_4': 'Quadrilateral',
             '3_4': 'Tetrahedron',
+            '3_6': 'Wedge',
             '3_8': 'Hexahedron',
         }
 
-- 
2.43.0


From f32af1b4ad8e5b1a564cd9850630cd8083dbcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 022/215] fix: XYZ format of 1D meshes, refuse unsupported
 meshes

---
 sfepy/discrete/fem/meshio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index cc913bc..f9bb736 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2338,7 +2338,7 @@ class XYZMeshIO(MeshIO):
 
     def _read_coors(self):
         coors = nm.loadtxt(self.filename, ndmin=2)
-        if (coors[:, -1] == 0).all():
+        while (coors.shape[1] > 1) and (coors[:, -1] == 0).all():
             coors = coors[:, :-1].copy()
 
         return coors
@@ -2389,6 +2389,9 @@ class XYZMeshIO(MeshIO):
     def write(self, filename, mesh, out=None, **kwargs):
         coors, ngroups, conns, mat_ids, desc = mesh._get_io_data()
         n_nod, dim = coors.shape
+        if (len(desc) != 1) or (int(desc[0][0]) != dim):
+            raise ValueError('the XYZ format supports only a single cell type'
+                             ' of the space dimension! (%s)' % desc)
 
         zz = nm.zeros((n_nod, 3-dim))
         nm.savetxt(filename, nm.c_[coors, zz])
-- 
2.43.0


From 84ab2e824d3ac2ec05aed862629a0647e687fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 023/215] fix: close the HDF5 file when refusing to save a step
 twice

---
 sfepy/discrete/fem/meshio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index f9bb736..f9e75c7 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1154,6 +1154,7 @@ class HDF5MeshIO(MeshIO):
 
             step_group_name = 'step%d' % step
             if step_group_name in fd.root:
+                fd.close()
                 raise ValueError('step %d is already saved in "%s" file!'
                                  ' Possible help: remove the old file or'
                                  ' start saving from the initial time.'
-- 
2.43.0


From 3d8bdcddff3f504c7318d35a44f6fb45273818a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 024/215] fix: integer vertex and cell groups read from gmsh
 files

---
 sfepy/discrete/fem/meshio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index f9e75c7..920907a 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -398,7 +398,8 @@ class MeshioLibIO(MeshIO):
                 break
 
         if ngkey is not None:
-            ngroups = nm.asarray(m.point_data[ngkey]).flatten()
+            ngroups = nm.asarray(m.point_data[ngkey],
+                                 dtype=nm.int32).flatten()
         elif hasattr(m, 'point_sets') and len(m.point_sets) > 0:
             ngroups = nm.zeros((len(m.points),), dtype=nm.int32)
             keys = list(m.point_sets.keys())
@@ -455,7 +456,8 @@ class MeshioLibIO(MeshIO):
             cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
-                cgroups.append(nm.asarray(cgdata[ic]).flatten())
+                cgroups.append(nm.asarray(cgdata[ic],
+                                          dtype=nm.int32).flatten())
             else:
                 cgroups.append(nm.ones((len(c.data),), dtype=nm.int32))
 
-- 
2.43.0


From 43a09850e0df0ef08ed5cbf1ddbe49c0db05d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 025/215] fix: quadrature rules of wedges and full order rules
 above the tabulated orders

---
 sfepy/discrete/quadratures.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..2bd5a95 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,9 +152,9 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
-            if not full_order:
-                order1d = order
-                dim = int(geometry[0])
+            dim = int(geometry[0])
+            order1d = order
+            if (not full_order) or (geometry == '3_6'):
                 order = dim * order1d
 
             if order <= max_orders[geometry]:
@@ -162,6 +162,19 @@ class QuadraturePoints(Struct):
                 qp = table[order]
                 qp.order = order
 
+            elif (geometry == '3_6') and full_order:
+                # Product of the triangle (ref. volume 0.5) and line rules.
+                qp2d = QuadraturePoints.from_table('2_3', order1d)
+                qp1d = QuadraturePoints.from_table('1_2', order1d)
+
+                n2, n1 = qp2d.coors.shape[0], qp1d.coors.shape[0]
+                coors = nm.c_[nm.tile(qp2d.coors, (n1, 1)),
+                              nm.repeat(qp1d.coors, n2, axis=0)].copy()
+                weights = nm.outer(qp1d.weights, qp2d.weights).ravel()
+
+                qp = QuadraturePoints(None, coors=coors, weights=weights)
+                qp.order = order
+
             else:
                 oo = get_actual_order('1_2', order1d)
                 qp1d = quadrature_tables['1_2'][oo]
@@ -210,9 +223,6 @@ class QuadraturePoints(Struct):
         bbox = nm.array([self.bounds] * self.dim, dtype=nm.float64)
         self.volume = nm.prod(bbox.sum(axis=1)) * tp_fix
 
-        if symmetric:
-            isym = 0 if data[0, 0] == 0 else None
-
         if bounds is not None:
             # Transform from given bounds to self.bounds.
             bbox = nm.array([bounds] * self.dim, dtype=nm.float64)
@@ -232,6 +242,7 @@ class QuadraturePoints(Struct):
                 msg = 'symmetric mode is allowed for 1D integrals only!'
                 raise ValueError(msg)
             origin = 0.5 * (self.bounds[0] + self.bounds[1])
+            isym = 0 if self.coors[0, 0] == origin else None
 
             self.coors = nm.r_[2 * origin - self.coors[:isym:-1], self.coors]
             self.weights = nm.r_[self.weights[:isym:-1], self.weights]
-- 
2.43.0


From 401c6a40f011dc6b694f86ad13bf43665143762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 026/215] fix: distinguish custom integrals of the same order
 in caches

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 14 ++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  6 +++---
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..4b7f0a8 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.key, integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..6253139 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -634,7 +634,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.key, key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -745,7 +745,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.key, _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -766,7 +766,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -783,7 +783,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.key, sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1314,7 +1314,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.key, f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1349,7 +1349,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.key, esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..380bf32 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -104,6 +104,20 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+    @property
+    def key(self):
+        """
+        The key identifying the quadrature rules of the integral.
+        """
+        if self.mode == 'builtin':
+            return (self.order, 'full') if self.full_order else self.order
+
+        else:
+            bounds = None if self.bounds is None else tuple(self.bounds)
+            return ('custom', nm.asarray(self.coors).tobytes(),
+                    nm.asarray(self.weights).tobytes(), bounds,
+                    self.tp_fix, self.weight_fix, self.symmetric)
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..166f9c3 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.key, sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..733c6f6 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        region_name, ikey = self.region.name, self.integral.key
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -887,7 +887,7 @@ class Term(Struct):
             else:
                 mat, par_name = self.args[ii]
                 if mat is not None:
-                    mat_data = mat.get_data((region_name, iorder), par_name)
+                    mat_data = mat.get_data((region_name, ikey), par_name)
 
                 else:
                     mat_data = None
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.key)
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..dd10895 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..0705b98 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.key, geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From 52afc62790fc0cdcc859e3c972fc105c654302ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 027/215] fix: mappings of tilted surface meshes in 3D

---
 sfepy/discrete/fem/mappings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index d970967..6f11dca 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -29,7 +29,9 @@ def transform_coors_to_lower_dim(coors, to_dim):
         sphi = ab / b
 
         mtxR = nm.eye(3, 3) * cphi[:, None, None]
-        idxs = nm.where(nm.abs(ab) > 1e-16)[0]
+        # Elements facing -z direction are rotated around x axis.
+        mtxR[cphi < 0.0, 0, 0] *= -1.0
+        idxs = nm.where(nm.abs(ab) > 1e-16 * b)[0]
 
         if len(idxs) > 0:
             u1 = bv[idxs, 1] / ab[idxs]
@@ -37,10 +39,11 @@ def transform_coors_to_lower_dim(coors, to_dim):
             cphi1 = 1 - cphi[idxs]
             sphi = sphi[idxs]
 
+            mtxR[idxs] = nm.eye(3, 3) * cphi[idxs, None, None]
             R0 = nm.array([
                 [u1**2 * cphi1, u1 * u2 * cphi1, u2 * sphi],
                 [u1 * u2 * cphi1, u2**2 * cphi1, -u1 * sphi],
-                [-u2 * sphi, u1 * sphi, 0]
+                [-u2 * sphi, u1 * sphi, nm.zeros_like(u1)]
             ]).transpose(2, 0, 1)
             mtxR[idxs, ...] += R0
 
@@ -49,7 +52,7 @@ def transform_coors_to_lower_dim(coors, to_dim):
         b = nm.linalg.norm(bv, axis=1)
 
         mtxR = nm.tile(nm.eye(2, 2), (len(b), 1, 1))
-        idxs = nm.where(nm.abs(b) > 1e-16)[0]
+        idxs = nm.where(nm.abs(b) > 0.0)[0]
 
         if len(idxs) > 0:
             cphi = bv[idxs, 0] / b[idxs]
-- 
2.43.0


From 6c161fe4e3f7d71ea9310a378d87904e054c7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 028/215] fix: gradients of Bernstein simplex basis on facets
 of the reference cell

---
 sfepy/discrete/fem/poly_spaces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index f3b7a52..68eefd8 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -1159,6 +1159,7 @@ class BernsteinSimplexPolySpace(FEPolySpace):
                     dval = 0.0
                     for ib in range(dim + 1):
                         ex = node[ib]
+                        if ex == 0: continue
                         val = coef
                         for im in range(dim + 1):
                             if ib == im:
-- 
2.43.0


From 78bb34173d5e785263985a96310adf3f1bbae456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 029/215] fix: node coordinates and vertex nodes of the wedge
 Lagrange basis

---
 sfepy/discrete/fem/poly_spaces.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index 68eefd8..7b28814 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -712,10 +712,15 @@ class LagrangeWedgePolySpace(FEPolySpace):
         self.nodes = nm.empty((n_nod, nd), nm.int32)
         self.nodes[:, :nd2] = nm.tile(ps2.nodes, (ps1.n_nod, 1))
         self.nodes[:, nd2:] = nm.repeat(ps1.nodes, ps2.n_nod, axis=0)
-        self.nts = nm.vstack([ps2.nts, ps1.nts])
-        self.nts[ps2.n_nod:, 1] += ps2.n_nod
+        if order == 1:
+            self.nts = nm.zeros((n_nod, 2), nm.int32)
+            self.nts[:, 1] = nm.arange(n_nod, dtype=nm.int32)
 
-        self.node_coors = nm.empty((n_nod, 3), nm.int32)
+        else:
+            self.nts = nm.vstack([ps2.nts, ps1.nts])
+            self.nts[ps2.n_nod:, 1] += ps2.n_nod
+
+        self.node_coors = nm.empty((n_nod, 3), nm.float64)
         self.node_coors[:, :2] = nm.tile(ps2.node_coors, (ps1.n_nod, 1))
         self.node_coors[:, 2] = nm.repeat(ps1.node_coors, ps2.n_nod,
                                           axis=0)[:, 0]
-- 
2.43.0


From 1e894d8cbc299ae60613c98b4ab2ad8f028ddce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 030/215] fix: flux modes of ev_integrate on facets

---
 sfepy/discrete/common/mappings.py | 15 ++++++++-------
 sfepy/terms/terms_basic.py        |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/common/mappings.py b/sfepy/discrete/common/mappings.py
index 8714c8d..6659ff0 100644
--- a/sfepy/discrete/common/mappings.py
+++ b/sfepy/discrete/common/mappings.py
@@ -29,13 +29,14 @@ class PyCMapping(Struct):
         self.n_ep = n_ep
 
     def integrate(self, out, field, mode=0):
-        dim = field.shape[2]
-        if mode < 3 or dim == 1:
-            out[:] = nm.sum(field * self.det, axis=1)[:, None, :, :]
-            if mode == 1:
-                out /= self.volume
-        elif dim == (self.tdim + 1) and self.normal is not None:
-            out[:] = nm.dot(field, self.normal) * self.det / self.volume
+        if mode >= 3: # Flux through facets.
+            if self.normal is None:
+                raise ValueError('flux integration requires a facet mapping!')
+            field = nm.sum(field * self.normal, axis=2)[:, :, None, :]
+
+        out[:] = nm.sum(field * self.det, axis=1)[:, None, :, :]
+        if mode in (1, 4):
+            out /= self.volume
 
         return 0
 
diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..2305b60 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -71,7 +71,7 @@ class IntegrateTerm(Term):
 
         elif fmode == 5:
             normal = vg.normal
-            out[:] = dot_sequences(val_qp, normal)
+            out[:] = dot_sequences(val_qp, normal, mode='ATB')
             status = 0
 
         else:
-- 
2.43.0


From 33bd236cf35f62de2192db37705d145d46333f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 031/215] fix: ev_integrate modified cached variable values in
 place

---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index 2305b60..6b6ea36 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From b93763d19bbfc807515d3da7bddca1aba4aee155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 032/215] fix: outward normals in 1D for arbitrary vertex
 numbering

---
 sfepy/discrete/fem/fields_base.py | 10 ++++++++--
 sfepy/discrete/fem/mappings.py    | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 6253139..8f294ef 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1284,6 +1284,10 @@ class FEField(Field):
             conn = sd.get_connectivity()
             mapping = FEMapping(coors, conn, poly_space=geo_ps)
 
+            face_signs = None
+            if coors.shape[1] == 1:
+                face_signs = nm.where(sd.fis[:, 1] == 0, -1.0, 1.0)
+
             if not self.is_surface:
                 if isinstance(ps.geometry.surface_facet, dict):
                     if integration == 'facet_extra':
@@ -1370,7 +1374,8 @@ class FEField(Field):
                         se_bf_bg, se_ebf_bg, se_conn = None, None, None
 
                     out = mapping.get_mapping(qp.vals[0], qp.weights, bf,
-                        extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True)
+                        extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True,
+                        face_signs=face_signs)
 
             else:
                 # Do not use BQP for surface fields.
@@ -1378,7 +1383,8 @@ class FEField(Field):
                 bf = ps.eval_basis(qp.vals, transform=transform)
 
                 out = mapping.get_mapping(qp.vals, qp.weights, bf,
-                                          is_face=True)
+                                          is_face=True,
+                                          face_signs=face_signs)
 
         else:
             out = mapping = None
diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index 6f11dca..315a023 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -73,7 +73,8 @@ def transform_coors_to_lower_dim(coors, to_dim):
 
 def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
                             ebf_g=None, is_face=False, eps=1e-15,
-                            se_conn=None, se_bf_bg=None, ecoors=None):
+                            se_conn=None, se_bf_bg=None, ecoors=None,
+                            face_signs=None):
     """
     Evaluate mapping data.
 
@@ -102,6 +103,8 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
         coordinates.
     ecoors: numpy.ndarray
         The element nodal coordinates.
+    face_signs: numpy.ndarray
+        The signs (1 or -1) of the outward normals in 1D.
 
     Returns
     -------
@@ -132,8 +135,8 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
         normal = nm.ones((n_el, n_qp, dim, 1), dtype=nm.float64)
         if dim == 1:
             det = nm.tile(weights, (n_el, 1)).reshape(n_el, n_qp, 1, 1)
-            ii = nm.where(conn == 0)[0]
-            normal[ii] *= -1.0
+            if face_signs is not None:
+                normal *= face_signs[:, None, None, None]
         elif dim == 2:
             c1, c2 = mtxRM[..., 0], mtxRM[..., 1]
             det0 = nm.sqrt(c1**2 + c2**2).reshape(n_el, n_qp, 1, 1)
@@ -301,7 +304,7 @@ class FEMapping(Mapping):
 
     def get_mapping(self, qp_coors, weights, bf=None, poly_space=None,
                     ori=None, transform=None, is_face=False, fc_bf_map=None,
-                    extra=(None, None, None)):
+                    extra=(None, None, None), face_signs=None):
         """
         Get the mapping for given quadrature points, weights, and
         polynomial space.
@@ -333,6 +336,8 @@ class FEMapping(Mapping):
             - the boundary connectivity
             - the derivatives of the domain boundary basis functions with
               respect to the reference coordinates
+        face_signs: numpy.ndarray
+            The signs (1 or -1) of the outward normals in 1D.
 
         Returns
         -------
@@ -369,7 +374,8 @@ class FEMapping(Mapping):
         margs = eval_mapping_data_in_qp(self.coors, self.conn,
                                         bf_g, weights, ebf_g, is_face=is_face,
                                         se_conn=se_conn, se_bf_bg=se_bf_bg,
-                                        ecoors=ecoors)
+                                        ecoors=ecoors,
+                                        face_signs=face_signs)
 
         if bf is None:
             bf = nm.array([[[[0.]]]])
-- 
2.43.0


From 6e5de7a7c4a872d2112bc97b8791d32d3879f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 033/215] fix: hierarchical basis orientation and basis
 transform on subregions

---
 sfepy/discrete/fem/fields_base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 8f294ef..bffe04f 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1247,20 +1247,28 @@ class FEField(Field):
         coors = domain.get_mesh_coors(actual=True)
 
         iels = region.get_cells(true_cells_only=(region.kind == 'cell'))
-        transform = (self.basis_transform[iels] if self.basis_transform
-                     is not None else None)
+
+        # The orientations and basis transforms follow the field region cells.
+        lcells, ori, transform = None, self.ori, self.basis_transform
+        if ((region.kind == 'cell')
+            and ((ori is not None) or (transform is not None))):
+            lcells = self.region.get_cell_indices(
+                iels, true_cells_only=(self.region.kind == 'cell')
+            )
+            ori = ori[lcells] if ori is not None else None
+            transform = transform[lcells] if transform is not None else None
 
         geo_ps = self.geom_poly_space
         ps = self.poly_space
 
         if region.kind == 'cell':
             qp = self.get_qp('v', integral)
-            bf = self.eval_basis('v', 0, integral, iels=iels)
+            bf = self.eval_basis('v', 0, integral, iels=lcells)
 
             dconn = domain.get_conn(tdim=region.tdim, cells=iels)
             mapping = FEMapping(coors, dconn, poly_space=geo_ps)
             out = mapping.get_mapping(qp.vals, qp.weights, bf, poly_space=ps,
-                                      ori=self.ori, transform=transform)
+                                      ori=ori, transform=transform)
 
         elif region.kind == 'facet':
             assert_(self.approx_order > 0)
-- 
2.43.0


From ed1604c8772180af60895542f23ab7c47d2b3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 034/215] fix: stale error flag of the C core after a handled
 error

---
 sfepy/discrete/common/extmods/common.h        |  5 +++--
 sfepy/discrete/common/extmods/common_python.c | 20 +++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/common.h b/sfepy/discrete/common/extmods/common.h
index 95f8995..90930c9 100644
--- a/sfepy/discrete/common/extmods/common.h
+++ b/sfepy/discrete/common/extmods/common.h
@@ -21,6 +21,7 @@ void output(const char *what, ...);
 void errput(const char *what, ...);
 void errset(const char *msg);
 void errclear(void);
+int errcheck(void);
 
 #define AL_CookieValue   0xf0e0d0c9
 #define AL_AlreadyFreed  0x0f0e0d9c
@@ -122,13 +123,13 @@ void sys_pause(void);
   - 26.10.2005
 */
 #define ERR_CheckGo(ret) do {\
-  if (g_error != 0) {\
+  if (errcheck()) {\
     (ret) = RET_Fail;\
     goto end_label;\
   }\
 } while (0)
 #define ERR_GotoEnd(i) do { g_error = (i); goto end_label; } while (0)
-#define ERR_Chk (g_error != 0)
+#define ERR_Chk (errcheck())
 #define ERR_Clear (g_error = 0)
 #define ErrHead __FUNC__ "(): "
 extern int32 g_error;
diff --git a/sfepy/discrete/common/extmods/common_python.c b/sfepy/discrete/common/extmods/common_python.c
index 1592937..411a419 100644
--- a/sfepy/discrete/common/extmods/common_python.c
+++ b/sfepy/discrete/common/extmods/common_python.c
@@ -59,6 +59,20 @@ void errclear()
   g_error = 0;
 }
 
+#undef __FUNC__
+#define __FUNC__ "errcheck"
+/*!
+  Return nonzero if an error is pending. The error flag is stale and has to be
+  reset, if the corresponding exception was already handled in Python.
+*/
+int errcheck(void)
+{
+  if (g_error && !PyErr_Occurred()) {
+    g_error = 0;
+  }
+  return(g_error != 0);
+}
+
 /*!
   @par Revision history:
   - 17.02.2005, from rcfem2
@@ -217,8 +231,7 @@ void *mem_realloc_mem(void *pp, size_t size, int lineNo, char *funName,
   }
 
   // 1. almost as mem_free_mem().
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
@@ -280,8 +293,7 @@ void mem_free_mem(void *pp, int lineNo, char *funName,
 
   if (p == 0) return;
 
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
-- 
2.43.0


From 85d37097374018188f9576f903a90cc45d2c5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 035/215] fix: gradients on facets in the points of the facet
 basis

---
 sfepy/discrete/fem/fields_base.py | 13 +++++++++----
 sfepy/discrete/fem/mappings.py    |  9 +++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index bffe04f..60458da 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1336,7 +1336,7 @@ class FEField(Field):
                         ffcidx = nm.where(efc_map == bkey)[0][0]
                         ffcidxs.append(ffcidx)
                         indx = self.efaces[ffcidx]
-                        indx = nm.roll(indx[:bkey], -1)[::-1]
+                        indx = indx[:bkey]
                         indxs[ikey] = indx
 
                         fcco = ps.geometry.coors[indx]
@@ -1367,9 +1367,14 @@ class FEField(Field):
                     bf = abf[..., self.efaces[0]]
 
                     indx = self.gel.get_surface_entities()[0]
-                    # Fix geometry element's 1st facet orientation for gradients.
-                    indx = nm.roll(indx, -1)[::-1]
-                    mapping.set_basis_indices(indx)
+                    # The cell axes corresponding to the 1st facet axes, so
+                    # that its gradients match the facet basis.
+                    grad_axes = None
+                    if len(indx) > 2:
+                        fcco = self.gel.coors[indx]
+                        grad_axes = [nm.where((fcco[1] - fcco[0]) == 1)[0][0],
+                                     nm.where((fcco[-1] - fcco[0]) == 1)[0][0]]
+                    mapping.set_basis_indices(indx, grad_axes)
 
                     if integration == 'facet_extra':
                         se_bf_bg = geo_ps.eval_basis(qp.vals, diff=True)
diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index 315a023..7ae2e9a 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -224,6 +224,7 @@ class FEMapping(Mapping):
 
         self.poly_space = poly_space
         self.indices = None
+        self.grad_axes = None
 
     def get_geometry(self):
         """
@@ -262,15 +263,19 @@ class FEMapping(Mapping):
 
                 bf = bf_
             else:
+                if diff and self.grad_axes is not None:
+                    bf = bf[..., self.grad_axes, :]
                 bf = nm.ascontiguousarray(bf[..., :ii:, indices])
 
         return bf
 
-    def set_basis_indices(self, indices):
+    def set_basis_indices(self, indices, grad_axes=None):
         """
-        Set indices to cell-based basis that give the facet-based basis.
+        Set indices to cell-based basis that give the facet-based basis, and
+        optionally the cell axes corresponding to the facet axes.
         """
         self.indices = indices
+        self.grad_axes = grad_axes
 
     def get_physical_qps(self, qp_coors):
         """
-- 
2.43.0


From da8b4869fcd0c89232fcbc173e6d19e7f9567bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 036/215] fix: wedge facet mappings with a new integral of the
 same order

---
 sfepy/discrete/fem/fields_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 60458da..fde619f 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1308,7 +1308,8 @@ class FEField(Field):
                     for bkey in bkeys:
                         self.create_bqp_key(integral, bkey)
 
-                    nqp = nm.max([integral.qps[f'{dim - 1}_{bkey}'].n_point
+                    nqp = nm.max([self.qp_coors[(integral.key,
+                                                 f'b{bkey}')].vals.shape[1]
                                   for bkey in bkeys])
 
                     flag = ''.join(str(k) for k in bkeys)
-- 
2.43.0


From 328e8fd3c86c9b46041c264a8c130f456a52b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 037/215] fix: values of several components set in hierarchical
 basis fields

---
 sfepy/discrete/fem/fields_hierarchic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_hierarchic.py b/sfepy/discrete/fem/fields_hierarchic.py
index 1998d64..56f10f5 100644
--- a/sfepy/discrete/fem/fields_hierarchic.py
+++ b/sfepy/discrete/fem/fields_hierarchic.py
@@ -220,7 +220,7 @@ class H1HierarchicVolumeField(H1Mixin, FEField):
             raise ValueError('unknown function/value type! (%s)' % type(fun))
 
         nods, indx = nm.unique(nods, return_index=True)
-        ii = (nm.tile(dpn * indx, dpn)
+        ii = (nm.repeat(dpn * indx, dpn)
               + nm.tile(nm.arange(dpn, dtype=nm.int32), indx.shape[0]))
         vals = vals[ii]
 
-- 
2.43.0


From 24b5c8ef1d5c01824a028ab2dbe097df9c46ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 038/215] fix: order of face nodes on facets for higher order
 3D fields

---
 sfepy/discrete/fem/fields_nodal.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..ed4e92a 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -137,6 +137,27 @@ class GlobalNodalLikeBasis(Struct):
 
         return n_dof, all_dofs, remap
 
+    def _setup_esurface(self):
+        """
+        Initialize the extended surface entities. The extra nodes of all the
+        cell faces are ordered so that their positions w.r.t. the face vertices
+        are the same as in the first face.
+        """
+        FEField._setup_esurface(self)
+
+        efaces = self.efaces
+        if (self.gel.dim < 3) or (efaces.shape[1] == self.gel.faces.shape[1]):
+            return
+
+        n_fp = self.gel.faces.shape[1]
+        fcoors = self.poly_space.node_coors[efaces]
+        axes = fcoors[:, [1, n_fp - 1]] - fcoors[:, :1]
+        lcoors = (fcoors - fcoors[:, :1]) @ nm.linalg.pinv(axes)
+
+        for ii in range(1, efaces.shape[0]):
+            dist = nm.abs(lcoors[0, :, None] - lcoors[ii, None]).sum(axis=-1)
+            efaces[ii] = efaces[ii, dist.argmin(axis=1)]
+
     def get_surface_basis(self, region):
         """
         Get basis for projections to region's facets.
-- 
2.43.0


From 9766e2aebbdfa7c3c336ba298ae0a53afff38671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 039/215] fix: vertex averages on subregions and of
 discontinuous fields

---
 sfepy/discrete/fem/fields_base.py  | 16 +++++++++-------
 sfepy/discrete/fem/fields_nodal.py |  8 ++++----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index fde619f..a6f7f1c 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -476,7 +476,8 @@ class FEField(Field):
                 gps = self.geom_poly_space
                 ps = self.poly_space
                 eval_nodal_coors(self.coors, coors, self.region,
-                                 ps, gps, self.econn)
+                                 ps, gps, self.econn,
+                                 only_extra=self.n_vertex_dof > 0)
 
     def setup_coors(self):
         """
@@ -1431,7 +1432,7 @@ class FEField(Field):
                                                      data_qp.shape[0])
             raise ValueError(msg)
 
-        n_vertex = self.n_vertex_dof
+        n_vertex = region.vertices.shape[0]
         nc = data_qp.shape[2]
 
         nod_vol = nm.zeros((n_vertex,), dtype=nm.float64)
@@ -1439,16 +1440,17 @@ class FEField(Field):
 
         rg = self.get_mapping(self.region, integral, region.kind)[0]
 
-        area = nm.squeeze(rg.volume)
-        iels = self.region.get_cells()
+        area = rg.volume.ravel()
 
         data_e = nm.zeros((area.shape[0], 1, nc, 1), dtype=nm.float64)
-        rg.integrate(data_e, data_qp[iels])
+        rg.integrate(data_e, data_qp)
 
         ir = nm.arange(nc, dtype=nm.int32)
 
         if region.kind == 'cell':
-            conn = self.econn[:, :self.gel.n_vertex]
+            remap = prepare_remap(region.vertices, region.n_v_max)
+            conn = nm.take(remap, self.domain.get_conn(tdim=region.tdim,
+                                                       cells=region.cells))
         elif region.kind == 'facet':
             sd = self.domain.surface_groups[region.name]
             # Should be vertex connectivity!
@@ -1457,7 +1459,7 @@ class FEField(Field):
         for ii, cc in enumerate(conn):
             # Assumes unique nodes in cc!
             ind2, ind1 = nm.meshgrid(ir, cc)
-            data_vertex[ind1, ind2] += data_e[iels[ii], 0, :, 0]
+            data_vertex[ind1, ind2] += data_e[ii, 0, :, 0]
             nod_vol[cc] += area[ii]
 
         data_vertex /= nod_vol[:, nm.newaxis]
diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ed4e92a..b0ce4c7 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -525,6 +525,8 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
         self.bubble_dofs = all_dofs
 
         self.n_vertex_dof = self.n_edge_dof = self.n_face_dof = 0
+        # Vertices of the values averaged by average_to_vertices().
+        self.vertex_remap_i = self.region.vertices
 
         self._setup_esurface()
 
@@ -536,7 +538,7 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
         if self.approx_order != 0:
             dofs = self.average_to_vertices(dofs)
 
-        new_dofs = FEField.extend_dofs(self, dofs)
+        new_dofs = FEField.extend_dofs(self, dofs, fill_value=fill_value)
 
         return new_dofs
 
@@ -547,9 +549,7 @@ class H1DiscontinuousField(H1NodalMixin, FEField):
         if self.approx_order != 0:
             dofs = self.average_to_vertices(dofs)
 
-        new_dofs = FEField.remove_extra_dofs(self, dofs)
-
-        return new_dofs
+        return dofs
 
     def average_to_vertices(self, dofs):
         """
-- 
2.43.0


From 3d7e4ce74f4d99dd19c77490dca11ffc9b9f6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 040/215] fix: argument order of dw_st_adj_supg_c

---
 sfepy/terms/terms_adj_navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..fdfa765 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -133,7 +133,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
     function = staticmethod(terms.dw_st_adj_supg_c)
 
-    def get_fargs(self, mat, virtual, state, parameter,
+    def get_fargs(self, mat, virtual, parameter, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-- 
2.43.0


From 3d211f85bb1019edf999ee38407cf7a604e951f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 041/215] fix: shear strains in the strain along fibres

---
 sfepy/terms/terms_fibres.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e02b6c2..f23e5a0 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -2,7 +2,7 @@ import numpy as nm
 
 from sfepy.base.base import Struct
 from sfepy.terms.terms_hyperelastic_tl import HyperElasticTLBase
-from sfepy.mechanics.tensors import dim2sym
+from sfepy.mechanics.tensors import dim2sym, sym2dim
 from sfepy.homogenization.utils import iter_sym
 
 def create_omega(fdir):
@@ -22,8 +22,11 @@ def compute_fibre_strain(green_strain, omega):
     Compute the Green strain projected to the fibre direction.
     """
     eps = nm.zeros_like(omega[..., :1, :])
-    for ii in range(omega.shape[2]):
-        eps[..., 0, 0] += omega[..., ii, 0] * green_strain[..., ii, 0]
+    dim = sym2dim(omega.shape[2])
+    for ii, (ir, ic) in enumerate(iter_sym(dim)):
+        # The off-diagonal components are stored only once.
+        mul = 1.0 if ir == ic else 2.0
+        eps[..., 0, 0] += mul * omega[..., ii, 0] * green_strain[..., ii, 0]
 
     return eps
 
-- 
2.43.0


From b6ff77ab7cace4e707a558db7365c05426f4fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 042/215] fix: stress of the softplus exponential fibres

---
 sfepy/terms/terms_fibres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index f23e5a0..7244786 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -295,7 +295,8 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = fibre_data.tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
+        fibre_data.tau0 = tau0
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
-- 
2.43.0


From 9955b92d5431ffd7ab5ba386598272e1d7165b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 043/215] fix: material data and tangent modulus of
 dw_tl_he_svk

---
 sfepy/terms/terms_hyperelastic_tl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..d57d736 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -506,14 +506,13 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
         sym_e = fargs[0]
         mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
         dim = self.region.dim
+        mat = mat.copy()
         mat[:, :, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
         mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
-        dim = self.region.dim
-        mat[:, :, dim:, :] *= 2 # fix shear components
         out[:] = mat
         return out
 
-- 
2.43.0


From f66b81e61f7437c4da2882115ecfa8644b47f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 044/215] fix: volume changes in dw_tl_he_ogden

---
 sfepy/terms/terms_hyperelastic_tl.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index d57d736..167d3fd 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -354,7 +354,8 @@ class OgdenTLTerm(HyperElasticTLBase):
     geometries = ['3_4', '3_8']
 
     @staticmethod
-    def _get_single_stress(lbds, nks, det_f, coef, exp):
+    def _get_single_stress(total_lbds, nks, det_f, coef, exp):
+        lbds = det_f**(-1/3) * total_lbds
         a_p = sum(lbds**exp)
         s_k = [
             coef * det_f**(-2. / 3) *(
@@ -390,14 +391,14 @@ class OgdenTLTerm(HyperElasticTLBase):
     def _get_single_tan_mod(total_lbds, nks, det_f, coef, exp):
         lbds = det_f**(-1/3) * total_lbds
         _bracket = [
-            (det_f**(-1 / 3) * lbdi)**(exp - 2)
+            lbdi**(exp - 2)
             -sum([1. / 3 * lbdj**exp / lbdi**2 for lbdj in lbds])
             for lbdi in lbds]
         s_k = nm.array([
             coef * det_f**(-2 / 3) * _bracket_ii
             for lbdi, _bracket_ii in zip(lbds, _bracket)])
 
-        dj_dlbd = [det_f / lbdj for lbdj in lbds]
+        dj_dlbd = [det_f / lbdj for lbdj in total_lbds]
 
         dlbd_dlbd = det_f**(-1/3) * nm.array([[
             nm.eye(3)[ii, jj] - lbds[ii] / lbds[jj] / 3
@@ -423,19 +424,19 @@ class OgdenTLTerm(HyperElasticTLBase):
         for mm, nn, pp, qq in zip(*[ind.flatten()
                                     for ind in nm.indices(tan_mod.shape)]):
             for ii, jj in zip(*[ind.flatten() for ind in nm.indices((3, 3))]):
-                tan_mod[mm, nn, pp, qq] += 1. / lbds[jj] * dsk_dlbd[ii, jj] * (
+                tan_mod[mm, nn, pp, qq] += 1. / total_lbds[jj] * dsk_dlbd[ii, jj] * (
                     nks[ii, mm] * nks[ii, nn] * nks[jj, pp] * nks[jj, qq])
                 if ii != jj:
-                    if lbds[ii] != lbds[jj]:
+                    if total_lbds[ii] != total_lbds[jj]:
                         tan_mod[mm, nn, pp, qq] += (s_k[jj] - s_k[ii]) / \
-                            (lbds[jj]**2 - lbds[ii]**2) * (
+                            (total_lbds[jj]**2 - total_lbds[ii]**2) * (
                                 nks[ii, mm] * nks[jj, nn] * nks[ii, pp]
                                 *nks[jj, qq]
                                 +nks[ii, mm] * nks[jj, nn] * nks[jj, pp]
                                 *nks[ii, qq])
                     else:
                         _val = 0.5 * (
-                            dsk_dlbd[ii, ii] - dsk_dlbd[jj, ii]) / lbds[ii]
+                            dsk_dlbd[ii, ii] - dsk_dlbd[jj, ii]) / total_lbds[ii]
                         tan_mod[mm, nn, pp, qq] += _val * (
                                 nks[ii, mm] * nks[jj, nn] * nks[ii, pp]
                                 *nks[jj, qq]
-- 
2.43.0


From b52540314746de18490de817373d6e6522622a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 045/215] fix: order of element DOFs in dw_vm_dot_s

---
 sfepy/terms/extmods/terms_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..4e3474b 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -73,15 +73,15 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
       pout = FMF_PtrLevel(out, iqp);
-      for (ii = 0; ii < nEP; ii++) {
-        pA = FMF_PtrLevel(A, iqp);
-        for (ir = 0; ir < dim; ir++) {
+      pA = FMF_PtrLevel(A, iqp);
+      for (ir = 0; ir < dim; ir++) {
+        for (ii = 0; ii < nEP; ii++) {
           for (ic = 0; ic < A->nCol; ic++) {
             pout[ic] = pbf[ii] * pA[ic];
           }
           pout += out->nCol;
-          pA += A->nCol;
         }
+        pA += A->nCol;
       }
     } // for (iqp)
   } // for (iel)
-- 
2.43.0


From 69694f6203e2bcad91417097ff32514a87fc337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 046/215] fix: tangent matrices of hyperelastic terms used
 stress of the last residual

---
 sfepy/terms/terms_hyperelastic_base.py | 10 +---------
 sfepy/terms/terms_hyperelastic_tl.py   |  5 +----
 sfepy/terms/terms_hyperelastic_ul.py   |  5 +----
 3 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 0705b98..6fd2ee4 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -153,11 +153,6 @@ class HyperElasticBase(Term):
     def function(out, fun, *args):
         return fun(out, *args)
 
-    def __init__(self, *args, **kwargs):
-        Term.__init__(self, *args, **kwargs)
-
-        self.stress_cache = None
-
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
 
@@ -195,15 +190,12 @@ class HyperElasticBase(Term):
         if mode == 'weak':
             if diff_var is None:
                 stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
-                    stress = self.compute_stress(mat, fd, **kwargs)
+                stress = self.compute_stress(mat, fd, **kwargs)
 
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
                 fmode = 1
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 167d3fd..7a1205b 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -646,15 +646,12 @@ class BulkPressureTLTerm(HyperElasticTLBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
+                    stress = self.compute_data(fd, 0, **kwargs)
 
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..5c9a5cd 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -153,15 +153,12 @@ class BulkPressureULTerm(HyperElasticULBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
+                    stress = self.compute_data(fd, 0, **kwargs)
 
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
-- 
2.43.0


From 80866acb844b8f18c1fd43f4bc3e6d2748f92096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 047/215] fix: fibre directions changing between evaluations

---
 sfepy/terms/terms_fibres.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 7244786..e5efd0c 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -104,9 +104,7 @@ class FibresActiveTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         fmax, eps_opt, s, fdir, act = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -189,9 +187,7 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -289,9 +285,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         alpha, sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = compute_fibre_strain(green_strain, omega)
 
-- 
2.43.0


From 0114e0146b4ff2470c85d020321db551af129c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 048/215] fix: symmetric and vector gradients of multi-linear
 terms in 1D

---
 sfepy/terms/terms_multilinear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..367c77c 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -303,6 +303,9 @@ class ExpressionBuilder(Struct):
                 psg[0, [0,1], [0,2]] = 1
                 psg[1, [0,1], [2,1]] = 1
 
+            else:
+                psg[:] = 1
+
             self.cache[key] = psg
 
         return psg
@@ -321,6 +324,9 @@ class ExpressionBuilder(Struct):
                 pvg[0, [0, 1], [0, 1]] = 1
                 pvg[1, [0, 1], [2, 3]] = 1
 
+            else:
+                pvg[:] = 1
+
             self.cache[key] = pvg
 
         return pvg
-- 
2.43.0


From 5312b771efb02fa6eb37470b06fad9633a8d2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 049/215] fix: tangent modulus of dw_ul_he_mooney_rivlin

---
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..fae265c 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = -1.0 * pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 324be99573923fef73fd6fe2d6f43047da09ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 050/215] fix: evaluation of dw_v_dot_grad_s with matrix
 coefficients

---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..3e6716d 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -342,7 +342,7 @@ class VectorDotGradScalarTerm(Term):
             grad = self.get(svar, 'grad')
             val = self.get(vvar, 'val')
 
-            return coef, grad, val, vvg
+            return coef, val, grad, vvg
 
         else:
             raise ValueError('unsupported evaluation mode in %s! (%s)'
-- 
2.43.0


From 7c48b26916f4f626849243c039eb864c9fd90d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 051/215] fix: squares of symmetric tensors in 3D
 (dw_ul_he_mooney_rivlin)

---
 sfepy/discrete/common/extmods/geommech.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..723fad6 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,12 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[3]*pa[4] + pa[1]*pa[5] + pa[5]*pa[2];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
-- 
2.43.0


From bc44c3cfe83bd3435ce8ca9dcd2b39cd8ca023ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 052/215] fix: dw_piezo_coupling with different approximation
 orders of its fields

---
 sfepy/terms/extmods/terms.pyx     |  7 ++++---
 sfepy/terms/extmods/terms_piezo.c | 29 +++++++++++++++--------------
 sfepy/terms/extmods/terms_piezo.h |  2 +-
 sfepy/terms/terms_piezo.py        |  4 +++-
 4 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/sfepy/terms/extmods/terms.pyx b/sfepy/terms/extmods/terms.pyx
index fe913ab..af64201 100644
--- a/sfepy/terms/extmods/terms.pyx
+++ b/sfepy/terms/extmods/terms.pyx
@@ -383,7 +383,7 @@ cdef extern from 'terms.h':
     cdef int32 _dw_piezo_coupling \
          'dw_piezo_coupling'(FMField *out, FMField *strain,
                              FMField *charge_grad,
-                             FMField *mtxG, Mapping *vg,
+                             FMField *mtxG, Mapping *vgv, Mapping *vgs,
                              int32 mode)
 
     cdef int32 _d_piezo_coupling \
@@ -1799,7 +1799,8 @@ def dw_piezo_coupling(np.ndarray out not None,
                       np.ndarray strain not None,
                       np.ndarray charge_grad not None,
                       np.ndarray mtx_g not None,
-                      CMapping cmap not None,
+                      CMapping cmap_v not None,
+                      CMapping cmap_s not None,
                       int32 mode):
     cdef int32 ret
     cdef FMField[1] _out, _strain, _charge_grad, _mtx_g
@@ -1810,7 +1811,7 @@ def dw_piezo_coupling(np.ndarray out not None,
     array2fmfield4(_mtx_g, mtx_g)
 
     ret = _dw_piezo_coupling(_out, _strain, _charge_grad, _mtx_g,
-                             cmap.geo, mode)
+                             cmap_v.geo, cmap_s.geo, mode)
     return ret
 
 def d_piezo_coupling(np.ndarray out not None,
diff --git a/sfepy/terms/extmods/terms_piezo.c b/sfepy/terms/extmods/terms_piezo.c
index 78b1052..d000b80 100644
--- a/sfepy/terms/extmods/terms_piezo.c
+++ b/sfepy/terms/extmods/terms_piezo.c
@@ -5,15 +5,15 @@
 #undef __FUNC__
 #define __FUNC__ "dw_piezo_coupling"
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vgv, Mapping *vgs,
 			 int32 mode )
 {
   int32 ii, nEPU, nEPP, dim, sym, nQP, ret = RET_OK;
   FMField *gtgp = 0, *gtgtgp = 0, *ge = 0, *gctge = 0, *gg = 0, *gctgg = 0;
 
-  nQP = vg->bfGM->nLev;
-  dim = vg->bfGM->nRow;
-  nEPU = vg->bfGM->nCol;
+  nQP = vgv->bfGM->nLev;
+  dim = vgv->bfGM->nRow;
+  nEPU = vgv->bfGM->nCol;
   sym = (dim + 1) * dim / 2;
 
   if ((mode == 0) || (mode == 1)) {
@@ -36,30 +36,31 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
     FMF_SetCellX1( mtxG, ii );
-    FMF_SetCell( vg->bfGM, ii );
-    FMF_SetCell( vg->det, ii );
+    FMF_SetCell( vgv->bfGM, ii );
+    FMF_SetCell( vgs->bfGM, ii );
+    FMF_SetCell( vgv->det, ii );
 
     if (mode == 0) { // vector - grad
       FMF_SetCell( charge_grad, ii );
 
       fmf_mulATB_nn( gtgp, mtxG, charge_grad );
-      form_sdcc_actOpGT_VS3( gtgtgp, vg->bfGM, gtgp );
-      fmf_sumLevelsMulF( out, gtgtgp, vg->det->val );
+      form_sdcc_actOpGT_VS3( gtgtgp, vgv->bfGM, gtgp );
+      fmf_sumLevelsMulF( out, gtgtgp, vgv->det->val );
 
     } else if (mode == 2) { // vector - div
       FMF_SetCell( strain, ii );
 
       fmf_mulAB_nn( ge, mtxG, strain );
-      fmf_mulATB_nn( gctge, vg->bfGM, ge );
-      fmf_sumLevelsMulF( out, gctge, vg->det->val );
+      fmf_mulATB_nn( gctge, vgs->bfGM, ge );
+      fmf_sumLevelsMulF( out, gctge, vgv->det->val );
 
     } else { // matrix - div, grad
-      form_sdcc_actOpG_RM3( gg, mtxG, vg->bfGM );
-      fmf_mulATB_nn( gctgg, vg->bfGM, gg );
+      form_sdcc_actOpG_RM3( gg, mtxG, vgv->bfGM );
+      fmf_mulATB_nn( gctgg, vgs->bfGM, gg );
       if (mode == 1) { // matrix - grad
-	fmf_sumLevelsTMulF( out, gctgg, vg->det->val );
+	fmf_sumLevelsTMulF( out, gctgg, vgv->det->val );
       } else { // matrix - div
-	fmf_sumLevelsMulF( out, gctgg, vg->det->val );
+	fmf_sumLevelsMulF( out, gctgg, vgv->det->val );
       }
     }
     ERR_CheckGo( ret );
diff --git a/sfepy/terms/extmods/terms_piezo.h b/sfepy/terms/extmods/terms_piezo.h
index 8cc8596..00e95e2 100644
--- a/sfepy/terms/extmods/terms_piezo.h
+++ b/sfepy/terms/extmods/terms_piezo.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 #include "refmaps.h"
 
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vgv, Mapping *vgs,
 			 int32 mode );
 
 int32 d_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
diff --git a/sfepy/terms/terms_piezo.py b/sfepy/terms/terms_piezo.py
index 0adf5d8..d4296ad 100644
--- a/sfepy/terms/terms_piezo.py
+++ b/sfepy/terms/terms_piezo.py
@@ -45,6 +45,8 @@ class PiezoCouplingTerm(Term):
         vvg, _ = self.get_mapping(vvar)
 
         if mode == 'weak':
+            svg, _ = self.get_mapping(svar)
+
             aux = nm.array([0], ndmin=4, dtype=nm.float64)
             if diff_var is None:
                 # grad or strain according to mode.
@@ -62,7 +64,7 @@ class PiezoCouplingTerm(Term):
                 strain, grad = val_qp, aux
                 fmode += 2
 
-            return strain, grad, mat, vvg, fmode
+            return strain, grad, mat, vvg, svg, fmode
 
         elif mode == 'eval':
             strain = self.get(vvar, 'cauchy_strain')
-- 
2.43.0


From 66fcfae80beb4d1621ba3f4b188e552093d2762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 053/215] fix: dw_tl_diffusion with different approximation
 orders of its fields

---
 sfepy/terms/terms_hyperelastic_tl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 7a1205b..071e918 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -792,7 +792,7 @@ class DiffusionTLTerm(HyperElasticTLBase):
 
     def get_fargs(self, perm, ref_porosity, virtual, state, parameter,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
-        vgv, _ = self.get_mapping(parameter)
+        vgs, _ = self.get_mapping(state)
 
         name = parameter.name
         fd = self.get_family_data(parameter, self.region, self.integral,
@@ -820,7 +820,7 @@ class DiffusionTLTerm(HyperElasticTLBase):
             raise ValueError('unsupported evaluation mode in %s! (%s)'
                              % (self.name, mode))
 
-        return grad, perm, ref_porosity, fd.mtx_f, fd.det_f, vgv, fmode
+        return grad, perm, ref_porosity, fd.mtx_f, fd.det_f, vgs, fmode
 
     def get_eval_shape(self, perm, ref_porosity, virtual, state, parameter,
                        mode=None, term_mode=None, diff_var=None, **kwargs):
-- 
2.43.0


From 30a8fc711c10aa9c8856c58f9791f572d82d6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 054/215] fix: tangent matrix of dw_lin_spring

---
 sfepy/terms/terms_elastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4640aeb..f6e6f8a 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -890,7 +890,8 @@ class LinearSpringTerm(Term):
             eye.shape = (1, 1) + eye.shape
             out[...] = - stiffness * eye
             for k in nm.arange(dim) * 2:
-                out[..., k, k + 1] = out[..., k + 1, k] = 1
+                out[..., k, k + 1] = stiffness[..., 0, 0]
+                out[..., k + 1, k] = stiffness[..., 0, 0]
 
         return 0
 
-- 
2.43.0


From daa0b94424c90f7a1437d1e4d3176c97054d158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 055/215] fix: tangent matrix of rotational springs with full
 stiffness matrices

---
 sfepy/terms/terms_elastic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index f6e6f8a..44b2c91 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -1155,6 +1155,12 @@ class LinearDSpringTerm(LinearTrussTerm):
         else:
             out[...] = ke[:, None, ...]
             membranes.transform_asm_matrices(out[..., :ntr, :ntr], mtx_t)
+            # Coupling of displacements and rotations.
+            for iep in range(2):
+                ir = slice(iep, ntr, 2)
+                out[:, 0, ir, ntr:] = nm.matmul(mtx_t, out[:, 0, ir, ntr:])
+                out[:, 0, ntr:, ir] = nm.matmul(out[:, 0, ntr:, ir],
+                                                mtx_t.transpose((0, 2, 1)))
 
         return 0
 
-- 
2.43.0


From cffb2bdc626781173b053f14e8d1401e2e4e6935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 056/215] fix: dw_st_adj2_supg_p with a parameter of a
 different approximation order

---
 sfepy/terms/terms_adj_navier_stokes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index fdfa765..4837b63 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -206,14 +206,14 @@ class SUPGPAdj2StabilizationTerm(Term):
     def get_fargs(self, mat, virtual, parameter, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg_r, _ = self.get_mapping(state)
-        vg_u, _ = self.get_mapping(parameter)
+        vg_v, _ = self.get_mapping(virtual)
 
         grad_u = self.get(parameter, 'grad').transpose((0, 1, 3, 2)).copy()
         conn_r = state.field.get_econn(self.act_integration, self.region)
 
         fmode = diff_var is not None
 
-        return grad_u, state(), mat, vg_u, vg_r, conn_r, fmode
+        return grad_u, state(), mat, vg_v, vg_r, conn_r, fmode
 
 class SDDotTerm(Term):
     r"""
-- 
2.43.0


From 1d18a6218be6d7f76d874be3cf9dc9cb2783712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 057/215] fix: multi-linear terms evaluated in several modes

---
 sfepy/terms/terms_multilinear.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 367c77c..ba0355f 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -835,13 +835,17 @@ class ETermBase(Term):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.mode != mode):
+            # The expressions depend on the evaluation mode.
+            einfo = self.einfos[diff_var] = Struct(
+                mode=mode,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
-- 
2.43.0


From d2aa9bcc2ca9defff5a19f9757375c841e957097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 058/215] fix: de_sd_lin_elastic, de_sd_diffusion with
 nonsymmetric materials

---
 sfepy/terms/terms_sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_sensitivity.py b/sfepy/terms/terms_sensitivity.py
index f2d25e5..57a0a43 100644
--- a/sfepy/terms/terms_sensitivity.py
+++ b/sfepy/terms/terms_sensitivity.py
@@ -61,8 +61,8 @@ class ESDLinearElasticTerm(ETermBase):
 
         dim = grad_mv.shape[-1]
         mat_ns = mat if mat.shape[-1] == dim**2 else sym2nonsym(mat, [2, 3])
-        aux = dot_sequences(mat_ns, grad_op, mode='AB')
-        mat_sd = mat_ns * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat_ns * div_mv - dot_sequences(mat_ns, grad_op, mode='AB')\
+               - dot_sequences(grad_op, mat_ns, mode='ATB')
 
         fun = self.make_function(
             'IK,v(i.j)->I,v(k.l)->K', (mat_sd, 'material'), vvar, svar,
@@ -164,8 +164,8 @@ class ESDDiffusionTerm(ETermBase):
         grad_mv = self.get(par_mv, 'grad')
         div_mv = nm.trace(grad_mv, axis1=2, axis2=3)[..., None, None]
 
-        aux = dot_sequences(mat, grad_mv, mode='AB')
-        mat_sd = mat * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat * div_mv - dot_sequences(mat, grad_mv, mode='AB')\
+               - dot_sequences(grad_mv, mat, mode='ATB')
 
         fun = self.make_function(
             'ij,0.i,0.j', (mat_sd, 'material'), vvar, svar,
-- 
2.43.0


From b8ce119a3ed48a3d526e9a13220b3eab065553df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 059/215] fix: tangent matrices of terms with complex states

---
 sfepy/terms/terms_adj_navier_stokes.py | 19 ++++++++++++++++---
 sfepy/terms/terms_constraints.py       |  3 +++
 sfepy/terms/terms_navier_stokes.py     |  8 ++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 4837b63..104693e 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -75,6 +75,8 @@ class AdjConvect1Term(Term):
         grad_u = self.get(parameter, 'grad') # No transposition here!
 
         fmode = diff_var is not None
+        if fmode: # The values are not used.
+            val_w = nm.zeros_like(val_w, dtype=nm.float64)
 
         return val_w, grad_u, vg, fmode
 
@@ -106,6 +108,8 @@ class AdjConvect2Term(Term):
         val_u = self.get(parameter, 'val')
 
         fmode = diff_var is not None
+        if fmode: # The values are not used.
+            val_w = nm.zeros_like(val_w, dtype=nm.float64)
 
         return val_w, val_u, vg, fmode
 
@@ -142,8 +146,11 @@ class SUPGCAdjStabilizationTerm(Term):
         conn = state.field.get_econn(self.act_integration, self.region)
 
         fmode = diff_var is not None
+        vec = state()
+        if fmode: # The values are not used.
+            vec = nm.zeros_like(vec, dtype=nm.float64)
 
-        return state(), val_u, grad_u, mat, vg, conn, fmode
+        return vec, val_u, grad_u, mat, vg, conn, fmode
 
 class SUPGPAdj1StabilizationTerm(Term):
     r"""
@@ -176,8 +183,11 @@ class SUPGPAdj1StabilizationTerm(Term):
         conn_w = state.field.get_econn(self.act_integration, self.region)
 
         fmode = diff_var is not None
+        vec = state()
+        if fmode: # The values are not used.
+            vec = nm.zeros_like(vec, dtype=nm.float64)
 
-        return state(), grad_p, mat, vg_w, conn_w, fmode
+        return vec, grad_p, mat, vg_w, conn_w, fmode
 
 class SUPGPAdj2StabilizationTerm(Term):
     r"""
@@ -212,8 +222,11 @@ class SUPGPAdj2StabilizationTerm(Term):
         conn_r = state.field.get_econn(self.act_integration, self.region)
 
         fmode = diff_var is not None
+        vec = state()
+        if fmode: # The values are not used.
+            vec = nm.zeros_like(vec, dtype=nm.float64)
 
-        return grad_u, state(), mat, vg_v, vg_r, conn_r, fmode
+        return grad_u, vec, mat, vg_v, vg_r, conn_r, fmode
 
 class SDDotTerm(Term):
     r"""
diff --git a/sfepy/terms/terms_constraints.py b/sfepy/terms/terms_constraints.py
index 80770f9..bf5e18a 100644
--- a/sfepy/terms/terms_constraints.py
+++ b/sfepy/terms/terms_constraints.py
@@ -96,6 +96,9 @@ class NonPenetrationTerm(Term):
 
         ebf = expand_basis(vsg.bf, dim)
 
+        if diff_var is not None: # The values are not used.
+            val_qp = nm.zeros_like(val_qp, dtype=nm.float64)
+
         return val_qp, ebf, ssg.bf, mat, vsg, diff_var, self.mode
 
 class NonPenetrationPenaltyTerm(Term):
diff --git a/sfepy/terms/terms_navier_stokes.py b/sfepy/terms/terms_navier_stokes.py
index 1e47dc7..15456c1 100644
--- a/sfepy/terms/terms_navier_stokes.py
+++ b/sfepy/terms/terms_navier_stokes.py
@@ -678,12 +678,14 @@ class PSPGCStabilizationTerm(Term):
         conn = state.field.get_econn(self.act_integration, self.region)
 
         if diff_var is None:
+            vec = state()
             fmode = 0
 
         else:
+            vec = nm.zeros_like(state(), dtype=nm.float64)
             fmode = 1
 
-        return val_qp, state(), tau, svg, vvg, conn, fmode
+        return val_qp, vec, tau, svg, vvg, conn, fmode
 
 class SUPGPStabilizationTerm(Term):
     r"""
@@ -758,9 +760,11 @@ class SUPGCStabilizationTerm(Term):
         conn = virtual.field.get_econn(self.act_integration, self.region)
 
         if diff_var is None:
+            vec = state()
             fmode = 0
 
         else:
+            vec = nm.zeros_like(state(), dtype=nm.float64)
             fmode = 1
 
-        return val_qp, state(), delta, vg, conn, fmode
+        return val_qp, vec, delta, vg, conn, fmode
-- 
2.43.0


From 0aa677977e9c58d688e00299fd56466ca8e0b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 060/215] fix: electric source term with coefficients varying
 in cells

---
 sfepy/terms/extmods/terms_electric.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_electric.c b/sfepy/terms/extmods/terms_electric.c
index 36b7c7d..b7d5498 100644
--- a/sfepy/terms/extmods/terms_electric.c
+++ b/sfepy/terms/extmods/terms_electric.c
@@ -26,8 +26,8 @@ int32 dw_electric_source( FMField *out, FMField *grad, FMField *coef,
 
     fmf_mulATB_nn( gp2, grad, grad );
     fmf_mulATB_nn( bftgp2, vg->bf, gp2 );
+    fmf_mulAF( bftgp2, bftgp2, coef->val );
     fmf_sumLevelsMulF( out, bftgp2, vg->det->val );
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From 95618b2886014203ba34f6330b61fd2793238b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 061/215] fix: dw_convect_v_grad_s in cells of different sizes

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..dea05e6 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -654,6 +654,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
     FMF_SetCellX1( svg->bf, ii );
+    FMF_SetCell( vvg->det, ii );
 
     if (isDiff == 0) {
       FMF_SetCell( val_v, ii );
-- 
2.43.0


From c7d9b4cae12696e4ad3b060e7fc689ed1911b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 062/215] fix: shear components in dw_lin_strain_fib

---
 sfepy/terms/terms_elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 44b2c91..4e25772 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -378,6 +378,8 @@ class LinearStrainFiberTerm(Term):
         omega = nm.empty(mat1.shape[:3] + (1,), dtype=nm.float64)
         for ii, (ir, ic) in enumerate(iter_sym(mat2.shape[2])):
             omega[..., ii, 0] = mat2[..., ir, 0] * mat2[..., ic, 0]
+            if ir != ic: # Both d_k d_l and d_l d_k.
+                omega[..., ii, 0] *= 2.0
 
         return mat1, omega, vg
 
-- 
2.43.0


From d2c85e24786d40f1f1ff3b38eb5192f7b7cd092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 063/215] fix: layouts and loops of multi-linear terms

---
 sfepy/terms/terms_multilinear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index ba0355f..9908dc0 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -168,7 +168,9 @@ def get_slice_ops(subs, ops, loop_index):
         for ii, icol in enumerate(ics):
             op = ops[ii]
             if icol is not None:
-                slices = tuple(slice(None, None) if isub != icol else ic
+                # Axes of length one are broadcast.
+                iop = ic if op.shape[icol] > 1 else 0
+                slices = tuple(slice(None, None) if isub != icol else iop
                                for isub in range(op.ndim))
                 sops.append(op[slices])
 
@@ -592,7 +594,7 @@ class ExpressionBuilder(Struct):
                 elif val_name in ('bf', 'dofs'):
                     default = defaults[val_name][op.ndim - 2]
 
-                elif val_name in ('I', 'Psg', 'Pvg'):
+                elif val_name in ('I', 'Psg', 'Pvg', 'ivol'):
                     default = layout.replace('0', '') # -> Do nothing.
 
                 else:
-- 
2.43.0


From ca7d05e36f28aee962a4f698dc3359c6999a9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 064/215] fix: dw_surface_ltr evaluation with full traction
 tensors

---
 sfepy/terms/terms_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_surface.py b/sfepy/terms/terms_surface.py
index 1135a14..19dad54 100644
--- a/sfepy/terms/terms_surface.py
+++ b/sfepy/terms/terms_surface.py
@@ -58,7 +58,7 @@ class LinearTractionTerm(Term):
             aux = dot_sequences(val, traction, 'ATB')
 
         elif tdim == dim and tdim2 == dim: # Traction tensor - nonsymmetric
-            trn = dot_sequences(traction, sg.normal, 'ATB')
+            trn = dot_sequences(traction, sg.normal, 'AB')
             aux = dot_sequences(val, trn, 'ATB')
 
         elif tdim == sym: # Traction tensor
-- 
2.43.0


From a1cd3e791b0acfb59a690de667aec8db31c874e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 065/215] fix: dw_st_adj_supg_c

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 88e2813..d7aaf2b 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -214,7 +214,7 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
     // u grad.
     convect_build_vtg( fUTg, vg->bfGM, stateU );
     // (grad u, u^T grad).
-    fmf_mulAB_nn( gUfUTg, gradU, fUTg );
+    fmf_mulATB_nn( gUfUTg, gradU, fUTg );
     // (v grad u, u grad).
     bf_actt( fTgUfUTg, vg->bf, gUfUTg );
 
-- 
2.43.0


From 6e0be8593d4e51ea0a0933c4bdb74370efd2f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 066/215] fix: stale operands of multi-linear terms with
 layouts

---
 sfepy/terms/terms_multilinear.py | 35 ++++++++++++--------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 9908dc0..c5391b1 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -252,18 +252,13 @@ class ExpressionArg(Struct):
         else:
             bf = ag.bf
 
-        key = 'bf{}'.format(id(bf))
-        _bf  = expr_cache.get(key)
-
-        if cell_dependent:
-            if _bf is None:
-                _bf = bf[:, :, 0]
-                expr_cache[key] = _bf
-
-        else:
-            if _bf is None:
-                _bf = bf[0, :, 0]
-                expr_cache[key] = _bf
+        # An id is unique only during object lifetime -> store and compare the
+        # original array.
+        key = 'bf.{}.{}'.format(self.name, cell_dependent)
+        old_bf, _bf = expr_cache.get(key, (None, None))
+        if old_bf is not bf:
+            _bf = bf[:, :, 0] if cell_dependent else bf[0, :, 0]
+            expr_cache[key] = (bf, _bf)
 
         return _bf
 
@@ -620,17 +615,13 @@ class ExpressionBuilder(Struct):
 
                 else:
                     new_subs = ''.join([subs[ii] for ii in inew])
-                    if val_name == 'dofs':
-                        key = (oname,) + tuple(inew)
-
-                    else:
-                        # id is unique only during object lifetime!
-                        key = (id(op),) + tuple(inew)
-
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    # An id is unique only during object lifetime -> store and
+                    # compare the original operands.
+                    key = (oname, ia, io) + tuple(inew)
+                    old_op, new_op = self.cache.get(key, (None, None))
+                    if old_op is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
-- 
2.43.0


From 0e4422c527c6e3ffb053f76da825eb16f15fd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 067/215] fix: multi-linear terms without materials in
 quadrature points

---
 sfepy/terms/terms_multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index c5391b1..e54dad6 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -523,7 +523,7 @@ class ExpressionBuilder(Struct):
 
         for ia, subscripts in enumerate(self.subscripts):
             ifree = [ii for ii in find_free_indices(subscripts)
-                     if ii not in self.out_subscripts[ia]]
+                     if (ii not in self.out_subscripts[ia]) and (ii != 'q')]
             if ifree:
                 # Lexicographic ordering of output indices, i.e.
                 # (n_comp, dim) or (dim, n_comp) <=> i.j or j.i
-- 
2.43.0


From d1b74fa00b4201cf7676ddf25d3e35456ac89aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 068/215] fix: matrix graphs in chunks of single cells

---
 sfepy/discrete/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..f18c863 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -114,7 +114,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
         # N - k C >= 0.5 C, k = N // Cmax, compute C.
         n_cell = srdc.shape[0]
-        cs = int(n_cell / (n_cell // chunk_size + 0.5))
+        cs = max(1, int(n_cell / (n_cell // chunk_size + 0.5)))
         for ichunk, (_rdc, _cdc) in enumerate(chunk_arrays((srdc, scdc), cs)):
             if ichunk == 0:
                 block = create_dof_graph(_rdc, _cdc, shape, active_only)
-- 
2.43.0


From ec5fb5d731cf568dbe684138409d70e9a0841529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 069/215] fix: matrix graphs with shared DOFs or variables
 without active DOFs

---
 sfepy/discrete/equations.py | 38 +++++++++++++++++++++++++------------
 sfepy/terms/terms.py        |  3 ++-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index f18c863..c7a2557 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -65,6 +65,14 @@ def create_dof_graph(rdc, cdc, shape, active_only=False):
 
     return graph
 
+def get_dof_blocks(di):
+    """
+    Get the starts and stops of the distinct non-empty blocks of DOFs in the
+    given DOF info. The variables with shared DOFs are in a single block.
+    """
+    return sorted({(ii.start, ii.stop) for ii in di.indx.values()
+                   if ii.stop > ii.start})
+
 def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
                         chunk_size=200000):
     """
@@ -91,13 +99,14 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
     graph : boolean csr_array
         The matrix graph.
     """
-    blocks = []
-    roffs = [ii.start for ii in rdi.indx.values()]
-    coffs = [ii.start for ii in cdi.indx.values()]
-    nrs = [ii.stop - ii.start for ii in rdi.indx.values()]
-    ncs = [ii.stop - ii.start for ii in cdi.indx.values()]
-
-    nbr, nbc = max(irs) + 1, max(ics) + 1
+    rblocks = get_dof_blocks(rdi)
+    cblocks = get_dof_blocks(cdi)
+    roffs = [ib[0] for ib in rblocks]
+    coffs = [ib[0] for ib in cblocks]
+    nrs = [ib[1] - ib[0] for ib in rblocks]
+    ncs = [ib[1] - ib[0] for ib in cblocks]
+
+    nbr, nbc = len(rblocks), len(cblocks)
     blocks = [[0] * nbc for ir in range(nbr)]
     for ii, rdc in enumerate(rdcs):
         cdc = cdcs[ii]
@@ -130,7 +139,8 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
     for ir, ic in cycle((nbr, nbc)):
         if isinstance(blocks[ir][ic], int):
-            blocks[ir][ic] = None
+            # Empty blocks determine the shape.
+            blocks[ir][ic] = sp.coo_array((nrs[ir], ncs[ic]), dtype=bool)
 
     graph = sp.block_array(blocks, format='csr')
 
@@ -535,6 +545,10 @@ class Equations(Container):
 
             dc_key = (rkey, ckey)
 
+            rindx, cindx = rdi.indx[rname], cdi.indx[cname]
+            if (rindx.stop == rindx.start) or (cindx.stop == cindx.start):
+                continue # No active DOFs.
+
             if dc_key not in shared:
                 rdc = adcs[rkey]
                 cdc = adcs[ckey]
@@ -550,14 +564,14 @@ class Equations(Container):
                 rdcs.append(rdc)
                 cdcs.append(cdc)
 
-                irs.append(rdi.indx[rvar.get_primary_name()].start)
-                ics.append(cdi.indx[cvar.get_primary_name()].start)
+                irs.append(rindx.start)
+                ics.append(cindx.start)
 
                 shared.add(dc_key)
 
         # Replace offsets by their orders.
-        _, irs = nm.unique(irs, return_inverse=True)
-        _, ics = nm.unique(ics, return_inverse=True)
+        irs = nm.searchsorted([ib[0] for ib in get_dof_blocks(rdi)], irs)
+        ics = nm.searchsorted([ib[0] for ib in get_dof_blocks(cdi)], ics)
 
         return rdcs, cdcs, irs, ics
 
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 733c6f6..dfb4a79 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1664,7 +1664,8 @@ class Term(Struct):
                         aux = vvar._variables.adi.indx[vvar.get_primary_name()]
                         irs = slice(aux.start, aux.stop + 1)
 
-                    max_in_rows[vvar.name] = nm.diff(asm_obj.indptr[irs]).max()
+                    max_in_rows[vvar.name] = nm.diff(
+                        asm_obj.indptr[irs]).max(initial=0)
 
                 max_in_row = max_in_rows[vvar.name]
 
-- 
2.43.0


From bdb3cbd0f87697c84043348d6d067bb732d00221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 070/215] fix: arguments of equations changed by creating
 sub-equations

---
 sfepy/discrete/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index c7a2557..0ce4c25 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -231,6 +231,10 @@ class Equations(Container):
             terms = [term.copy(name=term.name)
                      for eq in self for term in eq.terms
                      if term.get_virtual_name() == var_name]
+            # Do not change the arguments of the original terms.
+            for term in terms:
+                term.args = list(term.args)
+                term._kwargs = dict(term._kwargs)
 
             # Make parameter variables from known state variables in terms
             # arguments.
-- 
2.43.0


From 666c17d5628e8156f72598a2194e15877c0fc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 071/215] fix: residuals and matrices by terms with repeated
 terms

---
 sfepy/discrete/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 0ce4c25..ba73b05 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -878,10 +878,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
@@ -974,10 +974,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
-- 
2.43.0


From 4765f692fbff30d7acc2d9f0fa4747a487fdd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 072/215] fix: term order passed to assembling callbacks

---
 sfepy/discrete/equations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index ba73b05..b812e49 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -1111,9 +1111,9 @@ class Equation(Struct):
             The evaluation result. In 'weak' mode it is the
             `asm_obj`.
         """
-        terms = self.terms
+        terms = list(enumerate(self.terms))
         if select_term is not None:
-            terms = [term for term in self.terms if select_term(term)]
+            terms = [(it, term) for it, term in terms if select_term(term)]
 
         if assemble is None:
             assemble = (lambda name, it, term, *args, **kwargs:
@@ -1121,7 +1121,7 @@ class Equation(Struct):
 
         if mode in ('eval', 'el_eval', 'el_avg', 'qp'):
             val = 0.0
-            for term in terms:
+            for _, term in terms:
                 aux, status = term.evaluate(mode=mode,
                                             term_mode=term_mode,
                                             standalone=False,
@@ -1134,7 +1134,7 @@ class Equation(Struct):
 
             if dw_mode == 'vector':
 
-                for it, term in enumerate(terms):
+                for it, term in terms:
                     val, iels, status = term.evaluate(mode=mode,
                                                       term_mode=term_mode,
                                                       standalone=False,
@@ -1146,7 +1146,7 @@ class Equation(Struct):
             elif dw_mode == 'matrix':
 
                 extras = []
-                for it, term in enumerate(terms):
+                for it, term in terms:
                     svars = term.get_state_variables(unknown_only=True)
 
                     for svar in svars:
@@ -1166,7 +1166,7 @@ class Equation(Struct):
                 if diff_vars is None: diff_vars = ()
 
                 for ic, diff_var in enumerate(diff_vars):
-                    for it, term in enumerate(terms):
+                    for it, term in terms:
                         if not (term.diff_info and
                                 (diff_var in term.get_material_names(part=1))):
                             continue
-- 
2.43.0


From 6faeb4314aa95632bae786e1f88e801c58bcaf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 073/215] fix: terms with virtual and state variables in
 different bases

---
 sfepy/terms/terms.py                   | 25 +++++++++++++++++++++++++
 sfepy/terms/terms_adj_navier_stokes.py |  4 ++++
 sfepy/terms/terms_diffusion.py         |  4 ++++
 sfepy/terms/terms_dot.py               |  1 +
 sfepy/terms/terms_elastic.py           |  3 +++
 sfepy/terms/terms_hyperelastic_base.py |  1 +
 sfepy/terms/terms_navier_stokes.py     |  7 +++++++
 sfepy/terms/terms_volume.py            |  1 +
 8 files changed, 46 insertions(+)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index dfb4a79..84e59de 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -319,6 +319,9 @@ class Term(Struct):
     arg_geometry_types = {}
     arg_shapes = {}
     diff_info = {}
+    # True, if the virtual variable has to have the same basis as the state
+    # variable given in its arg_shapes.
+    same_basis = False
     integration = 'cell'
     integration_order = None # None = any
     geometries = ['1_2', '2_3', '2_4', '3_4', '3_8']
@@ -718,6 +721,28 @@ class Term(Struct):
                         self.region.vertices, field.region.vertices)
                 raise ValueError(msg)
 
+        if self.same_basis and self.n_virtual:
+            self._check_same_basis()
+
+    def _check_same_basis(self):
+        arg_shapes = self.arg_shapes
+        if not isinstance(arg_shapes, dict):
+            arg_shapes = arg_shapes[0]
+
+        shape = arg_shapes['virtual']
+        if not (isinstance(shape, tuple) and (shape[1] in self.ats)):
+            return
+
+        vvar = self.get_virtual_variable()
+        svar = self.args[self.ats.index(shape[1])]
+        fields = [vvar.get_field(), svar.get_field()]
+        bases = [(field.family_name, field.get('poly_space_basis'),
+                  field.get('approx_order')) for field in fields]
+        if (fields[0] is not fields[1]) and (bases[0] != bases[1]):
+            msg = "%s: variables '%s' and '%s' have to have the same basis!" %\
+                (self.name, vvar.name, svar.name)
+            raise ValueError(msg)
+
     def get_variable_names(self):
         return self.names.variable
 
diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 104693e..832c1ca 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -62,6 +62,7 @@ class AdjConvect1Term(Term):
         - parameter : :math:`\ul{u}`
     """
     name = 'dw_adj_convect1'
+    same_basis = True
     arg_types = ('virtual', 'state', 'parameter' )
     arg_shapes = {'virtual' : ('D', 'state'), 'state' : 'D', 'parameter' : 'D'}
 
@@ -95,6 +96,7 @@ class AdjConvect2Term(Term):
         - parameter : :math:`\ul{u}`
     """
     name = 'dw_adj_convect2'
+    same_basis = True
     arg_types = ('virtual', 'state', 'parameter' )
     arg_shapes = {'virtual' : ('D', 'state'), 'state' : 'D', 'parameter' : 'D'}
 
@@ -131,6 +133,7 @@ class SUPGCAdjStabilizationTerm(Term):
         - parameter : :math:`\ul{u}`
     """
     name = 'dw_st_adj_supg_c'
+    same_basis = True
     arg_types = ('material', 'virtual', 'parameter', 'state')
     arg_shapes = {'material' : '1, 1', 'virtual' : ('D', 'state'),
                   'state' : 'D', 'parameter' : 'D'}
@@ -169,6 +172,7 @@ class SUPGPAdj1StabilizationTerm(Term):
         - parameter : :math:`p`
     """
     name = 'dw_st_adj1_supg_p'
+    same_basis = True
     arg_types = ('material', 'virtual', 'state', 'parameter')
     arg_shapes = {'material' : '1, 1', 'virtual' : ('D', 'state'),
                   'state' : 'D', 'parameter' : 1}
diff --git a/sfepy/terms/terms_diffusion.py b/sfepy/terms/terms_diffusion.py
index 071509b..401d973 100644
--- a/sfepy/terms/terms_diffusion.py
+++ b/sfepy/terms/terms_diffusion.py
@@ -21,6 +21,7 @@ class DiffusionTerm(Term):
         - state/parameter_2: :math:`p`
     """
     name = 'dw_diffusion'
+    same_basis = True
     arg_types = (('material', 'virtual', 'state'),
                  ('material', 'parameter_1', 'parameter_2'))
     arg_shapes = {'material' : 'D, D', 'virtual' : (1, 'state'),
@@ -135,6 +136,7 @@ class LaplaceTerm(DiffusionTerm):
         - state/parameter_2: :math:`p`
     """
     name = 'dw_laplace'
+    same_basis = True
     arg_types = (('opt_material', 'virtual', 'state'),
                  ('opt_material', 'parameter_1', 'parameter_2'))
     arg_shapes = [{'opt_material' : '1, 1', 'virtual' : (1, 'state'),
@@ -434,6 +436,7 @@ class ConvectVGradSTerm(Term):
         - state_s  : :math:`p`
     """
     name = 'dw_convect_v_grad_s'
+    same_basis = True
     arg_types = ('virtual', 'state_v', 'state_s')
     arg_shapes = [{'virtual' : (1, 'state_s'), 'state_v' : 'D', 'state_s' : 1}]
     function = staticmethod(terms.dw_convect_v_grad_s)
@@ -505,6 +508,7 @@ class NonlinearDiffusionTerm(Term):
         - state : :math:`p`
     """
     name = 'dw_nl_diffusion'
+    same_basis = True
     arg_types = ('fun', 'dfun', 'virtual', 'state')
     arg_shapes = {'fun'     : lambda x: x,
                   'dfun'    : lambda x: x,
diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 3e6716d..fd78b12 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -498,6 +498,7 @@ class ScalarDotGradIScalarTerm(Term):
         - state    : :math:`p`
     """
     name = 'dw_s_dot_grad_i_s'
+    same_basis = True
     arg_types = ('material', 'virtual', 'state')
     arg_shapes = {'material' : '.: 1, 1', 'virtual' : (1, 'state'), 'state' : 1}
 
diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4e25772..8bbe6cc 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -44,6 +44,7 @@ class LinearElasticTerm(Term):
         - parameter_2 : :math:`\ul{u}`
     """
     name = 'dw_lin_elastic'
+    same_basis = True
     arg_types = (('material', 'virtual', 'state'),
                  ('material', 'parameter_1', 'parameter_2'))
     arg_shapes = {'material' : 'S, S', 'virtual' : ('D', 'state'),
@@ -108,6 +109,7 @@ class LinearElasticIsotropicTerm(LinearElasticTerm):
         - state/parameter_2: :math:`\ul{u}`
     """
     name = 'dw_lin_elastic_iso'
+    same_basis = True
     arg_types = (('material_1', 'material_2', 'virtual', 'state'),
                  ('material_1', 'material_2', 'parameter_1', 'parameter_2'))
     arg_shapes = {'material_1' : '1, 1', 'material_2' : '1, 1',
@@ -615,6 +617,7 @@ class NonsymElasticTerm(Term):
         - parameter_2 : :math:`\ul{u}`
     """
     name = 'dw_nonsym_elastic'
+    same_basis = True
     arg_types = (('material', 'virtual', 'state'),
                  ('material', 'parameter_1', 'parameter_2'))
     arg_shapes = {'material' : 'D2, D2', 'virtual' : ('D', 'state'),
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 6fd2ee4..4ffed88 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -133,6 +133,7 @@ class HyperElasticBase(Term):
     -----
     This is not a proper Term!
     """
+    same_basis = True
     arg_types = ('material', 'virtual', 'state')
     arg_shapes = {'material' : '1, 1', 'virtual' : ('D', 'state'),
                   'state' : 'D'}
diff --git a/sfepy/terms/terms_navier_stokes.py b/sfepy/terms/terms_navier_stokes.py
index 15456c1..00d7564 100644
--- a/sfepy/terms/terms_navier_stokes.py
+++ b/sfepy/terms/terms_navier_stokes.py
@@ -19,6 +19,7 @@ class DivGradTerm(Term):
         - state/parameter_2: :math:`\ul{u}`
     """
     name = 'dw_div_grad'
+    same_basis = True
     arg_types = (('opt_material', 'virtual', 'state'),
                  ('opt_material', 'parameter_1', 'parameter_2'))
     arg_shapes = [{'opt_material' : '1, 1', 'virtual' : ('D', 'state'),
@@ -104,6 +105,7 @@ class ConvectTerm(Term):
         - state   : :math:`\ul{u}`
     """
     name = 'dw_convect'
+    same_basis = True
     arg_types = ('virtual', 'state')
     arg_shapes = {'virtual' : ('D', 'state'), 'state' : 'D'}
 
@@ -138,6 +140,7 @@ class LinearConvectTerm(Term):
         - state     : :math:`\ul{u}`
     """
     name = 'dw_lin_convect'
+    same_basis = True
     arg_types = ('virtual', 'parameter', 'state')
     arg_shapes = {'virtual' : ('D', 'state'), 'parameter' : 'D', 'state' : 'D'}
 
@@ -189,6 +192,7 @@ class LinearConvect2Term(Term):
         - state    : :math:`\ul{u}`
     """
     name = 'dw_lin_convect2'
+    same_basis = True
     arg_types = ('material', 'virtual', 'state')
     arg_shapes = {'material' : 'D, 1',
                   'virtual' : ('D', 'state'), 'state' : 'D'}
@@ -607,6 +611,7 @@ class GradDivStabilizationTerm(Term):
         - state    : :math:`\ul{u}`
     """
     name = 'dw_st_grad_div'
+    same_basis = True
     arg_types = ('material', 'virtual', 'state')
     arg_shapes = {'material' : '1, 1', 'virtual' : ('D', 'state'),
                   'state' : 'D'}
@@ -644,6 +649,7 @@ class PSPGPStabilizationTerm(LaplaceTerm):
         - state    : :math:`p`
     """
     name = 'dw_st_pspg_p'
+    same_basis = True
 
 class PSPGCStabilizationTerm(Term):
     r"""
@@ -746,6 +752,7 @@ class SUPGCStabilizationTerm(Term):
         - state     : :math:`\ul{u}`
     """
     name = 'dw_st_supg_c'
+    same_basis = True
     arg_types = ('material', 'virtual', 'parameter', 'state')
     arg_shapes = {'material' : '1, 1', 'virtual' : ('D', 'state'),
                   'parameter' : 'D', 'state' : 'D'}
diff --git a/sfepy/terms/terms_volume.py b/sfepy/terms/terms_volume.py
index 001b37b..1595d68 100644
--- a/sfepy/terms/terms_volume.py
+++ b/sfepy/terms/terms_volume.py
@@ -47,6 +47,7 @@ class NonlinearVolumeForceTerm(Term):
 
     """
     name = 'dw_volume_nvf'
+    same_basis = True
     arg_types = ('fun', 'dfun', 'virtual', 'state')
     arg_shapes = {'fun'     : lambda x: x,
                   'dfun'    : lambda x: x,
-- 
2.43.0


From b1d2080ebfa0a409c9b44aedda249f720204e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 074/215] fix: cached matches of periodic nodes with different
 coordinates

---
 sfepy/discrete/fem/periodic.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..720bb39 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -1,3 +1,5 @@
+import hashlib
+
 import numpy as nm
 
 from sfepy.discrete.fem.mesh import find_map
@@ -10,6 +12,15 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
+def _get_coors_key(coors1, coors2):
+    """
+    Get a part of the cache key identifying the coordinates to be matched.
+    """
+    return coors1.shape + tuple(
+        hashlib.sha1(nm.ascontiguousarray(coors)).hexdigest()
+        for coors in (coors1, coors2)
+    )
+
 ##
 # c: 18.10.2006, r: 05.05.2008
 def match_grid_line(coors1, coors2, which, get_saved=True):
@@ -20,7 +31,7 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
         raise ValueError('incompatible shapes: %s == %s'\
               % (coors1.shape, coors2.shape))
 
-    key = coors1.shape + ('line', which)
+    key = _get_coors_key(coors1, coors2) + ('line', which)
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
@@ -59,7 +70,7 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                          % (coors1.shape, coors2.shape))
 
     key_dir = None if direction is None else tuple(direction)
-    key = coors1.shape + ('dir', key_dir)
+    key = _get_coors_key(coors1, coors2) + ('dir', key_dir)
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
-- 
2.43.0


From 6fbfc90a1a7b107f6e1edee22cca47255fecd8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 075/215] fix: linear combination conditions kept after their
 removal

---
 sfepy/discrete/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..0e7f7c2 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -336,6 +336,9 @@ class Variables(Container):
         """
         from sfepy.discrete.common.region import are_disjoint
         if lcbcs is None:
+            self.lcbcs = None
+            self.mtx_lcbc = self.vec_lcbc = None
+            self.has_lcbc = self.has_lcbc_rhs = False
             self.lcdi = self.adi
             return
 
-- 
2.43.0


From 9ef8e4f4659ed9870f02d547bdd37be2e4e1212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 076/215] fix: essential conditions propagated over chains of
 periodic conditions

---
 sfepy/discrete/common/dof_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 10e3b4f..489695b 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -494,11 +494,11 @@ class EquationMap(Struct):
         mask = eq_ebc[self.master] > 0
         im0 = self.master[mask]
         im1 = self.slave[mask]
+        val_ebc[im1] = val_ebc[im0]
+        eq_ebc[im1] = eq_ebc[im0]
         mask = eq_ebc[self.slave] > 0
         is0 = self.slave[mask]
         is1 = self.master[mask]
-        val_ebc[im1] = val_ebc[im0]
-        eq_ebc[im1] = eq_ebc[im0]
         val_ebc[is1] = val_ebc[is0]
         eq_ebc[is1] = eq_ebc[is0]
 
-- 
2.43.0


From 974cd9dba7f0bae2a339f16634e06437a815efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 077/215] fix: linear combination conditions with periodic DOFs

---
 sfepy/discrete/fem/lcbc_operators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..b09b888 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -85,18 +85,18 @@ class MRLCBCOperator(LCBCOperator):
         if len(master) == 0: return
 
         # Remove rows with master DOFs.
-        remove = nm.searchsorted(nm.sort(dofs), master)
-        keep = nm.setdiff1d(nm.arange(len(dofs)), remove)
+        keep = nm.flatnonzero(~nm.isin(dofs, master))
 
         mtx = self.mtx[keep]
+        self.ameq = self.ameq[keep]
 
         # Remove empty columns, update new DOF count.
-        mtx = mtx.tocsc()
+        mtx = sp.csc_array(mtx)
         indptr = nm.unique(mtx.indptr)
         self.mtx = sp.csc_array((mtx.data, mtx.indices, indptr),
                                 shape=(mtx.shape[0], indptr.shape[0] - 1))
         self.n_mdof = self.mtx.shape[0]
-        self.n_dof_new = self.mtx.shape[1]
+        self.n_new_dof = self.mtx.shape[1]
 
 def _create_spin_matrix(coors):
     n_nod, dim = coors.shape
-- 
2.43.0


From 007651deb4d6d4b1abab795eab0c2e8add264ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 078/215] fix: average force condition without rotation DOFs
 and dof_map_fun

---
 sfepy/discrete/fem/lcbc_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index b09b888..e023df1 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -314,7 +314,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From edb8954460d92c7a485a6d506438c317178fc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 079/215] fix: thread term of rigid twist condition

---
 sfepy/discrete/fem/lcbc_operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index e023df1..6e38ce6 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -423,8 +423,9 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        thread_axis = thread * self.axis
+        mtx_mw = -0.5 * (mtx_mr @ self.axis + nm.tile(thread_axis, n_mnod))
+        mtx_sw = 0.5 * (mtx_sr @ self.axis + nm.tile(thread_axis, n_snod))
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From d14b4203f03df0006fd745c808208348f30a5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 080/215] fix: nodal combination conditions with zero
 coefficients

---
 sfepy/discrete/fem/lcbc_operators.py | 43 +++++++---------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6e38ce6..4fb0605 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -686,40 +686,17 @@ class NodalLCOperator(MRLCBCOperator):
 
             assert_(len(sol) == n_ceq)
 
-            imasters = []
-            ifixed = []
-            islaves = set()
-            ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
-
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
-
-                    # Workaround for poly.all_coeffs() not applicable to
-                    # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
-                    coefs.append(poly.TC())
-                    ccs.append(coefs)
-
-                else: # Degenerated constraint - fixed master.
-                    ifixed.append(imaster)
-                    ccs.append([float(_poly)])
-
-            islaves = sorted(islaves)
-
-            for ii, imaster in enumerate(imasters):
-                coefs = ccs[ii]
+            imasters = [int(key.name[1:]) for key in sol.keys()]
 
-                em = dpn * im + imaster
-                rhss[em] = coefs[-1]
+            # All the other DOFs are slaves, including those with zero
+            # coefficients in the constraints.
+            islaves = [ii for ii in range(dpn) if ii not in imasters]
+
+            for imaster, expr in zip(imasters, sol.values()):
+                poly = sm.Poly(expr, *us)
 
-                if imaster in ifixed: continue
+                em = dpn * im + imaster
+                rhss[em] = poly.TC()
 
                 # Master DOF is expressed in terms of slave DOFs.
                 for ii, islave in enumerate(islaves):
@@ -727,7 +704,7 @@ class NodalLCOperator(MRLCBCOperator):
 
                     rows.append(em)
                     cols.append(es)
-                    data.append(coefs[ii])
+                    data.append(poly.coeff_monomial(us[islave]))
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-- 
2.43.0


From 469114bc38332a75e001d9bb672fb53e4a616861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 081/215] fix: MUMPS symmetry check of general and diagonal
 matrices

---
 sfepy/solvers/ls.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..a668e76 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -872,24 +872,10 @@ class MUMPSSolver(LinearSolver):
     @staticmethod
     def coo_is_symmetric(mtx, tol=1e-9):
         """Symmetry check of the sparse matrix."""
-        row, col, data = mtx.row, mtx.col, mtx.data
+        mtx = mtx.tocsr()
+        err = abs(mtx - mtx.T).max()
 
-        out_of_diag = (row != col)
-        row, col, data = row[out_of_diag], col[out_of_diag], data[out_of_diag]
-
-        idxs_u = nm.where(col > row)[0]
-        idxs_l = nm.where(col < row)[0]
-        if idxs_l.shape[0] != idxs_u.shape[0]:
-            return False
-
-        iu = nm.lexsort((row[idxs_u], col[idxs_u]))
-        il = nm.lexsort((col[idxs_l], row[idxs_l]))
-
-        err = nm.abs(data[idxs_u[iu]] - data[idxs_l[il]])
-        if nm.any(err/nm.abs(data[idxs_u].max()) >= tol):
-            return False
-
-        return True
+        return err <= tol * abs(mtx).max()
 
     def __init__(self, conf, **kwargs):
         aux = try_imports(['import mumpspy as mumps', 'import mumps'],
-- 
2.43.0


From f4eb11eec53e95398c750d787ba7b71c80ffc35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 082/215] fix: MUMPS solver reused for matrices of other types

---
 sfepy/solvers/ls.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index a668e76..63f2fe0 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -909,23 +909,25 @@ class MUMPSSolver(LinearSolver):
             is_new, mtx_digest = False, None
 
         if is_new or (self.mumps_ls is None):
+            # The data type or symmetry of a new matrix can be different.
+            self.clear()
+
             if not isinstance(mtx, sps.coo_array):
                 mtx = mtx.tocoo()
 
             is_sym = self.coo_is_symmetric(mtx)
 
-            if self.mumps_ls is None:
-                if self.mumps.__name__ == 'mumpspy':
-                    system = 'complex' if mtx.dtype.name.startswith('complex')\
-                        else 'real'
-                    mem_relax = self.conf.memory_relaxation
-                    self.mumps_ls = self.mumps.MumpsSolver(system=system,
-                                                           is_sym=is_sym,
-                                                           mem_relax=mem_relax)
-                    if self.conf.verbose:
-                        self.mumps_ls.set_verbose()
-                else:
-                    self.mumps_ls = self.mumps.Context(self.conf.verbose)
+            if self.mumps.__name__ == 'mumpspy':
+                system = 'complex' if mtx.dtype.name.startswith('complex')\
+                    else 'real'
+                mem_relax = self.conf.memory_relaxation
+                self.mumps_ls = self.mumps.MumpsSolver(system=system,
+                                                       is_sym=is_sym,
+                                                       mem_relax=mem_relax)
+                if self.conf.verbose:
+                    self.mumps_ls.set_verbose()
+            else:
+                self.mumps_ls = self.mumps.Context(self.conf.verbose)
 
             if self.mumps.__name__ == 'mumpspy':
                 self.mumps_ls.set_mtx(mtx, factorize=factorize)
-- 
2.43.0


From 76ab78e58f8132cd4c9afa4e0a66aeac38d441e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 083/215] fix: errors of MUMPS ignored by the Schur complement
 solver

---
 sfepy/solvers/ls.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 63f2fe0..8d57376 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -1020,7 +1020,15 @@ class SchurMumps(MUMPSSolver):
 
         if self.mumps.__name__ == 'mumpspy':
             # shur_list indexing starts from 1!
-            return self.mumps_ls.schur_solve(schur_list + 1, rhs)
+            sol = self.mumps_ls.schur_solve(schur_list + 1, rhs)
+
+            # Not checked by mumpspy.
+            if self.mumps_ls.struct.infog[0] < 0:
+                raise RuntimeError('MUMPS error: %d'
+                                   % self.mumps_ls.struct.infog[0])
+
+            return sol
+
         else:
             self.mumps_ls.schur(schur_list)
             return self.mumps_ls.solve_schur(rhs)
-- 
2.43.0


From d56878dcd6979729249032128844afcbf43fc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 084/215] fix: tolerance arguments of SciPy iterative solvers

---
 sfepy/solvers/ls.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 8d57376..5acead2 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -1,4 +1,5 @@
 import hashlib
+import inspect
 
 import numpy as nm
 import warnings
@@ -356,14 +357,15 @@ class ScipyIterative(LinearSolver):
             if version.parse(sp.__version__) >= version.parse('1.4.0'):
                 solver_kwargs.update({'callback_type' : 'legacy'})
 
-        try:
-            sol, info = self.solver(mtx, rhs, x0=x0, atol=eps_a, rtol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
-        except TypeError:
-            sol, info = self.solver(mtx, rhs, x0=x0, tol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
+        # Not all the methods have the same tolerance arguments.
+        pars = inspect.signature(self.solver).parameters
+        tol_args = {'rtol' if 'rtol' in pars else 'tol' : eps_r}
+        if 'atol' in pars:
+            tol_args['atol'] = eps_a
+
+        sol, info = self.solver(mtx, rhs, x0=x0, maxiter=i_max,
+                                callback=iter_callback, **tol_args,
+                                **solver_kwargs)
 
         output('%s: %s convergence: %s (%s, %d iterations)'
                % (self.conf.name, self.conf.method,
-- 
2.43.0


From 6e3b6fe4e81196c5fc657064b555c417d53d21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 085/215] fix: configured callbacks of iterative solvers
 ignored

---
 sfepy/solvers/ls.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 5acead2..9e2eddb 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -320,8 +320,9 @@ class ScipyIterative(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
@@ -469,8 +470,9 @@ class PyAMGSolver(LinearSolver):
         eps_r = get_default(eps_r, self.conf.eps_r)
         i_max = get_default(i_max, self.conf.i_max)
 
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
@@ -573,8 +575,9 @@ class PyAMGKrylovSolver(LinearSolver):
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
                                     self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None),
+                               get_default(self.conf.callback,
+                                           lambda sol: None))
 
         self.iter = 0
         def iter_callback(sol):
-- 
2.43.0


From 0f4cdac39fe741b1b87e73d375a26289d97f004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 086/215] fix: configuration changed by automatic solvers

---
 sfepy/solvers/auto_fallback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/auto_fallback.py b/sfepy/solvers/auto_fallback.py
index f8407a4..b8c93e6 100644
--- a/sfepy/solvers/auto_fallback.py
+++ b/sfepy/solvers/auto_fallback.py
@@ -23,7 +23,7 @@ class AutoFallbackSolver(Solver):
             dconf = conf.to_dict()
 
         else:
-            dconf = conf
+            dconf = conf.copy()
 
         dconf.pop('kind', None)
         ls_solvers = [(ls, Struct(**_conf) + Struct(kind=ls) + Struct(**dconf))
-- 
2.43.0


From 6c33eca90e9ee43c292763188bd8f35f512c56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 087/215] fix: context of solver classes in
 use_first_available()

---
 sfepy/solvers/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index c68cfc7..850736e 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -90,7 +90,7 @@ def use_first_available(solver_list, context=None, **kwargs):
             if isinstance(solver, str):
                 out = Solver.any_from_conf(_conf, context=context, **kwargs)
             else:
-                out = solver(_conf, contex=context, **kwargs)
+                out = solver(_conf, context=context, **kwargs)
 
             output("using '%s' solver" % name)
             break
-- 
2.43.0


From 68958fc819e4e661d5497e7d4d8b035a7912e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 088/215] fix: state returned after giving up on residual
 failure in Newton

---
 sfepy/solvers/nls.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..5a322a1 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,7 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +367,7 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +644,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 8e09649f86bf14ff9ddc1c4b7d91d705f255d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 089/215] fix: system scaling in Newton line search on error
 estimates

---
 sfepy/solvers/nls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index 5a322a1..d54f37c 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -536,8 +536,8 @@ class Newton(NonlinearSolver):
             lin_solver.mtx = smtx_a
 
         else:
-            _, svec_r, svec_x = scale_system(None, vec_r, vec_x,
-                                             self.context)
+            smtx_a, svec_r, svec_x = scale_system(mtx_a, vec_r, vec_x,
+                                                  self.context)
             svec_dx = lin_solver(svec_r, x0=svec_x,
                                  eps_a=eps_a, eps_r=eps_r,
                                  status=ls_status)
-- 
2.43.0


From 3858bce283eeebee786d0536f7a05d072b60328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 090/215] fix: condition reported by scipy_root solver

---
 sfepy/solvers/nls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index d54f37c..34a286c 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -767,19 +767,23 @@ class ScipyRoot(NonlinearSolver):
                         options=options)
         err = nla.norm(sol.fun)
 
+        time = timer.stop()
+
         nit = sol.get('nit', -1)
+        # The meaning of the SciPy status depends on the method.
+        condition = 0 if sol.success else (sol.get('status', 1) or 1)
         if status is not None:
-            status['time_stats'] = {'solver' : timer.stop()}
+            status['time_stats'] = {'solver' : time}
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            status['condition'] = condition
 
         if conf.report_status:
             output(sol.message)
-            output(f'status: {sol.status}, iter: {nit},'
+            output(f'cond: {condition}, iter: {nit},'
                    f' nfev: {sol.nfev}, err: {err:.8e}')
-            output('solver: %.8f [s]' % status['time_stats']['solver'])
+            output('solver: %.8f [s]' % time)
 
         return sol.x
 
-- 
2.43.0


From 3c9cdb3cf25e0b7efff9f794c6639ff5dc2e0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 091/215] fix: methods of scipy_fmin_like solver without
 getargspec()

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index e299c72..200d14e 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -360,7 +360,7 @@ class ScipyFMinSolver(OptimizationSolver):
         obj_fun = get_default(obj_fun, self.obj_fun)
         obj_fun_grad = get_default(obj_fun_grad, self.obj_fun_grad)
         status = get_default(status, self.status)
-        obj_args = get_default(obj_args, self.obj_args)
+        obj_args = get_default(get_default(obj_args, self.obj_args), ())
 
         timer = Timer(start=True)
 
-- 
2.43.0


From fd56833ba425a9a8aeefc739d3df696f36c7b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 092/215] fix: line search, status and output function of
 fmin_sd solver

---
 sfepy/solvers/optimize.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index 200d14e..9a78be2 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -10,7 +10,7 @@ from sfepy.solvers.solvers import OptimizationSolver
 import scipy.optimize as sopt
 import scipy.optimize.linesearch as linesearch
 
-def conv_test(conf, it, of, of0, ofg_norm=None):
+def conv_test(conf, it, of, of0, ofg_norm=None, output=output):
     """
     Returns
     -------
@@ -49,7 +49,7 @@ def wrap_function(function, args):
         return out
     return ncalls, times, function_wrapper
 
-def check_gradient(xit, aofg, fn_of, delta, check):
+def check_gradient(xit, aofg, fn_of, delta, check, output=output):
 
     dofg = nm.zeros_like(aofg)
     xd = xit.copy()
@@ -160,10 +160,9 @@ class FMinSteepestDescent(OptimizationSolver):
         obj_fun = get_default(obj_fun, self.obj_fun)
         obj_fun_grad = get_default(obj_fun_grad, self.obj_fun_grad)
         status = get_default(status, self.status)
-        obj_args = get_default(obj_args, self.obj_args)
+        obj_args = get_default(get_default(obj_args, self.obj_args), ())
 
-        if conf.output:
-            globals()['output'] = conf.output
+        output = get_default(conf.output, globals()['output'])
 
         output('entering optimization loop...')
 
@@ -182,22 +181,24 @@ class FMinSteepestDescent(OptimizationSolver):
             of = fn_of(xit)
 
             if it == 0:
-                of0 = ofit0 = of_prev = of
-                of_prev_prev = of + 5000.0
+                of0 = ofit0 = of
 
             if ofg is None:
                 ofg = fn_ofg(xit)
 
             if conf.check:
                 timer.start()
-                check_gradient(xit, ofg, fn_of, conf.delta, conf.check)
+                check_gradient(xit, ofg, fn_of, conf.delta, conf.check,
+                               output=output)
                 time_stats['check'].append(timer.stop())
 
             ofg_norm = nla.norm(ofg, conf.norm)
 
-            ret = conv_test(conf, it, of, ofit0, ofg_norm)
+            ret = conv_test(conf, it, of, ofit0, ofg_norm, output=output)
             if ret >= 0:
                 break
+            # The objective function in the current and previous iterations.
+            of_prev, of_prev_prev = of, (ofit0 if it > 0 else of + 5000.0)
             ofit0 = of
 
             ##
@@ -220,8 +221,6 @@ class FMinSteepestDescent(OptimizationSolver):
                     alpha *= conf.ls_red
                     output('backtracking: reducing step (%f)' % alpha)
                 else:
-                    of_prev_prev = of_prev
-                    of_prev = aux
                     break
 
                 if alpha < conf.ls_min:
@@ -230,7 +229,7 @@ class FMinSteepestDescent(OptimizationSolver):
                     output('linesearch failed, continuing anyway')
                     break
 
-            # These values are modified by the line search, even if it fails
+            # These values are modified by the line search, even if it fails.
             of_prev_bak = of_prev
             of_prev_prev_bak = of_prev_prev
 
@@ -292,7 +291,7 @@ class FMinSteepestDescent(OptimizationSolver):
 
         if status is not None:
             status['log'] = self.log
-            status['status'] = status
+            status['status'] = ret
             status['of0'] = of0
             status['of'] = of
             status['it'] = it
-- 
2.43.0


From fe24d077bffa5d51ab58073554fe57aeaa041ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 093/215] fix: objective function without arguments in
 scipy_fmin_like solver

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index 9a78be2..3ef391a 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -369,7 +369,7 @@ class ScipyFMinSolver(OptimizationSolver):
         if conf.method in self._has_grad:
             kwargs['fprime'] = obj_fun_grad
 
-        if 'disp' in inspect.getargspec(self.solver)[0]:
+        if 'disp' in inspect.signature(self.solver).parameters:
             kwargs['disp'] = conf.verbose
 
         kwargs.update(self.build_solver_kwargs(conf))
-- 
2.43.0


From 95a7b1da0f51050392702f13984974c1492a2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 094/215] fix: linear system error in Oseen solver

---
 sfepy/solvers/oseen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/oseen.py b/sfepy/solvers/oseen.py
index 72ef08c..a71ccfd 100644
--- a/sfepy/solvers/oseen.py
+++ b/sfepy/solvers/oseen.py
@@ -305,7 +305,7 @@ class Oseen(NonlinearSolver):
             time_stats['solve'] = timer.stop()
             ls_n_iter += ls_status['n_iter']
 
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             if lerr > (conf.eps_a * conf.lin_red):
                 output('linear system not solved! (err = %e)' % lerr)
-- 
2.43.0


From e2dab57741af73ecd2d37b33fbdd57e98f82ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 095/215] fix: jacobian of non-smooth equations in semismooth
 Newton

---
 sfepy/solvers/semismooth_newton.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..5d9e77a 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -298,17 +298,13 @@ class SemismoothNewton(Newton):
                 mtx_a_z = mtx_a[iz]
                 mtx_b_z = mtx_b[iz]
 
-                sqrt_ab = nm.empty((iz.shape[0],), dtype=vec_a_r.dtype)
-                for ir in range(len(iz)):
-                    row_a_z = mtx_a_z[ir]
-                    row_b_z = mtx_b_z[ir]
-                    sqrt_ab[ir] = nm.sqrt((row_a_z @ row_a_z.T).todense()
-                                          + (row_b_z @ row_b_z.T).todense())
+                sqrt_ab = nm.sqrt((mtx_a_z * mtx_a_z).sum(axis=1)
+                                  + (mtx_b_z * mtx_b_z).sum(axis=1))
                 mul_a[iz] = ((mtx_a_z @ vec_z) / sqrt_ab) - 1.0
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From 53a5e814867f003bf4e3b34c82675ba1e363d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 096/215] fix: state restored before steepest descent in
 semismooth Newton

---
 sfepy/solvers/semismooth_newton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 5d9e77a..76f71a9 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -129,8 +129,6 @@ class SemismoothNewton(Newton):
                         vec_semismooth_r = nm.where(vec_a_r < vec_b_r,
                                                     vec_a_r, vec_b_r)
 
-                    r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
-
                     ok = True
 
                 time_stats['residual'] = timer.stop()
@@ -175,6 +173,7 @@ class SemismoothNewton(Newton):
                         vec_x = vec_x_last.copy()
                         (vec_smooth_r, vec_a_r, vec_b_r,
                          vec_semismooth_r) = r_last
+                        vec_r = nm.r_[vec_smooth_r, vec_semismooth_r]
                         err = err_last
                         reuse_matrix = True
 
@@ -203,6 +202,7 @@ class SemismoothNewton(Newton):
 
             err_last = err;
             vec_x_last = vec_x.copy()
+            r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
 
             condition = conv_test(conf, it, err, err0)
             if condition >= 0:
-- 
2.43.0


From 7979ef85681362feb314102099e770db74fa0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 097/215] fix: number of iterations reported by semismooth
 Newton

---
 sfepy/solvers/semismooth_newton.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 76f71a9..9d65da7 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -250,6 +250,7 @@ class SemismoothNewton(Newton):
             status['time_stats'] = time_stats
             status['err0'] = err0
             status['err'] = err
+            status['n_iter'] = it
             status['condition'] = condition
 
         if conf.log.plot is not None:
-- 
2.43.0


From 42d593260f877bcec12a767c7686548a326fe646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 098/215] fix: equality of time steppers

---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..d44f6cf 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From eb0c696311c48490d983ca0769d534d733529263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 099/215] fix: additional variable time steps after the final
 time

---
 sfepy/solvers/ts.py         | 3 ++-
 sfepy/solvers/ts_solvers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index d44f6cf..e7a8ce7 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -217,7 +217,8 @@ class VariableTimeStepper(TimeStepper):
         while 1:
             yield self.step, self.time
 
-            if self.nt >= 1.0:
+            # Avoid an additional step due to accumulated rounding errors.
+            if self.nt >= (1.0 - 1e-10):
                 break
 
             self.advance()
diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..825b1f0 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -747,7 +747,8 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             # Current step state q(t_{n+1}).
             vect = poststep_fun(ts, vect)
 
-            if ts.nt >= 1:
+            # Avoid an additional step due to accumulated rounding errors.
+            if ts.nt >= (1.0 - 1e-10):
                 break
 
             if new_dt != ts.dt:
-- 
2.43.0


From 17bc341050f2c13937328ae3b2d2b380cdc8ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 100/215] fix: last state returned by elastodynamics solvers

---
 sfepy/solvers/ts_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 825b1f0..79dc917 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -757,7 +757,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
             vec = vect
 
-        return vec
+        return vect
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
     """
-- 
2.43.0


From a81c254225f8b48234ee6eb04ed07d54388a396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 101/215] fix: times of sub-steps in the Bathe method

---
 sfepy/solvers/ts_solvers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 79dc917..6e8fbb3 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1312,12 +1312,18 @@ class BatheTS(ElastodynamicsBaseTS):
         """
         dt = ts.dt
         ut, vt, at = unpack(vec)
+
+        # Set time to t_{n+1/2} = t_{n+1} - dt / 2.
+        ts.set_substep_time(- 0.5 * dt)
+        prestep_fun(ts, vec)
+
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1327,8 +1333,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From 7e832ee8e344e2fbcb5822f1d01b13aa6a1d348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 102/215] fix: loads in the mid-step time in the generalized
 alpha method

---
 sfepy/solvers/ts_solvers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 6e8fbb3..4fa6965 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -721,8 +721,6 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 # Previous step state q(t_n).
                 # Both prestep_fun() and poststep_fun() apply EBCs to vec/vect
                 # in case active_only is False.
-                # TODO: Generalized alpha: EBCs for current time t_{n+1}. but
-                # loads should be applied in the mid-step time t_{n+1-a}.
                 vec = prestep_fun(ts, vec)
                 vect = self.step(ts, vec, nls, pack, unpack,
                                  prestep_fun=prestep_fun)
@@ -1175,7 +1173,7 @@ class GeneralizedAlphaTS(ElastodynamicsBaseTS):
 
         return nlst
 
-    def step(self, ts, vec, nls, pack, unpack, **kwargs):
+    def step(self, ts, vec, nls, pack, unpack, prestep_fun):
         """
         Solve a single time step.
         """
@@ -1190,9 +1188,12 @@ class GeneralizedAlphaTS(ElastodynamicsBaseTS):
         # Notation: a = \alpha_f, t = t_{n+1}, t - dt = t_n.
         # Set time to t_{n+1-a} = (1 - a) t + a (t - dt) = t - a dt
         ts.set_substep_time(- alpha_f * dt)
+        # Apply loads and EBCs in the mid-step time t_{n+1-a}.
+        prestep_fun(ts, vec)
         atp = nlst(at)
         # Restore t_{n+1}.
         ts.restore_step_time()
+        prestep_fun(ts, vec)
 
         vtp = nlst.v(atp)
         utp = nlst.u(atp)
-- 
2.43.0


From 3154de468ebc640fa9be2cb3ce278c8b525e7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 103/215] fix: damping in the velocity-Verlet method

---
 sfepy/solvers/ts_solvers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 4fa6965..f3a9007 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -788,7 +788,7 @@ class VelocityVerletTS(ElastodynamicsBaseTS):
         nlst = nls.copy()
 
         def fun(at):
-            vec = nm.r_[u1, vm, at]
+            vec = nm.r_[u1, v1(at), at]
 
             aux = nls.fun(vec)
 
@@ -798,9 +798,11 @@ class VelocityVerletTS(ElastodynamicsBaseTS):
 
         @_cache(self, 'matrix', self.conf.is_linear)
         def fun_grad(at):
-            vec = None if self.conf.is_linear else nm.r_[u1, vm, at]
-            M = self.get_matrices(nls, vec)[0]
-            return M
+            vec = None if self.conf.is_linear else nm.r_[u1, v1(at), at]
+            M, C = self.get_matrices(nls, vec)[:2]
+
+            Kt = M + 0.5 * dt * C
+            return Kt
 
         nlst.fun = fun
         nlst.fun_grad = fun_grad
-- 
2.43.0


From 036a1d138d6040bef727d1998884b4a2042bd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 104/215] fix: initial time step guess of elastodynamics
 controllers

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From 3ae0ab86635659f560604c0d40697b39fad5dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 105/215] fix: terms without state variables in
 transform_equations_ed()

---
 sfepy/solvers/ts_solvers.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index f3a9007..a214b10 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -402,22 +402,23 @@ def transform_equations_ed(equations, materials):
     variables = equations.variables
     for eq in equations:
         for term in eq.terms:
+            order = 0
             for name in term.names.state:
                 der = term.arg_derivatives[name]
                 if ((der is not None) and
                     isinstance(der, int) and
                     (der > 0)):
                     new_var_primary.add(name)
-                    if der == 2:
-                        eq_mass.append(term)
+                    order = max(order, der)
 
-                    else:
-                        eq_damping.append(term)
+            if order == 2:
+                eq_mass.append(term)
 
-                else:
-                    eq_other.append(term)
+            elif order == 1:
+                eq_damping.append(term)
 
-                continue
+            else: # Includes terms without state variables, e.g. loads.
+                eq_other.append(term)
 
     assert len(new_var_primary) == 1
     uname = new_var_primary.pop()
-- 
2.43.0


From a74b716d8156f4457e3822d39bc22cfcec74153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 106/215] fix: term coefficients in transform_equations_ed()

---
 sfepy/solvers/ts_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index a214b10..5e32558 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -444,6 +444,7 @@ def transform_equations_ed(equations, materials):
         aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
         arg_str = aux.replace(f',{vname},', f',{ddvname},')
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
@@ -454,6 +455,7 @@ def transform_equations_ed(equations, materials):
         aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
         arg_str = aux.replace(f',{vname},', f',{dvname},')
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
-- 
2.43.0


From 763fc748050439c9afb2d8db0734de23ba6ec707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 107/215] fix: history of variables in restart files

---
 sfepy/discrete/problem.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index d80fe11..90faa6f 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2114,6 +2114,9 @@ class Problem(Struct):
             fd.create_array(vgroup, 'history_length', history_length,
                             'history length')
             for ii in range(history_length):
+                # The history is not complete in the first steps.
+                if var.data[ii] is None: continue
+
                 data = var(step=-ii)
                 fd.create_array(vgroup, 'data_%d' % ii, data, 'data')
 
@@ -2177,17 +2180,27 @@ class Problem(Struct):
             for var in variables.iter_state():
                 vgroup = fd.root._f_get_child(var.name)
 
-                history_length = vgroup.history_length.read()
-                for ii in range(0, history_length):
-                    data = vgroup._f_get_child('data_%d' % ii).read()
-                    var.locked = False
-                    var.set_data(data, step=-ii)
-                    var.locked = True
-                    if ii == 0:
-                        variables.set_vec_part(vec, var.name, data)
+                data = vgroup.data_0.read()
+                variables.set_vec_part(vec, var.name, data)
 
             variables.init_state(vec=vec)
 
+            # The history has to be set after init_state(), which resets it.
+            for var in variables.iter_state():
+                vgroup = fd.root._f_get_child(var.name)
+
+                var.step = ts.step
+                history_length = vgroup.history_length.read()
+                for ii in range(1, history_length):
+                    name = 'data_%d' % ii
+                    if name not in vgroup: continue
+
+                    # Use the same indices as the current step data.
+                    hvec = variables.create_vec()
+                    variables.set_vec_part(hvec, var.name,
+                                           vgroup._f_get_child(name).read())
+                    var.data[ii] = hvec
+
             if '/r_vec' in fd:
                 r_vec = fd.root.r_vec.read()
                 variables.r_vec = r_vec
-- 
2.43.0


From c6d28792010eb2523753cbcc872a3bcd08cc3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 108/215] fix: initial state vector of restarted problems

---
 sfepy/discrete/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 90faa6f..35cd5af 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1348,7 +1348,8 @@ class Problem(Struct):
                 variables = self.load_restart(restart_filename, ts=ts)
                 self.advance(ts)
                 ts.advance()
-                vec0 = variables.get_state(self.active_only)
+                # A copy, as the full state of variables is updated in place.
+                vec0 = variables.get_state(self.active_only).copy()
 
             return vec0
 
-- 
2.43.0


From ec13f9a01109fa022adffe067a2bd2c14ee33ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 109/215] fix: save times passed by long time steps or before
 restarts

---
 sfepy/discrete/problem.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 35cd5af..8f61de4 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -51,16 +51,26 @@ def make_is_save(options):
                     self.save_times = nm.linspace(ts.t0, ts.t1,
                                                   self.save_times0)
 
+        def skip(self, ts):
+            """
+            Skip the save times up to the current time.
+            """
+            if isinstance(self.save_times, nm.ndarray):
+                self(ts)
+
         def __call__(self, ts):
             if isinstance(self.save_times, str) and self.save_times == 'all':
                 return True
 
             elif isinstance(self.save_times, nm.ndarray):
-                if (self.ilast < len(self.save_times)
-                    and (ts.time + (1e-14 * ts.dt)
-                         >= self.save_times[self.ilast])):
+                ilast = self.ilast
+                # A single time step can pass several save times.
+                while (self.ilast < len(self.save_times)
+                       and (ts.time + (1e-14 * ts.dt)
+                            >= self.save_times[self.ilast])):
                     self.ilast += 1
-                    return True
+
+                return self.ilast > ilast
 
             elif callable(self.save_times):
                 return self.save_times(ts)
@@ -1346,6 +1356,7 @@ class Problem(Struct):
             restart_filename = self.conf.options.get('load_restart', None)
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
+                is_save.skip(ts)
                 self.advance(ts)
                 ts.advance()
                 # A copy, as the full state of variables is updated in place.
-- 
2.43.0


From f45320a3ab6aa1a992aa89d4a1bf081df97505f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 110/215] fix: restarts from the final time step

---
 sfepy/discrete/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 8f61de4..318b8ab 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1356,6 +1356,10 @@ class Problem(Struct):
             restart_filename = self.conf.options.get('load_restart', None)
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
+                if (ts.step > 0) and (ts.nt >= (1.0 - 1e-10)):
+                    raise ValueError('cannot restart from the final time step!'
+                                     ' (%s)' % restart_filename)
+
                 is_save.skip(ts)
                 self.advance(ts)
                 ts.advance()
-- 
2.43.0


From 35e0817142cc74ea669d16402e5f72c38abe6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 111/215] fix: matrices of restarted linear elastodynamics
 problems

---
 sfepy/solvers/ts_solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 5e32558..dac452e 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -606,11 +606,14 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             out = self.constant_matrices
 
         else:
+            if vec is None:
+                # Matrices of linear problems do not depend on the state.
+                vec = nm.zeros(self.n_dof)
+
             aux = nls.fun_grad(vec)
 
             if unpack is not None:
                 iue, iu, ie, iv, ia = unpack.indices
-                aux = nls.fun_grad(vec)
 
                 M = aux[ia, ia]
                 C = aux[iv, iv]
@@ -662,6 +665,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
         ts = self.ts
         vec0 = init_fun(ts, vec0)
+        self.n_dof = len(vec0)
 
         output(self.format % (ts.time, ts.step + 1, ts.n_step),
                verbose=self.verbose)
-- 
2.43.0


From cfcdeaba6e3837165b0ce2b4fbb3f44b48030998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 112/215] fix: state of adaptive time stepping in restart files

---
 sfepy/discrete/problem.py       | 14 ++++++++++++++
 sfepy/solvers/solvers.py        | 24 ++++++++++++++++++++++++
 sfepy/solvers/ts_controllers.py | 14 +++++++++++---
 sfepy/solvers/ts_solvers.py     | 31 ++++++++++++++++++++++++++++---
 4 files changed, 77 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 318b8ab..1c3bbab 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2118,6 +2118,12 @@ class Problem(Struct):
         for key, val in ts.get_state().items():
             fd.create_array(tgroup, key, val, key)
 
+        if self.solver is not None:
+            tgroup = fd.create_group('/', 'time_stepping_solver',
+                                     'time stepping solver state')
+            for key, val in self.get_solver().get_state().items():
+                fd.create_array(tgroup, key, val, key)
+
         variables = self.get_variables()
         if variables.r_vec is not None:
             fd.create_array('/', 'r_vec', variables.r_vec,
@@ -2192,6 +2198,14 @@ class Problem(Struct):
 
             ts.set_state(**ts_state)
 
+            if (('/time_stepping_solver' in fd)
+                and (self.solver is not None)):
+                self.get_solver().set_state(
+                    **{val.name : val.read()
+                       for val in
+                       fd.root.time_stepping_solver._f_iter_nodes()}
+                )
+
             vec = variables.create_vec()
             for var in variables.iter_state():
                 vgroup = fd.root._f_get_child(var.name)
diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index 850736e..d5bfc85 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -307,6 +307,19 @@ class TimeStepController(Solver):
     def get_initial_dt(self, ts, vec, **kwargs):
         return ts.dt
 
+    def get_state(self):
+        """
+        Return the internal state (a dict of numbers) needed for restarts.
+        """
+        return {}
+
+    def set_state(self, **kwargs):
+        """
+        Restore the internal state returned by :func:`get_state()`.
+        """
+        for key, val in kwargs.items():
+            setattr(self, key, val)
+
     def __call__(self, ts, vec0, vec1, **kwargs):
         raise ValueError('called an abstract TimeStepController instance!')
 
@@ -323,6 +336,17 @@ class TimeSteppingSolver(Solver):
     def set_dof_info(self, di):
         self.di = di
 
+    def get_state(self):
+        """
+        Return the internal state (a dict of numbers) needed for restarts.
+        """
+        return {}
+
+    def set_state(self, **kwargs):
+        """
+        Restore the internal state returned by :func:`get_state()`.
+        """
+
     def __call__(self, vec0=None, nls=None, tsc=None, init_fun=None,
                  prestep_fun=None, poststep_fun=None,
                  status=None, **kwargs):
diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 0cefc61..0e4b1fd 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -35,10 +35,12 @@ class TimesSequenceTSC(TimeStepController):
 
     def __call__(self, ts, vec0, vec1, **kwargs):
         self.t0 = ts.time
-        try:
-            t1 = next(self.iter_times)
+        for t1 in self.iter_times:
+            # Skip already passed times in restarts.
+            if (t1 - self.t0) > (1e-10 * ts.dt):
+                break
 
-        except StopIteration:
+        else:
             t1 = ts.t1
 
         new_dt = t1 - self.t0
@@ -204,6 +206,9 @@ class ElastodynamicsPIDTSC(ElastodynamicsBasicTSC):
         self.emax0 = 1.0
         self.emax00 = 1.0
 
+    def get_state(self):
+        return {'emax0' : self.emax0, 'emax00' : self.emax00}
+
     def __call__(self, ts, vec0, vec1, unpack, **kwargs):
         conf = self.conf
         dt = ts.dt
@@ -274,6 +279,9 @@ class ElastodynamicsLinearTSC(ElastodynamicsBasicTSC):
             )
         self.count = 0
 
+    def get_state(self):
+        return {'count' : self.count}
+
     def __call__(self, ts, vec0, vec1, unpack, **kwargs):
         conf = self.conf
         dt = ts.dt
diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index dac452e..32c9b13 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -359,6 +359,12 @@ class AdaptiveTimeSteppingSolver(SimpleTimeSteppingSolver):
         if self.adapt_time_step is None:
             self.adapt_time_step = adapt_time_step
 
+    def get_state(self):
+        return {'red' : self.adt.red, 'wait' : self.adt.wait}
+
+    def set_state(self, red=1.0, wait=0, **kwargs):
+        self.adt.red, self.adt.wait = red, wait
+
     def solve_step(self, ts, nls, vec, prestep_fun):
         """
         Solve a single time step.
@@ -600,6 +606,21 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
         self.verbose = self.conf.verbose
         self.constant_matrices = None
         self.matrix = None
+        self.new_dt = None
+
+    def get_state(self):
+        state = {'tsc_' + key : val for key, val in self.tsc.get_state().items()}
+        if self.new_dt is not None:
+            state['new_dt'] = self.new_dt
+
+        return state
+
+    def set_state(self, new_dt=None, **kwargs):
+        self.tsc.set_state(**{key[4:] : val for key, val in kwargs.items()
+                              if key.startswith('tsc_')})
+        if (new_dt is not None) and not isinstance(self.tsc, FixedTSC):
+            self.new_dt = new_dt
+            self.ts.set_time_step(new_dt)
 
     def get_matrices(self, nls, vec, unpack=None):
         if self.conf.is_linear and self.constant_matrices is not None:
@@ -711,13 +732,16 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
         if len(sig.parameters) == 3:
             poststep_fun = partial(poststep_fun, self)
 
+        self.new_dt = None # Can be set by a restart.
         vec, unpack, pack = self.get_initial_vec(
             nls, vec0, init_fun, prestep_fun, poststep_fun)
 
         ts = self.ts
-        dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
-        if not isinstance(self.tsc, FixedTSC):
-            ts.set_time_step(dt0, update_time=True)
+        if self.new_dt is None:
+            dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
+            if not isinstance(self.tsc, FixedTSC):
+                ts.set_time_step(dt0, update_time=True)
+
         while 1:
             output(self.format % (ts.time, ts.step + 1, ts.n_step),
                    verbose=self.verbose)
@@ -750,6 +774,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 ts.set_time_step(new_dt, update_time=True)
 
             # Current step state q(t_{n+1}).
+            self.new_dt = new_dt
             vect = poststep_fun(ts, vect)
 
             # Avoid an additional step due to accumulated rounding errors.
-- 
2.43.0


From e8ce11af0b486b72996da456bb73444e1fdcc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 113/215] fix: restarts from regular output files

---
 sfepy/discrete/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 1c3bbab..0fb44e1 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2251,7 +2251,9 @@ class Problem(Struct):
             vec = variables.create_vec()
             for var in variables.iter_state():
                 val = out[var.name]
+                var.locked = False
                 var.set_from_mesh_vertices(val.data)
+                var.locked = True
                 variables.set_vec_part(vec, var.name, var())
 
             variables.init_state(vec=vec)
-- 
2.43.0


From 8bb5d0e054c791a2a9282369862481cce24713c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 114/215] fix: constant matrices with changed initial time
 steps

---
 sfepy/solvers/ts_solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 32c9b13..ae826ac 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -740,6 +740,11 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
         if self.new_dt is None:
             dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
             if not isinstance(self.tsc, FixedTSC):
+                if dt0 != ts.dt:
+                    self.clear_lin_solver(
+                        clear_constant_matrices=self.conf.has_time_derivatives,
+                    )
+
                 ts.set_time_step(dt0, update_time=True)
 
         while 1:
-- 
2.43.0


From cf6dc282526937da2267f2474cb7455059f23632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 115/215] fix: reference coordinates of extrapolated points

---
 sfepy/discrete/common/extmods/refcoors.c | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..8c6393f 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -390,12 +390,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, xi_ok, xi_ok_min, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -423,7 +423,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
+    ok = xi_ok = xi_ok_min = 0;
     d_min = 1e10;
     imin = candidates[offsets[ip]];
 
@@ -438,18 +438,18 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      // The reference coordinates have to correspond to the cell imin.
+      if ((ic == offsets[ip]) || (xi_ok && !xi_ok_min) || (dist < d_min)) {
+        xi_ok_min = xi_ok;
         d_min = dist;
         imin = cell_ent->ii;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
+      }
+      if (xi_ok && (dist < qp_eps)) {
+        ok = 1;
+        break;
       }
     }
     /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
@@ -457,7 +457,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!xi_ok_min) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -473,7 +473,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From 9541f0b95a1c35db0137530b3483dd55840a3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 116/215] fix: evaluation in points with non-C-contiguous
 coordinates

---
 sfepy/discrete/common/global_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/global_interp.py b/sfepy/discrete/common/global_interp.py
index 31dda8c..ec2e133 100644
--- a/sfepy/discrete/common/global_interp.py
+++ b/sfepy/discrete/common/global_interp.py
@@ -58,6 +58,7 @@ def get_ref_coors_convex(field, coors, close_limit=0.1, cache=None,
     if ref_coors is None:
         extrapolate = close_limit > 0.0
 
+        coors = nm.ascontiguousarray(coors)
         ref_coors = nm.empty_like(coors)
         cells = nm.empty((coors.shape[0],), dtype=nm.int32)
         status = nm.empty((coors.shape[0],), dtype=nm.int32)
@@ -104,7 +105,6 @@ def get_ref_coors_convex(field, coors, close_limit=0.1, cache=None,
 
         ics = nm.asarray(ics, dtype=nm.int32)
 
-        coors = nm.ascontiguousarray(coors)
         ctx = field.create_basis_context()
 
         timer.start()
@@ -241,6 +241,7 @@ def get_ref_coors_general(field, coors, close_limit=0.1, get_cells_fun=None,
 
         get = get_potential_cells if get_cells_fun is None else get_cells_fun
 
+        coors = nm.ascontiguousarray(coors)
         ref_coors = nm.empty_like(coors)
         cells = nm.empty((coors.shape[0],), dtype=nm.int32)
         status = nm.empty((coors.shape[0],), dtype=nm.int32)
@@ -267,7 +268,6 @@ def get_ref_coors_general(field, coors, close_limit=0.1, get_cells_fun=None,
                                        extrapolate=extrapolate)
         output('potential cells: %f s' % timer.stop(), verbose=verbose)
 
-        coors = nm.ascontiguousarray(coors)
         ctx = field.create_basis_context()
 
         eval_cmesh = get_default_attr(cache, 'eval_cmesh', None)
-- 
2.43.0


From c700dca191b1e36117896d7a61ea46c689b6e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 117/215] fix: location of cell centroids by convex strategy

---
 sfepy/discrete/common/extmods/refcoors.c | 34 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 8c6393f..d87231c 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -19,23 +19,19 @@ int32 _intersect_line_plane(float64 *pt, float64 p00[3], float64 p01[3],
                             float64 pp[3], float64 pn[3], int32 dim)
 {
   int32 ii;
-  float64 dot1, dot2;
+  float64 dot1, dot2, size;
   float64 v0[3], r[3];
 
   _mul_c_add_v3(v0, p01, -1.0, p00, dim);
-  dot1 = 0.0;
+  size = 0.0;
   for (ii = 0; ii < dim; ii++) {
-    dot1 += fabs(v0[ii]);
-  }
-  if (dot1 < 1e-10) {
-    *pt = 0.0;
-    goto end_label;
+    size += fabs(v0[ii]);
   }
 
   _mul_c_add_v3(r, p00, -1.0, pp, dim);
 
   gtr_dot_v3(&dot1, pn, v0, dim);
-  if (fabs(dot1) <= 1e-10) {
+  if (fabs(dot1) <= (1e-10 * size)) {
     *pt = 1e10;
     goto end_label;
   }
@@ -73,7 +69,7 @@ int32 _intersect_line_triangle(float64 *pt, float64 p00[3], float64 p01[3],
   gtr_dot_v3(&dvv, v, v, 3);
 
   aux = duv * duv - duu * dvv;
-  if (fabs(aux/duu) < 1e-14) {
+  if (fabs(aux) < (1e-14 * duu * dvv)) {
     *pt = 1e10;
     goto end_label;
   }
@@ -148,7 +144,7 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
   uint32 cell, cell0, cell00, facet;
   uint32 *noffs, *foffs, aux[2];
   uint32 *cell_types = mesh->topology->cell_types;
-  float64 d_min, tmin, tt, dist;
+  float64 d_min, tmin, tt, dist, size, diff;
   float64 *mesh_coors = mesh->geometry->coors;
   float64 buf3[3];
   float64 buf9[9];
@@ -209,6 +205,24 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
       loc = locs[cell_types[cell]];
       foffs = loc->offsets;
 
+      // No direction to follow from the cell centroid.
+      size = diff = 0.0;
+      for (ii = 0; ii < nc; ii++) {
+        ik = cell_vertices->indices[0];
+        size += fabs(mesh_coors[nc*ik+ii] - centroid->val[ii]);
+        diff += fabs(point->val[ii] - centroid->val[ii]);
+      }
+      if (diff <= (1e-10 * size)) {
+        _get_cell_coors(e_coors, cell_vertices, mesh_coors, nc,
+                        ctx->e_coors_max->val);
+
+        xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
+
+        d_min = Min(dist, d_min);
+        ok = (xi_ok && (dist < qp_eps)) ? 1 : 0;
+        break;
+      }
+
       if (cell_types[cell] != 4) { // No hexahedron -> planar facet.
         fmf_pretend_nc(_normals0, noffs[cell+1] - noffs[cell], 1, 1, nc,
                        normals0->val + nc * noffs[cell]);
-- 
2.43.0


From ab84e62f977bcaed5c6fb09c45bb033937214202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 118/215] fix: point location in tensor product cells of any
 size

---
 sfepy/discrete/fem/extmods/lagrange.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/extmods/lagrange.c b/sfepy/discrete/fem/extmods/lagrange.c
index 0fa5949..1d2f59e 100644
--- a/sfepy/discrete/fem/extmods/lagrange.c
+++ b/sfepy/discrete/fem/extmods/lagrange.c
@@ -246,11 +246,11 @@ int32 get_xi_tensor(FMField *xi, FMField *dest_point, FMField *e_coors,
   int32 i_max = ctx->i_max;
   float64 newton_eps = ctx->newton_eps;
 
-  int32 idim, ii, ok = 0;
+  int32 idim, ii, iv, ok = 0;
   int32 dim = e_coors->nCol;
   int32 powd = 1 << dim;
   FMField bf[1], bfg[1], xint[1], res[1], mtx[1], imtx[1], bc[1], base1d[1];
-  float64 err;
+  float64 err, val, size, level;
   float64 buf6[6], buf8[8], buf8_2[8], buf24[24];
   float64 buf3_1[3], buf3_2[3], buf9_1[9], buf9_2[9];
 
@@ -266,6 +266,18 @@ int32 get_xi_tensor(FMField *xi, FMField *dest_point, FMField *e_coors,
 
   ctx->bc = bc;
 
+  // The tolerance is relative to the cell size.
+  size = level = 0.0;
+  for (iv = 0; iv < e_coors->nRow; iv++) {
+    for (idim = 0; idim < dim; idim++) {
+      val = fabs(e_coors->val[dim*iv+idim] - e_coors->val[idim]);
+      size = Max(size, val);
+      val = fabs(e_coors->val[dim*iv+idim]);
+      level = Max(level, val);
+    }
+  }
+  newton_eps = newton_eps * size + 1e-15 * level;
+
   ii = 0;
   fmf_fillC(xi, 0.2 * (vmin + vmax));
   while (ii < i_max) {
-- 
2.43.0


From efe493204bc7ae72e904a7b3e214a18d18c7ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 119/215] fix: evaluate cache of fields in subregions

---
 sfepy/discrete/fem/fields_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index a6f7f1c..d2668a5 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1040,9 +1040,13 @@ class FEField(Field):
             cache = Struct(name='evaluate_cache')
 
         timer = Timer(start=True)
-        if (cache.get('cmesh', None) is None) or not share_geometry:
+        if ((cache.get('cmesh', None) is None) or not share_geometry
+            or (cache.get('region', None) is not self.region)):
+            # The cells have to correspond to the field region cells.
             mesh = self.create_mesh(extra_nodes=False)
-            cache.cmesh = cmesh = self.cmesh
+            cache.cmesh = cmesh = mesh.cmesh
+            cache.region = self.region
+            cache.kdtree = None
 
             gels = create_geometry_elements()
 
@@ -1063,7 +1067,7 @@ class FEField(Field):
 
         timer.start()
         if (cache.get('kdtree', None) is None) or not share_geometry:
-            cache.kdtree = KDTree(cmesh.coors)
+            cache.kdtree = KDTree(cache.cmesh.coors)
 
         output('kdtree: %f s' % timer.stop(), verbose=verbose)
 
-- 
2.43.0


From 20ef4b02f435cb38170868d1a273596bc18d5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 120/215] fix: probes reused with other points, regions or
 extrapolation limits

---
 sfepy/discrete/probes.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..8367787 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -171,7 +171,7 @@ class Probe(Struct):
         self.options = Struct(close_limit=0.1, size_hint=None)
         self.cache = Struct(name='probe_local_evaluate_cache')
         self.acache = Struct(name='probe_actual_evaluate_cache',
-                             pars_digest='')
+                             points_digest='')
 
         self.is_refined = False
 
@@ -182,13 +182,19 @@ class Probe(Struct):
         """
         return Probe.cache if self.share_geometry else self.cache
 
-    def get_actual_cache(self, pars, cache, hash_chunk_size=100000):
+    def get_actual_cache(self, points, cache, hash_chunk_size=100000):
         """
         Return the actual evaluate cache, which is a combination of the
         (mesh-based) evaluate cache and probe-specific data, like the reference
         element coordinates. The reference element coordinates are reused, if
-        the sha1 hash of the probe parameter vector does not change.
+        the sha1 hash of the probe points, the mesh and the extrapolation limit
+        do not change.
         """
+        key = (cache.get('cmesh', None), self.options.close_limit)
+        if key != self.acache.get('key', None):
+            self.acache = Struct(name='probe_actual_evaluate_cache',
+                                 points_digest='', key=key)
+
         self.acache += cache
 
         def _gen_array_chunks(arr):
@@ -198,12 +204,12 @@ class Probe(Struct):
                 ii += hash_chunk_size
 
         sha1 = hashlib.sha1()
-        for chunk in _gen_array_chunks(pars):
+        for chunk in _gen_array_chunks(nm.ascontiguousarray(points)):
             sha1.update(chunk)
 
         digest = sha1.hexdigest()
-        if digest != self.acache.pars_digest:
-            self.acache.pars_digest = digest
+        if digest != self.acache.points_digest:
+            self.acache.points_digest = digest
             self.acache.ref_coors = None
             self.acache.cells = None
             self.acache.status = None
@@ -317,7 +323,7 @@ class Probe(Struct):
             if not nm.isfinite(points).all():
                 raise ValueError('Inf/nan in probe points!')
 
-            acache = self.get_actual_cache(pars, cache)
+            acache = self.get_actual_cache(points, cache)
 
             vals, ref_coors, cells, status = ev(
                 points, mode=mode, strategy='general',
-- 
2.43.0


From a822b8ecb22cdce3508cdccfbbca2bfcc9a03fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 121/215] fix: element size hint of circle probes

---
 sfepy/discrete/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 8367787..f144cf9 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -375,15 +375,15 @@ class Probe(Struct):
             if self.options.size_hint is None:
                 ed = variable.get_element_diameters(cells, 0)
                 pd = 0.5 * (ed[1:] + ed[:-1])
+                pd1 = 0.5 * (ed[0] + ed[-1])
 
             else:
-                pd = self.options.size_hint
+                pd = pd1 = self.options.size_hint
 
             dist = norm_l2_along_axis(points[1:] - points[:-1])
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
-- 
2.43.0


From 21972f2a18d5ae3da10e5bf93f24d921aebf7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 122/215] fix: evaluation in points of fields with other than
 Lagrange basis

---
 sfepy/discrete/common/fields.py         |  8 ++++++++
 sfepy/discrete/fem/fields_hierarchic.py |  5 ++++-
 sfepy/discrete/fem/fields_nodal.py      | 10 ++++++++--
 sfepy/discrete/fem/fields_positive.py   |  5 ++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index 4b7f0a8..701601f 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -430,6 +430,14 @@ class Field(Struct):
             vals = nm.empty((nc, n_comp, dim), dtype=source_dtype)
             cmode = 1
 
+        if (self.approx_order > 1) and (self.poly_space_basis in
+                                        ('serendipity', 'sem', 'lobatto',
+                                         'bernstein')):
+            raise NotImplementedError('evaluation in points is not supported'
+                                      ' for %s basis of order %d!'
+                                      % (self.poly_space_basis,
+                                         self.approx_order))
+
         ctx = self.create_basis_context()
         econn = self.get_econn(('cell', self.region.tdim), self.region)
 
diff --git a/sfepy/discrete/fem/fields_hierarchic.py b/sfepy/discrete/fem/fields_hierarchic.py
index 56f10f5..800f22b 100644
--- a/sfepy/discrete/fem/fields_hierarchic.py
+++ b/sfepy/discrete/fem/fields_hierarchic.py
@@ -241,7 +241,10 @@ class H1HierarchicVolumeField(H1Mixin, FEField):
         gps = self.geom_poly_space
         mesh = self.create_mesh(extra_nodes=False)
 
-        ctx = geo_ctx = gps.create_context(self.cmesh, 0, 1e-15, 100, 1e-8)
+        ctx = gps.create_context(None, 0, 1e-15, 100, 1e-8,
+                                 tdim=mesh.cmesh.tdim)
+        geo_ctx = gps.create_context(mesh.cmesh, 0, 1e-15, 100, 1e-8)
+
         ctx.geo_ctx = geo_ctx
 
         return ctx
diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index b0ce4c7..b9a7ba1 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -468,7 +468,10 @@ class H1SNodalVolumeField(H1NodalVolumeField):
         gps = self.geom_poly_space
         mesh = self.create_mesh(extra_nodes=False)
 
-        ctx = geo_ctx = gps.create_context(self.cmesh, 0, 1e-15, 100, 1e-8)
+        ctx = gps.create_context(None, 0, 1e-15, 100, 1e-8,
+                                 tdim=mesh.cmesh.tdim)
+        geo_ctx = gps.create_context(mesh.cmesh, 0, 1e-15, 100, 1e-8)
+
         ctx.geo_ctx = geo_ctx
 
         return ctx
@@ -491,7 +494,10 @@ class H1SEMVolumeField(H1NodalVolumeField):
         gps = self.geom_poly_space
         mesh = self.create_mesh(extra_nodes=False)
 
-        ctx = geo_ctx = gps.create_context(self.cmesh, 0, 1e-15, 100, 1e-8)
+        ctx = gps.create_context(None, 0, 1e-15, 100, 1e-8,
+                                 tdim=mesh.cmesh.tdim)
+        geo_ctx = gps.create_context(mesh.cmesh, 0, 1e-15, 100, 1e-8)
+
         ctx.geo_ctx = geo_ctx
 
         return ctx
diff --git a/sfepy/discrete/fem/fields_positive.py b/sfepy/discrete/fem/fields_positive.py
index 25f9032..34d2fef 100644
--- a/sfepy/discrete/fem/fields_positive.py
+++ b/sfepy/discrete/fem/fields_positive.py
@@ -17,7 +17,10 @@ class H1BernsteinVolumeField(H1Mixin, GlobalNodalLikeBasis, FEField):
         gps = self.geom_poly_space
         mesh = self.create_mesh(extra_nodes=False)
 
-        ctx = geo_ctx = gps.create_context(self.cmesh, 0, 1e-15, 100, 1e-8)
+        ctx = gps.create_context(None, 0, 1e-15, 100, 1e-8,
+                                 tdim=mesh.cmesh.tdim)
+        geo_ctx = gps.create_context(mesh.cmesh, 0, 1e-15, 100, 1e-8)
+
         ctx.geo_ctx = geo_ctx
 
         return ctx
-- 
2.43.0


From c513e70223dd9ba45045600afe78d6377a4467b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 123/215] fix: meshes of constant approximation fields in
 subregions

---
 sfepy/discrete/fem/fields_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index d2668a5..cc3587f 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -988,7 +988,7 @@ class FEField(Field):
                 conn = self.econn[:, :self.gel.n_vertex]
 
             conns = [conn]
-            mat_ids = [self.cmesh.cell_groups]
+            mat_ids = [self.cmesh.cell_groups[self.region.get_cells()]]
             tdim = self.cmesh.tdim
             descs = f'{tdim}_{conn.shape[1]}'
             if descs not in mesh.descs:
@@ -1004,6 +1004,9 @@ class FEField(Field):
             mesh = Mesh.from_data(self.name, coors[:, :tdim], None, conns,
                                   mat_ids, [descs])
 
+        elif len(self.region.get_cells()) < self.cmesh.n_el:
+            mesh = Mesh.from_region(self.region, mesh, localize=True)
+
         return mesh
 
     def get_evaluate_cache(self, cache=None, share_geometry=False,
-- 
2.43.0


From 75466ad0bcd18eaf24b5e38ec55572fbce327a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 124/215] fix: plane of circle probes with normals close to z
 axis

---
 sfepy/discrete/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index f144cf9..27ee89f 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -721,8 +721,8 @@ class CircleProbe(Probe):
             axis = nm.cross(n1, self.normal)
             angle = nm.arccos(nm.dot(n1, self.normal))
 
-            if nla.norm(axis) < 0.1:
-                # n1 == self.normal
+            if nla.norm(axis) < 1e-14:
+                # n1 == +-self.normal
                 rot_mtx = nm.eye(3, dtype=nm.float64)
             else:
                 rot_mtx = make_axis_rotation_matrix(axis, angle)
-- 
2.43.0


From 4b1eb980f398f716c92e1256e78da1681cfab97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 125/215] fix: cycling of convex strategy in points on facets

---
 sfepy/discrete/common/extmods/refcoors.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index d87231c..f8cf4b7 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -241,7 +241,9 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
           }
         }
 
-        if (tmin >= (1.0 - qp_eps)) {
+        // Check the cell already when the point is numerically on the facet, to
+        // prevent cycling among the cells that share it.
+        if (tmin >= (1.0 - 1e-8)) {
           _get_cell_coors(e_coors, cell_vertices, mesh_coors, nc,
                           ctx->e_coors_max->val);
           /* fmf_print(e_coors, stdout, 0); */
@@ -252,7 +254,9 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
           if (xi_ok && (dist < qp_eps)) {
             ok = 1;
           }
-          break;
+          if (ok || (tmin >= (1.0 - qp_eps))) {
+            break;
+          }
         }
 
       } else { // Hexahedron -> non-planar facet in general.
-- 
2.43.0


From f9cec940154cbcbf48515b40708536aaa0bd8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 126/215] fix: speed of probes with shared geometry

---
 sfepy/discrete/fem/fields_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index cc3587f..4c1567e 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1044,11 +1044,12 @@ class FEField(Field):
 
         timer = Timer(start=True)
         if ((cache.get('cmesh', None) is None) or not share_geometry
-            or (cache.get('region', None) is not self.region)):
+            or (cache.get('regions', (None,))[0] is not self.region)):
             # The cells have to correspond to the field region cells.
             mesh = self.create_mesh(extra_nodes=False)
             cache.cmesh = cmesh = mesh.cmesh
-            cache.region = self.region
+            # Not stored as is to prevent merging the region data by probes.
+            cache.regions = (self.region,)
             cache.kdtree = None
 
             gels = create_geometry_elements()
-- 
2.43.0


From c86637f89441877ac6db4f8a446408e0f8daef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 127/215] fix: dot_sequences() of matrices and vectors in BT
 modes

---
 sfepy/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/utils.py b/sfepy/linalg/utils.py
index 7d3d18f..5ab8d1a 100644
--- a/sfepy/linalg/utils.py
+++ b/sfepy/linalg/utils.py
@@ -458,7 +458,7 @@ def dot_sequences(mtx, vec, mode='AB'):
         squeeze = True
         vec = vec[..., None]
 
-    if 'BT' in mode:
+    if ('BT' in mode) and not squeeze:
         ax = list(range(vec.ndim))
         vec = vec.transpose((ax[:-2]) + [ax[-1], ax[-2]])
 
-- 
2.43.0


From 2490edca7db2b38aa376db0445b9867c97e79b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 128/215] fix: distance of contact sphere for points in its
 centre

---
 sfepy/mechanics/contact_bodies.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/mechanics/contact_bodies.py b/sfepy/mechanics/contact_bodies.py
index ff62a73..f58fd24 100644
--- a/sfepy/mechanics/contact_bodies.py
+++ b/sfepy/mechanics/contact_bodies.py
@@ -83,8 +83,7 @@ class ContactSphere(Struct):
         dist = la.norm_l2_along_axis(vecs)
         # Prevent zero division.
         ii = dist > 1e-8
-        normals = nm.where(ii[:, None], vecs[ii] / dist[ii][:, None],
-                           vecs[ii])
+        normals = vecs / nm.where(ii, dist, 1.0)[:, None]
         return self.radius - dist, normals
 
     def _get_derivatives(self, points):
-- 
2.43.0


From 1bd750819098ea9ba2953731e993895baea9d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 129/215] fix: contact planes almost perpendicular to z axis

---
 sfepy/mechanics/contact_bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/mechanics/contact_bodies.py b/sfepy/mechanics/contact_bodies.py
index f58fd24..db70ce0 100644
--- a/sfepy/mechanics/contact_bodies.py
+++ b/sfepy/mechanics/contact_bodies.py
@@ -16,7 +16,8 @@ class ContactPlane(Struct):
 
         e3 = [0.0, 0.0, 1.0]
         dd = nm.dot(e3, self.normal)
-        rot_angle = nm.arccos(dd)
+        # Unlike arccos(), this is accurate for angles close to zero or pi.
+        rot_angle = nm.arctan2(norm(self.normal[:2]), dd)
 
         if nm.abs(rot_angle) < eps:
             mtx = nm.eye(3, dtype=nm.float64)
-- 
2.43.0


From 40123e0d05f3a6b508812b28e5369828f2db266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 130/215] fix: get_coors_in_ball() outside of spherical shell

---
 sfepy/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index 55c4e63..befdbe0 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -468,6 +468,6 @@ def get_coors_in_ball(coors, centre, radius, radius2=None, inside=True):
             out = nm.where((nvec <= radius) & (nvec >= radius2))[0]
 
         else:
-            out = nm.where((nvec >= radius) & (nvec <= radius2))[0]
+            out = nm.where((nvec >= radius) | (nvec <= radius2))[0]
 
     return out
-- 
2.43.0


From f86941a4df6dcb7cccbeb16bc00066cc3091f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 131/215] fix: get_coors_in_tube() outside of radii

---
 sfepy/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index befdbe0..fb80ae3 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -431,7 +431,7 @@ def get_coors_in_tube(coors, centre, axis, radius_in, radius_out, length,
 
     else:
         out = nm.where((dl >= -l2) & (dl <= l2) &
-                       (dr <= radius_in) & (dr >= radius_out))[0]
+                       ((dr <= radius_in) | (dr >= radius_out)))[0]
 
     return out
 
-- 
2.43.0


From f4635ec6c1568de8dd1b53a78ee2828af723edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 132/215] fix: get_coors_in_tube() with axis vectors of
 non-unit length

---
 sfepy/linalg/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index fb80ae3..154b742 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -416,6 +416,7 @@ def get_coors_in_tube(coors, centre, axis, radius_in, radius_out, length,
     """
     coors = nm.asarray(coors)
     centre = nm.asarray(centre)
+    axis = nm.asarray(axis) / nla.norm(axis)
 
     vec = coors - centre[None, :]
 
-- 
2.43.0


From d32a0aa61666a86646b2f522ee59f3bd057d1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 133/215] fix: dielectric tensor of piezoelectric plane stress
 problems

---
 sfepy/mechanics/matcoefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index 115b40d..f16095e 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -447,7 +447,7 @@ class TransformToPlane(Struct):
             c2 = c3[tuple(mg(self.i_ms, self.i_ms))] \
                  - nm.dot(Feps.T, nm.dot(Ainv, Feps))
             d2 = d3[tuple(mg(self.i_m, self.i_m))] \
-                 - nm.dot(FE.T, nm.dot(Ainv, FE))
+                 + nm.dot(FE.T, nm.dot(Ainv, FE))
             b2 = b3[tuple(mg(self.i_m, self.i_ms))].T \
                  - nm.dot(FE.T, nm.dot(Ainv, Feps))
 
-- 
2.43.0


From eaefbeb88b4291da769cbb95ef34df7f861f00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 134/215] fix: check for incomplete block sizes in
 compose_sparse()

---
 sfepy/linalg/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 5da7fa6..889de36 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -161,10 +161,10 @@ def compose_sparse(blocks, row_sizes=None, col_sizes=None):
                       % (ic, ic)
                 raise ValueError(msg)
 
-    if nm.any(rs == -1):
+    if -1 in rs:
         raise ValueError('incomplete row block sizes! (%s)' % row_sizes)
 
-    if nm.any(cs == -1):
+    if -1 in cs:
         raise ValueError('incomplete column block sizes! (%s)' % col_sizes)
 
     if is_slice_r:
-- 
2.43.0


From a1f1419319a5361a034bc86477ae25e462ef09b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 135/215] fix: saving of CSC matrices as text

---
 sfepy/linalg/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 889de36..72fb2a2 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -19,8 +19,8 @@ def save_sparse_txt(filename, mtx, fmt='%d %d %f\n'):
 
     elif mtx.format == 'csc':
         indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
-        for ic in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
+        for ic in range(mtx.shape[1]):
+            for ii in range(indptr[ic], indptr[ic+1]):
                 fd.write(fmt % (indices[ii], ic, data[ii]))
 
     else:
-- 
2.43.0


From 357167e11ca0bbc370e9b44dbad2068f5ff6e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 136/215] fix: Unit.get_prefix() with given omitted prefixes

---
 sfepy/mechanics/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/units.py b/sfepy/mechanics/units.py
index c722862..3595128 100644
--- a/sfepy/mechanics/units.py
+++ b/sfepy/mechanics/units.py
@@ -105,7 +105,7 @@ class Unit(Struct):
         if omit is None:
             omit = num_prefixes
 
-        values = [val for key, val in prefixes.items() if key not in omit]
+        values = [val for val, key in inv_prefixes.items() if key not in omit]
         coefs = nm.array(values, dtype=nm.float64)
         coefs.sort()
         ii = nm.searchsorted(coefs, bias*coef, side='left')
-- 
2.43.0


From 2d2c02acd9d8a35146414ce43e25dd880df36c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 137/215] fix: local bases of shell10x cells perpendicular to y
 axis

---
 sfepy/mechanics/shell10x.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/mechanics/shell10x.py b/sfepy/mechanics/shell10x.py
index f6f9a34..346094f 100644
--- a/sfepy/mechanics/shell10x.py
+++ b/sfepy/mechanics/shell10x.py
@@ -114,7 +114,11 @@ def create_local_bases(coors):
     ebs[:, 3, 1, :] = coors[:, 3, :] - coors[:, 0, :]
     ebs[:, 3, 2, :] = nm.cross(ebs[:, 3, 0, :], ebs[:, 3, 1, :])
 
-    e2 = nm.array([0, 1, 0], dtype=nm.float64)
+    # Avoid a zero cross product in cells with a normal parallel to e2.
+    normals = ebs[:, :, 2, :]
+    normals = normals / nm.linalg.norm(normals, axis=2)[..., None]
+    is_e2 = (nm.abs(normals[..., 1]) < (1.0 - 1e-10)).all(axis=1)
+    e2 = nm.where(is_e2[:, None], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0])
     for ii in range(4):
         ebs[:, ii, 0, :] = nm.cross(e2, ebs[:, ii, 2, :])
         ebs[:, ii, 1, :] = nm.cross(ebs[:, ii, 2, :], ebs[:, ii, 0, :])
-- 
2.43.0


From 1fcb53fa9e0c5d25d3cfd13d38252fc7f37bfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 138/215] fix: selection by magnitude in dense symmetric
 problems of eig.scipy

---
 sfepy/solvers/eigen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index d58589f..0c3a599 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -151,6 +151,8 @@ class ScipyEigenvalueSolver(EigenvalueSolver):
             ii = nm.argsort(eigs)
 
         if n_eigs is not None and (conf.method in ('eig', 'eigh')):
+            # The eigenvalues are selected by magnitude.
+            ii = nm.argsort(nm.abs(eigs))
             if conf.which == 'SM':
                 ii = ii[:n_eigs]
 
-- 
2.43.0


From 21b32c7c1ebea2ab89db843c3c12f376d76c9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 139/215] fix: eig.sgscipy with real and complex matrices

---
 sfepy/solvers/eigen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index 0c3a599..82e721d 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -199,11 +199,12 @@ class ScipySGEigenvalueSolver(EigenvalueSolver):
         ll = self.llapack
 
         mtx_a, mtx_b = self._to_array(mtx_a, mtx_b)
-        if nm.iscomplexobj(mtx_a):
+        if (nm.iscomplexobj(mtx_a)
+            or ((mtx_b is not None) and nm.iscomplexobj(mtx_b))):
             if mtx_b is None:
                 fun = ll.get_lapack_funcs(['heev'], arrays=(mtx_a,))[0]
             else:
-                fun = ll.get_lapack_funcs(['hegv'], arrays=(mtx_a,))[0]
+                fun = ll.get_lapack_funcs(['hegv'], arrays=(mtx_a, mtx_b))[0]
         else:
             if mtx_b is None:
                 fun = ll.get_lapack_funcs(['syev'], arrays=(mtx_a,))[0]
-- 
2.43.0


From 9e3faed81dfffaa640dd0de42597b9c1290bfbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 140/215] fix: unnoticed failures of eig.sgscipy

---
 sfepy/solvers/eigen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index 82e721d..bc8c5ed 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -216,6 +216,10 @@ class ScipySGEigenvalueSolver(EigenvalueSolver):
         else:
             out = fun(mtx_a, mtx_b)
 
+        if out[-1] != 0:
+            raise ValueError('eigenvalue problem could not be solved! (info: %d)'
+                             % out[-1])
+
         # Fix output order of scipy.linalg.lapack functions.
         if out[0].ndim == 2:
             out = (out[1], out[0]) + out[2:]
-- 
2.43.0


From 7b634ff5fcad79e92e8e1d1741c554e8d06b59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 141/215] fix: shifted inverse operators given by linear
 solvers in eig.scipy

---
 sfepy/solvers/eigen.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index bc8c5ed..4a6ca2e 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -126,8 +126,18 @@ class ScipyEigenvalueSolver(EigenvalueSolver):
                 solver_name, solver_conf = conf.linear_solver
                 ls_conf = Struct(use_presolve=True, **solver_conf)
                 ls = ls_solvers[solver_name](ls_conf)
-                ls.mtx = mtx_a
-                ls.presolve(mtx_a)
+                sigma = kwargs.get('sigma', None)
+                if sigma: # OPinv has to be the inverse of A - sigma M.
+                    mtx_m = (mtx_b if mtx_b is not None
+                             else sps.eye_array(mtx_a.shape[0],
+                                                dtype=mtx_a.dtype))
+                    mtx_op = sps.csr_array(mtx_a - sigma * mtx_m)
+
+                else:
+                    mtx_op = mtx_a
+
+                ls.mtx = mtx_op
+                ls.presolve(mtx_op)
                 matvec = ls.__call__
 
                 inv_op_a = self.ssla.LinearOperator(mtx_a.shape, matvec=matvec)
-- 
2.43.0


From 58becb932beb4f72d6dd4ea000fe3bf7fb51a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 142/215] fix: selection of too many eigenvalues of tridiagonal
 matrices

---
 sfepy/linalg/eigen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/eigen.py b/sfepy/linalg/eigen.py
index 7c9fa4e..dd211c7 100644
--- a/sfepy/linalg/eigen.py
+++ b/sfepy/linalg/eigen.py
@@ -13,7 +13,7 @@ def sym_tri_eigen(diags, select_indices=None):
     """
     if select_indices is not None:
         n = diags.shape[1]
-        select_indices = nm.minimum(select_indices, n)
+        select_indices = nm.minimum(select_indices, n - 1)
         eigs = eigvals_banded(diags, lower=True, select='i',
                               select_range=select_indices)
 
-- 
2.43.0


From 830eb265b3472310c0d3fd246e968f4fb55ae411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 143/215] fix: complex matrices with linear solvers in
 eig.scipy

---
 sfepy/solvers/eigen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/eigen.py b/sfepy/solvers/eigen.py
index 4a6ca2e..a067b52 100644
--- a/sfepy/solvers/eigen.py
+++ b/sfepy/solvers/eigen.py
@@ -122,7 +122,8 @@ class ScipyEigenvalueSolver(EigenvalueSolver):
                     if nm.any(aux):
                         ls_solvers[k] = v
 
-                fake_mtx_a = sps.csc_array(mtx_a.shape)
+                fake_mtx_a = sps.csc_array(mtx_a.shape,
+                                           dtype=mtx_a.dtype)
                 solver_name, solver_conf = conf.linear_solver
                 ls_conf = Struct(use_presolve=True, **solver_conf)
                 ls = ls_solvers[solver_name](ls_conf)
-- 
2.43.0


From 0dcc357c543db110fb796125bd74f1a8fa7a55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 144/215] fix: status of EVPSolverApp with eigs_only or
 essential boundary conditions

---
 sfepy/applications/evp_solver_app.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sfepy/applications/evp_solver_app.py b/sfepy/applications/evp_solver_app.py
index ef4d371..fe9c916 100644
--- a/sfepy/applications/evp_solver_app.py
+++ b/sfepy/applications/evp_solver_app.py
@@ -61,8 +61,7 @@ class EVPSolverApp(PDESolverApp):
 
         evp = self.solve_eigen_problem()
         if status is not None:
-            n_eigs = get_default(self.app_options.n_eigs, evp.vecs.shape[0])
-            status.nls_status = Struct(conditions=n_eigs - len(evp.eigs))
+            status.nls_status = Struct(conditions=evp.n_eigs - len(evp.eigs))
 
         if self.post_process_hook_final is not None: # User postprocessing.
             self.post_process_hook_final(self.problem, evp=evp)
@@ -108,7 +107,7 @@ class EVPSolverApp(PDESolverApp):
         vecs = self.make_full(svecs)
         self.save_results(eigs, vecs)
 
-        return Struct(pb=pb, eigs=eigs, vecs=vecs)
+        return Struct(pb=pb, eigs=eigs, vecs=vecs, n_eigs=_n_eigs)
 
     def make_full(self, svecs):
         if svecs is None: return None
-- 
2.43.0


From f7061a0e9def8c751cfb306525a06043e055a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 145/215] fix: merging of more than two coinciding nodes in
 fix_double_nodes()

---
 sfepy/discrete/fem/mesh.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 3e11658..0acde1e 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -1,5 +1,6 @@
 import numpy as nm
 import scipy.sparse as sp
+from scipy.sparse.csgraph import connected_components
 
 from sfepy.base.base import Struct, invert_dict, get_default, output,\
      assert_, is_sequence
@@ -89,16 +90,16 @@ def fix_double_nodes(coor, ngroups, conns):
         output('trying to fix...')
 
         while cmap.size:
-            # Just like in Variable.equation_mapping()...
-            ii = nm.argsort(cmap[:,1])
-            scmap = cmap[ii]
-
-            eq = nm.arange(n_nod)
-            eq[scmap[:,1]] = -1
-            eqi = eq[eq >= 0]
-            eq[eqi] = nm.arange(eqi.shape[0])
-            remap = eq.copy()
-            remap[scmap[:,1]] = eq[scmap[:,0]]
+            # Each group of coinciding nodes is replaced by its first node.
+            n_nod = coor.shape[0]
+            graph = sp.coo_array((nm.ones(cmap.shape[0]),
+                                  (cmap[:,0], cmap[:,1] % n_nod)),
+                                 shape=(n_nod, n_nod))
+            _, labels = connected_components(graph, directed=False)
+            _, first, ic = nm.unique(labels, return_index=True,
+                                     return_inverse=True)
+            eqi = nm.sort(first)
+            remap = nm.searchsorted(eqi, first[ic])
             output(coor.shape)
             coor = coor[eqi]
             ngroups = ngroups[eqi]
-- 
2.43.0


From d068c07de87b35dd46088f36ea080b04f0d901fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 146/215] fix: conforming tetrahedra and cell groups of mixed
 meshes in extrude()

---
 sfepy/mesh/mesh_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 2c1ef9f..cabff48 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -678,6 +678,12 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
 
         for desc in mesh.descs:
             conns, cidxs = mesh.get_conn(desc, ret_cells=True)
+            if (conns.shape[1] == 3) and wedge_to_tetra:
+                # Sort vertices so that neighbouring wedges are split in the
+                # same way, odd permutations change the cell orientation.
+                order = nm.argsort(conns, axis=1)
+                odd = (order[:, 1] - order[:, 0]) % 3 != 1
+                conns = nm.take_along_axis(conns, order, axis=1)
             econns = nm.hstack([conns + nnd * k, conns + nnd * (k + 1)])
             emat_ids = mat_ids[cidxs]
             if econns.shape[1] == 6:
@@ -687,8 +693,10 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
                     econns1[0::3] = econns[:, [0, 1, 2, 5]]
                     econns1[1::3] = econns[:, [0, 1, 5, 4]]
                     econns1[2::3] = econns[:, [0, 4, 5, 3]]
+                    iodd = nm.repeat(odd, 3)
+                    econns1[iodd, :2] = econns1[iodd, 1::-1]
                     econns = econns1
-                    emat_ids = nm.repeat(mat_ids, 3)
+                    emat_ids = nm.repeat(emat_ids, 3)
 
             new_conns.append(econns)
             new_mat_ids.append(emat_ids)
-- 
2.43.0


From 69d890d40f976d9372527defbbba665d139163b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 147/215] fix: wedges in mirror()

---
 sfepy/mesh/mesh_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index cabff48..a32ed69 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -853,6 +853,7 @@ def mirror(mesh, p, v):
         '2_3': nm.array([1, 0, 2]),
         '2_4': nm.array([1, 0, 3, 2]),
         '3_4': nm.array([1, 0, 2, 3]),
+        '3_6': nm.array([1, 0, 2, 4, 3, 5]),
         '3_8': nm.array([1, 0, 3, 2, 5, 4, 7, 6]),
     }
     coors = mesh.coors
-- 
2.43.0


From 4395d1d397c95c7815046999ff86433fee269e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 148/215] fix: get_cell_vertices_only() for meshes with several
 kinds of cells

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index a32ed69..230203c 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -449,7 +449,7 @@ def get_cell_vertices_only(mesh):
         FE mesh
     """
     data = list(mesh._get_io_data())
-    vertices = nm.unique([nm.unique(conn.ravel()) for conn in data[2]])
+    vertices = nm.unique(nm.concatenate([conn.ravel() for conn in data[2]]))
 
     remap = prepare_translate(vertices, nm.arange(len(vertices)))
 
-- 
2.43.0


From cc36acffd6a71ab4430e23ca893d97a206aaeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 149/215] fix: volume correction in smooth_mesh()

---
 sfepy/mesh/mesh_tools.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 230203c..01db4ae 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -130,16 +130,25 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
 
         return coors
 
-    def get_volume(el, nd):
+    def get_volume(conns, nd):
         from sfepy.linalg.utils import dets_fast
 
         dim = nd.shape[1]
-        nnd = el.shape[1]
 
-        etype = '%d_%d' % (dim, nnd)
-        if etype == '2_4' or etype == '3_8':
-            el = elems_q2t(el)
+        els = []
+        for el in conns:
+            etype = '%d_%d' % (dim, el.shape[1])
+            if etype == '2_4' or etype == '3_8':
+                el = elems_q2t(el)
 
+            elif etype == '3_6':
+                el = el[:, [[0, 1, 2, 5],
+                            [0, 1, 5, 4],
+                            [0, 4, 5, 3]]].reshape((-1, 4))
+
+            els.append(el)
+
+        el = nm.vstack(els)
         nel = el.shape[0]
 
         #bc = nm.zeros((dim, ), dtype=nm.double)
@@ -151,7 +160,7 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
         mtx[:,:,:-1] = nd[el,:]
         vols = mul * dets_fast(mtx)
         vol = vols.sum()
-        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / nnd)
+        bc = nm.dot(vols, mtx.sum(1)[:,:-1] / (dim + 1))
 
         bc /= vol
 
@@ -208,10 +217,11 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
     if volume_corr:
         output('rescaling...')
         timer.start()
-        volume0, bc = get_volume(mesh.conns[0], mesh.coors)
-        volume, _ = get_volume(mesh.conns[0], coors)
+        conns = [mesh.get_conn(desc) for desc in mesh.descs]
+        volume0, bc = get_volume(conns, mesh.coors)
+        volume, _ = get_volume(conns, coors)
 
-        scale = volume0 / volume
+        scale = (volume0 / volume)**(1.0 / mesh.dim)
         output('scale factor: %.2f' % scale)
 
         coors = (coors - bc) * scale + bc
-- 
2.43.0


From 9918f5c8165e9321790eee32b85afd8f96cbc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 150/215] fix: gen_mesh_from_voxels() with different numbers of
 voxels in x and y

---
 sfepy/mesh/mesh_generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..de006d1 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -757,6 +757,8 @@ def gen_mesh_from_voxels(voxels, dims, etype='q'):
     dims = nm.array(dims).squeeze()
     dim = len(dims)
     nddims = nm.array(voxels.shape) + 2
+    # The first two axes of voxels are y, x.
+    nddims[[0, 1]] = nddims[[1, 0]]
 
     nodemtx = nm.zeros(nddims, dtype=nm.int32)
 
-- 
2.43.0


From cd2b2d05f63b97188b0b3a062b4faf1d9efad866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 151/215] fix: uniform refinement of 1D meshes with a general
 order of cells

---
 sfepy/discrete/fem/refine.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sfepy/discrete/fem/refine.py b/sfepy/discrete/fem/refine.py
index 1053ec7..97e6c9a 100644
--- a/sfepy/discrete/fem/refine.py
+++ b/sfepy/discrete/fem/refine.py
@@ -16,13 +16,18 @@ def refine_1_2(mesh_in):
 
     cmesh = mesh_in.cmesh
     c_centres = cmesh.get_centroids(cmesh.tdim)
-    new_coors = nm.zeros((2*mesh_in.n_nod - 1, 1))
-    new_coors[0::2] = mesh_in.coors
-    new_coors[1::2] = c_centres
-
-    n_nod = len(new_coors)
-
-    new_conn = nm.arange(n_nod, dtype=nm.uint32).repeat(2)[1:-1].reshape((-1, 2))
+    conn = mesh_in.get_conn('1_2')
+    n_nod, n_el = mesh_in.n_nod, mesh_in.n_el
+
+    # Keep the coordinates sorted.
+    new_coors = nm.r_[mesh_in.coors, c_centres]
+    order = nm.argsort(new_coors[:, 0], kind='stable')
+    new_coors = new_coors[order]
+
+    remap = nm.empty(n_nod + n_el, dtype=nm.uint32)
+    remap[order] = nm.arange(n_nod + n_el)
+    ic = nm.arange(n_nod, n_nod + n_el)
+    new_conn = remap[nm.c_[conn[:, 0], ic, ic, conn[:, 1]]].reshape((-1, 2))
 
     new_mat_id = cmesh.cell_groups.repeat(2)
 
-- 
2.43.0


From 7deafe221d30b1e9aa62759f99ddebd5b191b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 152/215] fix: refine() of refine_hanging with no cells to
 refine

---
 sfepy/discrete/fem/refine_hanging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 3106b19..8a6d4a1 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -285,7 +285,12 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
     facets, cells, oe, region0, region1 = find_level_interface(domain0, refine)
 
     if region1 is None:
-        return domain0, None
+        out = (domain0, subs)
+        if ret_sub_cells:
+            n_sub = 4 if desc == '2_4' else 8
+            out += (nm.empty((0, n_sub + 1), dtype=nm.uint32),)
+
+        return out
 
     domain, sub_cells = refine_region(domain0, region0, region1)
 
-- 
2.43.0


From 5cf621ab1495e2dccab95444b9c6720efa6325a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 153/215] fix: extraction by material id in convert_mesh.py

---
 sfepy/scripts/convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/scripts/convert_mesh.py b/sfepy/scripts/convert_mesh.py
index 2402d4e..583849c 100644
--- a/sfepy/scripts/convert_mesh.py
+++ b/sfepy/scripts/convert_mesh.py
@@ -396,7 +396,7 @@ def main():
         if isinstance(cgroup, str):
             cgroup = literal_eval(cgroup)
 
-        mesh = mt.get_mesh_by(mesh, cgroup)
+        mesh = mt.get_mesh_by_cgroup(mesh, cgroup)
 
     if options.extract_by_nodegroup is not None:
         ngroup = options.extract_by_nodegroup
-- 
2.43.0


From 8808d1536c452b49fb1a4dbd4f7204023137e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:33 +0000
Subject: [PATCH 154/215] fix: merging of vertices in convert_mesh.py

---
 sfepy/scripts/convert_mesh.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sfepy/scripts/convert_mesh.py b/sfepy/scripts/convert_mesh.py
index 583849c..2352316 100644
--- a/sfepy/scripts/convert_mesh.py
+++ b/sfepy/scripts/convert_mesh.py
@@ -341,13 +341,10 @@ def main():
         mesh = mt.triangulate(mesh, verbose=True)
 
     if options.merge:
-        desc = mesh.descs[0]
-        coor, ngroups, conns = fix_double_nodes(mesh.coors,
-                                                mesh.cmesh.vertex_groups,
-                                                mesh.get_conn(desc))
+        coor, ngroups, conns, mat_ids, descs = mesh._get_io_data()
+        coor, ngroups, conns = fix_double_nodes(coor, ngroups, conns)
         mesh = Mesh.from_data(mesh.name + '_merged',
-                              coor, ngroups,
-                              [conns], [mesh.cmesh.cell_groups], [desc])
+                              coor, ngroups, conns, mat_ids, descs)
 
     if options.cell_vertices_only:
         mesh = mt.get_cell_vertices_only(mesh)
-- 
2.43.0


From 901f9efa2a5d785825cbebcecc635c962f5e2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 155/215] fix: general axes of rotation in revolve()

---
 sfepy/mesh/mesh_tools.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 01db4ae..abb8583 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -584,7 +584,7 @@ def stack_descs(conns, mat_ids, descs):
 
 
 def extrude(mesh, cline, twist=None, scale=None, nvec=None,
-            wedge_to_tetra=True):
+            wedge_to_tetra=True, rotations=None):
     """
     Create a solid 3D mesh from a given planar 2D mesh by extruding it.
     The new points in each layer lie in a plane perpendicular to one of the
@@ -604,6 +604,9 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
         Normal vectors of layers.
     wedge_to_tetra: bool
         If True, convert wedge elements to tetrahedrons.
+    rotations: list of Rotation
+        Rotations of layers. If not given, the shortest rotations of the z axis
+        to `nvec` are used.
 
     Returns
     -------
@@ -674,7 +677,10 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
     new_vgroups = nm.hstack([mesh.cmesh.vertex_groups] * len(cline))
 
     for k in range(len(cline) - 1):
-        rotation = get_rotation(nvec0, nvec[k])
+        if rotations is None:
+            rotation = get_rotation(nvec0, nvec[k])
+        else:
+            rotation = rotations[k]
         coors = rotation.apply(coors0)
 
         if twist is not None:
@@ -818,21 +824,18 @@ def revolve(mesh, nphi, p, v=(1, 0, 0), phi_max=None, wedge_to_tetra=True):
         phi = nm.linspace(0, nm.deg2rad(phi_max), nphi + 1)
 
     p = nm.array(p)[None, :]
-    v = nm.array(v)
+    v = nm.array(v) / nm.linalg.norm(v)
 
     coors = mesh.coors
     ccoor = nm.mean(coors, axis=0)
     if coors.shape[1] == 2:
         ccoor = nm.array([ccoor[0], ccoor[1], 0])
 
-    cline = nm.vstack([Rotation.from_rotvec(v * ph).apply(ccoor - p)
-                       for ph in phi]) + p
- 
-    nvec0 = nm.array([0, 0, 1])
-    nvec = nm.vstack([Rotation.from_rotvec(v * ph).apply(nvec0)
-                      for ph in phi[1:]])
+    rotations = [Rotation.from_rotvec(v * ph) for ph in phi]
+    cline = nm.vstack([rot.apply(ccoor - p) for rot in rotations]) + p
 
-    out = extrude(mesh, cline, nvec=nvec, wedge_to_tetra=wedge_to_tetra)
+    out = extrude(mesh, cline, wedge_to_tetra=wedge_to_tetra,
+                  rotations=rotations[1:])
 
     if phi_max == 360:
         out = merge_nodes(out)
-- 
2.43.0


From e95e1cbc28feb0c4e7f1f6f2cd202dfd2257f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 156/215] fix: gen_extended_block_mesh() with a single layer of
 extending cells

---
 sfepy/mesh/mesh_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index de006d1..cb3e436 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -393,7 +393,8 @@ def gen_extended_block_mesh(b_dims, b_shape, e_dims, e_shape, centre,
     # The "first x" going to grading_fun.
     nc = 1.0 / (e_shape - 1)
     # Grading power and function.
-    power = nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
+    power = (nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
+             if e_shape > 2 else 1.0)
     grading_fun = (lambda x: x**power) if grading_fun is None else grading_fun
 
     # Central block mesh.
-- 
2.43.0


From a3b9e59c28ff7bc9edfa2e8a41bcf272c5e154b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:03 +0000
Subject: [PATCH 157/215] fix: check vertices of cells in CMesh.from_data()

---
 sfepy/discrete/common/extmods/cmesh.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index 3e8ec73..b9de8d3 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -118,6 +118,10 @@ cdef class CMesh:
             indices.append(conn.ravel())
 
             if descs[ig] in self.key_to_index:
+                if n_ep != int(descs[ig].split('_')[1]):
+                    raise ValueError('%s cells cannot have %d vertices!'
+                                     % (descs[ig], n_ep))
+
                 self.cell_types[ict:ict+n_el] = self.key_to_index[descs[ig]]
 
             else:
@@ -128,6 +132,12 @@ cdef class CMesh:
         indices = np.concatenate(indices)
         offsets = np.concatenate(offsets)
 
+        if n_incident and ((indices.min() < 0)
+                           or (indices.max() >= self.n_coor)):
+            raise ValueError('vertex indices of cells out of range!'
+                             ' (%d, %d not in [0, %d))'
+                             % (indices.min(), indices.max(), self.n_coor))
+
         cconn.indices[:] = indices
         cconn.offsets[0] = 0
         cconn.offsets[1:] = np.cumsum(offsets)
-- 
2.43.0


From 75a271c8aff48458877572fdc89be7ef4d08f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 158/215] fix: check entity indices and dimensions in CMesh
 methods

---
 sfepy/discrete/common/extmods/cmesh.pyx | 50 ++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index b9de8d3..f7a08bf 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -236,6 +236,8 @@ cdef class CMesh:
                 raise ValueError('dimension of entities must be >= 1! (%d)'
                                  % dent)
 
+            self._check_entities(entities, dent, 0)
+
             cmesh = CMesh()
 
             cmesh.dim = self.dim
@@ -481,7 +483,12 @@ cdef class CMesh:
             self.free_connectivity(d2, 0)
 
     def _get_conn_indx(self, d1, d2):
-        return (self.mesh.topology.max_dim + 1) * d1 + d2
+        max_dim = self.mesh.topology.max_dim
+        if not ((0 <= d1 <= max_dim) and (0 <= d2 <= max_dim)):
+            raise ValueError('entity dimensions %d, %d not in [0, %d]!'
+                             % (d1, d2, max_dim))
+
+        return (max_dim + 1) * d1 + d2
 
     def get_conn(self, d1, d2):
         ii = self._get_conn_indx(d1, d2)
@@ -529,6 +536,24 @@ cdef class CMesh:
 
         return ii.astype(np.uint32)
 
+    def _check_entities(self, uint32[::1] entities not None, int32 dent,
+                        int32 dim):
+        """
+        Check that the dimensions and the entity indices are valid.
+        """
+        cdef uint32 ii, num
+        cdef int32 max_dim = self.mesh.topology.max_dim
+
+        if not ((0 <= dent <= max_dim) and (0 <= dim <= max_dim)):
+            raise ValueError('entity dimensions %d, %d not in [0, %d]!'
+                             % (dent, dim, max_dim))
+
+        num = self.mesh.topology.num[dent]
+        for ii in range(<uint32>entities.shape[0]):
+            if entities[ii] >= num:
+                raise ValueError('entity index %d of dimension %d not in'
+                                 ' [0, %d)!' % (entities[ii], dent, num))
+
     def get_incident(self, int32 dim,
                      uint32[::1] entities not None,
                      int32 dent, ret_offsets=False):
@@ -552,6 +577,8 @@ cdef class CMesh:
             else:
                 return empty
 
+        self._check_entities(entities, dent, dim)
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -597,6 +624,13 @@ cdef class CMesh:
         if not ((entities.shape[0] > 0) and (incident.shape[0] > 0)):
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(entities, dent, dim)
+        self._check_entities(incident, dim, dent)
+        if ((offsets.shape[0] != (entities.shape[0] + 1))
+            or (np.diff(np.asarray(offsets, dtype=np.int64)) < 0).any()
+            or (offsets[entities.shape[0]] > incident.shape[0])):
+            raise ValueError('offsets do not correspond to entities!')
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -628,6 +662,8 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(entities, dent, dim)
+
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -676,6 +712,12 @@ cdef class CMesh:
         if dim == 0:
             return self.coors
 
+        elif not (0 < dim <= self.mesh.topology.max_dim):
+            raise ValueError('wrong entity dimension! (%d)' % dim)
+
+        elif self.get_conn(dim, 0) is None:
+            raise ValueError('no connectivity %d -> 0!' % dim)
+
         else:
             out = np.empty((self.mesh.topology.num[dim], self.dim),
                            dtype=np.float64)
@@ -692,6 +734,12 @@ cdef class CMesh:
         if dim == 0:
             raise ValueError('vertices have no volume!')
 
+        elif not (0 < dim <= self.mesh.topology.max_dim):
+            raise ValueError('wrong entity dimension! (%d)' % dim)
+
+        elif self.get_conn(dim, 0) is None:
+            raise ValueError('no connectivity %d -> 0!' % dim)
+
         else:
             out = np.empty((self.mesh.topology.num[dim],),
                            dtype=np.float64)
-- 
2.43.0


From 8325032e36b22bf4899cca064c075d0d7052f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 159/215] fix: evaluation of variables in too distant points

---
 sfepy/discrete/common/global_interp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/global_interp.py b/sfepy/discrete/common/global_interp.py
index ec2e133..416d788 100644
--- a/sfepy/discrete/common/global_interp.py
+++ b/sfepy/discrete/common/global_interp.py
@@ -104,6 +104,8 @@ def get_ref_coors_convex(field, coors, close_limit=0.1, cache=None,
         output('kdtree query: %f s' % timer.stop(), verbose=verbose)
 
         ics = nm.asarray(ics, dtype=nm.int32)
+        # The distance overflows for too distant points.
+        ics = nm.minimum(ics, cmesh.n_coor - 1)
 
         ctx = field.create_basis_context()
 
@@ -177,6 +179,8 @@ def get_potential_cells(coors, cmesh, centroids=None, extrapolate=True):
         if len(iin):
             kdtree = KDTree(cmesh.coors)
             ics = kdtree.query(coors[iin])[1]
+            # The distance overflows for too distant points.
+            ics = nm.minimum(ics, cmesh.n_coor - 1)
             cmesh.setup_connectivity(0, cmesh.tdim)
             conn = cmesh.get_conn(0, cmesh.tdim)
 
-- 
2.43.0


From f6fc2b392ae1048b60da19ddf1e6edca411d216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 160/215] fix: check number of source values in
 Field.evaluate_at()

---
 sfepy/discrete/common/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index 701601f..933d82f 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -418,6 +418,10 @@ class Field(Struct):
 
         timer = Timer(start=True)
 
+        if source_vals.shape[0] != self.n_nod:
+            raise ValueError('%d source values for %d nodes of field %s!'
+                             % (source_vals.shape[0], self.n_nod, self.name))
+
         n_comp, nc, dim = source_vals.shape[1], coors.shape[0], coors.shape[1]
         # Interpolate to the reference coordinates.
         source_dtype = nm.float64 if source_vals.dtype in complex_types\
-- 
2.43.0


From 4e01dfdc39ad95fa6a4e146319255e7a81548d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 161/215] fix: setting history data of variables with history
 longer than one step

---
 sfepy/discrete/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 0e7f7c2..98ee5e3 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1309,7 +1309,7 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
+            self.data[-step] = data
             self.indx = indx
 
         if not preserve_caches:
-- 
2.43.0


From dd343856336e27057c150eb5274c35dcf9846fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 162/215] fix: evaluate caches of variables with history

---
 sfepy/discrete/variables.py | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 98ee5e3..60daa2d 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1219,7 +1219,7 @@ class Variable(Struct):
         """
         if self.history is None: return
 
-        self.step = ts.step + 1
+        first, self.step = (self.step == 0), ts.step + 1
 
         if self.history > 0:
             # Copy the current step data to the history data, shift history,
@@ -1234,20 +1234,21 @@ class Variable(Struct):
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
-                for step in steps:
-                    if step is None:
-                        # Special caches with possible custom advance()
-                        # function.
-                        for key, val in step_cache[step].items():
-                            if hasattr(val, '__advance__'):
-                                val.__advance__(ts, val)
+                if None in step_cache:
+                    # Special caches with possible custom advance()
+                    # function.
+                    for key, val in step_cache[None].items():
+                        if hasattr(val, '__advance__'):
+                            val.__advance__(ts, val)
 
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                else:
+                    # In the first step, the previous step data are replaced
+                    # by the current ones.
+                    new_cache = {step - 1 : val
+                                 for step, val in step_cache.items()
+                                 if (not first) and (-step < self.history)}
+                    step_cache.clear()
+                    step_cache.update(new_cache)
 
     def init_data(self, step=0):
         """
@@ -1667,9 +1668,15 @@ class FieldVariable(Variable):
         This should be done, for example, prior to every nonlinear
         solver iteration.
         """
+        # Time derivatives depend also on the data of the previous step.
+        steps = [step, step + 1]
+        if (step == 0) and (self.step == 0):
+            # See Variable.__call__().
+            steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
             for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
+                if key in steps: # Given time step to clear.
                     step_cache.pop(key)
 
     def evaluate(self, mode='val',
@@ -1747,6 +1754,8 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            key += (get_default(dt, self.dt),)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
-- 
2.43.0


From 0812d2cbec3f3d873e5912bb6f2ef613e8410856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 163/215] fix: evaluation of variables after a change of
 coordinates

---
 sfepy/discrete/variables.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 60daa2d..bdc9529 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1760,10 +1760,9 @@ class FieldVariable(Variable):
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
 
-        if key in cache:
-            out = cache[key]
-
-        else:
+        # The mapping is a new object after a change of the coordinates.
+        cgeo, out = cache.get(key, (None, None))
+        if (cgeo is not geo) or (bf is not None):
             vec = self(step=step, derivative=time_derivative, dt=dt)
             conn = field.get_econn(dct, region, trace_region)
 
@@ -1775,7 +1774,8 @@ class FieldVariable(Variable):
             else:
                 out = eval_complex(vec, conn, geo, mode, shape, bf)
 
-            cache[key] = out
+            if bf is None:
+                cache[key] = (geo, out)
 
         return out
 
-- 
2.43.0


From 172475993155e710b95bce154832d95a304a7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 164/215] fix: history and time steps of variables in
 multi-linear terms

---
 sfepy/terms/terms_multilinear.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index e54dad6..7e768f1 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -214,12 +214,14 @@ class ExpressionArg(Struct):
     def get_dofs(self, cache, expr_cache, oname):
         if self.kind != 'state': return
 
-        key = (self.name, self.term.region.name,
-               self.term.arg_derivatives[self.name])
+        step = self.term.arg_steps[self.name]
+        derivative = self.term.arg_derivatives[self.name]
+        key = (self.name, self.term.region.name, derivative,
+               self.arg.dt if derivative is not None else None)
         dofs = cache.get(key)
         if dofs is None:
             arg = self.arg
-            dofs_vec = self.arg(derivative=key[-1])
+            dofs_vec = self.arg(step=step, derivative=derivative)
             dofs_vec = dofs_vec.reshape((-1, arg.n_components))
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
-- 
2.43.0


From 0b8d062b34f4c40b0a7e46ca4782f1b33b48f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:37 +0000
Subject: [PATCH 165/215] fix: check numbers of values of material parameter
 functions

---
 sfepy/discrete/common/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/mappings.py b/sfepy/discrete/common/mappings.py
index 6659ff0..176f867 100644
--- a/sfepy/discrete/common/mappings.py
+++ b/sfepy/discrete/common/mappings.py
@@ -63,7 +63,7 @@ class PhysicalQPs(Struct):
             if rshape[0] == 1:
                 shape = (0, n_qp) + rshape[1:] # Constant parameter.
 
-            elif (rshape[0] // n_qp) * n_qp != rshape[0]:
+            elif rshape[0] not in (n_qp, self.shape[0] * n_qp):
                 raise ValueError('incompatible shapes! (n_qp: %d, %s)'
                                  % (n_qp, rshape))
 
-- 
2.43.0


From 47e2c515df755146ea8c3b75abba0fc74529c2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 166/215] fix: nested parentheses in multipliers of terms

---
 sfepy/discrete/parse_equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/parse_equations.py b/sfepy/discrete/parse_equations.py
index 55658ed..5b740b9 100644
--- a/sfepy/discrete/parse_equations.py
+++ b/sfepy/discrete/parse_equations.py
@@ -52,9 +52,9 @@ def create_bnf(term_descs):
     number = fnumber + Optional(Literal('j'), default='')
     add_op = oneOf('+ -')
     number_expr = Forward()
-    number_expr << Optional(add_op) + ZeroOrMore('(') + number \
-                + ZeroOrMore(add_op + number_expr) \
-                + ZeroOrMore(')')
+    number_atom = number | ('(' + number_expr + ')')
+    number_expr << Optional(add_op) + number_atom \
+                + ZeroOrMore(add_op + number_atom)
 
     ident = Word(alphas, alphanums + "_")
 
-- 
2.43.0


From cd169978f853998325a550d6281c56e424ba1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 167/215] fix: imaginary numbers in option strings

---
 sfepy/base/parse_conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/base/parse_conf.py b/sfepy/base/parse_conf.py
index d18e1fe..c503dbe 100644
--- a/sfepy/base/parse_conf.py
+++ b/sfepy/base/parse_conf.py
@@ -45,7 +45,7 @@ cvt_real = lambda toks: float(toks[0])
 real.setParseAction(cvt_real)
 
 cmplx = real + CaselessLiteral('j')
-cvt_cmplx = lambda toks: complex(toks[0])
+cvt_cmplx = lambda toks: complex(0.0, toks[0])
 cmplx.setParseAction(cvt_cmplx)
 
 array_index = integer + Optional(colon + integer +
-- 
2.43.0


From 699db4525e19bbd43c280be773862a53f655471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 168/215] fix: updating of tuples and None values in
 update_dict_recursively()

---
 sfepy/base/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index a761db6..8bd34e9 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -1177,21 +1177,22 @@ def update_dict_recursively(dst, src, tuples_too=False,
     """
     def tuplezip(a):
         if isinstance(a[0], dict) and isinstance(a[1], dict):
-            return update_dict_recursively(a[0], a[1], True)
+            return update_dict_recursively(a[0], a[1], True,
+                                           overwrite_by_none)
         return a[1]
 
     for key in src:
         if key in dst:
             if isinstance(src[key], dict) and isinstance(dst[key], dict):
-                dst[key] = update_dict_recursively(dst[key],
-                                                   src[key], tuples_too)
+                dst[key] = update_dict_recursively(dst[key], src[key],
+                                                   tuples_too,
+                                                   overwrite_by_none)
                 continue
 
             if tuples_too and isinstance(dst[key], tuple) \
-                   and isinstance(src[key], tuple):
-                out = map(tuplezip, zip(src[key], dst[key]))
-                out = tuple(out)
-                dst[key] = out[:len(dst[key])]
+                   and isinstance(src[key], tuple) \
+                   and len(dst[key]) == len(src[key]):
+                dst[key] = tuple(map(tuplezip, zip(dst[key], src[key])))
                 continue
 
         if overwrite_by_none or not src[key] is None:
-- 
2.43.0


From fbd35417ad86856d36066044491c94d643bd7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 169/215] fix: do not modify problem descriptions by overrides

---
 sfepy/base/conf.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/conf.py b/sfepy/base/conf.py
index a32f5c9..b7ac298 100644
--- a/sfepy/base/conf.py
+++ b/sfepy/base/conf.py
@@ -34,6 +34,21 @@ _other = ['epbc_[0-9]+|epbcs',
 def get_standard_keywords():
     return copy(_required), copy(_other)
 
+def _copy_dicts(obj):
+    """
+    Copy nested dictionaries and tuples containing dictionaries in `obj`, so
+    that the copy can be updated without changing the original.
+    """
+    if type(obj) == dict:
+        return {key : (val if key == '__builtins__' else _copy_dicts(val))
+                for key, val in obj.items()}
+
+    elif type(obj) == tuple:
+        return tuple(_copy_dicts(val) for val in obj)
+
+    else:
+        return obj
+
 def tuple_to_conf(name, vals, order):
     """
     Convert a configuration tuple `vals` into a Struct named `name`, with
@@ -419,7 +434,8 @@ class ProblemConf(Struct):
         if override:
             if isinstance(override, Struct):
                 override = override.__dict__
-            define_dict = update_dict_recursively(define_dict, override, True)
+            define_dict = update_dict_recursively(_copy_dicts(define_dict),
+                                                  override, True)
 
         self.__dict__.update(define_dict)
         self.verbose = verbose
-- 
2.43.0


From f7448ddd73f4efb51306512ef9784e44207811e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 170/215] fix: required solver options given as keyword
 arguments

---
 sfepy/solvers/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index d5bfc85..ea51684 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -6,8 +6,10 @@ from sfepy.base.base import Struct, output, structify
 
 def make_get_conf(conf, kwargs):
     def _get_conf_item(name, default=None, msg_if_none=None):
-        return kwargs.get(name, conf.get(name, default=default,
-                                         msg_if_none=msg_if_none))
+        if name in kwargs:
+            return kwargs[name]
+
+        return conf.get(name, default=default, msg_if_none=msg_if_none)
 
     return _get_conf_item
 
-- 
2.43.0


From 76fadbbb9c960a38f9d93ef04c41489a9d22622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 171/215] fix: boundary conditions of variables with 'grad' in
 names

---
 sfepy/discrete/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/conditions.py b/sfepy/discrete/conditions.py
index abb0e07..e9a01ca 100644
--- a/sfepy/discrete/conditions.py
+++ b/sfepy/discrete/conditions.py
@@ -190,7 +190,7 @@ class Condition(Struct):
         for dofs, val in self.dofs.items():
             single_cond = self.copy(name=self.name)
             single_cond.is_single = True
-            if 'grad' in dofs:
+            if dofs.startswith('grad.') and (dofs.count('.') == 2):
                 # extract variable name from grad.<var-name>.all dofs
                 dofs = ".".join((dofs.split(".")[1:]))
                 # mark condition as diff
-- 
2.43.0


From 17186009fa6f0c70031edcd9e620022bf214d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:56 +0000
Subject: [PATCH 172/215] fix: numbers followed by spaces in option strings
 with free words

---
 sfepy/base/parse_conf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/parse_conf.py b/sfepy/base/parse_conf.py
index c503dbe..a7d7139 100644
--- a/sfepy/base/parse_conf.py
+++ b/sfepy/base/parse_conf.py
@@ -11,7 +11,8 @@ from pyparsing import (Word, Group, Suppress, Combine, Optional,
 
 word_free_wb = Word(alphas + '@_-/.+**' + alphanums)
 word_free = Forward()
-word_free = word_free_wb + Optional(lbrace + word_free + rbrace + word_free)
+word_free = (word_free_wb + lbrace + word_free + rbrace + word_free
+             | word_free_wb)
 word_free.setParseAction(lambda toks: ''.join(toks[0]))
 
 word_strict = Word(alphas, alphas + alphanums + '_' )
-- 
2.43.0


From 9d62e78913016b148a6099f52a4eee06e5b65ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:12 +0000
Subject: [PATCH 173/215] fix: adding a term to Terms changed the original

---
 sfepy/terms/terms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 84e59de..55f6fdf 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -249,8 +249,7 @@ class Terms(Container):
 
     def __add__(self, other):
         if isinstance(other, Term):
-            out = self.copy()
-            out.append(other)
+            out = Terms(self._objs + [other])
 
         elif isinstance(other, Terms):
             out = Terms(self._objs + other._objs)
-- 
2.43.0


From 87fe90e85317be0f51477271ac0f3cd5a234101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:38 +0000
Subject: [PATCH 174/215] fix: regions selected by the name of another region

---
 sfepy/discrete/common/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index bdf678f..2a6f955 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -272,6 +272,9 @@ class Domain(Struct):
         region = visit_stack(stack, region_op,
                              region_leaf(self, self.regions, select,
                                          functions, tdim))
+        if any(region is reg for reg in self.regions):
+            # A single region selector - keep the original region intact.
+            region = region.copy()
 
         finalize = True
         if eopts is not None:
-- 
2.43.0


From 5a06e30523cae9de3ffe2c448755354fbfe1f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:05 +0000
Subject: [PATCH 175/215] fix: order of conflicting conditions in the short
 syntax

---
 sfepy/discrete/conditions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/conditions.py b/sfepy/discrete/conditions.py
index e9a01ca..f8014fc 100644
--- a/sfepy/discrete/conditions.py
+++ b/sfepy/discrete/conditions.py
@@ -2,6 +2,8 @@
 The Dirichlet, periodic and linear combination boundary condition
 classes, as well as the initial condition class.
 """
+import re
+
 import numpy as nm
 
 from sfepy.base.base import Container, Struct, is_sequence
@@ -56,7 +58,9 @@ class Conditions(Container):
         for key, cc in conf.items():
             times = cc.get('times', None)
 
-
+            # The sorting key must not depend on the syntax used, so remove
+            # the short syntax suffix.
+            key = re.sub('__[0-9]+$', '', key)
 
             if key.startswith("ebc"):
                 region = _get_region(cc.region, regions, cc.name)
-- 
2.43.0


From b5e98f28d821f2d10c59216c2444cd0d49df5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 176/215] fix: extraction of histories of nodal variables in
 elements

---
 sfepy/postprocess/time_history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 26ac181..e40d767 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -171,10 +171,10 @@ def extract_time_history(filename, extract, verbose=True):
             th = io.read_time_history(nname, pe.indx)
 
         elif pe.mode == 'e' and mode == 'vertex':
-            conn = mesh.conns[0]
+            cconn = mesh.cmesh.get_conn(mesh.cmesh.tdim, 0)
             th = {}
             for iel in pe.indx:
-                ips = conn[iel]
+                ips = cconn.indices[cconn.offsets[iel]:cconn.offsets[iel+1]]
                 th[iel] = io.read_time_history(nname, ips)
         else:
             raise ValueError('cannot extract cell data %s in nodes!' % pe.var)
-- 
2.43.0


From e9ccbcae88560508daada8893a7279ded7285d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:13 +0000
Subject: [PATCH 177/215] fix: averaging of histories changed the histories

---
 sfepy/postprocess/time_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index e40d767..674dfec 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -201,7 +201,7 @@ def average_vertex_var_in_cells(ths_in):
             if isinstance(data, dict):
                 for ic, ndata in data.items():
                     if aux[ir] is None:
-                        aux[ir] = ndata
+                        aux[ir] = 1.0 * ndata
                     else:
                         aux[ir] += ndata
                 aux[ir] /= float(len(data))
-- 
2.43.0


From e6521e46b6f9dadb28377791b0d8bdbdc7451aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 178/215] fix: DOF maps of tasks without common facets

---
 sfepy/parallel/parallel.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 1846cd0..ce2fe69 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -170,7 +170,9 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
     inter_count = 0
     ocs = nm.zeros(0, dtype=nm.int32)
     cell_parts = []
-    for ir, ntasks in ordered_iteritems(inter_facets):
+    for ir in nm.unique(cell_tasks):
+        # Tasks without neighbors have no interface facets.
+        ntasks = inter_facets.get(ir, {})
         cells = nm.where(cell_tasks == ir)[0].astype(nm.int32)
         cell_parts.append(cells)
 
@@ -179,7 +181,7 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
         dofs = _get_dofs_region(field, cregion)
 
         rdof_map = dof_maps.setdefault(ir, [None, [], [], 0, 0])
-        inter_dofs = []
+        inter_dofs = [nm.zeros(0, dtype=nm.int32)]
         for ic, facets in ordered_iteritems(ntasks):
             cdof_map = dof_maps.setdefault(ic, [None, [], [], 0, 0])
 
@@ -248,9 +250,21 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
         domain.regions.pop() # Remove the cell region.
 
         inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+        # DOFs shared without a common facet might be already owned.
+        inner_dofs = inner_dofs[id_map[inner_dofs] == 0]
         n_inner = len(inner_dofs)
         rdof_map[3] += n_inner
-        assert_(nm.all(id_map[inner_dofs] == 0))
+
+        if is_overlap and n_inner:
+            nods = inner_dofs
+            if use_expand_dofs:
+                nods = nm.unique(inner_dofs // field.n_components)
+
+            # Cells of other tasks, connected not by a facet.
+            nods = nm.intersect1d(nods, field.econn[cell_tasks != ir])
+            ocs = nm.where(nm.isin(field.econn, nods).any(axis=1))[0]
+            rdof_map[2].append(ocs.astype(nm.int32))
+
         id_map[inner_dofs] = 1
         count += n_inner
 
-- 
2.43.0


From 3931ba8155e0f5c10b2222492cc3ba2f5c3de264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 179/215] fix: overlap cells of composite fields in parallel

---
 sfepy/parallel/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index ce2fe69..2b52cd0 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -502,6 +502,12 @@ def distribute_fields_dofs(fields, cell_tasks, is_overlap=True,
 
         # Initialize composite offsets of DOFs.
         if len(fields) > 1:
+            # All fields have to be on the same cells in each task.
+            overlap_cells = [nm.unique(nm.concatenate(ocs)) for ocs
+                             in zip(*[gfd.overlap_cells for gfd in gfds])]
+            for gfd in gfds:
+                gfd.overlap_cells = overlap_cells
+
             # Renumber id_maps for field inter-leaving.
             offset = 0
             for ir in range(size):
-- 
2.43.0


From eab9822828ea7a20d3577ce6f88f1a5a4f2afb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:59 +0000
Subject: [PATCH 180/215] fix: B-spline basis at ends of knot ranges

---
 sfepy/mesh/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 561d5f8..b72154a 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -90,12 +90,12 @@ class BSpline(Struct):
         t : array
             The parameter vector of the B-spline.
         """
-        self.t = to_ndarray(t)
+        self.t = nm.array(to_ndarray(t), dtype=nm.float64)
 
         if self.knots is not None:
             endval = self.knots[-(self.degree + 1)]
             idxs = nm.where(self.t == endval)[0]
-            self.t[idxs] -= nm_f64_eps
+            self.t[idxs] = nm.nextafter(endval, -nm.inf)
 
     def set_param_n(self, n=100, knot_range=(0.0, 1.0)):
         """
@@ -107,7 +107,7 @@ class BSpline(Struct):
             The number of steps in the B-spline parametric vector.
         """
         self.t = nm.linspace(knot_range[0], knot_range[1], n)
-        self.t[-1] -= nm_f64_eps
+        self.t[-1] = nm.nextafter(self.t[-1], -nm.inf)
 
     @staticmethod
     def basis_function_dg0(t, knots, n):
-- 
2.43.0


From f72fd7c44303c090cd82d8a4e59eb0bed073fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:59 +0000
Subject: [PATCH 181/215] fix: cyclic knot vectors of given ranges

---
 sfepy/mesh/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index b72154a..2c8b230 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -202,10 +202,10 @@ class BSpline(Struct):
         n_inter = n_knots - 2 * dg
         aux = nm.linspace(knot_range[0], knot_range[1], n_inter)
         if knot_type == '' or knot_type == 'cyclic':
-            dd = aux[1]
-            self.knots = nm.hstack((nm.arange(-dg, 0) * dd,
+            dd = aux[1] - aux[0]
+            self.knots = nm.hstack((nm.arange(-dg, 0) * dd + aux[0],
                                     aux,
-                                    nm.arange(1, dg + 1) * dd + 1))
+                                    nm.arange(1, dg + 1) * dd + aux[-1]))
 
         elif knot_type == 'clamped':
             self.knots = nm.array([aux[0]]* dg + list(aux) + [aux[-1]]* dg,
-- 
2.43.0


From e75d95fb66b4981bebbfaaf5439c5c2f0924c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:59 +0000
Subject: [PATCH 182/215] fix: control points of approximating cyclic B-spline
 surfaces

---
 sfepy/mesh/bspline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 2c8b230..7a407d7 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -680,11 +680,13 @@ class BSplineSurf(Struct):
             spl1.approximate(coors[ii,...], ncp[1])
             aux[ii,...] = spl1.get_control_points()
 
-        self.cp_coors = nm.zeros((ncp[0], ncp[1], 3), dtype=nm.float64)
+        cp_coors = nm.zeros((ncp[0], ncp[1], 3), dtype=nm.float64)
         spl2 = self.splines[0]
         for ii in range(ncp[1]):
             spl2.approximate(aux[:,ii,:], ncp[0])
-            self.cp_coors[:,ii,:] = spl2.get_control_points()
+            cp_coors[:,ii,:] = spl2.get_control_points()
+
+        self.set_control_points(cp_coors)
 
         self.approx_coors = coors
 
-- 
2.43.0


From 5a49c0aecc07748c1368ba56c68e5ab4d93b6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 183/215] fix: insertion of knots into B-splines

---
 sfepy/mesh/bspline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 7a407d7..b678da1 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -255,6 +255,7 @@ class BSpline(Struct):
         idx = nm.where(nm.logical_and(kn[:-1] <= new, new < kn[1:]))[0]
 
         if len(idx) > 0:
+            idx = int(idx[0])
             multi = len(nm.where(kn == new)[0])
             if multi < dg:
                 # new knot
-- 
2.43.0


From d6de3f028583982793e386e9960e5249c33de6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 184/215] fix: initial control points of spline boxes

---
 sfepy/mesh/splinebox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/mesh/splinebox.py b/sfepy/mesh/splinebox.py
index e27fa1d..499da46 100644
--- a/sfepy/mesh/splinebox.py
+++ b/sfepy/mesh/splinebox.py
@@ -112,7 +112,7 @@ class SplineBox(Struct):
             self.cp_values = lstsq(a, b)[0]
 
         else:
-            self.cp_values = self.cp_coors
+            self.cp_values = self.cp_coors.copy()
 
         self.cp_values0 = self.cp_values.copy()
 
@@ -479,7 +479,8 @@ class SplineRegion2D(SplineBox):
         self.cdim = coors.shape[1]
         self.coors = coors.copy()
         self.field = self.coors
-        self.cp_values = self.cp_coors
+        self.cp_values = self.cp_coors.copy()
+        self.cp_values0 = self.cp_values.copy()
 
         self.ts = self.find_ts(coors[self.idxs_inside, :])
 
-- 
2.43.0


From fce10a0820567a0c141683122ed512462ece895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 185/215] fix: values at control points in written control nets

---
 sfepy/mesh/splinebox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/splinebox.py b/sfepy/mesh/splinebox.py
index 499da46..e26e1ce 100644
--- a/sfepy/mesh/splinebox.py
+++ b/sfepy/mesh/splinebox.py
@@ -305,7 +305,8 @@ class SplineBox(Struct):
         for ival in range(self.cp_values.shape[1]):
             f.write("\nSCALARS cp_value_%d float 1\n" % (ival + 1))
             f.write("LOOKUP_TABLE default\n")
-            f.write(str(b'\n'.join(self.cp_values[:, ival].astype('|S10'))) + '\n')
+            f.write('\n'.join('%e' % val for val in self.cp_values[:, ival])
+                    + '\n')
 
         f.close()
 
-- 
2.43.0


From 84e206a290d6e09d30bbc70186b1fe672e25c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:46 +0000
Subject: [PATCH 186/215] fix: last points in approximation by B-splines

---
 sfepy/mesh/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index b678da1..9e0c07b 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -442,7 +442,7 @@ class BSpline(Struct):
         dista = nm.power(dist, alpha)
         self.t = nm.zeros((coors.shape[0],), dtype=nm.float64)
         self.t[1:] += dista.cumsum() / dista.sum()
-        self.t[-1] -= nm_f64_eps
+        self.t = nm.minimum(self.t, nm.nextafter(1.0, 0.0))
 
         while True:
             self.basis = self.basis_function_dg(dg, self.t,
-- 
2.43.0


From 0bec29843dc95d4f482eeebc3bce59e4d47a708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:39 +0000
Subject: [PATCH 187/215] fix: stages of multistage DG time stepping solvers
 use states of the stages

---
 sfepy/solvers/ts_dg_solvers.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..215e42c 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -74,6 +74,24 @@ class DGMultiStageTSS(TimeSteppingSolver):
 
         return vec
 
+    def get_stage_fun(self, nls):
+        """
+        Get the residual function to be used in stages of a time step. The
+        explicit terms use the last step values of the state variables, that
+        have to correspond to the state in the given stage.
+        """
+        def stage_fun(vec):
+            variables = self.context.equations.variables
+            variables.set_state(vec, self.context.active_only)
+            for var in variables.iter_state():
+                if (var.history or 0) > 0:
+                    var.data[1][var.indx] = var()
+                    var.invalidate_evaluate_cache(step=-1)
+
+            return nls.fun(vec)
+
+        return stage_fun
+
     def solve_step(self, ts, nls, vec, prestep_fun=None, poststep_fun=None,
                    status=None):
         raise NotImplementedError("Called abstract solver, use subclass.")
@@ -130,7 +148,7 @@ class EulerStepSolver(DGMultiStageTSS):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Euler solver")
 
-        fun = nls.fun
+        fun = self.get_stage_fun(nls)
         fun_grad = nls.fun_grad
         lin_solver = nls.lin_solver
 
@@ -191,7 +209,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Runge-Kutta solver")
 
-        fun = nls.fun
+        fun = self.get_stage_fun(nls)
         fun_grad = nls.fun_grad
         lin_solver = nls.lin_solver
 
@@ -281,7 +299,7 @@ class RK4StepSolver(DGMultiStageTSS):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Runge-Kutta solver")
 
-        fun = nls.fun
+        fun = self.get_stage_fun(nls)
         fun_grad = nls.fun_grad
         lin_solver = nls.lin_solver
 
-- 
2.43.0


From c53270d78432ebdd4e02214ede51434423761aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:04 +0000
Subject: [PATCH 188/215] fix: substeps in TVD Runge-Kutta DG time stepping
 solver

---
 sfepy/solvers/ts_dg_solvers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 215e42c..0e15367 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -143,8 +143,8 @@ class EulerStepSolver(DGMultiStageTSS):
     name = 'ts.euler'
     __metaclass__ = SolverMeta
 
-    def solve_step(self, ts, nls, vec_x0, status=None,
-                   prestep_fun=None, poststep_fun=None):
+    def solve_step(self, ts, nls, vec_x0, prestep_fun=None,
+                   poststep_fun=None, status=None):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Euler solver")
 
@@ -204,8 +204,8 @@ class TVDRK3StepSolver(DGMultiStageTSS):
     name = 'ts.tvd_runge_kutta_3'
     __metaclass__ = SolverMeta
 
-    def solve_step(self, ts, nls, vec_x0, status=None,
-                   prestep_fun=None, poststep_fun=None):
+    def solve_step(self, ts, nls, vec_x0, prestep_fun=None,
+                   poststep_fun=None, status=None):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Runge-Kutta solver")
 
@@ -257,6 +257,7 @@ class TVDRK3StepSolver(DGMultiStageTSS):
         vec_x2 = prestep_fun(ts, vec_x2)
         vec_r = fun(vec_x2)
         mtx_a = fun_grad(vec_x2)
+        ts.restore_step_time()
         vec_dx = lin_solver(vec_r, x0=vec_x2,
                             eps_a=eps_a, eps_r=eps_r, mtx=mtx_a,
                             status=ls_status)
@@ -294,8 +295,8 @@ class RK4StepSolver(DGMultiStageTSS):
         lambda u, k3, dt: u + dt * k3
     )
 
-    def solve_step(self, ts, nls, vec_x0, status=None,
-                   prestep_fun=None, poststep_fun=None):
+    def solve_step(self, ts, nls, vec_x0, prestep_fun=None,
+                   poststep_fun=None, status=None):
         if ts is None:
             raise ValueError("Provide TimeStepper to explicit Runge-Kutta solver")
 
-- 
2.43.0


From fe8b18131749233dc0e3875db16367399f8f85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:10 +0000
Subject: [PATCH 189/215] fix: derivatives in facets of DG fields in physical
 coordinates

---
 sfepy/discrete/dg/fields.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index 26701c9..dacd6f5 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -763,6 +763,26 @@ class DGField(FEField):
         # flip outer_facet_vals moved to get_both_facet_basis_vals
         return inner_facet_vals, outer_facet_vals, whs
 
+    def _get_facet_jacobians(self):
+        """
+        Get the Jacobi matrices (transposed) of the reference mapping in facet
+        quadrature points of all cells.
+
+        Returns
+        -------
+        mtx : ndarray
+            The matrices in shape (n_cell, n_el_facets, n_qp, dim, dim).
+        """
+        qps, _ = self.get_facet_qp()
+        coors = self.mapping.coors[self.mapping.conn]
+        mtx = []
+        for ii in range(self.n_el_facets):
+            qp = nm.ascontiguousarray(qps[:, 0, ii, :])
+            bfg = self.geom_poly_space.eval_basis(qp, diff=1)
+            mtx.append(nm.einsum("qke,nel->nqkl", bfg, coors))
+
+        return nm.stack(mtx, axis=1)
+
     def get_both_facet_basis_vals(self, state, region, derivative=None):
         """Returns values of the basis function in quadrature points on facets
         broadcasted to all cells inner to the element as well as outer ones
@@ -805,8 +825,11 @@ class DGField(FEField):
         outer_facet_basis_vals = nm.zeros(basis_shape)
 
         if derivative:
-            inner_facet_basis_vals[:] = facet_bf[0, :, 0, :, :, :]\
-                                                            .swapaxes(-2, -3).T
+            facet_bfg = facet_bf[0, :, 0, :, :, :].swapaxes(-2, -3).T
+            # Transform to the derivatives w.r.t. the physical coordinates.
+            mtx_inv = nm.linalg.inv(self._get_facet_jacobians())
+            inner_facet_basis_vals[:] = nm.einsum("nfqlk,bfkq->nbflq",
+                                                  mtx_inv, facet_bfg)
         else:
             inner_facet_basis_vals[:] = facet_bf[:, 0, :, 0, :].T
 
@@ -816,7 +839,8 @@ class DGField(FEField):
         # indexing before remaining shape
         if derivative:
             outer_facet_basis_vals[:] = \
-                inner_facet_basis_vals[0, :, per_facet_neighbours[:, :, 1]]\
+                inner_facet_basis_vals[per_facet_neighbours[:, :, 0], :,
+                                       per_facet_neighbours[:, :, 1]]\
                     .swapaxes(-3, -4)
         else:
             outer_facet_basis_vals[:] = \
-- 
2.43.0


From a8c6e97cd87c3cb2f00b5756a607824907211ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:10 +0000
Subject: [PATCH 190/215] fix: neighbors of the first cell in 2D DG limiter

---
 sfepy/discrete/dg/limiters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/dg/limiters.py b/sfepy/discrete/dg/limiters.py
index 5f6547f..ed4217a 100644
--- a/sfepy/discrete/dg/limiters.py
+++ b/sfepy/discrete/dg/limiters.py
@@ -163,7 +163,7 @@ class MomentLimiter2D(DGLimiter):
         ex = self.extended
 
         nbrhd_idx = self.field.get_facet_neighbor_idx()
-        inner_mask = nbrhd_idx[:, :,  0] > 0
+        inner_mask = nbrhd_idx[:, :,  0] >= 0
         idx = nm.where(inner_mask.prod(axis=1))[0]
         nbrhd_idx = nbrhd_idx[:, :, 0]
 
-- 
2.43.0


From be02e484c52bdd8bbcaf3dc74a1be7add748f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:20 +0000
Subject: [PATCH 191/215] fix: matching of facets in DG periodic boundary
 conditions

---
 sfepy/discrete/common/dof_info.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 489695b..991e77b 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -410,6 +410,16 @@ class EquationMap(Struct):
                 master_bc2bfi = field.get_bc_facet_idx(region)
                 slave_bc2bfi = field.get_bc_facet_idx(bc.regions[1])
 
+                if (bc.match is not None) and (len(master_bc2bfi) > 1):
+                    fun = get_condition_value(bc.match, functions, 'EPBC',
+                                              bc.name)
+                    # Match the facets by their centroids.
+                    fcoors = region.cmesh.get_centroids(region.tdim - 1)
+                    i1, i2 = fun(fcoors[region.facets],
+                                 fcoors[bc.regions[1].facets])
+                    master_bc2bfi = master_bc2bfi[i1]
+                    slave_bc2bfi = slave_bc2bfi[i2]
+
                 self.dg_epbc.append((master_bc2bfi, slave_bc2bfi))
                 self.n_dg_epbc += 1
 
-- 
2.43.0


From 85ad6d8cdf332e2737efd2cc655db25e534beee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 192/215] fix: order of variables in equations does not depend
 on memory addresses

---
 sfepy/discrete/equations.py | 4 ++--
 sfepy/discrete/variables.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index b812e49..3da1a17 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -276,7 +276,7 @@ class Equations(Container):
             materials.extend(eq.collect_materials())
 
         # Make the list items unique.
-        materials = list(set(materials))
+        materials = list(dict.fromkeys(materials))
 
         return materials
 
@@ -296,7 +296,7 @@ class Equations(Container):
             variables.extend(eq.collect_variables())
 
         # Make the list items unique.
-        variables = list(set(variables))
+        variables = list(dict.fromkeys(variables))
 
         return variables
 
diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index bdc9529..cf390d1 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -292,7 +292,8 @@ class Variables(Container):
             aux = [self[name]._order for name in self.state]
             orders = [(self[name]._order, name) for name in self.state]
         else:
-            orders = [ii for ii in enumerate(self.state)]
+            orders = list(enumerate(var.name for var in self
+                                    if var.name in self.state))
 
         if len(orders):
             self.ordered_state = [name for order, name in sorted(orders)]
-- 
2.43.0


From 152e6f5b318ff34fb0b7671cc18d60487172fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:24 +0000
Subject: [PATCH 193/215] fix: slopes in Runge-Kutta 4 DG time stepping solver

---
 sfepy/solvers/ts_dg_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 0e15367..cbcd3fe 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -326,7 +326,7 @@ class RK4StepSolver(DGMultiStageTSS):
             if self.verbose:
                 output(self.stage_format.format(stage, lerr))
 
-            vec_x = - vec_dx - stage_vec
+            vec_x = stage_vec - vec_dx
 
             vec_x = self.post_stage_hook(vec_x)
 
-- 
2.43.0


From f928cf2eba99ec6e4ca7a659667806b71e356cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:24 +0000
Subject: [PATCH 194/215] fix: boundary values of gradients in DG fields

---
 sfepy/discrete/dg/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index dacd6f5..d7cf435 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -758,7 +758,7 @@ class DGField(FEField):
             else:
                 #  fix flipping qp order to accomodate for
                 #  opposite facet orientation of neighbours
-                outer_facet_vals[ebc[:, 0], ebc[:, 1], :] = ebc_vals[:, ::-1]
+                outer_facet_vals[ebc[:, 0], ebc[:, 1], :] = ebc_vals[..., ::-1]
 
         # flip outer_facet_vals moved to get_both_facet_basis_vals
         return inner_facet_vals, outer_facet_vals, whs
-- 
2.43.0


From 67a56ad93ea439476a3ac8ed8c99be45cd0a79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:10 +0000
Subject: [PATCH 195/215] fix: DG periodic boundary conditions without known
 match functions

---
 sfepy/discrete/common/dof_info.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 991e77b..15f1c4c 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -7,7 +7,7 @@ Helper functions for the equation mapping.
 import numpy as nm
 import scipy.sparse as sp
 
-from sfepy.base.base import assert_, Struct
+from sfepy.base.base import assert_, output, Struct
 from sfepy.discrete.functions import Function
 from sfepy.discrete.conditions import get_condition_value, EssentialBC, \
     PeriodicBC, DGPeriodicBC, DGEssentialBC
@@ -410,15 +410,22 @@ class EquationMap(Struct):
                 master_bc2bfi = field.get_bc_facet_idx(region)
                 slave_bc2bfi = field.get_bc_facet_idx(bc.regions[1])
 
-                if (bc.match is not None) and (len(master_bc2bfi) > 1):
-                    fun = get_condition_value(bc.match, functions, 'EPBC',
-                                              bc.name)
+                if len(master_bc2bfi) > 1:
                     # Match the facets by their centroids.
-                    fcoors = region.cmesh.get_centroids(region.tdim - 1)
-                    i1, i2 = fun(fcoors[region.facets],
-                                 fcoors[bc.regions[1].facets])
-                    master_bc2bfi = master_bc2bfi[i1]
-                    slave_bc2bfi = slave_bc2bfi[i2]
+                    try:
+                        fun = get_condition_value(bc.match, functions, 'EPBC',
+                                                  bc.name)
+
+                    except ValueError as msg:
+                        output('%s' % msg)
+                        output('...facets are matched in their order!')
+
+                    else:
+                        fcoors = region.cmesh.get_centroids(region.tdim - 1)
+                        i1, i2 = fun(fcoors[region.facets],
+                                     fcoors[bc.regions[1].facets])
+                        master_bc2bfi = master_bc2bfi[i1]
+                        slave_bc2bfi = slave_bc2bfi[i2]
 
                 self.dg_epbc.append((master_bc2bfi, slave_bc2bfi))
                 self.n_dg_epbc += 1
-- 
2.43.0


From d1c3ff638c213b027e2f3d35c48b2fd76f967abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:58 +0000
Subject: [PATCH 196/215] fix: regions of IGA domains stored in HDF5 files

---
 sfepy/discrete/iga/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/domain.py b/sfepy/discrete/iga/domain.py
index 25a89b9..2664591 100644
--- a/sfepy/discrete/iga/domain.py
+++ b/sfepy/discrete/iga/domain.py
@@ -166,8 +166,12 @@ class IGDomain(Domain):
         bweights = self.bmesh.weights
         bconn = self.bmesh.conn
 
+        # The regions are stored in the Bezier mesh vertex numbering.
+        itc = nm.unique(iga.get_bezier_topology(bconn, degrees))
+        regions = {key : itc[val] for key, val in self.vertex_set_bcs.items()}
+
         return (knots, degrees, cps, weights, cs, conn,
-                bcps, bweights, bconn, self.vertex_set_bcs)
+                bcps, bweights, bconn, regions)
 
     @staticmethod
     def from_data(knots, degrees, cps, weights, cs, conn,
-- 
2.43.0


From 7d19589e8b41d9cbeea16f81a5e3a00eec8fb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:15 +0000
Subject: [PATCH 197/215] fix: output of IGA fields for knots out of [0, 1]

---
 sfepy/discrete/iga/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/fields.py b/sfepy/discrete/iga/fields.py
index 7e602f4..3d8f77e 100644
--- a/sfepy/discrete/iga/fields.py
+++ b/sfepy/discrete/iga/fields.py
@@ -315,7 +315,8 @@ class IGField(Field):
         key = key if key is not None else var_name
 
         num = 25 if self.region.dim == 3 else 101
-        pars = (nm.linspace(0, 1, num),) * self.region.dim
+        pars = tuple(nm.linspace(kv[0], kv[-1], num)
+                     for kv in self.nurbs.knots)
         mesh, out = create_mesh_and_output(self.nurbs, pars, **{key : dofs})
         out[key].var_name = var_name
         out[key].dofs = dof_names
-- 
2.43.0


From d0466fe6f7fbf36066658ef6fd8aded267e2d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 198/215] fix: output of constant fields defined in a part of
 the domain

---
 sfepy/discrete/fem/fields_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 4c1567e..e6474f7 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -821,7 +821,7 @@ class FEField(Field):
             new_dofs[indx] = dofs[:indx.size]
 
         else:
-            new_dofs = extend_cell_data(dofs, self.domain, self.region,
+            new_dofs = extend_cell_data(dofs, self.domain, self.region.name,
                                         val=fill_value)
 
         return new_dofs
-- 
2.43.0


From 8277c32aeb2023a7f1a73afde644555f97d25005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 199/215] fix: setting variables of subdomains from values in
 mesh vertices

---
 sfepy/discrete/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index cf390d1..316c4b5 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1528,6 +1528,7 @@ class FieldVariable(Variable):
         """
         Set the variable using values at the mesh vertices.
         """
+        data = data[self.field.get_vertices()]
         ndata = self.field.interp_v_vals_to_n_vals(data)
         self.set_data(ndata)
 
-- 
2.43.0


From 929eb247edd0fe6850d317e5bf6a5472a6ed4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 200/215] fix: linearization of discontinuous fields

---
 sfepy/discrete/fem/fields_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index e6474f7..4f36188 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -870,7 +870,8 @@ class FEField(Field):
         assert_(n_nod == self.n_nod)
         assert_(dpn == self.shape[0])
 
-        vertex_coors = self.coors[:self.n_vertex_dof, :]
+        # Discontinuous fields have no vertex DOFs.
+        vertex_coors = self.coors
 
         ps = self.poly_space
         gps = self.geom_poly_space
-- 
2.43.0


From a9010f81472855eb628cb9c66322c654c42a39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:06 +0000
Subject: [PATCH 201/215] fix: shape of DOF arrays of constant fields changed
 by output

---
 sfepy/discrete/fem/fields_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 4f36188..564f953 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -956,7 +956,7 @@ class FEField(Field):
                                       dofs=dof_names, region_name=reg_name)
 
                 else:
-                    ext.shape = (ext.shape[0], 1, ext.shape[1], 1)
+                    ext = ext.reshape((ext.shape[0], 1, ext.shape[1], 1))
                     out[key] = Struct(name='output_data', mode='cell',
                                       data=ext, var_name=var_name,
                                       dofs=dof_names, region_name=reg_name)
-- 
2.43.0


From 1c2e9bb0a536fada0af051b851258ca6d817acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:03 +0000
Subject: [PATCH 202/215] fix: memory leak of dw_surface_ltr with stress
 tensors

---
 sfepy/terms/extmods/terms_surface.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sfepy/terms/extmods/terms_surface.c b/sfepy/terms/extmods/terms_surface.c
index 98f815d..d034ace 100644
--- a/sfepy/terms/extmods/terms_surface.c
+++ b/sfepy/terms/extmods/terms_surface.c
@@ -87,11 +87,8 @@ int32 dw_surface_ltr( FMField *out, FMField *traction, Mapping *sg )
 
  end_label:
   fmf_freeDestroy( &outQP );
-  if (traction->nCol == 1) {
-    fmf_freeDestroy( &pn );
-  } else if (traction->nCol == sym) {
-    fmf_freeDestroy( &stn );
-  }
+  fmf_freeDestroy( &pn );
+  fmf_freeDestroy( &stn );
 
   return( ret );
 }
-- 
2.43.0


From 9f0392512ad60526f1b25f254288e9539a703b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:03 +0000
Subject: [PATCH 203/215] fix: memory leak of ev_sd_div_grad

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index d7aaf2b..c7ff0f9 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -630,6 +630,7 @@ int32 d_sd_div_grad( FMField *out, FMField *gradU, FMField *gradW,
   }
 
  end_label:
+  fmf_freeDestroy( &uvel );
   if (mode == 1) {
     fmf_freeDestroy( &aux );
     fmf_freeDestroy( &aux1 );
-- 
2.43.0


From 5ce9a45c32ae93c10d90051ad357cf8475ddf59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:55 +0000
Subject: [PATCH 204/215] fix: memory leaks of IGA evaluations

---
 sfepy/discrete/iga/extmods/igac.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sfepy/discrete/iga/extmods/igac.pyx b/sfepy/discrete/iga/extmods/igac.pyx
index 6aba0b0..54be305 100644
--- a/sfepy/discrete/iga/extmods/igac.pyx
+++ b/sfepy/discrete/iga/extmods/igac.pyx
@@ -686,6 +686,12 @@ def eval_variable_in_qp(float64[:, ::1] variable not None,
                     (_B + ii).val += nf
                     (_dB_dxi + ii).val += nf
 
+    for ii in range(0, <uint32>dim):
+        fmf_free(_B + ii)
+        fmf_free(_dB_dxi + ii)
+        fmf_free(_N + ii)
+        fmf_free(_dN_dxi + ii)
+
     return coors, vals, dets
 
 def eval_in_tp_coors(float64[:, ::1] variable,
@@ -863,4 +869,10 @@ def eval_in_tp_coors(float64[:, ::1] variable,
 
             _out.val += nc
 
+    for ii in range(0, <uint32>dim):
+        fmf_free(_B + ii)
+        fmf_free(_dB_dxi + ii)
+        fmf_free(_N + ii)
+        fmf_free(_dN_dxi + ii)
+
     return out
-- 
2.43.0


From eefc5214ff58bf6eeac468b452554da454ce2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:15 +0000
Subject: [PATCH 205/215] fix: dependencies of coefficients with names of
 correctors

---
 sfepy/homogenization/engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 87ba697..a8d1081 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -13,10 +13,8 @@ def insert_sub_reqs(reqs, levels, req_info):
     all_reqs = []
     for _, req in enumerate(reqs):
         # Coefficients are referenced as 'c.<name>'...
-        areq = req[2:] if req.startswith('c.') else req
-
         try:
-            rargs = req_info[areq]
+            rargs = req_info[req]
         except KeyError:
             raise ValueError('requirement "%s" is not defined!' % req)
 
@@ -146,7 +144,7 @@ class HomogenizationWorker:
     def get_sorted_dependencies(req_info, coef_info, compute_only):
         "Make corrs and coefs list sorted according to the dependencies."
 
-        reqcoef_info = copy(coef_info)
+        reqcoef_info = {'c.' + key: val for key, val in coef_info.items()}
         reqcoef_info.update(req_info)
         compute_names = set(get_default(compute_only, list(coef_info.keys())))
         compute_names = ['c.' + key for key in compute_names]
-- 
2.43.0


From 71fb60b57f4ebd9f8f2bd357bfcef186587711ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:15 +0000
Subject: [PATCH 206/215] fix: precision of volumes given by value in
 homogenization

---
 sfepy/homogenization/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index a8d1081..403820b 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -630,7 +630,7 @@ class HomogenizationEngine(PDESolverApp):
             cfkey = 'Volume_%s' % vk
             vcfkeys.append('c.' + cfkey)
             if 'value' in vv:
-                cf_vols[cfkey] = {'expression': '%e' % float(vv['value']),
+                cf_vols[cfkey] = {'expression': repr(float(vv['value'])),
                                   'class': CoefEval}
             else:
                 cf_vols[cfkey] = {'expression': vv['expression'],
-- 
2.43.0


From be1fdc86105c2063cdd3d10fd9ac65c62793aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:15 +0000
Subject: [PATCH 207/215] fix: get_lattice_volume() in 2D with recent NumPy

---
 sfepy/homogenization/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/utils.py b/sfepy/homogenization/utils.py
index 0c9069a..b70723b 100644
--- a/sfepy/homogenization/utils.py
+++ b/sfepy/homogenization/utils.py
@@ -246,7 +246,7 @@ def get_lattice_volume(axes):
     dim = axes.shape[0]
 
     if dim == 2:
-        volume = nm.abs(nm.cross(axes[0], axes[1]))
+        volume = nm.abs(nm.linalg.det(axes))
 
     elif dim == 3:
         volume = nm.dot(nm.cross(axes[0], axes[1]), axes[2])
-- 
2.43.0


From 4405fe675b8d46900d781bb5757193a8740794b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:28 +0000
Subject: [PATCH 208/215] fix: names of requirements contained in each other in
 CoefEval, CorrEval

---
 sfepy/homogenization/coefs_base.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sfepy/homogenization/coefs_base.py b/sfepy/homogenization/coefs_base.py
index 21c15b1..b311eb5 100644
--- a/sfepy/homogenization/coefs_base.py
+++ b/sfepy/homogenization/coefs_base.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 import numpy as nm
 from collections.abc import Iterable
@@ -8,6 +9,19 @@ from sfepy.discrete.evaluate import eval_equations
 from .utils import iter_sym, iter_nonsym, create_pis, create_scalar_pis
 
 
+def insert_data(expression, requires):
+    """
+    Replace the names of requirements in an expression by the corresponding
+    items of `data`.
+    """
+    if not requires:
+        return expression
+
+    names = '|'.join(re.escape(req)
+                     for req in sorted(requires, key=len, reverse=True))
+    return re.sub(r'(?<![\w.])(?:%s)(?!\w)' % names,
+                  lambda match: "data['%s']" % match.group(), expression)
+
 class MiniAppBase(Struct):
     def any_from_conf(name, problem, kwargs):
         try:
@@ -315,9 +329,7 @@ class OnesDim(CorrMiniApp):
 class CorrEval(CorrMiniApp):
     def __call__(self, problem=None, data=None):
         problem = get_default(problem, self.problem)
-        expr = self.expression
-        for req in self.requires:
-            expr = expr.replace(req, "data['%s']" % req)
+        expr = insert_data(self.expression, self.requires)
 
         val = eval(expr)
 
@@ -860,9 +872,7 @@ class CoefEval(MiniAppBase):
     Evaluate expression.
     """
     def __call__(self, volume, problem=None, data=None):
-        expr = self.expression
-        for req in self.requires:
-            expr = expr.replace(req, "data['%s']" % req)
+        expr = insert_data(self.expression, self.requires)
 
         coef = eval(expr)
 
-- 
2.43.0


From ffa9f4011fde5cd618777f5ba291ebbbd282608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:28 +0000
Subject: [PATCH 209/215] fix: repeated calls of homogenization engine

---
 sfepy/homogenization/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 403820b..cefe462 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -637,10 +637,7 @@ class HomogenizationEngine(PDESolverApp):
                                   'class': CoefVolume}
 
         for cf in coef_info.values():
-            if 'requires' in cf:
-                cf['requires'] += vcfkeys
-            else:
-                cf['requires'] = vcfkeys
+            cf['requires'] = list(cf.get('requires', [])) + vcfkeys
 
         coef_info.update(cf_vols)
 
@@ -662,6 +659,8 @@ class HomogenizationEngine(PDESolverApp):
         # order here.
         req_info = getattr(self.conf, opts.requirements, {})
         coef_info = getattr(self.conf, opts.coefs, {})
+        # Do not modify the problem definition.
+        coef_info = {key: copy(val) for key, val in coef_info.items()}
         coef_info = self.define_volume_coef(coef_info, self.volumes)
 
         is_store_filenames = coef_info.pop('filenames', None) is not None
-- 
2.43.0


From 4e6688898b09c4dcb8b95c1c24428aefe0505463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:11 +0000
Subject: [PATCH 210/215] fix: writing and reading coefficients of several
 microstructures

---
 sfepy/base/ioutils.py                | 8 ++++++++
 sfepy/homogenization/coefficients.py | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..78a2750 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -308,6 +308,10 @@ def write_dict_hdf5(filename, adict, level=0, group=None, fd=None):
         if isinstance(val, dict):
             group2 = fd.create_group(group, '_' + str(key), '%s group' % key)
             write_dict_hdf5(filename, val, level + 1, group2, fd)
+        elif isinstance(val, list) and any(isinstance(ii, dict) for ii in val):
+            group2 = fd.create_group(group, '_' + str(key), '%s list' % key)
+            write_dict_hdf5(filename, dict(enumerate(val)), level + 1, group2,
+                            fd)
         else:
             if not isinstance(val, str):
                 fd.create_array(group, '_' + str(key), val, '%s data' % key)
@@ -329,12 +333,16 @@ def read_dict_hdf5(filename, level=0, group=None, fd=None):
     for name, gr in group._v_groups.items():
         name = name.replace('_', '', 1)
         out[name] = read_dict_hdf5(filename, level + 1, gr, fd)
+        if gr._v_title == '%s list' % name:
+            out[name] = [out[name][str(ii)] for ii in range(len(out[name]))]
 
     for name, data in group._v_leaves.items():
         name = name.replace('_', '', 1)
         val = data.read()
         if isinstance(val, bytes):
             val = dec(val)
+        elif isinstance(val, list):
+            val = [dec(ii) if isinstance(ii, bytes) else ii for ii in val]
 
         out[name] = val
 
diff --git a/sfepy/homogenization/coefficients.py b/sfepy/homogenization/coefficients.py
index 67bb920..76f3f07 100644
--- a/sfepy/homogenization/coefficients.py
+++ b/sfepy/homogenization/coefficients.py
@@ -26,7 +26,8 @@ class Coefficients(Struct):
         for key, val in obj.__dict__.items():
             if type(val) == list:
                 for ii, vv in enumerate(val):
-                    val[ii] = nm.array(vv, dtype=nm.float64)
+                    if not isinstance(vv, (dict, str)):
+                        val[ii] = nm.asarray(vv)
 
         return obj
 
-- 
2.43.0


From 382341279f8139287263f4825f8ad8fde73d4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:58 +0000
Subject: [PATCH 211/215] fix: call user update of microstructure coordinates
 once

---
 sfepy/homogenization/homogen_app.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index d044def..8d881d1 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -137,13 +137,10 @@ class HomogenizationApp(PDESolverApp):
             if key + '_prev' in micro_update and state is not None:
                 self.micro_states[key + '_prev'] = state.copy()
 
-            if key == 'coors':
-                if hasattr(upd_obj, '__call__'):
-                    upd_obj(state, self.macro_data, self.problem)
-                else:
-                    # macro strain - in the first sequence of the list
-                    mtx_e = self.macro_data[upd_obj[0][2]]
-                    state += la.dot_sequences(state, mtx_e, 'ABT')
+            if key == 'coors' and not hasattr(upd_obj, '__call__'):
+                # macro strain - in the first sequence of the list
+                mtx_e = self.macro_data[upd_obj[0][2]]
+                state += la.dot_sequences(state, mtx_e, 'ABT')
 
             if hasattr(upd_obj, '__call__'):
                 upd_obj(state, self.macro_data, self.problem)
-- 
2.43.0


From 5ef95800185b613ebe370da450904c1de4c5e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:29 +0000
Subject: [PATCH 212/215] fix: storing of correctors of microstructures
 processed in chunks

---
 sfepy/homogenization/engine.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index cefe462..3003bc0 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -63,7 +63,7 @@ def rm_chtag(key):
 
 def chunk_req_info(name, req_info):
     idx = name.find('|ch:')
-    if idx > 0:
+    if idx > 0 and name not in req_info:
         name0, ctag = name[:idx], name[idx:]
         out = req_info[name0].copy()
         reqs = out.get('requires', [])
@@ -208,7 +208,7 @@ class HomogenizationWorker:
                         store_id = '_%04d' % (mini_app.store_idxs[1] + im)
                         if save_name is not None:
                             mini_app.save_name = save_name + store_id
-                            key = mini_app.name
+                            key = rm_chtag(mini_app.name)
                             if key in save_names:
                                 save_names[key].append(
                                     mini_app.get_save_name_base())
@@ -439,8 +439,14 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                 self.chunk_micro_tasks(len(micro_states['coors']),
                                        req_info, coef_info,
                                        chunk_size, store_micro_idxs)
+            # Merge the data of chunks with the original definitions.
+            req_info = {key: {**req_info[rm_chtag(key)], **val}
+                        for key, val in req_info_ch.items()}
         else:
             micro_chunk_tab = None
+            if micro_states is not None:
+                req_info = {key: {**val, 'store_idxs': (store_micro_idxs, 0)}
+                            for key, val in req_info.items()}
             req_info_ch, coef_info_ch = req_info, coef_info
 
         workers = multiproc.get_workers()
@@ -482,7 +488,11 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
             for task, (dep, snames) in zip(tasks, workers.map(wfun, tasks)):
                 dependencies[task] = dep
-                save_names.update(snames)
+                for key, val in snames.items():
+                    if isinstance(val, list):
+                        save_names.setdefault(key, []).extend(val)
+                    else:
+                        save_names[key] = val
 
                 if task in inverse_deps:
                     for itask in inverse_deps[task]:
-- 
2.43.0


From 4b2b4b1dd5d10f813212a9c876f781a666b48d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:51 +0000
Subject: [PATCH 213/215] fix: macroscopic data given in options in
 homogenization

---
 sfepy/homogenization/homogen_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index 8d881d1..19b09cd 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -50,7 +50,6 @@ class HomogenizationApp(PDESolverApp):
                                   self.app_options.get('n_micro', None))
         self.updating_corrs = None
         self.micro_state_cache = {}
-        self.micro_states = None if self.n_micro is None else {}
 
         # macroscopic data given in problem options dict.
         macro_data = self.app_options.macro_data
@@ -58,6 +57,7 @@ class HomogenizationApp(PDESolverApp):
             self.n_micro = macro_data[list(macro_data.keys())[0]].shape[0]
             self.setup_macro_data(macro_data)
 
+        self.micro_states = None if self.n_micro is None else {}
         if self.n_micro is not None:
             for k in self.app_options.micro_update:
                if not k == 'coors':
-- 
2.43.0


From 651290095ba0a5b53d3c71d35c0000ae2e40bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:13 +0000
Subject: [PATCH 214/215] fix: periodic conditions in deformed configurations

---
 sfepy/discrete/common/dof_info.py | 9 +++++++--
 sfepy/discrete/fem/fields_base.py | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 15f1c4c..5e2630a 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -454,8 +454,13 @@ class EquationMap(Struct):
                 if (nmaster.shape[0] == 0) and (nslave.shape[0] == 0):
                     continue
 
-                mcoor = field.get_coor(nmaster)
-                scoor = field.get_coor(nslave)
+                # Match the nodes in the undeformed configuration.
+                coors = getattr(field, 'coors_undeformed', None)
+                if coors is None:
+                    mcoor = field.get_coor(nmaster)
+                    scoor = field.get_coor(nslave)
+                else:
+                    mcoor, scoor = coors[nmaster], coors[nslave]
 
                 fun = get_condition_value(bc.match, functions, 'EPBC', bc.name)
                 if isinstance(fun, Function):
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 564f953..411af51 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -70,6 +70,10 @@ def set_mesh_coors(domain, fields, coors, update_fields=False, actual=False,
 
     if update_fields:
         for field in fields.values():
+            if not actual:
+                field.coors_undeformed = None
+            elif getattr(field, 'coors_undeformed', None) is None:
+                field.coors_undeformed = field.coors.copy()
             field.set_coors(coors, extra_dofs=extra_dofs)
             field.clear_mappings(clear_all=clear_all)
 
@@ -485,6 +489,7 @@ class FEField(Field):
         """
         mesh = self.domain.mesh
         self.coors = nm.empty((self.n_nod, mesh.dim), nm.float64)
+        self.coors_undeformed = None
         self.set_coors(mesh.coors)
 
     def get_vertices(self):
-- 
2.43.0


From 5bc4002bd82cd261c8a7a54f512346dd594465a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:20 +0000
Subject: [PATCH 215/215] fix: saved reference mappings correspond to
 undeformed configuration

---
 sfepy/discrete/common/fields.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index 933d82f..346d5ed 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -219,7 +219,8 @@ class Field(Struct):
         attribute. The mappings can be saved to `mappings0` using
         `Field.save_mappings`. The saved mapping can be retrieved by
         passing `get_saved=True`. If the required (saved) mapping
-        is not in cache, a new one is created.
+        is not in cache, a new one is created. The saved mappings correspond
+        to the undeformed configuration.
 
         Returns
         -------
@@ -238,8 +239,21 @@ class Field(Struct):
             out = self.mappings.get(key, None)
 
         if out is None:
-            out = self.create_mapping(region, integral, integration)
-            self.mappings[key] = out
+            mesh = getattr(self.domain, 'mesh', None)
+            coors_act = getattr(mesh, 'coors_act', None)
+            if get_saved and coors_act is not None:
+                del mesh.coors_act
+                try:
+                    out = self.create_mapping(region, integral, integration)
+
+                finally:
+                    mesh.coors_act = coors_act
+
+                self.mappings0[key] = out
+
+            else:
+                out = self.create_mapping(region, integral, integration)
+                self.mappings[key] = out
 
         if return_key:
             out = out + (key,)
-- 
2.43.0

