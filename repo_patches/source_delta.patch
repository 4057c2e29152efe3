From e412afc5bdebd1624f25346b6385450f669fce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 01/36] fix: trace_discrete_space looks elements up by cell id,
 not by graph node

---
 src/basis/basis_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..1bba803 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    _, c0_cell_id = neigh_list[neigh_idx]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
-- 
2.43.0


From c06fd2aea0bbcc31623c09be5388f9205c58ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 02/36] fix: polygon_normal from the polygon's vector area

Three vertices picked by their distance to the centroid can be aligned (a
rhombus, for example), which gave a zero normal, made convex_q answer no and
triangulate_polygon raise.
---
 .../operations/polygon_geometry_operations.py | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index e06868a..82806c9 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -34,24 +34,10 @@ def polygon_normal(points: np.array):
     # centroid
     xc = np.mean(points, axis=0)
 
-    # get two relevant in-plane directions
-    dxc = np.array([np.linalg.norm(point - xc) for point in points])
-    if np.isclose(np.max(dxc), np.min(dxc)):
-        pa = points[0]
-        pb = points[1]
-        pc = points[2]
-    else:
-        pa = points[np.argmax(dxc)]
-        points_red = np.delete(points, np.argmax(dxc), axis=0)
-        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))
-        dxc_red = np.delete(dxc, np.argmax(dxc), axis=0)
-        overall_dxc_red = np.linalg.norm(np.mean(points_red, axis=0) - xc)
-        dxc_red = np.append(dxc_red, overall_dxc_red)
-        pb = points_red[np.argmax(dxc_red)]
-        pc = points_red[np.argmin(dxc_red)]
-
-    # normal vector of the polygon
-    normal = __normalize(np.cross(pb - pa, pc - pa))
+    # normal vector of the polygon: twice its vector area, which is independent
+    # of the starting vertex and does not vanish for aligned vertices
+    v = points - xc
+    normal = __normalize(np.sum(np.cross(v, np.roll(v, -1, axis=0)), axis=0))
     return normal
 
 
-- 
2.43.0


From f3ee9584c7eb9e058016be555710bbe1935456e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 03/36] fix: triangulate_polygon tiles non-convex polygons
 whose edges are not Delaunay edges

The Delaunay triangulation of the vertices need not contain every edge of a
non-convex polygon; the kept triangles then overlap the outside or miss a part.
---
 .../operations/polygon_geometry_operations.py | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index 82806c9..3bd1eb5 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -111,6 +111,45 @@ def triangulate_convex_polygon(points: np.array):
     return np.array(triangles)
 
 
+def __signed_area(triangle: np.array, normal: np.array):
+    a, b, c = triangle
+    return 0.5 * np.dot(normal, np.cross(b - a, c - a))
+
+
+def __ear_q(points: np.array, corner: list, remaining: list, normal: np.array):
+    # no remaining vertex belongs to the closed triangle spanned by the corner
+    a, b, c = points[corner]
+    for p in points[[i for i in remaining if i not in corner]]:
+        sides = ([a, b, p], [b, c, p], [c, a, p])
+        if min(__signed_area(side, normal) for side in sides) >= 0.0:
+            return False
+    return True
+
+
+def __clip_ears(points: np.array):
+    normal = polygon_normal(points)
+    remaining = list(range(len(points)))
+    triangles = []
+    while len(remaining) > 2:
+        n = len(remaining)
+        corners = [
+            [remaining[i - 1], remaining[i], remaining[(i + 1) % n]] for i in range(n)
+        ]
+        areas = [__signed_area(points[corner], normal) for corner in corners]
+        tol = 1.0e-12 * np.max(np.abs(areas))
+        # a vertex aligned with its neighbours does not bound any area
+        clip = next((i for i in range(n) if np.abs(areas[i]) <= tol), None)
+        if clip is None:
+            clip = next(
+                i
+                for i in range(n)
+                if areas[i] > 0.0 and __ear_q(points, corners[i], remaining, normal)
+            )
+            triangles.append(points[corners[clip]])
+        del remaining[clip]
+    return np.array(triangles)
+
+
 def triangulate_polygon(points: np.array):
 
     if convex_q(points):
@@ -125,6 +164,13 @@ def triangulate_polygon(points: np.array):
     # Get the triangles
     triangles_R2 = delaunay.simplices
 
+    # The triangles tile the polygon only if every polygon edge is one of theirs,
+    # which a Delaunay triangulation of the vertices does not guarantee
+    n_points = len(points)
+    edges = {frozenset((t[i - 1], t[i])) for t in triangles_R2 for i in range(3)}
+    if any(frozenset((i, (i + 1) % n_points)) not in edges for i in range(n_points)):
+        return __clip_ears(points)
+
     # delete triangles outside the original polygon
     triangle_xc = np.mean(points[:, dir_idx][triangles_R2], axis=1)
     polygon_winding = partial(winding_number, polygon_points=points[:, dir_idx])
-- 
2.43.0


From 04b99379dcd3fbd56cf1160a5d46ee2607e94db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 04/36] fix: unpair_intergers recovers the pair

The elegant pairing is inverted with the integer part of the square root; with
the real root the first test never fails and no pair but (0, y) is recovered.
---
 src/geometry/fracture_network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index c625b8f..414b161 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -1,3 +1,5 @@
+import math
+
 import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
@@ -294,11 +296,12 @@ class FractureNetwork:
     def unpair_intergers(self, z):
         # http://szudzik.com/ElegantPairing.pdf
         pair = None
-        test = z - np.sqrt(z) ** 2 < np.sqrt(z)
-        if test:
-            pair = [z - np.sqrt(z) ** 2, np.sqrt(z)]
+        root = math.isqrt(z)
+        rest = z - root**2
+        if rest < root:
+            pair = [rest, root]
         else:
-            pair = [np.sqrt(z), z - np.sqrt(z) ** 2 - np.sqrt(z)]
+            pair = [root, rest - root]
         return pair
 
     def shift_point_ids(self, shift=0):
-- 
2.43.0


From d1b22c9495e004e73954c45f11be7588a84f434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 05/36] fix: line_triangle_intersection returns None when the
 plane is met outside the segment

False was returned, which lines_triangle_intersection kept in its results
although the mask says no intersection.
---
 src/geometry/operations/line_geometry_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 2b33ca1..1e2711a 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -218,7 +218,7 @@ def line_triangle_intersection(
     # Calculate the distance from line_start to the plane of the triangle
     d = np.dot(normal, a - p) / denom
     if d < 0 or d > 1:
-        return False
+        return None
 
     # Calculate the intersection point on the line
     intx_point = p + d * line_dir
-- 
2.43.0


From aa508709b250bf615bbfc3848b6f573618fafc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 06/36] fix: shape equality compares boundary and immersed
 shapes separately

---
 src/topology/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index fdae18c..e25a7b7 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -141,7 +141,7 @@ class Shape(ABC):
 
         equality_by_immersed_shapes = True
         if self.immersed_shapes.size != 0 and n_immersed_shapes_q:
-            equality_by_boundary_shapes = np.all(
+            equality_by_immersed_shapes = np.all(
                 np.array(
                     [
                         shape == other_shape
-- 
2.43.0


From 03909ad945f0a1f7245c9f8990df776329a959a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 07/36] fix: comparing a vertex with a shape of another
 dimension answers False instead of raising

---
 src/topology/vertex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/topology/vertex.py b/src/topology/vertex.py
index 4f2c17f..68aab2e 100644
--- a/src/topology/vertex.py
+++ b/src/topology/vertex.py
@@ -15,6 +15,8 @@ class Vertex(Shape):
 
     def __eq__(self, other):
         identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)
+        if not identity_check:
+            return False
         geometry_check = np.all(np.isclose(self.point, other.point))
         return identity_check and geometry_check
 
-- 
2.43.0


From d92726105c2e21c4cb86280650311c38ccd5c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 08/36] fix: create_domain keys shapes by index, not by a hash
 that collides for tags -1 and -2

---
 src/topology/operations/domain_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 305c906..19068fb 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -35,7 +35,9 @@ def create_domain(dimension, shapes: np.array):
     shapes_by_co_dimension = [{} for _ in range(dimension + 1)]
     for shape in shapes:
         co_dimension = dimension - shape.dimension
-        shapes_by_co_dimension[co_dimension][shape.hash()] = shape
+        shapes_by_co_dimension[co_dimension][shape.index(max_dimension=dimension)] = (
+            shape
+        )
 
     # append shapes
     for c_shapes in shapes_by_co_dimension:
-- 
2.43.0


From 8f164079dcf82b26293367f884caaaab98269a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 09/36] fix: scale 1D vector basis functions point by point

---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..ff97ab1 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -177,8 +177,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            scale = (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0])) / det_jac
+            phi_mapped[:, :, 0] = scale[:, np.newaxis] * phi_mapped[:, :, 0]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0


From 4fc33b2cfdfb307dda0ba5b6b4eb7d9b15dbfc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 10/36] fix: family name N2E selects the second-kind Nedelec
 family

---
 src/basis/element_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/element_family.py b/src/basis/element_family.py
index 8b902de..996eff2 100644
--- a/src/basis/element_family.py
+++ b/src/basis/element_family.py
@@ -7,7 +7,7 @@ def family_by_name(family):
         "BDM": ElementFamily.BDM,
         "RT": ElementFamily.RT,
         "N1E": ElementFamily.N1E,
-        "N2E": ElementFamily.N1E,
+        "N2E": ElementFamily.N2E,
     }
     return families[family]
 
-- 
2.43.0


From 38a238fda8576607001312b62eff7e3bb5fb0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 11/36] fix: Laplace primal forms take the quadrature of their
 own dimension and the neighbour's id

---
 src/weak_forms/laplace_primal_weak_form.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..3ebf815 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -23,7 +23,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +84,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -106,7 +106,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = p_space.id_to_element[neigh_cell_id]
         neigh_element = p_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
-- 
2.43.0


From 685f6015938be3844d86dab8bb19d23df335df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 12/36] fix: Laplace Dirichlet form collects every trace
 function of an entity

---
 src/weak_forms/laplace_primal_weak_form.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index 3ebf815..97631f1 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -125,10 +125,9 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
             dof_idxs_per_entity = []
             for id in cell.sub_cells_ids[entity_dim]:
                 index = neigh_cell.sub_cells_ids[entity_dim].tolist().index(id)
-                if len(neigh_element.data.dof.entity_dofs[entity_dim][index]) == 0:
-                    continue
-                dof_n_index = neigh_element.data.dof.entity_dofs[entity_dim][index][0]
-                dof_idxs_per_entity.append(dof_n_index)
+                dof_idxs_per_entity.extend(
+                    neigh_element.data.dof.entity_dofs[entity_dim][index]
+                )
             if len(dof_idxs_per_entity) == 0:
                 continue
             dof_idxs.append(dof_idxs_per_entity)
-- 
2.43.0


From 09b425d6b4aba014e2df394c6a8bb57fc8224240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 13/36] fix: Laplace dual form evaluates its residual at the
 given state

---
 src/weak_forms/laplace_dual_weak_form.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/weak_forms/laplace_dual_weak_form.py b/src/weak_forms/laplace_dual_weak_form.py
index 6427c5c..7e43939 100644
--- a/src/weak_forms/laplace_dual_weak_form.py
+++ b/src/weak_forms/laplace_dual_weak_form.py
@@ -43,7 +43,6 @@ class LaplaceDualWeakForm(WeakForm):
             "p": slice(n_q_dof, n_q_dof + n_p_dof),
         }
 
-        alpha = np.zeros(n_dof)
         # Partial local vectorization
         f_val_star = f_rhs(x[:, 0], x[:, 1], x[:, 2])
         phi_s_star = det_jac * weights * p_phi_tab[0, :, :, 0].T
-- 
2.43.0


From 55e3cfff3b64540c0fc79355a2110bd1f256fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 14/36] fix: elastic dual and Riesz forms take the quadrature
 of their own dimension

---
 src/weak_forms/le_dual_weak_form.py      | 2 +-
 src/weak_forms/le_riesz_map_weak_form.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..87c4410 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From a0885a710b72e67dcb3d3ede4f09a485a662298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 15/36] fix: essential traction forms use the current element
 interface

---
 src/weak_forms/lce_scaled_dual_weak_form.py | 34 ++++++++++++++-------
 src/weak_forms/le_dual_weak_form.py         | 21 ++++++++-----
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/weak_forms/lce_scaled_dual_weak_form.py b/src/weak_forms/lce_scaled_dual_weak_form.py
index bab11ed..a77fe84 100644
--- a/src/weak_forms/lce_scaled_dual_weak_form.py
+++ b/src/weak_forms/lce_scaled_dual_weak_form.py
@@ -827,14 +827,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         m_data: ElementData = m_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
-        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
+        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
 
         n_s_phi = s_phi_tab.shape[2]
         n_m_phi = m_phi_tab.shape[2]
@@ -852,14 +854,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
@@ -870,14 +877,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, m_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = m_space.id_to_element[neigh_cell_id]
         neigh_element = m_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute M trace space
         mapped_points = transform_lower_to_higher(points, m_data, neigh_element.data)
-        m_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        m_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_m_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index 87c4410..e97c938 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -589,13 +589,13 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         s_data: ElementData = s_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
         n_s_phi = s_phi_tab.shape[2]
 
         n_s_dof = n_s_phi * s_components
@@ -610,14 +610,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
-- 
2.43.0


From 6461af5ffbf6080c046fbeb41654343fc8be3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 16/36] fix: degenerate elliptic boundary form no longer scales
 the user's pressure values in place

---
 src/weak_forms/degenerate_elliptic_weak_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_forms/degenerate_elliptic_weak_form.py b/src/weak_forms/degenerate_elliptic_weak_form.py
index 922f26b..da2e271 100644
--- a/src/weak_forms/degenerate_elliptic_weak_form.py
+++ b/src/weak_forms/degenerate_elliptic_weak_form.py
@@ -207,7 +207,7 @@ class DegenerateEllipticWeakFormBCDirichlet(WeakForm):
                 d_phi = f_d_phi(x[i, 0], x[i, 1], x[i, 2])
                 phi_v = f_porosity(x[i, 0], x[i, 1], x[i, 2])
                 if not np.isclose(phi_v, 0.0) and phi_v > 0.0:
-                    q_D_v *= d_phi / np.sqrt(phi_v)
+                    q_D_v = q_D_v * (d_phi / np.sqrt(phi_v))
                 phi = mp_tr_phi_tab[0, i, mp_dof_n_index, 0:dim] @ n[0:dim]
                 res_block_mp += det_jac[i] * omega * q_D_v[c] * phi
 
-- 
2.43.0


From 304eb2b5e22b7038bf7c970e6abf46b6cbe3fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 17/36] fix: the L2 projector keeps small mass matrix entries

---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..d088dfe 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -41,7 +41,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.nonzero(data)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From ba076641ae2385f892bde601f5d3a5a9b691a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 18/36] fix: L2 norms of scalar-family fields count every
 component

---
 src/postprocess/l2_error_post_processor.py       | 6 +++---
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..d4693ac 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -33,8 +33,8 @@ def l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star).T
                 l2_error += np.sum(
                     det_jac * weights * (f_e_s - f_h_s) * (f_e_s - f_h_s)
                 )
@@ -91,7 +91,7 @@ def l2_error_projected(dim, fe_space, alpha, skip_fields=[], dof_shift=0):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star).T
                 l2_error += np.sum(det_jac * weights * f_h_s * f_h_s)
             else:
                 f_h = np.array(
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index d6a2aa2..bdd751f 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -26,7 +26,7 @@ def l2_norm(dim, fe_space, functions, skip_fields=[]):
             # vectorization
             exact = functions[name]
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
                 l2_norm += np.sum(det_jac * weights * (f_e_s) * (f_e_s))
             else:
                 f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-- 
2.43.0


From d49dddb8ded65388b68980b2871ed137f045c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 19/36] fix: grad_error evaluates the basis at the quadrature
 of the space

---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index d4693ac..efda0e0 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -124,6 +124,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e3 = np.array([0, 0, 1])
 
     grad_errors = []
+    points, weights = fe_space.quadrature[dim]
     for item in fe_space.discrete_spaces.items():
         name, space = item
         grad_error = 0.0
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From e627d6b4f87df965defe9ae05ffe1cb8437cde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 20/36] fix: deviatoric norms use the quadrature of the
 dimension and the mean trace over all cells

---
 src/postprocess/l2_error_post_processor.py       | 10 ++++++----
 src/postprocess/solution_norms_post_processor.py |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index efda0e0..7afa37c 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -307,7 +307,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -317,6 +317,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        volume = 0.0
         tr_T_e_avg = 0.0
         tr_T_h_avg = 0.0
         exact = functions[name]
@@ -353,14 +354,15 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
                     for k in range(len(points))
                 ]
             )
-            tr_T_e_avg = np.sum(
+            volume += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
-            tr_T_h_avg = np.sum(
+            tr_T_h_avg += np.sum(
                 (det_jac * weights * np.trace(f_h, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, (tr_T_e_avg, tr_T_h_avg))
+        tr_T_avgs.__setitem__(name, (tr_T_e_avg / (volume or 1.0), tr_T_h_avg / (volume or 1.0)))
 
     l2_errors = []
     for item in fe_space.discrete_spaces.items():
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index bdd751f..6bfe616 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -84,7 +84,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -94,6 +94,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        volume = 0.0
         tr_T_e_avg = 0.0
         exact = functions[name]
         indexes = [
@@ -109,11 +110,12 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
 
             # vectorization
             f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-            tr_T_e_avg = np.sum(
+            volume += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, tr_T_e_avg)
+        tr_T_avgs.__setitem__(name, tr_T_e_avg / (volume or 1.0))
 
     l2_norms = []
     for item in fe_space.discrete_spaces.items():
-- 
2.43.0


From ad3a6665bbb051718a65f9217a4174cdd791ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 21/36] fix: orient a wire from the end its first edge does not
 share with the second

---
 src/topology/wire.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index e04df3c..ee8621a 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -40,11 +40,22 @@ class Wire(Shape):
                 self.admissible_dimensions(),
             )
 
+    @staticmethod
+    def seed_vertex(edges):
+        # lower tagged end of the first edge, unless it is the one shared with the
+        # second edge
+        first, last = sorted(edges[0].boundary_shapes, key=lambda shape: shape.tag)
+        if len(edges) > 1:
+            next_vertices = edges[1].boundary_shapes
+            first_shared_q = any(first == vertex for vertex in next_vertices)
+            last_shared_q = any(last == vertex for vertex in next_vertices)
+            if first_shared_q and not last_shared_q:
+                return last
+        return first
+
     def orient_immersed_edges(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.seed_vertex(edges)
 
         self.orientation = []
         for edge in edges:
@@ -58,9 +69,7 @@ class Wire(Shape):
 
     def orient_immersed_vertices(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.seed_vertex(edges)
 
         vertices = []
         for edge in edges:
-- 
2.43.0


From 5199d9daea59b81737e553f58c8782040b20d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 22/36] fix: sort the pieces of each boundary side along the
 direction of the boundary wire

---
 src/topology/domain_market.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..a08cbbc 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -274,14 +274,15 @@ def create_md_box_2D(
     edges = edges[e_intx_q]
 
     wire_edges = []
-    for boundary_edge in rock_domain_edges:
+    rock_wire = rock_domain.shapes[2][0].boundary_shapes[0]
+    for boundary_edge, sign in zip(rock_wire.immersed_shapes, rock_wire.orientation):
         sub_edges = np.array(
             [edge for edge in edges if edge.physical_tag == boundary_edge.physical_tag]
         )
         sub_edges_xcs = np.array(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
-        a, b = boundary_edge.boundary_points()
+        a, b = boundary_edge.boundary_points()[::sign]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0


From ec020ee91f4f2a369a8570e3ef8597408355a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 23/36] fix: a duplicated vertex lists its own cell id as its
 0-dimensional sub cell

---
 src/mesh/mesh.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..49ae95a 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -875,9 +875,7 @@ class Mesh:
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
                 mesh_cell.set_physical_name("sp_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -894,9 +892,7 @@ class Mesh:
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
                 mesh_cell.set_physical_name("sm_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1121,9 +1117,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1139,9 +1133,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
-- 
2.43.0


From 88f59f7ae885f66499ae538847015dec0f538170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 24/36] fix: leave the edges of a fracture line out of the side
 classification of its neighbours

---
 src/mesh/mesh_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8a08313..3b767cd 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -381,7 +381,9 @@ def cut_conformity_along_c1_line(
     # g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
     c1_cells_data = [list(g_d1_0d.predecessors(cell.index())) for cell in c2_cells]
     c1_cells_idx = np.array(list(itertools.chain(*c1_cells_data)))
-    c1_cell_ids = np.unique([cell_idx[1] for cell_idx in c1_cells_idx])
+    c1_cell_ids = np.setdiff1d(
+        [cell_idx[1] for cell_idx in c1_cells_idx], [cell.id for cell in c1_cells]
+    )
     c1_cells = np.array([mesh.cells[c1_id] for c1_id in c1_cell_ids])
     c1_xcs = np.array([cell_centroid(cell, mesh) for cell in c1_cells])
     c1_dirs = c1_xcs - np.mean([a, b], axis=0)
-- 
2.43.0


From 28f42bc7b971a268f7dec903ee3b6bc04c43bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 25/36] fix: cut a fracture line that has no vertex to separate

---
 src/mesh/mesh.py            | 2 ++
 src/mesh/mesh_operations.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 49ae95a..faf150b 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -114,6 +114,8 @@ class Mesh:
         return self.cells.shape[0]
 
     def append_cells(self, cells: np.array):
+        if len(cells) == 0:
+            return
         min_cell_id = np.min(np.array([cell.id for cell in cells]))
         if self.max_cell_id() - 1 >= min_cell_id:
             raise ValueError(
diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 3b767cd..46e1245 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -171,6 +171,8 @@ def __duplicate_cells(cell_id, cells, physical_tag_map={}):
 
 
 def duplicate_mesh_points_from_0d_cells(cells_0d, mesh, bump_args=None):
+    if len(cells_0d) == 0:
+        return
     node_tags = np.concatenate([cell.node_tags for cell in cells_0d])
     new_points = mesh.points[node_tags].copy()
     if bump_args is not None:
@@ -228,6 +230,8 @@ def replace_nodes_in_grahp(node_pairs, graph):
 
 
 def update_cells_with_cell_pairs(cells, cell_pairs, mesh):
+    if len(cells) == 0:
+        return
     cells_dims = np.array([cell.dimension for cell in cells])
     max_dim = np.max(cells_dims)
     min_dim = np.min(cells_dims)
@@ -301,6 +305,7 @@ def cut_conformity_along_c1_line(
 
     # classify associated c0 cells
     g_d_0d = mesh.build_graph(mesh.dimension, mesh.dimension)
+    g_d_1d = mesh.build_graph(mesh.dimension, 1)
     g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
 
     # collect c2 cells
@@ -314,6 +319,7 @@ def cut_conformity_along_c1_line(
     ]
 
     c0_cells_data = [list(g_d_0d.predecessors(cell.index())) for cell in c2_cells]
+    c0_cells_data += [list(g_d_1d.predecessors(cell.index())) for cell in c1_cells]
     c0_cells_idx = np.array(list(itertools.chain(*c0_cells_data)))
     c0_cell_ids = np.unique([cell_idx[1] for cell_idx in c0_cells_idx])
     c0_cells = np.array([mesh.cells[c0_id] for c0_id in c0_cell_ids])
@@ -375,6 +381,8 @@ def cut_conformity_along_c1_line(
     interface = {}
     interface["c1"] = [c1_cells, positive_c1_cells, negative_c1_cells]
     interface["c2"] = [c2_cells, positive_c2_cells, negative_c2_cells]
+    if len(c2_cells) == 0:  # no vertex to separate
+        return interface
 
     # update c1 cells
     # # classify associated c1 cells
-- 
2.43.0


From d107c0db58653b3ca4e0b0f860daedfc8e0d22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 26/36] fix: build the boundary wire of a fractured rectangle
 from the pieces on each side, also when sides share a tag

---
 src/topology/domain_market.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index a08cbbc..cc3ab50 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -283,7 +283,10 @@ def create_md_box_2D(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
         a, b = boundary_edge.boundary_points()[::sign]
-        idx = points_line_argsort(sub_edges_xcs, a, b)
+        # sides can share a physical tag
+        out, intx_q = points_line_intersection(sub_edges_xcs, a, b)
+        sub_edges = sub_edges[intx_q]
+        idx = points_line_argsort(sub_edges_xcs[intx_q], a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
     wire_boundary = wire_edges[0].boundary_shapes[[0]]  # closed
-- 
2.43.0


From 4a2498fd80bced02fdeab34b80aec84f54da82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 27/36] fix: exported Lagrange fields keep all their components

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..ad6ff0c 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -50,7 +50,7 @@ def node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha):
 
         # Generalized displacement
         if space.family is family_by_name("Lagrange"):
-            f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+            f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
         else:
             f_h = np.vstack(
                 tuple(
@@ -95,7 +95,7 @@ def cell_centered_quatity(cell, fe_space, name, alpha):
 
     # Generalized displacement
     if space.family is family_by_name("Lagrange"):
-        f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+        f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
     else:
         f_h = np.vstack(
             tuple([phi_tab[0, 0, :, 0:dim].T @ alpha_star[:, c] for c in range(n_comp)])
-- 
2.43.0


From 276d39eb5bafb08b715826ac34a2a21586a28e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 28/36] fix: exported pointwise error is the norm over the
 components

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index ad6ff0c..8503bef 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -363,7 +363,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[cell_idx] = e_f.ravel()
 
             c_data_dict[name + "_error"] = [eh_data]
@@ -382,7 +382,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = gmesh.points[node_idx]
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[node_idx] = e_f.ravel()
 
             p_data_dict[name + "_error"] = eh_data
-- 
2.43.0


From 483401a7a04e98e71b52632e1781c9b2ece910f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 29/36] fix: the vertex where two edges cross is located at a
 point

---
 src/topology/operations/edge_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index d73fb0f..26cc70f 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -87,4 +87,4 @@ def edge_edge_intersection(
     if out is None:
         return None
     else:
-        return Vertex(tag, out)
+        return Vertex(tag, out[0])
-- 
2.43.0


From 650f93cb3e30b56706e3003d4639da19fd5d221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 30/36] fix: intersecting vertices with edges keeps tags
 distinct and the edges unmodified

---
 src/topology/operations/vertex_operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 1c9a3f7..eff1806 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -128,8 +128,10 @@ def vertices_edge_intersection(
     for idx, shape in enumerate(resulting_shapes):
         if shape is None:
             continue
-        shape.tag = tag
-        tag += 1
+        # the edge's own vertices keep their tags
+        if not any(shape is vertex for vertex in edge_object.boundary_shapes):
+            shape.tag = tag
+            tag += 1
         shape_intx.append(shape)
         shapes_tool.append(vertices_tool[idx])
     shape_intx = np.array(shape_intx)
@@ -149,7 +151,7 @@ def vertices_edges_intersection(
         shape_intx, shapes_tool = vertices_edge_intersection(
             vertices_tool, edge, tag, eps
         )
-        tag = np.max([shape.tag for shape in shape_intx])
+        tag += len(shape_intx)
         output.append((edge, shape_intx, shapes_tool))
     return output
 
-- 
2.43.0


From 16c3c1ec8aee1b83c608103681e4530226b7eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 31/36] fix: one physical tag per exported tetrahedron

---
 src/mesh/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index faf150b..dd5d805 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -437,7 +437,9 @@ class Mesh:
             [
                 cell.material_id
                 for cell in self.cells
-                if cell.dimension == 3 and cell.id is not None
+                if cell.dimension == 3
+                and cell.id is not None
+                and cell.material_id is not None
             ]
         )
         entity_tags_3d = np.array(
-- 
2.43.0


From 4337b567a85128b8ee17406586f1f881085809ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 32/36] fix: product spaces with fields on points

---
 src/spaces/product_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spaces/product_space.py b/src/spaces/product_space.py
index 806c97b..10f86c9 100644
--- a/src/spaces/product_space.py
+++ b/src/spaces/product_space.py
@@ -41,6 +41,8 @@ class ProductSpace:
         self.bc_quadrature = [None, None, None, None]
         for dim in dims:
             dim -= 1
+            if dim < 0:  # points have no boundary
+                continue
             if dim == 0:
                 self.bc_quadrature[dim] = (np.array([1.0]), np.array([1.0]))
             else:
-- 
2.43.0


From 820974ef4022d19651fb9e1a14882e78eb092cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 33/36] fix: a space rebuilt without boundary tags drops its
 earlier boundary elements

---
 src/spaces/discrete_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 76b2eac..09b4e59 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -60,6 +60,10 @@ class DiscreteSpace:
 
     def build_boundary_structures(self, bc_physical_tags=[None]):
         if len(bc_physical_tags) == 0:
+            # no boundary requested: drop the elements of an earlier build
+            self.bc_elements = []
+            self.bc_element_ids = []
+            self.id_to_bc_element = {}
             return
         self._build_bc_elements(bc_physical_tags)
 
-- 
2.43.0


From 9c0105089686bf8959eebca0c4dd8a199a2b65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 34/36] fix: retagging a domain numbers immersed shapes with
 those of their own dimension

---
 src/topology/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/domain.py b/src/topology/domain.py
index b3bbd4a..57fd488 100644
--- a/src/topology/domain.py
+++ b/src/topology/domain.py
@@ -55,7 +55,7 @@ class Domain:
             tag += 1
             if len(shape.immersed_shapes):
                 for j, ishape in enumerate(shape.immersed_shapes):
-                    if shape.dimension != dim:
+                    if ishape.dimension != dim:
                         continue
                     ishape.tag = tag
                     tag += 1
-- 
2.43.0


From 52ad77292ca86d9476a322ba5686991360a29590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 35/36] fix: orient a wire along its divided edges in any
 listing

---
 src/topology/wire.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index ee8621a..43d070d 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -57,15 +57,23 @@ class Wire(Shape):
         edges = self.immersed_shapes
         seed_vertex = self.seed_vertex(edges)
 
-        self.orientation = []
-        for edge in edges:
+        self.orientation = np.zeros(len(edges), dtype=int)
+        pending = list(range(len(edges)))
+        while pending:
+            # the fragments of an edge can be listed against the direction of the wire
+            index = pending[0]
+            for i in pending:
+                if any(seed_vertex == vertex for vertex in edges[i].boundary_shapes):
+                    index = i
+                    break
+            pending.remove(index)
+            edge = edges[index]
             if seed_vertex == edge.boundary_shapes[0]:
-                self.orientation.append(1)
+                self.orientation[index] = 1
                 seed_vertex = edge.boundary_shapes[1]
             else:
-                self.orientation.append(-1)
+                self.orientation[index] = -1
                 seed_vertex = edge.boundary_shapes[0]
-        self.orientation = np.array(self.orientation)
 
     def orient_immersed_vertices(self):
         edges = self.immersed_shapes
-- 
2.43.0


From d9fb91118a423b8fdb1d32b39da226f1e8011b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 36/36] fix: edges that end on one another meet whatever the
 rounding

---
 src/topology/shape_manipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index c7255d0..1aa734b 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -232,8 +232,10 @@ def intersect_edges(
             p, q = [shape.point for shape in edge_j.boundary_shapes]
             if i >= j:
                 continue
+            # edges that end on one another meet whatever the rounding
+            ab, pq = tt_test.eps * (b - a), tt_test.eps * (q - p)
             intersection_data = tt_test.line_line_intersection(
-                a, b, p, q, pos, render_intersection_q
+                a - ab, b + ab, p - pq, q + pq, pos, render_intersection_q
             )
             if intersection_data[0]:
                 new_point = intersection_data[1]
-- 
2.43.0

