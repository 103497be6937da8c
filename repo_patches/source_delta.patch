From a482b628a1a6ee03723b258fb678dcd4629cc6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 01/43] fix: invalidate every derived quantity when an
 operation changes the mesh

Scaling, merging, healing and flipping left stale surface integrals, areas,
connectivities or triangle lists behind, and heal_normals both consumed the
cached face/face connectivity and judged the outward orientation on normals
computed before the faces were reversed.
---
 meshmagick/mesh.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c410b32..95f4c9a 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1396,8 +1396,7 @@ class Mesh(object):
         vertices *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1415,8 +1414,7 @@ class Mesh(object):
         vertices[:, 0] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1434,8 +1432,7 @@ class Mesh(object):
         vertices[:, 1] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1453,8 +1450,7 @@ class Mesh(object):
         vertices[:, 2] *= float(alpha)
         self._vertices = vertices
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
 
         return
 
@@ -1464,11 +1460,9 @@ class Mesh(object):
         faces = self._faces.copy()
         self._faces = np.fliplr(faces)
 
-        if self._has_faces_properties():
-            self.__internals__['faces_normals'] *= -1
-
-        if self.has_surface_integrals():
-            self._remove_surface_integrals()
+        # Warped quadrangles are split along the other diagonal and boundaries are travelled the other way
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         return
 
@@ -1549,6 +1543,8 @@ class Mesh(object):
                 print(("\t--> Final number of vertices   : %u" % nv_final))
                 print(("\t--> %u vertices have been merged\n" % delta_n))
 
+        self._remove_faces_properties()
+
         if self._has_connectivity():
             self._remove_connectivity()
 
@@ -1569,7 +1565,7 @@ class Mesh(object):
         # Building connectivities
         v_v = self.vv
         v_f = self.vf
-        f_f = self.ff
+        f_f = dict((iface, set(adj_faces)) for iface, adj_faces in self.ff.items())
         boundaries = self.boundaries
 
         if len(boundaries) > 0:
@@ -1643,6 +1639,10 @@ class Mesh(object):
 
         self._faces = faces
 
+        if nb_reversed > 0:
+            self._remove_faces_properties()
+            self._remove_connectivity()
+
         # Checking if the normals are outward
         if mesh_closed:
             zmax = np.max(self._vertices[:, 2])
@@ -1673,9 +1673,6 @@ class Mesh(object):
             if self._verbose:
                 print("\t--> Mesh is not closed, meshmagick cannot test if the normals are outward")
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
-
         return
 
     def remove_unused_vertices(self):
@@ -1718,8 +1715,8 @@ class Mesh(object):
 
         A general face is stored internally as a 4 integer array. It allows to describe indices of a quadrangle's vertices. For triangles, the first index should be equal to the last. This method ensures that this rule is applied everywhere and correct bad triangles description.
         """
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         faces = self._faces
 
@@ -1778,8 +1775,8 @@ class Mesh(object):
 
         self._faces = faces
 
-        if self._has_faces_properties():
-            self._remove_faces_properties()
+        self._remove_faces_properties()
+        self._remove_connectivity()
 
         return
 
-- 
2.43.0


From d03d70c212fdafc18cc1db89edecbddfe38db583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 02/43] fix: a mesh is closed only when no edge belongs to a
 single face

Boundary edges leaving the same vertex overwrote each other and open chains
were dropped, so that meshes with holes and inconsistent orientations were
declared closed.
---
 meshmagick/mesh.py | 62 ++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 95f4c9a..01c0c74 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -978,34 +978,39 @@ class Mesh(object):
                     else:
                         i_v_target, i_v_orig = boundary_face[ids]
 
-                    boundary_edges[i_v_orig] = i_v_target
+                    # Several boundary edges may leave the same vertex
+                    targets = boundary_edges.setdefault(i_v_orig, [])
+                    if i_v_target not in targets:
+                        targets.append(i_v_target)
                 else:
                     raise RuntimeError('Unexpected error while computing mesh connectivities')
 
+        # The mesh is closed when every edge is shared by two faces
+        no_boundary_edge = len(boundary_edges) == 0
+
         # Computing boundaries
         boundaries = list()
         # TODO: calculer des boundaries fermees et ouvertes (closed_boundaries et open_boundaries) et mettre dans dict
-        while True:
-            try:
-                boundary = list()
-                i_v0_init, i_v1 = boundary_edges.popitem()
-                boundary.append(i_v0_init)
-                boundary.append(i_v1)
-                i_v0 = i_v1
-
-                while True:
-                    try:
-                        i_v1 = boundary_edges.pop(i_v0)
-                        boundary.append(i_v1)
-                        i_v0 = i_v1
-                    except KeyError:
-                        if boundary[0] != boundary[-1]:
-                            mesh_closed = False
-                        else:
-                            boundaries.append(boundary)
-                        break
-            except KeyError:
-                break
+
+        def pop_target(i_v_orig):
+            targets = boundary_edges[i_v_orig]
+            i_v_target = targets.pop()
+            if not targets:
+                del boundary_edges[i_v_orig]
+            return i_v_target
+
+        while boundary_edges:
+            i_v0 = next(reversed(boundary_edges))
+            boundary = [i_v0]
+            while i_v0 in boundary_edges:
+                i_v0 = pop_target(i_v0)
+                boundary.append(i_v0)
+                if i_v0 == boundary[0]:
+                    break
+            if boundary[0] == boundary[-1]:
+                boundaries.append(boundary)
+            else:
+                mesh_closed = False
 
         if not mesh_closed:
             print('FOUND OPEN BOUNDARY!!!')
@@ -1013,7 +1018,8 @@ class Mesh(object):
         connectivity = {'v_v': v_v,
                         'v_f': v_f,
                         'f_f': f_f,
-                        'boundaries': boundaries}
+                        'boundaries': boundaries,
+                        'no_boundary_edge': no_boundary_edge}
         self.__internals__.update(connectivity)
 
         return
@@ -1027,6 +1033,7 @@ class Mesh(object):
             del self.__internals__['v_f']
             del self.__internals__['f_f']
             del self.__internals__['boundaries']
+            del self.__internals__['no_boundary_edge']
         return
 
     @property
@@ -1142,7 +1149,7 @@ class Mesh(object):
         """
         if 'boundaries' not in self.__internals__:
             self._connectivity()
-        return len(self.__internals__['boundaries']) == 0
+        return self.__internals__['no_boundary_edge']
 
     def is_mesh_conformal(self):
         """Returns if the mesh is conformal.
@@ -1566,12 +1573,7 @@ class Mesh(object):
         v_v = self.vv
         v_f = self.vf
         f_f = dict((iface, set(adj_faces)) for iface, adj_faces in self.ff.items())
-        boundaries = self.boundaries
-
-        if len(boundaries) > 0:
-            mesh_closed = False
-        else:
-            mesh_closed = True
+        mesh_closed = self.is_mesh_closed()
 
         # Flooding the mesh to find inconsistent normals
         type_cell = np.zeros(nf, dtype=int)
-- 
2.43.0


From ddf94522fc9e785e513e37448dd62d5f511b54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 03/43] fix: edge length statistics counted a null edge for
 every triangle

---
 meshmagick/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 01c0c74..c4af91e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2028,9 +2028,13 @@ class Mesh(object):
         """Computes the min, max, and mean of the mesh's edge length"""
         vertices = self.vertices[self.faces]
         edge_length = np.zeros((self.nb_faces, 4), dtype=float)
+        is_edge = np.zeros((self.nb_faces, 4), dtype=bool)
         for i in range(4):
             edge = vertices[:, i, :] - vertices[:, i-1, :]
             edge_length[:, i] = np.sqrt(np.einsum('ij, ij -> i', edge, edge))
+            # The fourth edge of a triangle links a vertex to itself
+            is_edge[:, i] = self.faces[:, i] != self.faces[:, i-1]
+        edge_length = edge_length[is_edge]
 
         return edge_length.min(), edge_length.max(), edge_length.mean()
 
-- 
2.43.0


From 8897614bbda94cfd4165a19c85f8724e7aea94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 04/43] fix: Plane.flip_normal moved the plane, coord_in_plane
 was not in the plane frame

Flipping the normal keeps the set of points of the plane, so that its scalar
changes sign. Coordinates in the plane frame are R^T.(x - origin), and setting
the normal updates the frame. Projections of integer points were truncated.
---
 meshmagick/mesh.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index c4af91e..ac4c26b 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -189,6 +189,10 @@ class Plane(object):
         value = np.asarray(value, dtype=float)
         self._normal = value / np.linalg.norm(value)
 
+        # updating self._rot
+        theta_x, theta_y = self.get_normal_orientation_wrt_z()
+        self._rot = _get_rotation_matrix(theta_x, theta_y)
+
     @property
     def c(self):
         """Get the plane's scalar parameter"""
@@ -211,10 +215,11 @@ class Plane(object):
             Angle of rotation around Oy (rad)
         """
         rot_matrix = _get_rotation_matrix(theta_x, theta_y)
+        rot = np.dot(rot_matrix, self._rot)
         self.normal = np.dot(rot_matrix, self.normal)
 
         # updating self._rot
-        self._rot = np.dot(rot_matrix, self._rot)
+        self._rot = rot
 
     def set_normal_from_angles(self, theta_x, theta_y):
         """Set the normal orientation given angles theta_x and theta_y.
@@ -304,9 +309,9 @@ class Plane(object):
         """
         Flips the Normal of the plane
         """
-        self.normal *= -1
-        theta_x, theta_y = self.get_normal_orientation_wrt_z()
-        self._rot = _get_rotation_matrix(theta_x, theta_y)
+        # The set of points n.x = c is also that of (-n).x = -c
+        self.normal = -self.normal
+        self._scalar = -self._scalar
 
     def coord_in_plane(self, points):
         """
@@ -323,9 +328,7 @@ class Plane(object):
             Array of points coordinates in the frame of the plane
         """
 
-        # TODO: verifier effectivement que si on prend des points se trouvant dans le plan, leurs coordonnees dans le
-        #  plan n'ont pas de composante z
-        return -self._scalar * self.normal + np.transpose(np.dot(self._rot, points.T))
+        return np.dot(points - self.get_origin(), self._rot)
 
     def get_edge_intersection(self, p0, p1):
         """
@@ -367,7 +370,7 @@ class Plane(object):
             Coordinates of the projection points
         """
         # TODO: passer en vectoriel
-        projected_points = np.zeros_like(points)
+        projected_points = np.zeros_like(points, dtype=float)
         for point, projected_point in zip(points, projected_points):
             projected_point[:] = point - self.get_point_dist_wrt_plane(point) * self.normal
 
-- 
2.43.0


From 86725bea0bdd70bfbe14e82e98bcb18be1265876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 05/43] fix: rotation conversions at tiny angles and at gimbal
 lock

Rotations below 2e-4 rad became the identity in axis/angle form, quaternions
within the unit tolerance made acos fail, Cardan angles were undetermined when
round-off put theta next to +/- pi/2, and only arrays were accepted.
---
 meshmagick/rotations.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/meshmagick/rotations.py b/meshmagick/rotations.py
index a0f503d..5579d63 100644
--- a/meshmagick/rotations.py
+++ b/meshmagick/rotations.py
@@ -48,22 +48,24 @@ def is_unit_vector(vector):
     return np.isclose(norm(vector), 1.)
 
 def quat_to_axis_angle(quat):
+    quat = np.asarray(quat, dtype=float)
     assert is_unit_vector(quat)
     assert quat.size == 4
-    quat = np.asarray(quat, dtype=float)
-    q0 = quat[0]
-    d = 1. - q0*q0
 
-    if np.isclose(d, 0.):
+    # The half angle is well conditioned with both its sine and cosine, even for tiny rotations
+    shalf = norm(quat[1:])
+
+    if shalf == 0.:
         angle = 0.
         axis = np.array((0, 0, 1), dtype=float)
 
     else:
-        angle = 2. * acos(q0)
-        axis = quat[1:] / sqrt(d)
+        angle = 2. * atan2(shalf, quat[0])
+        axis = quat[1:] / shalf
 
     return axis, angle
 
+
 def axis_angle_to_quat(axis, angle):
     assert is_unit_vector(axis)
 
@@ -74,9 +76,9 @@ def axis_angle_to_quat(axis, angle):
     return np.array((c, s*axis[0], s*axis[1], s*axis[2]), dtype=float)
 
 def quat_to_rotmat(quat):
+    quat = np.asarray(quat, dtype=float)
     assert is_unit_vector(quat)
     assert quat.size == 4
-    quat = np.asarray(quat, dtype=float)
 
     q0q0 = quat[0] * quat[0]
     q1q1 = quat[1] * quat[1]
@@ -198,8 +200,11 @@ def rotmat_to_cardan(rotmat):
     r21 = rotmat[2, 1]
     r22 = rotmat[2, 2]
 
-    if r20 < 1.:
-        if r20 > -1.:
+    # Angles phi and psi can not be told apart, up to round-off errors, when theta = +/- pi/2
+    gimbal_lock = 1. - 1e-15
+
+    if r20 < gimbal_lock:
+        if r20 > -gimbal_lock:
             theta = asin(-r20)
             psi = atan2(r10, r00)
             phi = atan2(r21, r22)
-- 
2.43.0


From f263f774c596d445da1231365f159907ede0d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 06/43] fix: heal_mesh left the vertices of degenerated faces
 in the mesh, merging no vertex failed

---
 meshmagick/mesh.py  | 3 ++-
 meshmagick/tools.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index ac4c26b..d495793 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1798,8 +1798,9 @@ class Mesh(object):
         """
         if self._has_faces_properties():
             self._remove_faces_properties()
-        self.remove_unused_vertices()
+        # Degenerated faces go first as their vertices may become unused
         self.remove_degenerated_faces()
+        self.remove_unused_vertices()
         self.merge_duplicates()
         self.heal_triangles()
         self.heal_normals()
diff --git a/meshmagick/tools.py b/meshmagick/tools.py
index 4e03568..d4ad314 100644
--- a/meshmagick/tools.py
+++ b/meshmagick/tools.py
@@ -37,6 +37,9 @@ def merge_duplicate_rows(arr, atol=1e-8, return_index=False):
     
     nv, nbdim = arr.shape
 
+    if nv == 0:
+        return (arr, np.arange(nv)) if return_index else arr
+
     levels = [0, nv]
     iperm = np.arange(nv)
 
-- 
2.43.0


From ab429e3deba24b846ac9753891f8d0c5f1f17456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 07/43] fix: clipping met unknown faces with vertices on the
 plane or at the tolerance, and bodies apart from the plane

---
 meshmagick/mesh_clipper.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index c4af7dd..a69fd50 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -122,7 +122,7 @@ class MeshClipper(object):
 
         vertices_positions = {'vertices_distances': vertices_distances,
                               'vertices_above_mask': vertices_distances > self._vicinity_tol,
-                              'vertices_on_mask': np.fabs(vertices_distances) < self._vicinity_tol,
+                              'vertices_on_mask': np.fabs(vertices_distances) <= self._vicinity_tol,
                               'vertices_below_mask': vertices_distances < -self._vicinity_tol
                               }
 
@@ -529,6 +529,24 @@ class MeshClipper(object):
                 #   ----*----           ----*----
                 boundary_edge = None
 
+            elif face_type == '130':
+                #         *
+                #       /   \
+                # ----*---*---*----
+                boundary_edge = None
+
+            elif face_type == '031':
+                # ----*---*---*----
+                #     3\  2  /1
+                #       \   /
+                #         *0
+                face = np.roll(face, -v_below_face[0])
+                # This face brings two boundary edges
+                direct_boundary_edges[face[3]] = face[2]
+                inv_boundary_edges[face[2]] = face[3]
+                boundary_edge = [face[2], face[1]]
+                crown_faces.append(list(face))
+
             elif face_type == '111':  # Done
                 #        *2              *1
                 #       /|               |\
@@ -669,7 +687,11 @@ class MeshClipper(object):
         if len(intersections) > 0:
             vertices = np.concatenate((vertices, intersections))
         
-        clipped_crown_mesh = Mesh(vertices, crown_faces)
+        if len(crown_faces) == 0 and self.lower_mesh.nb_faces == 0:
+            # The mesh only touches the plane from above
+            raise RuntimeError("Mesh does not crosses the clipping plane", "above")
+
+        clipped_crown_mesh = Mesh(vertices, np.reshape(np.array(crown_faces, dtype=int), (-1, 4)))
 
         # TODO: faire un merge uniquement sur la liste instersections et non sur tout le maillage clipped_crown
         # FIXME: potentiellement, un bug a ete introduit ici !!! --> l'update n'est plus bon sur les dictionnaires...
@@ -756,6 +778,8 @@ class MeshClipper(object):
         
         self._clip_crown_by_plane()
         clipped_mesh = self.lower_mesh + self.clipped_crown_mesh
+        # The crown brings the vertices of its faces that lie above the plane
+        clipped_mesh.remove_unused_vertices()
         clipped_mesh.name = '_'.join((self._source_mesh.name, 'clipped'))
         self.__internals__['clipped_mesh'] = clipped_mesh
         return
-- 
2.43.0


From e617cebb4a550f5860153b65ebc856128c8c40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 08/43] fix: inertia products of shells were integrated with a
 wrong formula

---
 meshmagick/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index d495793..10cab28 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -2094,9 +2094,9 @@ class Mesh(object):
 
         s_int[0:3] = np.einsum('i, ij -> ji', delta, f1) / 6.
 
-        s_int[3] = delta * (6.*point_0.y*point_0.z + 3*(point_1.y*point_1.z + point_2.y*point_2.z) - point_0.y*f1[:, 2] - point_0.z*f1[:, 1]) / 12.
-        s_int[4] = delta * (6.*point_0.x*point_0.z + 3*(point_1.x*point_1.z + point_2.x*point_2.z) - point_0.x*f1[:, 2] - point_0.z*f1[:, 0]) / 12.
-        s_int[5] = delta * (6.*point_0.x*point_0.y + 3*(point_1.x*point_1.y + point_2.x*point_2.y) - point_0.x*f1[:, 1] - point_0.y*f1[:, 0]) / 12.
+        p0, p1, p2 = (np.asarray(point) for point in (point_0, point_1, point_2))
+        for i, (j, k) in enumerate(((1, 2), (0, 2), (0, 1))):
+            s_int[3+i] = delta * (p0[:, j]*p0[:, k] + p1[:, j]*p1[:, k] + p2[:, j]*p2[:, k] + f1[:, j]*f1[:, k]) / 24.
 
         s_int[6:9] = np.einsum('i, ij -> ji', delta, f2) / 12.
         s_int[9:12] = np.einsum('i, ij -> ji', delta, f3) / 20.
-- 
2.43.0


From dac2cb02396cdfa007c6a212fac74061a3335729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 09/43] fix: inertia of the hemisphere and of the cylindrical
 shell with ends

---
 meshmagick/inertia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index e246c16..641ffb0 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -326,7 +326,8 @@ def hemisphere(radius, density=1.):
     vol = 2 * pi * radius ** 3 / 3.
     mass = density * vol
 
-    Ixx = Iyy = Izz = 0.26 * mass * radius ** 2
+    Ixx = Iyy = 83. * mass * radius ** 2 / 320.
+    Izz = 2. * mass * radius ** 2 / 5.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
 
@@ -568,7 +569,7 @@ def total_cylindrical_shell(R, H, density=densities.get_density('STEEL'), thickn
     sigma = density * thickness
     mass = sigma * surface
 
-    Ixx = Iyy = mass * (2 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
+    Ixx = Iyy = mass * (3 * R ** 2 * (R + 2 * H) + H ** 2 * (3 * R + H)) / 12. / (R + H)
     Izz = mass * R ** 2 * ((R + 2 * H) / (R + H)) / 2.
 
     return RigidBodyInertia(mass, [0, 0, 0], Ixx, Iyy, Izz, 0, 0, 0)
-- 
2.43.0


From 6856d3044a5237755aa7d8d0ccb9c1c47c6eaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 10/43] fix: moving the reduction point of an inertia that is
 not at the centre of gravity

---
 meshmagick/inertia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index 641ffb0..c177f05 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -83,9 +83,9 @@ class RigidBodyInertia(object):
     @reduction_point.setter
     def reduction_point(self, point):
         """Set the reduction point"""
-        mat_at_cog = self.at_cog.inertia_matrix
         assert len(point) == 3
-        self._point = np.asarray(point, dtype=float)
+        mat_at_cog = self._3d_rotational_inertia - self._huygens_transport()
+        self._point = np.array(point, dtype=float)
         self._3d_rotational_inertia = mat_at_cog + self._huygens_transport()
 
     @property
@@ -99,7 +99,7 @@ class RigidBodyInertia(object):
         ndarray
         """
         inertia = deepcopy(self)
-        inertia.shift_at_cog()
+        inertia.reduction_point = self._cog
         return inertia
 
     def set_cog(self, cog):
-- 
2.43.0


From 29cc7a0d284bda9d86baff019b0a1203aee588e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 11/43] fix: stiffness, forward perpendicular and inertia of
 hydrostatics were not reduced at the documented points, K45 was wrong

---
 meshmagick/hydrostatics.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index a3417fc..6f7e677 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -60,14 +60,20 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     ymin = []
     ymax = []
 
+    # Horizontal position of the point where the stiffness is expressed
+    xref, yref = (wcog[0], wcog[1]) if at_cog else (0., 0.)
+
     polygons = clipper.closed_polygons
+    if len(polygons) == 0:
+        # The mesh only touches the water plane from below
+        raise RuntimeError("Mesh does not crosses the clipping plane", "below")
+
     for polygon in polygons:
         polyverts = clipper.clipped_crown_mesh.vertices[polygon]
 
-        if at_cog:
-            # To get the stiffness expressed at cog
-            polyverts[:, 0] -= xb
-            polyverts[:, 1] -= yb
+        # To get the stiffness expressed at cog if at_cog
+        polyverts[:, 0] -= xref
+        polyverts[:, 1] -= yref
 
         # TODO: voir si on conserve ce test...
         if np.any(np.fabs(polyverts[:, 2]) > 1e-3):
@@ -83,7 +89,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             sigma0 += dy * px
             sigma1 += dy * (px * px - xi * xii)
             sigma2 += dx * (py * py - yi * yii)
-            sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+            sigma3 += dy * (py * px * px + 2 * (yi * xi * xi + yii * xii * xii))
             sigma4 += dy * (xi * xi + xii * xii) * px
             sigma5 += dx * (yi * yi + yii * yii) * py
 
@@ -140,10 +146,9 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     x_f = -s35 / s33
     y_f = s34 / s33
 
-    if at_cog:
-        # To get the flotation center expressed in the initial mesh frame
-        x_f += xb
-        y_f += yb
+    # To get the flotation center expressed in the initial mesh frame
+    x_f += xref
+    y_f += yref
 
     waterplane_center = np.array([x_f, y_f, -z_corr])
     waterplane_center = np.dot(np.transpose(rotmat_corr), waterplane_center)
@@ -180,7 +185,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['length_overall_submerged'] = xmax - xmin
     hs_data['breadth_overall_submerged'] = ymax - ymin
     hs_data['draught'] = math.fabs(zmin)
-    hs_data['forward_perpendicular'] = maxx + xb
+    hs_data['forward_perpendicular'] = maxx + xref
     hs_data['breadth'] = maxy - miny
 
     hs_data['trust_lpp'] = True
@@ -193,8 +198,8 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
             hs_data['length_between_perpendiculars'] = hs_data['length_at_waterline']
             hs_data['trust_lpp'] = False
 
+    inertia.reduction_point = wcog
     inertia.set_cog(wcog)
-    inertia.shift_at_cog()
     hs_data['Ixx'] = inertia.xx
     hs_data['Iyy'] = inertia.yy
     hs_data['Izz'] = inertia.zz
-- 
2.43.0


From 51aeed743572147636356f47ba9b339bd2a73cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 12/43] fix: displacement equilibrium crashed for bodies out of
 the water and diverged or crashed when leaving it

---
 meshmagick/hydrostatics.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index 6f7e677..c0de234 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -4,6 +4,7 @@
 
 import numpy as np
 import math
+import warnings
 
 from .mesh_clipper import MeshClipper
 from .rotations import cardan_to_rotmat, rotmat_to_cardan
@@ -230,6 +231,10 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
     _, _, _, _, zmin, zmax = mesh.axis_aligned_bbox
     z_relax = (zmax - zmin) / 5
 
+    # The mesh crosses the water plane, by more than the tolerance of the clipper, between those two corrections
+    z_margin = max((zmax - zmin) * 1e-4, 2e-3)
+    z_low, z_high = -zmax, -zmin
+
     while True:
 
         if iter == itermax:
@@ -239,14 +244,18 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         try:
             hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
         except RuntimeError as err:
-            position = err.args[2]
+            position = err.args[-1]
             if position == 'below':
-                z_corr = -zmax + (zmax - zmin) * 1e-4  # FIXME: is this choice robust ?
+                z_corr = -zmax + z_margin
+                hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
+                if hs_data['disp_mass'] < disp_kg:
+                    warnings.warn(
+                        "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
+                        (disp_tons, hs_data['disp_mass'] * 0.001))
+                    return z_corr
+            elif position == 'above':
+                z_corr = -zmin - z_margin
                 hs_data = compute_hydrostatics(mesh, cog, rho_water, grav, z_corr=z_corr)
-                warnings.warn(
-                    "Impossible to reach a displacement of %.3f tons because of the mesh extend. Limited to %.3f tons" %
-                    (disp_tons, hs_data['disp_mass'] * 0.001))
-                return z_corr
             else:
                 raise err
 
@@ -265,7 +274,16 @@ def displacement_equilibrium(mesh, disp_tons, rho_water, grav, cog=np.zeros(3),
         if math.fabs(dz) > z_relax:
             dz = math.copysign(z_relax, dz)
 
-        z_corr += dz
+        # The displacement decreases with z: the solution stays bracketed
+        if mass_residual > 0.:
+            z_low = z_corr
+        else:
+            z_high = z_corr
+
+        if z_low < z_corr + dz < z_high:
+            z_corr += dz
+        else:
+            z_corr = (z_low + z_high) / 2
 
         iter += 1
 
-- 
2.43.0


From 853367887bee80f55e8c70c01495bcc99f77278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 13/43] fix: writers took the larger dimension of the arrays
 for the number of vertices and panels, NAT counts above 99999 ran together

---
 meshmagick/mmio.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 67679ae..b2bf41b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1500,8 +1500,8 @@ def _build_vtkUnstructuredGrid(vertices, faces):
     
     import vtk
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = vertices.shape[0]
+    nf = faces.shape[0]
 
     vtk_mesh = vtk.vtkUnstructuredGrid()
     vtk_mesh.Allocate(nf, nf)
@@ -1584,11 +1584,11 @@ def write_NAT(filename, vertices, faces):
     
     ofile = open(filename, 'w')
 
-    nv = max(np.shape(vertices))
-    nf = max(np.shape(faces))
+    nv = vertices.shape[0]
+    nf = faces.shape[0]
 
     ofile.write('%6u%6u\n' % (0, 0))  # lire les symmetries dans args...
-    ofile.write('%6u%6u\n' % (nv, nf))
+    ofile.write('%6u %6u\n' % (nv, nf))
     for vertex in vertices:
         ofile.write('%15.6E%15.6E%15.6E\n' % (vertex[0], vertex[1], vertex[2]))
     for cell in faces+1:
@@ -1640,7 +1640,7 @@ def write_GDF(filename, vertices, faces):
         numpy array of the faces' nodes connectivities
     """
 
-    nf = max(np.shape(faces))
+    nf = faces.shape[0]
 
     ofile = open(filename, 'w')
 
-- 
2.43.0


From 11158dafc3f99a47d82ca2c8f9184b5792fb0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 14/43] fix: write_STL modified the faces of the mesh it writes

---
 meshmagick/mmio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b2bf41b..f51be4a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1724,6 +1724,7 @@ def write_STL(filename, vertices, faces):
     new_faces[:, :3] = new_faces[:, t1]
     new_faces[:, -1] = new_faces[:, 0]
     
+    faces = faces.copy()
     faces[quads_ids, :3] = faces[:, t2][quads_ids]
     faces[quads_ids, -1] = faces[quads_ids, 0]
 
-- 
2.43.0


From a041efc34cdb7f70850d51581db39171181e6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 15/43] fix: triangles follow the first-vertex-repeated
 convention in the PNL reader and writer

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index f51be4a..c13705b 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1129,7 +1129,7 @@ def load_PNL(filename, name=None):
             if nb_corners == 3:  # Triangle
                 assert len(data) == 3
                 faces[i, 0:3] = data
-                faces[i, 3] = faces[i, 2]  # Convention for triangles in Meshmagick: repeat last vertex
+                faces[i, 3] = faces[i, 0]  # Convention for triangles in Meshmagick: repeat first vertex
             elif int(nb_corners) == 4:  # Quadrangle
                 assert len(data) == 4
                 faces[i, :] = data
@@ -1808,7 +1808,7 @@ def write_PNL(filename, vertices, faces):
         f.write('   #Start Definition of Node Relations   ! panel_number  number_of_vertices   Vertex1_ID   Vertex2_ID   Vertex3_ID   (Vertex4_ID)\n')
         for i, face in enumerate(faces):
             face = face + 1
-            if face[2] == face[3]:  # Triangle
+            if face[0] == face[3]:  # Triangle
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}\n".format(i+1, 3, *face[:3]))
             else:
                 f.write("{:>5}{:>5}{:>10}{:>10}{:>10}{:>10}\n".format(i+1, 4, *face))
-- 
2.43.0


From 7bb3233f1f488197c809ec8ea574b80f35be23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 16/43] fix: HST files with several sections of nodes or panels
 could not be read

---
 meshmagick/mmio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c13705b..3d4dfb6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -142,10 +142,10 @@ def load_HST(filename):
     pattern_node_section = re.compile(node_section, re.MULTILINE)
     pattern_elem_section = re.compile(elem_section, re.MULTILINE)
 
-    vertices_tmp = []
     vertices = []
     nv = 0
     for node_section in pattern_node_section.findall(data):
+        vertices_tmp = []
         for node in pattern_node_line.findall(node_section):
             vertices_tmp.append(list(map(float, node.split()[1:])))
         nv_tmp = len(vertices_tmp)
@@ -157,10 +157,10 @@ def load_HST(filename):
             vertices = np.concatenate((vertices, vertices_tmp))
             nv += nv_tmp
 
-    faces_tmp = []
     faces = []
     nf = 0
     for elem_section in pattern_elem_section.findall(data):
+        faces_tmp = []
         for elem in pattern_elem_line.findall(elem_section):
             faces_tmp.append(list(map(int, elem.split())))
         nf_tmp = len(faces_tmp)
-- 
2.43.0


From 20e61d0b123798d5ee5dcf0d87cce30451ecca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 17/43] fix: panels of the incremented NODE sections of INP
 files pointed past the end of the mesh

---
 meshmagick/mmio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 3d4dfb6..8b088b1 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -268,7 +268,7 @@ def load_INP(filename):
     _check_file(filename)
     import re
     
-    with open(filename, 'r') as f:
+    with open(filename, 'r', encoding='latin-1') as f:
         text = f.read()
 
     # Retrieving frames into a dictionary frames
@@ -320,7 +320,7 @@ def load_INP(filename):
 
     for file in mesh_files:
         try:
-            meshfile = open(os.path.join(os.path.dirname(filename), file + '.DAT'), 'r')
+            meshfile = open(os.path.join(os.path.dirname(filename), file + '.DAT'), 'r', encoding='latin-1')
         except:
             raise IOError('File {0:s} not found'.format(file + '.DAT'))
         data = meshfile.read()
@@ -386,6 +386,7 @@ def load_INP(filename):
                 vertices[idx, :] = nodes.copy()
                 increment = False
             else:
+                offset = nb_nodes
                 vertices = np.concatenate((vertices, nodes))
                 nb_nodes = vertices.shape[0]
                 increment = True
@@ -400,7 +401,7 @@ def load_INP(filename):
             # Updating to new id of nodes
             elems = elem_section
             if increment:
-                elems += nb_nodes
+                elems += offset
 
             if nb_elems == 0:
                 faces = elems.copy()
-- 
2.43.0


From 5fdb91284022ecdd1d4d7c5f5ab46d12a8f7d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 18/43] fix: reading a truncated GDF file never ended

---
 meshmagick/mmio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8b088b1..b701e37 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -786,7 +786,10 @@ def load_GDF(filename):
         face_coords = np.zeros((12,), dtype=float)
         
         while n_coords < 12:
-            line = np.array(ifile.readline().split())
+            line = ifile.readline()
+            if not line:
+                raise IOError("file %s ends before the %u panels it announces" % (filename, nf))
+            line = np.array(line.split())
             face_coords[n_coords:n_coords+len(line)] = line
             n_coords += len(line)
 
-- 
2.43.0


From e5e90bd6b503bf5ede32110b38f4e4a2794b6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 19/43] fix: panels of GMSH files refer to the tags of the
 nodes, not to their ranks

---
 meshmagick/mmio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index b701e37..5339706 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -862,7 +862,9 @@ def load_MSH22(filename):
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
     nb_elts, elts_data = re.search(r'\$Elements\n(\d+)\n(.+)\$EndElements', data, re.DOTALL).groups()
 
-    vertices = np.asarray(list(map(float, nodes_data.split())), dtype=float).reshape((-1, 4))[:, 1:]
+    nodes = nodes_data.split()
+    node_ids = dict((int(tag), i) for i, tag in enumerate(nodes[::4]))
+    vertices = np.asarray(list(map(float, nodes)), dtype=float).reshape((-1, 4))[:, 1:]
     vertices = np.ascontiguousarray(vertices)
     faces = []
 
@@ -878,7 +880,7 @@ def load_MSH22(filename):
         quadrangle = quad_elt[-4:]
         faces.append(quadrangle)
 
-    faces = np.asarray(faces, dtype=int) - 1
+    faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
     return vertices, faces
 
@@ -889,8 +891,10 @@ def load_MSH41(filename):
     mesh = gmshparser.parse(filename)
 
     vertices = list()
+    node_ids = dict()
     for entity in mesh.get_node_entities():
         for node in entity.get_nodes():
+            node_ids[node.get_tag()] = len(vertices)
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
@@ -910,7 +914,7 @@ def load_MSH41(filename):
                     face.append(face[0])
                 faces.append(face)
 
-    faces = np.asarray(faces) - 1
+    faces = np.asarray([[node_ids[tag] for tag in face] for face in faces], dtype=int)
 
     return vertices, faces
 
-- 
2.43.0


From d4a5e60884d470b1a8bdc61f2305cfa978927990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 20/43] fix: VTU and VTP files that could not be written were
 reported nowhere

---
 meshmagick/mmio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 5339706..464d295 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1392,7 +1392,8 @@ def write_VTU(filename, vertices, faces):
         writer.SetInput(unstructured_grid)
     else:
         writer.SetInputData(unstructured_grid)
-    writer.Write()
+    if not writer.Write():
+        raise IOError("file %s could not be written" % filename)
 
 
 def write_VTP(filename, vertices, faces):
@@ -1421,7 +1422,8 @@ def write_VTP(filename, vertices, faces):
         writer.SetInput(polydata)
     else:
         writer.SetInputData(polydata)
-    writer.Write()
+    if not writer.Write():
+        raise IOError("file %s could not be written" % filename)
 
 
 def write_VTK(filename, vertices, faces):
-- 
2.43.0


From 90f43abb4be9f55e4575f1f4637f9b1170d149ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 21/43] fix: damaged VTK, STL and OBJ files were read as empty
 meshes

---
 meshmagick/mmio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 464d295..2af4f7a 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -608,6 +608,8 @@ def _dump_vtk(vtk_mesh):
         vertices[k] = np.array(vtk_mesh.GetPoint(k))
 
     nf = vtk_mesh.GetNumberOfCells()
+    if nf == 0:
+        raise IOError("no panel could be read from the file")
     faces = np.zeros((nf, 4), dtype=int)
     for k in range(nf):
         cell = vtk_mesh.GetCell(k)
@@ -658,6 +660,8 @@ def load_STL(filename):
     for k in range(nv):
         vertices[k] = np.array(data.GetPoint(k))
     nf = data.GetNumberOfCells()
+    if nf == 0:
+        raise IOError("no panel could be read from file %s" % filename)
     faces = np.zeros((nf, 4), dtype=int)
     for k in range(nf):
         cell = data.GetCell(k)
-- 
2.43.0


From 1c25d086aac6abc07e17eddaae27c28786e9e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 22/43] fix: only the first ELEMENT section of each type was
 read from DAT files

---
 meshmagick/mmio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 2af4f7a..a0cfc88 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -208,8 +208,8 @@ def load_DAT(filename):
     triangle_section_pattern = re.compile(r'ELEMENT\S+T3C000.+\s*((?:(?:\d+\s+){4})+)\*RETURN')
     triangle_sections = triangle_section_pattern.findall(data)
 
-    if len(triangle_sections) != 0:
-        for triangle in triangle_sections[0].splitlines():
+    for triangle_section in triangle_sections:
+        for triangle in triangle_section.splitlines():
             triangle_split = triangle.split()
 
             triangle = [
@@ -225,8 +225,8 @@ def load_DAT(filename):
     quadrangle_section_pattern = re.compile(r'ELEMENT\S+Q4C000.+\s*((?:(?:\d+\s+){5})+)\*RETURN')
     quadrangle_sections = quadrangle_section_pattern.findall(data)
 
-    if len(quadrangle_sections) != 0:
-        for quadrangle in quadrangle_sections[0].splitlines():
+    for quadrangle_section in quadrangle_sections:
+        for quadrangle in quadrangle_section.splitlines():
             quadrangle_split = quadrangle.split()
 
             quadrangle = [
-- 
2.43.0


From b52bb21d6c1ae4546ab8baa955005bac4c59c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 23/43] fix: unreadable coordinates of PNL files became NaN

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index a0cfc88..7068c8f 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1129,7 +1129,7 @@ def load_PNL(filename, name=None):
         # Skip 2 more lines
         f.readline()
         f.readline()
-        vertices = np.genfromtxt((f.readline() for _ in range(nb_vertices)), usecols=(1, 2, 3))
+        vertices = np.loadtxt([f.readline() for _ in range(nb_vertices)], usecols=(1, 2, 3), ndmin=2)
         # Skip 3 more lines
         f.readline()
         f.readline()
-- 
2.43.0


From 77f249124e109aede15ebf212e30854fbd51d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 24/43] fix: vertices of GMSH 4.1 files were returned as a
 list, lids could not be generated

---
 meshmagick/mmio.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 7068c8f..8ebce5d 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -902,8 +902,7 @@ def load_MSH41(filename):
             coord = list(node.get_coordinates())
             vertices.append(coord)
 
-    # vertices = np.asarray(vertices)
-    # print(vertices)
+    vertices = np.asarray(vertices, dtype=float)
 
     faces = list()
     for entity in mesh.get_element_entities():
-- 
2.43.0


From 5727ed4a2481cd3eaaddd08bc5b94038c6101fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 25/43] fix: --rho-medium did not accept the names of mediums

---
 meshmagick/cli.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 7d53c65..15dbd55 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -61,6 +61,17 @@ __all__ = ['main']
 def list_medium():
     return ', '.join(densities.list_medium())
 
+
+def medium_density(value):
+    """Density given by a number (kg/m**3) or by the name of a medium"""
+    try:
+        return float(value)
+    except ValueError:
+        try:
+            return densities.get_density(value)
+        except KeyError:
+            raise argparse.ArgumentTypeError('%s is neither a density nor a known medium' % value)
+
 # =======================================================================
 #                         COMMAND LINE USAGE
 # =======================================================================
@@ -315,7 +326,7 @@ parser.add_argument('-si', '--shell-inertia', action='store_true',
                     uniformly plain of a medium of density rho_medium in kg/m**3. Default
                     is 1023 kg/m**3.""")
 
-parser.add_argument('--rho-medium', type=float,
+parser.add_argument('--rho-medium', type=medium_density,
                     help="""The density (in kg/m**3) of the medium used for evaluation of
                     inertia parameters of the mesh. For the hypothesis of plain homogeneous
                     mesh, the default is that of salt water (1023 kg/m**3) . For the
-- 
2.43.0


From 2cee4d0d5dd07432863c039b84ef5b26830779a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 26/43] fix: --lpp and --orig-at-ap had no effect on the
 hydrostatic report

---
 meshmagick/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 15dbd55..869bb81 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -914,6 +914,8 @@ def main():
         z_corr = 0.
         rotmat_corr = np.eye(3, 3)
 
+        lpp_data = dict(lpp=args.lpp, orig_at_ap=args.orig_at_ap)
+
         has_disp = has_cog = has_zcog = False
 
         if args.mass_displacement is not None:
@@ -938,7 +940,7 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, at_cog=True, **lpp_data)
 
         elif has_disp and not has_cog:
             print(">>>> Computing equilibrium of the hull for the given displacement of %f tons" % disp)
@@ -949,14 +951,16 @@ def main():
             hs_data = hs.compute_hydrostatics(mesh, np.zeros(3), water_density, grav, z_corr=z_corr, at_cog=False)
             xb, yb, _ = hs_data["buoyancy_center"]
             cog = np.array([xb, yb, zcog])
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, at_cog=True,
+                                              **lpp_data)
 
         elif has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given displacement and COG")
             if has_zcog:
                 warn("zcog is redundant with cog, taking cog and ignoring zcog")
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
-            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr, at_cog=True)
+            hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
+                                              at_cog=True, **lpp_data)
 
         elif not has_disp and has_cog:
             print(">>>> Computing equilibrium in 3DOF for the given COG, considering the current configuration presents the "
@@ -968,7 +972,7 @@ def main():
             disp = hs_data['disp_mass'] / 1000
             z_corr, rotmat_corr = hs.full_equilibrium(mesh, cog, disp, water_density, grav, reltol=reltol, verbose=True)
             hs_data = hs.compute_hydrostatics(mesh, cog, water_density, grav, z_corr=z_corr, rotmat_corr=rotmat_corr,
-                                              at_cog=True)
+                                              at_cog=True, **lpp_data)
 
         mesh.rotate_matrix(rotmat_corr)
         mesh.translate_z(z_corr)
-- 
2.43.0


From 53d39e51f074f9a52cec35afe35103434b40e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 27/43] fix: --mirror without argument was refused instead of
 using the documented default plane

---
 meshmagick/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshmagick/cli.py b/meshmagick/cli.py
index 869bb81..29da3f2 100755
--- a/meshmagick/cli.py
+++ b/meshmagick/cli.py
@@ -308,7 +308,7 @@ parser.add_argument('-sym', '--symmetrize', nargs='*', action='append', metavar=
                     Be careful that symmetry is applied before any rotation so as the plane
                     equation is defined in the initial frame of reference.""")
 
-parser.add_argument('--mirror', nargs='+', metavar='Arg',
+parser.add_argument('--mirror', nargs='*', metavar='Arg',
                     help="""Mirror the mesh through the specified plane. Plane may be specified
                     with reference planes keys (see --plane option), or by 4 scalars, or by the
                     id of a plane defined with the --plane option. By default, the Oxy plane
@@ -541,7 +541,9 @@ def main():
         sym_plane = Plane()
         print((args.mirror))
 
-        if len(args.mirror) == 1:
+        if len(args.mirror) == 0:
+            pass  # the default plane is Oxy
+        elif len(args.mirror) == 1:
             # May be a standard plane or a plane id
             if len(planes) > 0:
                 try:
-- 
2.43.0


From 0d8858e4d8a457b641b7edff08894f51a41d6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 28/43] fix: gravity centers and forces of Hydrostatics shared
 their arrays with the backup and the caller

---
 meshmagick/hydrostatics_old.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 16c97bf..5d67095 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -46,8 +46,8 @@ class Force(object):
         assert len(value) == 3
         assert mode in ('relative', 'absolute')
 
-        self.point = np.asarray(point, dtype=float)
-        self.value = np.asarray(value, dtype=float)
+        self.point = np.array(point, dtype=float)
+        self.value = np.array(value, dtype=float)
         self.name = str(name)
         self.mode = mode
 
@@ -260,9 +260,9 @@ class Hydrostatics(object):
     @gravity_center.setter
     def gravity_center(self, value):
         """Set the gravity center position"""
-        value = np.asarray(value, dtype=float)
-        self.backup['gravity_center'] = value
+        value = np.array(value, dtype=float)
         assert value.shape[0] == 3
+        self.backup['gravity_center'] = value.copy()
         self._gravity_center = value
         self._update_hydrostatic_properties()
 
-- 
2.43.0


From 670a2844c2471bcdaaea526088dcec7decd94a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 29/43] fix: the mass given to Hydrostatics was converted twice
 from tons to kg

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 5d67095..2b54f54 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -166,7 +166,7 @@ class Hydrostatics(object):
         self._update_hydrostatic_properties()
 
         if mass:
-            self.mass = mass * 1000.  # conversion in kg
+            self.mass = mass  # in tons
         else:
             self._mass = self.hs_data['disp_mass']
 
-- 
2.43.0


From 6e72baeb97cd06084a2f6be0b20984f5eff3a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 30/43] fix: hydrostatic data were not those of the equilibrium
 position after Hydrostatics.equilibrate

---
 meshmagick/hydrostatics_old.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 2b54f54..967e3d7 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -1173,13 +1173,15 @@ class Hydrostatics(object):
 
         # Zeroing xcog and ycog
         self.mesh.translate([-self._gravity_center[0], -self._gravity_center[1], 0.])
-        self.hs_data['buoy_center'][:2] -= self._gravity_center[:2]
 
         for force in self.additional_forces:
             force.update_xy(-self._gravity_center[0], -self._gravity_center[1])
 
         self._gravity_center[:2] = 0.
 
+        self._reinit_clipper()
+        self._update_hydrostatic_properties()
+
         if self.verbose:
             if code == 0:
                 print("\t-> Maximum number of restart reached. Failed to find an equilibrium position.")
-- 
2.43.0


From 9fd7b4ac208961354d2e1933d56a7ccba1d85171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 31/43] fix: roll-pitch stiffness of Hydrostatics

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 967e3d7..7c4c0fd 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -615,7 +615,7 @@ class Hydrostatics(object):
                 sigma1 += dy * (px * px - xi * xii)
                 sigma2 += dx * (py * py - yi * yii)
                 # sigma3 += dy * (py * a + 2 * px * (xi * yi + xii * yii))
-                sigma3 += dy * (py * px * px + yi * xi * xi + yii * xii * xii)
+                sigma3 += dy * (py * px * px + 2 * (yi * xi * xi + yii * xii * xii))
                 sigma4 += dy * (xi * xi + xii * xii) * px
                 sigma5 += dx * (yi * yi + yii * yii) * py
 
-- 
2.43.0


From 74d4c674d0cf34c3062324f3b6deae76e93f47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 32/43] fix: inertia of the immersed volume in Hydrostatics was
 not expressed at its center of gravity

---
 meshmagick/hydrostatics_old.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics_old.py b/meshmagick/hydrostatics_old.py
index 7c4c0fd..ebb0190 100644
--- a/meshmagick/hydrostatics_old.py
+++ b/meshmagick/hydrostatics_old.py
@@ -694,7 +694,7 @@ class Hydrostatics(object):
         self.hs_data['breadth'] = maxy - miny
 
         # TODO: we should better store the inertia object !
-        inertia.shift_at_cog()
+        inertia.reduction_point = inertia.gravity_center
         self.hs_data['Ixx'] = inertia.xx
         self.hs_data['Iyy'] = inertia.yy
         self.hs_data['Izz'] = inertia.zz
-- 
2.43.0


From 276008fc9e1e9da9406a1a2776c4f72ede6351d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 33/43] fix: faces having two vertices in common without an
 edge were taken as adjacent, and normals were not healed across faces having
 three vertices in common

---
 meshmagick/mesh.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 10cab28..f3592dd 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -946,6 +946,7 @@ class Mesh(object):
         # Establishing v_v and v_f connectivities
         v_v = dict([(i, set()) for i in range(nv)])
         v_f = dict([(i, set()) for i in range(nv)])
+        edge_faces = dict()
         for (iface, face) in enumerate(self._faces):
             if face[0] == face[-1]:
                 face_w = face[:3]
@@ -955,16 +956,18 @@ class Mesh(object):
                 v_f[iV].add(iface)
                 v_v[face_w[index - 1]].add(iV)
                 v_v[iV].add(face_w[index - 1])
+                edge_faces.setdefault(frozenset((iV, face_w[index - 1])), set()).add(iface)
 
         # Connectivity f_f
         boundary_edges = dict()
 
         f_f = dict([(i, set()) for i in range(nf)])
         for ivertex in range(nv):
-            set1 = v_f[ivertex]
             for iadj_v in v_v[ivertex]:
-                set2 = v_f[iadj_v]
-                intersection = list(set1 & set2)
+                if iadj_v == ivertex:
+                    continue
+                # Faces may have both vertices without having the edge (diagonal of a quadrangle)
+                intersection = list(edge_faces[frozenset((ivertex, iadj_v))])
                 if len(intersection) == 2:
                     f_f[intersection[0]].add(intersection[1])
                     f_f[intersection[1]].add(intersection[0])
@@ -1615,8 +1618,10 @@ class Mesh(object):
                 if len(common_vertices) == 2:
                     i_v1, i_v2 = common_vertices
                 else:
-                    print(('WARNING: faces %u and %u have more than 2 vertices in common !' % (iface, iadj_f)))
-                    continue
+                    # The faces have more than 2 vertices in common: taking one of the edges that they share
+                    edges = [set(zip(f[:n], np.roll(f[:n], -1))) for f, n in
+                             ((face, type_cell[iface]), (adjface, type_cell[iadj_f]))]
+                    i_v1, i_v2 = next((v1, v2) for v1, v2 in edges[0] if (v1, v2) in edges[1] or (v2, v1) in edges[1])
 
                 # Checking normal consistency
                 face_ref = np.roll(face[:type_cell[iface]], -np.where(face == i_v1)[0][0])
-- 
2.43.0


From d035a9a393b6a3764915df05d5c66b58ea9c2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 34/43] fix: a mesh that has been shown can still be copied

---
 meshmagick/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index f3592dd..168c25e 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -921,10 +921,10 @@ class Mesh(object):
         """Shows the mesh in the meshmagick viewer"""
 
         vtk_polydata = self._vtk_polydata()
-        self.viewer = MMviewer.MMViewer()
-        self.viewer.add_polydata(vtk_polydata)
-        self.viewer.show()
-        self.viewer.finalize()
+        viewer = MMviewer.MMViewer()
+        viewer.add_polydata(vtk_polydata)
+        viewer.show()
+        viewer.finalize()
 
     def _connectivity(self):
         """Updates the connectivities of the mesh.
-- 
2.43.0


From c04ee1ca5e1f05685c11b8a26007d1e1dce470b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 35/43] fix: the viewer saves the main object, not the last
 thing added to the scene

---
 meshmagick/MMviewer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index 18f8f08..df0d026 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -489,11 +489,10 @@ class MMViewer:
         writer.SetDataModeToAscii()
         writer.SetFileName('mmviewer_save.vtp')
 
-        for polydata in self.polydatas:
-            if vtk.VTK_MAJOR_VERSION <= 5:
-                writer.SetInput(polydata)
-            else:
-                writer.SetInputData(polydata)
+        if vtk.VTK_MAJOR_VERSION <= 5:
+            writer.SetInput(self.polydatas[0])
+        else:
+            writer.SetInputData(self.polydatas[0])
         writer.Write()
 
         print(("File 'mmviewer_save.vtp' written in %s" % getcwd()))
-- 
2.43.0


From a38367f9d6f97f0d7dfbf18b33bc87a0683eaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 36/43] fix: normals_on and normals_off of the viewer show and
 hide the normals

---
 meshmagick/MMviewer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index df0d026..0a10e79 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -93,12 +93,15 @@ class MMViewer:
     def normals_on(self):
         """Displays the normals"""
         
-        self.normals = True
+        if not self.normals:
+            self.show_normals()
 
     def normals_off(self):
         """Hide the normals"""
         
-        self.normals = False
+        for actor in self.normals:
+            self.renderer.RemoveActor(actor)
+        self.normals = []
     
     def plane_on(self):
         """Displays the Oxy plane"""
-- 
2.43.0


From ad36580fcaa16de3f870a88e3e9933aab012c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 37/43] fix: the viewer draws no normals at points and lines

---
 meshmagick/MMviewer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshmagick/MMviewer.py b/meshmagick/MMviewer.py
index 0a10e79..6e82fa3 100644
--- a/meshmagick/MMviewer.py
+++ b/meshmagick/MMviewer.py
@@ -400,6 +400,9 @@ class MMViewer:
         """Shows the normals of the current objects"""
         
         for polydata in self.polydatas:
+            if polydata.GetNumberOfPolys() == 0:
+                continue  # Points and lines have no normals
+
             normals = vtk.vtkPolyDataNormals()
             normals.ConsistencyOff()
             # normals.ComputePointNormalsOn()
-- 
2.43.0


From 48012e661577effccf06a3b450f72bb43068c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:15 +0000
Subject: [PATCH 38/43] fix: orientations healed by heal_normals depended on
 the order of the faces visited when a triangle repeats another vertex than
 its first

---
 meshmagick/mesh.py | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/meshmagick/mesh.py b/meshmagick/mesh.py
index 168c25e..7ac8805 100644
--- a/meshmagick/mesh.py
+++ b/meshmagick/mesh.py
@@ -1582,10 +1582,6 @@ class Mesh(object):
         mesh_closed = self.is_mesh_closed()
 
         # Flooding the mesh to find inconsistent normals
-        type_cell = np.zeros(nf, dtype=int)
-        type_cell[:] = 4
-        type_cell[self.triangles_ids] = 3
-
         f_vis = np.zeros(nf, dtype=bool)
         f_vis[0] = True
         stack = [0]
@@ -1601,7 +1597,7 @@ class Mesh(object):
 
             iface = stack.pop()
             face = faces[iface]
-            s1 = set(face)
+            edges = set(zip(face, np.roll(face, -1)))
 
             for iadj_f in f_f[iface]:
                 if f_vis[iadj_f]:
@@ -1610,29 +1606,13 @@ class Mesh(object):
                 # Removing the other pointer
                 f_f[iadj_f].remove(iface)  # So as it won't go from iadj_f to iface in the future
 
-                # Shared vertices
+                # Shared edges
                 adjface = faces[iadj_f]
-                s2 = set(adjface)
-                # try:
-                common_vertices = list(s1 & s2)
-                if len(common_vertices) == 2:
-                    i_v1, i_v2 = common_vertices
-                else:
-                    # The faces have more than 2 vertices in common: taking one of the edges that they share
-                    edges = [set(zip(f[:n], np.roll(f[:n], -1))) for f, n in
-                             ((face, type_cell[iface]), (adjface, type_cell[iadj_f]))]
-                    i_v1, i_v2 = next((v1, v2) for v1, v2 in edges[0] if (v1, v2) in edges[1] or (v2, v1) in edges[1])
-
-                # Checking normal consistency
-                face_ref = np.roll(face[:type_cell[iface]], -np.where(face == i_v1)[0][0])
-                adj_face_ref = np.roll(adjface[:type_cell[iadj_f]], -np.where(adjface == i_v1)[0][0])
-
-                if face_ref[1] == i_v2:
-                    i = 1
-                else:
-                    i = -1
+                adj_edges = set(zip(adjface, np.roll(adjface, -1)))
 
-                if adj_face_ref[i] == i_v2:
+                # Checking normal consistency: shared edges have to be run in opposite directions. Vertices may be
+                # repeated anywhere in triangles that have not been healed.
+                if any(v1 != v2 for v1, v2 in edges & adj_edges):
                     # Reversing normal
                     nb_reversed += 1
                     faces[iadj_f] = np.flipud(faces[iadj_f])
-- 
2.43.0


From 3a86a81f73f40db00d13fc238046c499aa062b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 39/43] fix: write_GDF declared the y = 0 plane a symmetry of
 the whole mesh it writes, so that WAMIT doubled the panels

---
 meshmagick/mmio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index 8ebce5d..c494558 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -1660,7 +1660,7 @@ def write_GDF(filename, vertices, faces):
     ofile.write('GDF file generated by meshmagick on %s\n' % time.strftime('%c'))
 
     ofile.write('%16.6f%16.6f\n' % (100.0, 9.81))
-    ofile.write('%12u%12u\n' % (0, 1))  # TODO : mettre les symetries en argument
+    ofile.write('%12u%12u\n' % (0, 0))  # TODO : mettre les symetries en argument
     ofile.write('%12u\n' % nf)
 
     for cell in faces:
-- 
2.43.0


From 80c70029952c0513f08c621f8aad2fc314df4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 40/43] fix: files with a title or a comment that is not in
 UTF-8 could not be read

---
 meshmagick/mmio.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/meshmagick/mmio.py b/meshmagick/mmio.py
index c494558..beea4f6 100644
--- a/meshmagick/mmio.py
+++ b/meshmagick/mmio.py
@@ -72,7 +72,7 @@ def load_RAD(filename):
 
     import re
     _check_file(filename)
-    ifile = open(filename, 'r')
+    ifile = open(filename, 'r', errors='replace')
     data = ifile.read()
     ifile.close()
 
@@ -125,7 +125,7 @@ def load_HST(filename):
     """
     _check_file(filename)
 
-    ifile = open(filename, 'r')
+    ifile = open(filename, 'r', errors='replace')
     data = ifile.read()
     ifile.close()
 
@@ -181,7 +181,7 @@ def load_DAT(filename):
     """
     _check_file(filename)
     
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='replace') as f:
         data = f.read()
     
     import re
@@ -445,7 +445,7 @@ def load_TEC(filename):
                     + r'(^(?:\s*' + real_str + r'){3,})\s+'
                     + r'(^(?:\s*\d+)*)', re.MULTILINE)
 
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='replace') as f:
         data = f.read()
 
     nv, nf, vertices, faces = data_pattern.search(data).groups()
@@ -766,7 +766,7 @@ def load_GDF(filename):
 
     _check_file(filename)
 
-    ifile = open(filename, 'r')
+    ifile = open(filename, 'r', errors='replace')
 
     ifile.readline()  # skip one header line
     line = ifile.readline().split()
@@ -860,7 +860,7 @@ def load_MSH22(filename):
 
     _check_file(filename)
 
-    with open(filename, 'r') as file:
+    with open(filename, 'r', errors='replace') as file:
         data = file.read()
 
     nb_nodes, nodes_data = re.search(r'\$Nodes\n(\d+)\n(.+)\$EndNodes', data, re.DOTALL).groups()
@@ -946,7 +946,7 @@ def load_MSH(filename):
 
     _check_file(filename)
 
-    with open(filename, 'r') as file:
+    with open(filename, 'r', errors='replace') as file:
         data = file.read()
 
     version = float(re.search(r'\$MeshFormat\n(\d.\d).*\n\$EndMeshFormat', data, re.DOTALL).groups()[0])
@@ -1044,7 +1044,7 @@ def load_WRL(filename):
     _check_file(filename)
     
     # Checking version
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='replace') as f:
         line = f.readline()
         ver = re.search(r'#VRML\s+V(\d.\d)', line).group(1)
         if not ver == '2.0':
@@ -1116,7 +1116,7 @@ def load_PNL(filename, name=None):
         the loaded mesh
     """
 
-    with open(filename, 'r') as f:
+    with open(filename, 'r', errors='replace') as f:
         # Skip 3 title lines
         f.readline()
         f.readline()
-- 
2.43.0


From 2587a85c185c6dcd5c329604fb5796a138242f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 41/43] fix: a modified default clipping plane became that of
 every other clipper, and of the hydrostatics

---
 meshmagick/mesh_clipper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshmagick/mesh_clipper.py b/meshmagick/mesh_clipper.py
index a69fd50..44a6776 100644
--- a/meshmagick/mesh_clipper.py
+++ b/meshmagick/mesh_clipper.py
@@ -23,9 +23,10 @@ class MeshClipper(object):
     verbose : bool, optional
         False by default. If True, some messages on operations that are handled are printed.
     """
-    def __init__(self, source_mesh, plane=Plane(), vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
+    def __init__(self, source_mesh, plane=None, vicinity_tol=1e-3, assert_closed_boundaries=False, verbose=False):
         self._source_mesh = source_mesh
-        self._plane = plane
+        # The default plane is not shared: it may be modified through the clipper
+        self._plane = Plane() if plane is None else plane
 
         self._vicinity_tol = vicinity_tol
 
-- 
2.43.0


From b546bfbd4330b900b8d7bda6c434b0b0ece38e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 42/43] fix: the rotation in the hydrostatic data was the
 default argument itself: modified, it changed later computations

---
 meshmagick/hydrostatics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshmagick/hydrostatics.py b/meshmagick/hydrostatics.py
index c0de234..fd633fc 100644
--- a/meshmagick/hydrostatics.py
+++ b/meshmagick/hydrostatics.py
@@ -166,7 +166,7 @@ def compute_hydrostatics(mesh, cog, rho_water, grav, rotmat_corr=np.eye(3), z_co
     hs_data['grav'] = grav
     hs_data['rho_water'] = rho_water
     hs_data["mesh"] = mesh.copy()
-    hs_data["rotmat_eq"] = rotmat_corr
+    hs_data["rotmat_eq"] = np.array(rotmat_corr)
     hs_data["z_eq"] = z_corr
     hs_data["cog"] = cog.copy()
 
-- 
2.43.0


From 7a8726de68e22563b916210be5986bf2fc8dc968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:02 +0000
Subject: [PATCH 43/43] fix: RigidBodyInertia keeps copies of the points it is
 given

---
 meshmagick/inertia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshmagick/inertia.py b/meshmagick/inertia.py
index c177f05..79d66ad 100644
--- a/meshmagick/inertia.py
+++ b/meshmagick/inertia.py
@@ -43,13 +43,13 @@ class RigidBodyInertia(object):
         self._mass = float(mass)
 
         assert len(cog) == 3
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
         if point is None:
             self._point = self._cog
         else:
             assert len(point) == 3
-            self._point = np.asarray(point, dtype=float)
+            self._point = np.array(point, dtype=float)
 
         self._3d_rotational_inertia = np.array([[float(xx), -float(xy), -float(xz)],
                                                 [-float(xy), float(yy), -float(yz)],
@@ -112,7 +112,7 @@ class RigidBodyInertia(object):
         """
         assert len(cog) == 3
         assert isinstance(cog, (tuple, list, np.ndarray))
-        self._cog = np.asarray(cog, dtype=float)
+        self._cog = np.array(cog, dtype=float)
 
     def shift_at_cog(self):
         """Shift the inertia matrix internally at cog.
-- 
2.43.0

