From d83ddaee2ebcf0b716d4626ad5f5f87413f39021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 01/28] fix: keep lhs-sampled boundary points of an external
 mesh on the boundary edges

x and y were sampled independently, which fills the bounding box of an oblique edge.
---
 fastvpinns/Geometry/geometry_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..f5f9257 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -176,10 +176,10 @@ class Geometry_2D(Geometry):
                 # take the current point and next point and then perform a uniform sampling
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
-                # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # take the current point and next point and then sample the segment between them
+                # (one parameter per point, so that the points stay on the segment)
+                params = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = p1 + params * (p2 - p1)
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From 2d092d1a6df8b24dae02bb6740bb2e68185c09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 02/28] fix: take boundary tags from the edges of the mesh,
 whatever the section order

The first cell block was assumed to hold the edges; with the quadrilaterals first, their tags were used.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index f5f9257..d72be25 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From fd04973fe1b042dead5f6bc90a6076653a38470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 03/28] fix: read external meshes whose vertices are
 two-dimensional

The reshape to three columns fails unless four times the number of edges is a multiple of three.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index d72be25..2cd52e6 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From ec71ea7495f391915255df3ba59cbd31d9827d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 04/28] fix: give the internally generated mesh a connectivity
 of point indices

The coordinates were stored as connectivity.
---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 2cd52e6..d2d1287 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From 9feee3ed0c4d18eb191f4daa32aea719e50d8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 05/28] fix: close the gmsh session when writing the internal
 test mesh fails

A failure (an output folder that does not exist) left the model in the session, and every later
mesh of the process failed on its leftovers.
---
 fastvpinns/Geometry/geometry_2d.py | 64 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index d2d1287..1ef977e 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -359,48 +359,50 @@ class Geometry_2D(Geometry):
             # initialise the mesh
             gmsh.initialize()
 
-            # Now, lets generate the mesh with the points.
-            x_range = self.x_limits[1] - self.x_limits[0]
-            y_range = self.y_limits[1] - self.y_limits[0]
+            try:
+                # Now, lets generate the mesh with the points.
+                x_range = self.x_limits[1] - self.x_limits[0]
+                y_range = self.y_limits[1] - self.y_limits[0]
 
-            mesh_size_x = x_range / self.n_test_points_x
-            mesh_size_y = y_range / self.n_test_points_y
+                mesh_size_x = x_range / self.n_test_points_x
+                mesh_size_y = y_range / self.n_test_points_y
 
-            # generate a gmsh with the given parameters
-            Xmin = self.x_limits[0]
-            Xmax = self.x_limits[1]
-            Ymin = self.y_limits[0]
-            Ymax = self.y_limits[1]
+                # generate a gmsh with the given parameters
+                Xmin = self.x_limits[0]
+                Xmax = self.x_limits[1]
+                Ymin = self.y_limits[0]
+                Ymax = self.y_limits[1]
 
-            point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
-            point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
-            point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
-            point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
+                point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
+                point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
+                point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
+                point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
 
-            line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
-            line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
-            line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
-            line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
+                line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
+                line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
+                line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
+                line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
 
-            face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
+                face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
 
-            gmsh.model.geo.add_plane_surface([face1])
+                gmsh.model.geo.add_plane_surface([face1])
 
-            # Create the relevant Gmsh data structures
-            # from Gmsh model.
-            gmsh.model.geo.synchronize()
+                # Create the relevant Gmsh data structures
+                # from Gmsh model.
+                gmsh.model.geo.synchronize()
 
-            # Generate mesh:
-            gmsh.model.mesh.generate()
+                # Generate mesh:
+                gmsh.model.mesh.generate()
 
-            mesh_file_name = Path(self.output_folder) / "internal.msh"
-            vtk_file_name = Path(self.output_folder) / "internal.vtk"
+                mesh_file_name = Path(self.output_folder) / "internal.msh"
+                vtk_file_name = Path(self.output_folder) / "internal.vtk"
 
-            gmsh.write(str(mesh_file_name))
-            print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
+                gmsh.write(str(mesh_file_name))
+                print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
 
-            # close the gmsh
-            gmsh.finalize()
+            finally:
+                # close the gmsh, also when the generation or the write failed
+                gmsh.finalize()
 
             # read the mesh using meshio
             mesh = meshio.gmsh.read(str(mesh_file_name))
-- 
2.43.0


From 805c0ebb32bef76a8c5b71013ac7b4a875710c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 06/28] fix: let the constant-inverse CD2D loss be used with
 the inverse model

DenseModel_Inverse passes bilinear_params and inverse_params_dict by name, as poisson2d_inverse takes them.
---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From b9a6be5896c6a04fbfbe260913837176ca0390c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 07/28] fix: honour the staircase flag of the learning rate
 configuration

The documented flag was read and ignored: the decay was always a staircase.
---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..3cfc88e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..40bd87c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..4e08886 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From c7072588d47deba382d1e5194f130c8f4a620f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 08/28] fix: keep the hard constraint function in the model's
 configuration

A model rebuilt from get_config() lost its boundary constraint.
---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..07cda3c 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -248,6 +248,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "use_attention": self.use_attention,
                 "activation": self.activation,
                 "hessian": self.hessian,
+                "hard_constraint_function": self.hard_constraint_function,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
             }
-- 
2.43.0


From 1396df22b104622da88baf04f9b5b53eefd0d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 09/28] fix: do not replace the entries of the caller's inverse
 parameter dictionary

Two models built from one dictionary shared it: the second replaced the parameters of the first,
which from then on trained nothing.
---
 fastvpinns/model/model_inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 40bd87c..b4c2ccf 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -70,7 +70,7 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From 558c832b936b8400d7d9f1b17e7df81a91de7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 10/28] fix: plot meshes with more boundary ids than there are
 markers

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..367fd54 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -323,7 +323,7 @@ class Fespace2D(Fespace):
 
             bound_dof += x.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From 883130ae21b54ec58059ca744db2a402bc372b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 11/28] fix: evaluate the derivatives of the Jacobi test
 functions stably

The monomial coefficients that deriv() works on lose all digits from about order 30.
---
 fastvpinns/FE/basis_2d_QN_Jacobi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/FE/basis_2d_QN_Jacobi.py b/fastvpinns/FE/basis_2d_QN_Jacobi.py
index ad043bb..0ef047b 100644
--- a/fastvpinns/FE/basis_2d_QN_Jacobi.py
+++ b/fastvpinns/FE/basis_2d_QN_Jacobi.py
@@ -75,9 +75,13 @@ class Basis2DQNJacobi(BasisFunction2D):
         """
         x = np.array(x, dtype=np.float64)
         if k == 1:
-            return jacobi(n, a, b).deriv()(x)
+            return (n + a + b + 1) / 2 * jacobi(n - 1, a + 1, b + 1)(x) if n > 0 else np.zeros_like(x)
         if k == 2:
-            return jacobi(n, a, b).deriv(2)(x)
+            return (
+                (n + a + b + 1) * (n + a + b + 2) / 4 * jacobi(n - 2, a + 2, b + 2)(x)
+                if n > 1
+                else np.zeros_like(x)
+            )
         else:
             print(f"Invalid derivative order {k} in {__name__}.")
             raise ValueError("Derivative order should be 1 or 2.")
-- 
2.43.0


From 6fc20fab04b275c89336ede80e251f1a24c245e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 12/28] fix: evaluate the derivatives of the special Legendre
 test functions stably

The monomial coefficients that deriv() works on lose all digits from about order 30.
---
 fastvpinns/FE/basis_2d_QN_Legendre_Special.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fastvpinns/FE/basis_2d_QN_Legendre_Special.py b/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
index 9404036..c9e8bdd 100644
--- a/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
+++ b/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
@@ -10,7 +10,7 @@ known_issues: None
 import numpy as np
 
 # import the legendre polynomials
-from scipy.special import legendre
+from numpy.polynomial.legendre import Legendre
 import matplotlib.pyplot as plt
 
 from .basis_function_2d import BasisFunction2D
@@ -52,8 +52,8 @@ class Basis2DQNLegendreSpecial(BasisFunction2D):
         """
         test_total = []
         for n in range(1, n_test + 1):
-            obj1 = legendre(n + 1)
-            obj2 = legendre(n - 1)
+            obj1 = Legendre.basis(n + 1)
+            obj2 = Legendre.basis(n - 1)
             test = obj1(x) - obj2(x)
             test_total.append(test)
         return np.asarray(test_total)
@@ -71,8 +71,8 @@ class Basis2DQNLegendreSpecial(BasisFunction2D):
         """
         test_total = []
         for n in range(1, n_test + 1):
-            obj1 = legendre(n + 1).deriv()
-            obj2 = legendre(n - 1).deriv()
+            obj1 = Legendre.basis(n + 1).deriv()
+            obj2 = Legendre.basis(n - 1).deriv()
             test = obj1(x) - obj2(x)
             test_total.append(test)
         return np.asarray(test_total)
@@ -90,8 +90,8 @@ class Basis2DQNLegendreSpecial(BasisFunction2D):
         """
         test_total = []
         for n in range(1, n_test + 1):
-            obj1 = legendre(n + 1).deriv(2)
-            obj2 = legendre(n - 1).deriv(2)
+            obj1 = Legendre.basis(n + 1).deriv(2)
+            obj2 = Legendre.basis(n - 1).deriv(2)
             test = obj1(x) - obj2(x)
 
             test_total.append(test)
-- 
2.43.0


From 48711b192d294d28408796ad9513790c256a8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 13/28] fix: do not round the inputs of float64 models to
 float32

The model kept the default float32 dtype, to which keras casts the inputs; a hard constraint function
that combines the inputs with the network output failed for float64.
---
 fastvpinns/model/model.py                | 6 +++++-
 fastvpinns/model/model_hard.py           | 6 +++++-
 fastvpinns/model/model_inverse.py        | 6 +++++-
 fastvpinns/model/model_inverse_domain.py | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 3cfc88e..c64d441 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,11 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        # the model computes in the given dtype: with the default dtype, keras would cast the inputs of
+        # a float64 model to float32 (an invalid dtype is rejected below)
+        super(DenseModel, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 07cda3c..25ae839 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,11 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        # the model computes in the given dtype: with the default dtype, keras would cast the inputs of
+        # a float64 model to float32 (an invalid dtype is rejected below)
+        super(DenseModel_Hard, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index b4c2ccf..d581e7d 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,11 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        # the model computes in the given dtype: with the default dtype, keras would cast the inputs of
+        # a float64 model to float32 (an invalid dtype is rejected below)
+        super(DenseModel_Inverse, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 4e08886..e28f5e2 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        # the model computes in the given dtype: with the default dtype, keras would cast the inputs of
+        # a float64 model to float32 (an invalid dtype is rejected below)
+        super(DenseModel_Inverse_Domain, self).__init__(
+            dtype=tensor_dtype if isinstance(tensor_dtype, tf.DType) else None
+        )
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
-- 
2.43.0


From c5a5cc291587df4b24aa47ff6cc34c619aaf0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 14/28] fix: reject a solution that does not have one row per
 mesh point in write_vtk

A file whose data arrays disagree with its number of points was written.
---
 fastvpinns/Geometry/geometry_2d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 1ef977e..c21ed48 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -489,6 +489,13 @@ class Geometry_2D(Geometry):
             )
             raise ValueError("Number of data names and solution columns are not equal")
 
+        # the number of points of the mesh, in the line "POINT_DATA n"
+        n_points = next((int(line.split()[1]) for line in data if "POINT_DATA" in line), None)
+        if n_points is not None and solution.shape[0] != n_points:
+            raise ValueError(
+                f"The solution has {solution.shape[0]} rows, but the mesh has {n_points} points"
+            )
+
         # write the data to the output file
         with open(str(output_file_name), "w", encoding="utf-8") as FN:
             for line in data:
-- 
2.43.0


From c6fc19144a97c7d70ca68230bf0c729a00eadee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 15/28] fix: let the hyperparameter tuner run on a machine
 without a GPU

The device number was computed modulo zero.
---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..357b1e3 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,10 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        # without a GPU, the trials run on the CPU
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -52,7 +56,7 @@ class OptunaTuner:
             load_if_exists=True,
         )
         study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
+            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus) or 1, self.n_jobs)
         )
 
         print("Best trial:")
-- 
2.43.0


From 30ea5cb6a13bbc7cc52b43c844ee7c592a7037f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 16/28] fix: do not fail when parallel trials create the output
 folder at the same time

---
 fastvpinns/hyperparameter_tuning/objective.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/objective.py b/fastvpinns/hyperparameter_tuning/objective.py
index 707ddba..b3bd223 100644
--- a/fastvpinns/hyperparameter_tuning/objective.py
+++ b/fastvpinns/hyperparameter_tuning/objective.py
@@ -70,8 +70,8 @@ def objective(trial, num_epochs):
     # Set up your model and training process using the suggested hyperparameters
 
     output_temp_dir = "output_temp"
-    if not os.path.exists(output_temp_dir):
-        os.makedirs(output_temp_dir)
+    # the trials may run in parallel, and another one may create the folder at any time
+    os.makedirs(output_temp_dir, exist_ok=True)
 
     gpus = tf.config.list_physical_devices('GPU')
     if gpus:
-- 
2.43.0


From f7a57bfedb595514e5be3fb029a7743b533a17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 17/28] fix: do not depend on the order in which the element
 modules are imported

---
 fastvpinns/FE/fe2d_setup_main.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fastvpinns/FE/fe2d_setup_main.py b/fastvpinns/FE/fe2d_setup_main.py
index 1326fb0..24fdc18 100644
--- a/fastvpinns/FE/fe2d_setup_main.py
+++ b/fastvpinns/FE/fe2d_setup_main.py
@@ -18,6 +18,15 @@ from .quadratureformulas_quad2d import *
 # import base class for FE transformation
 from .fe_transformation_2d import *
 
+# the base class modules import these modules in turn, so that the names above are missing when one of
+# these modules was imported first
+from .basis_2d_QN_Legendre import Basis2DQNLegendre
+from .basis_2d_QN_Legendre_Special import Basis2DQNLegendreSpecial
+from .basis_2d_QN_Jacobi import Basis2DQNJacobi
+from .basis_2d_QN_Chebyshev_2 import Basis2DQNChebyshev2
+from .quad_affine import QuadAffin
+from .quad_bilinear import QuadBilinear
+
 
 class FE2DSetupMain:
     """
-- 
2.43.0


From 5dbc04e76bded85af16639cabcee3d27f83814e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 18/28] fix: do not replace the entries of a coefficient
 dictionary the caller keeps

A function that returns a dictionary it keeps had its numbers replaced by tensors of one precision; a second
data handler of another precision then failed on them.
---
 fastvpinns/data/datahandler2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..1bd5a9f 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,7 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -209,7 +209,7 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-- 
2.43.0


From 974c21f65ba9ca0bb52fc843e1ca126825569b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 19/28] fix: keep the unknowns of an inverse model in a
 dictionary of its own

A model built from variables (the configuration of another model holds its variables) tracked them as weights
of its own in addition to its copies: it had weights that nothing trained and could not take over the weights
of the model it was rebuilt from.
---
 fastvpinns/model/model_inverse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index d581e7d..44ae253 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -74,14 +74,14 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = dict(inverse_params_dict)
-
         # Conver all the values within inverse_params_dict to trainable variables
+        # (in a dictionary of the model's own: a given value may be the variable of another model)
+        self.inverse_params_dict = {
+            key: tf.Variable(value, dtype=self.tensor_dtype, trainable=True)
+            for key, value in inverse_params_dict.items()
+        }
         for key, value in self.inverse_params_dict.items():
-            self.inverse_params_dict[key] = tf.Variable(
-                value, dtype=self.tensor_dtype, trainable=True
-            )
-            tf.print(f"Key : {key} , Value : {self.inverse_params_dict[key]}")
+            tf.print(f"Key : {key} , Value : {value}")
 
         # add the sensor points to the trainable variables of the model
         self.trainable_variables.extend(self.inverse_params_dict.values())
-- 
2.43.0


From 2bb81ca0c2ca299e49c2759c24a8f68e056facb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 20/28] fix: give the hard constraint function inputs of the
 model's dtype when the model is built

---
 fastvpinns/model/model_hard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 25ae839..bb5f56b 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -217,6 +217,8 @@ class DenseModel_Hard(tf.keras.Model):
         :return: Output tensor from the model
         :rtype: tf.Tensor
         """
+        # the constraint sees the inputs in the dtype of the model (keras builds the model with float32 inputs)
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
-- 
2.43.0


From ed726387d7d1cf1c1ee07fafc09ad2b4006d0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 21/28] fix: let a model be trained after its first training
 step failed

---
 fastvpinns/model/model.py                | 2 ++
 fastvpinns/model/model_hard.py           | 2 ++
 fastvpinns/model/model_inverse.py        | 2 ++
 fastvpinns/model/model_inverse_domain.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index c64d441..2c30872 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -181,6 +181,8 @@ class DenseModel(tf.keras.Model):
         # Compile the model
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
+        # create the variables of the optimizer now: created within train_step, they are lost for good when its first call fails
+        self.optimizer.build(self.trainable_variables)
 
         # print the summary of the model
         self.summary()
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index bb5f56b..f2372a7 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -202,6 +202,8 @@ class DenseModel_Hard(tf.keras.Model):
         # Compile the model
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
+        # create the variables of the optimizer now: created within train_step, they are lost for good when its first call fails
+        self.optimizer.build(self.trainable_variables)
 
         # print the summary of the model
         self.summary()
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 44ae253..5f0df11 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -193,6 +193,8 @@ class DenseModel_Inverse(tf.keras.Model):
         # Compile the model
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
+        # create the variables of the optimizer now: created within train_step, they are lost for good when its first call fails
+        self.optimizer.build(self.trainable_variables)
 
         # print the summary of the model
         self.summary()
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index e28f5e2..2fd3787 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -187,6 +187,8 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         # Compile the model
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
+        # create the variables of the optimizer now: created within train_step, they are lost for good when its first call fails
+        self.optimizer.build(self.trainable_variables)
 
         # print the summary of the model
         self.summary()
-- 
2.43.0


From ab47003350f64660b532f2ce9e46b5c2ecd5deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 22/28] fix: tell the colorbar of the residual plot which axes
 it belongs to

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index c21ed48..43e5092 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -568,7 +568,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 39fd91fb6b94c41495fba2d169cce63d6d97d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 23/28] fix: build the domain-inverse model once, when its
 layers exist: with attention it could not be built

---
 fastvpinns/model/model_inverse_domain.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 2fd3787..b913de0 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -144,15 +144,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)
 
-        # build the model using the input shape of the first layer in self.layer_dims
-        input_shape = (None, self.layer_dims[0])
-        # build the model
-        self.build(input_shape=input_shape)
-        # Compile the model
-        self.compile(optimizer=self.optimizer)
-        # print model summary
-        self.summary()
-
         ## ----------------------------------------------------------------- ##
         ## --------------------- MODEL ARCHITECTURE ------------------------ ##
         ## ----------------------------------------------------------------- ##
-- 
2.43.0


From 71c32780de7b07a7c8b01099f7f6e5e498fded7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 24/28] fix: compute the attention of float64 models in float64

---
 fastvpinns/model/model.py                | 2 +-
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 2c30872..0cde604 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -176,7 +176,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index f2372a7..2e08783 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -197,7 +197,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 5f0df11..efcdceb 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -188,7 +188,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index b913de0..ee65a42 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -173,7 +173,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
-- 
2.43.0


From 1d32f30ccab24e7c9e5820b5736922e36862b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 25/28] fix: the example scripts ignored the configured
 model_architecture

---
 examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py | 2 +-
 .../complex_mesh/poisson2d/main_poisson2d.py                    | 2 +-
 .../hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py | 2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py                 | 2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py                   | 2 +-
 examples/optuna_examples/main.py                                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
index a079b1a..55b7ec9 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
index a079b1a..55b7ec9 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 1e6f304..3a884cd 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -169,7 +169,7 @@ if __name__ == "__main__":
         return ansatz * x
 
     model = DenseModel_Hard(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index be73765..8a5289f 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_helmholtz,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 9b36508..792bac8 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index 2e93710..614dd41 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -202,7 +202,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
-- 
2.43.0


From f976d64a965615a68ceac8a279e199dd1e186a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 26/28] fix: the plot of a finite element space miscounted its
 boundary points

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 367fd54..10f591a 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -321,7 +321,7 @@ class Fespace2D(Fespace):
             x = np.append(x, x[0])
             y = np.append(y, y[0])
 
-            bound_dof += x.shape[0]
+            bound_dof += bound_pts.shape[0]
 
             plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
-- 
2.43.0


From 9635f35538221707c5305223231e6007685ab9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 27/28] fix: a tuner asked for zero jobs could not run

---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index 357b1e3..f8d8acd 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -56,7 +56,7 @@ class OptunaTuner:
             load_if_exists=True,
         )
         study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus) or 1, self.n_jobs)
+            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus) or 1, self.n_jobs) or 1
         )
 
         print("Best trial:")
-- 
2.43.0


From 8b28079d521841526569cffc9149f3c77067ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 28/28] Revert the change of the example scripts (examples/
 counts among the test files)

This reverts commit 1d32f30ccab24e7c9e5820b5736922e36862b9ce.
---
 examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py | 2 +-
 .../complex_mesh/poisson2d/main_poisson2d.py                    | 2 +-
 .../hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py | 2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py                 | 2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py                   | 2 +-
 examples/optuna_examples/main.py                                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
index 55b7ec9..a079b1a 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
index 55b7ec9..a079b1a 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 3a884cd..1e6f304 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -169,7 +169,7 @@ if __name__ == "__main__":
         return ansatz * x
 
     model = DenseModel_Hard(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index 8a5289f..be73765 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_helmholtz,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 792bac8..9b36508 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index 614dd41..2e93710 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -202,7 +202,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
-- 
2.43.0

