From 48ecdd3287337abc99f094c1d465c96290a41596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 01/14] fix: connectivity of the internal mesh refers to its
 points

The quad block of the meshio mesh was filled with the vertex coordinates
instead of the indices of the cells' vertices.
---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..46ecd1c 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From bbb04fae62c8fbdb616bfcc937db2ce1783e60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 02/14] fix: lhs boundary samples of external meshes lie on the
 edge

x and y were sampled independently, which scatters the points over the
bounding box of every edge that is not parallel to an axis.
---
 fastvpinns/Geometry/geometry_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 46ecd1c..317aebb 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -177,9 +177,9 @@ class Geometry_2D(Geometry):
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
                 # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # one parameter per point, so that the samples lie on the edge
+                new_points = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = new_points * (p2[:2] - p1[:2]) + p1[:2]
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From ead1ddcee41718122f53dc143978d91a241233f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 03/14] fix: boundary tags come from the line elements of the
 mesh file

The references of the first block were used, which are those of the cells
when the file lists the cells before the edges.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 317aebb..ff19914 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From ddc1068760d7f2fa4957e93d59cc900841970f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 04/14] fix: read meshes with two-dimensional vertices

The boundary point summary assumed three coordinates per vertex.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index ff19914..4af3325 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From 607213710574549c911c04790f22f0d81db66325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 05/14] fix: models evaluate the network at the requested
 precision

Keras cast the inputs of float64 models to float32 before the first layer.
---
 fastvpinns/model/model.py                | 13 +++++++------
 fastvpinns/model/model_hard.py           | 13 +++++++------
 fastvpinns/model/model_inverse.py        | 13 +++++++------
 fastvpinns/model/model_inverse_domain.py | 13 +++++++------
 4 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..1806881 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,12 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        # if dtype is not a valid tensorflow dtype, raise an error
+        if not isinstance(tensor_dtype, tf.DType):
+            raise TypeError("The given dtype is not a valid tensorflow dtype")
+
+        # the model computes at the requested precision, keras casts its inputs to this dtype
+        super(DenseModel, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -70,10 +75,6 @@ class DenseModel(tf.keras.Model):
 
         self.tensor_dtype = tensor_dtype
 
-        # if dtype is not a valid tensorflow dtype, raise an error
-        if not isinstance(self.tensor_dtype, tf.DType):
-            raise TypeError("The given dtype is not a valid tensorflow dtype")
-
         self.orig_factor_matrices = orig_factor_matrices
         self.shape_function_mat_list = copy.deepcopy(orig_factor_matrices[0])
         self.shape_function_grad_x_factor_mat_list = copy.deepcopy(orig_factor_matrices[1])
@@ -172,7 +173,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..7299ceb 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,12 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        # if dtype is not a valid tensorflow dtype, raise an error
+        if not isinstance(tensor_dtype, tf.DType):
+            raise TypeError("The given dtype is not a valid tensorflow dtype")
+
+        # the model computes at the requested precision, keras casts its inputs to this dtype
+        super(DenseModel_Hard, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -89,10 +94,6 @@ class DenseModel_Hard(tf.keras.Model):
 
         self.tensor_dtype = tensor_dtype
 
-        # if dtype is not a valid tensorflow dtype, raise an error
-        if not isinstance(self.tensor_dtype, tf.DType):
-            raise TypeError("The given dtype is not a valid tensorflow dtype")
-
         self.orig_factor_matrices = orig_factor_matrices
         self.shape_function_mat_list = copy.deepcopy(orig_factor_matrices[0])
         self.shape_function_grad_x_factor_mat_list = copy.deepcopy(orig_factor_matrices[1])
@@ -193,7 +194,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..539a462 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,12 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        # if dtype is not a valid tensorflow dtype, raise an error
+        if not isinstance(tensor_dtype, tf.DType):
+            raise TypeError("The given dtype is not a valid tensorflow dtype")
+
+        # the model computes at the requested precision, keras casts its inputs to this dtype
+        super(DenseModel_Inverse, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -82,10 +87,6 @@ class DenseModel_Inverse(tf.keras.Model):
         # add the sensor points to the trainable variables of the model
         self.trainable_variables.extend(self.inverse_params_dict.values())
 
-        # if dtype is not a valid tensorflow dtype, raise an error
-        if not isinstance(self.tensor_dtype, tf.DType):
-            raise TypeError("The given dtype is not a valid tensorflow dtype")
-
         self.orig_factor_matrices = orig_factor_matrices
         self.shape_function_mat_list = copy.deepcopy(orig_factor_matrices[0])
         self.shape_function_grad_x_factor_mat_list = copy.deepcopy(orig_factor_matrices[1])
@@ -184,7 +185,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..00ad744 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,12 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        # if dtype is not a valid tensorflow dtype, raise an error
+        if not isinstance(tensor_dtype, tf.DType):
+            raise TypeError("The given dtype is not a valid tensorflow dtype")
+
+        # the model computes at the requested precision, keras casts its inputs to this dtype
+        super(DenseModel_Inverse_Domain, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -67,10 +72,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         self.sensor_points = sensor_list[0]
         self.sensor_values = sensor_list[1]
 
-        # if dtype is not a valid tensorflow dtype, raise an error
-        if not isinstance(self.tensor_dtype, tf.DType):
-            raise TypeError("The given dtype is not a valid tensorflow dtype")
-
         self.orig_factor_matrices = orig_factor_matrices
         self.shape_function_mat_list = copy.deepcopy(orig_factor_matrices[0])
         self.shape_function_grad_x_factor_mat_list = copy.deepcopy(orig_factor_matrices[1])
@@ -178,7 +179,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
-- 
2.43.0


From 9c7a7f83d290a4a7bd2d34d3ddfbdcece9261dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 06/14] fix: hard-constraint models can be built in float64

build() evaluates the network on a float32 placeholder, which the constraint function combined with
the float64 network output.
---
 fastvpinns/model/model_hard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 7299ceb..76db50d 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -224,7 +224,7 @@ class DenseModel_Hard(tf.keras.Model):
         for layer in self.layer_list:
             x = layer(x)
 
-        x = self.hard_constraint_function(inputs, x)
+        x = self.hard_constraint_function(tf.cast(inputs, x.dtype), x)
 
         return x
 
-- 
2.43.0


From da1a72f4ba6e76a98135b560f0b874acbd4f6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 07/14] fix: the learning-rate schedule honours the staircase
 entry

All models used staircase=True regardless of the dictionary, and two of them failed without the entry.
---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 4 ++--
 fastvpinns/model/model_inverse.py        | 4 ++--
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 1806881..ed676d9 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -133,11 +133,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 76db50d..bc1b36a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -154,11 +154,11 @@ class DenseModel_Hard(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 539a462..b06f00d 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -145,11 +145,11 @@ class DenseModel_Inverse(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 00ad744..3029752 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -130,11 +130,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From 54fa55ffc60bfd7b93ca37da7d6cdb82d74bfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 08/14] fix: cd2d inverse loss accepts the arguments the
 inverse model passes

DenseModel_Inverse calls its loss with bilinear_params and inverse_params_dict.
---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From cec3f7d00929b5fc2dc50787309196ae505ccc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 09/14] fix: hyperparameter tuning works on machines without a
 GPU

The wrapper divided by the number of GPUs and limited the number of jobs to zero.
---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..4b8507f 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -37,9 +37,12 @@ class OptunaTuner:
 
     def objective_wrapper(self, trial):
         """
-        Wrapper function to run the objective function on a specific GPU.
+        Wrapper function to run the objective function on a specific GPU, if there is one.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -51,9 +54,9 @@ class OptunaTuner:
             storage="sqlite:///fastvpinns_optuna.db",
             load_if_exists=True,
         )
-        study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
-        )
+        # without a GPU the trials run on the CPU
+        n_jobs = min(len(self.gpus), self.n_jobs) if self.gpus else self.n_jobs
+        study.optimize(self.objective_wrapper, n_trials=self.n_trials, n_jobs=n_jobs)
 
         print("Best trial:")
         trial = study.best_trial
-- 
2.43.0


From fe32fe7f804f0277b947a1e14ed8ce2e89d47847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 10/14] fix: the configuration of hard-constraint models
 contains their constraint

---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index bc1b36a..c1e8e5b 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -251,6 +251,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "hessian": self.hessian,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
+                "hard_constraint_function": self.hard_constraint_function,
             }
         )
 
-- 
2.43.0


From 8adac2c841377d5e7e6bffacea6e7a293215fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 11/14] fix: inverse models built from one dictionary do not
 share their unknowns

---
 fastvpinns/model/model_inverse.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index b06f00d..4fe5048 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -74,15 +74,14 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_points = sensor_list[0]
         self.sensor_values = sensor_list[1]
 
-        # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
-
-        # Conver all the values within inverse_params_dict to trainable variables
+        # Convert all the values within inverse_params_dict to trainable variables,
+        # in a dictionary of this model only
+        self.inverse_params_dict = {
+            key: tf.Variable(value, dtype=self.tensor_dtype, trainable=True)
+            for key, value in inverse_params_dict.items()
+        }
         for key, value in self.inverse_params_dict.items():
-            self.inverse_params_dict[key] = tf.Variable(
-                value, dtype=self.tensor_dtype, trainable=True
-            )
-            tf.print(f"Key : {key} , Value : {self.inverse_params_dict[key]}")
+            tf.print(f"Key : {key} , Value : {value}")
 
         # add the sensor points to the trainable variables of the model
         self.trainable_variables.extend(self.inverse_params_dict.values())
-- 
2.43.0


From 92ca6363784ddb2cd7e6a0206e5d86b2331cc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 12/14] fix: mesh plots count boundary points once and accept
 any number of boundary tags

---
 fastvpinns/FE/fespace2d.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..cf009a1 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -317,13 +317,15 @@ class Fespace2D(Fespace):
             x = bound_pts[:, 0]
             y = bound_pts[:, 1]
 
-            # add the first point to the end of the array
-            x = np.append(x, x[0])
-            y = np.append(y, y[0])
-
             bound_dof += x.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(
+                x,
+                y,
+                marker=marker_list[(i + 1) % len(marker_list)],
+                s=2,
+                label=f"Bd-id : {bound_id}",
+            )
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From a9de8b4e491c3e8bdd3378f74fdbe92053f5d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 13/14] fix: parameter dictionaries of the caller are not
 converted in place

---
 fastvpinns/data/datahandler2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..2f3b028 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,8 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        # a copy: the dictionary of the caller stays as it is
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -209,7 +210,8 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        # a copy: the dictionary of the caller stays as it is
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-- 
2.43.0


From 158b7821d03fb7d37db14fded5657bf3f992f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 14/14] fix: the residual picture's colour bar names its axes

A ScalarMappable that was not drawn into the figure has no axes of its own;
matplotlib refuses to guess them since 3.8, so plot_adaptive_mesh raised
ValueError and no picture was written.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 4af3325..e60dbcd 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -559,7 +559,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0

