From bca9474bd4acd8a35c463deec71002551f4f26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 01/21] fix: keep lhs boundary samples of an external mesh on
 their edge

---
 fastvpinns/Geometry/geometry_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..0f2ba7e 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -176,10 +176,10 @@ class Geometry_2D(Geometry):
                 # take the current point and next point and then perform a uniform sampling
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
-                # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # take the current point and next point and then perform a lhs sampling of the
+                # position along the edge, so that every sample lies on the edge
+                edge_parameter = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = edge_parameter * (p2[:2] - p1[:2]) + p1[:2]
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From aeb11149ffe496cb665fc0ca4f0f00d17e055fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 02/21] fix: read boundary tags from the edges whatever the
 section order of the mesh file

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 0f2ba7e..61ca824 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From c00b9ddad6b430ac39721cfb899fb3039eb4149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 03/21] fix: give the internal mesh object the connectivity of
 its cells

---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 61ca824..52b10b0 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From d84aff1c02f418080580913c4b3bee278647af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 04/21] fix: honour the staircase entry of the learning rate
 settings

---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..3cfc88e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..40bd87c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..4e08886 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From bdd813b132f8411838f30ad97796325d9cb5c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 05/21] fix: do not turn the caller's inverse parameter
 dictionary into model variables

---
 fastvpinns/model/model_inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 40bd87c..b4c2ccf 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -70,7 +70,7 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From d60a4694361046245d6303552556aa9396e19073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 06/21] fix: keep the hard constraint function in the model
 configuration

---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..ae049eb 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -250,6 +250,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "hessian": self.hessian,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
+                "hard_constraint_function": self.hard_constraint_function,
             }
         )
 
-- 
2.43.0


From 9d4ea2f0061f7f15ac44c3ed40fadda83ac2b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/21] fix: do not overwrite the parameter dictionaries
 returned by the user's functions

---
 fastvpinns/data/datahandler2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..1bd5a9f 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,7 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -209,7 +209,7 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-- 
2.43.0


From 5a1052f367e0692cdf52f485e3870a6db679ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 08/21] fix: evaluate the networks in the requested precision

---
 fastvpinns/model/model.py                | 5 +++--
 fastvpinns/model/model_hard.py           | 5 +++--
 fastvpinns/model/model_inverse.py        | 5 +++--
 fastvpinns/model/model_inverse_domain.py | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 3cfc88e..6558161 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,7 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        super(DenseModel, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -172,7 +172,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
@@ -193,6 +193,7 @@ class DenseModel(tf.keras.Model):
         :return: The output tensor of the model.
         :rtype: tf.Tensor
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index ae049eb..5559997 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,7 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        super(DenseModel_Hard, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -193,7 +193,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
@@ -213,6 +213,7 @@ class DenseModel_Hard(tf.keras.Model):
         :return: Output tensor from the model
         :rtype: tf.Tensor
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index b4c2ccf..7062769 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,7 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        super(DenseModel_Inverse, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -184,7 +184,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
@@ -203,6 +203,7 @@ class DenseModel_Inverse(tf.keras.Model):
         Returns:
             The output of the model after applying all the layers.
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 4e08886..fc70eb6 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        super(DenseModel_Inverse_Domain, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -178,7 +178,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
@@ -196,6 +196,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         :return: The output tensor of the model.
         :rtype: tf.Tensor
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
-- 
2.43.0


From 7d4a4b9dce789e244459296bb33f28b245bebb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 09/21] fix: rebuild inverse models from their configuration
 with parameters of their own

---
 fastvpinns/model/model_inverse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 7062769..71b52eb 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -70,14 +70,14 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = dict(inverse_params_dict)
+        # Convert all the values within inverse_params_dict to trainable variables of this model
+        self.inverse_params_dict = {
+            key: tf.Variable(value, dtype=self.tensor_dtype, trainable=True)
+            for key, value in inverse_params_dict.items()
+        }
 
-        # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-            self.inverse_params_dict[key] = tf.Variable(
-                value, dtype=self.tensor_dtype, trainable=True
-            )
-            tf.print(f"Key : {key} , Value : {self.inverse_params_dict[key]}")
+            tf.print(f"Key : {key} , Value : {value}")
 
         # add the sensor points to the trainable variables of the model
         self.trainable_variables.extend(self.inverse_params_dict.values())
-- 
2.43.0


From a35b0b0ef7b7279affd4796b726720310245208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 10/21] fix: create the tuning output folder safely when trials
 run in parallel

---
 fastvpinns/hyperparameter_tuning/objective.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/objective.py b/fastvpinns/hyperparameter_tuning/objective.py
index 707ddba..6934992 100644
--- a/fastvpinns/hyperparameter_tuning/objective.py
+++ b/fastvpinns/hyperparameter_tuning/objective.py
@@ -70,8 +70,7 @@ def objective(trial, num_epochs):
     # Set up your model and training process using the suggested hyperparameters
 
     output_temp_dir = "output_temp"
-    if not os.path.exists(output_temp_dir):
-        os.makedirs(output_temp_dir)
+    os.makedirs(output_temp_dir, exist_ok=True)
 
     gpus = tf.config.list_physical_devices('GPU')
     if gpus:
-- 
2.43.0


From 559e4621e369810704cd7cd56c68a9d08c656e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 11/21] fix: let the tuner run on machines without a GPU

---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..7968aec 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,9 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -51,9 +54,8 @@ class OptunaTuner:
             storage="sqlite:///fastvpinns_optuna.db",
             load_if_exists=True,
         )
-        study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
-        )
+        n_jobs = min(len(self.gpus), self.n_jobs) if self.gpus else self.n_jobs
+        study.optimize(self.objective_wrapper, n_trials=self.n_trials, n_jobs=n_jobs)
 
         print("Best trial:")
         trial = study.best_trial
-- 
2.43.0


From 79703b1040cdd7b42fdbf37071ace0a46f7f0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 12/21] fix: plot meshes with more boundary tags than markers

---
 fastvpinns/FE/fespace2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..4a379f5 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -323,7 +323,8 @@ class Fespace2D(Fespace):
 
             bound_dof += x.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            marker = marker_list[(i + 1) % len(marker_list)]
+            plt.scatter(x, y, marker=marker, s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From bd9b94821dcf600ddd7c548246da435ce34994da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 13/21] fix: give the cd2d inverse loss the argument names its
 model passes

---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From 9343462c41d1f1bd7ce8512dc67d2552c4df8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 14/21] fix: deliver the requested number of sensor points

---
 fastvpinns/FE/fespace2d.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 4a379f5..07670b7 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -666,9 +666,7 @@ class Fespace2D(Fespace):
         # sample n random points within the bounds of the domain
         # Generate points in the unit square
 
-        num_internal_points = int(num_points * 0.9)
-
-        points = lhs(2, samples=num_internal_points)
+        points = lhs(2, samples=num_points)
         points[:, 0] = x_min + (x_max - x_min) * points[:, 0]
         points[:, 1] = y_min + (y_max - y_min) * points[:, 1]
         # get the exact solution at the points
-- 
2.43.0


From 5795fc8f92a986643b096cb88c6aeb965eab4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 15/21] fix: build the domain inverse model once its layers
 exist

The model was built before its layers, so it could not be used with attention.
---
 fastvpinns/model/model_inverse_domain.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index fc70eb6..da44c2e 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -140,15 +140,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)
 
-        # build the model using the input shape of the first layer in self.layer_dims
-        input_shape = (None, self.layer_dims[0])
-        # build the model
-        self.build(input_shape=input_shape)
-        # Compile the model
-        self.compile(optimizer=self.optimizer)
-        # print model summary
-        self.summary()
-
         ## ----------------------------------------------------------------- ##
         ## --------------------- MODEL ARCHITECTURE ------------------------ ##
         ## ----------------------------------------------------------------- ##
-- 
2.43.0


From e3479ec7379507075c1fefb5d34d551c729f189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 16/21] fix: name the axes of the residual plot's colour bar

matplotlib (3.8 and later) refuses to guess them for a mappable that is in no plot.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 52b10b0..9a4f524 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -559,7 +559,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 6a47fe1d6388f0014f2b3ac94f80c308626f4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 17/21] fix: read two-dimensional mesh files whatever their
 number of boundary edges

The summary printed by Geometry_2D.read_mesh reshaped the boundary coordinates
to three columns, so a mesh file of dimension 2 was refused unless the number
of boundary edges happened to be a multiple of three.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 9a4f524..c048d34 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From a952862c7dc653078acd96596e1280a293364d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 18/21] fix: close the mesh generator also when generating or
 writing the internal mesh fails

---
 fastvpinns/Geometry/geometry_2d.py | 84 +++++++++++++++---------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index c048d34..8211956 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -356,51 +356,51 @@ class Geometry_2D(Geometry):
         """
 
         if self.mesh_generation_method == "internal":
-            # initialise the mesh
-            gmsh.initialize()
-
-            # Now, lets generate the mesh with the points.
-            x_range = self.x_limits[1] - self.x_limits[0]
-            y_range = self.y_limits[1] - self.y_limits[0]
-
-            mesh_size_x = x_range / self.n_test_points_x
-            mesh_size_y = y_range / self.n_test_points_y
-
-            # generate a gmsh with the given parameters
-            Xmin = self.x_limits[0]
-            Xmax = self.x_limits[1]
-            Ymin = self.y_limits[0]
-            Ymax = self.y_limits[1]
-
-            point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
-            point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
-            point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
-            point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
-
-            line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
-            line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
-            line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
-            line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
-
-            face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
-
-            gmsh.model.geo.add_plane_surface([face1])
-
-            # Create the relevant Gmsh data structures
-            # from Gmsh model.
-            gmsh.model.geo.synchronize()
-
-            # Generate mesh:
-            gmsh.model.mesh.generate()
-
             mesh_file_name = Path(self.output_folder) / "internal.msh"
             vtk_file_name = Path(self.output_folder) / "internal.vtk"
 
-            gmsh.write(str(mesh_file_name))
-            print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
-
-            # close the gmsh
-            gmsh.finalize()
+            # initialise the mesh
+            gmsh.initialize()
+            try:
+                # Now, lets generate the mesh with the points.
+                x_range = self.x_limits[1] - self.x_limits[0]
+                y_range = self.y_limits[1] - self.y_limits[0]
+
+                mesh_size_x = x_range / self.n_test_points_x
+                mesh_size_y = y_range / self.n_test_points_y
+
+                # generate a gmsh with the given parameters
+                Xmin = self.x_limits[0]
+                Xmax = self.x_limits[1]
+                Ymin = self.y_limits[0]
+                Ymax = self.y_limits[1]
+
+                point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
+                point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
+                point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
+                point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
+
+                line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
+                line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
+                line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
+                line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
+
+                face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
+
+                gmsh.model.geo.add_plane_surface([face1])
+
+                # Create the relevant Gmsh data structures
+                # from Gmsh model.
+                gmsh.model.geo.synchronize()
+
+                # Generate mesh:
+                gmsh.model.mesh.generate()
+
+                gmsh.write(str(mesh_file_name))
+                print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
+            finally:
+                # close the gmsh, also when the mesh could not be generated or written
+                gmsh.finalize()
 
             # read the mesh using meshio
             mesh = meshio.gmsh.read(str(mesh_file_name))
-- 
2.43.0


From 1f6694fc6a4fdd39032779ab88a82c22b95278bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 19/21] fix: count every boundary point once when plotting the
 mesh

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 07670b7..bd89ab5 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -321,7 +321,7 @@ class Fespace2D(Fespace):
             x = np.append(x, x[0])
             y = np.append(y, y[0])
 
-            bound_dof += x.shape[0]
+            bound_dof += bound_pts.shape[0]
 
             marker = marker_list[(i + 1) % len(marker_list)]
             plt.scatter(x, y, marker=marker, s=2, label=f"Bd-id : {bound_id}")
-- 
2.43.0


From ac798d548c30399f40b7d94c0b937913389bd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 20/21] fix: report the true number of boundary points and of
 points per cell when reading a mesh

---
 fastvpinns/Geometry/geometry_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 8211956..01ff9be 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -147,7 +147,7 @@ class Geometry_2D(Geometry):
             cell_points[i] = cell[np.argsort(angles)]
 
         # Extract number of points within each cell
-        print(f"[INFO] : Number of points per cell = {cell_points.shape}")
+        print(f"[INFO] : Number of points per cell = {cell_points.shape[1]}")
 
         # Collect the Boundary point id's within the domain
         boundary_edges = self.mesh.cells_dict["line"]
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1]), axis=0).shape[0]}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From efe268d0e9acd5386e8741acc2a9b7155d5a73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:54 +0000
Subject: [PATCH 21/21] fix: name the written vtk file in the message about it

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 01ff9be..a498402 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -406,7 +406,7 @@ class Geometry_2D(Geometry):
             mesh = meshio.gmsh.read(str(mesh_file_name))
             meshio.vtk.write(str(vtk_file_name), mesh, binary=False, fmt_version="4.2")
 
-            print("[INFO] : VTK file for internal mesh file generated at ", str(mesh_file_name))
+            print("[INFO] : VTK file for internal mesh file generated at ", str(vtk_file_name))
 
         elif self.mesh_generation_method == "external":
 
-- 
2.43.0

