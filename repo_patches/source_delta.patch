From fd17de6bbb614c0dcb24d7bdcdc6870d71ed9655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/66] fix: mirror symmetric components when recovering tensor
 from matricial form without Kelvin notation

---
 src/hookeai/simulators/fetorch/math/matrixops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..3b02f03 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -378,6 +378,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
         raise RuntimeError('Duplicated component in strain/stress components '
                            'order.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Check if component list only contains independent components
+    is_symmetric = len(comp_order) == sum(range(n_dim + 1))
     # Set Kelvin notation flag
     if len(comp_order) == n_dim**2:
         is_kelvin_notation = False
@@ -409,6 +411,7 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             factor = 1.0
             if is_kelvin_notation and not so_idx[0] == so_idx[1]:
                 factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -441,6 +444,7 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
                     factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
                 factor = \
                     factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+            if is_symmetric:
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From 60754de40eb59c308a20bfcff1294c9fb71b5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:42 +0000
Subject: [PATCH 02/66] fix: add initial accumulated plastic strain only once
 in Nadai-Ludwik hardening law

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From 6c331564da3792cd7457490ec69b36f351846f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 03/66] fix: convert nested dictionaries and keep other entries
 in convert_dict_to_tensor

---
 src/hookeai/utilities/type_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..c00ed7e 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +69,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep value unchanged
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 298f843e3ed856f9613c632a3ea10bfde34221b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 04/66] fix: do not modify nested dictionaries in out-of-place
 precision conversion

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index c00ed7e..bf14ad8 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -145,7 +145,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -221,7 +222,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 4a68e31a18f607a38c60e0355f682c497d93840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:29 +0000
Subject: [PATCH 05/66] fix: scale back-stress increment consistently with the
 mixed hardening yield condition

The incremental residual assumes that the relative equivalent stress drops by
the kinematic hardening stress increment. Since the flow vector has norm
sqrt(3/2), the back-stress increment along it must be scaled by 2/3; otherwise
the updated state lies strictly inside the yield surface after plastic flow.
---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..c459985 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress
+                             - kin_hard_stress_old)*flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..cde7ed0 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress
+                         - kin_hard_stress_old)*flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 5a3c8f90c780ec5ddd62d0e6c9cd3951f994d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:29 +0000
Subject: [PATCH 06/66] fix: include kinematic hardening slope in vectorized
 mixed hardening consistent tangent

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index cde7ed0..288fd35 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 2caa46578c227ffa49413f50cad5cf5f5fcb6370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 07/66] fix: use deviatoric trial strain norm in Drucker-Prager
 cone consistent tangent

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 6ac8a5aa599cf5adf124ea3fd2bc3002de6b9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:47 +0000
Subject: [PATCH 08/66] fix: pass min-max scaling parameters as keyword
 arguments in set_fitted_data_scalers

---
 .../model_architectures/procedures/model_data_scaling.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..242e654 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
-- 
2.43.0


From 194716bf04a2a9802461e3b6a60b14b3354d573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:47 +0000
Subject: [PATCH 09/66] fix: avoid division by zero in min-max normalization of
 constant features

---
 src/hookeai/utilities/data_scalers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/data_scalers.py b/src/hookeai/utilities/data_scalers.py
index df5cfba..2572405 100644
--- a/src/hookeai/utilities/data_scalers.py
+++ b/src/hookeai/utilities/data_scalers.py
@@ -243,11 +243,16 @@ class TorchMinMaxScaler:
         # Get normalization bounds
         norm_minimum = self._norm_minimum
         norm_maximum = self._norm_maximum
+        # Get features range (avoid division by zero for constant features)
+        features_range = maximum - minimum
+        features_range = torch.where(features_range == 0,
+                                     torch.ones_like(features_range),
+                                     features_range)
         # Normalization features tensor
         transformed_tensor = \
             norm_minimum*torch.ones_like(tensor, device=input_device) \
             + torch.div((norm_maximum - norm_minimum)*torch.ones_like(
-                tensor, device=input_device), maximum - minimum)*(
+                tensor, device=input_device), features_range)*(
                     tensor - minimum)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Revert concatenation of sequential data
-- 
2.43.0


From 36849dcaf6e49094dcdeec56e9d5fb9e5c7480ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:09 +0000
Subject: [PATCH 10/66] fix: initialize data scalers with init_data_scalers in
 set_fitted_data_scalers

---
 .../model_architectures/procedures/model_data_scaling.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 242e654..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
-- 
2.43.0


From 7d657d69f0715dc38f2810a368d4934a9c12bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:34 +0000
Subject: [PATCH 11/66] fix: set data scalers of recurrent neural network
 elements with set_fitted_data_scalers

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..1989171 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -26,6 +26,8 @@ from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
 from model_architectures.hybrid_base_model.model.hybrid_model import \
     HybridModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 15322c90e059c42dcbbdff64d8f43394d983c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:09 +0000
Subject: [PATCH 12/66] fix: store strain state features as row vectors in
 vectorized recurrent constitutive model

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..d5f80ac 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From c893ae7ccc6a7d1c3ce72a5b7e108479513b98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:13 +0000
Subject: [PATCH 13/66] fix: normalize features of hybridized models with model
 data scaling procedure

---
 .../hybrid_base_model/model/hybrid_model.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..6226c75 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
-- 
2.43.0


From ac4634adeed3ebbef4e8c381dd97906ed0f5ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:13 +0000
Subject: [PATCH 14/66] fix: set data scalers of hybridized models without own
 set_data_scalers method

---
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
-- 
2.43.0


From 9f5390cba7cdb722b5a8ee2fcbf970db7a91a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 15/66] fix: keep input features unchanged in
 volumetric/deviatoric composition

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..0f075b8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From d9a18db4dcb7812cfe348191a5b6485e84275785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 16/66] fix: use requested elastic symmetry in batched elastic
 models

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 0f075b8..d8d7771 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..681db1f 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From 7084adb11c1620d3cefc33b925dee2bd347cd559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 17/66] fix: change features labels of in-memory time series
 data sets

---
 src/hookeai/time_series_data/time_dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..0a9280d 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -232,8 +232,6 @@ def change_dataset_features_labels(dataset, features_label_map):
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From 6ff69a3e5203e870e286ec3788a58b06ab07bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 18/66] fix: default features weights when summing time series
 data set features

---
 src/hookeai/time_series_data/time_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 0a9280d..8e6c2c0 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -388,6 +388,9 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
             raise RuntimeError(f'The feature "{label}" cannot be summed '
                                f'because it does not exist in the data set.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Set default features weights
+    if features_weights is None:
+        features_weights = {}
     # Initialize sum weights
     sum_weights = {}
     # Set sum weights
-- 
2.43.0


From 00e92388ca649104847ae2c0dc4d89c59c8aa902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 19/66] fix: update stored data set directory without
 unsupported argument

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 8e6c2c0..40bef74 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -830,8 +830,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From c89adb2886c774406864a57c9dd29946b901234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 20/66] fix: compute volumetric stress feature as mean stress

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..7e22103 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = torch.trace(stress)/3.0
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = torch.trace(stress)/3.0
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 5e98d22a4e3022dc0c43303722bd241378c72210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 21/66] fix: enforce both strain bounds when scaling random
 strain paths

---
 .../strain_paths/random_path.py               | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..9f2d0aa 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,16 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Initialize linear scale factor
+                    scale_factor = 1.0
+                    # Compute linear scale factor to satisfy lower bound
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
+                        scale_factor = min(scale_factor,
+                                           np.abs(lbound/min_strain))
+                    # Compute linear scale factor to satisfy upper bound
                     if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                        scale_factor = min(scale_factor,
+                                           np.abs(ubound/max_strain))
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 3af42dc0590f3dbd615b6fcc27e2aaab6415ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:43 +0000
Subject: [PATCH 22/66] fix: report number of strain components in
 build_strain_tensor error

---
 src/hookeai/data_generation/strain_paths/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..77cf92d 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -137,7 +137,7 @@ class StrainPathGenerator(ABC):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check strain components completeness
         if is_symmetric and len(strain_comp_order) != 0.5*n_dim*(n_dim + 1):
-            raise RuntimeError(f'Expecting {0.5*n_dim(n_dim + 1)} independent '
+            raise RuntimeError(f'Expecting {0.5*n_dim*(n_dim + 1)} independent '
                                f'strain components under symmetry, but '
                                f'{len(strain_comp_order)} were provided.')
         elif not is_symmetric and len(strain_comp_order) != n_dim**2:
-- 
2.43.0


From f445e36f803461529e823ce0ce0982189c8a6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 23/66] fix: build denoising kernels with type and device of
 the features tensor

---
 src/hookeai/utilities/data_denoisers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..8d28460 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,9 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(
+            coeffs, dtype=tensor.dtype,
+            device=tensor.device).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 677514a4aa950889417700014549dd2614d81b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 24/66] fix: avoid undefined gradients of the relative error
 for zero targets

---
 src/hookeai/utilities/loss_functions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..92f5ce9 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,13 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
+            # Set unit denominator for target values below minimum threshold
+            # (absolute error), avoiding undefined gradients stemming from
+            # division by zero
+            denominator = torch.where(target.abs() < small,
+                                      torch.ones_like(target), target.abs())
             # Compute relative error
-            relative_error = absolute_error/target.abs()
-            # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            relative_error = absolute_error/denominator
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From b8f3eb6ffb6df99dee9d554b5527f1b7ef5b3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 25/66] fix: do not shift the zero force when normalizing the
 force equilibrium

---
 .../model/material_discovery.py               | 43 +++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..1beb8ad 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1478,14 +1478,11 @@ class MaterialModelFinder(torch.nn.Module):
         # Normalize forces
         if self._is_force_normalization:
             # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(self,
-                internal_forces_mesh, features_type='forces', mode='normalize')
+            internal_forces_mesh = self._scale_forces(internal_forces_mesh)
             # Normalize external forces
-            external_forces_mesh = data_scaler_transform(self,
-                external_forces_mesh, features_type='forces', mode='normalize')
+            external_forces_mesh = self._scale_forces(external_forces_mesh)
             # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            reaction_forces_mesh = self._scale_forces(reaction_forces_mesh)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2717,14 +2714,11 @@ class MaterialModelFinder(torch.nn.Module):
         # Normalize forces
         if self._is_force_normalization:
             # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(self,
-                internal_forces_mesh, features_type='forces', mode='normalize')
+            internal_forces_mesh = self._scale_forces(internal_forces_mesh)
             # Normalize external forces
-            external_forces_mesh = data_scaler_transform(self,
-                external_forces_mesh, features_type='forces', mode='normalize')
+            external_forces_mesh = self._scale_forces(external_forces_mesh)
             # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            reaction_forces_mesh = self._scale_forces(reaction_forces_mesh)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
@@ -3476,6 +3470,31 @@ class MaterialModelFinder(torch.nn.Module):
         # Set fitted data scalers
         self._data_scalers['forces'] = scaler_forces
     # -------------------------------------------------------------------------
+    def _scale_forces(self, forces_mesh):
+        """Scale forces without shifting the zero force.
+
+        The normalization offset does not cancel out in the force equilibrium,
+        where two forces are subtracted from the internal force.
+
+        Parameters
+        ----------
+        forces_mesh : torch.Tensor(2d)
+            Forces of finite element mesh nodes stored as torch.Tensor(2d) of
+            shape (n_node_mesh, n_dim).
+
+        Returns
+        -------
+        scaled_forces_mesh : torch.Tensor(2d)
+            Scaled forces of finite element mesh nodes stored as
+            torch.Tensor(2d) of shape (n_node_mesh, n_dim).
+        """
+        return (data_scaler_transform(self, forces_mesh,
+                                      features_type='forces',
+                                      mode='normalize')
+                - data_scaler_transform(self, torch.zeros_like(forces_mesh),
+                                        features_type='forces',
+                                        mode='normalize'))
+    # -------------------------------------------------------------------------
     def set_material_models_fitted_data_scalers(self, models_scaling_type,
                                                 models_scaling_parameters):
         """Set material constitutive models fitted data scalers.
-- 
2.43.0


From f0ed29b9a263ca0f9163c6baa3c4d1fc6bd6d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 26/66] fix: normalize forces in force equilibrium loss
 components history

---
 .../model/material_discovery.py               | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 1beb8ad..fcf0562 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2854,21 +2854,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2885,6 +2870,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = self._scale_forces(internal_forces_mesh)
+                # Normalize external forces
+                external_forces_mesh = self._scale_forces(external_forces_mesh)
+                # Normalize reaction forces
+                reaction_forces_mesh = self._scale_forces(reaction_forces_mesh)
+            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
                 # Force equilibrium strictly based on pointwise internal,
-- 
2.43.0


From 2274056bcb9ed504235c9be53bb7f3fab9248d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 27/66] fix: only take label 0 as the non-Dirichlet set in the
 force equilibrium loss

---
 .../material_model_finder/model/material_discovery.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index fcf0562..b2cc295 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2755,8 +2755,9 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get one-hot enconding for non-Dirichlet and Dirichlet constrained
             # sets
-            one_hot_ndbc = one_hot[:, 0]
-            one_hot_dbc = one_hot[:, 1:]
+            one_hot_ndbc = \
+                (dirichlet_bc_mesh_flat == 0).to(one_hot.dtype)
+            one_hot_dbc = one_hot[:, unique_labels != 0]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set mask for reaction forces (0 for non-Dirichlet degrees of
             # freedom, 1 for Dirichlet constrained degrees of freedom)
@@ -2919,8 +2920,9 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get one-hot enconding for non-Dirichlet and Dirichlet
                 # constrained sets
-                one_hot_ndbc = one_hot[:, 0]
-                one_hot_dbc = one_hot[:, 1:]
+                one_hot_ndbc = \
+                    (dirichlet_bc_mesh_flat == 0).to(one_hot.dtype)
+                one_hot_dbc = one_hot[:, unique_labels != 0]
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Set mask for reaction forces (0 for non-Dirichlet degrees of
                 # freedom, 1 for Dirichlet constrained degrees of freedom)
-- 
2.43.0


From b2e79f161a9d96f28fe46119ab2e608a004e1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 28/66] fix: normalize features of recurrent material model in
 sequential element mode

---
 .../model/material_discovery.py                    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index b2cc295..09b1bff 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,11 +1411,23 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        if self.check_model_in_normalized(constitutive_model):
+            model_features_in = data_scaler_transform(constitutive_model,
+                features_in, 'features_in', mode='normalize')
+        else:
+            model_features_in = features_in
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            features_out = data_scaler_transform(constitutive_model,
+                features_out, 'features_out', mode='denormalize')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
             # Build and store strain and stress tensors
-- 
2.43.0


From d5932eb6fab3d62bde3dd3b7735eab0352a4e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 29/66] fix: store strain instead of normalized features in
 local paths

---
 .../material_model_finder/model/material_discovery.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 09b1bff..0d9c4e3 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2512,11 +2512,13 @@ class MaterialModelFinder(torch.nn.Module):
         # Normalize input features tensor
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
+        else:
+            model_features_in = features_in
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 4f13e72bd00cdaa2b877cede61e44bdb0ee30148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 30/66] fix: recognise model state files by their exact
 documented name

Backups (model-3.pt.bak) and best states without a known epoch
(model-best.pt) raised ValueError, best states of other models sharing the
name as a prefix (model7-best.pt) were taken, and removed, as own states.
---
 .../procedures/model_state_files.py             | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..aa72fee 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -293,13 +293,14 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    match = re.fullmatch(re.escape(model.model_name) + r'-([0-9]+)\.pt',
+                         filename)
+    is_state_file = match is not None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-1])
+        epoch = int(match.group(1))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_state_file, epoch
 # =============================================================================
@@ -327,14 +328,14 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    match = re.fullmatch(re.escape(model.model_name)
+                         + r'(?:-([0-9]+))?-best\.pt', filename)
+    is_best_state_file = match is not None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and match.group(1) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(match.group(1))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
-- 
2.43.0


From d10821253e7b17b65821080524791639b9fa24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:58 +0000
Subject: [PATCH 31/66] fix: keep posterior model states when the requested
 state cannot be loaded

Posterior epoch states were deleted before checking that the requested
state exists, so a failed load lost trained states.
---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index aa72fee..084961e 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +257,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
-- 
2.43.0


From 6da6637f29bc49e9196455c09b056b7b1c1e569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:17 +0000
Subject: [PATCH 32/66] fix: recognise optimizer state files by their exact
 name

A backup of an optimizer state (model_optim-3.pt.bak) raised ValueError when
posterior states were removed, and best states of other models were removed.
---
 .../model_architectures/procedures/model_training.py  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..345142f 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.fullmatch(re.escape(model.model_name) + r'_optim'
+                                      + r'(-[0-9]+)?' + r'-best' + r'\.pt',
+                                      filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,9 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.fullmatch(re.escape(model.model_name)
+                                          + r'_optim' + r'-[0-9]+' + r'\.pt',
+                                          filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From d3e63580e514c30d5840c57c21a5427bdc8baeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:58 +0000
Subject: [PATCH 33/66] fix: early stopping of recurrent constitutive and
 hybrid models without saved epochs

Validation of an epoch whose state is not on file called save_training_state
without its required state type and raised TypeError.
---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..481b2e3 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..3d6057f 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From 3a5762982004f8d2f535966ab5adc893bf93667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:43 +0000
Subject: [PATCH 34/66] fix: seeded training and prediction

The data loader arguments were passed as one argument named kwargs, which
torch.utils.data.DataLoader rejects: any call with an integer seed raised
TypeError.
---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..1a32126 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 481b2e3..81a6144 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..4896622 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 3d6057f..780ec00 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..9a79bf3 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..47a6ccc 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From 4029ecd8da5bc368c713c29aa8a0d68562817ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:55 +0000
Subject: [PATCH 35/66] fix: training that ends in the first epoch

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 81a6144..c3f98ae 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 780ec00..8ac003d 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index 47a6ccc..50d472e 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 2e29f307578b761ec3e90246aa75682778e0be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:30 +0000
Subject: [PATCH 36/66] fix: early stopping of recurrent constitutive model
 with parameters convergence check

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 8ac003d..1a3d8fc 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From 7bcae8eb98d2972239eb270f75fb10febca15076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:30 +0000
Subject: [PATCH 37/66] fix: epoch average of model parameters without previous
 epoch

---
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index c3f98ae..f8697bf 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -436,7 +436,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 1a3d8fc..795fbb8 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -490,7 +490,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # Save model parameters (epoch average parameter value)
         for key in model_init_parameters.keys():
             model_parameters_history_epochs[key].append(np.mean(
-                model_parameters_history_steps[key][epoch_init_step:]))
+                model_parameters_history_steps[key][epoch_init_step + 1:]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save model and optimizer current states
         if save_every is not None and epoch % save_every == 0:
-- 
2.43.0


From fe1922b87547a63a2dc89ced4ea7613ac387047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:08 +0000
Subject: [PATCH 38/66] fix: k-fold cross-validation of recurrent neural
 network model

---
 .../rnn_base_model/train/cross_validation.py             | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..d86a90b 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -124,10 +124,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
         data_array[i, 0] stores the best training loss and data_array[i, 1]
         stores the average prediction loss per sample.
     """
+    start_time_sec = time.time()
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -153,10 +153,6 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_training_losses = []
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
-    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -194,6 +190,9 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
             is_early_stopping=is_early_stopping,
             early_stopping_kwargs=early_stopping_kwargs,
             device_type=device_type, seed=None, is_verbose=False)
+        # Get model input and output features normalization
+        is_model_in_normalized = model.is_model_in_normalized
+        is_model_out_normalized = model.is_model_out_normalized
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with recurrent neural network model
         _, avg_valid_loss_sample = predict(
-- 
2.43.0


From 7c0c26b8e5359da46d3f46a9ecb6a66e5b2209e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:18 +0000
Subject: [PATCH 39/66] fix: validate current model state instead of leftover
 state file

---
 .../model_architectures/hybrid_base_model/train/training.py | 6 +++---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 .../model_architectures/rnn_base_model/train/training.py    | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index f8697bf..a5aa5b1 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -960,9 +960,9 @@ class EarlyStopper:
         if not os.path.isfile(model_state_path):
             # Update temporary state files flag
             is_state_file_temp = True
-            # Save state files
-            save_training_state(model=model, optimizer=optimizer,
-                                state_type='epoch', epoch=epoch)
+        # Save state files
+        save_training_state(model=model, optimizer=optimizer,
+                            state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 795fbb8..7cc70cb 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1169,9 +1169,9 @@ class EarlyStopper:
         if not os.path.isfile(model_state_path):
             # Update temporary state files flag
             is_state_file_temp = True
-            # Save state files
-            save_training_state(model=model, optimizer=optimizer,
-                                state_type='epoch', epoch=epoch)
+        # Save state files
+        save_training_state(model=model, optimizer=optimizer,
+                            state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index 50d472e..0f32998 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -761,9 +761,9 @@ class EarlyStopper:
         if not os.path.isfile(model_state_path):
             # Update temporary state files flag
             is_state_file_temp = True
-            # Save state files
-            save_training_state(model=model, optimizer=optimizer,
-                                state_type='epoch', epoch=epoch)
+        # Save state files
+        save_training_state(model=model, optimizer=optimizer,
+                            state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
-- 
2.43.0


From c9e8308695681f22269ee837ce1171b3bb29928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:36 +0000
Subject: [PATCH 40/66] fix: save parameter synchronization and failure check
 options in recurrent constitutive model initialization file

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index d5f80ac..be13c6f 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1667,6 +1667,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
             self._material_model_parameters
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
+        model_init_args['is_auto_sync_parameters'] = \
+            self._is_auto_sync_parameters
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['state_features_out'] = self._state_features_out
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
-- 
2.43.0


From 5b10e7fd206b7f94765eb04e7231f9a45ad064b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 41/66] fix: assign imported mesh nodes coordinates according
 to node labels

---
 .../material_finder/gen_specimen_data.py          | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..59e482f 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -195,7 +195,7 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
     input_file = open(specimen_inp_path, 'r')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize nodes coordinates
-    nodes_coords = []
+    nodes_coords = {}
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Reset file position
     input_file.seek(0)
@@ -211,16 +211,21 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
             # Finished processing NODE section
             break
         elif is_keyword_found:
-            # Get node coordinates
-            nodes_coords.append(
-                [float(x) for x in line.split(sep=',')[1:1+n_dim]])
+            # Get node label and coordinates
+            nodes_coords[int(line.split(sep=',')[0])] = \
+                [float(x) for x in line.split(sep=',')[1:1+n_dim]]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Build mesh nodes initial coordinates
     if len(nodes_coords) == 0:
         raise RuntimeError('The *NODE keyword has not been found in the '
                            'specimen mesh input file (.inp).')
+    elif set(nodes_coords.keys()) != set(range(1, len(nodes_coords) + 1)):
+        raise RuntimeError(f'Invalid node labels. Node labels must be within '
+                           f'the range 1 to {len(nodes_coords)} for the '
+                           f'provided mesh.')
     else:
-        nodes_coords_mesh_init = torch.tensor(nodes_coords)
+        nodes_coords_mesh_init = torch.tensor(
+            [nodes_coords[label] for label in sorted(nodes_coords)])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get number of nodes
     n_node_mesh = nodes_coords_mesh_init.shape[0]
-- 
2.43.0


From 1166601ce29c883fa11da7a28b9bf3e292c7547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 42/66] fix: end mesh input file sections at keywords of any
 case

---
 .../material_finder/gen_specimen_data.py                 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 59e482f..c0380d5 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -206,7 +206,8 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
         if bool(re.search(r'\*node\b', line, re.IGNORECASE)):
             # Start processing NODE section
             is_keyword_found = True
-        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line))
+        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line,
+                                                  re.IGNORECASE))
                                    or line.strip() == ''):
             # Finished processing NODE section
             break
@@ -257,7 +258,8 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
                                    'file (.inp).')
             else:
                 elem_type = elem_type_abaqus_to_fetorch(elem_abaqus_type)
-        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line))
+        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line,
+                                                  re.IGNORECASE))
                                    or line.strip() == ''):
             # Finished processing ELEMENT section
             is_keyword_found = False
@@ -298,7 +300,8 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
         if bool(re.search(r'\*boundary\b', line, re.IGNORECASE)):
             # Start processing BOUNDARY section
             is_keyword_found = True
-        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line))
+        elif is_keyword_found and (bool(re.search(r'^' + r'[*][A-Z]+', line,
+                                                  re.IGNORECASE))
                                    or line.strip() == ''):
             # Finished processing BOUNDARY section
             is_keyword_found = False
-- 
2.43.0


From 70a4e0f1ead908faa9c9c6fa205e27d450b36752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 43/66] fix: skip comment lines inside mesh input file sections

---
 .../material_finder/gen_specimen_data.py                    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index c0380d5..7bdbe88 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -211,7 +211,7 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
                                    or line.strip() == ''):
             # Finished processing NODE section
             break
-        elif is_keyword_found:
+        elif is_keyword_found and not line.startswith('**'):
             # Get node label and coordinates
             nodes_coords[int(line.split(sep=',')[0])] = \
                 [float(x) for x in line.split(sep=',')[1:1+n_dim]]
@@ -263,7 +263,7 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
                                    or line.strip() == ''):
             # Finished processing ELEMENT section
             is_keyword_found = False
-        elif is_keyword_found:
+        elif is_keyword_found and not line.startswith('**'):
             # Get element label and nodes
             elem_id = int(line.split(sep=',')[0])
             elem_nodes = tuple([int(x) for x in line.split(sep=',')[1:]])
@@ -305,7 +305,7 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
                                    or line.strip() == ''):
             # Finished processing BOUNDARY section
             is_keyword_found = False
-        elif is_keyword_found:
+        elif is_keyword_found and not line.startswith('**'):
             # Get node label and constraints
             node_id = int(line.split(sep=',')[0])
             node_dofs = tuple([int(x) for x in line.split(sep=',')[1:3]])
-- 
2.43.0


From 31e2521ab47c55d9db75cc3302b0cd3b9b016855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 44/66] fix: collect only the history files of the given
 specimen

---
 .../global_model_update/material_finder/gen_specimen_data.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 7bdbe88..513244a 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -378,8 +378,8 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
-                      filename))
+            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+'
+                      + r'\.csv$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
         if is_time_step_file:
-- 
2.43.0


From 3f7ad02b6b253bbb8053c45047955cb632fb43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 45/66] fix: generate specimen data set when one of the files
 is not requested

---
 .../global_model_update/material_finder/gen_specimen_data.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 513244a..2115f93 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -134,6 +134,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize file paths
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From 12586fc64a565184a106c7fb1f97c74299b81dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 46/66] fix: raise maximum number of path trials only without
 success

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py | 4 ++--
 .../user_scripts/synthetic_data/gen_response_dataset.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..681f237 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -267,7 +267,7 @@ class NoisyMaterialResponseDatasetGenerator:
                         strain_comps_order, time_hist, strain_path,
                         constitutive_model, state_features=state_features)
                 # Check maximum number of sample trials
-                if n_path_trials > max_path_trials:
+                if is_stress_path_fail and n_path_trials >= max_path_trials:
                     raise RuntimeError(f'The maximum of number of trials '
                                        f'({max_path_trials}) to compute '
                                        f'a material response path sample was '
@@ -459,7 +459,7 @@ class NoisyMaterialResponseDatasetGenerator:
                         strain_comps_order, time_hist, strain_path,
                         constitutive_model, state_features=state_features)
                 # Check maximum number of sample trials
-                if n_path_trials > max_path_trials:
+                if is_stress_path_fail and n_path_trials >= max_path_trials:
                     raise RuntimeError(f'The maximum of number of trials '
                                        f'({max_path_trials}) to compute '
                                        f'a material response path sample was '
diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..56f2c8f 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -293,7 +293,7 @@ class MaterialResponseDatasetGenerator():
                     total_n_path_fail += 1
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Check maximum number of sample trials
-                if n_path_trials > max_path_trials:
+                if is_stress_path_fail and n_path_trials >= max_path_trials:
                     raise RuntimeError(f'The maximum of number of trials '
                                        f'({max_path_trials}) to compute '
                                        f'a material response path sample was '
-- 
2.43.0


From 472bb2134de79d2f8f1775b7c7a483626bf45cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 47/66] fix: add missing data set basename when reading
 response paths into local directory

---
 .../synthetic_data/gen_response_dataset.py             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 56f2c8f..63441eb 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -101,7 +101,8 @@ class MaterialResponseDatasetGenerator():
     gen_response_dataset_from_csv(self, response_file_paths, \
                                   is_in_memory_dataset=True, \
                                   dataset_directory, save_dir=None, \
-                                  is_save_fig=False, is_verbose=False)
+                                  is_save_fig=False, is_verbose=False, \
+                                  dataset_basename=None)
     gen_response_dataset_from_strain_dataset(self, dataset_path, model_name, \
                                              model_parameters, \
                                              state_features={}, \
@@ -577,7 +578,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
@@ -590,8 +592,6 @@ class MaterialResponseDatasetGenerator():
         dataset_directory : str, default=None
             Directory where the time series data set is stored (all data set
             samples files). Required if is_in_memory_dataset=False.
-        dataset_basename : str, default=None
-            Data set file base name. Required if is_in_memory_dataset=False.
         save_dir : str, default=None
             Directory where figure is saved. If None, then figure is saved in
             current working directory.
@@ -599,6 +599,8 @@ class MaterialResponseDatasetGenerator():
             Save figure.
         is_verbose : bool, default=False
             If True, enable verbose output.
+        dataset_basename : str, default=None
+            Data set file base name. Required if is_in_memory_dataset=False.
             
         Returns
         -------
-- 
2.43.0


From 0821b439badde4696be5af6c7c12311da689940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 48/66] fix: import of response data set module in noisy data
 set generator

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 681f237..5ae2fbc 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,7 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 0c8e3c6e4c9d1d30df0e68723bf94b19afd5244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 49/66] fix: heteroscedastic noise weights from own generator
 and normalizer of each path

---
 .../synthetic_data/gen_noisy_response_dataset.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 5ae2fbc..eb69372 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -402,16 +402,19 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order,
+                            is_symmetric=(self._strain_formulation
+                                          == 'infinitesimal'))
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        path_normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        path_normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 1ac8d409d3795c50f9bca565b34e7b5e1b741af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 50/66] fix: enforce initial strain in physical space when
 denoising noisy strain path

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index eb69372..7bdc7fd 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -454,7 +454,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From 0201dd79ada071fad50e43ee6f8b0c11db2d9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:10 +0000
Subject: [PATCH 51/66] fix: ignore unavailable state variables over all time
 steps of noisy path

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 7bdc7fd..cab25cf 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -610,7 +610,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From 0052bc89f198f99a13da8a5effb43c05bb5db03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 52/66] fix: deviatoric gradient operator of plane problems
 with the projection of its three-dimensional expansion

The deviatoric projection was built with the plane dimension (1/2) while the
volumetric one uses the three-dimensional mean (1/3), such that both parts
did not add up to the symmetric gradient operator.
---
 src/hookeai/material_model_finder/model/material_discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0d9c4e3..bba62b2 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2453,7 +2453,8 @@ class MaterialModelFinder(torch.nn.Module):
         _, comp_order_sym, _ = get_problem_type_parameters(4)
         # Get volumetric and deviatoric projection tensors
         _, dev_proj_vmf = \
-            get_projection_tensors_vmf(n_dim, comp_order_sym, device=device)
+            get_projection_tensors_vmf(n_dim=3, comp_order_sym=comp_order_sym,
+                                       device=device)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute discrete deviatoric symmetric gradient operator
         dev_grad_operator_sym = torch.matmul(dev_proj_vmf, grad_operator_sym)
-- 
2.43.0


From f35926c7c0244d06da7887b54c0054367887acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 53/66] fix: generate deformed patch without rigid body motions

The generation of a deformed patch tested the edge rotation and translation
(never None) instead of the rigid body rotation and translation, so that the
documented default (no rigid body motion) raised an exception.
---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From 85fcdd212accd7f8cd18d7598994f7b1c7ca6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 54/66] fix: keep fixed patch corners at rest on zero order
 edges

When the displacement ranges of both corners of a zero order edge intersect
in a single value (e.g., a fixed corner), this value is enforced instead of
the average of two displacements sampled from each range.
---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..f568824 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,7 +947,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From 5ddb2c7f5b5502febe5ca8b98b08d61956728d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:02 +0000
Subject: [PATCH 55/66] fix: interpolate patch faces displacements between
 opposite edges

The interpolation weights of a face node divided its position by the number
of nodes instead of the number of intervals, so that faces displacements did
not match an affine boundary displacement (nor a rigid body motion).
---
 src/hookeai/data_generation/spdg/patch_generator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index f568824..80814ec 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,19 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From 7508e3ca4c3399fb5db6d692f62f76d6fe0b0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:40 +0000
Subject: [PATCH 56/66] fix: write free degrees of freedom to Links input data
 file

---
 src/hookeai/simulators/links/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 57e6790..63c1e1a 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -622,7 +622,8 @@ class LinksSimulator:
             write_lines += \
                 [' ' + '{:>3s}'.format(str(node)) + ' ' \
                  + ''.join(['{:^1d}'.format(i) for i in code]) \
-                 + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
+                 + ' '.join(['{:16.8e}'.format(val if val is not None else 0.0)
+                             for val in disp]) + '\n']
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
         # Write Links input data file
         links_file.writelines(write_lines)
-- 
2.43.0


From 0e1aabc6679cb6732071d57d9ac13889c040e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:28 +0000
Subject: [PATCH 57/66] fix: match Links result files for any simulation name

---
 src/hookeai/simulators/links/links.py                        | 4 ++--
 .../simulators/links/utilities/links_data_to_adimu.py        | 5 +++--
 .../simulators/links/utilities/links_nodedata_to_csv.py      | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 63c1e1a..1660b4e 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -369,7 +369,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is node data file
                 is_node_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.nodedata$', filename))
                 if is_node_data_file:
                     # Get node data file time step
@@ -427,7 +427,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is global data file
                 is_global_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.globaldata$', filename))
                 if is_global_data_file:
                     # Get global data file time step
diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 355de00..75f86f0 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -423,8 +423,9 @@ def collect_node_data_files_from_links_data(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
-                                           + r'\.nodedata$', filename))
+        is_node_data_file = bool(re.search(
+            r'^' + re.escape(simulation_name) + r'(.*)' + r'\.nodedata$',
+            filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
         if is_node_data_file:
diff --git a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
index ae7e29c..f9aebd4 100644
--- a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
+++ b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
@@ -54,8 +54,9 @@ def links_node_output_to_csv(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
-                                           + r'\.nodedata$', filename))
+        is_node_data_file = bool(re.search(
+            r'^' + re.escape(simulation_name) + r'(.*)' + r'\.nodedata$',
+            filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
         if is_node_data_file:
-- 
2.43.0


From 99a1d5576667352e994361c63850b24f3b74b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:28 +0000
Subject: [PATCH 58/66] fix: write negative prescribed displacements of Links
 specimen

---
 .../simulators/links/utilities/links_specimen_dirichlet.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From ce0c2d7616732c36f0b4d9c9140cc22e4606ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 59/66] fix: check testing data set size in data set pruning
 step

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..b517709 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -710,7 +710,7 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
         step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From b32a628112b2edf34cd3a4ebd4f7f02696fea427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:53 +0000
Subject: [PATCH 60/66] fix: store pruning step testing data set in its own
 directory

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index b517709..e464fde 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From a5467197ca2a019ffa041dddcbd17b4347e605fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:35 +0000
Subject: [PATCH 61/66] fix: generate local paths data set from complete
 history data files

---
 .../synthetic_data/build_local_paths_dataset.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..cc575a1 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
-- 
2.43.0


From dd77e00e9f5eab4f620ff2b878207e67507e3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:10 +0000
Subject: [PATCH 62/66] fix: import the prediction processing of this package
 in the RC model prediction

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From 253b8c5327056ef6f4f0d3f968d05366b7ea4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:10 +0000
Subject: [PATCH 63/66] fix: prediction plots of testing data sets with fewer
 than five samples

---
 .../local_model_update/hybrid_material_model/predict.py   | 8 ++++++--
 .../local_model_update/rc_material_model/predict.py       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
index 669aa00..410b9b5 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
@@ -211,8 +211,12 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -255,7 +259,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # Set plot reference prediction data
         is_reference_data = False
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 5b83ff4..c8e2762 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -165,8 +165,12 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     if not os.path.isdir(plot_dir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Load testing data set
+    testing_dataset = load_dataset(dataset_file_path)
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    probe_response_path = testing_dataset[0]
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -210,7 +214,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
         # Build times series predictions data arrays
         prediction_data_dicts = build_time_series_predictions_data(
-- 
2.43.0


From 7b499cdc7c6b901128cfc11610b93d794fd05d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:10 +0000
Subject: [PATCH 64/66] fix: check the target directory of the dependencies
 directory

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 09772b09b67644204f89a673cdbd53838f96428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:10 +0000
Subject: [PATCH 65/66] fix: allow data sets with random strain paths only, as
 documented

---
 .../user_scripts/complete_pipelines/local_model_update.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index b0930bc..2fc07e2 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -162,7 +162,8 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
                                f'1. Please increase the total number of '
                                f'samples or the ratio of random strain path '
                                f'samples.')
-        if n_prp_sample < 1:
+        if (n_prp_sample < 1
+                and rnd_strain_path_ratio[dataset_type] < 1.0):
             raise RuntimeError(f'Number of proportional strain path samples '
                                f'for data set type "{dataset_type}" is less '
                                f'than 1. Please increase the total number of '
-- 
2.43.0


From 59a2cc0981c30e687fbd9ab60879dab214e1373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:10 +0000
Subject: [PATCH 66/66] fix: refuse to assemble unknown data set types instead
 of overwriting another

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 2fc07e2..071ae9b 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -459,6 +459,8 @@ def assemble_material_datasets(lmu_dir, strain_formulation, problem_type,
             dataset_dirname = '2_validation_dataset'
         elif dataset_type == 'testing_id':
             dataset_dirname = '5_testing_id_dataset'
+        else:
+            raise RuntimeError(f'Unknown data set type: {dataset_type}')
         # Set data set directory
         dataset_dir = set_dataset_type_dir(
             lmu_dir, dataset_type, dir_basename=dataset_dirname)
-- 
2.43.0

