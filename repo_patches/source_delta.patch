From f37a25f29204b70ba4e0ed90eb5c83709573f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 01/76] fix: MonotoneBSpline with separate='categories' and
 several latent variables

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From e8c2b438d5a5ebd584f80d9473c184dc2d46bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 02/76] fix: ModelMix with parts whose output is not one flat
 logit per category

---
 irtorch/models/model_mix.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..0a62ea1 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -43,6 +43,9 @@ class ModelMix(BaseIRTModel):
         )
         # register each model as a submodule
         self.models = nn.ModuleList(models)
+        # output shapes without the respondent dimension (not all models output a flat logit for each item category)
+        with torch.no_grad():
+            self._output_shapes = [model(torch.zeros(1, self.latent_variables)).shape[1:] for model in models]
 
     def reset_parameters(self) -> None:
         nn.init.normal_(self.weight_param, mean=1., std=0.01)
@@ -62,10 +65,27 @@ class ModelMix(BaseIRTModel):
         output : torch.Tensor
             2D tensor. Rows are respondents and columns are item category logits.
         """
-        outputs = [model(theta) for model in self.models]
+        outputs = [model(theta).flatten(start_dim=1) for model in self.models]
         concatenated_output = torch.cat(outputs, dim=1)
         return concatenated_output
 
+    def _split_output(self, output: torch.Tensor) -> list[torch.Tensor]:
+        """
+        Split the concatenated output from the forward method into the outputs of each model.
+
+        Parameters
+        ----------
+        output : torch.Tensor
+            Output tensor from the forward pass.
+
+        Returns
+        -------
+        list[torch.Tensor]
+            One output for each model, with the same shape as the output of the forward method of the model.
+        """
+        outputs = torch.split(output, [shape.numel() for shape in self._output_shapes], dim=1)
+        return [part.reshape(-1, *shape) for part, shape in zip(outputs, self._output_shapes)]
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
@@ -80,11 +100,7 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             3D tensor with dimensions (respondents, items, item categories)
         """
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         probabilities = [model.probabilities_from_output(output_part) for model, output_part in zip(self.models, outputs)]
         return self._pad_and_concat(probabilities, dim=1, pad_dim=2)
 
@@ -151,16 +167,13 @@ class ModelMix(BaseIRTModel):
             The log likelihood.
         """
         # run model.log_likelihood for each model
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         data_splits = torch.split(
             data,
             [model.items for model in self.models],
             dim=1
         )
+        data_splits = [data_split.contiguous() for data_split in data_splits]
         if missing_mask is None:
             mask_splits = [None] * len(self.models)
         else:
-- 
2.43.0


From 0462441d5b90311fbdb81c026940f22ff17771b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 03/76] fix: per-response log-likelihoods of ModelMix were
 attributed to the wrong respondents and items

---
 irtorch/estimation_algorithms/mml.py |  4 +--
 irtorch/estimation_algorithms/vae.py |  5 ++-
 irtorch/evaluator.py                 | 32 +++++++++--------
 irtorch/models/base_irt_model.py     | 32 ++++++++++++++---
 irtorch/models/model_mix.py          | 51 +++++++++++++++++++++++-----
 5 files changed, 93 insertions(+), 31 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..4ec675c 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -268,8 +268,8 @@ class MML(BaseIRTAlgorithm):
 
         self.optimizer.zero_grad()
         logits = model(latent_grid)
-        ll = model.log_likelihood(train_data.data, logits, missing_mask=train_data.mask, loss_reduction="none")
-        ll = ll.view(-1, model.items).nansum(dim=1) # sum over items
+        ll = model.response_log_likelihoods(train_data.data, logits, missing_mask=train_data.mask)
+        ll = ll.nansum(dim=1) # sum over items
         
         log_sums = (log_weights + ll).view(number_of_weights, -1)
         constant = log_sums.max(dim=0)[0] # for logexpsum trick (one constant per respondent)
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..bbf4064 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -242,18 +242,17 @@ class VAE(AE):
         else:
             self.annealing_factor = 1.0
 
-        log_p_x_theta = model.log_likelihood(
+        log_p_x_theta = model.response_log_likelihoods(
             data.repeat(self.iw_samples, 1),
             logits,
             missing_mask.repeat(self.iw_samples, 1),
-            loss_reduction="none",
         )
 
         # Reshape tensor by each iw-sample
         # we need to keep a dimension for each respondent, but we can sum over items
         log_p_x_theta = log_p_x_theta.view(
             self.iw_samples,
-            log_p_x_theta.shape[0] // (self.iw_samples * data.shape[1]),
+            data.shape[0],
             data.shape[1],
         ).nansum(2)
 
diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..f9ff65e 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -6,6 +6,7 @@ import pandas as pd
 import numpy as np
 from torch.distributions import MultivariateNormal
 from irtorch.estimation_algorithms import VAE, MML
+from irtorch.models.model_mix import ModelMix
 from irtorch.quantile_mv_normal import QuantileMVNormal
 from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
 from irtorch._internal_utils import (
@@ -520,16 +521,10 @@ class Evaluator:
             else:
                 dim = None
 
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
+        likelihoods = self._response_log_likelihoods(data, theta, missing_mask)
 
         # On unseen data, we may end up with 0 probabilities which will result in -inf likelihoods
         likelihoods[likelihoods==-torch.inf] = -30.0
-        likelihoods = likelihoods.view(theta.shape[0], -1)
         if reduction in "mean":
             return likelihoods.nanmean(dim=dim)
         if reduction == "sum":
@@ -537,6 +532,20 @@ class Evaluator:
         
         return likelihoods
 
+    def _response_log_likelihoods(self, data: torch.Tensor, theta: torch.Tensor, missing_mask: torch.Tensor) -> torch.Tensor:
+        """
+        The log-likelihood of each response. Rows are respondents and columns are items.
+        """
+        if isinstance(self.model, ModelMix):
+            return self.model.response_log_likelihoods(data, self.model(theta), missing_mask)
+        likelihoods = self.model.log_likelihood(
+            data,
+            self.model(theta),
+            missing_mask,
+            loss_reduction="none"
+        )
+        return likelihoods.view(theta.shape[0], -1)
+
     @torch.no_grad()
     def group_fit_log_likelihood(
         self,
@@ -576,13 +585,8 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        likelihoods = self._response_log_likelihoods(data, theta, missing_mask)
+        respondent_likelihoods = likelihoods.sum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..5c54463 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -263,6 +263,31 @@ class BaseIRTModel(ABC, nn.Module):
 
         return ll
 
+    def response_log_likelihoods(
+        self,
+        data: torch.Tensor,
+        output: torch.Tensor,
+        missing_mask: torch.Tensor = None,
+    ) -> torch.Tensor:
+        """
+        Compute the log likelihood of each item response given the model.
+
+        Parameters
+        ----------
+        data: torch.Tensor
+            A 2D tensor with test data. Columns are items and rows are respondents
+        output: torch.Tensor
+            Output tensor from the forward pass.
+        missing_mask: torch.Tensor, optional
+            A 2D tensor with missing data mask. (default is None)
+
+        Returns
+        -------
+        torch.Tensor
+            A 2D tensor with the log likelihoods. Columns are items and rows are respondents. Missing responses are nan.
+        """
+        return self.log_likelihood(data, output, missing_mask, loss_reduction="none").view(data.shape)
+
     def expected_scores(self, theta: torch.Tensor, return_item_scores: bool = True) -> torch.Tensor:
         r"""
         Computes the model expected item scores/test scores for each respondent (row in theta).
@@ -668,8 +693,7 @@ class BaseIRTModel(ABC, nn.Module):
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
             logits = logits.repeat(data.shape[0], 1)
-            lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
-            lls = lls.view(logits.shape[0], -1).nansum(dim=1)
+            lls = self.response_log_likelihoods(init_data, logits, missing_mask).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
             best_theta_ind = lls.argmax(dim=1)
             best_theta_ind = torch.arange(0, data.shape[0], device=device) * training_thetas.shape[0] + best_theta_ind
@@ -919,8 +943,8 @@ class BaseIRTModel(ABC, nn.Module):
         replicated_theta_grid = torch.cat([theta_grid] * data.shape[0], dim=0)
         log_prior = torch.cat([log_prior] * data.shape[0], dim=0)
         missing_mask = get_missing_mask(replicated_data)
-        grid_log_likelihoods = self.log_likelihood(replicated_data, replicated_logits, missing_mask, loss_reduction = "none")
-        grid_log_likelihoods = grid_log_likelihoods.view(-1, data.shape[1]).nansum(dim=1) # sum likelihood over items
+        grid_log_likelihoods = self.response_log_likelihoods(replicated_data, replicated_logits, missing_mask)
+        grid_log_likelihoods = grid_log_likelihoods.nansum(dim=1) # sum likelihood over items
 
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index 0a62ea1..46f7fa7 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -166,6 +166,48 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
+        log_likelihoods = self._log_likelihoods_by_model(data, output, missing_mask, loss_reduction)
+
+        if loss_reduction == "mean":
+            raise NotImplementedError("loss_reduction='mean' is not implemented for ModelMix.")
+        elif loss_reduction == "sum":
+            return torch.sum(torch.stack(log_likelihoods), dim=0)
+        elif loss_reduction == "none":
+            return torch.cat(log_likelihoods, dim=0)
+
+    def response_log_likelihoods(
+        self,
+        data: torch.Tensor,
+        output: torch.Tensor,
+        missing_mask: torch.Tensor = None,
+    ) -> torch.Tensor:
+        """
+        Compute the log likelihood of each item response given the model.
+
+        Parameters
+        ----------
+        data: torch.Tensor
+            A 2D tensor with test data. Columns are items and rows are respondents
+        output: torch.Tensor
+            Output tensor from the forward pass.
+        missing_mask: torch.Tensor, optional
+            A 2D tensor with missing data mask. (default is None)
+
+        Returns
+        -------
+        torch.Tensor
+            A 2D tensor with the log likelihoods. Columns are items and rows are respondents. Missing responses are nan.
+        """
+        log_likelihoods = self._log_likelihoods_by_model(data, output, missing_mask, "none")
+        return torch.cat([ll.view(-1, model.items) for ll, model in zip(log_likelihoods, self.models)], dim=1)
+
+    def _log_likelihoods_by_model(
+        self,
+        data: torch.Tensor,
+        output: torch.Tensor,
+        missing_mask: torch.Tensor,
+        loss_reduction: str,
+    ) -> list[torch.Tensor]:
         # run model.log_likelihood for each model
         outputs = self._split_output(output)
         data_splits = torch.split(
@@ -183,14 +225,7 @@ class ModelMix(BaseIRTModel):
                 dim=1
             )
             mask_splits = [mask.contiguous() for mask in mask_splits]
-        log_likelihoods = [
+        return [
             model.log_likelihood(data_split, output, mask_split, loss_reduction)
             for model, data_split, mask_split, output in zip(self.models, data_splits, mask_splits, outputs)
         ]
-
-        if loss_reduction == "mean":
-            raise NotImplementedError("loss_reduction='mean' is not implemented for ModelMix.")
-        elif loss_reduction == "sum":
-            return torch.sum(torch.stack(log_likelihoods), dim=0)
-        elif loss_reduction == "none":
-            return torch.cat(log_likelihoods, dim=0)
-- 
2.43.0


From 7dd02628062085b0f08c96e486f4ce5980479319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 04/76] fix: inverse_transform_theta undid several scale
 transformations in the wrong order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5c54463..84e9e57 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 4ac64d79e9e6559b513ba916b3818e2ff571d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 05/76] fix: inverse of an inverted LinkCommonItems scale

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From 6cf4d23d75413ccca737c3c02e8cb269394513c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 06/76] fix: Jacobians of the neural network link and of
 Flow/Link scales when gradients are disabled

---
 irtorch/rescale/flow.py              | 10 +++++-----
 irtorch/rescale/link_common_items.py | 13 +++++--------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7e85ef2..7247a01 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -229,9 +229,9 @@ class Flow(Scale):
         """
         self._flow_exists()
         theta_scores = theta.clone()
-        theta_scores.detach_().requires_grad_(True)
-        standardized_theta_scores = (theta_scores - self.theta_means) / self.theta_stds
-        transformed_thetas = self.flow(standardized_theta_scores)
-        transformed_thetas.sum().backward()
-        jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
+        theta_scores = theta_scores.detach().requires_grad_(True)
+        with torch.enable_grad():
+            transformed_thetas = self.transform(theta_scores)
+            gradients, = torch.autograd.grad(transformed_thetas.sum(), theta_scores)
+        jacobians = torch.diag_embed(gradients) # Since each transformation is only dependent on one theta score
         return jacobians
diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..a94c67c 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -276,14 +276,11 @@ class LinkCommonItems(Scale):
             A tensor with the Jacobian for each input row. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         theta_scores = theta.clone()
-        theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
-        transformed_thetas.sum().backward()
-        jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
+        theta_scores = theta_scores.detach().requires_grad_(True)
+        with torch.enable_grad():
+            transformed_thetas = self.transform(theta_scores)
+            gradients, = torch.autograd.grad(transformed_thetas.sum(), theta_scores)
+        jacobians = torch.diag_embed(gradients) # Since each transformation is only dependent on one theta score
         return jacobians
     
     def _split_activation(self, x: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 4adf573878e17676b5a6b736c8d5bf947c3a5ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 07/76] fix: Jacobian of a Bit scale that uses a subset of the
 items

---
 irtorch/rescale/bit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..2f71c6b 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -246,7 +246,7 @@ class Bit(Scale):
             if theta.requires_grad:
                 theta.requires_grad_(False)
 
-            probs = self.model.item_probabilities(theta)
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From 0ee13723951a2c0b61cb947040e0aa6fc69fca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 08/76] fix: log determinant of the rational quadratic spline
 outside its bounds

---
 irtorch/torch_modules/rational_quadratic_spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..883e0a9 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,9 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        sign = -1.0 if inverse else 1.0
+        logabsdet = torch.where(below, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_lower)), logabsdet)
+        logabsdet = torch.where(above, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_upper)), logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From e67d2bd2aecbccd66e94119319f8d6a8074c2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 09/76] fix: random_guessing_data without guessing
 probabilities and for two-option multiple choice items

---
 irtorch/_internal_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..0aa3e3e 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -107,8 +107,12 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
+    if guessing_probabilities is None:
+        if mc_correct is not None:
+            guessing_probabilities = [1.0 / cats for cats in item_categories]
+        else:
+            guessing_probabilities = [0.0] * num_items
     if (
-        guessing_probabilities is not None and \
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -118,16 +122,12 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
         guessing_prob = guessing_probabilities[item_idx]
 
-        if num_categories == 2:
+        if num_categories == 2 and mc_correct is None:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
         else:
             if mc_correct is not None:
@@ -139,7 +139,7 @@ def random_guessing_data(
                 incorrect_total_prob = 1.0 - guessing_prob
                 probs[probs != guessing_prob] = incorrect_total_prob / (num_categories - 1)
 
-                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze()
+                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze(1)
             else:
                 responses = torch.zeros(size, dtype=torch.long)
 
-- 
2.43.0


From 3e0a1bdd46b0650d9d3ff10664742a537397196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 10/76] fix: starting theta of a multiple choice Bit scale for
 a subset of the items

---
 irtorch/rescale/bit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 2f71c6b..bf135f4 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -347,6 +347,11 @@ class Bit(Scale):
             guessing_probabilities,
             selected_correct
         )
+        if len(items) < len(self.model.item_categories):
+            # items not used for the scores are treated as missing
+            all_items_data = torch.full((guessing_iterations, len(self.model.item_categories)), float("nan"))
+            all_items_data[:, items] = random_data
+            random_data = all_items_data
 
         logger.info("Approximating theta from random guessing data to get minimum bit score.")
         guessing_theta = self.model.latent_scores(random_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
-- 
2.43.0


From 58a088b26a830c468f4276d719677f5b08b867c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 11/76] fix: one_hot_encode_test_data changed the caller's data

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 0aa3e3e..b298d49 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -353,7 +353,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = data.masked_fill(data.isnan(), -1)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From 61d10cc083b4615dd81ae2182fee14bcea330990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 12/76] fix: joint entropies with -1 coded missing responses
 and sparse pairs of items

---
 irtorch/_internal_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index b298d49..5e579bc 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -278,8 +278,8 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
-    int_data = data.int()
+    mask = ~get_missing_mask(data)
+    int_data = data.masked_fill(~mask, 0).int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
     for i in range(int_data.shape[1]):
@@ -288,7 +288,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
-                if torch.sum(valid_mask) > 1:
+                if valid_mask.any():
                     relevant_data = int_data[valid_mask, :]
                     unique_combinations, counts = torch.unique(
                         relevant_data[:, [i, j]], dim=0, return_counts=True
@@ -296,7 +296,12 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
                     proportions[i, j, :unique_combinations.size(0)] = counts.float() / counts.sum()
                     proportions[j, i, :unique_combinations.size(0)] = proportions[i, j, :unique_combinations.size(0)]
 
-    return entropy(proportions, log_base)
+    # the joint entropy is undefined for pairs of items that no one responded to
+    no_responses = proportions.sum(dim=-1) == 0
+    proportions[no_responses, 0] = 1.0
+    entropies = entropy(proportions, log_base)
+    entropies[no_responses] = torch.nan
+    return entropies
 
 def is_jupyter():
     try:
-- 
2.43.0


From 7108cc96c962d2f7f1e54ccef3b730c26a565d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 13/76] fix: pairwise correlations with missing values could
 leave [-1, 1]

---
 irtorch/_internal_utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 5e579bc..4cd1202 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,18 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    corr_matrix = torch.ones(x.size(1), x.size(1), device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    # means, standard deviations and covariance are all from the same respondents
+                    x_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    x_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    corr_matrix[i, j] = (x_i * x_j).sum() / torch.sqrt((x_i ** 2).sum() * (x_j ** 2).sum())
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From 25b0c2db8780eb1c617c91e6853e400c15a4f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 14/76] fix: sum scores with missing responses

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 4cd1202..6e3be42 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -457,6 +457,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return data.masked_fill(get_missing_mask(data), 0).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From c12c0f916dda5922fd2986f34fada5b4589deb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 15/76] fix: EAP scores of models fitted with MML

---
 irtorch/models/base_irt_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 84e9e57..13ce861 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -908,9 +908,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
@@ -925,7 +923,7 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
+            if hasattr(self.algorithm, "covariance_matrix") and self.algorithm.covariance_matrix is not None:
                 cov_matrix = self.algorithm.covariance_matrix
             else:
                 cov_matrix = torch.eye(self.latent_variables)
-- 
2.43.0


From 46d7685129315edd93dc4a3505c2cafda58bcff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 16/76] fix: EAP scores were nan when every posterior density
 underflowed

---
 irtorch/models/base_irt_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 13ce861..b64cb75 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -948,7 +948,8 @@ class BaseIRTModel(ABC, nn.Module):
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
         # convert to float 64 to prevent 0 probabilities
-        exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
+        log_posterior = log_posterior.to(dtype=torch.float64)
+        exp_log_posterior = (log_posterior - log_posterior.max(dim=1, keepdim=True).values).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
 
         # Get expected theta
-- 
2.43.0


From 21d1cb0585069609a7f47b62b80e65ca4a47fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 17/76] fix: ML and MAP scoring made frozen model parameters
 trainable

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index b64cb75..d76dea2 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -808,6 +808,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -877,7 +878,8 @@ class BaseIRTModel(ABC, nn.Module):
             # Reset requires_grad train model later
             self.to("cpu")
             optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
+            for parameter in trainable_parameters:
+                parameter.requires_grad_(True)
         return optimized_theta_scores
 
     @torch.no_grad()
-- 
2.43.0


From dadbb43d1ed5b1ca377a3b02bff6223a2918107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 18/76] fix: expected_item_score_gradients changed
 requires_grad of the caller's theta

---
 irtorch/models/base_irt_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index d76dea2..e4abd61 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -359,8 +359,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
+        theta = theta.detach()
 
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
-- 
2.43.0


From 147c2e1774f0291274bd0da0c7995dc3d8b80c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 19/76] fix: random incorrect imputation when scoring with an
 autoencoder

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index e4abd61..5891e66 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -624,6 +624,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From 50bc687e2c0d05b50fa987491c0135bf17df5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 20/76] fix: VAE did not remember its imputation method

---
 irtorch/estimation_algorithms/vae.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index bbf4064..43dffad 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,7 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.imputation_method = imputation_method
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 23c816435d87d3bc56113c95a82b4badc8f8b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 21/76] fix: batch normalization of encoders with several
 hidden layers

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py     | 2 +-
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..015e5fc 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From b00d17f983e8e4b29fc41e1b1e3abe3e2f3091c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 22/76] fix: cross_validation on machines without CUDA

---
 irtorch/timer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..a1a2b12 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,9 +11,10 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
@@ -21,7 +22,9 @@ def end_timer_and_print(local_msg):
     End the timer and print the execution time and memory usage.
     """
     end_time = time.time()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
-    logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
+    if torch.cuda.is_available():
+        logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From 8fca2e20bd3cfe63fd15f2c0a5ab6fde9620eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 23/76] fix: cross_validation could use fewer folds than
 requested

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..c96fbb2 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -16,7 +16,7 @@ logger = logging.getLogger("irtorch")
 def _prepare_cross_validation_data(data: torch.Tensor, folds: int) -> list[torch.Tensor]:
     """Prepare data for cross-validation by shuffling and splitting into folds."""
     shuffled_data = data[torch.randperm(data.shape[0])]
-    return torch.chunk(shuffled_data, folds, dim=0)
+    return torch.tensor_split(shuffled_data, folds, dim=0)
 
 def _create_param_grid(params_grid: dict, kwargs: dict) -> list[dict]:
     """Create list of parameter combinations from grid."""
-- 
2.43.0


From 88bffc0af85bc51c8469a7cca5b286835e748280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 24/76] fix: cross_validation over parameters that are not
 numbers

---
 irtorch/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index c96fbb2..8fa53ee 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -191,10 +191,10 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
         # Average results across folds, excluding non-numeric values
         avg_result = {}
         for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
+            if k == "log_likelihood":
                 avg_result[k] = sum(d[k] for d in results) / len(results)
+            else:
+                avg_result[k] = results[0][k]  # The parameters are the same for all folds
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From ac389bbf4845414f696e331518a7c730cd78c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 25/76] fix: cross_validation evaluated folds the model had
 already been trained on

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 8fa53ee..b225ce2 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,8 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            # Each fold starts from the untrained model, which has not seen its validation data
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From 3b0ec0ae918aeca7b8ed448f3d31f53085eb030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 26/76] fix: get_item_categories ignored all responses of
 respondents with a missing response

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index b225ce2..95341f4 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -292,7 +292,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan(), col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From 22fe6eeb3418b49eb5466cf68202983c34eecb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 27/76] fix: random incorrect imputation with a multiple choice
 model

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 95341f4..20fac00 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -336,7 +336,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From d2d8fcf81e72a9d0c80bbea6cf5e0c754688df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 28/76] fix: reset_parameters of ModelMix

---
 irtorch/models/model_mix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index 46f7fa7..f900f0e 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -48,8 +48,8 @@ class ModelMix(BaseIRTModel):
             self._output_shapes = [model(torch.zeros(1, self.latent_variables)).shape[1:] for model in models]
 
     def reset_parameters(self) -> None:
-        nn.init.normal_(self.weight_param, mean=1., std=0.01)
-        nn.init.zeros_(self.bias_param)
+        for model in self.models:
+            model.reset_parameters()
     
     def forward(self, theta: torch.Tensor) -> torch.Tensor:
         """
-- 
2.43.0


From caf3e3c488b6f2b77d37612436c6cb06ed9ef725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 29/76] fix: precomputed spline basis left in the model when
 MML training is interrupted

---
 irtorch/estimation_algorithms/mml.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index 4ec675c..44459b5 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -133,15 +133,20 @@ class MML(BaseIRTAlgorithm):
         )
 
         model.to(device)
-        self._training_loop(
-            model,
-            train_data.to(device),
-            max_epochs,
-            points.to(device, dtype = torch.float32),
-            log_weights.to(device, dtype = torch.float32),
-            scheduler,
-            learning_rate_updates_before_stopping
-        )
+        try:
+            self._training_loop(
+                model,
+                train_data.to(device),
+                max_epochs,
+                points.to(device, dtype = torch.float32),
+                log_weights.to(device, dtype = torch.float32),
+                scheduler,
+                learning_rate_updates_before_stopping
+            )
+        finally:
+            # an interrupted training must not leave the basis functions of the integration points in the model
+            if hasattr(model, "basis"):
+                model.basis = None
         
         model.to("cpu")
         model.eval()
-- 
2.43.0


From 2c42366646057cab251bbb119967859029dff242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 30/76] fix: residuals overwrote missing responses in the
 caller's data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index f9ff65e..620fe91 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -173,7 +173,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = data.masked_fill(missing_mask, -1)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From 7a79351028eced7820addc3e13816a64fafb7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 31/76] fix: group_fit_log_likelihood with missing responses

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 620fe91..b54f953 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -585,8 +585,9 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self._response_log_likelihoods(data, theta, missing_mask)
-        respondent_likelihoods = likelihoods.sum(dim=1)
+        respondent_likelihoods = likelihoods.nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From 6eade5ca4b2614ddbd93aadd7ba7ae0070794029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 32/76] fix: sum_score_probabilities with encoder sampling

---
 irtorch/evaluator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index b54f953..522b5c2 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1097,14 +1097,11 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
-            weights = (
-                torch.ones(theta_scores.shape[0])
-                / theta_scores.shape[0]
-            )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
+                    model=self.model, sample_size=sample_size, input_data=population_data
                 )
+            weights = torch.ones(theta_scores.shape[0]) / theta_scores.shape[0]
         else:
             (
                 theta_scores,
-- 
2.43.0


From b869b90cf8dea2c42f5f4a5b4525907b0375a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 33/76] fix: standardized group_fit_residuals of the training
 data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 522b5c2..14b3360 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -254,7 +254,7 @@ class Evaluator:
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
             # get number of people in each group
-            data = torch.chunk(data, groups)
+            data = torch.chunk(self.model.algorithm.train_data if data is None else data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
             std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
-- 
2.43.0


From 68ca4c9ac6ad5cf924f0a0bb07de97c6217c247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 34/76] fix: sum_score_probabilities used the density of a
 previously given population

---
 irtorch/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 14b3360..d274b92 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1119,6 +1119,7 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
+        previous_latent_density = self.latent_density
         if population_data is not None or (
             (
                 latent_density_method != "qmvn"
@@ -1151,5 +1152,8 @@ class Evaluator:
 
         weights = self.latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
+        if population_data is not None:
+            # the density of this population is not the one of the model's training data
+            self.latent_density = previous_latent_density
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From fda75ec68c17bf1f06138a7ea0e977a08760dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 35/76] fix: sum_score_probabilities used the latent density of
 a previous fit

---
 irtorch/models/base_irt_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5891e66..711073f 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -114,6 +114,9 @@ class BaseIRTModel(ABC, nn.Module):
         """
         algorithm.fit(self, train_data=train_data, **kwargs)
         self.algorithm = algorithm
+        if self._evaluate is not None:
+            # an approximated latent density belongs to the previous fit
+            self._evaluate.latent_density = None
 
     def add_scale_transformation(self, scale: Scale) -> None:
         """
@@ -1025,3 +1028,5 @@ class BaseIRTModel(ABC, nn.Module):
             self.algorithm = checkpoint["algorithm"]
         if "scales" in checkpoint:
             self.scale = checkpoint["scales"]
+        if self._evaluate is not None:
+            self._evaluate.latent_density = None
-- 
2.43.0


From 4f750e77b580cc26086a651da1711515d2b96fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 36/76] fix: an interrupted write of the big five cache was
 loaded as the dataset

---
 irtorch/load_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/load_dataset.py b/irtorch/load_dataset.py
index b8a45f5..5b3e809 100644
--- a/irtorch/load_dataset.py
+++ b/irtorch/load_dataset.py
@@ -269,8 +269,10 @@ def big_five() -> torch.Tensor:
         data = data - 1 # code first option as 0, second as 1, etc.
         torch_data = torch.tensor(data.to_numpy(), dtype=torch.float32)
         # Save preprocessed data to cache
-        with open(processed_data_path, "wb") as f:
+        # (written to a temporary file first, an interrupted write must not be mistaken for the dataset later)
+        with tempfile.NamedTemporaryFile(dir=cache_dir, delete=False) as f:
             pickle.dump((torch_data, original_data), f)
+        os.replace(f.name, processed_data_path)
 
     try:
         with resources.files("irtorch").joinpath("datasets/big_five/items.txt").open("r", encoding="utf-8") as file:
-- 
2.43.0


From 0047f04f1c9d1eb6c140441d077f700d44771095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 37/76] fix: log-likelihood plot with missing responses

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..88ecab2 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -380,7 +380,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1)
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-- 
2.43.0


From 724f5295c7699be60b3216e099e5448aceec9767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 38/76] fix: information plot of some latent variables of a
 rescaled model

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 88ecab2..0c92b3e 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -730,7 +730,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From b83d755da8add683fa96166c68e025732882d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 39/76] fix: fixed latent variables of item probability plots
 of rescaled models

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 0c92b3e..7c3dc95 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -586,15 +586,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From 549a4b5f5930171361ffae5ada945db56b738573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 40/76] fix: Rotate from data of a model that already has a
 scale transformation

The loadings were evaluated at the transformed scores, although
expected_item_score_gradients takes scores on the original scale.
---
 irtorch/rescale/rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/rotate.py b/irtorch/rescale/rotate.py
index f5c2f92..ae66b87 100644
--- a/irtorch/rescale/rotate.py
+++ b/irtorch/rescale/rotate.py
@@ -51,7 +51,7 @@ class Rotate(Scale):
                 if theta is None:
                     if data is None:
                         raise ValueError("data, theta, loadings or a rotation matrix must be provided for rotation.")
-                    theta = model.latent_scores(data, rescale=True ,**kwargs)
+                    theta = model.latent_scores(data, **{**kwargs, "rescale": False})
                 loadings = model.expected_item_score_gradients(theta).mean(dim=0)
             rotator = Rotator(method = rotation_method)
             self.rot_loadings = torch.from_numpy(rotator.fit_transform(loadings.numpy())).float()
-- 
2.43.0


From 0802b5b549e942ce9c794bcd2d0527cecb2d91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 41/76] fix: latent variables rotated with promax did not have
 the rotated loadings

factor_analyzer returns the matrix that multiplies the loadings for promax, but
the one that multiplies the factors for the other oblique rotations.
---
 irtorch/rescale/rotate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/rescale/rotate.py b/irtorch/rescale/rotate.py
index ae66b87..3b34b77 100644
--- a/irtorch/rescale/rotate.py
+++ b/irtorch/rescale/rotate.py
@@ -56,6 +56,10 @@ class Rotate(Scale):
             rotator = Rotator(method = rotation_method)
             self.rot_loadings = torch.from_numpy(rotator.fit_transform(loadings.numpy())).float()
             self.rotation_matrix = torch.tensor(rotator.rotation_, dtype=torch.float)
+            if torch.allclose(loadings.float() @ self.rotation_matrix, self.rot_loadings, atol=1e-5):
+                # The matrix rotates the loadings (promax). The latent variables for which those are the
+                # loadings are rotated by its inverse transpose, which is the same for orthogonal rotations.
+                self.rotation_matrix = torch.inverse(self.rotation_matrix).T
         else:
             if rotation_matrix.shape[0] != model.latent_variables or rotation_matrix.shape[1] != model.latent_variables:
                 raise ValueError("The rotation matrix must have the same dimensions as the number of latent variables.")
-- 
2.43.0


From b7e3353a03b8f4cf8e2da85594efae8fc2ebbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 42/76] fix: log-likelihood surface plot for two latent
 variables

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 7c3dc95..8f0618c 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -424,7 +424,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From ecb03c0a7d9c0502b4357bce39cd689c15f4e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 43/76] fix: Gaussian mixtures with a component that collapsed
 on one data point could not be fitted

---
 irtorch/torch_modules/gaussian_mixture_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/irtorch/torch_modules/gaussian_mixture_model.py b/irtorch/torch_modules/gaussian_mixture_model.py
index ed9cb23..18ed9c3 100644
--- a/irtorch/torch_modules/gaussian_mixture_model.py
+++ b/irtorch/torch_modules/gaussian_mixture_model.py
@@ -99,15 +99,19 @@ class GaussianMixtureModel(torch.nn.Module):
 
     def _m_step(self, data, responsibilities) -> torch.Tensor:
         weights = torch.sum(responsibilities, dim=1) / data.size(0)
-        
+        # Avoid division by zero for components without any data points
+        component_sizes = torch.sum(responsibilities, dim=1).clamp_min(torch.finfo(data.dtype).eps)
+
         weighted_sum = torch.matmul(responsibilities, data)
-        means = weighted_sum / torch.sum(responsibilities, dim=1, keepdim=True)
-        
+        means = weighted_sum / component_sizes.unsqueeze(1)
+
+        # Small diagonal that keeps the covariances positive definite when a component collapses on a single data point
+        regularization = 1e-6 * torch.eye(self.n_features, dtype=data.dtype, device=data.device)
         covariances = torch.zeros_like(self.covariances)
         for i in range(self.n_components):
             diff = data - means[i]
             weighted_diff = diff * responsibilities[i, :, None]
-            covariances[i] = torch.matmul(weighted_diff.T, diff) / torch.sum(responsibilities[i])
+            covariances[i] = torch.matmul(weighted_diff.T, diff) / component_sizes[i] + regularization
 
         self.weights.data = weights
         self.means.data = means
-- 
2.43.0


From 59bcd8a671d4d5f97241b72c98126b757b84666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 44/76] fix: VAE with batch normalization and a very small last
 batch

---
 irtorch/estimation_algorithms/vae.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 43dffad..dbfb39f 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,7 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
         self.imputation_method = imputation_method
 
         if batch_size is None:
-- 
2.43.0


From 3535a6c49751f7cc85d33b4b2f2faf9b862238d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 45/76] fix: nan log-likelihoods were taken for missing
 responses in MML and VAE training

---
 irtorch/estimation_algorithms/mml.py | 3 ++-
 irtorch/estimation_algorithms/vae.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index 44459b5..f5d005a 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -274,7 +274,8 @@ class MML(BaseIRTAlgorithm):
         self.optimizer.zero_grad()
         logits = model(latent_grid)
         ll = model.response_log_likelihoods(train_data.data, logits, missing_mask=train_data.mask)
-        ll = ll.nansum(dim=1) # sum over items
+        # sum over items, nan is only valid for missing responses
+        ll = ll.masked_fill(train_data.mask, 0.0).sum(dim=1)
         
         log_sums = (log_weights + ll).view(number_of_weights, -1)
         constant = log_sums.max(dim=0)[0] # for logexpsum trick (one constant per respondent)
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index dbfb39f..20eb69d 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -252,11 +252,12 @@ class VAE(AE):
 
         # Reshape tensor by each iw-sample
         # we need to keep a dimension for each respondent, but we can sum over items
+        # nan is only valid for missing responses
         log_p_x_theta = log_p_x_theta.view(
             self.iw_samples,
             data.shape[0],
             data.shape[1],
-        ).nansum(2)
+        ).masked_fill(missing_mask, 0.0).sum(2)
 
         if self.iw_samples == 1:
             # ELBO (1 sample) can be computed using the true means and variances
-- 
2.43.0


From 5f7660395c1b55c201ad37bc75f95c0075dd814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 46/76] fix: random incorrect imputation for a single
 respondent

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6e3be42..cdca057 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -433,7 +433,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 20fac00..a123f5a 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -351,7 +351,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From f797547bcf0531cbe0f4a4ea8e76daa0409bf198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 47/76] fix: AMID and Q3 raised an error when they are
 undefined for every pair of items

---
 irtorch/evaluator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index d274b92..c2c3e0d 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -760,9 +760,10 @@ class Evaluator:
         amid_df.index = [f"Item {i+1}" for i in range(mid.shape[0])]
 
         df_no_diag = amid_df.where(~np.eye(amid_df.shape[0], dtype=bool))
-        max_value = df_no_diag.max().max()
-        max_location = df_no_diag.stack().idxmax()
-        logger.info("Largest AMID is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
+        if df_no_diag.notna().any(axis=None):
+            max_value = df_no_diag.max().max()
+            max_location = df_no_diag.stack().idxmax()
+            logger.info("Largest AMID is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
             sample_amids = torch.zeros(samples, *data_mutual_information.shape)
@@ -899,9 +900,10 @@ class Evaluator:
 
         # Find the maximum value and its location
         df_no_diag = corr_matrix_df.where(~np.eye(corr_matrix_df.shape[0], dtype=bool))
-        max_value = df_no_diag.max().max()
-        max_location = df_no_diag.stack().idxmax()
-        logger.info("Largest Q3 is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
+        if df_no_diag.notna().any(axis=None):
+            max_value = df_no_diag.max().max()
+            max_location = df_no_diag.stack().idxmax()
+            logger.info("Largest Q3 is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
             sample_corr_matrices = torch.zeros(samples, *corr_matrix.shape)
-- 
2.43.0


From 8a8dbd7eaf3267c5be8cacb0d46868215bf9ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 48/76] fix: item pairs without an AMID or Q3 statistic got a
 p-value of zero

---
 irtorch/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c2c3e0d..04cccc7 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -782,6 +782,7 @@ class Evaluator:
             # if it is a relatively low amount of times, the p-value is low
             p_values = counts / sample_amids.shape[0]
             p_values.fill_diagonal_(torch.nan)
+            p_values[amid.isnan()] = torch.nan
 
             p_values_df = pd.DataFrame(p_values.detach().numpy())
             p_values_df.columns = [f"Item {i+1}" for i in range(p_values.shape[0])]
@@ -925,6 +926,7 @@ class Evaluator:
             # times 2 since we are interested in both tails
             p_values = torch.min(counts1, counts2).float() * 2 / sample_corr_matrices.shape[0]
             p_values.fill_diagonal_(torch.nan)
+            p_values[corr_matrix.isnan()] = torch.nan
 
             p_values_df = pd.DataFrame(p_values.detach().numpy())
             p_values_df.columns = [f"Item {i+1}" for i in range(corr_matrix.shape[0])]
-- 
2.43.0


From 551c55c9d318344a9f451b06539e42366204f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 49/76] fix: interpolation beyond tied smallest or largest
 values was infinite or nan

---
 irtorch/latent_variable_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irtorch/latent_variable_functions.py b/irtorch/latent_variable_functions.py
index 89248f6..f02a3b4 100644
--- a/irtorch/latent_variable_functions.py
+++ b/irtorch/latent_variable_functions.py
@@ -50,8 +50,11 @@ def interp(x_new, x, y):
     # Handle extrapolation for x_new outside the range of x
     if (~mask).any():
         # Compute the slopes at the edges for extrapolation
-        left_slope = (y[1] - y[0]) / (x[1] - x[0])
-        right_slope = (y[-1] - y[-2]) / (x[-1] - x[-2])
+        # from the closest points with another x, as several points can share the smallest or largest x
+        left = (x > x[0]).int().argmax()
+        right = (x < x[-1]).sum() - 1
+        left_slope = (y[left] - y[0]) / (x[left] - x[0])
+        right_slope = (y[-1] - y[right]) / (x[-1] - x[right])
         y_new[~mask] = torch.where(
             x_new[~mask] < x[0],
             y[0] + left_slope * (x_new[~mask] - x[0]),
-- 
2.43.0


From 2a182a4b5802752dcd231ed505efd0dd9767de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 50/76] fix: form the requested number of groups in the group
 fit statistics

---
 irtorch/evaluator.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 04cccc7..e57a278 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -254,8 +254,9 @@ class Evaluator:
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
             # get number of people in each group
-            data = torch.chunk(self.model.algorithm.train_data if data is None else data, groups)
-            group_n = torch.tensor([group.shape[0] for group in data])
+            data = self.model.algorithm.train_data if data is None else data
+            groups = min(groups, data.shape[0])
+            group_n = torch.tensor([group.shape[0] for group in torch.tensor_split(data, groups)])
 
             std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
             return std_residuals, group_mid_points
@@ -640,6 +641,8 @@ class Evaluator:
             The third tensor contains the average latent variable values within each group along the specified latent_variable.
         """
         data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation)
+        # groups of (nearly) equal size. At least one respondent is needed in each of them
+        groups = min(groups, theta.shape[0])
 
         if rescale and self.model.scale:
             transformed_scores = self.model.transform_theta(theta)
@@ -651,8 +654,8 @@ class Evaluator:
             transformed_scores = transformed_scores[indices]
             theta = theta[indices]
 
-            grouped_transformed = torch.chunk(transformed_scores, groups)
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_transformed = torch.tensor_split(transformed_scores, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
 
             group_mid_points = torch.tensor(
                 [
@@ -663,13 +666,13 @@ class Evaluator:
         else:
             _, indices = torch.sort(theta[:, latent_variable - 1], dim=0)
             theta = theta[indices]
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
             group_mid_points = torch.tensor(
                 [group[:, latent_variable - 1].median() for group in grouped_theta]
             )
 
         data = data[indices]
-        grouped_data = torch.chunk(data, groups)
+        grouped_data = torch.tensor_split(data, groups)
         grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
         grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
         return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
-- 
2.43.0


From 40a5c939a860d510e805ffda8d29b142bb2d17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 51/76] fix: plot ranges on invertible scales without training
 scores

---
 irtorch/plotter.py | 47 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 8f0618c..ceba43c 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -902,41 +902,31 @@ class Plotter:
             and hasattr(self.model.algorithm, "training_theta_scores")
             and self.model.algorithm.training_theta_scores is not None
         )
-        use_transformed_train_theta = invertible and rescale and has_training_theta_scores
+        # for invertible scales, the ranges and fixed values are on the transformed scale
+        use_transformed_theta = invertible and rescale
 
         if has_training_theta_scores:
-            if use_transformed_train_theta:
-                theta_source = self.model.transform_theta(
-                    self.model.algorithm.training_theta_scores
-                )
-            else:
-                theta_source = self.model.algorithm.training_theta_scores
+            theta_source = self.model.algorithm.training_theta_scores
         else:
-            theta_source = None
+            # without training scores, plot from -3 to 3 on the original scale
+            theta_source = torch.tensor([[-3.0], [0.0], [3.0]]).repeat(1, self.model.latent_variables)
+        if use_transformed_theta:
+            theta_source = self.model.transform_theta(theta_source)
 
         if fixed_thetas is None:
-            if theta_source is not None:
-                fixed_thetas = theta_source[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(self.model.latent_variables)[mask]
+            fixed_thetas = theta_source[:, mask].median(dim=0).values
 
         if theta_range is None:
-            if theta_source is not None:
-                theta_range = (
-                    theta_source[:, latent_variables[0] - 1].min().item(),
-                    theta_source[:, latent_variables[0] - 1].max().item(),
-                )
-            else:
-                theta_range = (-3, 3)
+            theta_range = (
+                theta_source[:, latent_variables[0] - 1].min().item(),
+                theta_source[:, latent_variables[0] - 1].max().item(),
+            )
 
         if second_theta_range is None and len(latent_indices) > 1:
-            if theta_source is not None:
-                second_theta_range = (
-                    theta_source[:, latent_variables[1] - 1].min().item(),
-                    theta_source[:, latent_variables[1] - 1].max().item(),
-                )
-            else:
-                second_theta_range = (-3, 3)
+            second_theta_range = (
+                theta_source[:, latent_variables[1] - 1].min().item(),
+                theta_source[:, latent_variables[1] - 1].max().item(),
+            )
 
         latent_theta_1 = torch.linspace(theta_range[0], theta_range[1], steps=steps)
         if len(latent_indices) == 1:
@@ -954,8 +944,9 @@ class Plotter:
             theta_grid[:, latent_indices[1]] = latent_theta_2.flatten()
             theta_grid[:, mask] = fixed_thetas
 
-        if use_transformed_train_theta:
-            theta_grid = self.model.inverse_transform_theta(theta_grid)
+        if use_transformed_theta:
+            for scale in reversed(self.model.scale):
+                theta_grid = scale.inverse(theta_grid)
         return theta_grid
 
     def _2d_line_plot(
-- 
2.43.0


From 763995c599540d56261f911c16b5bc640fa9c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 52/76] fix: observed sum score of log-likelihood plots with
 missing or multiple choice responses

---
 irtorch/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index ceba43c..ed82731 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -406,17 +406,18 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_sum_score = sum_score(data.view(1, -1), self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_sum_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
-- 
2.43.0


From 58bc5a78bfebca483d2eadf130144056ac0e3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 53/76] fix: surface plots of items with many responses changed
 plotly's colors

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index ed82731..cbd4791 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -1166,7 +1166,7 @@ class Plotter:
 
         # Ensure we have enough colors for the number of responses
         if len(colors) < num_responses:
-            colors += colors * (num_responses // len(colors) + 1)
+            colors = colors * (num_responses // len(colors) + 1)
 
         fig = go.Figure()
         for response_category in range(num_responses):
-- 
2.43.0


From 9ee3aef9e9dff6ce3db5c3e3b0e7ccbd4663b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 54/76] fix: response log-likelihoods of mixes within mixes

---
 irtorch/models/model_mix.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index f900f0e..c16232b 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -166,7 +166,10 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        log_likelihoods = self._log_likelihoods_by_model(data, output, missing_mask, loss_reduction)
+        parts = self._split_by_model(data, output, missing_mask)
+        log_likelihoods = [
+            model.log_likelihood(*part, loss_reduction) for model, part in zip(self.models, parts)
+        ]
 
         if loss_reduction == "mean":
             raise NotImplementedError("loss_reduction='mean' is not implemented for ModelMix.")
@@ -198,17 +201,16 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             A 2D tensor with the log likelihoods. Columns are items and rows are respondents. Missing responses are nan.
         """
-        log_likelihoods = self._log_likelihoods_by_model(data, output, missing_mask, "none")
-        return torch.cat([ll.view(-1, model.items) for ll, model in zip(log_likelihoods, self.models)], dim=1)
+        parts = self._split_by_model(data, output, missing_mask)
+        return torch.cat([model.response_log_likelihoods(*part) for model, part in zip(self.models, parts)], dim=1)
 
-    def _log_likelihoods_by_model(
+    def _split_by_model(
         self,
         data: torch.Tensor,
         output: torch.Tensor,
         missing_mask: torch.Tensor,
-        loss_reduction: str,
-    ) -> list[torch.Tensor]:
-        # run model.log_likelihood for each model
+    ) -> list[tuple[torch.Tensor, torch.Tensor, torch.Tensor]]:
+        # data, output and missing mask of each model
         outputs = self._split_output(output)
         data_splits = torch.split(
             data,
@@ -225,7 +227,5 @@ class ModelMix(BaseIRTModel):
                 dim=1
             )
             mask_splits = [mask.contiguous() for mask in mask_splits]
-        return [
-            model.log_likelihood(data_split, output, mask_split, loss_reduction)
-            for model, data_split, mask_split, output in zip(self.models, data_splits, mask_splits, outputs)
-        ]
+        return list(zip(data_splits, outputs, mask_splits))
+
-- 
2.43.0


From 7ede82605e7d5bd840421dd9459bce661ea2eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 55/76] fix: log-likelihoods of responses stored column by
 column

---
 irtorch/models/base_irt_model.py           | 4 ++--
 irtorch/models/graded_response.py          | 4 ++--
 irtorch/models/nested_logit.py             | 4 ++--
 irtorch/models/surprisal_spline.py         | 4 ++--
 irtorch/models/three_parameter_logistic.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 711073f..1629525 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -248,11 +248,11 @@ class BaseIRTModel(ABC, nn.Module):
             The log likelihood.
         """
         data = data.long()
-        data = data.view(-1)
+        data = data.reshape(-1)
         reshaped_output = output.reshape(-1, self.max_item_responses)
         # Remove missing values from log likelihood calculation
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_output = reshaped_output[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/graded_response.py b/irtorch/models/graded_response.py
index d0f71cb..01461e3 100644
--- a/irtorch/models/graded_response.py
+++ b/irtorch/models/graded_response.py
@@ -191,11 +191,11 @@ class GradedResponse(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index 9aaa334..e13407c 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -300,11 +300,11 @@ class NestedLogit(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index dd00eb5..5fca4df 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -179,11 +179,11 @@ class SurprisalSpline(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index fdedbc4..f1a8919 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -155,11 +155,11 @@ class ThreeParameterLogistic(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, 2)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
-- 
2.43.0


From 54f4a4d47ede54828c040d47f5e4f7f539d1c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 56/76] fix: JML fits of integer and double precision responses

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..d5a4686 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -72,7 +72,7 @@ class JML(BaseIRTAlgorithm):
             batch_size = train_data.shape[0]
 
         if start_thetas is None:
-            start_thetas = sum_score(train_data, model.mc_correct)
+            start_thetas = sum_score(train_data, model.mc_correct).float()
             start_thetas = (start_thetas - start_thetas.mean()) / start_thetas.std()
             start_thetas = start_thetas.detach().unsqueeze(1).repeat(1, model.latent_variables)
             if model.latent_variables > 1:
-- 
2.43.0


From 4f667e92140a20f1441e74c7b7ec459e4e1ae857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 57/76] fix: imputation of integer and double precision
 responses

---
 irtorch/_internal_utils.py | 5 +++--
 irtorch/utils.py           | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index cdca057..4e27abc 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -406,7 +406,8 @@ def impute_missing_internal(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    # integers have no nan to mark the missing responses
+    imputed_data = data.clone() if data.is_floating_point() else data.float()
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
@@ -430,7 +431,7 @@ def impute_missing_internal(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).to(imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
diff --git a/irtorch/utils.py b/irtorch/utils.py
index a123f5a..87fc0b6 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -323,7 +323,8 @@ def impute_missing(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    # integers have no nan to mark the missing responses
+    imputed_data = data.clone() if data.is_floating_point() else data.float()
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
@@ -348,7 +349,7 @@ def impute_missing(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).to(imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
@@ -365,7 +366,7 @@ def impute_missing(
         ).round()
         mask = torch.isnan(imputed_data)
         imputed_data[mask] = prior_scores.repeat(imputed_data.shape[0], 1).to(
-            next(model.parameters()).device
+            next(model.parameters()).device, imputed_data.dtype
         )[mask]
     else:
         raise ValueError(
-- 
2.43.0


From a020e38c11a726cfe83fe340e175d68ec79d8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 58/76] fix: encoders that are not one-hot encoded with integer
 and double precision responses

---
 irtorch/irt_dataset.py           | 2 +-
 irtorch/models/base_irt_model.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/irt_dataset.py b/irtorch/irt_dataset.py
index a6c8723..6669152 100644
--- a/irtorch/irt_dataset.py
+++ b/irtorch/irt_dataset.py
@@ -43,7 +43,7 @@ class PytorchIRTDataset(torch.utils.data.Dataset):
                 raise ValueError("item_categories must be supplied for one-hot encoded data.")
             self.input_data = one_hot_encode_test_data(data, item_categories)
         else:
-            self.input_data = data
+            self.input_data = data.float()
 
     def __len__(self) -> int:
         return len(self.data)
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 1629525..46dc6ec 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -641,6 +641,7 @@ class BaseIRTModel(ABC, nn.Module):
                     encoder_data = one_hot_encode_test_data(encoder_data, self.item_categories)
                     theta = self.algorithm.theta_scores(encoder_data).clone()
                 else:
+                    encoder_data = encoder_data.float()
                     theta = self.algorithm.theta_scores(encoder_data).clone()
             else:
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
-- 
2.43.0


From 29bc60ac30274dc88eb17ed20f1ec946e0749a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 59/76] fix: JML overwrote the caller's starting thetas

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index d5a4686..1261287 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.detach().clone().to(device)
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From 9525c1f58b483d08dfe0fe7883b565e924fe734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 60/76] fix: Bit jacobian changed the caller's thetas

---
 irtorch/rescale/bit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index bf135f4..1e1a017 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,8 +243,7 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
+            theta = theta.detach()
 
             probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
-- 
2.43.0


From de017dc2aea78eb37d278222a0e0b1a82b97cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 61/76] fix: expected item score gradients added to the
 gradients of the model's parameters

---
 irtorch/models/base_irt_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 46dc6ec..a41df85 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -373,11 +373,10 @@ class BaseIRTModel(ABC, nn.Module):
 
         # item score slopes for each item
         for item in range(expected_item_sum_scores.shape[1]):
-            if theta_scores.grad is not None:
-                theta_scores.grad.zero_()
             dynamic_print(f"Computing gradients for item {item+1}...")
-            expected_item_sum_scores[:, item].sum().backward(retain_graph=True)
-            gradients[:, item, :] = theta_scores.grad[:, :]
+            gradients[:, item, :], = torch.autograd.grad(
+                expected_item_sum_scores[:, item].sum(), theta_scores, retain_graph=True
+            )
 
         if rescale and self.scale:
             gradients = self._rescale_gradients(gradients, theta)
-- 
2.43.0


From 9fa3a4c57203b50efff6c1b840893145a26f4435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 62/76] fix: Flow fits of thetas that require gradients

---
 irtorch/rescale/flow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7247a01..1b4e07e 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -118,6 +118,7 @@ class Flow(Scale):
             batch_size = theta.shape[0]
 
         # standardize the data and store the mean and std for later use
+        theta = theta.detach()
         self.theta_means = theta.mean(dim=0)
         self.theta_stds = theta.std(dim=0)
         theta = (theta - self.theta_means) / self.theta_stds
-- 
2.43.0


From 3fc39e9b60862ae7fb016d40f53454074a50a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 63/76] fix: linking scales added to the gradients of the
 linked models

---
 irtorch/rescale/link_common_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index a94c67c..e475d24 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -184,7 +184,7 @@ class LinkCommonItems(Scale):
                     logger.warning("Loss is NaN. Stopping training. Try increasing batch size or lowering the learning rate.")
                     break
 
-                loss.backward()
+                loss.backward(inputs=list(self._transformation.parameters()))
                 optimizer.step()
                 
                 total_iterations += 1
-- 
2.43.0


From 24d62a62b31acf1dbbe09d57fbab2f287b15a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 64/76] fix: an interrupted sum score computation left another
 or an unfinished latent density cached

---
 irtorch/evaluator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index e57a278..0937c84 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -102,8 +102,9 @@ class Evaluator:
             cv_n_components = [2, 3, 4, 5, 10] if cv_n_components is None else cv_n_components
             self.latent_density = self._cv_gaussian_mixture_model(theta_scores, cv_n_components)
         elif approximation == "qmvn":
-            self.latent_density = QuantileMVNormal()
-            self.latent_density.fit(theta_scores)
+            latent_density = QuantileMVNormal()
+            latent_density.fit(theta_scores)
+            self.latent_density = latent_density
         else:
             raise ValueError("Invalid approximation method. Choose either 'qmvn' or 'gmm'.")
 
@@ -1140,6 +1141,10 @@ class Evaluator:
             self.approximate_latent_density(
                 theta_scores=theta_scores, approximation=latent_density_method
             )
+        latent_density = self.latent_density
+        if population_data is not None:
+            # the density of this population is not the one of the model's training data
+            self.latent_density = previous_latent_density
 
         # get the min/max points for integration
         min_theta, max_theta = self._min_max_theta_for_integration(theta_scores)
@@ -1157,10 +1162,7 @@ class Evaluator:
             # Add an extra dimension for 1D models to make it a 2D tensor with 1 column
             theta_scores = theta_scores.unsqueeze(1)
 
-        weights = self.latent_density.pdf(theta_scores)
+        weights = latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
-        if population_data is not None:
-            # the density of this population is not the one of the model's training data
-            self.latent_density = previous_latent_density
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From 5a63913761f8247b22cad06386145f7947f9685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 65/76] fix: a failure before the first ML or MAP iteration was
 masked and left the parameters frozen

---
 irtorch/models/base_irt_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index a41df85..dab16c0 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -876,15 +876,14 @@ class BaseIRTModel(ABC, nn.Module):
 
                 loss_history.append(loss)
         except Exception as e:
-            logger.error("Error in %s iteration %s: %s", theta_estimation, i+1, e)
+            logger.error("Error in %s estimation: %s", theta_estimation, e)
             raise e
         finally:
             # Reset requires_grad train model later
             self.to("cpu")
-            optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
             for parameter in trainable_parameters:
                 parameter.requires_grad_(True)
-        return optimized_theta_scores
+        return optimized_theta_scores.detach().to("cpu")
 
     @torch.no_grad()
     def _eap_theta_scores(self, data: torch.Tensor, grid_points: int = None) -> torch.Tensor:
-- 
2.43.0


From 4b9f39a5e36f74212cc8045807a5d1fa1f34bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 66/76] fix: sum score probabilities for other data were
 refused for all but autoencoder models

---
 irtorch/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 0937c84..f742565 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1102,7 +1102,9 @@ class Evaluator:
                 mvn = MultivariateNormal(torch.zeros(self.model.latent_variables), self.model.algorithm.covariance_matrix)
                 theta_scores = mvn.sample((4000,)).to(dtype=torch.float32)
         else:
-            theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+            # only autoencoders have an encoder network
+            theta_estimation = "NN" if hasattr(self.model.algorithm, "encoder") else "ML"
+            theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
             if latent_density_method == "encoder sampling":
-- 
2.43.0


From 31aa9574be07ebba478250502149c0cba818f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 67/76] fix: latent score distributions of a latent variable
 the model does not have were not refused

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index cbd4791..6fb675b 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -145,7 +145,7 @@ class Plotter:
                 f"Cannot plot {len(latent_variables)} dimensions. "
                 f"Fitted model is a {self.model.latent_variables} dimensional model."
             )
-        if len(latent_variables) > self.model.latent_variables:
+        if max(latent_variables) > self.model.latent_variables:
             raise ValueError(
                 f"Cannot plot latent variable {latent_variables}. "
                 f"Fitted model is a {self.model.latent_variables} dimensional model."
-- 
2.43.0


From d8070de1cbd565976d0bc0d5a88cf5f9f1ca35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 68/76] fix: JML turned every parameter into nan when all
 respondents had the same sum score

---
 irtorch/estimation_algorithms/jml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index 1261287..bd4eda7 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -73,7 +73,9 @@ class JML(BaseIRTAlgorithm):
 
         if start_thetas is None:
             start_thetas = sum_score(train_data, model.mc_correct).float()
-            start_thetas = (start_thetas - start_thetas.mean()) / start_thetas.std()
+            start_thetas = start_thetas - start_thetas.mean()
+            if start_thetas.any():  # equal sum scores have no spread to divide by
+                start_thetas = start_thetas / start_thetas.std()
             start_thetas = start_thetas.detach().unsqueeze(1).repeat(1, model.latent_variables)
             if model.latent_variables > 1:
                 # add small noise to avoid all latent variables updating the same way
-- 
2.43.0


From 6abfe005b5ab600c4dd627b96ee9aab925a7029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 69/76] fix: monotone polynomials with negative relationships
 failed without a relationship matrix

---
 irtorch/torch_modules/monotone_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/monotone_polynomial.py b/irtorch/torch_modules/monotone_polynomial.py
index 34d05e0..13e3e98 100644
--- a/irtorch/torch_modules/monotone_polynomial.py
+++ b/irtorch/torch_modules/monotone_polynomial.py
@@ -62,7 +62,10 @@ class MonotonePolynomialModule(nn.Module):
                 mean=0.,
                 std=0.01
             )
-            directions_mask = relationship_matrix.reshape(in_features, int(out_features / shared_directions), shared_directions)[:, :, 0].float()
+            if relationship_matrix is None:
+                directions_mask = torch.ones(in_features, int(out_features / shared_directions))
+            else:
+                directions_mask = relationship_matrix.reshape(in_features, int(out_features / shared_directions), shared_directions)[:, :, 0].float()
             self.register_buffer('directions_mask', directions_mask)
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From d0c7c99b7ea8254d482be8f83f6fa0104d6d4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 70/76] fix: SoftplusLinear failed for the boolean zero_outputs
 it documents

---
 irtorch/torch_modules/softplus_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/softplus_linear.py b/irtorch/torch_modules/softplus_linear.py
index 055762a..f1c400c 100644
--- a/irtorch/torch_modules/softplus_linear.py
+++ b/irtorch/torch_modules/softplus_linear.py
@@ -69,7 +69,7 @@ class SoftplusLinear(nn.Module):
 
         free_weight[zero_outputs.bool()] = False
         free_weight[:, zero_inputs.bool()] = False
-        self.register_buffer("free_bias", (1 - zero_outputs).bool())
+        self.register_buffer("free_bias", ~zero_outputs.bool())
         self.register_buffer("free_weight", free_weight)
 
         # These are learnable parameters representing the raw weights of the layer.
-- 
2.43.0


From 05ef939c8bd72c079c0b94b9d8f2b5c9150c359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 71/76] fix: MAP scores use a standard normal prior when the
 algorithm has no information about the prior, instead of failing with a
 NameError

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index dab16c0..120da7a 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -822,8 +822,10 @@ class BaseIRTModel(ABC, nn.Module):
                     cov_matrix = mean_centered_theta_scores.T @ mean_centered_theta_scores / (train_theta_scores.shape[0] - 1)
                     # Create prior (multivariate normal distribution).
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
-                elif hasattr(self.algorithm, "covariance_matrix"):
+                elif hasattr(self.algorithm, "covariance_matrix") and self.algorithm.covariance_matrix is not None:
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else: # The same prior as for EAP estimation when the algorithm has no information about it
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), torch.eye(self.latent_variables).to(device))
 
             # Ensure model parameters gradients are not updated
             self.requires_grad_(False)
-- 
2.43.0


From 09256a0776f2819abb5d678fc87d7b749557ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 72/76] fix: scales can be linked when the models differ in
 their maximum number of item categories

---
 irtorch/rescale/link_common_items.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index e475d24..7947ccd 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -305,10 +305,12 @@ class LinkCommonItems(Scale):
     
     def _loss_function(self, latent_variables, linked_latent_variables) -> torch.Tensor:
         kl_loss = nn.KLDivLoss(reduction="batchmean")
-        target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices]
-        linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices]
-        target_probs = target_probs.view(-1, target_probs.shape[2])
-        linked_probs = linked_probs.view(-1, linked_probs.shape[2])
+        # The models may have different maximum numbers of item categories
+        categories = max(self._common_item_categories)
+        target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices, :categories]
+        linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices, :categories]
+        target_probs = target_probs.reshape(-1, target_probs.shape[2])
+        linked_probs = linked_probs.reshape(-1, linked_probs.shape[2])
         # linked_probs need log scale for KL div
         # Adding a tiny constant to avoid issues with log(0).
         loss = kl_loss(torch.log(linked_probs + 1e-10), target_probs)
-- 
2.43.0


From b5d56a52633a168e87080a61664a0e0475bc8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 73/76] fix: plot the latent score distribution of a single
 respondent

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 6fb675b..e3b0904 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -1240,7 +1240,7 @@ class Plotter:
         if latent_variables == 1:
             if x_label is None:
                 x_label = "Latent variable"
-            return self._single_latent_variable_distribution_plot(latent_scores.squeeze(), title, x_label, color)
+            return self._single_latent_variable_distribution_plot(latent_scores.squeeze(axis=1), title, x_label, color)
         else:
             if x_label is None:
                 x_label = "Latent variable 1"
-- 
2.43.0


From 89fdc5a22973a12f47ea6cfc9690dc89792b404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 74/76] fix: parallel cross_validation no longer changes how
 the whole process starts processes

---
 irtorch/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 87fc0b6..ae2e2b2 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -126,7 +126,8 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
     
     try:
         logger.info(f"Attempting to initialize multiprocessing with {cores_to_use} cores")
-        mp.set_start_method('spawn', force=True)
+        # a context of its own, to not change how the rest of the program starts processes
+        context = mp.get_context('spawn')
         
         jobs = []
         for params in param_dicts:
@@ -137,7 +138,7 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
             threads_per_worker = max(1, original_threads // cores_to_use)
             torch.set_num_threads(threads_per_worker)
             
-            with mp.Pool(cores_to_use) as pool:
+            with context.Pool(cores_to_use) as pool:
                 results = pool.starmap(_cv_param_combination, jobs)
             
             logger.info("Multiprocessing completed successfully")
-- 
2.43.0


From 304152569a38ae86b254693bca64886c176fd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 75/76] fix: responses whose probability underflows to 0 no
 longer give infinite losses and NaN gradients

---
 irtorch/models/graded_response.py          | 4 +++-
 irtorch/models/nested_logit.py             | 4 +++-
 irtorch/models/surprisal_spline.py         | 4 +++-
 irtorch/models/three_parameter_logistic.py | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/graded_response.py b/irtorch/models/graded_response.py
index 01461e3..883835c 100644
--- a/irtorch/models/graded_response.py
+++ b/irtorch/models/graded_response.py
@@ -200,7 +200,9 @@ class GradedResponse(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        # probabilities can underflow to 0 for which the log has no finite value or gradient
+        smallest = torch.finfo(reshaped_probabilities.dtype).tiny
+        ll = reshaped_probabilities[torch.arange(data.size(0)), data].clamp_min(smallest).log()
         if loss_reduction == "sum":
             return ll.sum()
         elif loss_reduction == "none":
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index e13407c..b365c4e 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -309,7 +309,9 @@ class NestedLogit(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        # probabilities can underflow to 0 for which the log has no finite value or gradient
+        smallest = torch.finfo(reshaped_probabilities.dtype).tiny
+        ll = reshaped_probabilities[torch.arange(data.size(0)), data].clamp_min(smallest).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index 5fca4df..5914c28 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -188,7 +188,9 @@ class SurprisalSpline(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        # probabilities can underflow to 0 for which the log has no finite value or gradient
+        smallest = torch.finfo(reshaped_probabilities.dtype).tiny
+        ll = reshaped_probabilities[torch.arange(data.size(0)), data].clamp_min(smallest).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index f1a8919..9a97d36 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -164,7 +164,9 @@ class ThreeParameterLogistic(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        # probabilities can underflow to 0 for which the log has no finite value or gradient
+        smallest = torch.finfo(reshaped_probabilities.dtype).tiny
+        ll = reshaped_probabilities[torch.arange(data.size(0)), data].clamp_min(smallest).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
-- 
2.43.0


From ddf50551c8bb772434b20422b821fe9b71034de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 76/76] fix: the gradient of the surprisal spline stays finite
 where a probability underflows to 0

---
 irtorch/models/surprisal_spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index 5914c28..8f62821 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -131,8 +131,8 @@ class SurprisalSpline(BaseIRTModel):
         surprisal = surp.sum(dim=0) # (batch, items, max(item_categories)-1)
 
         ones = torch.ones(*surprisal.shape[:-1], 1, device=theta.device)
-        a = torch.cat((ones, 1/surprisal.cumsum(dim=-1).exp()), dim=-1)
-        b = torch.cat((1-1/surprisal.exp(), ones), dim=-1)
+        a = torch.cat((ones, (-surprisal.cumsum(dim=-1)).exp()), dim=-1)
+        b = torch.cat((1-(-surprisal).exp(), ones), dim=-1)
         probabilities = a*b
         return torch.flip(probabilities, dims=[-1])
 
-- 
2.43.0

