From dcc4df909438ef820ba029aed6e31b0db8679403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 01/48] fix: undo chained scale transformations in reverse
 order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..ee71892 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From ab25b0a76c8a5dcb9faf16671bdf05f4c204cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 02/48] fix: one-hot encoding does not overwrite missing
 responses in the caller's data

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..ee20963 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -353,7 +353,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), -1, data)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From 9484ff1afccc3e623208c38980602db64755cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 03/48] fix: residuals do not overwrite missing responses in
 the caller's data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..719b845 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = torch.where(torch.isnan(data), -1, data)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From 342d78b10b4e614f117aee96223a776486bbcf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 04/48] fix: gradients no longer switch off requires_grad of
 the caller's latent scores; Bit jacobian uses matching items

---
 irtorch/models/base_irt_model.py | 5 +----
 irtorch/rescale/bit.py           | 6 ++----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ee71892..2a0a8ea 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -334,11 +334,8 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
-
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
-        theta_scores = theta.clone()
+        theta_scores = theta.detach().clone()
         theta_scores.requires_grad_(True)
         expected_item_sum_scores = self.expected_scores(theta_scores, return_item_scores=True)
         if not self.mc_correct and rescale_by_item_score:
diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..779be66 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,10 +243,8 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
-
-            probs = self.model.item_probabilities(theta)
+            theta = theta.detach()
+            probs = self.model.item_probabilities(theta)[:, self.items, :]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From 0be2e0106aca57f4cf87fe319f73b2d57eca49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 05/48] fix: 3D probability plots do not extend plotly's shared
 palette

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..bc8f4ef 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -1182,7 +1182,7 @@ class Plotter:
 
         # Ensure we have enough colors for the number of responses
         if len(colors) < num_responses:
-            colors += colors * (num_responses // len(colors) + 1)
+            colors = colors * (num_responses // len(colors) + 1)
 
         fig = go.Figure()
         for response_category in range(num_responses):
-- 
2.43.0


From 4d0cd6b75720233a66f6249d0e2de2a9061f52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 06/48] fix: information plots show the requested latent
 variables of rescaled scores

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index bc8f4ef..337e38d 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -730,7 +730,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From c799e75f5c018f14f64a5cb84f7c53c25f0cc11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 07/48] fix: log-likelihood plots handle missing responses and
 two latent variables

---
 irtorch/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 337e38d..97a2c5f 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -380,7 +380,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1)
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
@@ -424,7 +424,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From b677cd8af2ff4dfd48ccafc8b32ee5a855667c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 08/48] fix: item probability plots fix the other latent
 variables on the plotted scale

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 97a2c5f..f30514a 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -586,15 +586,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From d39a5ab77fdfd9672c62a4f9c844ee6539ae3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 09/48] fix: sum scores (and JML starting values) leave missing
 responses out

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ee20963..a176942 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -464,6 +464,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return torch.where(get_missing_mask(data), 0, data).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From 019949a6b9f622303805c69e69249e42fad7e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 10/48] fix: log-likelihood plots show the observed sum score
 without missing responses

---
 irtorch/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index f30514a..994d97b 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -406,17 +406,18 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_sum_score = sum_score(data.reshape(1, -1), self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_sum_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
-- 
2.43.0


From c564f95b9bce560ce65655b107545640f181408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/48] fix: VAE remembers the fitting configuration used when
 scoring

---
 irtorch/estimation_algorithms/vae.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..9aa1008 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,10 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
+        self.imputation_method = imputation_method
+        self.item_categories = model.item_categories
+        self.mc_correct = model.mc_correct
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From d576fbb7f131f2580341a799fd426fa07fb1fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 12/48] fix: imputation at scoring gets the correct answers and
 item categories

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 2a0a8ea..b0efa6c 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -597,6 +597,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From 5fbe5d8ee9653de04cf2b35875d1bdf3f00c5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 13/48] fix: every hidden encoder layer keeps its own batch
 normalisation

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py     | 2 +-
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..a50fee2 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm0{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..5762bfc 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm0{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From f7faebecb1bfe5017a9299995400327bb9e3667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 14/48] fix: EAP scores are available after marginal maximum
 likelihood

---
 irtorch/models/base_irt_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index b0efa6c..aacf3e9 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -883,9 +883,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if getattr(self.algorithm, "training_theta_scores", None) is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
@@ -900,7 +898,7 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
+            if getattr(self.algorithm, "covariance_matrix", None) is not None:
                 cov_matrix = self.algorithm.covariance_matrix
             else:
                 cov_matrix = torch.eye(self.latent_variables)
-- 
2.43.0


From a3186c6f6c9f420ba3c6e8ddf3c49dd8d61cafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 15/48] fix: MAP scores fall back to a standard normal prior

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index aacf3e9..4a3235a 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -792,8 +792,10 @@ class BaseIRTModel(ABC, nn.Module):
                     cov_matrix = mean_centered_theta_scores.T @ mean_centered_theta_scores / (train_theta_scores.shape[0] - 1)
                     # Create prior (multivariate normal distribution).
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
-                elif hasattr(self.algorithm, "covariance_matrix"):
+                elif getattr(self.algorithm, "covariance_matrix", None) is not None:
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else:
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), torch.eye(self.latent_variables).to(device))
 
             # Ensure model parameters gradients are not updated
             self.requires_grad_(False)
-- 
2.43.0


From e15d4a474ade9e16569a33a1cd4ac9640a87f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 16/48] fix: scoring reports its own errors and restores each
 parameter's gradient flag

---
 irtorch/models/base_irt_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 4a3235a..10a6950 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -783,6 +783,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        requires_grad_flags = [parameter.requires_grad for parameter in self.parameters()]
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -848,14 +849,14 @@ class BaseIRTModel(ABC, nn.Module):
 
                 loss_history.append(loss)
         except Exception as e:
-            logger.error("Error in %s iteration %s: %s", theta_estimation, i+1, e)
+            logger.error("Error in %s estimation: %s", theta_estimation, e)
             raise e
         finally:
             # Reset requires_grad train model later
             self.to("cpu")
-            optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
-        return optimized_theta_scores
+            for parameter, requires_grad in zip(self.parameters(), requires_grad_flags):
+                parameter.requires_grad_(requires_grad)
+        return optimized_theta_scores.detach().to("cpu")
 
     @torch.no_grad()
     def _eap_theta_scores(self, data: torch.Tensor, grid_points: int = None) -> torch.Tensor:
-- 
2.43.0


From 172be4557f46b9fa9ca044edeeedd58c85df6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 17/48] fix: random incorrect imputation accepts multiple
 choice models and rejects others

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..24e0a35 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -335,7 +335,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From 8fd9c2d16fa6d083477b61f8157f9e042c1ff007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 18/48] fix: every cross-validation fold trains a fresh copy of
 the model

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 24e0a35..32490f9 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,7 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From 720dc66513a434b2ce941f3d9e0ecd9f100e73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 19/48] fix: cross-validation timing works without CUDA

---
 irtorch/timer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..c5a519e 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,17 +11,20 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
     """
     End the timer and print the execution time and memory usage.
     """
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     end_time = time.time()
-    torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
-    logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
+    if torch.cuda.is_available():
+        logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From c6f8fee1eb10fbd4521d171bcb4ad605f106f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 20/48] fix: cross-validation handles non-numeric parameters

---
 irtorch/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 32490f9..efdce0d 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -191,10 +191,10 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
         # Average results across folds, excluding non-numeric values
         avg_result = {}
         for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
+            if k == "log_likelihood":
                 avg_result[k] = sum(d[k] for d in results) / len(results)
+            else:
+                avg_result[k] = results[0][k]  # The same for all folds
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From b7c79c37dad29f036841c660fad46be876673fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 21/48] fix: item categories are counted from every observed
 response

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index efdce0d..92d0c86 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -291,7 +291,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan(), col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From 8306468398aaa7553389711080ba0c7241bfe1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 22/48] fix: group log-likelihoods keep the missing mask
 aligned and skip missing responses

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 719b845..dfc7bc9 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -576,13 +576,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From 89c7d84587f0ac0f9d421fb12f4478425d3595fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 23/48] fix: group residuals work on training data, accept
 scoring options and count observed responses

---
 irtorch/evaluator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index dfc7bc9..a606eaa 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -239,6 +239,7 @@ class Evaluator:
         tuple[torch.Tensor, torch.Tensor]
             A tuple with torch tensors. The first one holds the residuals for each group and has dimensions (groups, items, item categories). The second one is a 1D tensor and holds the mid points of the groups.
         """
+        data, theta, missing_mask = self._evaluate_data_theta_input(data, theta, theta_estimation=theta_estimation, **kwargs)
         grouped_data_probabilties, grouped_model_probabilties, group_mid_points = \
             self.latent_group_probabilities(
                 data=data,
@@ -246,17 +247,16 @@ class Evaluator:
                 rescale=rescale,
                 latent_variable=latent_variable,
                 groups=groups,
-                theta_estimation=theta_estimation,
-                **kwargs
             )
 
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
-            # get number of people in each group
-            data = torch.chunk(data, groups)
-            group_n = torch.tensor([group.shape[0] for group in data])
+            # get number of observed responses to each item in each group
+            group_scores = self.model.transform_theta(theta) if rescale and self.model.scale else theta
+            indices = torch.sort(group_scores[:, latent_variable - 1], dim=0)[1]
+            group_n = torch.stack([(~group).sum(dim=0) for group in torch.chunk(missing_mask[indices], groups)])
 
-            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
+            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.unsqueeze(-1)).sqrt()
             return std_residuals, group_mid_points
         
         for item, categories in enumerate(self.model.item_categories):
@@ -604,6 +604,7 @@ class Evaluator:
         groups: int = 10,
         theta_estimation: str = "ML",
         rescale: bool = True,
+        **kwargs
     ) -> tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         """
         Group the respondents based on their ordered latent variable scores.
@@ -635,7 +636,7 @@ class Evaluator:
 
             The third tensor contains the average latent variable values within each group along the specified latent_variable.
         """
-        data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation)
+        data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation, **kwargs)
 
         if rescale and self.model.scale:
             transformed_scores = self.model.transform_theta(theta)
-- 
2.43.0


From 8a3ff809b9df1532061ec0456fb55b46987710b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 24/48] fix: encoder sampling passes the model and weights
 every sample

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index a606eaa..6a5b270 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1094,14 +1094,14 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
+            if latent_density_method == "encoder sampling":
+                theta_scores = self.model.algorithm.sample_latent_variables(
+                    self.model, sample_size=sample_size, input_data=population_data
+                )
             weights = (
                 torch.ones(theta_scores.shape[0])
                 / theta_scores.shape[0]
             )
-            if latent_density_method == "encoder sampling":
-                theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
-                )
         else:
             (
                 theta_scores,
-- 
2.43.0


From 318ffa9d3829047ae1fed5f0bd8c7c45904ecf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 25/48] fix: population latent scores are available for every
 algorithm

---
 irtorch/evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 6a5b270..b03b5a1 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1090,8 +1090,11 @@ class Evaluator:
                 logger.info("Sampling from multivariate normal as population theta scores.")
                 mvn = MultivariateNormal(torch.zeros(self.model.latent_variables), self.model.algorithm.covariance_matrix)
                 theta_scores = mvn.sample((4000,)).to(dtype=torch.float32)
+            else:
+                raise ValueError("Please fit the model before computing population latent scores.")
         else:
-            theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+            theta_estimation = "NN" if hasattr(self.model.algorithm, "encoder") else "ML"
+            theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
             if latent_density_method == "encoder sampling":
-- 
2.43.0


From 5035d00ea3ab7239e9f87bb4270fd18714178a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 26/48] fix: joint entropies leave out missing responses coded
 -1

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index a176942..e1a7972 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -278,7 +278,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
+    mask = ~get_missing_mask(data)
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
-- 
2.43.0


From 7c34500243cd7348d98c04a9d7b3dcb1f6561b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:35 +0000
Subject: [PATCH 27/48] fix: a latent density approximated for other scores is
 not reused

---
 irtorch/evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index b03b5a1..5fec9c6 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -37,6 +37,7 @@ class Evaluator:
     def __init__(self, model: BaseIRTModel):
         self.model = model
         self.latent_density = None
+        self._latent_density_theta = None
 
     def _evaluate_data_theta_input(
             self,
@@ -105,6 +106,8 @@ class Evaluator:
             self.latent_density.fit(theta_scores)
         else:
             raise ValueError("Invalid approximation method. Choose either 'qmvn' or 'gmm'.")
+        # remember which scores the density belongs to
+        self._latent_density_theta = theta_scores
 
     def _cv_gaussian_mixture_model(self, data: torch.Tensor, cv_n_components: list[int]) -> GaussianMixtureModel:
         if len(cv_n_components) > 1:
@@ -1122,7 +1125,7 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
-        if population_data is not None or (
+        if population_data is not None or self._latent_density_theta is not theta_scores or (
             (
                 latent_density_method != "qmvn"
                 or not isinstance(self.latent_density, QuantileMVNormal)
-- 
2.43.0


From 2dbd356ee506327e8fb9c9751482d5023ba865d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 28/48] fix: the inverse of an inverted link undoes the sign
 before the spline

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From 1b8e86c1aa20d8b82898746097e56bc5e823d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 29/48] fix: the link jacobian differentiates the link
 transformation

---
 irtorch/rescale/link_common_items.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..157cb29 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -277,11 +277,7 @@ class LinkCommonItems(Scale):
         """
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
+        transformed_thetas = self.transform(theta_scores)
         transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
-- 
2.43.0


From ad2b4b0da604ff0a3930fb3e5c6289e2ca46f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 30/48] fix: the precomputed spline basis is removed when
 training fails

---
 irtorch/estimation_algorithms/mml.py | 73 ++++++++++++++--------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..eda3634 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -190,44 +190,45 @@ class MML(BaseIRTAlgorithm):
         if isinstance(model, MonotoneBSpline) or isinstance(model, MonotoneBSpline) or (isinstance(model, NestedLogit) and model.incorrect_response_model == "bspline"):
             model.precompute_basis(latent_combos_rep)
 
-        best_epoch = 0
-        best_loss = float("inf")
-        prev_lr = [group["lr"] for group in self.optimizer.param_groups]
-        for epoch in range(max_epochs):
-            train_loss = self._train_step(
-                model,
-                irt_dataset_rep,
-                latent_combos_rep,
-                log_weights_rep,
-                points.size(0)
-            )
-
-            current_loss = train_loss
-            scheduler.step(train_loss)
-            dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
-
-            if current_loss < best_loss:
-                best_loss = current_loss
-                best_epoch = epoch
-                best_model_state = { "state_dict": copy.deepcopy(model.state_dict()),
-                                    "optimizer": copy.deepcopy(self.optimizer.state_dict()) }
+        try:
+            best_epoch = 0
+            best_loss = float("inf")
+            prev_lr = [group["lr"] for group in self.optimizer.param_groups]
+            for epoch in range(max_epochs):
+                train_loss = self._train_step(
+                    model,
+                    irt_dataset_rep,
+                    latent_combos_rep,
+                    log_weights_rep,
+                    points.size(0)
+                )
+
+                current_loss = train_loss
+                scheduler.step(train_loss)
+                dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
+
+                if current_loss < best_loss:
+                    best_loss = current_loss
+                    best_epoch = epoch
+                    best_model_state = { "state_dict": copy.deepcopy(model.state_dict()),
+                                        "optimizer": copy.deepcopy(self.optimizer.state_dict()) }
             
 
-            current_lr = [group["lr"] for group in self.optimizer.param_groups]
-            # Check if the learning rate has been updated
-            if current_lr != prev_lr:
-                lr_update_count += 1
-                prev_lr = current_lr
-
-            if lr_update_count >= learning_rate_updates_before_stopping:
-                logger.info("Stopping training after %s learning rate updates.", learning_rate_updates_before_stopping)
-                break
-
-            logger.debug("Current learning rate: %s", self.optimizer.param_groups[0]["lr"])
-
-        # remove basis functions for spline models after fitting
-        if isinstance(model, MonotoneBSpline) or isinstance(model, MonotoneBSpline) or (isinstance(model, NestedLogit) and model.incorrect_response_model == "bspline"):
-            model.basis = None
+                current_lr = [group["lr"] for group in self.optimizer.param_groups]
+                # Check if the learning rate has been updated
+                if current_lr != prev_lr:
+                    lr_update_count += 1
+                    prev_lr = current_lr
+
+                if lr_update_count >= learning_rate_updates_before_stopping:
+                    logger.info("Stopping training after %s learning rate updates.", learning_rate_updates_before_stopping)
+                    break
+
+                logger.debug("Current learning rate: %s", self.optimizer.param_groups[0]["lr"])
+        finally:
+            # remove basis functions for spline models after fitting, also when training fails
+            if isinstance(model, MonotoneBSpline) or isinstance(model, MonotoneBSpline) or (isinstance(model, NestedLogit) and model.incorrect_response_model == "bspline"):
+                model.basis = None
 
         # Load the best model state
         if best_model_state is not None:
-- 
2.43.0


From 2319058cfa7729b08c6c97df9e75b7e51065616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 31/48] fix: rotation loadings are computed from original-scale
 latent scores

---
 irtorch/rescale/rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/rotate.py b/irtorch/rescale/rotate.py
index f5c2f92..47e91dc 100644
--- a/irtorch/rescale/rotate.py
+++ b/irtorch/rescale/rotate.py
@@ -51,7 +51,7 @@ class Rotate(Scale):
                 if theta is None:
                     if data is None:
                         raise ValueError("data, theta, loadings or a rotation matrix must be provided for rotation.")
-                    theta = model.latent_scores(data, rescale=True ,**kwargs)
+                    theta = model.latent_scores(data, rescale=False, **kwargs)
                 loadings = model.expected_item_score_gradients(theta).mean(dim=0)
             rotator = Rotator(method = rotation_method)
             self.rot_loadings = torch.from_numpy(rotator.fit_transform(loadings.numpy())).float()
-- 
2.43.0


From bdcf12f2fd69cce2dbec5ae106bd7645d5994ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 32/48] fix: the big five cache file is written atomically

---
 irtorch/load_dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/irtorch/load_dataset.py b/irtorch/load_dataset.py
index b8a45f5..18a2e38 100644
--- a/irtorch/load_dataset.py
+++ b/irtorch/load_dataset.py
@@ -269,8 +269,15 @@ def big_five() -> torch.Tensor:
         data = data - 1 # code first option as 0, second as 1, etc.
         torch_data = torch.tensor(data.to_numpy(), dtype=torch.float32)
         # Save preprocessed data to cache
-        with open(processed_data_path, "wb") as f:
-            pickle.dump((torch_data, original_data), f)
+        # (written to a temporary file first, an interrupted write never leaves a partial cache file)
+        file_descriptor, temporary_path = tempfile.mkstemp(dir=cache_dir, suffix=".tmp")
+        try:
+            with os.fdopen(file_descriptor, "wb") as f:
+                pickle.dump((torch_data, original_data), f)
+            os.replace(temporary_path, processed_data_path)
+        except BaseException:
+            os.remove(temporary_path)
+            raise
 
     try:
         with resources.files("irtorch").joinpath("datasets/big_five/items.txt").open("r", encoding="utf-8") as file:
-- 
2.43.0


From 552e7702d331ce079d820c7c90054a1d4cfd63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 33/48] fix: unknown reduction, level and average_over values
 are rejected

---
 irtorch/evaluator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 5fec9c6..9acc94c 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,6 +172,9 @@ class Evaluator:
         torch.Tensor
             The residuals.
         """
+        if average_over not in ["none", "items", "respondents", "everything"]:
+            raise ValueError("average_over must be 'none', 'items', 'respondents' or 'everything'.")
+
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
@@ -296,6 +299,9 @@ class Evaluator:
         torch.Tensor
             The accuracy.
         """
+        if level not in ["all", "item", "respondent"]:
+            raise ValueError("level must be 'all', 'item' or 'respondent'.")
+
         data, theta, missing_mask = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         probabilities = self.model.item_probabilities(theta)
@@ -513,6 +519,11 @@ class Evaluator:
         torch.Tensor
             The log-likelihood for the provided data.
         """
+        if reduction not in ["sum", "none", "mean"]:
+            raise ValueError("reduction must be 'sum', 'none' or 'mean'.")
+        if level not in ["all", "item", "respondent"]:
+            raise ValueError("level must be 'all', 'item' or 'respondent'.")
+
         data, theta, missing_mask = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         if reduction != "none":
@@ -533,7 +544,7 @@ class Evaluator:
         # On unseen data, we may end up with 0 probabilities which will result in -inf likelihoods
         likelihoods[likelihoods==-torch.inf] = -30.0
         likelihoods = likelihoods.view(theta.shape[0], -1)
-        if reduction in "mean":
+        if reduction == "mean":
             return likelihoods.nanmean(dim=dim)
         if reduction == "sum":
             return likelihoods.nansum(dim=dim)
-- 
2.43.0


From 4db6faec3c7a6e475066e598b1aecf684aa8c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 34/48] fix: unknown separate and integration_method values are
 rejected

---
 irtorch/estimation_algorithms/mml.py  | 4 +++-
 irtorch/models/monotone_nn.py         | 3 +++
 irtorch/models/monotone_polynomial.py | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index eda3634..5b086bf 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -117,8 +117,10 @@ class MML(BaseIRTAlgorithm):
                 covariance=self.covariance_matrix
             )
             log_weights = weights.log()
-        else:
+        elif integration_method == "quasi_mc":
             points, log_weights = self._quasi_mc(n_points=quadrature_points, latent_variables=model.latent_variables)
+        else:
+            raise ValueError("integration_method must be 'gauss_hermite' or 'quasi_mc'.")
 
         # Reduce learning rate when loss stops decreasing ("min")
         # we multiply the learning rate by the factor
diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index 5a8499c..a56e06e 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -109,6 +109,9 @@ class MonotoneNN(BaseIRTModel):
                 raise ValueError("hidden_dim must be a multiple of 2 when use_bounded_activation=False")
 
         self.item_theta_relationships = item_theta_relationships
+        if separate not in ["items", "categories"]:
+            raise ValueError("separate must be 'items' or 'categories'.")
+
         self.separate = separate
         self.hidden_layers = len(hidden_dim)
         self.output_length = self.items * self.max_item_responses
diff --git a/irtorch/models/monotone_polynomial.py b/irtorch/models/monotone_polynomial.py
index bf7949b..97ac7c4 100644
--- a/irtorch/models/monotone_polynomial.py
+++ b/irtorch/models/monotone_polynomial.py
@@ -67,6 +67,9 @@ class MonotonePolynomial(BaseIRTModel):
         else:
             item_theta_relationships = torch.tensor([[True] * latent_variables] * self.items, dtype=torch.bool)
 
+        if separate not in ["items", "categories"]:
+            raise ValueError("separate must be 'items' or 'categories'.")
+
         self.separate = separate
         self.output_length = self.items * self.max_item_responses
         self.negative_latent_variable_item_relationships = negative_latent_variable_item_relationships
-- 
2.43.0


From 7a19397ab45247506138efff42e3b26fa326729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 35/48] fix: spline log-determinants outside the interval are
 those of the linear continuation

---
 irtorch/torch_modules/rational_quadratic_spline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..2c44088 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,11 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        # log of the (linear) derivative outside of the spline interval
+        log_deriv_lower = float(np.log(self.deriv_outside_lower))
+        log_deriv_upper = float(np.log(self.deriv_outside_upper))
+        logabsdet = torch.where(below, -log_deriv_lower if inverse else log_deriv_lower, logabsdet)
+        logabsdet = torch.where(above, -log_deriv_upper if inverse else log_deriv_upper, logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From 4c706bc74b15394c63813e22998989c8828a074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 36/48] fix: the bit starting theta treats unselected items as
 missing

---
 irtorch/rescale/bit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 779be66..e79fc29 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -345,6 +345,10 @@ class Bit(Scale):
             guessing_probabilities,
             selected_correct
         )
+        # responses to items which are not selected are missing
+        all_data = torch.full((random_data.shape[0], len(self.model.item_categories)), float("nan"))
+        all_data[:, items] = random_data
+        random_data = all_data
 
         logger.info("Approximating theta from random guessing data to get minimum bit score.")
         guessing_theta = self.model.latent_scores(random_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
-- 
2.43.0


From e8f8303efc8735e921cf8c52d22abab7daf31207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 37/48] fix: random guessing data works without guessing
 probabilities

---
 irtorch/_internal_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index e1a7972..cb4a6b8 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -107,8 +107,10 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
+    if guessing_probabilities is None:
+        guessing_probabilities = [1.0 / cats for cats in item_categories]
+
     if (
-        guessing_probabilities is not None and \
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -118,10 +120,6 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
-- 
2.43.0


From 29614005f1e5a6bf3c763370b21721a1924639c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 38/48] fix: a correct response outside of the item categories
 is rejected

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 10a6950..61bbe88 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -35,7 +35,7 @@ class BaseIRTModel(ABC, nn.Module):
     ):
         super().__init__()
         if mc_correct is not None:
-            if not all(item >= mc for item, mc in zip(item_categories, mc_correct)):
+            if not all(item > mc for item, mc in zip(item_categories, mc_correct)):
                 raise ValueError("mc_correct cannot be greater than the number of categories for each item.")
         self.latent_variables = latent_variables
         self.item_categories = item_categories
-- 
2.43.0


From 6d0f334fa9a03ddd01d9ebc323f1a125274e7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 39/48] fix: resetting a model mix resets the parameters of its
 models

---
 irtorch/models/model_mix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..f2a7cda 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -45,8 +45,9 @@ class ModelMix(BaseIRTModel):
         self.models = nn.ModuleList(models)
 
     def reset_parameters(self) -> None:
-        nn.init.normal_(self.weight_param, mean=1., std=0.01)
-        nn.init.zeros_(self.bias_param)
+        for model in self.models:
+            if hasattr(model, "reset_parameters"):
+                model.reset_parameters()
     
     def forward(self, theta: torch.Tensor) -> torch.Tensor:
         """
-- 
2.43.0


From 70265b96a5b523ecb4ccd6aa8becda2829bb67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 40/48] fix: refitting stores the data of the latest fit only

---
 irtorch/estimation_algorithms/base_irt_algorithm.py | 7 ++-----
 irtorch/estimation_algorithms/vae.py                | 5 +----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/irtorch/estimation_algorithms/base_irt_algorithm.py b/irtorch/estimation_algorithms/base_irt_algorithm.py
index 2eb8dd5..1703754 100644
--- a/irtorch/estimation_algorithms/base_irt_algorithm.py
+++ b/irtorch/estimation_algorithms/base_irt_algorithm.py
@@ -29,8 +29,5 @@ class BaseIRTAlgorithm(ABC):
         **kwargs
             Additional keyword arguments for the algorithm fit method.
         """
-        # Store all training data within the algorithm instance
-        if self.train_data is not None:
-            self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
-        else:
-            self.train_data = train_data.contiguous()
+        # Store the training data of this fit within the algorithm instance
+        self.train_data = train_data.contiguous()
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 9aa1008..8d76073 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -81,10 +81,7 @@ class VAE(AE):
         iw_samples : int, optional
             The number of importance weighted samples to use. (default is 5)
         """
-        if self.train_data is not None:
-            self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
-        else:
-            self.train_data = train_data.contiguous()
+        self.train_data = train_data.contiguous()
 
         # Re-initialize the training history
         self.training_history = {
-- 
2.43.0


From 0ccd72242fcd0de1a7193231ae51eee564055efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 41/48] fix: joint estimation does not change the caller's
 starting latent scores

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..9288bdb 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.detach().clone().to(device) # a copy, the optimizer updates it in place
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From 71d3c62c4a2114639536e971b93e4208e135922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 42/48] fix: MonotoneBSpline with separate categories and
 several latent variables

The mask of free spline coefficients was built for one latent variable, so
the forward pass indexed the coefficient tensor out of bounds.
---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From 57ad2f181e1e2c06eeebba3eb14807f4851d5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 43/48] fix: GeneralizedPartialCredit traditional item
 parameters are steps between adjacent scores

---
 irtorch/models/generalized_partial_credit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/models/generalized_partial_credit.py b/irtorch/models/generalized_partial_credit.py
index 49a4140..474d49e 100644
--- a/irtorch/models/generalized_partial_credit.py
+++ b/irtorch/models/generalized_partial_credit.py
@@ -26,16 +26,16 @@ class GeneralizedPartialCredit(BaseIRTModel):
 
         P(X_j=x | \mathbf{\theta}) = \begin{cases}
             \dfrac{1}
-            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + \sum_{m=1}^gd_{jm}\right)}, & \text{if } x = 0\\
-            \dfrac{\exp \left( x\mathbf{a}_{j}^\top \mathbf{\theta}+\sum_{m=1}^{x}d_{jm}\right)}
-            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + \sum_{m=1}^gd_{jm}\right)}, & \text{otherwise}
+            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + d_{jg}\right)}, & \text{if } x = 0\\
+            \dfrac{\exp \left( x\mathbf{a}_{j}^\top \mathbf{\theta}+d_{jx}\right)}
+            {1+\sum_{g=1}^{M_i}\exp \left(g\mathbf{a}_{j}^\top \mathbf{\theta} + d_{jg}\right)}, & \text{otherwise}
         \end{cases}
 
     where:
 
     - :math:`\mathbf{\theta}` is a vector of latent variables.
     - :math:`\mathbf{a}_{j}` is a vector of weights for item :math:`j`.
-    - :math:`d_{jm}` is the bias term for item :math:`j` and score :math:`m`.
+    - :math:`d_{jx}` is the bias term for item :math:`j` and score :math:`x`.
 
     Examples
     --------
@@ -153,7 +153,10 @@ class GeneralizedPartialCredit(BaseIRTModel):
         weights_df = pd.DataFrame(weights.detach().numpy())
         weights_df.columns = [f"a{i+1}" for i in range(weights.shape[1])]
         if irt_format and self.latent_variables == 1:
-            biases_df = pd.DataFrame(-(biases/weights).detach()[:, 1:].numpy())
+            # b is where adjacent scores are equally likely: the biases accumulate over scores, so each step is a difference
+            steps = biases.diff(dim=1)
+            steps[self.missing_category.reshape(-1, self.max_item_responses)[:, 1:]] = 0.0
+            biases_df = pd.DataFrame(-(steps/weights).detach().numpy())
             biases_df.columns = [f"b{i+1}" for i in range(biases_df.shape[1])]
         else:
             biases_df = pd.DataFrame(biases.detach().numpy())
-- 
2.43.0


From 31c2f0e9656a9db77b31ef30df05d26d5fdfa5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 44/48] fix: reported relationship directions are zero for
 unrelated items and latent variables

MonotonePolynomial and MonotoneNN without negative relationships reported
direction 1 for items that item_theta_relationships excludes.
---
 irtorch/models/monotone_nn.py         | 2 +-
 irtorch/models/monotone_polynomial.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index a56e06e..b9bda08 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -282,4 +282,4 @@ class MonotoneNN(BaseIRTModel):
         if hasattr(self, "negation_dim0"):
             return torch.stack([getattr(self, f"negation_dim{i}").all_item_weights().sign() for i in range(self.latent_variables)], dim=1).int()
         else:
-            return torch.ones(self.items, self.latent_variables, dtype=torch.int)
+            return self.item_theta_relationships.int()
diff --git a/irtorch/models/monotone_polynomial.py b/irtorch/models/monotone_polynomial.py
index 97ac7c4..cac9c21 100644
--- a/irtorch/models/monotone_polynomial.py
+++ b/irtorch/models/monotone_polynomial.py
@@ -138,4 +138,6 @@ class MonotonePolynomial(BaseIRTModel):
         """
         if self.negative_latent_variable_item_relationships:
             return (self._modules["mono_poly"].directions * self._modules["mono_poly"].directions_mask).transpose(0, 1).sign().int()
-        return torch.ones(self.items, self.latent_variables).int()
+        mono_poly = self._modules["mono_poly"]
+        relationships = mono_poly.relationship_matrix.reshape(self.latent_variables, self.items, mono_poly.shared_directions)
+        return relationships[:, :, 0].transpose(0, 1).int()
-- 
2.43.0


From 970f71ae0d31c716b509cd8a7e51b4a0b2286c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 45/48] fix: correlations with missing values use the rows
 where both columns are observed

The covariance centred each column on all of its observed rows but was
normalised by pairwise standard deviations, which gave correlations outside
of [-1, 1] (Q3).
---
 irtorch/_internal_utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index cb4a6b8..f5facfe 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,18 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    # Correlate each pair of columns over the rows where both are observed
+    corr_matrix = torch.ones(x.size(1), x.size(1), dtype=x.dtype, device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    centered_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    centered_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    corr_matrix[i, j] = torch.sum(centered_i * centered_j) / torch.sqrt(torch.sum(centered_i ** 2) * torch.sum(centered_j ** 2))
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From 487d32c6712d586c3ed187e82761ecdf12b9bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 46/48] fix: seed worker processes from the global generators

The processes of cross_validation and fit_multiple_models_cpu drew from
generators set_seed does not reach, so two seeded runs gave different results.
---
 irtorch/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 92d0c86..f08d554 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -128,9 +128,11 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
         logger.info(f"Attempting to initialize multiprocessing with {cores_to_use} cores")
         mp.set_start_method('spawn', force=True)
         
+        # worker processes have random number generators of their own, seed them from the ones of this process
+        seeds = torch.randint(2**31, (len(param_dicts),)).tolist()
         jobs = []
-        for params in param_dicts:
-            jobs.append((copy.deepcopy(model), data_folds, params, theta_estimation, device))
+        for params, seed in zip(param_dicts, seeds):
+            jobs.append((copy.deepcopy(model), data_folds, params, theta_estimation, device, seed))
         
         original_threads = torch.get_num_threads()
         try:
@@ -164,9 +166,11 @@ def _run_sequential(model, data_folds, param_dicts, theta_estimation, device):
         for params in param_dicts
     ]
 
-def _cv_param_combination(model, data_folds, params, theta_estimation, device):
+def _cv_param_combination(model, data_folds, params, theta_estimation, device, seed=None):
     """Worker function for cross-validation parameter combinations."""
     try:
+        if seed is not None:
+            set_seed(seed)
         results = []
         for i, validation_fold in enumerate(data_folds):
             train_folds = [x for j, x in enumerate(data_folds) if j != i]
@@ -502,17 +506,21 @@ def fit_multiple_models_cpu(
     try:
         # Ensure each subprocess uses a single thread for PyTorch.
         torch.set_num_threads(1)
+        # worker processes have random number generators of their own, seed them from the ones of this process
+        seeds = torch.randint(2**31, (len(models),)).tolist()
         with mp.Pool(cores_to_use) as pool:
-            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models])
+            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs, seed) for model, seed in zip(models, seeds)])
     finally:
         torch.set_num_threads(original_threads)
 
     return trained_models
 
-def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs):
+def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs, seed: int = None):
     """
     This is a worker function used in multiprocessing
     """
+    if seed is not None:
+        set_seed(seed)
     model.fit(train_data, device="cpu", **kwargs)
     return model
 
-- 
2.43.0


From cc1658bbee458e1a3d459d9870afbada77ba7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 47/48] fix: random incorrect imputation of a single respondent

The mask of the missing responses of a column was squeezed, so with one
row it had no dimension left and indexed something else.
---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index f5facfe..bc5427d 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -426,7 +426,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index f08d554..099147c 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -354,7 +354,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From e6532a0d39cd5191e0d4376d1380b9bf10813429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 48/48] fix: axes of two-variable plots are labelled with the
 requested latent variables

---
 irtorch/plotter.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 994d97b..559b622 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -283,8 +283,8 @@ class Plotter:
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
                 z = item_entropies.reshape((grid_size, grid_size)),
                 title = title or f"Item {item} entropy",
-                x_label = x_label or "Latent variable 1",
-                y_label = y_label or "Latent variable 2",
+                x_label = x_label or f"Latent variable {latent_variables[0]}",
+                y_label = y_label or f"Latent variable {latent_variables[1]}",
                 z_label = "Entropy",
                 colorscale = colorscale
             )
@@ -431,8 +431,8 @@ class Plotter:
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
                 z = log_likelihood.reshape((grid_size, grid_size)),
                 title = title or "Log-likelihood",
-                x_label = x_label or "Latent variable 1",
-                y_label = y_label or "Latent variable 2",
+                x_label = x_label or f"Latent variable {latent_variables[0]}",
+                y_label = y_label or f"Latent variable {latent_variables[1]}",
                 z_label = "Log-likelihood",
                 colorscale = colorscale
             )
@@ -763,8 +763,8 @@ class Plotter:
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
                 z = information.reshape((grid_size, grid_size)),
                 title = title or "Information",
-                x_label = x_label or "Latent variable 1",
-                y_label = y_label or "Latent variable 2",
+                x_label = x_label or f"Latent variable {latent_variables[0]}",
+                y_label = y_label or f"Latent variable {latent_variables[1]}",
                 z_label = "Information",
                 colorscale = colorscale
             )
@@ -888,8 +888,8 @@ class Plotter:
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
                 z = sum_scores.reshape((grid_size, grid_size)),
                 title = title or "Expected sum score",
-                x_label = x_label or "Latent variable 1",
-                y_label = y_label or "Latent variable 2",
+                x_label = x_label or f"Latent variable {latent_variables[0]}",
+                y_label = y_label or f"Latent variable {latent_variables[1]}",
                 z_label = "Expected sum score",
                 colorscale = colorscale
             )
-- 
2.43.0

