From ccbac6de78556ccb3e69a8e4f856d9cbce14795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 01/54] fix: load_config and set_kernel_config keep a private
 copy of the config

set_kernel_radius (and make_config) wrote through to the dict the caller
passed in, so two CAs loaded from one config changed each other's rule.
---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 3 +++
 yuca/ca/neural.py             | 5 ++++-
 yuca/ca/reaction_diffusion.py | 3 +++
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..f52ce93 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -284,7 +284,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..11a5ddd 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -101,6 +101,9 @@ class CCA(CA):
 
     def load_config(self, config):
 
+        # keep a private copy, the caller's config should not change with this CA
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..39c6c41 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -123,7 +123,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
@@ -133,6 +133,9 @@ class NCA(CA):
 
     def load_config(self, config):
 
+        # keep a private copy, the caller's config should not change with this CA
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..0ba3440 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -75,6 +75,9 @@ class RxnDfn(CA):
 
     def load_config(self, config, verbose=False):
 
+        # keep a private copy, the caller's config should not change with this CA
+        config = copy.deepcopy(config)
+
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
-- 
2.43.0


From 3d07c924d132e4b9de16fb36bee2a109cb03b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 02/54] fix: keep a custom identity kernel when a config is
 saved and restored

load_config read identity_kernel_config, make_config always wrote a 3x3
InnerMoore id_kernel_config that load_config never read.
---
 yuca/ca/continuous.py         | 8 ++++++--
 yuca/ca/neural.py             | 8 ++++++--
 yuca/ca/reaction_diffusion.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 11a5ddd..b3e10be 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -112,10 +112,14 @@ class CCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config saves the identity kernel as id_kernel_config
+        self.id_kernel_config = config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 39c6c41..3d98811 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -142,10 +142,14 @@ class NCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config saves the identity kernel as id_kernel_config
+        self.id_kernel_config = config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 0ba3440..c9bca76 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -80,10 +80,14 @@ class RxnDfn(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config saves the identity kernel as id_kernel_config
+        self.id_kernel_config = config.get("identity_kernel_config", \
+                config.get("id_kernel_config", None))
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
-- 
2.43.0


From aafebfb3f7212c6f5dc79368216bf307fff8a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 03/54] fix: set_params and set_kernel_config rebuild the
 kernel that is configured

CCA/NCA.set_params always built a GaussianMixture kernel, so passing back
get_params() replaced MooreLike, CosOverX2, DoGaussian and SmoothLife kernels,
and the saved kernel config kept the old parameters. NCA.set_kernel_config
left the old convolution in place.
---
 yuca/ca/common.py     | 41 ++++++++++++++++++++++++++++++++++-------
 yuca/ca/continuous.py | 15 +++++++--------
 yuca/ca/neural.py     | 27 ++++++++-------------------
 3 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index f52ce93..7ceaf35 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -273,20 +273,47 @@ class CA(nn.Module):
 
     def update_kernel_params(self, kernel_kwargs):
 
-        self.kernel_params = None
+        # empty for kernels without parameters (e.g. MooreLike)
+        self.kernel_params = np.array([])
 
         for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
+            self.kernel_params = np.append(self.kernel_params, \
+                    np.array(kernel_kwargs[key]))
+
+    def set_kernel_params(self, kernel_params):
+        """
+        rebuild the neighborhood kernel (and its config) from a flat vector
+        of parameters, ordered as in self.kernel_params
+        """
+
+        self.kernel_params = kernel_params
+
+        if kernel_params.shape[0] == 0:
+            # nothing to set, keep the current neighborhood kernel(s)
+            return
+
+        old_kwargs = self.neighborhood_kernel_config["kernel_kwargs"]
+        new_kwargs = {}
+        start = 0
+
+        for key in old_kwargs.keys():
+            shape = np.shape(old_kwargs[key])
+            stop = start + int(np.prod(shape))
+            if len(shape):
+                new_kwargs[key] = np.array(kernel_params[start:stop]).reshape(shape)
             else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
+                new_kwargs[key] = float(kernel_params[start])
+            start = stop
+
+        self.neighborhood_kernel_config["kernel_kwargs"] = new_kwargs
+        self.add_neighborhood_kernel(get_kernel(self.neighborhood_kernel_config))
+        self.initialize_neighborhood_layer()
 
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index b3e10be..e074e71 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -126,8 +126,8 @@ class CCA(CA):
 
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -293,6 +293,10 @@ class CCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -683,13 +687,8 @@ class CCA(CA):
                 param_start = param_stop
 
         param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
-
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
+        self.set_kernel_params(params[param_start:param_stop])
 
-        self.add_neighborhood_kernel(nbhd_kernel)
-        self.initialize_neighborhood_layer()
         self.to_device(self.my_device)
 
     def no_grad(self):
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 3d98811..109041f 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -81,17 +81,6 @@ class NCA(CA):
 
         self.reset()
 
-    def update_kernel_params(self, kernel_kwargs):
-
-        self.kernel_params = None
-
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
-
     def default_init(self):
 
         self.add_identity_kernel()
@@ -113,6 +102,10 @@ class NCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -126,10 +119,11 @@ class NCA(CA):
         self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
 
     def load_config(self, config):
 
@@ -363,13 +357,8 @@ class NCA(CA):
 
         if self.kernel_params is not None:
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
-
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
+            self.set_kernel_params(params[param_start:param_stop])
 
-            self.add_neighborhood_kernel(nbhd_kernel)
-            self.initialize_neighborhood_layer()
             self.to_device(self.my_device)
 
     def no_grad(self):
-- 
2.43.0


From 0f50f0210ffa862084ae3bd5c9b42bd29bcea144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 04/54] fix: make_config saves the genesis and persistence
 rules actually in use

make_config replaced SmoothIntervals intervals with an empty array, dropped
GaussianMixture amplitudes, left Gaussian/DoGaussian/Polynomial parameters
stale, and assumed a fixed GaussianMixture for a default CCA. It also
modified the loaded config in place.
---
 yuca/ca/continuous.py | 53 +++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index e074e71..e87a329 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -179,6 +179,39 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def get_fn_config(self, fn_config, update_fn):
+        """
+        copy of fn_config with the current parameters of update_fn
+        """
+
+        fn_config = copy.deepcopy(fn_config)
+
+        if fn_config["name"] == "GaussianMixture":
+
+            means = [gaussian.mu.item() for gaussian in update_fn.gaussians]
+            sigmas = [gaussian.sigma.item() for gaussian in update_fn.gaussians]
+            amplitudes = update_fn.amplitudes.tolist()
+
+            # a multiple of 3 parameters is read as (amplitude, mu, sigma)
+            if (2 * len(means)) % 3 == 0 or any([amp != 1.0 for amp in amplitudes]):
+                parameters = np.array([amplitudes, means, sigmas])
+            else:
+                parameters = np.array([means, sigmas])
+
+            fn_config["parameters"] = parameters.T.ravel()
+
+        elif fn_config["name"] in ["Gaussian", "DoGaussian", "DoubleGaussian"]:
+
+            fn_config["mu"] = update_fn.mu.detach().cpu().clone()
+            fn_config["sigma"] = update_fn.sigma.detach().cpu().clone()
+
+        elif fn_config["name"] == "Polynomial":
+
+            fn_config["coefficients"] = update_fn.coefficients.detach().cpu().clone()
+
+        # the other update functions have no trainable parameters
+        return fn_config
+
     def make_config(self):
 
         config = {}
@@ -221,13 +254,9 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
-
-        #if "parameters" in genesis_config.keys():
+            genesis_config = self.get_fn_config(self.genesis_fn_config, \
+                    self.genesis_fns[0])
 
-        #    genesis_config["parameters"] = self.get_genesis_params()
-            
         # persistence
         if self.persistence_fn_config is None:
             print("persistence fn config is missing, assuming GaussianMixture")
@@ -237,13 +266,9 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
-
-        #if "parameters" in persistence_config.keys():
+            persistence_config = self.get_fn_config(self.persistence_fn_config, \
+                    self.persistence_fns[0])
 
-        #    persistence_config["parameters"] = self.get_persistence_params()
-            
         config["id_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
@@ -359,6 +384,10 @@ class CCA(CA):
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
 
+                if pp == 0:
+                    self.genesis_fn_config = genesis_config
+                    self.persistence_fn_config = persistence_config
+
 
         self.set_dt(0.1)
 
-- 
2.43.0


From d409693e2d6a6d8efbebf36dce866739d9d3b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 05/54] fix: do not save ca_config/input_filepath paths inside
 a CA config

Restoring such a config re-read the other file; saving over the file a CA was
loaded from made restore_config recurse without end.
---
 yuca/ca/continuous.py | 5 ++++-
 yuca/ca/neural.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index e87a329..4b14777 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -278,7 +278,10 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        # (the rule itself is in this config, not in another file)
+        config["instant_kwargs"] = {key: self.instant_kwargs[key] \
+                for key in self.instant_kwargs.keys() \
+                if key not in ["ca_config", "input_filepath"]}
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 109041f..846dd22 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -242,7 +242,10 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        # (the rule itself is in this config, not in another file)
+        config["instant_kwargs"] = {key: self.instant_kwargs[key] \
+                for key in self.instant_kwargs.keys() \
+                if key not in ["ca_config", "input_filepath"]}
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
-- 
2.43.0


From e14f1de9778cf3009c21738bd554091e039d70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 06/54] fix: CMAES elitism keeps the elite parameters

elite_pop holds the population's own agents, so an elite overwritten earlier
in the loop was copied with the wrong parameters.
---
 yuca/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..bd5a4ee 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,8 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            # elite_pop may share agents with (already updated) population
+            self.population[kk].set_params(1.0 * elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 88a3a6ecec50d904ca7ff299d2b7f3d257f52111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 07/54] fix: CMAES with workers=1 evaluates serially instead of
 dividing by zero

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index bd5a4ee..b886844 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -469,7 +469,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From ce1cb7475971cd656fa3e17d0907c5d1baae7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 08/54] fix: co-evolution saves the rule of its best elite, not
 the pattern weights

---
 yuca/cmaes.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index b886844..b24a1dd 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -180,6 +180,13 @@ class CMAES():
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def get_rule_params(self, params):
+        """
+        the part of an agent's parameters that sets the CA rules
+        """
+
+        return params
+
     def rank_population(self, fitness, seed=0):
         """
         for the final generation, fitness scores are ranked deterministically
@@ -227,7 +234,7 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.env.ca.set_params(self.get_rule_params(self.elite_params[0]))
 
         self.env.ca.save_config(ca_config_filepath)
 
@@ -657,6 +664,13 @@ class CMACES(CMAES):
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def get_rule_params(self, params):
+
+        # pattern (CPPN) parameters come first
+        num_rule_params = self.env.ca.get_params().shape[0]
+
+        return params[params.shape[0] - num_rule_params:]
+
     def get_elite_configs(self):
 
         elite_configs = []
-- 
2.43.0


From f90d3d11a9494412d5728ff5f5ed9cac2bfe1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 09/54] fix: CPPN input has 16 features per channel for 3 or
 more channels

---
 yuca/cppn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..e7792c6 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -135,9 +135,8 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From 3de41edea322e73c1422c88c9ff87876b72a0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 10/54] fix: Librarian keeps ca_config when not verbose, fields
 with commas and all pattern names

---
 yuca/zoo/librarian.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..e9faf22 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -30,10 +30,7 @@ class Librarian():
 
         remove_list = []
         for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
+            if os.path.splitext(elem)[1] != ".npy":
                 remove_list.append(elem)
                 
         for elem in remove_list:
@@ -65,11 +62,11 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
-            else:
+        if config_name == "unspecified":
+            if ca_config != "unspecified":
                 config_name = ca_config
+            elif self.verbose:
+                print(f"warning, no config supplied for {pattern_name}")
 
         with open(meta_path, "w") as f:
             f.write(f"ca_config,{config_name}")
@@ -98,20 +95,20 @@ class Librarian():
         with open(meta_path) as f:
             metadata = f.readlines()
 
-            ca_config = metadata[0].split(",")[1]
+            ca_config = metadata[0].split(",", 1)[1]
 
             try:
-                entry_point = metadata[3].split(",")[1]
+                entry_point = metadata[3].split(",", 1)[1]
             except:
                 entry_point = "none"
 
             try:
-                notes = metadata[2].split(",")[1]
+                notes = metadata[2].split(",", 1)[1]
             except:
                 notes = ""
 
             try:
-                commit_hash = metadata[1].split(",")[1]
+                commit_hash = metadata[1].split(",", 1)[1]
             except:
                 commit_hash = "none"
 
-- 
2.43.0


From b6f4825d9fb17a897451dce5003edf226473a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 11/54] fix: DoGaussian mode 1 scales the difference of
 Gaussians

---
 yuca/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..43c813a 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -369,7 +369,7 @@ class DoGaussian(nn.Module):
                 - (((x-self.dx) - self.mu) / (eps + self.sigma))**2 / 2 )
 
         if self.mode:
-            result = gaussian_1 - gaussian_2 * 2 -1
+            result = (gaussian_1 - gaussian_2) * 2 -1
         else:
             result = gaussian_1 - gaussian_2
 
-- 
2.43.0


From 98aaf18d8a28d4b68d2fecc2e47eec917c9d2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 12/54] fix: conditional entropy counts joint occurrences,
 constant grids have zero entropy

---
 yuca/analyze.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..bee8044 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -37,7 +37,9 @@ def get_grid_entropy(grid):
     eps = 1e-9
     # convert grid to uint8
     
-    stretched_grid = (grid - np.min(grid)) / np.max(grid - np.min(grid))
+    grid_range = np.max(grid - np.min(grid))
+    # a constant grid has a range of 0
+    stretched_grid = (grid - np.min(grid)) / (grid_range if grid_range > 0 else 1.0)
     
     uint8_grid = np.uint8(255*stretched_grid)
     
@@ -102,7 +104,9 @@ def get_conditional_grid_entropy(grid, direction=0):
         
     # convert grid to uint8
     
-    stretched_grid = (grid - np.min(grid)) / np.max(grid - np.min(grid))
+    grid_range = np.max(grid - np.min(grid))
+    # a constant grid has a range of 0
+    stretched_grid = (grid - np.min(grid)) / (grid_range if grid_range > 0 else 1.0)
     
     uint8_grid = np.uint8(255*stretched_grid)
     
@@ -113,7 +117,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +128,8 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            # values of u that do not occur have p(s,u) of 0 and don't contribute
+            p_s_given_u[kk, ll] = p[kk,ll] / max([np.sum(p[:,ll]), 1.0])
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From e179ed7cf289afecb4246f089dc635138b9cb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 13/54] fix: StepPredictor uses all of its layers and its own
 weights, saves model next to logs

---
 yuca/step_predictor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..d93275e 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -68,7 +68,7 @@ class StepPredictor(nn.Module):
                     
     def forward(self, x):
 
-        for jj in range(0, self.layer_repeats, 2):
+        for jj in range(0, len(self.conv_layers), 2):
             
             x0 = torch.relu(self.conv_layers[jj](x))
             x1 = F.dropout(x0, p = self.dropout, training=self.training)
@@ -102,7 +102,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -126,7 +126,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -157,8 +157,11 @@ class StepPredictor(nn.Module):
                 save_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
                 model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
+
+                os.makedirs(os.path.split(save_path)[0], exist_ok=True)
+                os.makedirs(os.path.split(model_save_path)[0], exist_ok=True)
 
                 np.save(save_path, progress)
                 torch.save(self.state_dict(), model_save_path)
@@ -174,7 +177,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From ba65992f76c24165ecb4b70e384af4884d453b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 14/54] fix: RxnDfn reports the kernel radius of a loaded
 config

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index c9bca76..563472e 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -94,6 +94,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From bec465f14bd2df0bba8461ff11c7e88347548319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 15/54] fix: get_dt works for CODE and RandomStepCA, which keep
 dt as a float

---
 yuca/ca/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 7ceaf35..d271954 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -249,8 +249,8 @@ class CA(nn.Module):
 
     def get_dt(self):
 
-        # self.dt is a torch tensor
-        return self.dt.item()
+        # self.dt is a torch tensor (or a float, for CA choosing their own step size)
+        return float(self.dt)
 
     def get_dx(self):
 
-- 
2.43.0


From 0110cd935b747d997ee1de2804231b562b020764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 16/54] fix: get_frame applies the alive mask like forward does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index d271954..bd62403 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -364,6 +364,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 4b14777..49be729 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -608,6 +608,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From 43545d38d4f6399869b8f2a92ef3e38da2fa9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 17/54] fix: get_bite_mask matches the image size for odd
 dimensions

---
 yuca/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..3d75f3b 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -41,8 +41,8 @@ def get_bite_mask(img, bite_radius, coords=None):
         coords = np.random.rand(2) * radius
 
     xx, yy = np.meshgrid(\
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)), \
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)))
+            np.linspace(-radius, radius + 1, img.shape[3], endpoint=False), \
+            np.linspace(-radius, radius + 1, img.shape[2], endpoint=False))
 
     grid = np.sqrt((xx-coords[0])**2 + (yy-coords[1])**2) / radius
 
-- 
2.43.0


From 06dccc0bba215a67957cff8860d3eb9a904cd95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 18/54] fix: clone trains on the cloned neighborhood and saves
 the best weights

---
 yuca/clone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..4b7793d 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -62,6 +63,7 @@ def clone_from_ca(**kwargs):
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
@@ -114,7 +116,7 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
-- 
2.43.0


From 36de4e71148285916c999f2855283f399c6bebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 19/54] fix: clone saves each of several ca_configs under its
 own name

---
 yuca/clone.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 4b7793d..19b84d9 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -33,8 +33,6 @@ def clone_from_ca(**kwargs):
     learning_rate = query_kwargs("learning_rate", 1e-3, **kwargs)
     verbose = query_kwargs("verbose", False, **kwargs)
     save_name = query_kwargs("save_name", "default_nca.pt", **kwargs)
-    save_path = os.path.join(log_directory, save_name)
-
 
     best_state_dict = None
     
@@ -151,6 +149,7 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
+        save_path = os.path.join(log_directory, save_name)
         if "ca_config" in save_path:
             config_name = os.path.splitext(ca_config)[0] 
             save_path = save_path.replace("ca_config", config_name)
-- 
2.43.0


From 414596f3cf41356e530bfaed51707e5af7a28ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 20/54] fix: identity kernels made from trainable functions can
 be loaded

---
 yuca/ca/common.py     | 3 ++-
 yuca/ca/continuous.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index bd62403..7043a66 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -84,7 +84,8 @@ class CA(nn.Module):
     def add_identity_kernel(self, **kwargs):
         
         if "kernel" in kwargs.keys():
-            self.id_kernel = kwargs["kernel"]
+            # kernels made from trainable functions are part of a graph
+            self.id_kernel = kwargs["kernel"].detach()
 
             if len(self.id_kernel.shape) == 2:
                 self.id_kernel = torch.reshape(self.id_kernel, \
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 49be729..0f8c767 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -399,7 +399,8 @@ class CCA(CA):
     def add_identity_kernel(self, **kwargs):
         
         if "kernel" in kwargs.keys():
-            self.id_kernel = kwargs["kernel"]
+            # kernels made from trainable functions are part of a graph
+            self.id_kernel = kwargs["kernel"].detach()
 
             if len(self.id_kernel.shape) == 2:
                 self.id_kernel = torch.reshape(self.id_kernel, \
-- 
2.43.0


From cbf6211b9fdad4ab53606fc6df16d1c0e585aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 21/54] fix: set_kernel_params keeps a copy of the vector it is
 given

---
 yuca/ca/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 7043a66..baf030b 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -287,7 +287,8 @@ class CA(nn.Module):
         of parameters, ordered as in self.kernel_params
         """
 
-        self.kernel_params = kernel_params
+        # a copy, the caller may go on using its vector
+        self.kernel_params = np.array(kernel_params)
 
         if kernel_params.shape[0] == 0:
             # nothing to set, keep the current neighborhood kernel(s)
-- 
2.43.0


From f36900105cd784d62578b50773e9daa409c65917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 22/54] fix: CODE reset forgets the step size of earlier runs

---
 yuca/code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..a385c37 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -43,9 +43,9 @@ from yuca.ca.continuous import CCA
 class CODE(CCA):
 
     def __init__(self, **kwargs):
+        self.first_prev_dt = query_kwargs("prev_dt", 0.3, **kwargs)
         super(CODE, self).__init__(**kwargs)
     
-        self.prev_dt = query_kwargs("prev_dt", 0.3, **kwargs)
         self.max_dt = query_kwargs("max_dt", 0.5, **kwargs)
         self.min_dt = query_kwargs("min_dt", 0.01, **kwargs)
         self.error_threshold = query_kwargs("error_threshold", 1e-3, **kwargs)
@@ -56,6 +56,8 @@ class CODE(CCA):
     def reset(self):
 
         self.t_count = 0.0
+        # step sizes after a reset do not depend on earlier runs
+        self.prev_dt = self.first_prev_dt
 
     def adaptive_euler(self, grid, total_step=0.0):
         
-- 
2.43.0


From b2ba305162c86e457a97a5f4442142d2df402afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 23/54] fix: SimpleHaltingWrapper resets its CA before each
 evaluation

---
 yuca/wrappers/halting_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..b99b7fd 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,6 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
+        self.ca.reset()
 
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
-- 
2.43.0


From 6549e2cc43c82b043358face9f81bc1d1fc17baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 24/54] fix: CMAES seeds the random initialization of its CA,
 workers use the parent's rule

---
 yuca/cmaes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index b24a1dd..fb15734 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -48,6 +48,8 @@ class CMAES():
 
         env_fn = query_kwargs("env_fn", HaltingWrapper, **kwargs)
         
+        # worker processes evaluate with the same (randomly initialized) ca
+        seed_all(self.my_seed[0])
         self.env = env_fn(lr = 1e-2, dropout = 0.125, **kwargs) 
 
         self.workers = query_kwargs("workers", 0, **kwargs)
-- 
2.43.0


From 007b03f4ec62ea5aa922f8660635473fb53c80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 25/54] fix: CPPN starts with the parameters it is given

Elites recorded in a log and the draws of the initial population were
ignored by pattern searches.
---
 yuca/cppn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index e7792c6..666f196 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,10 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            # pattern parameters come first (agents may have others after)
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From b3849b586a0771cf1528db882fb07727c3bd9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 26/54] fix: early stop ranks the generation that was evaluated

On stopping early the population had been redrawn before the final
ranking, so the saved configuration was of an individual never evaluated.
---
 yuca/cmaes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index fb15734..83c4090 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -527,17 +527,19 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
-                    self.rank_population(fitness, seed=my_seed)
-                else:
-                    self.update_population(fitness)
-
                 fit_mean = np.mean(fitness) 
                 fit_max = np.max(fitness) 
                 fit_min = np.min(fitness) 
                 fit_std_dev = np.std(fitness) 
                 avg_alive = np.mean(proportion_alive)
 
+                stop_early = fit_std_dev < 0.02 and generation > 6
+
+                if generation == self.generations - 1 or stop_early:
+                    self.rank_population(fitness, seed=my_seed)
+                else:
+                    self.update_population(fitness)
+
                 elite_configs = self.get_elite_configs()
 
                 if "pattern" not in self.exp_id:
@@ -571,8 +573,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if stop_early:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From 54a7f0354fd448b8cdc644c10e32098a0dfe3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 27/54] fix: Librarian reads metadata fields by name

Older metadata files have no commit hash, so their notes were returned
as the commit hash.
---
 yuca/zoo/librarian.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index e9faf22..37f7df7 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -95,22 +95,14 @@ class Librarian():
         with open(meta_path) as f:
             metadata = f.readlines()
 
-            ca_config = metadata[0].split(",", 1)[1]
-
-            try:
-                entry_point = metadata[3].split(",", 1)[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",", 1)[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",", 1)[1]
-            except:
-                commit_hash = "none"
+            # older metadata files do not have all the fields
+            fields = dict(line.split(",", 1) for line in metadata \
+                    if "," in line)
+
+            ca_config = fields["ca_config"]
+            entry_point = fields.get("entry_point", "none")
+            notes = fields.get("notes", "")
+            commit_hash = fields.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From e9e13dbb200602e892a15bdcb06533330cde3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 28/54] fix: module spatial entropy includes the last row and
 column of the window

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index bee8044..3d859cd 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -71,9 +71,9 @@ def get_spatial_entropy(grid, window_size=63):
             #        padded_grid[xx+half_window:xx + 2*half_window+1, \
             #        yy+half_window:yy +2*half_window+1])
             x_start = int(max([xx-half_window, 0]))
-            x_end = int(min([xx+half_window,dim_grid[0]]))
+            x_end = int(min([xx+half_window+1, dim_grid[0]]))
             y_start = int(max([yy-half_window, 0]))
-            y_end = int(min([yy+half_window, dim_grid[1]]))
+            y_end = int(min([yy+half_window+1, dim_grid[1]]))
             spatial_h[xx,yy] = get_grid_entropy(grid[x_start:x_end, y_start:y_end])#.detach().cpu().numpy()) 
             
     return spatial_h
-- 
2.43.0


From cf5d79f5563a0d0ccd8db2a90b7f674494c17509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 29/54] fix: spatial entropy of integer grids is not truncated

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 3d859cd..752968d 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -62,7 +62,7 @@ def get_spatial_entropy(grid, window_size=63):
     
     padded_grid = np.pad(grid, pad_width=(0), mode="wrap")
     
-    spatial_h = np.zeros_like(grid)
+    spatial_h = np.zeros(grid.shape)
     
     for xx in range(dim_grid[0]): #half_window, half_window + dim_grid[0]):
         for yy in range(dim_grid[1]): #half_window, half_window + dim_grid[1]):
@@ -247,7 +247,7 @@ class Phanes():
             
             padded_grid = np.pad(grid, pad_width=(half_window), mode="wrap")
             
-            spatial_h = np.zeros_like(grid)
+            spatial_h = np.zeros(grid.shape)
             
             for xx in range(dim_grid[0]): #half_window, half_window + dim_grid[0]):
                 for yy in range(dim_grid[1]): #half_window, half_window + dim_grid[1]):
-- 
2.43.0


From 1797223625a6af98e19945e8d5603571c115877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 30/54] fix: analyze_universe accepts grids with an odd
 dimension

---
 yuca/analyze.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 752968d..cf5fd92 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -311,7 +311,8 @@ class Phanes():
                 grid[:,:,:,-b_dim//2:] *= 0
         else:
 
-            grid[:,:,b_dim//2:-b_dim//2, b_dim//2:-b_dim//2] = torch.rand(\
+            b_start, b_end = b_dim//2, b_dim//2 + b_dim
+            grid[:,:,b_start:b_end, b_start:b_end] = torch.rand(\
                     self.batch_size, 1, b_dim, b_dim)
 
         # escape mask checks for patterns that escape the bounding box
-- 
2.43.0


From f6e26cfecf2cc745ec96e4ec02038d4677412d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 31/54] fix: NCA(ca_config=...) accepts configs saved without
 constructor arguments

---
 yuca/ca/neural.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 846dd22..68ffa52 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -73,6 +73,8 @@ class NCA(CA):
 
         if "ca_config" in kwargs.keys():
             if kwargs["ca_config"] is not None:
+                # configs without instant_kwargs are loaded into existing layers
+                self.default_init()
                 self.restore_config(kwargs["ca_config"])
             else:
                 self.default_init()
-- 
2.43.0


From e0f22904cb77797c502bf1f95e81b8af89d5eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 32/54] fix: animation folders with blanks or shell characters
 do not reach a shell

---
 yuca/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 3d75f3b..e96bc95 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 
 import time
 import numpy as np
@@ -177,9 +178,9 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     first_frame.save(gif_path, format="GIF", append_images=frames, \
             save_all=True, duration=42, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for filename in dir_list:
+        if filename.endswith("png"):
+            os.remove(os.path.join(frames_path, filename))
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -204,9 +205,7 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     # number of leading zeros
     leading = num_steps // 10 + 1
 
-    if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+    os.makedirs(frames_path, exist_ok=True)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -255,5 +254,5 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
     #ca.to_device(old_device)
-- 
2.43.0


From 63fa93bdb56ab9b7d6005acfce11a3f7e417d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 33/54] fix: frames left by an interrupted run do not show up
 in an animation

---
 yuca/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/utils.py b/yuca/utils.py
index e96bc95..e6825ce 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -206,6 +206,10 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     leading = num_steps // 10 + 1
 
     os.makedirs(frames_path, exist_ok=True)
+    # frames that an interrupted run left behind are not part of this animation
+    for filename in os.listdir(frames_path):
+        if filename.endswith("png"):
+            os.remove(os.path.join(frames_path, filename))
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
-- 
2.43.0


From 1eb699dc3979f3bd874d6f8f68a37637ce1b5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 34/54] fix: make_gif creates missing parent folders

---
 yuca/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index e6825ce..b5a3e2c 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -168,10 +168,7 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     
     gif_id = int((time.time() % 1)*1000)
 
-    if os.path.exists(gif_path):
-        pass
-    else:
-        os.mkdir(gif_path)
+    os.makedirs(gif_path, exist_ok=True)
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-- 
2.43.0


From f97dbee3a53b464f32ab0026145b929a3b229188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 35/54] fix: random fitness control reports a scalar, as other
 wrappers do, so its search can run

---
 yuca/wrappers/random_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/random_wrapper.py b/yuca/wrappers/random_wrapper.py
index 41c53d9..8d4b3ea 100644
--- a/yuca/wrappers/random_wrapper.py
+++ b/yuca/wrappers/random_wrapper.py
@@ -25,6 +25,6 @@ class RandomWrapper(SimpleHaltingWrapper):
 
         
         seed_all(int((time.time() % 1)*1000))
-        info = {"active_grid": torch.tensor([-1.0])}
+        info = {"active_grid": torch.tensor(-1.0)}
         return 0, torch.rand(1), 0, info
         
-- 
2.43.0


From fa375d8eff5db72d507dcc724638519be758a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 36/54] fix: the clock keeps running when a step size of
 another shape is set or loaded

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 2 +-
 yuca/ca/reaction_diffusion.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index baf030b..d1441c3 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -360,7 +360,7 @@ class CA(nn.Module):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 0f8c767..a0946a6 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -603,7 +603,7 @@ class CCA(CA):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
         #new_universe = self.weights_layer(new_universe)
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 563472e..70eed8f 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -378,7 +378,7 @@ class RxnDfn(CA):
         new_universe = universe + self.dt * update 
         new_universe = torch.clamp(new_universe,0,1.)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
-- 
2.43.0


From 187e0a9deb67b179ff3e575228d53d85cf3a89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 37/54] fix: accept convolution kernels given with three
 dimensions

---
 yuca/ca/common.py     | 6 ++++--
 yuca/ca/continuous.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index d1441c3..7df784c 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -95,7 +95,8 @@ class CA(nn.Module):
             elif len(self.id_kernel.shape) == 3:
                 self.id_kernel = torch.reshape(self.id_kernel, \
                         (1, self.id_kernel.shape[0], \
-                        self.id_kernel.shape[1]))
+                        self.id_kernel.shape[1], \
+                        self.id_kernel.shape[2]))
 
         else:
             self.id_kernel = torch.tensor([[[\
@@ -165,7 +166,8 @@ class CA(nn.Module):
         elif len(kernel.shape) == 3:
             kernel = torch.reshape(kernel, \
                     (1, kernel.shape[0], \
-                    kernel.shape[1]))
+                    kernel.shape[1], \
+                    kernel.shape[2]))
 
         kernel_dims = len(kernel.shape)
         
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index a0946a6..39907c6 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -410,7 +410,8 @@ class CCA(CA):
             elif len(self.id_kernel.shape) == 3:
                 self.id_kernel = torch.reshape(self.id_kernel, \
                         (1, self.id_kernel.shape[0], \
-                        self.id_kernel.shape[1]))
+                        self.id_kernel.shape[1], \
+                        self.id_kernel.shape[2]))
             
 
         else:
-- 
2.43.0


From 8e4536ff32f017afe7b51bcfd040e2fdc57ce52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 38/54] fix: create the folder universe analyses are saved in

---
 yuca/analyze.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index cf5fd92..e5bfe52 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -428,6 +428,7 @@ class Phanes():
                 save_directory = os.path.join(save_directory, "ca_analysis")
 
                 
+                os.makedirs(save_directory, exist_ok=True)
                 save_name = os.path.splitext(filename)[0] \
                         + f"cppn{self.use_cppn}_analysis.npy"
                 save_path = os.path.join(save_directory, save_name)
-- 
2.43.0


From aba086780aa0dedde232fc0a421e0aa5ab9781d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 39/54] fix: SmoothIntervals keeps the gradient of its input

---
 yuca/activations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index 43c813a..90d94c3 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -59,7 +59,8 @@ class SmoothIntervals(nn.Module):
 
     def forward(self, x):
 
-        x = torch.tensor(x)
+        if type(x) is not torch.Tensor:
+            x = torch.tensor(x)
         result = torch.zeros_like(x)
 
         for bounds in self.intervals:
-- 
2.43.0


From 540ca423a684112ab9290c5fed47ecb51a387d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 40/54] fix: plot update rules with an identity function

---
 yuca/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/plot.py b/yuca/plot.py
index 4320284..36eac2e 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -37,9 +37,10 @@ def plot_exp(**kwargs):
                 cca.genesis_fns, cca.persistence_fns):
 
             x = np.arange(-0.1, 1.1, 0.0001)
+            x_tensor = torch.tensor(x)
 
-            y_gen = genesis_fn(x).detach().numpy()
-            y_per = persistence_fn(x).detach().numpy()
+            y_gen = genesis_fn(x_tensor).detach().numpy()
+            y_per = persistence_fn(x_tensor).detach().numpy()
 
             plt.figure()
             plt.title(f"End params {ii} update rules")
-- 
2.43.0


From fcdc8439264ce00472039100852f0de6768b3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 41/54] fix: prep_input keeps all channels of the image when no
 number is given

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index b5a3e2c..6f1bd6b 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -67,7 +67,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From bfff859734bbb1f207e37b41645ad1935daa4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 42/54] fix: the log of a seed does not contain the generations
 of the seeds before it

---
 yuca/cmaes.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 83c4090..b864520 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -430,16 +430,6 @@ class CMAES():
 
         t0 = time.time()
 
-        progress = {}
-        progress["elite_params"] = []
-        progress["elite_configs"] = []
-        progress["mean_fitness"] = []
-        progress["max_fitness"] = []
-        progress["min_fitness"] = []
-        progress["std_dev_fitness"] = []
-        progress["kwargs"] = self.kwargs
-        progress["distribution"] = []
-
         print(f"begin evolution with:\n" \
                 f"selection mode {self.selection_mode} " \
                 f"prediction motivator mode {self.prediction_mode}")
@@ -449,6 +439,17 @@ class CMAES():
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
+            # each seed has a log of its own
+            progress = {}
+            progress["elite_params"] = []
+            progress["elite_configs"] = []
+            progress["mean_fitness"] = []
+            progress["max_fitness"] = []
+            progress["min_fitness"] = []
+            progress["std_dev_fitness"] = []
+            progress["kwargs"] = self.kwargs
+            progress["distribution"] = []
+
             seed_all(my_seed)
             self.reset()
             self.initialize_population()
-- 
2.43.0


From 251ddf484141b45a6502fbb97c3dfb098cc3b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 43/54] fix: a run does not start with the elites of the seed
 before it

---
 yuca/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index b864520..3220006 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -113,6 +113,8 @@ class CMAES():
 
                 print(params_msg)
                 
+        # elites the first population of each run starts with
+        self.starting_elite_params = self.elite_params
 
     def sample_distribution(self):
 
@@ -122,6 +124,7 @@ class CMAES():
 
         self.means = 1.0 * self.starting_means
         self.covar = 1.0 * self.starting_covar
+        self.elite_params = self.starting_elite_params
         self.population = []
         self.initialize_population()
 
-- 
2.43.0


From 11747720281524d5fab8665c0690a16c055c35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 44/54] fix: the closing animations of a search show its elites

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 3220006..b6225ed 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -585,7 +585,7 @@ class CMAES():
 
             if "pattern" not in self.exp_id:
                 for elite_idx in range(self.elite_keep):
-                    self.env.ca.set_params(self.population[elite_idx].get_params())
+                    self.env.ca.set_params(self.elite_params[elite_idx])
                     tag = f"{self.exp_id}_seed{my_seed}_"\
                             f"immode{self.prediction_mode}" 
                     tag = [tag, f"gen{generation}"]
-- 
2.43.0


From eaecf773cf3e6332a6f62edc3c54cffee6f32e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 45/54] fix: the scored run of the halting environment depended
 on the training runs before it

The CA was not reset before the scored run, so a momentum CA began it with
the rate of the last training run and an adaptive CA with its step size.
---
 yuca/wrappers/halting_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index b99b7fd..85965d3 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -279,6 +279,8 @@ class HaltingWrapper(nn.Module):
             self.optimizer.step()
 
         self.eval()
+        # the scored run does not depend on the training runs
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim, device=self.my_device)
-- 
2.43.0


From 2b73e9c449432d01d7692e71581c584a10fba55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 46/54] fix: animations of a search continued the momentum and
 step size of the run before them

---
 yuca/cmaes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index b6225ed..03f4043 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -347,6 +347,8 @@ class CMAES():
             starting_grid[:,:, :, -half:] *= 0
 
         #self.env.ca.set_params(self.population[0].get_params())
+        # an animation does not continue the run before it
+        self.env.ca.reset()
         grid = self.env.ca(starting_grid.to(self.env.ca.my_device)).to("cpu")
         restore_device = torch.device(self.env.ca.my_device).type
         restore_index = torch.device(self.env.ca.my_device).index
@@ -711,6 +713,8 @@ class CMACES(CMAES):
             rule_action, pattern_action = self.population[elite_idx].get_action()
             self.env.ca.set_params(rule_action)
 
+            self.env.ca.reset()
+
             effective_steps = min([self.ca_steps, 512])
 
             #tag = [tag, f"gen{self.generation}"]
-- 
2.43.0


From ca7724dfff350ae24ee7560085823a362ca982cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 47/54] fix: the recorded command line separated values
 containing a hyphen from their options

---
 yuca/evolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/evolve.py b/yuca/evolve.py
index 8cc512a..b512aa0 100644
--- a/yuca/evolve.py
+++ b/yuca/evolve.py
@@ -236,7 +236,7 @@ if __name__ == "__main__":
     sorted_args = []
     for aa in range(0, len(args_list)):
 
-        if "-" in args_list[aa]:
+        if args_list[aa].startswith("-"):
             sorted_args.append([args_list[aa]])
         else: 
             sorted_args[-1].append(args_list[aa])
-- 
2.43.0


From 1e2922ab938ae25b584fd0ee36839a213e7a06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 48/54] fix: the notebook helper's intervals of Life-like rules
 missed neighbor counts above three

---
 notebooks/my_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/my_helpers.py b/notebooks/my_helpers.py
index f756560..4d0bf43 100644
--- a/notebooks/my_helpers.py
+++ b/notebooks/my_helpers.py
@@ -238,7 +238,7 @@ def get_smooth_interval(rules_list):
     each converted in turn.
     """
 
-    b = [[(2*bb-1)/18., (2*bb+1)/18.] for bb in rules_list]
+    b = [[(2*bb-1)/16., (2*bb+1)/16.] for bb in rules_list]
 
     return b
 
-- 
2.43.0


From 91be6e93176f2e6826bb420a7a925f5d22e83346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 49/54] fix: get_kernel of the notebook helpers ignored the
 kernel function it was given

---
 notebooks/my_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/my_helpers.py b/notebooks/my_helpers.py
index 4d0bf43..0089aa8 100644
--- a/notebooks/my_helpers.py
+++ b/notebooks/my_helpers.py
@@ -269,7 +269,7 @@ def get_kernel(kernel_fn, kernel_args, radius=13):
     rr = np.sqrt([[((xx - radius)**2 + (yy - radius)**2) 
             for xx in range(radius_x2+1)] for yy in range(radius_x2+1)]) / radius
     
-    kernel = gaussian(rr, **kernel_args)
+    kernel = kernel_fn(rr, **kernel_args)
     
     return kernel / np.sum(kernel)
 
-- 
2.43.0


From 22a176d7f9996465dd10447795b447a86019563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 50/54] fix: make_gif showed the first frame twice and removed
 files by an unquoted shell pattern

---
 notebooks/my_helpers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/notebooks/my_helpers.py b/notebooks/my_helpers.py
index 0089aa8..b973ada 100644
--- a/notebooks/my_helpers.py
+++ b/notebooks/my_helpers.py
@@ -206,12 +206,14 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     dir_list = os.listdir(frames_path)
 
     frames = []
+    image_paths = []
 
     dir_list.sort()
     for filename in dir_list:
-        if "png" in filename:
+        if filename.endswith(".png"):
 
             image_path = os.path.join(frames_path, filename)
+            image_paths.append(image_path)
             frames.append(Image.open(image_path))
 
     assert len(frames) > 1, "no frames to make gif"
@@ -222,12 +224,11 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-    first_frame.save(gif_path, format="GIF", append_images=frames, \
+    first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=200, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for image_path in image_paths:
+        os.remove(image_path)
 
 
 
-- 
2.43.0


From 306c68f9a9350785650bd3c0a7531f6dbdaf5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 51/54] fix: the notebook helpers' plots failed on current
 matplotlib, where font options are keyword arguments

---
 notebooks/my_helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/notebooks/my_helpers.py b/notebooks/my_helpers.py
index b973ada..5fe8512 100644
--- a/notebooks/my_helpers.py
+++ b/notebooks/my_helpers.py
@@ -64,7 +64,7 @@ def plot_kernel_growth(kernel, growth_fn, my_cmap=plt.get_cmap("magma"), \
     subplot_b = ax[0].imshow(my_colorbar) #ax[0].imshow(my_colorbar)
 
     ax[0].set_yticks([1023, 511, 0])
-    ax[0].set_yticklabels([0., f"{vmax*0.5:.2e}", f"{vmax:.2e}"], {"fontsize": 6})
+    ax[0].set_yticklabels([0., f"{vmax*0.5:.2e}", f"{vmax:.2e}"], fontdict={"fontsize": 6})
     ax[0].set_xticklabels("")
     #ax[0].set_yticklabels("")
 
@@ -78,12 +78,12 @@ def plot_kernel_growth(kernel, growth_fn, my_cmap=plt.get_cmap("magma"), \
     subplot_c = ax_twin.plot(x, growth_fn(x), lw=1, color=my_line_color, \
             label="$G_{growth}(\cdot)$")
     ax_twin.set_yticks([-1.0, 0.0, 1.0])
-    ax_twin.set_yticklabels([-1.0, 0.0, 1.0], {"fontsize": 6})
+    ax_twin.set_yticklabels([-1.0, 0.0, 1.0], fontdict={"fontsize": 6})
 
     ax[2].set_yticklabels("")
 
     ax[2].set_xticks([0.0, 1.0])
-    ax[2].set_xticklabels([0.0, 1.0], {"fontsize": 6})
+    ax[2].set_xticklabels([0.0, 1.0], fontdict={"fontsize": 6})
     ax[2].set_title(titles[1], fontsize=8)
     
     ax_twin.legend(fontsize=6)    
@@ -108,7 +108,7 @@ def plot_kernel_genper(kernel, genesis_fn, persistence_fn, show_combined=False,
     subplot_b = ax[0].imshow(my_colorbar)
 
     ax[0].set_yticks([1023, 511, 0])
-    ax[0].set_yticklabels([0., f"{vmax*0.5:.2e}", f"{vmax:.2e}"], {"fontsize": 6})
+    ax[0].set_yticklabels([0., f"{vmax*0.5:.2e}", f"{vmax:.2e}"], fontdict={"fontsize": 6})
     ax[0].set_xticklabels("")
 
     kernel = kernel / kernel.max()
@@ -148,12 +148,12 @@ def plot_kernel_genper(kernel, genesis_fn, persistence_fn, show_combined=False,
         ax_twin.plot(x1, persistence_fn(x1), "-", lw=1, color=line_color_1, alpha=0.7, label="$P(\cdot)$")
 
     ax_twin.set_yticks([-1.0, 0.0, 1.0])
-    ax_twin.set_yticklabels([-1.0, 0.0, 1.0], {"fontsize": 6})
+    ax_twin.set_yticklabels([-1.0, 0.0, 1.0], fontdict={"fontsize": 6})
 
     ax[2].set_yticklabels("")
 
     ax[2].set_xticks([0.0, 1.0])
-    ax[2].set_xticklabels([0.0, 1.0], {"fontsize": 6})
+    ax[2].set_xticklabels([0.0, 1.0], fontdict={"fontsize": 6})
     ax[2].set_title(titles[1], fontsize=8)
 
 
-- 
2.43.0


From d6412fabae34aa6a0934d13a0dd083572f5a8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 52/54] fix: the bokeh app imported a module that no longer
 exists

---
 gecco_bokeh_app/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index eadabaa..c978931 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -8,7 +8,7 @@ import torch
 import torch.nn as nn
 import torch.nn.functional as F
 
-from yuca.multiverse import CA
+from yuca.ca.continuous import CCA
 from yuca.zoo.librarian import Librarian
 from yuca.cppn import CPPN
 
@@ -36,7 +36,7 @@ grid = torch.zeros(1,1,96, 96)
 
 # instantiate librarian (zoo manager) and ca (simulator)
 lib = Librarian()
-ca = CA() 
+ca = CCA() 
 ca.no_grad()
 
 pattern_index = lib.index
-- 
2.43.0


From 9fed19d04e2fc69e420516df48f20661ff391c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:24 +0000
Subject: [PATCH 53/54] fix: the bokeh app's step count did not start over with
 a new pattern

---
 gecco_bokeh_app/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index c978931..d30b683 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -131,6 +131,7 @@ def reset_this_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
@@ -175,6 +176,7 @@ def reset_next_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
@@ -218,6 +220,7 @@ def reset_prev_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
-- 
2.43.0


From 2ca95096017969ac7edfc562f8583cb8e48c262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:37 +0000
Subject: [PATCH 54/54] fix: the bokeh app failed on library patterns stored as
 plain two-dimensional arrays

---
 gecco_bokeh_app/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index d30b683..33fafc2 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -50,7 +50,7 @@ place_h = (grid.shape[-2] - pattern.shape[-2]) // 2 - 3
 place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
 grid[:,:, place_h:place_h+pattern.shape[-2], place_w:place_w+pattern.shape[-1]] = \
-        torch.tensor(pattern[:,:,:,:])
+        torch.tensor(pattern)
 
 ca.restore_config(rule_string)
 
@@ -152,7 +152,7 @@ def reset_this_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
@@ -195,7 +195,7 @@ def reset_next_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     lib.index.append(temp_pattern_name)
 
@@ -241,7 +241,7 @@ def reset_prev_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     lib.index.append(temp_pattern_name)
             
-- 
2.43.0

