From b8c28db7f1b13a493e4254c67aab83ebf7e786b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 01/68] fix: store a copy of the initial ensemble in the
 position history

---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From 4e8d887ab31cd96f307282e7fbd41241261a03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 02/68] fix: do not append built-in trackers to the caller's
 extra_tracks list

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..0094300 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From e7fc5f67e390946ceb4c7c78e5a4dc1ef539305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 03/68] fix: keep the tracking configuration when a dynamic is
 reset

---
 cbx/dynamics/pdyn.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 0094300..ad72f33 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -466,12 +466,15 @@ class ParticleDynamic:
         Initialize the history dictionary and initialize the specified tracking keys.
 
         Parameters:
-            None
+            track_args (dict, optional): The tracking configuration. If None, the configuration
+                of the previous call (if any) is reused, so that a reset keeps it.
 
         Returns:
             None
         """
-        track_args = track_args if track_args else {}  
+        if track_args is not None:
+            self.track_args = track_args
+        track_args = self.track_args if getattr(self, 'track_args', None) else {}
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
-- 
2.43.0


From 196f02d321ef488338054863bad0ddeb5ed008b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 04/68] fix: Heaviside corrections for batches, subsets of
 active runs and multi-axis particles

---
 cbx/correction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..fbb8943 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,12 +73,13 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        # update number of function evaluations, only active runs have a consensus
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * np.where(z > 0, 1,0)[(...,) + (None,) * (x.ndim - 2)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +92,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[(...,) + (None,) * (x.ndim - 2)]
     
 
-- 
2.43.0


From 5ea5c8549bf7db34a5e6674c09b1516b948bdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 05/68] fix: energy stagnation criterion for several runs,
 polar consensus and terminated subsets

---
 cbx/utils/termination.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..0400e8f 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -120,11 +120,11 @@ class energy_stagnation_term:
             self.losses = np.full((self.patience, dyn.M), np.inf)
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
+        # eval loss, the consensus only contains the runs that are still active
+        E = dyn.to_numpy(dyn.f(dyn.consensus))
+        dyn.num_f_eval[dyn.active_runs_idx] += E.shape[1]
         # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 71579896e567b244377c915f6010b266f24c12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 06/68] fix: evaluate the stagnation criterion once per step so
 that a run can be resumed

---
 cbx/utils/termination.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 0400e8f..ba7b959 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -113,6 +113,7 @@ class energy_stagnation_term:
     def __init__(self, patience=20, std_thresh=1e-9):
         self.patience = patience
         self.losses = None
+        self.last_it = None
         self.std_thresh = std_thresh
         
     def __call__(self, dyn):
@@ -120,11 +121,13 @@ class energy_stagnation_term:
             self.losses = np.full((self.patience, dyn.M), np.inf)
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss, the consensus only contains the runs that are still active
-        E = dyn.to_numpy(dyn.f(dyn.consensus))
-        dyn.num_f_eval[dyn.active_runs_idx] += E.shape[1]
-        # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
+        if dyn.it != self.last_it: # the consensus only changes with a new step
+            # eval loss, the consensus only contains the runs that were active in this step
+            E = dyn.to_numpy(dyn.f(dyn.consensus))
+            dyn.num_f_eval[dyn.active_runs_idx] += E.shape[1]
+            # update losses
+            self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
+            self.last_it = dyn.it
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From b122b363c038a370b886ae3a72c0d4a689db6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 07/68] fix: CBOMemory for batches and subsets of active runs,
 best particle taken from the memory

---
 cbx/dynamics/cbo_memory.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..847fc02 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -104,11 +104,12 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
-        self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
+        energy_old = self.energy[self.particle_idx]
+        self.y[self.particle_idx] = np.where(
+            (energy_old > energy_new)[self.ergexp],
+            self.x[self.particle_idx], self.y[self.particle_idx]
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +125,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
@@ -132,6 +133,7 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From c633e4e4104e92356a6bedced422e00f5f5bbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 08/68] fix: CBOMemory stores its own copy of the initial
 energies

---
 cbx/dynamics/cbo_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 847fc02..ee81c20 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
-- 
2.43.0


From 72f6161d2de7ae22aa91717bc230a862ad60be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 09/68] fix: swarm particles are pulled toward the consensus
 and their memory

---
 cbx/dynamics/pso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..8e84b0c 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From f7f3f4d040cc0b708259e037d57e17b5f9c603f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 10/68] fix: PSO for batches and subsets of active runs, best
 particle taken from the memory

---
 cbx/dynamics/pso.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e84b0c..9cc8c5b 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -135,14 +135,21 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind])
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        energy_old = self.energy[ind]
+        self.y[ind] = np.where(
+            (energy_old > energy_new)[energy_expand],
+            self.x[ind], self.y[ind]
+        )
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
+    def update_best_cur_particle(self,) -> None:
+        super().update_best_cur_particle()
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         
     def compute_consensus(self, x_batch, energy) -> None:
         r"""Computes the consensus point as a weighted mean over the historical-best positions.
-- 
2.43.0


From a5e2f96c93706993b5eb3bc528e4f535baff2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 11/68] fix: evaluation budget of memory dynamics that move all
 particles per batch

---
 cbx/dynamics/cbo_memory.py | 4 ++++
 cbx/dynamics/pdyn.py       | 6 ++++++
 cbx/dynamics/pso.py        | 4 ++++
 cbx/utils/termination.py   | 2 +-
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index ee81c20..62b5bbf 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -129,6 +129,10 @@ class CBOMemory(CBO):
             self.alpha[self.active_runs_idx, :]
         )
     
+    def evals_per_step(self,):
+        # the objective is evaluated on all particles that moved
+        return self.batch_size if self.batch_partial else self.N
+
     def update_best_cur_particle(self,) -> None:
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index ad72f33..7c2048f 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -936,6 +936,12 @@ class CBXDynamic(ParticleDynamic):
         self.init_history()
         self.t = 0.
 
+    def evals_per_step(self,):
+        """
+        The number of particles per run on which the objective is evaluated in one step.
+        """
+        return self.batch_size
+
     def eval_f(self, x):
         self.num_f_eval[self.active_runs_idx] += x.shape[1] # update number of function evaluations
         return self.f(x)
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 9cc8c5b..1ba4258 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -146,6 +146,10 @@ class PSO(CBXDynamic):
         )
         self.energy[ind] = np.minimum(energy_old, energy_new)
 
+    def evals_per_step(self,):
+        # the objective is evaluated on all particles that moved
+        return self.batch_size if self.batch_partial else self.N
+
     def update_best_cur_particle(self,) -> None:
         super().update_best_cur_particle()
         # the energies belong to the historical best positions
diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index ba7b959..7e22e6a 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -51,7 +51,7 @@ class max_eval_term:
         self.max_eval = max_eval
     
     def __call__(self, dyn):
-        estimated_eval = dyn.batch_size
+        estimated_eval = dyn.evals_per_step()
         return (dyn.num_f_eval + estimated_eval) > self.max_eval
     
 term_dict.update(
-- 
2.43.0


From 12e68706fa8cbf2de2071e6c8ecda7d66b89b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 12/68] fix: drift-constrained dynamic without constraints
 performs the plain consensus step

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From c14e0a7539defca868855930a6edf28f1d6557d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 13/68] fix: constrained dynamics only move the selected
 particles of active runs

---
 cbx/dynamics/driftconstrainedcbo.py |  9 +++++----
 cbx/dynamics/hypersurfacecbo.py     | 23 ++++++++++++-----------
 cbx/dynamics/regcombinationcbo.py   | 11 ++++++-----
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6a4b1ad 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,30 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-        x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        x_tilde = drift_and_noise - self.noise_constr(x)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
-    def noise_constr_iso(self,):
+    def noise_constr_iso(self, x):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
-    def noise_constr_aniso(self,):
+    def noise_constr_aniso(self, x):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From a3c6e2f28bac924ab8b86c5bd3b184c16ea58fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 14/68] fix: hypersurface dynamic drifts toward the consensus
 with rate lamda on every surface

---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 6a4b1ad..8565214 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -133,7 +133,7 @@ class HyperSurfaceCBO(CBO):
             x + 
             self.sdf.proj_tangent_space(
                 x, 
-                self.dt * self.consensus + 
+                -self.lamda * self.dt * self.drift + 
                 self.sigma * self.noise())
         )
         
-- 
2.43.0


From 2d11a8a9d1adbec613a3128aef69b9f61bf6fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 15/68] fix: curvature correction of anisotropic noise on the
 sphere and the plane

---
 cbx/dynamics/hypersurfacecbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 8565214..95f587c 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -152,8 +152,10 @@ class HyperSurfaceCBO(CBO):
         )
     
     def noise_constr_aniso(self, x):
+        if isinstance(self.sdf, planeDistance): # no curvature
+            return 0
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            2 * ((self.drift * x)**2).sum(axis=-1, keepdims=True)
             ) * x
\ No newline at end of file
-- 
2.43.0


From 0dd492bd1478acbe1ee855bde735a6ca2d963c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 16/68] fix: independent noise of the drift-constrained dynamic
 for subsets of active runs and seeds

---
 cbx/dynamics/driftconstrainedcbo.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..15493a7 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -47,20 +47,32 @@ class DriftConstrainedCBO(CBO):
         self.sigma_indep = sigma_indep
         
         
-    def inner_step(self,):
+    def pre_step(self,):
+        # perturb before the positions are saved, since the energies 
+        # of this step belong to the perturbed positions
         self.indep_noise_step()
+        super().pre_step()
+        
+    def inner_step(self,):
         dc_inner_step(self)
+        # runs that the rows of the consensus belong to
+        self.consensus_runs_idx = self.active_runs_idx
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
+            runs, _, row = np.intersect1d(
+                self.active_runs_idx, self.consensus_runs_idx, 
+                return_indices=True
+            )
+            consensus = self.consensus[row, ...]
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                cxd = (np.linalg.norm(self.x[runs, ...] - consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = runs[np.where(cxd < self.eps_indep)[0]]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=((len(idx),) + tuple(self.x.shape[1:])))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-                )
\ No newline at end of file
+                )
-- 
2.43.0


From 9d704d0c86649bdf1b9b8ca95370dce4a1704570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 17/68] fix: initialise the run indices of the
 drift-constrained consensus

---
 cbx/dynamics/driftconstrainedcbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index 15493a7..e33de18 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -45,6 +45,7 @@ class DriftConstrainedCBO(CBO):
         self.eps = eps
         self.eps_indep = eps_indep
         self.sigma_indep = sigma_indep
+        self.consensus_runs_idx = self.active_runs_idx
         
         
     def pre_step(self,):
-- 
2.43.0


From ac378a91a5923fb3a2350c5b0770bd8979b94d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 18/68] fix: evaluating a regularised objective does not freeze
 the shape of its weight

---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..aa83c4c 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,7 +75,6 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
         return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
@@ -124,6 +123,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From d7daf6a3a73927962394b4b6c6ed246d816e6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 19/68] fix: underflow in the weighted mean constraint
 violation

---
 cbx/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index aa83c4c..2e752ed 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -91,7 +91,8 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    E = -dyn.alpha * dyn.eval_f(dyn.x)
+    E = np.exp(E - E.max(axis=-1, keepdims=True)) # avoid underflow of all weights
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
-- 
2.43.0


From e8e02aba1fba3549a408c34d9444d45b108721ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 20/68] fix: theta of the regularization scheduler never
 exceeds theta_max

---
 cbx/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 2e752ed..b866885 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -128,8 +128,8 @@ class regularization_paramter_scheduler(param_update):
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-        self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
-                                 a_max= self.theta_max, a_min=None)
+        self.theta[~t] /= self.factor_theta
+        self.theta = np.clip(self.theta, a_max=self.theta_max, a_min=None)
         dyn.f.lamda[~t] *= self.factor_lamda
         dyn.f.lamda = np.clip(dyn.f.lamda, a_max=self.lamda_max, a_min=0)
             
-- 
2.43.0


From 08bd166b33fa703e70bfad993206714c30cb21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 21/68] fix: derivatives of quadric constraints with
 non-symmetric matrix, default linear term

---
 cbx/constraints.py  | 5 +++--
 cbx/regularizers.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 6a2ce4b..2c01cbe 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -118,8 +118,9 @@ class NoConstraint(Constraint):
     
 class quadricConstraint(Constraint):
     def __init__(self, A = None, b = None, c = 0):
-        self.A = A
-        self.b = b
+        # only the symmetric part of A enters the quadratic form and its derivatives
+        self.A = 0.5 * (A + np.moveaxis(A, -1, -2))
+        self.b = 0. if b is None else b
         self.c = c
         
     def __call__(self, x):
diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index b866885..ecabc42 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -36,7 +36,7 @@ class SphereDistance:
 class QuadricDistance:
     def __init__(self, A = None, b = None, c = 0):
         self.A = A
-        self.b = b
+        self.b = 0. if b is None else b
         self.c = c
         
     def __call__(self, x):
-- 
2.43.0


From 0a957c0fbb13fb0ce563f84f053df1bf57f50bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 22/68] fix: projection onto the square of radius r

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..42c4400 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = np.where(y[np.arange(y.shape[0]), idx] < 0, -self.r, self.r)
         return y.reshape(s)
 
 
-- 
2.43.0


From 0d2ec7d141145bb5078e5aaa344e3c31702bfa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 23/68] fix: conjugate gradient of the log barrier at and near
 zero

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 42c4400..196d3fb 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -125,7 +125,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From 40fe73fd008915e17bacbe19ed8f615b0de36c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 24/68] fix: overflow in the simplex mirror map

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 196d3fb..a245658 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -138,7 +138,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        e = np.exp(y - y.max(axis=-1, keepdims=True)) # avoid overflow
+        return e/e.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From e83745aaa348fb545232836f70419be2bb84f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 25/68] fix: the entropy mirror map is the convex negative
 entropy

---
 cbx/dynamics/mirrorcbo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index a245658..5120b98 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -227,14 +227,15 @@ class Entropy(MirrorMap):
        self.scale = scale
 
    def __call__(self, x):
-       return np.sum(x*np.log(1/x), axis = -1)
+       EPS = np.finfo(np.float32).eps
+       return np.sum(x*np.log(x + EPS), axis = -1)
    
    def grad(self, x):
        EPS = np.finfo(np.float32).eps
-       return np.log(1/(x + EPS)) - 1
+       return np.log(x + EPS) + 1
    
    def grad_conj(self, y):
-       return np.exp(-(y + 1))   
+       return np.exp(y - 1)
     
     
 mirror_dict = {
-- 
2.43.0


From 7754abed330128aa7bd42b09e5be0a8b45e39cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 26/68] fix: the indicator of a projection ball respects its
 center

---
 cbx/dynamics/mirrorcbo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 5120b98..e062890 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -60,9 +60,10 @@ class ProjectionBall(ProjectionMirrorMap):
         self.thresh = 1e-5
         
     def __call__(self, theta):
-        nx = np.linalg.norm(theta, axis=-1)
-        idx = np.where(nx > (self.radius + self.thresh))
-        nx = 0.5*nx**2 
+        idx = np.where(
+            np.linalg.norm(theta - self.center, axis=-1) > (self.radius + self.thresh)
+        )
+        nx = 0.5*np.linalg.norm(theta, axis=-1)**2 
         nx[idx] = np.inf
         return nx
     
-- 
2.43.0


From ac31f529006b9da8a7913e5df6cb83b6408776c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 27/68] fix: projection onto the default hyperplane

---
 cbx/dynamics/mirrorcbo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index e062890..121de0a 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -78,11 +78,12 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         if a is None:
             a = np.ones((1,1,1))
         self.a = a
-        self.norm_a = np.linalg.norm(a, axis=-1)**2
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones_like(y) # the normal might be given as a single number per particle
+        norm_a = (a**2).sum(axis=-1, keepdims=True)
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/norm_a * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From 8404c6f0d0bc08422c83793f7dfa0f8bb9356091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 28/68] fix: the nonsmooth barrier returns one value per
 particle

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 121de0a..737e466 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -189,7 +189,7 @@ class weighted_L2(MirrorMap):
     
 class NonsmoothBarrier(MirrorMap):
     def __call__(self, theta):
-        return np.sum(np.abs(theta)/(1-np.abs(theta)))
+        return np.sum(np.abs(theta)/(1-np.abs(theta)), axis=-1)
     
     def grad(self, theta):        
         return np.sign(theta)/(1 + np.abs(theta)**2 - 2*np.abs(theta))
-- 
2.43.0


From be2262aa7f089cf1c0d1ba8dbbac355b488ccd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 29/68] fix: Hessian of the quadratic mirror map with weight

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 737e466..3aed3da 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -160,7 +160,7 @@ class L2(MirrorMap):
     
     def hessian(self, theta):
         n,m = theta.shape
-        return np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
+        return self.lamda * np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
    
     
    
-- 
2.43.0


From 6680a7d8d92604b1497e56706eb2285754d4dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 30/68] fix: the sphere projection of the origin is a point of
 the sphere

---
 cbx/dynamics/mirrorcbo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 3aed3da..470abb4 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -91,6 +91,8 @@ class ProjectionSphere(ProjectionMirrorMap):
         self.r = r
         
     def grad_conj(self, y):
+        n_y = np.linalg.norm(y,axis=-1,keepdims=True)
+        y = np.where(n_y > 0, y, 1.) # every point is a projection of the origin
         return self.r * y/np.linalg.norm(y,axis=-1,keepdims=True)
     
 class ProjectionSquare(ProjectionMirrorMap):
-- 
2.43.0


From 0910288f982036d955fba160427a949f2a8bf065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 31/68] fix: mirror maps leave terminated runs unchanged

---
 cbx/dynamics/mirrorcbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 470abb4..9c12f18 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -14,7 +14,7 @@ def Bregman_distance(F, p, q):
 
 def MirrorMaptoPostProcessProx(MirrorMap):
     def apply_prox(self, dyn):
-       dyn.x = self.grad_conj(dyn.x)
+       dyn.x[dyn.active_runs_idx] = self.grad_conj(dyn.x[dyn.active_runs_idx])
         
     return type(MirrorMap.__name__ + str('_Prox'), 
          (MirrorMap,), 
@@ -296,7 +296,7 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    self.x[self.active_runs_idx] = self.mirrormap.grad_conj(self.y[self.active_runs_idx])
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
-- 
2.43.0


From 1c4fbe3e6ab3705064a91a7fe97847b6afc4923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 32/68] fix: the Taz kernel scales every run by its own largest
 distance

---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..b735b6c 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,9 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # scale by the largest distance within each run
+        dists_max = np.max(dists, axis=tuple(range(max(dists.ndim - 2, 0), dists.ndim)), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) * dists/np.where(dists_max > 0, dists_max, 1.)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From e83fce019038c46be8fd0a21bf4e73a8bf4b2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 33/68] fix: kernels for particles with more than one axis

---
 cbx/dynamics/polarcbo.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index b735b6c..7d85273 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -7,6 +7,13 @@ from .pdyn import compute_mat_sqrt
 from .cbo import CBO
 
 #%% Kernel for PolarCBO
+def distance(x, y):
+    """Euclidean distance of particles, which might have more than one axis"""
+    diff = x - y
+    if diff.ndim > 4:
+        diff = diff.reshape(diff.shape[:3] + (-1,))
+    return np.linalg.norm(diff, axis=-1)
+
 class kernel:
     """Base class for kernels
     
@@ -92,12 +99,12 @@ class Laplace_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = distance(x, y)
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.exp(-np.true_divide(1, self.kappa) * dists)
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = distance(x, y)
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.true_divide(1, self.kappa) * dists
         
@@ -106,13 +113,13 @@ class Constant_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = distance(x, y)
         dists = dists / self.kappa
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.exp(-dists**np.inf)
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = distance(x, y)
         dists = dists / self.kappa
         with np.errstate(divide='ignore', invalid='ignore'):
             return dists**np.inf
@@ -122,11 +129,11 @@ class InverseQuadratic_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.true_divide(1, self.kappa) * np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = np.true_divide(1, self.kappa) * distance(x, y)
         return 1/(1+dists**2)
     
     def neg_log(self, x,y):
-        dists = np.true_divide(1, self.kappa) * np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = np.true_divide(1, self.kappa) * distance(x, y)
         return -np.log(1/(1+dists**2))
     
 class Taz_kernel(kernel):
@@ -137,7 +144,7 @@ class Taz_kernel(kernel):
         return np.exp(-self.neg_log(x,y))
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = distance(x, y)
         # scale by the largest distance within each run
         dists_max = np.max(dists, axis=tuple(range(max(dists.ndim - 2, 0), dists.ndim)), keepdims=True)
         dists =  np.true_divide(1, self.kappa) * dists/np.where(dists_max > 0, dists_max, 1.)
-- 
2.43.0


From 23fd7cb347e999cf0833d50caa7f61ee745783b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 34/68] fix: PolarCBO with batches that move all particles

---
 cbx/dynamics/polarcbo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 7d85273..da576d0 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -248,7 +248,10 @@ class PolarCBO(CBO):
     def compute_consensus(self,):
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
-        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
+        # every particle that is moved needs its own consensus
+        self.neg_log_eval = self.kernel.neg_log(
+            x[:,None,...], self.x[self.particle_idx][:,:,None,...]
+        )
         
         
         
-- 
2.43.0


From 884b7572b9a488089425020dd3c7628b855bd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 35/68] fix: covariance noise for batches and subsets of active
 runs

---
 cbx/dynamics/pdyn.py | 2 +-
 cbx/noise.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7c2048f..19c2e9a 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -902,7 +902,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From 2b176cc04d43d677438a0f15c84d0c0c0804c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 36/68] fix: covariance of the polarized dynamic for several
 runs, localized at every particle

---
 cbx/dynamics/polarcbo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index da576d0..7f5bb11 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -274,10 +274,15 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval 
+            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.consensus_idx][:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
-        D = self.drift[...,None] * self.drift[...,None,:]
+        # deviation of every particle x_j from the consensus c(x_i)
+        diff = self.x[self.consensus_idx][:, None, ...] - self.consensus[:, :, None, ...]
+        D = diff[...,None] * diff[...,None,:]
         D = np.sum(D * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 3e20a2ff9e356085a1607822a8f470e2e43fe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 37/68] fix: default post processing with copy_nan_to_num
 removes NaNs

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 19c2e9a..e546c25 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,8 +39,8 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
-        dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
+        x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.clip(x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
     r"""The base particle dynamic class
-- 
2.43.0


From 04f8b8f223ae83e2f8981e1db43cabe0b2c71cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 38/68] fix: update difference per run for particles with more
 than one axis

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index e546c25..a3a758b 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -922,7 +922,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From 98a46a57a0acb0cb99781da80f92fbca61dfd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 39/68] fix: contour plots with a vertical limit of zero

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..c9b28a4 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From 0a43935c887b0c8d68f2219659576f994ddc498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 40/68] fix: CBS.optimize returns the best particle

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From 3484a203dcd56974b325ea93ae13ac22724255e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 41/68] fix: success evaluation honours its verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..31c5efd 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From c8336b67f417f16b394e997330d94715ac45960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 42/68] fix: minimiser of Bukin's function

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..da1c84e 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
-- 
2.43.0


From c4ada24fc25fa7b929b7229eda47d29b35e8d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 43/68] fix: minimisers of scaled and shifted benchmark
 functions

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index da1c84e..a690f7c 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])/factor
         
     def apply(self, x):
         x = self.factor*x
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])/factor + shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From bfcea94515fc147caa7d21c3af6d381ca947b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 44/68] fix: benchmark functions accept array parameters

---
 cbx/objectives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index a690f7c..512d29e 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -415,8 +415,8 @@ class Rastrigin_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -547,8 +547,8 @@ class Ackley_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
@@ -625,8 +625,8 @@ class Banana(cbx_objective):
 class Bimodal(cbx_objective):
     def __init__(self, a=None, b=None):
         super().__init__()
-        self.a = a if a else [1., 1.5]
-        self.b = b if b else [-1.2, -0.7]
+        self.a = a if a is not None else [1., 1.5]
+        self.b = b if b is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
@@ -639,7 +639,7 @@ class Bimodal(cbx_objective):
 class Unimodal(cbx_objective):
     def __init__(self, a = None):
         super().__init__()
-        self.a = a if a else [-1.2, -0.7]
+        self.a = a if a is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
-- 
2.43.0


From 650d8b2e4e4219225db4b28afaf30576c735ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 45/68] fix: benchmark functions keep singleton axes of the
 ensemble

---
 cbx/objectives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 512d29e..0472f56 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
-- 
2.43.0


From 1644f135532261d10002b8aab74b127b7a67d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 46/68] fix: log densities stay finite far from their modes and
 keep singleton axes

---
 cbx/objectives.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 0472f56..7ae3e94 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -8,6 +8,7 @@ algorithms.
 """
 
 import numpy as np
+from scipy.special import logsumexp
 from scipy.stats import multivariate_normal
 from .utils.objective_handling import cbx_objective
     
@@ -631,8 +632,8 @@ class Bimodal(cbx_objective):
     def apply(self, x):
         a = self.a
         b = self.b         
-        ret = -np.log(np.exp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2)) \
-                      + 0.5*np.exp( -(x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5 ))
+        ret = -np.logaddexp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2),
+                            np.log(0.5) - (x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5)
         return ret
         
 
@@ -643,7 +644,7 @@ class Unimodal(cbx_objective):
     
     def apply(self, x):
         a = self.a
-        ret = -np.log(0.5*np.exp( -(x[...,0]-a[0])**2/8 - (x[...,1]-a[1])**2/0.5 ))
+        ret = -np.log(0.5) + (x[...,0]-a[0])**2/8 + (x[...,1]-a[1])**2/0.5
         
         return ret
     
@@ -655,10 +656,8 @@ class Multimodal(cbx_objective):
         self.mns   = [multivariate_normal(mean=m, cov=c) for m,c in zip(self.means, self.covs)]
         
     def apply(self, x):
-        res = 0
-        for mn in self.mns:
-            res += mn.pdf(x)
-        return -np.log(res)
+        log_pdfs = [np.reshape(mn.logpdf(x), x.shape[:-1]) for mn in self.mns]
+        return -logsumexp(log_pdfs, axis=0)
             
     
 
-- 
2.43.0


From 7945bb39d7ebbdd2001dd0d344e65cac872d4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 47/68] fix: documented minimiser of McCormick's function

---
 cbx/objectives.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 7ae3e94..74ea32c 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -81,8 +81,8 @@ class three_hump_camel(cbx_objective):
 class McCormick(cbx_objective):
     r"""McCormick's function
     
-    McCormick's function is a multimodal function with two global minima at
-    :math:`(-0.54719,-1.54719)` and :math:`(1.54719,0.54719)`. The function is defined as
+    McCormick's function is a multimodal function. On its usual domain :math:`[-1.5,4]\times[-3,4]` the global 
+    minimum is at :math:`(-0.54719,-1.54719)`. The function is defined as
     
 
     .. math::
@@ -131,7 +131,6 @@ class McCormick(cbx_objective):
         cs = ax0.contourf(XX,YY,ZZ, 20, cmap=cm.jet)
         ax0.contour(cs, colors='orange', alpha=0.2)
         ax0.plot(-0.54719,-1.54719, color='orange', marker='x', markersize=10)
-        ax0.plot(1.54719, 0.54719, color='orange', marker='x', markersize=10)
         ax1.plot_surface(XX,YY,ZZ, cmap=cm.jet)
         ax0.set_title('Contour plot')
         ax1.set_title('Surface plot')
-- 
2.43.0


From 98041139f3292c5fa05816b1eb85ccc72e2ff350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 48/68] fix: distance to the minimiser for particles with
 singleton axes

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 31c5efd..32ac813 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm(np.reshape(x_true, (1, -1)) - x.reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From 10a6d48899946b213e923b24d6fae86214a01cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 49/68] fix: distance to the default hyperplane

---
 cbx/regularizers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index ecabc42..1f469a6 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -19,11 +19,12 @@ class L1:
 class HyperplaneDistance:
     def __init__(self, a=1, b=0):
         self.a = a
-        self.norm_a = np.linalg.norm(a)
         self.b = b
     
     def __call__(self, x):
-        return np.abs((self.a*x).sum(axis=-1) - self.b)/self.norm_a
+        # the normal might be given as a single number
+        norm_a = np.linalg.norm(np.broadcast_to(self.a, x.shape[-1:]))
+        return np.abs((self.a*x).sum(axis=-1) - self.b)/norm_a
 
 
 class SphereDistance:
-- 
2.43.0


From 69201f51fe52c1d1e688a232ca56729dd355c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 50/68] fix: the seed determines the initial particles and the
 torch noise

---
 cbx/dynamics/pdyn.py     |  8 +++++---
 cbx/utils/torch_utils.py | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index a3a758b..b4ea0ee 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -173,8 +173,8 @@ class ParticleDynamic:
     def set_array_backend_funs(self, copy, norm, sampler):
         self.copy = copy if copy is not None else np.copy 
         self.norm = norm if norm is not None else np.linalg.norm
-        rng = np.random.default_rng(self.seed)
-        self.sampler = sampler if sampler is not None else rng.standard_normal
+        self.rng = np.random.default_rng(self.seed)
+        self.sampler = sampler if sampler is not None else self.rng.standard_normal
         
     def init_x(self, x, M, N, d):
         """
@@ -208,7 +208,9 @@ class ParticleDynamic:
         
         
     def init_particles(self, shape=None):
-        return np.random.uniform(-1., 1., size=shape)
+        # the initial particles are determined by the seed, if there is one
+        rng = np.random if self.seed is None else self.rng
+        return rng.uniform(-1., 1., size=shape)
 
     def init_f(self, f, f_dim, check_f_dims):
         self.f = _promote_objective(f, f_dim)
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..895b034 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -76,9 +76,9 @@ class post_process_default_torch:
         dyn.x = torch.clamp(dyn.x, min=-self.max_thresh, max=self.max_thresh)
 
 @requires_torch
-def standard_normal_torch(device):
+def standard_normal_torch(device, generator=None):
     def _normal_torch(size=None):
-        return torch.randn(size=size).to(device)
+        return torch.randn(size=size, generator=generator).to(device)
     return _normal_torch
 
 def set_post_process_torch(self, post_process):
@@ -87,10 +87,12 @@ def set_post_process_torch(self, post_process):
 def set_array_backend_funs_torch(self, copy, norm, sampler):
     self.copy = copy if copy is not None else torch.clone
     self.norm = norm if norm is not None else norm_torch
-    self.sampler = sampler if sampler is not None else standard_normal_torch(self.device)
+    # without a seed the global generator is used
+    self.rng = None if self.seed is None else torch.Generator().manual_seed(self.seed)
+    self.sampler = sampler if sampler is not None else standard_normal_torch(self.device, generator=self.rng)
     
 def init_particles(self, shape=None,):
-    return torch.zeros(size=shape).uniform_(-1., 1.)
+    return torch.zeros(size=shape).uniform_(-1., 1., generator=self.rng)
 
 def init_consensus(self, compute_consensus):
     self.consensus = None #consensus point
-- 
2.43.0


From e9aeacda7b7877aab4f6ec63a74996d8ab1a00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 51/68] fix: resampling leaves terminated runs untouched and
 tracks the consensus of the right runs

---
 cbx/utils/resampling.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..1be0042 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        idx = np.intersect1d(idx, dyn.active_runs_idx).astype(int) # terminated runs are not touched
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
@@ -66,20 +67,21 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # the consensus only contains the active runs
+        consensus = dyn.consensus[np.searchsorted(dyn.active_runs_idx, idx), ...]
+        consensus_energy = dyn.to_numpy(dyn.f(consensus))
+        dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(dyn.x[:, 0:1, ...])
+            self.best_consensus[dyn.active_runs_idx, ...] = dyn.copy(dyn.consensus)
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
-            self.best_consensus_energy[idx, ...] = consensus_energy
-        else:
-            idx2 = np.where(
-                consensus_energy < self.best_consensus_energy[idx, ...]
-                )[0]
-            self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
-                )
-            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+            
+        idx2 = np.where(
+            consensus_energy < self.best_consensus_energy[idx, ...]
+            )[0]
+        self.best_consensus[idx[idx2], ...] = dyn.copy(consensus[idx2, ...])
+        self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
 
 class ensemble_update_resampling:
     """
-- 
2.43.0


From 731e693ad9885f58518d45d812572717c07ffb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 52/68] fix: accept numpy numbers for alpha

---
 cbx/dynamics/pdyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index b4ea0ee..b6d6921 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -12,6 +12,7 @@ from cbx.utils.objective_handling import _promote_objective
 from warnings import warn
 
 #%%
+from numbers import Number
 from pprint import pformat
 from typing import Callable, Union, List
 from numpy.typing import ArrayLike
@@ -683,7 +684,7 @@ class CBXDynamic(ParticleDynamic):
         Returns:
             None
         '''
-        if isinstance(alpha, (int, float)):
+        if isinstance(alpha, Number):
             Mslice = tuple([Ellipsis] + [0 for i in range(self.x.ndim-1)])
             self.alpha = self.copy(self.x[Mslice])[:, None]
             self.alpha[:,0] = alpha
-- 
2.43.0


From 70582b978c490d814da2615515e5e80f99ae4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 53/68] fix: bisection keeps the solution of every run once it
 is found

---
 cbx/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..e42e89f 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -204,13 +204,14 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     while not term:
         x = (low + high)/2
         fx = f(x)
+        # update running idx, the interval of a solved run is not changed anymore
+        idx = np.where(np.abs(fx) > thresh)[0]
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
         # update low and high
         low[idx[gtzero]] = x[idx[gtzero]]
         high[idx[ltzero]]  = x[idx[ltzero]]
-        # update running idx and iteration
-        idx = np.where(np.abs(fx) > thresh)[0]
+        # update iteration
         it += 1
         term = (it > max_it) | (len(idx) == 0)
     if verbosity > 0:
-- 
2.43.0


From 7eaca149b3c987b6ccfcad3bda251a8a9f2caeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 54/68] fix: concatenated mini-batches do not contain a
 particle twice

---
 cbx/dynamics/pdyn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index b6d6921..876f29f 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -791,6 +791,11 @@ class CBXDynamic(ParticleDynamic):
             indices = self.batch_rng.permuted(indices, axis=1)
 
             if self.batch_var == 'concat':
+                # left-over particles come last in the new pass, such that no batch contains a particle twice
+                used = np.zeros(indices.shape, dtype=bool)
+                np.put_along_axis(used, self.indices, True, axis=1)
+                used = np.take_along_axis(used, indices, axis=1)
+                indices = np.take_along_axis(indices, np.argsort(used, axis=1, kind='stable'), axis=1)
                 self.indices = np.concatenate((self.indices, indices), axis=1)
             else:
                 self.indices = indices
-- 
2.43.0


From 3343ef790c7dcd18b813a5d5d78af8c331fb9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:16 +0000
Subject: [PATCH 55/68] fix: memory dynamics know the best of their initial
 positions

---
 cbx/dynamics/cbo_memory.py | 4 ++++
 cbx/dynamics/pso.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 62b5bbf..fd004a6 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -65,6 +65,10 @@ class CBOMemory(CBO):
         
         self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
+
+        # the energies of the initial positions are known
+        self.update_best_cur_particle()
+        self.update_best_particle()
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
     def pre_step(self,):
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 1ba4258..aa33aec 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -83,6 +83,10 @@ class PSO(CBXDynamic):
         
         self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
+
+        # the energies of the initial positions are known
+        self.update_best_cur_particle()
+        self.update_best_particle()
         
     def pre_step(self,):
         # save old positions
-- 
2.43.0


From cccdddd77d25b7a6f46558ed9eccce3c25148b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 56/68] fix: consensus_stagnation handles particles with
 several axes

---
 cbx/utils/resampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 1be0042..1bb228f 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -123,11 +123,11 @@ class consensus_stagnation:
         
         if hasattr(self, 'consensus_old'):
             diffs = np.zeros(dyn.M,)
+            diff = dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...]
+            # a norm over several axes would be a matrix norm, therefore they are flattened
             diffs[dyn.active_runs_idx] = dyn.to_numpy(
-                dyn.norm(dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...], 
-                         axis=tuple(-i for i in range(1, dyn.x.ndim-1))
-                        )
-            )[:, 0]
+                dyn.norm(diff.reshape(diff.shape[0], -1), axis=-1)
+            )
             
             self.consensus_updates.append(diffs)
             self.consensus_updates = self.consensus_updates[-self.patience:]
-- 
2.43.0


From f9c469f6f69c4e5658f024700a3c0e05bb3d37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 57/68] fix: objectives of single points may return values of
 different types

---
 cbx/utils/objective_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..0158df6 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,8 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        # the values are collected first, such that the type of the first one does not decide about all
+        return np.array([self.f(y) for y in x.reshape(-1, x.shape[-1])]).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From ad9aa4464aea932659e7930f2c5378ecaadf092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 58/68] fix: documented formulas of Rastrigin's, the
 cross-in-tray and the drop wave function

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 74ea32c..3958d47 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -302,7 +302,7 @@ class Rastrigin(cbx_objective):
     
     .. math::
 
-        f(x,y) = (x^2 + y - 11)^2 + (x + y^2 - 7)^2.
+        f(x,y) = 20 + x^2 - 10 \cos(2 \pi x) + y^2 - 10 \cos(2 \pi y).
 
     See `Rastrigin's function <https://en.wikipedia.org/wiki/Rastrigin_function>`_. 
     For our case we employ a shifted version on :math:`\mathbb{R}^d`, where the global minimum is at
@@ -310,7 +310,7 @@ class Rastrigin(cbx_objective):
 
     .. math::
 
-        \tilde{f}(x,y)  = \frac{1}{n} \sum_{i=1}^n \left[ (x_i - b)^2 - 10 \cos(2 \pi (x_i - b)) + 10 \right] + c.
+        \tilde{f}(x,y)  = \sum_{i=1}^n \left[ (x_i - b)^2 - A \cos(2 \pi (x_i - b)) + A \right] + c.
 
     Parameters
     ----------
@@ -743,7 +743,7 @@ class cross_in_tray(cbx_objective):
     
     .. math::
 
-        f(x,y) = -0.0001 \left( \left| \sin(x) \sin(y) \exp \left( \left| 100 - \frac{\sqrt{x^2 + y^2}}{\pi} \right| \right) + 1 \right| + 1 \right)^0.1,
+        f(x,y) = -0.0001 \left( \left| \sin(x) \sin(y) \exp \left( \left| 100 - \frac{\sqrt{x^2 + y^2}}{\pi} \right| \right) \right| + 1 \right)^{0.1},
 
     see [1]_.
 
@@ -911,7 +911,7 @@ class drop_wave(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = -1` at :math:`(x,y) = (0, 0)`
+    - :math:`f(x,y) = -2` at :math:`(x,y) = (0, 0)`
     
     Examples
     --------
-- 
2.43.0


From 501a0573f765b5887024716680e1774cdd502207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 59/68] fix: Michalewicz' minimiser is only stated for the
 parameter it belongs to

---
 cbx/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 3958d47..1dbb40a 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -1282,7 +1282,7 @@ class Michalewicz(cbx_objective):
         self.d = d
         self.m = m
         
-        if d == 2:
+        if d == 2 and m == 10: # the location depends on the parameters
             self.minima = np.array([[2.2029, 1.5708]])
         else:
             self.minima = None
-- 
2.43.0


From c3524365fb50aa5ba30e6c132a6df135ea2061ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 60/68] fix: documented signature of custom resampling
 functions

---
 cbx/utils/resampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 1bb228f..93f0de9 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -19,7 +19,8 @@ class resampling:
         - ``dyn``: The dynmaic which the resampling is applied to.
         - ``idx``: List of indices that are resampled.
         
-        The function that should be performed on a given dynamic for selected indices. This function has to have the signature apply(dyn,idx).
+        The function that should be performed on a given dynamic for selected indices. This function has to have the signature 
+        ``apply(dyn, idx, sigma_indep=..., var_name=...)``, where the last two are the arguments given below.
     
     """
     def __init__(self,
-- 
2.43.0


From 972ee002bce47998a5f0e19445a540f790c3be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 61/68] fix: mirror maps work with torch tensors

---
 cbx/dynamics/mirrorcbo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9c12f18..da85b82 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -83,7 +83,7 @@ class ProjectionHyperplane(ProjectionMirrorMap):
     def grad_conj(self, y):
         a = self.a * np.ones_like(y) # the normal might be given as a single number per particle
         norm_a = (a**2).sum(axis=-1, keepdims=True)
-        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/norm_a * a
+        return y - ((y * a).sum(axis=-1, keepdims=True) - self.b)/norm_a * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
@@ -92,7 +92,7 @@ class ProjectionSphere(ProjectionMirrorMap):
         
     def grad_conj(self, y):
         n_y = np.linalg.norm(y,axis=-1,keepdims=True)
-        y = np.where(n_y > 0, y, 1.) # every point is a projection of the origin
+        y = y + (n_y == 0) # every point is a projection of the origin
         return self.r * y/np.linalg.norm(y,axis=-1,keepdims=True)
     
 class ProjectionSquare(ProjectionMirrorMap):
@@ -104,7 +104,8 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.where(y[np.arange(y.shape[0]), idx] < 0, -self.r, self.r)
+        sign = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * (sign + (sign == 0))
         return y.reshape(s)
 
 
@@ -142,7 +143,7 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        e = np.exp(y - y.max(axis=-1, keepdims=True)) # avoid overflow
+        e = np.exp(y - np.maximum.reduce(y, axis=-1, keepdims=True)) # avoid overflow
         return e/e.sum(axis=-1, keepdims=True)
     
     
-- 
2.43.0


From b7da9ba4891978468d4f4e64eb21f073454de45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:36 +0000
Subject: [PATCH 62/68] fix: the mean drift can be tracked for torch dynamics

---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 00bf79f..d443124 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -151,7 +151,7 @@ class track_drift_mean(track):
         dyn.history['drift_mean'] = []
     @staticmethod
     def update(dyn) -> None:
-        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=(-2,-1)))
+        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.to_numpy(dyn.drift)), axis=(-2,-1)))
         
 class track_drift(track):
     """
-- 
2.43.0


From f98b092adad83f8a520e2494a93f092841464c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 63/68] fix: consensus weights are not lost for large energies

---
 cbx/dynamics/pdyn.py     |  7 +++++--
 cbx/dynamics/polarcbo.py | 20 ++++++++++++++------
 cbx/scheduler.py         |  2 +-
 cbx/utils/torch_utils.py |  6 ++++--
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 876f29f..1cd6cec 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -586,7 +586,9 @@ class compute_consensus_default:
             self.check_coeffs = self._no_check_coeffs
     
     def __call__(self, energy, x, alpha):
-        weights = - alpha * energy
+        # subtracting the minimum does not change the coefficients, 
+        # but avoids losing them to the rounding of large weights
+        weights = - alpha * (energy - energy.min(axis=-1, keepdims=True))
         coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=-1, keepdims=True))[coeff_expan]
         self.check_coeffs(coeffs)
@@ -910,7 +912,8 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
+        energy = self.energy[self.particle_idx]
+        weights = - self.alpha[self.active_runs_idx, :] * (energy - energy.min(axis=-1, keepdims=True))
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 7f5bb11..e71d051 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -151,9 +151,16 @@ class Taz_kernel(kernel):
         return  dists**2
 
 #%% PolarCBO
-def compute_polar_consensus(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
+def polar_coeffs(energy, neg_log_eval, alpha = 1., kernel_factor = 1.):
+    # subtracting the minimum/maximum does not change the coefficients, 
+    # but avoids losing them to the rounding of large weights
+    energy = energy - energy.min(axis=-1, keepdims=True)
     weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
-    coeffs = np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
+    weights = weights - weights.max(axis=-1, keepdims=True)
+    return np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
+
+def compute_polar_consensus(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
+    coeffs = polar_coeffs(energy, neg_log_eval, alpha=alpha, kernel_factor=kernel_factor)
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     c = np.sum(x[:,None,...] * coeffs[coeff_expan], axis=2)
     return c, energy
@@ -274,11 +281,12 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = (
-            - self.kernel_factor() * self.neg_log_eval 
-            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.consensus_idx][:, None, :]
+        coeffs = polar_coeffs(
+            self.energy[self.consensus_idx], 
+            self.neg_log_eval,
+            alpha = self.alpha[self.active_runs_idx, :, None],
+            kernel_factor = self.kernel_factor()
         )
-        coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         # deviation of every particle x_j from the consensus c(x_i)
         diff = self.x[self.consensus_idx][:, None, ...] - self.consensus[:, :, None, ...]
diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index e42e89f..418a647 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -171,7 +171,7 @@ class eff_sample_size_gap:
     
     def __init__(self, energy, eta):
         self.eta = eta
-        self.energy = energy
+        self.energy = energy - energy.min(axis=-1, keepdims=True) # does not change the gap
         self.N = energy.shape[-1]
     
     def __call__(self, alpha):
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 895b034..0c32222 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -31,14 +31,16 @@ def norm_torch(x, axis, **kwargs):
 
 @requires_torch
 def compute_consensus_torch(energy, x, alpha):
-    weights = - alpha * energy
+    weights = - alpha * (energy - energy.amin(dim=-1, keepdim=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - logsumexp(weights, dim=-1, keepdims=True))[coeff_expan]
     return (x * coeffs).sum(axis=1, keepdims=True), energy.cpu().numpy()
 
 @requires_torch
 def compute_polar_consensus_torch(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
-    weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
+    e = energy - energy.amin(dim=-1, keepdim=True)
+    weights = -kernel_factor * neg_log_eval - alpha * e[:,None,:]
+    weights = weights - weights.amax(dim=-1, keepdim=True)
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - torch.logsumexp(weights, dim=(-1,), keepdims=True))[coeff_expan]
     c = torch.sum(x[:,None,...] * coeffs, axis=2)
-- 
2.43.0


From 01462992e458b9d22c33a644e5afec81249c0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 64/68] fix: initial plot shows drift and consensus at the
 positions they belong to

---
 cbx/plotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index c9b28a4..a76955c 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -124,7 +124,9 @@ class PlotDynamic:
         None
         """
         self.plot_objective()
-        self.init_x(self.dyn.x)
+        # consensus and drift belong to the positions before the last step
+        x = getattr(self.dyn, 'x_old', self.dyn.x)
+        self.init_x(x)
 
         if self.plot_consensus:
             if self.dyn.consensus is None:
@@ -141,7 +143,7 @@ class PlotDynamic:
                 dr = self.dyn.drift
                 pidx = self.dyn.particle_idx
 
-            self.init_drift(self.dyn.x, dr, pidx)
+            self.init_drift(x, dr, pidx)
 
     def plot_objective(self):
         """
-- 
2.43.0


From 55e46479f396ad9f60448daab5183cc37fcc0782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 65/68] fix: drift plots with batches that start before the
 first step

---
 cbx/plotting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index a76955c..081cd43 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -326,7 +326,11 @@ class PlotDynamic:
         if pidx is None:
             pidx = Ellipsis
 
-        if self.plot_drift:
+        if self.plot_drift and self.quiver.N != dr.shape[1]:
+            # the number of arrows can not be changed
+            self.quiver.remove()
+            self.init_drift(x, dr, pidx)
+        elif self.plot_drift:
             self.quiver.set_offsets(
                 np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
                           x[pidx][..., self.dims[1]][self.num_run, :]]).T)
-- 
2.43.0


From 4588f827985ba22c9293a7aada2f5f96f9c37b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 66/68] fix: plots show the requested vertical window

---
 cbx/plotting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 081cd43..b16933e 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -107,7 +107,12 @@ class PlotDynamic:
         xmin = self.objective_args.get('x_min', -1.)
         xmax = self.objective_args.get('x_max', 1.)
         ax.set_xlim([xmin, xmax])
-        ax.set_ylim([xmin, xmax])
+        ymin = self.objective_args.get('y_min', None)
+        ymax = self.objective_args.get('y_max', None)
+        ax.set_ylim([
+            xmin if ymin is None else ymin, 
+            xmax if ymax is None else ymax
+        ])
         
         self.ax = ax
         
-- 
2.43.0


From 60e3931931087474a35b18051cb7d8309a2922a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 67/68] fix: distance to the minimiser for torch dynamics

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 32ac813..88b25f0 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -17,7 +17,7 @@ class dist_to_min:
         self.p = p
         
     def __call__(self, dyn):
-        return dist_to_min_success(dyn.best_particle, self.x_true, 
+        return dist_to_min_success(dyn.to_numpy(dyn.best_particle), self.x_true, 
                                    tol=self.tol, p=self.p)
 
 def value_success(x, f, thresh=0.1):
-- 
2.43.0


From e6bb3d4c2594f1e2a082d447989339b52e545a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 68/68] fix: accept initial ensembles given as lists or integer
 arrays

---
 cbx/dynamics/pdyn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 1cd6cec..93a40cb 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -197,6 +197,10 @@ class ParticleDynamic:
             self.x = self.init_particles(shape=(M, N, d))
             
         else: # if x is given correct shape
+            if not hasattr(x, 'ndim'): # nested lists
+                x = np.asarray(x)
+            if isinstance(x, np.ndarray) and x.dtype.kind in 'biu': # the particles are moved by real numbers
+                x = x.astype(float)
             if x.ndim == 1:
                 x = x[None, None, :]
             elif x.ndim == 2:
-- 
2.43.0

