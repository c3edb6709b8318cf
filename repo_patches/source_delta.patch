From 8f0f912ccf40f74887cc2b390225b99ea2bc75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:49 +0000
Subject: [PATCH 01/16] fix: stay in place when no routing option carries
 weight

A cell without any weight (or, with steepest descent, with the maximum
only in the cell itself) sent the particle to neighbor 0, and a draw of
exactly 0 could select a leading neighbor without weight.
---
 dorado/lagrangian_walker.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..74d09c1 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -426,8 +426,13 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # without any weight there is nowhere to go, remain in place (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # a draw of exactly 0 must not select a leading index without weight
+    idx = max(idx, np.argmax(cutoffs > 0))
 
     return idx
 
@@ -462,7 +467,12 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # no neighbor carries the max value, remain in place (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
+    # a draw of exactly 0 must not select a leading index without weight
+    idx = max(idx, np.argmax(cutoffs > 0))
 
     return idx
 
-- 
2.43.0


From e0c572bbb743e1eff33854d5c6c96fde22eb92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 02/16] fix: detect domain edges for particles on the first row
 or column

The neighborhood slice started at -1 there, which is empty, so that a
particle on the first row or column did not see the edge and kept moving.
---
 dorado/lagrangian_walker.py | 5 +++--
 dorado/particle_track.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 74d09c1..70a221f 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -398,8 +398,9 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        # (do not wrap around for particles on the first row or column)
+        if -1 in cell_type[max(current_inds[i][0]-1, 0):current_inds[i][0]+2,
+                           max(current_inds[i][1]-1, 0):current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..402034a 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,10 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                # (do not wrap around on the first row or column)
+                if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(all_yinds[ii][-1]-1, 0):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From f3113022a3ba30a58d257fb20ffad8cbf9aca2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:56 +0000
Subject: [PATCH 03/16] fix: collect particles at the iteration limit over all
 particles

The list was reset for every particle, so the warning only ever named the
last one, and it did not exist without any particles (UnboundLocalError).
---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 402034a..e610669 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 # (do not wrap around on the first row or column)
                 if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
-- 
2.43.0


From 7ff48c7d5bb97d248cd7474d87ddc4da205280f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 04/16] fix: do not step particles past the target after a
 zero-time step

A last step without travel time made the estimate of the next time step
zero, so that a particle already past the target time was moved again.
---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e610669..21272ea 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -728,7 +728,8 @@ class Particles():
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
-                    est_next_dt = all_times[ii][-1] - all_times[ii][-2]
+                    est_next_dt = max(0.1, all_times[ii][-1] -
+                                      all_times[ii][-2])
                 else:
                     # Initialize a guess for the next iteration's timestep
                     est_next_dt = 0.1
-- 
2.43.0


From 376da0945121b7d2db2aeb794ee2bcf214dee764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 05/16] fix: keep the velocity floor out of the user's velocity
 arrays

Flooring in place changed params.u / params.v, so that particles built
again from the same parameters had other discharges and routing weights.
---
 dorado/particle_track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 21272ea..db95ac1 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -256,8 +256,9 @@ class Particles():
         self.velocity = np.sqrt(self.u**2+self.v**2)
         # cannot have 0/nans - leads to infinite/nantravel times
         self.velocity[self.velocity < 1e-8] = 1e-8
-        self.u[np.abs(self.u) < 1e-8] = 1e-8
-        self.v[np.abs(self.v) < 1e-8] = 1e-8
+        # (in new arrays, u and v may be the arrays of the params object)
+        self.u = np.where(np.abs(self.u) < 1e-8, 1e-8, self.u)
+        self.v = np.where(np.abs(self.v) < 1e-8, 1e-8, self.v)
         # Compute velocity orientation at each cell
         self.velocity_angle = np.arctan2(-1.0*self.u, self.v)
 
-- 
2.43.0


From 6436d54e1bff41ef7832eab8aa1b054884802cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 06/16] fix: mask dry cells in a copy of the stage field

Dry cells were set to nan in the user's own stage array.
---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index db95ac1..e931a42 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -179,7 +179,7 @@ class Particles():
         # Define the water stage array
         if getattr(params, 'stage', None) is not None:
             try:
-                self.stage = params.stage
+                self.stage = params.stage.copy()
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Water stage array incorrectly defined.")
-- 
2.43.0


From ce3b562204d42d15c569d0bc790c15076f2c999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:11 +0000
Subject: [PATCH 07/16] fix: do not add the region flag to the user's variable
 list

The list is shared with the parameters; parameters reused without a region
of interest then failed on the unknown variable.
---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e931a42..8023950 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -430,7 +430,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From b4825ad0bbfa4f47926ac351e1d21db19e33a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:45 +0000
Subject: [PATCH 08/16] fix: distribute leftover particles for column discharge
 input

For an array with one column the remainders were sorted along the wrong
axis, all leftover particles went to the first step and the total failed.
---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 8023950..10032cc 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1368,7 +1368,8 @@ def flux_proportional_seeding(Q,
 
     """
     # Take absolute value for flow reversals
-    Q_abs = np.abs(Q)
+    # (as a flat series, also for column input)
+    Q_abs = np.abs(Q).ravel()
 
     # Ensure correct number of steps
     if len(Q_abs) < num_steps:
-- 
2.43.0


From 7aed15ba24527200dcae40ae4fa9f843beac2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 09/16] fix: keep newly tracked variables aligned with earlier
 particles

---
 dorado/particle_track.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 10032cc..185807d 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -589,7 +589,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # not tracked before, keep the entries aligned
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -609,7 +612,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    # not tracked before, keep the entries aligned
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
-- 
2.43.0


From 3d0b7513b0fefe85f9cb2ed6bc2565e81b310af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 10/16] fix: store variables first tracked during an iteration

---
 dorado/particle_track.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 185807d..904e64e 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -693,7 +693,9 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    # not tracked before, keep the entries aligned
+                    optional_vars[var] = [[None]*len(all_xinds[i])
+                                          for i in range(self.Np_tracer)]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
@@ -792,8 +794,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From 5f9ac45b0e1d81ce14f6d544d7c0ba82aa7dc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:48 +0000
Subject: [PATCH 11/16] fix: accept walk data with or without tracked variables
 in plots

---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From 14fc83f112def7d3f31ef6b3e57840a47bda1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 12/16] fix: report thresholds the exposure curve does not
 reach

---
 dorado/routines.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..448045c 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -872,18 +872,14 @@ def plot_exposure_time_thresholds(walk_data,
     ax1.set_ylim([0, 1])
 
     # Percentile markers
-    E50_idx = np.searchsorted(smooth_CDF, 0.50)
-    E75_idx = np.searchsorted(smooth_CDF, 0.75)
-    E90_idx = np.searchsorted(smooth_CDF, 0.90)
-
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for lv in (0.50, 0.75, 0.90):
+        idx = np.searchsorted(smooth_CDF, lv)
+        if idx < len(smooth_time_vect):
+            lv_time = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'E{int(lv*100)}: {lv_time} {timeunit}')
+        else:
+            logger.info(f'E{int(lv*100)}: not reached')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From 1c47d268513260ffed78328cab36e438809cc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 13/16] fix: return the seeded particles when no iterations are
 requested

---
 dorado/parallel_routing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..79f01af 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -39,6 +39,7 @@ def run_iter(pobj):
     """
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
+    all_walk = pobj.particles.walk_data
     # do iterations
     for i in list(range(0, pobj.num_iter)):
         all_walk = pobj.particles.run_iteration()
-- 
2.43.0


From f0f2f43129205634648ab83b8d4b652701a74db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:40 +0000
Subject: [PATCH 14/16] fix: give each core its own random numbers

---
 dorado/parallel_routing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 79f01af..d21bb99 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -8,6 +8,7 @@ Project Homepage: https://github.com/passaH2O/dorado
 from __future__ import division, print_function, absolute_import
 from builtins import range, map
 import numpy as np
+import copy
 import sys
 import os
 import re
@@ -37,6 +38,8 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # forked processes inherit the state of the generator, so reseed it
+    np.random.seed(pobj.random_seed)
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     all_walk = pobj.particles.walk_data
@@ -91,6 +94,7 @@ class parallel_obj:
         parallel_obj.Np_tracer = None
         parallel_obj.seed_xloc = None
         parallel_obj.seed_yloc = None
+        parallel_obj.random_seed = None
 
 
 def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
@@ -139,7 +143,11 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
     pobj.seed_yloc = seed_yloc
 
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    # each core gets a random seed of its own
+    p_list = [copy.copy(pobj) for _ in range(num_cores)]
+    first_seed = np.random.randint(2**31 - 1)
+    for i, core_obj in enumerate(p_list):
+        core_obj.random_seed = first_seed + i
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 6f14af1a5c4aed068040e78a231739736cd48b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:45 +0000
Subject: [PATCH 15/16] fix: pass the verbosity of the unsteady driver on to
 the particles

---
 dorado/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 448045c..e5a880b 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -184,7 +184,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
     # init params
     params = modelParams()
     params.dx = dx
-    params.verbose = False
+    params.verbose = verbose
     # make directory to save the data
     if folder_name is None:
         folder_name = os.getcwd()
-- 
2.43.0


From ac1caab326dff628dd6f2f5563d37e4c7b549761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:20 +0000
Subject: [PATCH 16/16] fix: crop only the border of gridded data

---
 dorado/particle_track.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 904e64e..3f890c2 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1294,6 +1294,13 @@ def unstruct2grid(coordinates,
         path = matplotlib.path.Path(boundary)
         outside = ~path.contains_points(gridXY_array)
 
+    # Function to delete the all-nan border (but no rows or columns inside)
+    def crop_border(data):
+        rows, cols = np.nonzero(~np.isnan(data))
+        if len(rows) == 0:
+            return data[:0, :0]
+        return data[rows.min():rows.max()+1, cols.min():cols.max()+1]
+
     # Create Interpolation function
     if k_nearest_neighbors == 1:  # Only use nearest neighbor
         index_qFun = interpolate.NearestNDInterpolator(inputXY,
@@ -1310,9 +1317,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = crop_border(gridded_data)
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1336,9 +1341,7 @@ def unstruct2grid(coordinates,
             gridded_data.shape = (len(yvect), len(xvect))
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
-                mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = crop_border(gridded_data)
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0

