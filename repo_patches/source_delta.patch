From 389058f4224e500c801389d3031101eb1f5797fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:16 +0000
Subject: [PATCH 01/41] dst: guarded hooks for deterministic simulation
 (MULTISIM_DST=1, off by default)

---
 multisim/_dst.py   | 42 ++++++++++++++++++++++++++++++++++++++++++
 multisim/simenv.py | 14 +++++++++++++-
 2 files changed, 55 insertions(+), 1 deletion(-)
 create mode 100644 multisim/_dst.py

diff --git a/multisim/_dst.py b/multisim/_dst.py
new file mode 100644
index 0000000..b97646e
--- /dev/null
+++ b/multisim/_dst.py
@@ -0,0 +1,42 @@
+# -*- coding: utf-8 -*-
+"""
+Hooks for deterministic simulation testing of the simulation environment.
+
+All hooks are no-ops, unless the environment variable `MULTISIM_DST=1` is set
+before importing MultiSim **and** a handler has been installed. With the guard
+off, the behaviour of MultiSim is unchanged.
+"""
+
+import os
+
+#: Are hooks available at all? Only evaluated once during import.
+enabled = os.environ.get('MULTISIM_DST', '') == '1'
+
+_handler = None
+
+
+def install(handler):
+    """Install a hook handler (or remove it by passing None)."""
+    global _handler
+    _handler = handler if enabled else None
+
+
+def point(name, env):
+    """Scheduling point `name` has been reached by simulation `env`."""
+    if _handler is not None:
+        _handler.point(name, env)
+
+
+def step_size(env, h):
+    """Return the step size with which the next step will be tried first."""
+    return h if _handler is None else _handler.step_size(env, h)
+
+
+def stability(env, h):
+    """Return None or a maximum stable step size to veto this attempt."""
+    return None if _handler is None else _handler.stability(env, h)
+
+
+def error(env, h, err):
+    """Return the error estimate to use in the step size control."""
+    return err if _handler is None else _handler.error(env, h, err)
diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..9dff75f 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -18,6 +18,7 @@ import psutil as _psutil
 from scipy.optimize import root as _root  # , fixed_point
 
 from .flownet import FlowNet as _FlowNet
+from . import _dst
 from . import precomp_funs as _pf
 from .version import version as __version__
 
@@ -3942,7 +3943,7 @@ class SimEnv:
 
         """
         # get new step size from last adaptive step:
-        _h = self._new_step
+        _h = _dst.step_size(self, self._new_step)
 
         # get often accessed vars as local vars to increase the speed:
         stepnum = self.stepnum[0]
@@ -3991,6 +3992,13 @@ class SimEnv:
                     self._breaking_part = part
                     break
 
+            # DST hook (off by default): inject a stability violation
+            _veto = _dst.stability(self, _h)
+            if _veto is not None:
+                self._step_stable[0] = False
+                self._vN_max_step[0] = min(self._vN_max_step[0], _veto)
+                self._breaking_part = 'DST'
+
             # =============================================================================
             #             for part in solve_njit:
             #                 step_result(diff_fun, args, h, y_prev)
@@ -4142,6 +4150,8 @@ class SimEnv:
                 # get all part's RMS error by dividing err by the amount of all
                 # cells of explicit parts in the system and taking the root:
                 err_rms = (err / self._num_cells_tot_nmrc_expl) ** 0.5
+                # DST hook (off by default): inject an error estimate
+                err_rms = _dst.error(self, _h, err_rms)
                 # check for good timesteps:
                 # err_rms already has the relative and absolute tolerance
                 # included, thus only checking against its value:
@@ -5061,6 +5071,7 @@ class SimEnv:
         self.stepnum[0] = 1
 
         while self.time_sim < self.timeframe:
+            _dst.point('step_begin', self)  # DST hook (off by default)
             # update all massflows:
             self._update_FlowNet()
 
@@ -5079,6 +5090,7 @@ class SimEnv:
             self.time_sim += self.timestep
             # add elapsed time in seconds to time vector:
             self.time_vec[self.stepnum[0]] = self.time_sim
+            _dst.point('step_end', self)  # DST hook (off by default)
 
             # check if stepnum is greater than num_steps. And if yes call
             # function to save current results to DataFrame, save this to disk
-- 
2.43.0


From 8f75782b44818ba4f28290d5f5580fe29d176f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 02/41] fix: results lost with IndexError if the last step
 fills the save interval

---
 multisim/simenv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 9dff75f..8e4fb72 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5096,8 +5096,10 @@ class SimEnv:
             # function to save current results to DataFrame, save this to disk
             # and clear current result arrays:
             if self.stepnum[0] == self.num_steps:
-                # check if not already total sim timeframe reached:
-                if self.time_sim < self.timeframe:
+                # check if not already total sim timeframe reached. If saving
+                # to disk, always free memory, since there is no free row left
+                # for finalizing the sim:
+                if self.time_sim < self.timeframe or self.__save_to_disk:
                     self._free_memory()
 
             self.stepnum[0] += 1
-- 
2.43.0


From a9718dd80f828cd2afd5baf336e13175eba72201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:06 +0000
Subject: [PATCH 03/41] fix: enlarging result arrays left the solver writing to
 the old arrays

---
 multisim/parts/chp_plant.py   | 11 +++++++++++
 multisim/parts/heated_pipe.py |  7 +++++++
 multisim/simenv.py            | 13 ++++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..1478572 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -564,6 +564,17 @@ class CHPPlant(Pipe):
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
         self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
 
+    def _special_enlarge_arrays(self, num_steps):
+        for name in ('res_dQ', 'res_Pel', 'res_Pgas', '_chp_state'):
+            arr = getattr(self, name)
+            setattr(
+                self,
+                name,
+                np.append(
+                    arr, np.zeros((num_steps,) + arr.shape[1:]), axis=0
+                ),
+            )
+
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
     ):
diff --git a/multisim/parts/heated_pipe.py b/multisim/parts/heated_pipe.py
index 6a2292c..0992e24 100644
--- a/multisim/parts/heated_pipe.py
+++ b/multisim/parts/heated_pipe.py
@@ -194,6 +194,13 @@ class HeatedPipe(Pipe):
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
 
+    def _special_enlarge_arrays(self, num_steps):
+        self.res_dQ = np.append(
+            self.res_dQ,
+            np.zeros((num_steps,) + self.res_dQ.shape[1:]),
+            axis=0,
+        )
+
     def __depcreated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
     ):
diff --git a/multisim/simenv.py b/multisim/simenv.py
index 8e4fb72..61aa7d7 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5327,13 +5327,24 @@ class SimEnv:
                 self.parts[part].res = np.append(
                     self.parts[part].res,
                     np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
+                        (self.__base_num_steps,)
+                        + self.parts[part].res.shape[1:]
                     ),
                     axis=0,
                 )
+                # for parts with special arrays, use the special method:
+                if hasattr(self.parts[part], '_special_enlarge_arrays'):
+                    self.parts[part]._special_enlarge_arrays(
+                        self.__base_num_steps
+                    )
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
+            # enlarging arrays changed their memory addresses, thus recreate
+            # all views/references to them:
+            self._create_port_updater()
+            self._create_diff_inputs()
+            self._prep_inputs_for_njits()
         else:  # if saving to disk as HDFstore
             with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
                 # index for hdf store
-- 
2.43.0


From e79966002c47d595b7ed2e1a84607fdfdf834b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:06 +0000
Subject: [PATCH 04/41] fix: TypeError if memory limits the number of
 preallocated steps

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 61aa7d7..42e5dc7 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4670,7 +4670,7 @@ class SimEnv:
             self.num_steps = (
                 self._msb4save
                 if self._max_steps > self._msb4save
-                else self._max_steps
+                else int(self._max_steps)
             )
 
         # save views/references of all simulation environment wide arrays and
-- 
2.43.0


From 426b00a8f6c4632a4296700eb9d06687c259374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:31 +0000
Subject: [PATCH 05/41] fix: constant step size solver (adaptive_steps=False)
 could not run at all

---
 multisim/simenv.py | 56 +++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 42e5dc7..bd36146 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -438,6 +438,7 @@ class SimEnv:
             # smoothly:
             self._max_speed = False
             self._check_vN = False
+            self._max_factor = np.array([2.0])
 
         # set stepnum to 0 for the start:
         self.stepnum[0] = 0
@@ -3860,7 +3861,7 @@ class SimEnv:
 
         return vector_rot
 
-    def _heun(self, solve_num_expl, solve_nonnum, timestep):
+    def _heun(self, solve_num_expl, solve_num_impl, solve_nonnum, timestep):
         """
         Calculate the result of a differential equation using Heun's method.
 
@@ -3870,6 +3871,8 @@ class SimEnv:
         ----------
         solve_num_expl : TYPE
             DESCRIPTION.
+        solve_num_impl : TYPE
+            DESCRIPTION.
         solve_nonnum : TYPE
             DESCRIPTION.
         timestep : TYPE
@@ -3880,43 +3883,56 @@ class SimEnv:
         None.
 
         """
+        assert not solve_num_impl, (
+            'Implicit parts can only be solved with `adaptive_steps=True`.'
+        )
+        stepnum = self.stepnum[0]
         # solve predictor step for all numeric parts:
         for part in solve_num_expl:
             # get results from last timestep and pass them to
             # current-timestep-temperature-array:
-            self.parts[part].T[:] = self.parts[part].res[self.stepnum[0] - 1]
+            self.parts[part].T[:] = self.parts[part].res[stepnum - 1]
             # calculate differential at result:
-            self.parts[part]._df0 = solve_num_expl[part]()
+            self.parts[part]._df0[:] = solve_num_expl[part](timestep)
             # calculate and save predictor step:
             self.parts[part].T[:] = (
                 self.parts[part].T + timestep * self.parts[part]._df0
             )
         # solve predictor step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
-        # update ports with new values:
-        self._update_ports(source='intermediate', all_ports=True, nnum=False)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+            self.solve_nonnum[part](timestep)
+        # update all ports:
+        _pf._upddate_ports_interm(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_interm,
+            source=0,
+        )
         # solve corrector step for all numeric parts:
         for part in solve_num_expl:
             # calculate differential at predictor step result:
-            self.parts[part]._df1 = solve_num_expl[part]()
+            self.parts[part]._df1[:] = solve_num_expl[part](timestep)
             # solve heun method and save to result:
-            self.parts[part].res[self.stepnum[0]] = self.parts[part].res[
-                self.stepnum[0] - 1
+            self.parts[part].res[stepnum] = self.parts[part].res[
+                stepnum - 1
             ] + (timestep / 2) * (
                 self.parts[part]._df0 + self.parts[part]._df1
             )
             # also save to T arrays to be able to use memoryviews
-            self.parts[part].T[:] = self.parts[part].res[self.stepnum[0]]
+            self.parts[part].T[:] = self.parts[part].res[stepnum]
         # solve corrector step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
-        # update numeric parts' ports with results:
-        self._update_ports(source='results', all_ports=True, nnum=False)
-        # update non-numeric ports (they only have intermediate values as they
-        # have no differential method!)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+            self.solve_nonnum[part](timestep)
+        # update all ports:
+        _pf._upddate_ports_result(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_result,
+            stepnum=stepnum,
+            src_list=self._ports_src_res_idx,
+        )
+        # save to state that the step was solved:
+        self._solver_state[stepnum] = 4
 
     def _heun_adaptive(
         self, solve_num_expl, solve_num_impl, solve_nonnum, old_step
@@ -4655,13 +4671,13 @@ class SimEnv:
         # perhaps around 5*num_steps) for numeric parts.
         if self.adaptive_steps:
             self.num_steps = int(100 * self.num_steps)
-            # also save original amount of steps to use that again when
-            # enlarging arrays:
-            self.__base_num_steps = self.num_steps + 1
             # give all parts a new truncation error variable if adaptive steps:
             for part in self.parts:
                 if self.parts[part].solve_numeric:  # only for numeric parts!
                     self.parts[part].__new_trnc_err = 0.0
+        # also save original amount of steps to use that again when enlarging
+        # arrays:
+        self.__base_num_steps = self.num_steps + 1
         # if number of steps is above msb4sav or greater than maximum number of
         # steps, limit to these numbers. saving to disk is already enabled
         # during sim init...
-- 
2.43.0


From 6585f38efebebb139d545a5c2283e38ad9167e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 06/41] fix: invalid values did not stop the simulation and
 were reported as success

---
 multisim/simenv.py | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index bd36146..4e364f3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5130,31 +5130,26 @@ class SimEnv:
                 )
                 sys.stdout.flush()
 
-            # check for nan values every 5k steps:
-            if self._total_stepnum % 5000 == 0:
-                for name, prt in self.parts.items():
-                    # loop over all parts and assert that none of the arrays
-                    # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) and np.any(
-                        np.isnan(prt.dm)
+            # check all parts for nan values:
+            invalid = [
+                name
+                for name, prt in self.parts.items()
+                if np.isnan(prt.T).any() or np.isnan(prt.dm).any()
+            ]
+            if invalid:
+                print(
+                    '\n\n'
+                    'WARNING: Invalid value found in part(s) {0} at step {1} '
+                    'at time {2}s!\n'
+                    'Stopping simulation.\n\n'.format(
+                        invalid,
+                        self._total_stepnum + self.stepnum[0] - 1,
+                        self.time_sim,
                     )
-                    if isanynan:
-                        print(
-                            '\n\n'
-                            'WARNING: Invalid value found between step {0} '
-                            'at time {1}s and step {2} at time {3}s!\n'
-                            'Stopping simulation.\n\n'.format(
-                                self._total_stepnum - 5000,
-                                self.time_vec[self._total_stepnum - 5000],
-                                self._total_stepnum,
-                                self.time_sim,
-                            )
-                        )
-                        # stop simulation by setting timeframe to almost zero
-                        self.timeframe = 1e-9
-                        # set solver state to failed:
-                        self._solver_state[self._total_stepnum] = 98
-                        break  # break loop for nan checking
+                )
+                # set solver state of the last step to failed:
+                self._solver_state[self.stepnum[0] - 1] = 98
+                break  # stop simulation
 
         # measure time taken purely for simulation
         self._sim_end_time = _time_.time()
@@ -5602,7 +5597,7 @@ class SimEnv:
 
         info = {
             'MultiSim version': __version__,
-            'Simulation success': True if states[99] == 0 else False,
+            'Simulation success': not failure,
         }
         info.update(fail_info)
         info.update(
-- 
2.43.0


From ff4acc4ffced9611daceb0bff10b4abb43b2023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 07/41] fix: ZeroDivisionError in report if the clock did not
 advance during the sim

---
 multisim/simenv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 4e364f3..7ac0f7d 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5640,8 +5640,12 @@ class SimEnv:
                 'Postprocessing duration in s': (
                     self._sim_postproc_time - self._sim_end_time
                 ),
-                'Steps per second': self.stepnum[0]
-                / (self._sim_end_time - self._sim_start_time),
+                'Steps per second': (
+                    self.stepnum[0]
+                    / (self._sim_end_time - self._sim_start_time)
+                    if self._sim_end_time != self._sim_start_time
+                    else np.inf
+                ),
             }
         )
         rprt = pd.DataFrame.from_dict(info, orient='index')
-- 
2.43.0


From e22ef68d3a373471e072ca865d515755e420535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:19 +0000
Subject: [PATCH 08/41] fix: simulations set up within the same second shared
 their result files

---
 multisim/simenv.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 7ac0f7d..ee3b4db 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -583,6 +583,20 @@ class SimEnv:
 
         # temporary store for fast uncompressed writing:
         self._disk_store['path_tmp'] = self._disk_store['path'] + '_tmp'
+        # never touch the files of another simulation which was set up with
+        # the same name within the same second:
+        i = 0
+        base_path = self._disk_store['path'][: -len('.h5')]
+        while not overwrite:
+            if not os.path.exists(self._disk_store['path']):
+                try:
+                    open(self._disk_store['path_tmp'], 'x').close()
+                    break
+                except FileExistsError:
+                    pass
+            i += 1
+            self._disk_store['path'] = '{0}_{1}.h5'.format(base_path, i)
+            self._disk_store['path_tmp'] = self._disk_store['path'] + '_tmp'
         # create store in context manager to automatically close it afterwards
         with pd.HDFStore(
             self._disk_store['path_tmp'], mode='w', complevel=0
-- 
2.43.0


From becc977e65a151b2da11ad8f53b34dd07b85da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:19 +0000
Subject: [PATCH 09/41] fix: temporary store was deleted before the final store
 was completed

---
 multisim/simenv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index ee3b4db..3e5138b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5022,6 +5022,9 @@ class SimEnv:
 
             # finally close store:
             self._disk_store['store'].close()
+            # and delete temporary store only now, since all data is stored
+            if os.path.exists(self._disk_store['path_tmp']):
+                os.remove(self._disk_store['path_tmp'])
 
         # count solver states in the first column:
         states = dict(zip(*np.unique(self._solver_state, return_counts=True)))
@@ -5539,9 +5542,9 @@ class SimEnv:
                         complevel=self._disk_store['complevel'],
                         complib=self._disk_store['complib'],
                     )
-            # close and delete uncompressed store:
+            # close uncompressed store (will be deleted after the compressed
+            # store has been completed and closed):
             self._disk_store['store_tmp'].close()
-            os.remove(self._disk_store['path_tmp'])
         else:  # if no compression, just copy ref to temp and rename
             # if no resampling, just copy ref etc
             if not self._disk_store['resample']:
@@ -5557,7 +5560,6 @@ class SimEnv:
                 )
                 # copy reference:
                 self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
             else:
                 self._disk_store['store'] = pd.HDFStore(
                     self._disk_store['path'],
@@ -5575,9 +5577,9 @@ class SimEnv:
                         .interpolate(),
                         format='table',
                     )
-                # close and delete unresampled store:
+                # close unresampled store (will be deleted after the
+                # resampled store has been completed and closed):
                 self._disk_store['store_tmp'].close()
-                os.remove(self._disk_store['path_tmp'])
 
     def _write_report(self):
         states = dict(zip(*np.unique(self._solver_state, return_counts=True)))
-- 
2.43.0


From 58553cc2295f8adb1d673433a28c5f54d1a8ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:34 +0000
Subject: [PATCH 10/41] fix: IndexError if the last step exceeds the time
 series of a boundary condition

---
 multisim/simenv.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3e5138b..c2d2bdc 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -2750,12 +2750,17 @@ class SimEnv:
             first_idx = int(new_idx)
             # get leverage for last two cells mean
             lev = new_idx - int(new_idx)
+            # index of the following cell:
+            scnd_idx = first_idx + 1
             # loop over boundary conditions:
             for BC in self._dyn_BC:
+                # hold the last value if the time series has been exceeded:
+                first_idx = min(first_idx, BC[1].shape[0] - 1)
+                scnd_idx = min(scnd_idx, BC[1].shape[0] - 1)
                 # get the leveraged mean value of the steps between which the
                 # current timestep is:
                 lev_mean = (
-                    BC[1][first_idx] * (1 - lev) + BC[1][first_idx + 1] * lev
+                    BC[1][first_idx] * (1 - lev) + BC[1][scnd_idx] * lev
                 )
                 # if less than or equal to one cell in the timestep index was
                 # done in the last timestep:
@@ -2769,7 +2774,9 @@ class SimEnv:
                     # up with the time weighted leveraged mean:
                     BC[0][0] = (
                         BC[1][
-                            int(round(self.__last_step_t_idx)) : int(new_idx)
+                            min(
+                                int(round(self.__last_step_t_idx)), first_idx
+                            ) : int(new_idx)
                             + 1
                         ].mean()
                         * (cells - lev)
-- 
2.43.0


From 55b37222c564a3872c22216a99c619842edba5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:34 +0000
Subject: [PATCH 11/41] fix: TypeError when passing check_vN to set_timeframe

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index c2d2bdc..9290fb5 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -385,7 +385,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From cf7c09c2f7d9b8185b7396d40ff476775af58ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 12/41] fix: CHP run times and ramps were calculated with
 rejected timesteps

---
 multisim/parts/chp_plant.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 1478572..a9071fe 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -688,8 +688,12 @@ class CHPPlant(Pipe):
         # process flows is only executed ONCE per timestep, afterwards the bool
         # process_flows is set to False.
         if self._process_flows[0]:  # only if flows not already processed
-            # get current elapsed time
-            curr_time = self._models.time_vec[self.stepnum[0] - 1] + timestep
+            # get current elapsed time (at the start of this step) and time
+            # elapsed since the last state was set. The current timestep must
+            # not be used here, since it is not known yet if this step will be
+            # accepted or repeated with a smaller timestep.
+            curr_time = self._models.time_vec[self.stepnum[0] - 1]
+            last_step = self._models.timestep
             # get state of the last step
             state_last_step = self._chp_state[self.stepnum[0] - 1]
 
@@ -741,17 +745,17 @@ class CHPPlant(Pipe):
                 # if CHP was on last step AND is on now, check for ramps
                 # get difference of modulation and absolute ramp per second
                 mod_diff = state_last_step - self._power_modulation[0]
-                mod_ramp_abs = np.abs(mod_diff) / timestep
+                mod_ramp_abs = np.abs(mod_diff) / last_step
                 # if absolute ramp is higher than max ramp, limit change to
                 # ramp
                 if mod_ramp_abs > self._max_ramp_el:
                     if mod_diff <= 0.0:  # ramp up too fast
                         self._power_modulation[0] = (  # set ramp to max ramp
-                            state_last_step + self._max_ramp_el * timestep
+                            state_last_step + self._max_ramp_el * last_step
                         )
                     else:  # ramp down too fast
                         self._power_modulation[0] = (  # set ramp to max ramp
-                            state_last_step - self._max_ramp_el * timestep
+                            state_last_step - self._max_ramp_el * last_step
                         )
             # if chp is on, check if inlet temperature was exceeded or any
             # temperature is above emergency shutdown temp., then shutdown
@@ -772,10 +776,8 @@ class CHPPlant(Pipe):
                     self._shutdown_at_time = curr_time
                     self._shutdown_in_progress = True
                 else:  # if timer not exceeded
-                    # delta t how long the temp. has been exceeded. after the
-                    # if-else check, since +timestep is at the end of the
-                    # step, thus relevant for the next step.
-                    self._dt_time_temp_exc += timestep
+                    # delta t how long the temp. has been exceeded.
+                    self._dt_time_temp_exc += last_step
             else:  # else if temp. not exceeded, reset timer
                 self._dt_time_temp_exc = 0.0
 
-- 
2.43.0


From 68d61fcd867d4172699a81542954c81dc4d6f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 13/41] fix: KeyError when using a reference part as controller
 setpoint

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From 91d9d69bc0030a56270aad41868606202e095820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 14/41] fix: discrete PID controllers ignored the invert
 parameter

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..9e2446c 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From 1384bfe738146298c8f7f1e7482316ec928b7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 15/41] fix: inverted two-point controllers flipped the sign of
 a held CV in each step

---
 multisim/parts/controllers.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 9e2446c..ea1a761 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -537,20 +537,21 @@ class BangBang(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # on-value is the upper saturation limit, allow direction inversion.
+        # Only invert when switching, otherwise a held CV would be inverted
+        # again in each step.
+        cv_on = self._cv_sat_max * self._invert
         if self.pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
             else:
-                self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+                self.cv = cv_on  # switch on (to upper sat lim.)
         elif self.pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
-                self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+                self.cv = cv_on  # switch on (to upper sat lim.)
             else:
                 self.cv = self._off_state  # switch off (to off state)
 
-        # allow direction inversion:
-        self._cv_invert()
-
         # check if controller is depending on another controller:
         self._subcontroller_check()
 
@@ -639,13 +640,17 @@ class TwoSensors(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # on-value is the upper saturation limit, allow direction inversion.
+        # Only invert when switching, otherwise a held CV would be inverted
+        # again in each step.
+        cv_on = self._cv_sat_max * self._invert
         # controller activation
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = cv_on
         else:  # if greater
             if self.on_sensor_val[0] > self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = cv_on
         # controller deactivation
         if self._deact_sgn == 'ge':
             if self.pv[0] > self.sp[0]:
@@ -654,9 +659,6 @@ class TwoSensors(Controls):
             if self.pv[0] < self.sp[0]:
                 self.cv = self._off_state
 
-        # allow direction inversion:
-        self._cv_invert()
-
         # check if controller is depending on another controller:
         self._subcontroller_check()
 
-- 
2.43.0


From b6bc55362f6ad18a1088b927c7f32fc3196977c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:03 +0000
Subject: [PATCH 16/41] fix: controller deadtime extrapolated the PV for
 timesteps exceeding the deadtime

---
 multisim/precomp_funs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..a30b8f5 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3686,10 +3686,10 @@ def ctrl_deadtime(
     # until next step, thus can be reused if no new value is found)
     # if a new value has reached deadtime delay in only one step:
     if dt_idx == 0:
-        # interpolate delayed pv from previous pv, new pv and
-        # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
+        # interpolate delayed pv from previous pv, current pv and
+        # expired time since the previous pv:
+        delayed_pv = pv_arr[0] + (pv[0] - pv_arr[0]) / dt_arr[0] * (
+            dt_arr[0] - deadtime
         )
     # if a new value has reached deadtime delay after more than
     # one step:
-- 
2.43.0


From 9406ac3c133bd8eebd7ccab6761aacbd26b55cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:03 +0000
Subject: [PATCH 17/41] fix: controller deadtime read beyond its arrays for
 small timesteps

---
 multisim/controls.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index 37a0e31..fceabc2 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -865,6 +865,16 @@ class Controls:
                 self.sp = self._ref + self._ref_diff
             # check if deadtime != 0 (also works for np.timedelta64 values)
             if self.deadtime:
+                # enlarge deadtime arrays if they are too short to store all
+                # steps of the deadtime (timesteps smaller than 0.01s):
+                if max(self.dt_idx, self.last_dt_idx) + 3 > self.len_dt_arr:
+                    self.dt_arr = np.append(
+                        self.dt_arr, np.full_like(self.dt_arr, self.dt_arr[-1])
+                    )
+                    self.pv_arr = np.append(
+                        self.pv_arr, np.full_like(self.pv_arr, self.pv_arr[-1])
+                    )
+                    self.len_dt_arr = self.dt_arr.shape[0]
                 # before extraction of pv add up timestep (time expired since
                 # last call of controller) to deadtime array:
                 (
-- 
2.43.0


From e79ac11eabea2470255b6a94b7451c4de6e3caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 18/41] fix: step size increase exceeded max_factor after
 factor_recovery steps

---
 multisim/simenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 9290fb5..1317b6b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4209,7 +4209,8 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        * min(1.0, self._steps_since_fail / self._fctr_rec_stps)
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From c52c3e0b1170948fd409c49c41ce64d71847626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 19/41] fix: first step exceeded max_stepsize

---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 1317b6b..fc31758 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -419,7 +419,10 @@ class SimEnv:
             # last failed step
             self._steps_since_fail = 0
             # also set starting timestep with some value:
-            self._new_step = 1.0  # this is the adaptive step starting step
+            # adaptive step starting step, limited to the allowed step sizes:
+            self._new_step = max(
+                self.__min_stepsize, min(1.0, self.__max_stepsize)
+            )
             self.timestep = 1.0  # this is the adaptive step final value
         else:
             # else if constant stepsizes are chosen
-- 
2.43.0


From 14bc17660e87d7af177c1756955677315461a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:54 +0000
Subject: [PATCH 20/41] fix: part Pump could not be simulated on platforms with
 64 bit indices

---
 multisim/precomp_funs.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index a30b8f5..dd70407 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3560,12 +3560,7 @@ def solve_platehex(
     # dT_cond[1, 1] = 0
 
 
-@jit(
-    (float64[:], int32[:], float64[:]),
-    nopython=True,
-    nogil=GLOB_NOGIL,
-    cache=True,
-)  # parallel=GLOB_PARALLEL useful
+@njit(nogil=GLOB_NOGIL, cache=True)  # parallel=GLOB_PARALLEL useful
 def _get_p_arr_pump(ports_all, port_link_idx, T):
     """
     Values of requested ports are saved to temperature array.
-- 
2.43.0


From dacdfaaf3351faa0607e1a88cc08f00930045ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 21/41] fix: resetting a CHP plant broke the following run

---
 multisim/parts/chp_plant.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index a9071fe..f91ac06 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -317,6 +317,26 @@ class CHPPlant(Pipe):
         # (only on):
         self._pth_power_factor = 0.0
         self._pel_power_factor = 0.0
+        # backup of the states for resetting:
+        self._states_init = {
+            state: getattr(self, state)
+            for state in (
+                '_chp_on',
+                '_bin_pow_fac',
+                '_startup_in_progress',
+                '_shutdown_in_progress',
+                '_startup_at_time',
+                '_shutdown_at_time',
+                '_startup_duration',
+                '_shutdown_duration',
+                '_startup_factor_el',
+                '_startup_factor_th',
+                '_startup_factor_gas',
+                '_shutdown_factor_th',
+                '_remaining_heat',
+                '_dt_time_temp_exc',
+            )
+        }
 
         # differential of temperature due to heating:
         self.dT_heat = np.zeros_like(self.T)
@@ -558,11 +578,20 @@ class CHPPlant(Pipe):
             _pf.chp_gas_power(1.0) * self.chp_power_el * self._eta_el_fac
         )
 
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        # reset all states of the startup and shutdown procedure:
+        self.__dict__.update(self._states_init)
+        for arr in (self._dQ_heating, self._Pel, self._Pgas, self._last_dQ):
+            arr[:] = 0.0
+
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
-        self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
+        self._chp_state = np.zeros(
+            (num_steps + 1,) + self._chp_state.shape[-1:]
+        )
 
     def _special_enlarge_arrays(self, num_steps):
         for name in ('res_dQ', 'res_Pel', 'res_Pgas', '_chp_state'):
-- 
2.43.0


From ee42aa53542d59e562705457858e10c15a9371ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 22/41] fix: resetting controllers kept integral and deadtime
 values of the last run

---
 multisim/controls.py          | 8 ++++++++
 multisim/parts/controllers.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index fceabc2..f10d9a0 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -821,6 +821,7 @@ class Controls:
         # general values:
         self.cv = 0.0
         self.prev_cv = 0.0
+        self._prev_cv = 0.0
         self.error = 0.0
         self.prev_error = 0.0
         # defaults for low pass filtering derivate error
@@ -838,6 +839,13 @@ class Controls:
             self.error_sum = 0.0
             self.d_term = 0.0
 
+        # values for deadtime calculation:
+        self.dt_arr[:] = 0.0
+        self.pv_arr[:] = 25
+        self.dt_idx = 0
+        self.last_dt_idx = 0
+        self.delayed_pv = 25
+
     def ctrl(self, timestep):
         # only run ctrl if not linked/copied actuator:
         if self._process_cv_mode != 'linked':
diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index ea1a761..f42ba15 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -364,6 +364,7 @@ class PID(Controls):
             self._anti_windup = np.inf
 
     def _reset_to_init_cond(self):
+        self.clear()
         self.cv = 0.0
         self._prev_cv = 0.0
         self._deriv = 0.0
@@ -528,6 +529,7 @@ class BangBang(Controls):
         self._hysteresis = float(abs(kwargs['hysteresis']))  # save pos. hyst.
 
     def _reset_to_init_cond(self):
+        self.clear()
         self.cv = 0.0
         self._prev_cv = 0.0
         self._deriv = 0.0
@@ -631,6 +633,7 @@ class TwoSensors(Controls):
         )
 
     def _reset_to_init_cond(self):
+        self.clear()
         self.cv = 0.0
         self._prev_cv = 0.0
         self._deriv = 0.0
@@ -1585,6 +1588,7 @@ class ModelPredCHP(Controls):
             )
 
     def _reset_to_init_cond(self):
+        self.clear()
         self.cv = 0.0
         self._prev_cv = 0.0
         self._deriv = 0.0
-- 
2.43.0


From 4a68dcb309d9e865f6b76a0340fb276be8e42a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:13 +0000
Subject: [PATCH 23/41] fix: resetting the sim. env. set all pump flows to zero

---
 multisim/parts/pipe.py |  6 ++++++
 multisim/parts/tes.py  |  6 ++++++
 multisim/simenv.py     | 15 ++++++++++++---
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/multisim/parts/pipe.py b/multisim/parts/pipe.py
index 525a648..a04006e 100644
--- a/multisim/parts/pipe.py
+++ b/multisim/parts/pipe.py
@@ -498,7 +498,13 @@ class Pipe(SimEnv):
 
     def _reset_to_init_cond(self):
         self._dm_io[:] = 0
+        self.dm[:] = 0
         self.T[:] = self._T_init
+        # values of the last step used as start values of an iteration:
+        self._T_s[:] = 0
+        self._alpha_i[:] = 3.122
+        self._alpha_inf[:] = 3.122
+        self._UA_amb_shell[:] = 0
 
     def _get_flow_routine(
         self, port, parent_port=None, subnet=False, **kwargs
diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index f1709c4..d07fba7 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -624,7 +624,13 @@ class Tes(SimEnv):
 
     def _reset_to_init_cond(self):
         self._dm_io[:] = 0
+        self.dm[:] = 0
         self.T[:] = self._T_init
+        # values of the last step used as start values of an iteration:
+        self._T_s[:] = 0
+        self._alpha_i[:] = 3.122
+        self._alpha_inf[:] = 3.122
+        self._UA_amb_shell[:] = 0
 
     def __add_ports(self, **kwargs):
         """
diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc31758..a3e1a6b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4838,9 +4838,17 @@ class SimEnv:
             **self.__bkp_kwargs_timeframe
         )
 
+        # reset step counter and time vector of results saved to disk:
+        self._total_stepnum = 0
+        self._total_time_vec = np.array([])
+
         # reset all temperature and massflow arrays inside the parts:
         for part in self.parts.values():
             part._reset_to_init_cond()
+        # massflow arrays may be views to the pumps, thus reset actuators last:
+        for part in self.parts.values():
+            if part.is_actuator:
+                part._actuator_CV[:] = part._actuator_CV_init
 
         # reset all controllers:
         for ctrl in self.ctrls.values():
@@ -4849,9 +4857,6 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
-        self._new_step = 1.0  # this is the adaptive step starting step
-        self.timestep = 1.0  # this is the adaptive step final value
-
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
@@ -4874,6 +4879,10 @@ class SimEnv:
 
         if build_simenv:
             self._build_simenv()
+            # backup initial actuator values for resetting:
+            for part in self.parts.values():
+                if part.is_actuator:
+                    part._actuator_CV_init = part._actuator_CV.copy()
 
         if reset_simenv:
             self._reset_simenv()
-- 
2.43.0


From d36fbc9d437282004b62e9869bb2a0d91e9adc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 24/41] fix: KeyError when adding meters without disksaving

---
 multisim/_utility/meters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..f06b467 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -20,7 +20,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample', False):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
-- 
2.43.0


From 2a94a950bcfa364c57bb5fa1f8c30ef55e793d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 25/41] fix: boundary condition series with sub-second spacing
 could not be combined

---
 multisim/simenv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a3e1a6b..a60a975 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1482,10 +1482,8 @@ class SimEnv:
                 self._SimEnv__BC_timedelta * time_series.index.size
                 > self.timeframe
             ), err_str
-            # add new timeseries in seconds frequency:
-            self._dyn_BC_timevec = time_series.index.values.astype(
-                'datetime64[s]'
-            )
+            # add new timeseries index:
+            self._dyn_BC_timevec = time_series.index.values
             # preallocate last step index counter for interpolation:
             self._SimEnv__last_step_t_idx = 0
 
-- 
2.43.0


From a11dfec8709a3af33b018924ad057832c7aac43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:18 +0000
Subject: [PATCH 26/41] dst: guarded hooks around flushing results to disk
 (MULTISIM_DST=1, off by default)

---
 multisim/simenv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a60a975..33f5d60 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5392,6 +5392,7 @@ class SimEnv:
             self._create_diff_inputs()
             self._prep_inputs_for_njits()
         else:  # if saving to disk as HDFstore
+            _dst.point('flush_begin', self)  # DST hook (off by default)
             with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
                 # index for hdf store
                 hdf_idx = self._disk_store[  # create time index for hdf store
@@ -5491,6 +5492,7 @@ class SimEnv:
                 # free_memory method) and bank total stepnum:
                 self._total_stepnum += self.stepnum[0]
                 self.stepnum[0] = 0
+            _dst.point('flush_end', self)  # DST hook (off by default)
 
     def _compress_store(self):
         """
-- 
2.43.0


From ecf49e08f9f80357be2c7ab3f6b02b0f5382483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:10 +0000
Subject: [PATCH 27/41] fix: a crash while completing an uncompressed store
 destroyed all results

The temporary store was renamed and then modified in place. Thus the only
file holding the flushed results was unreadable if the process died while
the remaining vectors were being added. Copy it instead, as it is already
done for compressed and resampled stores.
---
 multisim/simenv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 33f5d60..514640b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -9,6 +9,7 @@ from collections import namedtuple as _namedtuple
 from functools import partial as _partial
 import math as _math
 import os
+import shutil
 import sys
 import time as _time_
 import traceback as _traceback
@@ -5565,13 +5566,14 @@ class SimEnv:
             # close uncompressed store (will be deleted after the compressed
             # store has been completed and closed):
             self._disk_store['store_tmp'].close()
-        else:  # if no compression, just copy ref to temp and rename
+        else:  # if no compression, just copy temp store and update ref
             # if no resampling, just copy ref etc
             if not self._disk_store['resample']:
-                # close store to enable renaming:
+                # close store to enable copying:
                 self._disk_store['store_tmp'].close()
-                # rename HDFStore
-                os.rename(
+                # copy HDFStore (temp store will be deleted after the final
+                # store has been completed and closed):
+                shutil.copyfile(
                     self._disk_store['path_tmp'], self._disk_store['path']
                 )
                 # update references:
-- 
2.43.0


From 141a9425e086ed66468f2aece2206bff39a7890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 28/41] fix: report of another simulation with the same name
 was overwritten

---
 multisim/simenv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 514640b..50ec859 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -592,7 +592,11 @@ class SimEnv:
         i = 0
         base_path = self._disk_store['path'][: -len('.h5')]
         while not overwrite:
-            if not os.path.exists(self._disk_store['path']):
+            if not os.path.exists(
+                self._disk_store['path']
+            ) and not os.path.exists(
+                self._disk_store['path'].replace('.h5', '_REPORT.csv')
+            ):
                 try:
                     open(self._disk_store['path_tmp'], 'x').close()
                     break
-- 
2.43.0


From 3cc8cc7dab56371ac93dbc5c31565e53a45c4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:06 +0000
Subject: [PATCH 29/41] fix: first value of time series was not valid at the
 start of the simulation

Time series of actuators, setpoints and part variables only became effective
after the first step, unless an open port had a time series too.
---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 50ec859..68498db 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1578,6 +1578,8 @@ class SimEnv:
         # add BC to dynamic BC tuple with target array view in the first
         # position and values of time_series in the second position:
         self._dyn_BC += ((trgt_arr_view, time_series.values),)
+        # the first value is valid from the start of the simulation on:
+        trgt_arr_view[0] = time_series.values[0]
 
     def _initialize_dynamic_BC(self):
         """
@@ -4466,7 +4468,8 @@ class SimEnv:
         if 'dyn_BC' in self.__postpone:  # add dynamic boundary cond., if any
             for dyn_BC in self.__postpone['dyn_BC'].values():
                 dyn_BC()
-            self._initialize_dynamic_BC()  # initialize dyn BC
+        # initialize all dyn BC, including time series of actuators:
+        self._initialize_dynamic_BC()
 
         if 'connect_ports' in self.__postpone:  # connect ports, if any
             for connect_ports in self.__postpone['connect_ports'].values():
-- 
2.43.0


From f5e6aa5544e4e0294302e3e4d22059f6c7f15124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:06 +0000
Subject: [PATCH 30/41] fix: time series passed to a pipe with a 3-way valve
 had no effect

The series was assigned to the massflow grid instead of the port openings.
---
 multisim/parts/pipe_with_valve.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..3294834 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,10 +183,21 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
+        # expand time series to other ports:
+        if kwargs.get('ctrl_required', True) is False and (
+            'time_series' in kwargs
+        ):
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                open_port=None,
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # add massflow grid argument to input args at correct position:
         self._input_arg_names_sorted.insert(6, 'dm')
-- 
2.43.0


From c9cdc683e674b62ffea77d5fe0c297539c860c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:34 +0000
Subject: [PATCH 31/41] fix: splitting valves could not be simulated on
 platforms with 64 bit indices

---
 multisim/precomp_funs.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index dd70407..cb617b9 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3613,12 +3613,7 @@ def solve_split_overload(arglist):
     solve_split(*arglist)
 
 
-@nb.jit(
-    (float64[:], int32[:], float64[:]),
-    nopython=True,
-    nogil=GLOB_NOGIL,
-    cache=True,
-)
+@njit(nogil=GLOB_NOGIL, cache=True)
 def solve_split(port_array, _port_link_idx, T):
     T[:] = port_array[_port_link_idx]
     T_in = T[0:2].sum() / 2
-- 
2.43.0


From e19778d62dd628c335ca8f15fe5e4db933b1ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 32/41] fix: emergency shutdown of heated pipes was triggered
 by rejected attempts

---
 multisim/precomp_funs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index cb617b9..02c5f56 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -1938,11 +1938,12 @@ def heatedpipe1D_diff(
 ):
     # shutdown gasboiler immediately if any temperatures are exceeding
     # emergency_shutdown-value
-    if np.any(T_ext >= emergency_shutdown):
-        dQ_heating[:] = 0.0
-
-    # save rate of heat flow to result array
+    # (only checked once per step, so that temperatures of intermediate or
+    # rejected results can't shut it down)
     if process_flows[0]:  # only if flows not already processed
+        if np.any(T_ext >= emergency_shutdown):
+            dQ_heating[:] = 0.0
+        # save rate of heat flow to result array
         res_dQ[stepnum] = dQ_heating
 
     process_flows[0] = _process_flow_invar(
-- 
2.43.0


From 3c44d31b753c627884a1a9e3df63d3e586db8eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:37 +0000
Subject: [PATCH 33/41] fix: upper bound of the modulation range of CHP plants
 was ignored

---
 multisim/parts/chp_plant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index f91ac06..75f54e0 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -736,6 +736,9 @@ class CHPPlant(Pipe):
             else:
                 self._bin_pow_fac = 1.0
                 self._chp_on = True  # chp is on
+                # limit to the upper bound of the modulation range:
+                if self._power_modulation[0] > self._mod_upper:
+                    self._power_modulation[0] = self._mod_upper
 
             # detect changes in the state to save start/stop times
             if (state_last_step != 0.0) != self._chp_on:
-- 
2.43.0


From 9a26a77125e3b442afdc45dd926df2dac51795c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:53 +0000
Subject: [PATCH 34/41] fix: report was written to a wrong path if name or
 folder contained '.h5'

---
 multisim/simenv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 68498db..b9e1211 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -595,7 +595,7 @@ class SimEnv:
             if not os.path.exists(
                 self._disk_store['path']
             ) and not os.path.exists(
-                self._disk_store['path'].replace('.h5', '_REPORT.csv')
+                self._disk_store['path'][: -len('.h5')] + '_REPORT.csv'
             ):
                 try:
                     open(self._disk_store['path_tmp'], 'x').close()
@@ -5696,7 +5696,7 @@ class SimEnv:
         rprt = pd.DataFrame.from_dict(info, orient='index')
         if self.__save_to_disk:
             rprt.to_csv(
-                self._disk_store['path'].replace('.h5', '_REPORT.csv'),
+                self._disk_store['path'][: -len('.h5')] + '_REPORT.csv',
                 header=False,
                 sep=';',
             )
-- 
2.43.0


From cb826fa511740de9bc27e88a6c36d702370edb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 35/41] fix: results could only be loaded with Windows path
 separators

---
 multisim/utility_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..12fab35 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -46,9 +46,7 @@ except ModuleNotFoundError:
 def load_sim_results(
     filename, path=r'.\results\\', keys='all', multiindex=True
 ):
-    # check for correct path layout:
-    if (path is not None) and (len(path) > 0) and (path[-1] != '\\'):
-        path = path + '\\'
+    path = '' if path is None else path
     # check for correct key structuring:
     if keys != 'all':
         keys = list(keys) if isinstance(keys, tuple) else keys
@@ -60,7 +58,7 @@ def load_sim_results(
         _keys = keys
 
     # open store in read only mode:
-    with pd.HDFStore(path + filename, mode='r') as store:
+    with pd.HDFStore(os.path.join(path, filename), mode='r') as store:
         # iterate over all groups and save them to a dict of dfs
         dfs = {}
         for p, g, lvs in store.walk():  # iterate over paths
-- 
2.43.0


From c8fc2517f805905733f56ebd00615522efccf0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:09 +0000
Subject: [PATCH 36/41] fix: packaging results failed to move files into the
 new folders without Windows path separators

---
 multisim/utility_functions.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 12fab35..3175946 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -181,12 +181,12 @@ def package_results(
     """
     # if move to and path do not have closing slashes, add them
     path = (
-        path + '\\'
+        path + os.sep
         if path[-1] not in ('\\', '\\\\', '/', '//', '////')
         else path
     )
     move_to = (
-        move_to + '\\'
+        move_to + os.sep
         if move_to[-1] not in ('\\', '\\\\', '/', '//', '////')
         else move_to
     )
@@ -200,11 +200,10 @@ def package_results(
     log_fls = _glob.glob('{0}*{1}*.log'.format(path, name_feature))
     # loop over h5 files:
     unresolved_files = []
-    pending_sims = []
     for fl in h5_fls:
         # get base filepath without ending and/or report, bc etc. suffixes
         # and construct report and bcs path and log identifer from it
-        fpath_base = fl.split('.h5')[0]
+        fpath_base = fl[: -len('.h5')]
         fpath_rprt = fpath_base + '_REPORT.csv'
         fpath_bcs = fpath_base + '_BCs.csv'
         # get identifier for log files by splitting the file name at the nfeat
@@ -232,7 +231,6 @@ def package_results(
         # also check if there is a file with the ending h5_tmp and skip if yes.
         # most probably there is still a sim running when this is true
         if os.path.isfile(fpath_base + '.h5_tmp'):
-            pending_sims.append(fpath_base)
             continue  # skip file
         # now that report and h5 exist, try copying all files to a directory
         # consisting of the move_to path + subdir with log idtfr (if log was
@@ -245,7 +243,7 @@ def package_results(
             move_to_pth = os.path.abspath(
                 '{0}{1}'.format(move_to, new_dirname)
             )
-        move_to_fl = '{0}\\{{0}}{{1}}'.format(move_to_pth)
+        move_to_fl = os.path.join(move_to_pth, '{0}{1}')
         # check if path exists and if not, create it:
         if not os.path.exists(move_to_pth):
             # try making the path and skip if already existing to avoid
@@ -271,16 +269,15 @@ def package_results(
             _shutil.move(fpath_log, move_to_pth)
     # get running sims:
     h5temp_fls = _glob.glob('{0}*{1}*.h5_tmp'.format(path, name_feature))
-    pending_sims.append(h5temp_fls)
     print(
         'Packaged results: {0}\nUnresolved files: {1}\n'
         'Pending Simulations: {2}'.format(
             len(h5_fls) - len(unresolved_files),
             len(unresolved_files),
-            len(pending_sims[0]),
+            len(h5temp_fls),
         )
     )
-    return {'unresolved': unresolved_files, 'pending': pending_sims[0]}
+    return {'unresolved': unresolved_files, 'pending': h5temp_fls}
 
 
 def add_line_to_log(line, filename='log.txt', path=''):
-- 
2.43.0


From 4e4fe12287082c9ea990100d848f854a3bbbb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:19 +0000
Subject: [PATCH 37/41] fix: loading results by name failed without Windows
 path separators, for all numbers and with other folders present

---
 multisim/utility_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 3175946..59fd6c2 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -113,29 +113,30 @@ def load_results_by_name(
         set_numbers = [set_numbers]
     if set_numbers is None:
         print('retrieving ALL RESULTS! WARNING, THIS MAY TAKE A LOOONG TIME!')
-    _pth = os.path.abspath(
-        '{0}\\{1}\\{2}\\'.format(base_path, set_name, sub_dir)
-    )
+    _pth = os.path.abspath(os.path.join(base_path, set_name, sub_dir))
     assert os.path.isdir(_pth), 'path not found:\n{0}'.format(_pth)
     ldir = os.listdir(_pth)  # get all items in path
     # get all dirs
     _subdirs = [
         sd
         for sd in ldir
-        if os.path.isdir(os.path.abspath(_pth + '\\' + sd))
+        if os.path.isdir(os.path.join(_pth, sd))
         and set_identifier in sd
     ]
     assert len(_subdirs) > 0, 'no simulations found with set_identifier'
+    _sn_sdirs = _subdirs
     if set_numbers is not None:
         # if set number is None, get ALL results. WARNING, SLOW! else get just
         # some which match set number and set identifier:
         _sn_sdirs = [
-            sd for sd in ldir if int(_re.findall(r'\d+', sd)[0]) in set_numbers
+            sd
+            for sd in _subdirs
+            if int(_re.findall(r'\d+', sd)[0]) in set_numbers
         ]
         assert len(_sn_sdirs) > 0, 'no simulations found with set_numbers'
     # generate paths to sim result files in each selected subdir:
     sim_res_fns = [
-        _glob.glob(_pth + '\\' + sd + '\\*' + result_file_ending)[0]
+        _glob.glob(os.path.join(_pth, sd, '*' + result_file_ending))[0]
         for sd in _sn_sdirs
     ]
     # load the sim res files
-- 
2.43.0


From 5ba6faa9ac1a08696ebb069ef555ec2198b8e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 38/41] fix: packaging took the log file (and name) of another
 simulation if its name starts the same

---
 multisim/utility_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 59fd6c2..08df599 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -211,8 +211,12 @@ def package_results(
         log_idtfr = (
             name_feature + os.path.basename(fpath_base).split(name_feature)[1]
         )
-        # find corresponding log file (if any)
-        fpath_log = [lfl for lfl in log_fls if log_idtfr in lfl]
+        # find corresponding log file (if any). the identifier must not be the
+        # beginning of another one (f.i. `LHS1` and `LHS12`) or of the path
+        log_re = _re.compile(_re.escape(log_idtfr) + r'(?![0-9A-Za-z])')
+        fpath_log = [
+            lfl for lfl in log_fls if log_re.search(os.path.basename(lfl))
+        ]
         # extract if any found, else set False
         fpath_log = fpath_log[0] if len(fpath_log) == 1 else False
         # extract new names from log name if found, else just strip leading
-- 
2.43.0


From 2108fbe9cd9de805200533f140888c04d23b3f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:50 +0000
Subject: [PATCH 39/41] fix: packaging results failed or dropped part of the
 name if a name with a log file contained a dot

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 08df599..a6bae8c 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -222,7 +222,7 @@ def package_results(
         # extract new names from log name if found, else just strip leading
         # date by given number of chars:
         new_name_prefix = (
-            os.path.basename(fpath_log).split('.')[0]
+            os.path.splitext(os.path.basename(fpath_log))[0]
             if fpath_log
             else os.path.basename(fpath_base)[ndate_chars:]
         )
-- 
2.43.0


From 69ca5ab7563a91af5b393a1672d00c83cc4b99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 40/41] fix: returned stored data took tables of parts with
 'meters' in their name for meters

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index b9e1211..695d632 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5739,7 +5739,7 @@ class SimEnv:
             ds_keys = self._disk_store['store'].keys()
             mtrs = {}  # temporary dict for meters
             for k in ds_keys:  # loop over keys to find meters
-                if 'meters' not in k:
+                if not k.startswith('/meters/'):
                     continue
                 mtrs[k.split('/')[2]] = self._disk_store['store'][k].copy()
             if len(mtrs) > 0:  # add them to dfs is meters were found
-- 
2.43.0


From 3cc4ee9127bc67182f3c64ebc35c6ef97f9229e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:09 +0000
Subject: [PATCH 41/41] fix: meters of different types with the same name
 replaced each other in the result file, volume flow meters with equal names
 each other in memory

---
 multisim/_utility/meters.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index f06b467..2f8df81 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -204,7 +204,7 @@ class Meters:
         # save to dict:
         self.meters['heat_meter'][name] = df
         if self._disk_saving:  # save to disk:
-            self._save_to_disk(name, df)
+            self._save_to_disk(name, df, 'heat_meter')
 
     def temperature(self, *, name, part, cell):
         """
@@ -247,7 +247,7 @@ class Meters:
 
         self.meters['temperature'][name] = df  # save to dict
         if self._disk_saving:  # save to disk:
-            self._save_to_disk(name, df)
+            self._save_to_disk(name, df, 'temperature')
 
     def massflow(self, *, name, part, cell):
         """
@@ -287,7 +287,7 @@ class Meters:
 
         self.meters['massflow'][name] = df  # save to dict
         if self._disk_saving:  # save to disk:
-            self._save_to_disk(name, df)
+            self._save_to_disk(name, df, 'massflow')
 
     def volumeflow(self, *, name, part, cell):
         """
@@ -305,9 +305,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
@@ -329,7 +329,7 @@ class Meters:
 
         self.meters['volumeflow'][name] = df  # save to dict
         if self._disk_saving:  # save to disk:
-            self._save_to_disk(name, df)
+            self._save_to_disk(name, df, 'volumeflow')
 
     def get_sensors_df(self):
         return self.meters_df
@@ -344,7 +344,11 @@ class Meters:
         else:
             return df
 
-    def _save_to_disk(self, name, meter):
+    def _save_to_disk(self, name, meter, meter_type):
+        # meters of different types may have the same name. Avoid overwriting
+        # the meter which was stored first under this name:
+        if sum(name in mtrs for mtrs in self.meters.values()) > 1:
+            name = '{0}_{1}'.format(name, meter_type)
         if self._save_to_disk:
             try:  # try to open in append/write mode
                 self._dstore.open(mode='a')
-- 
2.43.0

