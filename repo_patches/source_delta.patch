From 7907c15b5f7cbefc08662aab62ff395428886dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 01/32] fix: midplane density curvature counted only half the
 inflow term

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..e8f1b4d 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From 700ad0142c6aedec6d4736bd578c3aa067c67edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 02/32] =?UTF-8?q?fix:=20third-order=20Taylor=20term=20of?=
 =?UTF-8?q?=20v=5F=CE=B8=20took=20the=20coefficient=20of=20v=5F=CF=86?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index e8f1b4d..c9a67fe 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From 5ac4e09a2c4d2dc9e9b873616843ec81287c89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 03/32] fix: info sonic-on-scale failed without a sonic point,
 ignored output file

---
 src/disc_solver/analyse/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..f39dbff 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -118,8 +118,9 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         )
         print("{}: {}".format(
             soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+            None if sonic_θ is None
+            else sonic_θ / get_scale_height(soln_instance)
+        ), file=output_file)
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From e84d58c09b52f386b6d11b4bfebc852b70bfa3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 04/32] fix: main solution did not start at the end of the
 Taylor expansion

---
 src/disc_solver/solve/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..fb00d4e 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -411,7 +411,7 @@ def taylor_solution(
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     return TaylorSolution(
         angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
@@ -430,7 +430,7 @@ def taylor_jump(
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
-- 
2.43.0


From 8895ca9dca907049666d98c67d91eff443604efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 05/32] fix: interpolation to a crossing used a point beyond
 the bracketing pair

---
 src/disc_solver/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..afe18e3 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -436,8 +436,8 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # Only the two values bracketing y, stop is non-inclusive
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From b81f6a712d223c5f939ca16aec32771e839dcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 06/32] fix: slices with an open end, or no slice, did not
 survive being written as text

---
 src/disc_solver/file_format/_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..b11e51b 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -51,6 +51,10 @@ def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
+    if slice_ is None:
+        return "None"
+    if slice_.start is None or slice_.stop is None:
+        return str(slice_)
     return ','.join([
         str(i) for i in (slice_.start, slice_.stop, slice_.step)
         if i is not None
-- 
2.43.0


From f3726e483b147278021bfe96a2424caedc1ea79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 07/32] fix: a label with a percent sign could not be written
 to a config file

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index b11e51b..8c154a8 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -149,7 +149,7 @@ class ConfigInput:
         cfg["config"]["taylor_stop_angle"] = self.taylor_stop_angle
         cfg["config"]["max_steps"] = self.max_steps
         cfg["config"]["num_angles"] = self.num_angles
-        cfg["config"]["label"] = self.label
+        cfg["config"]["label"] = self.label.replace("%", "%%")
         cfg["config"]["relative_tolerance"] = self.relative_tolerance
         cfg["config"]["absolute_tolerance"] = self.absolute_tolerance
         cfg["config"]["nwalkers"] = self.nwalkers
-- 
2.43.0


From 3d234ad37ab8d9445d0c5a64016f3ab322630e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 08/32] fix: conversion to constant cylindrical radius scaled
 by heights in scale heights

---
 src/disc_solver/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index afe18e3..0301820 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -231,7 +231,8 @@ def get_vertical_scaling(angles, *, c_s_on_v_k):
     """
     Get scaling from spherical to vertical_scale
     """
-    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k)
+    # the heights are in scale heights, the radii in units of the radius
+    heights = c_s_on_v_k * get_heights(angles, c_s_on_v_k=c_s_on_v_k)
     return sqrt(1 + heights**2)
 
 
-- 
2.43.0


From 026654c9d2c8737227d2656cc834fc03c1b74f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 09/32] fix: derivatives of a solution were not unwrapped when
 read from a file

---
 src/disc_solver/file_format/_loaders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..80fc038 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -151,7 +151,7 @@ def _solution_loader_2(group):
         solution_input=group["solution_input"],
         t_roots=t_roots,
         y_roots=y_roots,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         sonic_point=None,
         sonic_point_values=None,
     )
@@ -189,7 +189,7 @@ def _solution_loader_3(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
     )
 
 
@@ -225,7 +225,7 @@ def _solution_loader_4(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         is_post_shock_only=group.attrs["is_post_shock_only"],
     )
 
-- 
2.43.0


From dc5dcdcaa4bb158ad4977e30119f9457db952bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 10/32] fix: old solution files could not be read, their
 loaders missed arguments

---
 src/disc_solver/file_format/_loaders.py | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 80fc038..60a42c7 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -23,7 +23,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -40,7 +39,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
@@ -249,6 +247,10 @@ def _config_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -273,6 +275,10 @@ def _config_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -298,6 +304,10 @@ def _config_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -355,6 +365,7 @@ def _config_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -668,6 +679,10 @@ def _input_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -695,6 +710,10 @@ def _input_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -723,6 +742,10 @@ def _input_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -786,6 +809,7 @@ def _input_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
-- 
2.43.0


From 18d52ed8294c8118f5150746f91dd95511d705d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 11/32] fix: a problem could not be deleted by the key it was
 recorded under

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 8c154a8..734715b 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -367,7 +367,7 @@ class Problems(MutableMapping):
             self._problems[str(key)].extend(val)
 
     def __delitem__(self, key):
-        del self._problems[key]
+        del self._problems[str(key)]
 
     def __iter__(self):
         yield from self._problems
-- 
2.43.0


From c97db2a4dea49131ae98905a972c3e45624c9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 12/32] fix: the first row of a table without header was taken
 for a header

---
 src/disc_solver/solve/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..1aaa498 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader as csv_reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -234,9 +234,12 @@ class CSVReaderHelper:
         Checks if csv file has header
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(csv_reader(iter(self), dialect="unix"), [])
         self.file.seek(0)
-        return has_header
+        return any(
+            name in CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS
+            for name in first_row
+        )
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From 49a07b767cc4e263950f72432fd8b07f51729248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 13/32] fix: rows of a table without header lacking the newer
 fields could not be used

---
 src/disc_solver/solve/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 1aaa498..1675556 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -194,7 +194,10 @@ def filter_csv_columns(seq, *, columns):
     """
     new_seq = []
     for d in seq:
-        new_seq.append({k: v for k, v in d.items() if k in columns})
+        # rows may be shorter than the fields, those missing have no value
+        new_seq.append({
+            k: v for k, v in d.items() if k in columns and v is not None
+        })
     return new_seq
 
 
-- 
2.43.0


From d4a98b9afa759961bd6af047ce6685bc27aa9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 14/32] fix: the stepper crashed for a split method that is
 unset or unknown

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..9d1893d 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -248,7 +248,7 @@ def create_soln_splitter(method):
         "human": human_view_splitter_generator,
     }
 
-    return method_dict.get(method)() or v_θ_deriv_splitter
+    return method_dict.get(method, lambda: v_θ_deriv_splitter)()
 
 
 def solution_generator(*, store_internal=True):
-- 
2.43.0


From 2958596f5f796d42cfcef3bc1ab6ab2621e29888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 15/32] fix: stepping changed the recorded input of the
 solution stepped from

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 9d1893d..e22b163 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,7 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From 3de5e26d11e9141b94dfa801c15d8e90417aaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 16/32] =?UTF-8?q?fix:=20a=20step=20search=20starting=20fro?=
 =?UTF-8?q?m=20=CE=B3=20of=20zero=20never=20ended?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/stepper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index e22b163..86afb09 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,6 +279,8 @@ def step_input():
         """
         Return new input
         """
+        if step_size == 0:
+            raise StepperError("Step size is zero, unable to step")
         inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
-- 
2.43.0


From 6e14e17355a88f6c463055e0432a1a3e62950ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 17/32] fix: the fast crosser changed the recorded input of
 each solution to that of the next

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..1e9a4b4 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
-- 
2.43.0


From 6f779d2237cb9263cf93a3d20283b00e673e3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 18/32] fix: the golden-section search of the fast crosser
 started outside its limits

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 1e9a4b4..f9c55d6 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -120,7 +120,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) * (GOLDEN_RATIO - 1)
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From 2f5383df9253e45836b4ac29364d8ca1a6f71820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 19/32] fix: the fast crosser crashed when it found no solution

---
 src/disc_solver/solve/fast_crosser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index f9c55d6..61403ad 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -227,8 +227,10 @@ def solver(
     if not isinstance(run.final_solution, Solution):
         if isinstance(best_solution, Solution):
             run.final_solution = best_solution
-        else:
+        elif len(run.solutions) > 0:
             run.final_solution = run.solutions.get_last_solution()
+        else:
+            run.final_solution = None
 
     if run.final_solution is None:
         # This implies there were no solutions found
-- 
2.43.0


From 7db1a899c88a0638cf13ee7df2531f33f2cddbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 20/32] fix: a solution containing NaN aborted the MCMC search

---
 src/disc_solver/solve/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..2db01df 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -133,7 +133,7 @@ class LogProbGenerator:
             return - float("inf")
         logprob = get_logprob_of_soln(soln)
         if not isfinite(logprob):
-            return logprob
+            return - float("inf")
         soln_index = self._run.solutions.add_solution(soln)
         if logprob > self._best_logprob:
             self._best_logprob = logprob
-- 
2.43.0


From b469e6b26f485966544237d233af683c9dc52eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 21/32] fix: the sonic root solver crashed for every solution
 that did not fail

---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From 19ed486ff9f48b1b22dc904331b0ecffb71e0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 22/32] fix: the sonic root solver overwrote the start
 conditions at the midplane

---
 src/disc_solver/solve/sonic_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..956888a 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -187,6 +187,7 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     """
     θ_sonic = guess[TotalVars.θ_sonic]
     mod_cons = InitialConditions(**vars(initial_conditions))
+    mod_cons.init_con = initial_conditions.init_con.copy()
     mod_cons.angles = linspace(
         θ_sonic, sonic_stop, len(initial_conditions.angles)
     )
-- 
2.43.0


From d33ce3d60db5c665ade92c2332beefb0c70f62f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 23/32] fix: the Taylor space scan exchanged Hall and ambipolar
 diffusivity

---
 src/disc_solver/solve/taylor_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/taylor_space.py b/src/disc_solver/solve/taylor_space.py
index 6b9ebcc..bc725e2 100644
--- a/src/disc_solver/solve/taylor_space.py
+++ b/src/disc_solver/solve/taylor_space.py
@@ -135,8 +135,8 @@ def solution_input_generator(
             v_a_on_c_s=v_a_on_c_s[i],
             c_s_on_v_k=c_s_on_v_k[i],
             η_O=η_O,
-            η_H=η_A,
-            η_A=η_H,
+            η_H=η_H,
+            η_A=η_A,
         )
 
 
-- 
2.43.0


From bb0458b1fefc6815d1c1d9b2f1b730ad2f261b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 24/32] fix: the residual of polar induction had wrong signs in
 the Hall and ambipolar terms

---
 src/disc_solver/analyse/validate_plot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..903900f 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
         ) + values.B_φ * (
             values.η_H * (
-                values.norm_B_r * (1 - initial_conditions.β) -
-                values.norm_B_θ * tan(values.angles)
-            ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * tan(values.angles) -
+                values.norm_B_r * (1 - initial_conditions.β)
+            ) + values.η_A * values.norm_B_φ * (
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From 747c5caac38aff67b1e7f0028f8336af796f11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 25/32] fix: the parts of radial momentum shown did not add up
 to their sum

---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0


From 617c0378c2bcc8cac6a88df1d96a1b5ccd507b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 26/32] fix: the angles of the Taylor comparison plot were
 converted to degrees twice

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From 962c8b2d66ad27743c24be8fff01d0cd06ded67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 27/32] fix: the surface density shown was a sum over stored
 points, whatever their spacing

---
 src/disc_solver/analyse/surface_density_plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/surface_density_plot.py b/src/disc_solver/analyse/surface_density_plot.py
index 1e6126c..5598577 100644
--- a/src/disc_solver/analyse/surface_density_plot.py
+++ b/src/disc_solver/analyse/surface_density_plot.py
@@ -2,7 +2,8 @@
 """
 surface-density-plot command for DiscSolver
 """
-from numpy import degrees, cumsum
+from numpy import degrees
+from scipy.integrate import cumulative_trapezoid
 
 from ..utils import ODEIndex
 from .utils import (
@@ -71,7 +72,9 @@ def generate_surface_density_plot(
 
     indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
-    cum_σ = cumsum(solution[:, ODEIndex.ρ])
+    cum_σ = cumulative_trapezoid(
+        solution[:, ODEIndex.ρ], x=angles, initial=0
+    )
     axes = fig.subplots()
     axes.plot(degrees(angles[indexes]), cum_σ[indexes])
     axes.set_xlabel("angle from plane (°)")
-- 
2.43.0


From 5120d53270aa8eeff3d2110012f636f5c2ede7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 28/32] fix: the surface density was a sum over stored points,
 whatever their spacing

---
 src/disc_solver/analyse/phys_ratio_plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/phys_ratio_plot.py b/src/disc_solver/analyse/phys_ratio_plot.py
index 598bf37..6c393e6 100644
--- a/src/disc_solver/analyse/phys_ratio_plot.py
+++ b/src/disc_solver/analyse/phys_ratio_plot.py
@@ -2,7 +2,7 @@
 """
 Plot command for DiscSolver
 """
-from numpy import degrees, sum as np_sum, pi
+from numpy import degrees, pi
 from scipy.integrate import simpson as simps
 
 from ..float_handling import float_type
@@ -190,4 +190,6 @@ def compute_Σ(soln, indexes=slice(None)):
     """
     Compute Σ
     """
-    return np_sum(soln.solution[indexes, ODEIndex.ρ])
+    return simps(
+        y=soln.solution[indexes, ODEIndex.ρ], x=soln.angles[indexes]
+    )
-- 
2.43.0


From 73e314e972c5a127b5ba9c6e7dc3e6faa1a6044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 29/32] fix: the largest residuals in the statistics ignored
 negative residuals

---
 src/disc_solver/analyse/stats.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..a4a8569 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -69,27 +69,27 @@ def compute_max_difference_in_equations(solution):
     """
     values = get_values(solution)
     return {
-        "max_diff_continuity": max(validate_continuity(
+        "max_diff_continuity": max(absolute(validate_continuity(
             values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
+        ))),
+        "max_diff_solenoid": max(absolute(validate_solenoid(
             values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
+        ))),
+        "max_diff_radial_momentum": max(absolute(validate_radial_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
+        ))),
+        "max_diff_azimuthal_momentum": max(absolute(validate_azimuthal_mometum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
+        ))),
+        "max_diff_polar_momentum": max(absolute(validate_polar_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
+        ))),
+        "max_diff_polar_induction": max(absolute(validate_polar_induction(
             values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+        ))),
+        "max_diff_E_φ": max(absolute(validate_E_φ(
             values.initial_conditions, values
-        )),
+        ))),
     }
 
 
-- 
2.43.0


From 127542d27272048b0d914399e69ba181c2b69481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 30/32] fix: ds-flow-file failed on every use as it was given
 an argument of the plot

---
 src/disc_solver/analyse/trajectory.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..e7cccdc 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -133,10 +133,6 @@ def trajectory_parser(parser):
     parser.add_argument(
         "--B-step-scaling", type=float, default=DEFAULT_B_STEP_SCALING,
     )
-    parser.add_argument(
-        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
-        default=True
-    )
     return parser
 
 
@@ -145,6 +141,10 @@ def plot_parser(parser):
     Add arguments for plot command to parser
     """
     trajectory_parser(parser)
+    parser.add_argument(
+        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
+        default=True
+    )
     common_plot_appearence_options(parser)
     common_output_plot_options(parser)
     return parser
@@ -163,7 +163,7 @@ def trajectory_output_parser(parser):
 
 def get_args(args):
     """
-    Parse plot args
+    Parse trajectory args
     """
     v_start_position = args.get("v_start_position")
     if v_start_position is None:
@@ -185,7 +185,6 @@ def get_args(args):
     v_step_scaling = args.get("v_step_scaling", DEFAULT_V_STEP_SCALING)
     B_max_steps = args.get("B_max_steps", DEFAULT_B_MAX_STEPS)
     B_step_scaling = args.get("B_step_scaling", DEFAULT_B_STEP_SCALING)
-    with_max_v_angle = args.get("with_max_v_angle")
 
     return {
         "v_start_position": v_start_position,
@@ -194,7 +193,16 @@ def get_args(args):
         "B_start_position": B_start_position,
         "B_max_steps": B_max_steps,
         "B_step_scaling": B_step_scaling,
-        "with_max_v_angle": with_max_v_angle,
+    }
+
+
+def get_plot_args(args):
+    """
+    Parse plot args
+    """
+    return {
+        **get_args(args),
+        "with_max_v_angle": args.get("with_max_v_angle", True),
     }
 
 
@@ -316,7 +324,7 @@ def save_trajectory(
     cmd_parser_splitters={
         "common_plot_output_args": get_common_plot_output_args,
         "common_plot_appearence_args": get_common_plot_appearence_args,
-        "plot_args": get_args,
+        "plot_args": get_plot_args,
     }
 )
 def plot_main(
-- 
2.43.0


From 8da475258704ace639b63901ef134dab1de38ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 31/32] fix: a trajectory starting beyond the solution crashed
 instead of being empty

---
 src/disc_solver/analyse/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index e7cccdc..b2a57df 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
-- 
2.43.0


From bd5e50e96d6e1bdb3b97b560e96855cfd857dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 32/32] fix: the value at the next stored angle was used
 instead of the closest

---
 src/disc_solver/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 0301820..96e1c5b 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -461,4 +461,7 @@ def get_closest_value_sorted(*, xs, ys, x):
 
     `xs` must be sorted, `ys` does not.
     """
-    return ys[searchsorted(xs, x)]
+    idx = searchsorted(xs, x)
+    if 0 < idx < len(xs) and x - xs[idx - 1] < xs[idx] - x:
+        idx = idx - 1
+    return ys[idx]
-- 
2.43.0

