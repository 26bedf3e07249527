From abb8618930d38bd97ec6be4d806bf780382b840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 01/15] fix: DVLabel no longer appends to the caller's variable
 list

---
 openconcept/utilities/dvlabel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openconcept/utilities/dvlabel.py b/openconcept/utilities/dvlabel.py
index 3d803e0..72875ab 100644
--- a/openconcept/utilities/dvlabel.py
+++ b/openconcept/utilities/dvlabel.py
@@ -27,7 +27,8 @@ class DVLabel(ExplicitComponent):
 
     def __init__(self, vars_list):
         super(DVLabel, self).__init__()
-        self.vars_list = vars_list
+        # copy, so that the list the caller passed in is left as it is
+        self.vars_list = [list(var_list) for var_list in vars_list]
         for i, var_list in enumerate(self.vars_list):
             val = var_list[2]
             if isinstance(val, (float, int)) or np.isscalar(val):
-- 
2.43.0


From b0a084a75da96e5ae515a4cbcf88bf7acc50c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 02/15] fix: constant starting guesses in
 PerfectHeatTransferComp instead of draws from the caller's random stream

---
 openconcept/thermal/thermal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openconcept/thermal/thermal.py b/openconcept/thermal/thermal.py
index df6b28e..c7a772c 100644
--- a/openconcept/thermal/thermal.py
+++ b/openconcept/thermal/thermal.py
@@ -42,13 +42,11 @@ class PerfectHeatTransferComp(ExplicitComponent):
         self.add_input("T_in", desc="Incoming coolant temp", units="K", shape=(nn,))
         self.add_input("q", desc="Heat INTO the fluid stream (positive is heat addition)", units="W", shape=(nn,))
         self.add_input("mdot_coolant", desc="Mass flow rate of coolant", units="kg/s", shape=(nn,))
-        self.add_output(
-            "T_out", desc="Outgoing coolant temp", val=np.random.uniform(300, 330), lower=1e-10, units="K", shape=(nn,)
-        )
+        self.add_output("T_out", desc="Outgoing coolant temp", val=320.0, lower=1e-10, units="K", shape=(nn,))
         self.add_output(
             "T_average",
             desc="Average temp of fluid",
-            val=np.random.uniform(300, 330),
+            val=310.0,
             lower=1e-10,
             units="K",
             shape=(nn,),
-- 
2.43.0


From f5c05b221624b8b12123dfc8223f99a4f53cbbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 03/15] fix: IntegratorGroup can be set up repeatedly and as
 the top-level model

---
 openconcept/mission/mission_groups.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..6f059e2 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -212,6 +212,16 @@ class IntegratorGroup(om.Group):
         # (This IntegratorGroup is never added directly to the OM model)
         time_units = self._oc_time_units
         num_nodes = self.options["num_nodes"]
+
+        # The group may be set up more than once. Drop what the previous setup left behind: its integrator (which
+        # still holds that setup's integrands) and the state that tells add_subsystem how far that setup got. The
+        # latter is initialized again by om.Group's _setup_procs.
+        self._subsystems_allprocs.pop("ode_integ", None)
+        self._static_subsystems_allprocs.pop("ode_integ", None)
+        self._setup_procs_finished = False
+        self._problem_meta = None
+        self._n_auto_comps = 0
+
         self.add_subsystem(
             "ode_integ",
             Integrator(time_setup="duration", method="simpson", diff_units=time_units, num_nodes=num_nodes),
-- 
2.43.0


From 7c4806c916b752ebbb80da7a2990035301468782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 04/15] fix: TrajectoryGroup forgets links requested by an
 earlier setup

---
 openconcept/mission/mission_groups.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 6f059e2..96153ac 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -300,8 +300,14 @@ class IntegratorGroup(om.Group):
 class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
+        # links requested before setup are kept, links requested during setup are requested again at the next setup
+        self._oc_static_phases_to_link = []
         self._oc_phases_to_link = []
 
+    def _setup_procs(self, *args):
+        self._oc_phases_to_link = self._oc_static_phases_to_link.copy()
+        super(TrajectoryGroup, self)._setup_procs(*args)
+
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
         for linkage in self._oc_phases_to_link:
@@ -341,4 +347,7 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        if self._static_mode:
+            self._oc_static_phases_to_link.append((phase1, phase2, states_to_skip))
+        else:
+            self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From 0b5a2cc88633e45ff917f646888be9f9e5919403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 05/15] fix: keep the sparsity of integrator time derivatives
 when a rate vanishes

---
 openconcept/utilities/math/integrals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..ed71fd1 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -211,8 +211,13 @@ def multistep_integrator(q0, dqdt, dts, tri_mat, repeat_mat, segment_names=None,
                 row_list.append([tri_mat])
             else:
                 row_list.append([sp.csr_matrix(([], ([], [])), shape=(n, n))])
-        dQddt = sp.bmat(row_list).dot(dqdt[j * n : (j + 1) * n])
-        dt_partials_list.append(sp.csr_matrix(dQddt).transpose())
+        dQddt_mat = sp.bmat(row_list).asformat("csr")
+        dQddt = dQddt_mat.dot(dqdt[j * n : (j + 1) * n])
+        # keep the entries that happen to be zero (e.g. where the rate vanishes) so the sparsity never depends on the rate
+        rows = np.flatnonzero(np.diff(dQddt_mat.indptr))
+        dt_partials_list.append(
+            sp.csr_matrix((dQddt[rows], (rows, np.zeros(len(rows), dtype=int))), shape=(len(dQddt), 1))
+        )
 
     return dQdqdt, dt_partials_list
 
-- 
2.43.0


From 56bd92e21e8c30a3da104a22e381af00e0f6af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 06/15] fix: AddSubtractComp keeps units and descriptions when
 it is set up again

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..1f272f5 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units")
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From f5c03e7cff57859c70f60bec0b67176d0bb93c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 07/15] fix: VLMDataGen keeps its own training grid and never
 caches a failed training

---
 .../aerodynamics/openaerostruct/drag_polar.py | 76 ++++++++-----------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..e64b095 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -1,7 +1,7 @@
 import numpy as np
 import openmdao.api as om
 from time import time
-from copy import copy, deepcopy
+from copy import deepcopy
 import multiprocessing as mp
 
 # Atmospheric calculations
@@ -480,60 +480,50 @@ class VLMDataGen(om.ExplicitComponent):
         else:
             VLMDataGen.surf_options = deepcopy(self.options["surf_options"])
 
-        # Generate grids and default cached values for training inputs and outputs
-        VLMDataGen.mesh = -np.ones((nx + 1, ny + 1, 3))
-        VLMDataGen.toverc = -np.ones(ny)
-        VLMDataGen.temp_incr = -42 * np.ones(1)
-        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = np.meshgrid(
+        # Generate grids of training inputs
+        self.Mach, self.alpha, self.alt = np.meshgrid(
             self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
         )
-        VLMDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.partials = None
 
-    def compute(self, inputs, outputs):
-        mesh = inputs["ac|geom|wing|OAS_mesh"]
-        toverc = inputs["ac|geom|wing|toverc"]
-        temp_incr = inputs["fltcond|TempIncrement"]
+        # Training data most recently computed by any instance and the training inputs it belongs to
+        VLMDataGen.cache = None
 
-        # If the inputs are unchaged, use the previously calculated values
-        tol = 1e-13  # floating point comparison tolerance
-        if (
-            np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
-            and np.all(np.abs(toverc - VLMDataGen.toverc) < tol)
-            and np.abs(temp_incr - VLMDataGen.temp_incr) < tol
-        ):
-            outputs["CL_train"] = VLMDataGen.CL
-            outputs["CD_train"] = VLMDataGen.CD
-            return
-
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
-        # Compute new training values
+    def _get_training_data(self, inputs):
         train_in = {}
-        train_in["Mach_number_grid"] = VLMDataGen.Mach
-        train_in["alpha_grid"] = VLMDataGen.alpha
-        train_in["alt_grid"] = VLMDataGen.alt
-        train_in["TempIncrement"] = temp_incr
-        train_in["mesh"] = mesh
-        train_in["toverc"] = toverc
+        train_in["Mach_number_grid"] = self.Mach
+        train_in["alpha_grid"] = self.alpha
+        train_in["alt_grid"] = self.alt
+        train_in["TempIncrement"] = inputs["fltcond|TempIncrement"].copy()
+        train_in["mesh"] = inputs["ac|geom|wing|OAS_mesh"].copy()
+        train_in["toverc"] = inputs["ac|geom|wing|toverc"].copy()
         train_in["num_x"] = self.options["num_x"]
         train_in["num_y"] = self.options["num_y"]
 
+        # If the inputs are unchaged, use the previously calculated values
+        tol = 1e-13  # floating point comparison tolerance
+        if VLMDataGen.cache is not None:
+            cached_in, data = VLMDataGen.cache
+            if all(
+                np.shape(cached_in[key]) == np.shape(train_in[key])
+                and np.all(np.abs(train_in[key] - cached_in[key]) < tol)
+                for key in train_in
+            ):
+                return data
+
+        # Compute new training values, which are only kept if the computation succeeds
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        VLMDataGen.CL[:] = data["CL"]
-        VLMDataGen.CD[:] = data["CD"]
-        VLMDataGen.partials = copy(data["partials"])
-        outputs["CL_train"] = VLMDataGen.CL
-        outputs["CD_train"] = VLMDataGen.CD
+        VLMDataGen.cache = (train_in, data)
+        return data
+
+    def compute(self, inputs, outputs):
+        data = self._get_training_data(inputs)
+        outputs["CL_train"] = data["CL"]
+        outputs["CD_train"] = data["CD"]
 
     def compute_partials(self, inputs, partials):
         # Compute partials if they haven't been already and return them
-        self.compute(inputs, {})
-        for key, value in VLMDataGen.partials.items():
+        data = self._get_training_data(inputs)
+        for key, value in data["partials"].items():
             partials[key][:] = value
 
 
-- 
2.43.0


From 3efa8f91b21213ab37cda629c758037c067d956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 08/15] fix: OASDataGen keeps its own training grid and never
 caches a failed training

---
 .../openaerostruct/aerostructural.py          | 133 +++++++-----------
 1 file changed, 47 insertions(+), 86 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..2cdf978 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -1,7 +1,7 @@
 import numpy as np
 import openmdao.api as om
 from time import time
-from copy import copy, deepcopy
+from copy import deepcopy
 import multiprocessing as mp
 import warnings
 
@@ -422,104 +422,65 @@ class OASDataGen(om.ExplicitComponent):
         else:
             OASDataGen.surf_options = deepcopy(self.options["surf_options"])
 
-        # Generate grids and default cached values for training inputs and outputs
-        OASDataGen.S = -np.ones(1)
-        OASDataGen.AR = -np.ones(1)
-        OASDataGen.taper = -np.ones(1)
-        OASDataGen.c4sweep = -np.ones(1)
-        OASDataGen.twist = -1 * np.ones((self.options["num_twist"],))
-        OASDataGen.toverc = -1 * np.ones((self.options["num_toverc"],))
-        OASDataGen.skin = -1 * np.ones((self.options["num_skin"],))
-        OASDataGen.spar = -1 * np.ones((self.options["num_spar"],))
-        OASDataGen.temp_incr = -42 * np.ones(1)
-        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = np.meshgrid(
+        # Generate grids of training inputs
+        self.Mach, self.alpha, self.alt = np.meshgrid(
             self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
         )
-        OASDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.failure = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.W_wing = 0
-        OASDataGen.partials = None
 
-    def compute(self, inputs, outputs):
-        S = inputs["ac|geom|wing|S_ref"]
-        AR = inputs["ac|geom|wing|AR"]
-        taper = inputs["ac|geom|wing|taper"]
-        sweep = inputs["ac|geom|wing|c4sweep"]
-        twist = inputs["ac|geom|wing|twist"]
-        toverc = inputs["ac|geom|wing|toverc"]
-        skin = inputs["ac|geom|wing|skin_thickness"]
-        spar = inputs["ac|geom|wing|spar_thickness"]
-        CD_nonwing = inputs["ac|aero|CD_nonwing"]
-        temp_incr = inputs["fltcond|TempIncrement"]
+        # Training data most recently computed by any instance and the training inputs it belongs to
+        OASDataGen.cache = None
 
-        # If the inputs are unchaged, use the previously calculated values
-        tol = self.options["regen_tol"]  # floating point comparison tolerance
-        if (
-            np.abs(S - OASDataGen.S) < tol
-            and np.abs(AR - OASDataGen.AR) < tol
-            and np.abs(taper - OASDataGen.taper) < tol
-            and np.abs(sweep - OASDataGen.c4sweep) < tol
-            and np.all(np.abs(twist - OASDataGen.twist) < tol)
-            and np.all(np.abs(toverc - OASDataGen.toverc) < tol)
-            and np.all(np.abs(skin - OASDataGen.skin) < tol)
-            and np.all(np.abs(spar - OASDataGen.spar) < tol)
-            and np.abs(temp_incr - OASDataGen.temp_incr) < tol
-        ):
-            outputs["CL_train"] = OASDataGen.CL
-            outputs["CD_train"] = OASDataGen.CD + CD_nonwing
-            outputs["failure_train"] = OASDataGen.failure
-            outputs["W_wing"] = OASDataGen.W_wing
-            return
-
-        print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
-        print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
-
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
-        # Compute new training values
+    def _get_training_data(self, inputs):
         train_in = {}
-        train_in["Mach_number_grid"] = OASDataGen.Mach
-        train_in["alpha_grid"] = OASDataGen.alpha
-        train_in["alt_grid"] = OASDataGen.alt
-        train_in["TempIncrement"] = temp_incr
-        train_in["S_ref"] = S
-        train_in["AR"] = AR
-        train_in["taper"] = taper
-        train_in["c4sweep"] = sweep
-        train_in["twist"] = twist
-        train_in["toverc"] = toverc
-        train_in["skin"] = skin
-        train_in["spar"] = spar
+        train_in["Mach_number_grid"] = self.Mach
+        train_in["alpha_grid"] = self.alpha
+        train_in["alt_grid"] = self.alt
+        train_in["TempIncrement"] = inputs["fltcond|TempIncrement"].copy()
+        train_in["S_ref"] = inputs["ac|geom|wing|S_ref"].copy()
+        train_in["AR"] = inputs["ac|geom|wing|AR"].copy()
+        train_in["taper"] = inputs["ac|geom|wing|taper"].copy()
+        train_in["c4sweep"] = inputs["ac|geom|wing|c4sweep"].copy()
+        train_in["twist"] = inputs["ac|geom|wing|twist"].copy()
+        train_in["toverc"] = inputs["ac|geom|wing|toverc"].copy()
+        train_in["skin"] = inputs["ac|geom|wing|skin_thickness"].copy()
+        train_in["spar"] = inputs["ac|geom|wing|spar_thickness"].copy()
         train_in["num_x"] = self.options["num_x"]
         train_in["num_y"] = self.options["num_y"]
 
+        # If the inputs are unchaged, use the previously calculated values
+        exact = ["Mach_number_grid", "alpha_grid", "alt_grid", "num_x", "num_y"]
+        tol = self.options["regen_tol"]  # floating point comparison tolerance
+        if OASDataGen.cache is not None:
+            cached_in, data = OASDataGen.cache
+            if all(np.array_equal(train_in[key], cached_in[key]) for key in exact) and all(
+                np.shape(cached_in[key]) == np.shape(train_in[key])
+                and np.all(np.abs(train_in[key] - cached_in[key]) < tol)
+                for key in train_in
+                if key not in exact
+            ):
+                return data
+
+        print("; ".join(f"{key} = {train_in[key]}" for key in ["S_ref", "AR", "taper", "c4sweep", "twist"]) + ";")
+        print("; ".join(f"{key} = {train_in[key]}" for key in ["toverc", "skin", "spar", "TempIncrement"]))
+
+        # Compute new training values, which are only kept if the computation succeeds
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        OASDataGen.CL[:] = data["CL"]
-        OASDataGen.CD[:] = data["CD"]
-        OASDataGen.failure[:] = data["failure"]
-        OASDataGen.W_wing = data["W_wing"]
-        OASDataGen.partials = copy(data["partials"])
-        outputs["CL_train"] = OASDataGen.CL
-        outputs["CD_train"] = OASDataGen.CD + CD_nonwing
-        outputs["failure_train"] = OASDataGen.failure
-        outputs["W_wing"] = OASDataGen.W_wing
+        OASDataGen.cache = (train_in, data)
+        return data
+
+    def compute(self, inputs, outputs):
+        data = self._get_training_data(inputs)
+        outputs["CL_train"] = data["CL"]
+        outputs["CD_train"] = data["CD"] + inputs["ac|aero|CD_nonwing"]
+        outputs["failure_train"] = data["failure"]
+        outputs["W_wing"] = data["W_wing"]
 
     def compute_partials(self, inputs, partials):
         # Compute partials if they haven't been already and return them
-        self.compute(inputs, {})
-        for key, value in OASDataGen.partials.items():
+        data = self._get_training_data(inputs)
+        for key, value in data["partials"].items():
             partials[key][:] = value
-        partials["CD_train", "ac|aero|CD_nonwing"] = np.ones(OASDataGen.CD.shape)
+        partials["CD_train", "ac|aero|CD_nonwing"] = np.ones(self.Mach.shape)
 
 
 """
-- 
2.43.0


From 15aba3dfff9c518807e1d373affc196929bba8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 09/15] fix: compute the second engine's throttle before the
 engine in TwinTurbopropPropulsionSystem

The group has no feedback and no solver, but listed the component that computes the
second engine's throttle after the engine, so a single run used the throttle and
failure flag of the previous run.
---
 openconcept/propulsion/systems/simple_turboprop.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openconcept/propulsion/systems/simple_turboprop.py b/openconcept/propulsion/systems/simple_turboprop.py
index 04c5a7f..b04b5da 100644
--- a/openconcept/propulsion/systems/simple_turboprop.py
+++ b/openconcept/propulsion/systems/simple_turboprop.py
@@ -116,6 +116,11 @@ class TwinTurbopropPropulsionSystem(Group):
     def setup(self):
         nn = self.options["num_nodes"]
 
+        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
+        failedengine = ElementMultiplyDivideComp()
+        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
+        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
+
         # Introduce turboshaft and propeller components (one for each side)
         self.add_subsystem(
             "eng1",
@@ -150,10 +155,6 @@ class TwinTurbopropPropulsionSystem(Group):
         self.set_input_defaults("ac|propulsion|engine|rating", 750.0, units="hp")
         self.set_input_defaults("ac|propulsion|propeller|diameter", 2.28, units="m")
 
-        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
-        failedengine = ElementMultiplyDivideComp()
-        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
-        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
         self.connect("failedengine.eng2throttle", "eng2.throttle")
 
         # Connect components to each other
-- 
2.43.0


From 10b0303ea246949f8edb411fd0a051b1b7c7e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 10/15] fix: COPExplicit gives a number when both sides are at
 the same temperature

---
 openconcept/thermal/chiller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/chiller.py b/openconcept/thermal/chiller.py
index 505cbbc..2415186 100644
--- a/openconcept/thermal/chiller.py
+++ b/openconcept/thermal/chiller.py
@@ -331,9 +331,12 @@ class COPExplicit(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         delta_T = inputs["T_h"] - inputs["T_c"]
-        COP_raw = inputs["T_c"] / (delta_T)
+        # tanh(delta_T) / delta_T has a limit of one where the two temperatures are equal
+        tanh_ratio = np.ones_like(delta_T)
+        nonzero = delta_T != 0
+        tanh_ratio[nonzero] = np.tanh(delta_T[nonzero]) / delta_T[nonzero]
         alpha = -1.5
-        a = COP_raw * np.tanh(delta_T) * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
+        a = inputs["T_c"] * tanh_ratio * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
         b = 10.0
         COP_soft = (a * np.exp(alpha * a) + b * np.exp(alpha * b)) / (np.exp(alpha * a) + np.exp(alpha * b))
         outputs["COP"] = COP_soft
-- 
2.43.0


From 4a807fb18f5b67bf4fbb7939a6c63847dd3d19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 11/15] fix: the refrigerated hybrid system passes its nozzle
 area to the duct

---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..9d01118 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -401,6 +401,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
             HXGroup(num_nodes=nn),
             promotes_inputs=["ac|*", ("rho_cold", "fltcond|rho"), ("T_in_cold", "fltcond|T")],
         )
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.connect("duct.mdot", "hx.mdot_cold")
         self.connect("hx.delta_p_cold", "duct.delta_p_hex")
 
-- 
2.43.0


From 89b9de4ed65839e7f0a71a29266abafbce02f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 12/15] fix: BFLImplicitSolve compares distances although
 round-off left V1 just above VR

---
 openconcept/mission/phases.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..bcf6361 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -154,6 +154,7 @@ class BFLImplicitSolve(ImplicitComponent):
 
     def apply_nonlinear(self, inputs, outputs, residuals):
         speedtol = 1e-1
+        roundtol = 1e-5  # v1 still counts as equal to vr when the solver left it this far above
         disttol = 0
         # force the decision speed to zero
         if inputs["takeoff|vr"] < outputs["takeoff|v1"] + speedtol:
@@ -163,7 +164,7 @@ class BFLImplicitSolve(ImplicitComponent):
 
         # if you are within vtol on the correct side but the stopping distance bigger, use the regular mode
         if (
-            inputs["takeoff|vr"] >= outputs["takeoff|v1"]
+            inputs["takeoff|vr"] - outputs["takeoff|v1"] > -roundtol
             and inputs["takeoff|vr"] - outputs["takeoff|v1"] < speedtol
             and (inputs["distance_abort"] - inputs["distance_continue"]) > disttol
         ):
@@ -171,6 +172,7 @@ class BFLImplicitSolve(ImplicitComponent):
 
     def linearize(self, inputs, outputs, partials):
         speedtol = 1e-1
+        roundtol = 1e-5  # v1 still counts as equal to vr when the solver left it this far above
         disttol = 0
 
         if inputs["takeoff|vr"] < outputs["takeoff|v1"] + speedtol:
@@ -185,7 +187,7 @@ class BFLImplicitSolve(ImplicitComponent):
             partials["takeoff|v1", "takeoff|v1"] = 0
 
         if (
-            inputs["takeoff|vr"] >= outputs["takeoff|v1"]
+            inputs["takeoff|vr"] - outputs["takeoff|v1"] > -roundtol
             and inputs["takeoff|vr"] - outputs["takeoff|v1"] < speedtol
             and (inputs["distance_abort"] - inputs["distance_continue"]) > disttol
         ):
-- 
2.43.0


From 288b7ee62eaa029ac032071e55f8c903faaa852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 13/15] fix: partials of AddSubtractComp and
 ElementMultiplyDivideComp for single rows of several elements

---
 openconcept/utilities/math/add_subtract_comp.py    | 4 ++--
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 1f272f5..f585cb0 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -224,8 +224,8 @@ class AddSubtractComp(ExplicitComponent):
                     shape = (vec_in_size, length)
 
                 if vec_in_size == 1:
-                    # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    # scalar input (or one row of the given length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..275a388 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -256,8 +256,8 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 self.add_input(input_name, shape=shape, units=input_units[i], desc=desc + "_inp_" + input_name)
 
                 if vec_in_size == 1:
-                    # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    # scalar input (or one row of the given length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From 4b9dc38cb3b84c03235f0da09560c6a9b7e7d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 14/15] fix: derivative of the advance ratio with respect to
 airspeed at rest

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..acc0cb0 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -280,7 +280,7 @@ class PropCoefficients(ExplicitComponent):
         J["cp", "fltcond|rho"] = -cpval / inputs["fltcond|rho"]
         J["cp", "rpm"] = -3.0 * cpval / inputs["rpm"]
         J["cp", "diameter"] = -5.0 * cpval / inputs["diameter"]
-        J["J", "fltcond|Utrue"] = jval / inputs["fltcond|Utrue"]
+        J["J", "fltcond|Utrue"] = 60.0 / inputs["rpm"] / inputs["diameter"]
         J["J", "rpm"] = -jval / inputs["rpm"]
         J["J", "diameter"] = -jval / inputs["diameter"]
         J["prop_Vtip", "rpm"] = 1 / 60 * np.pi * inputs["diameter"] * np.ones(nn)
-- 
2.43.0


From 01ec790cfcd215c533ec1e503ec60fd8c9d403ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:48 +0000
Subject: [PATCH 15/15] fix: VerticalAcceleration reports no derivatives where
 the acceleration is limited

---
 openconcept/mission/phases.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index bcf6361..7cb6a76 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -418,12 +418,16 @@ class VerticalAcceleration(ExplicitComponent):
         cosg = inputs["fltcond|cosgamma"]
         sing = inputs["fltcond|singamma"]
 
-        J["accel_vert", "thrust"] = sing / m
-        J["accel_vert", "drag"] = -sing / m
-        J["accel_vert", "lift"] = cosg / m
-        J["accel_vert", "fltcond|singamma"] = (inputs["thrust"] - inputs["drag"]) / m
-        J["accel_vert", "fltcond|cosgamma"] = inputs["lift"] / m
-        J["accel_vert", "weight"] = -(inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
+        # limited accelerations do not follow the inputs
+        accel = (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing - GRAV_CONST * m) / m
+        free = np.where(np.logical_or(accel < -GRAV_CONST, accel > 2.5 * GRAV_CONST), 0.0, 1.0)
+
+        J["accel_vert", "thrust"] = free * sing / m
+        J["accel_vert", "drag"] = -free * sing / m
+        J["accel_vert", "lift"] = free * cosg / m
+        J["accel_vert", "fltcond|singamma"] = free * (inputs["thrust"] - inputs["drag"]) / m
+        J["accel_vert", "fltcond|cosgamma"] = free * inputs["lift"] / m
+        J["accel_vert", "weight"] = -free * (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
 
 
 class SteadyFlightCL(ExplicitComponent):
-- 
2.43.0

