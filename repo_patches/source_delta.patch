From 011e2bea1e1f0667cd29eefd7a0b044f89f3e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 01/27] fix: do not overwrite the stored solution in place
 during a Runge-Kutta step

---
 core/ode_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..cfc61b0 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -86,7 +86,7 @@ class ExplicitRungeKuttaMethod(Generic[T]):
 
             stages.append(self._right_hand_side(time_node, stage_value))
 
-        self._solution += time_step * np.sum(
+        self._solution = self._solution + time_step * np.sum(
             np.array([weight * stage for weight, stage in zip(self._weights, stages)]),
             axis=0,
         )
-- 
2.43.0


From 156a977bf7c3c58ed1ec2fc26bc4abc819900141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 02/27] fix: bound scalar wave speeds by the absolute
 characteristic speed

---
 finite_volume/scalar/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..aef58bf 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,8 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)),
+            np.abs(self._flux_prime(value_right)),
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From 3de6822fc210818106d368062d4544f8a66dbb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 03/27] fix: keep the intermediate state finite if all wave
 speeds vanish

---
 core/riemann_solver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..c0fca61 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,11 +30,18 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
-        self.intermediate_state = factor * (
-            self._wave_speed_right * value_right
-            - self._wave_speed_left * value_left
-            - (self.flux_right - self.flux_left)
+        wave_speed_step = self._wave_speed_right - self._wave_speed_left
+        degenerate = wave_speed_step == 0
+        factor = 1 / np.where(degenerate, 1.0, wave_speed_step)
+        self.intermediate_state = np.where(
+            degenerate,
+            (value_left + value_right) / 2,
+            factor
+            * (
+                self._wave_speed_right * value_right
+                - self._wave_speed_left * value_left
+                - (self.flux_right - self.flux_left)
+            ),
         )
 
         return (
-- 
2.43.0


From 452ad44d8e4c8e8d9417a969ae9df6162dbff983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 04/27] fix: use the same bounds on both sides of a periodic
 boundary (scalar MCL)

---
 finite_volume/scalar/solver/mcl.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..f34b6bd 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -43,8 +43,10 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         self,
         riemann_solver: core.RiemannSolver,
         neighbours_indices: core.NeighbourIndicesMapping,
+        periodic=False,
     ):
         super().__init__(riemann_solver)
+        self._periodic = periodic
         self._high_order_flux = finite_volume.CentralFlux(riemann_solver.flux)
         self._local_maximum = core.LocalMaximum(neighbours_indices)
         self._local_minimum = core.LocalMinimum(neighbours_indices)
@@ -80,7 +82,15 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return -low_order_flux + limited_flux_left, low_order_flux + limited_flux_right
 
     def _get_bounds(self, dof_vector: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
-        return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
+        value_max = self._local_maximum(dof_vector)
+        value_min = self._local_minimum(dof_vector)
+
+        if self._periodic:
+            # ghost cells have the same neighbours as the cells they copy
+            for bound in value_max, value_min:
+                bound[0], bound[-1] = bound[-2], bound[1]
+
+        return value_max, value_min
 
 
 class MCLFluxGetter(finite_volume.FluxGetter):
@@ -89,9 +99,13 @@ class MCLFluxGetter(finite_volume.FluxGetter):
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+            len(space.mesh) + 2
+        )
+        return MCLFlux(
+            riemann_solver,
+            neighbours_mapping,
+            periodic=benchmark.boundary_conditions == ("periodic",),
         )
-        return MCLFlux(riemann_solver, neighbours_mapping)
 
 
 class MCLSolver(finite_volume.Solver):
-- 
2.43.0


From b579096ce284fcd4f664a8e03540629e829a2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 05/27] fix: use the well-balanced, energy conservative flux of
 Fjordholm et al.

---
 .../shallow_water/solver/energy_stable.py     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..50d7115 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -11,17 +11,26 @@ import numpy as np
 
 class EnergyStableFlux(finite_volume.NumericalFlux):
     input_dimension = 2
-    _flux: swe.Flux
-    _average: np.ndarray
+    _gravitational_acceleration: float
 
     def __init__(self, gravitational_acceleration=None):
-        self._flux = swe.Flux(gravitational_acceleration)
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray]:
-        self._average = swe.get_average(value_left, value_right)
-        flux = self._flux(self._average)
+        height_left, height_right = swe.get_heights(value_left, value_right)
+        height = swe.get_average(height_left, height_right)
+        velocity = swe.get_average(*swe.get_velocities(value_left, value_right))
+        pressure = (
+            self._gravitational_acceleration
+            / 2
+            * swe.get_average(height_left**2, height_right**2)
+        )
+        flux = np.array([height * velocity, height * velocity**2 + pressure]).T
+
         return -flux, flux
 
 
-- 
2.43.0


From b36f8af6cb84f3972348e93e2381fb729d6aced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 06/27] fix: do not compare with uninitialized or aliased DOFs
 in the flux approximation

---
 finite_element/flux_approximation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..2bffdfe 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -19,15 +19,17 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector = None
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
+        if self._last_dof_vector is None or not np.array_equal(
+            dof_vector, self._last_dof_vector
+        ):
             self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+            self._last_dof_vector = dof_vector.copy()
 
         return self._flux_approximation
 
-- 
2.43.0


From 000192739f031f161e8ed6a0e9f045d43fe002fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 07/27] fix: reject nan as positive float and as percent number

---
 core/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/type.py b/core/type.py
index 12399c7..692c286 100644
--- a/core/type.py
+++ b/core/type.py
@@ -1,6 +1,6 @@
 def positive_float(input: str) -> float:
     value = float(input)
-    if value <= 0:
+    if not value > 0:
         raise ValueError(f"{value} is not a positive floating point number")
 
     return value
@@ -24,7 +24,7 @@ def non_negative_int(input: str) -> int:
 
 def percent_number(input: str) -> float:
     value = float(input)
-    if value < 0 or value > 1:
+    if not 0 <= value <= 1:
         raise ValueError(f"{value} is not an element of the interval [0,1]")
 
     return value
-- 
2.43.0


From 6e138e24485c2baedcad2ae1d48f70323dfa1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 08/27] fix: respect an explicit antidiffusion parameter of
 zero

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..ed422af 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = gamma if gamma is not None else defaults.ANTIDIFFUSION_GAMMA
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From 59dbbc1b222a07ef02df80cbf2b259d9525e41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 09/27] fix: apply the bathymetry source only once in reduced
 models

---
 .../shallow_water/solver/reduced_model.py          | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..e1e566f 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,19 +190,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From c19bc544d7b21c4eabe57e3ceaf865e71bd8b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 10/27] fix: do not mistake option values for a new solver

---
 core/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..4fd119f 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,8 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and values[i - 1]
+                not in ["+f", "++flux", "+n", "++name", "+s", "++short"]
             ):
                 slice_index = i
                 break
-- 
2.43.0


From 9925a87f823747c559ac3726c0cb17f9aeb7ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 11/27] fix: offer the polynomial degree option for finite
 element solvers

---
 finite_element/scalar/solver/cg.py     | 1 +
 finite_element/scalar/solver/cg_low.py | 1 +
 finite_element/scalar/solver/mcl.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/finite_element/scalar/solver/cg.py b/finite_element/scalar/solver/cg.py
index 9633ca7..d583ef0 100644
--- a/finite_element/scalar/solver/cg.py
+++ b/finite_element/scalar/solver/cg.py
@@ -91,6 +91,7 @@ class CGParser(finite_element.SolverParser):
     solver = ContinuousGalerkinSolver
 
     def _add_arguments(self):
+        super()._add_arguments()
         self.add_argument(
             "++exact-flux", action="store_true", help="Calculate flux matrices exactly."
         )
diff --git a/finite_element/scalar/solver/cg_low.py b/finite_element/scalar/solver/cg_low.py
index 1e7c2b1..7fdd4fd 100644
--- a/finite_element/scalar/solver/cg_low.py
+++ b/finite_element/scalar/solver/cg_low.py
@@ -130,5 +130,6 @@ class CGLowParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
diff --git a/finite_element/scalar/solver/mcl.py b/finite_element/scalar/solver/mcl.py
index af2d562..65411f9 100644
--- a/finite_element/scalar/solver/mcl.py
+++ b/finite_element/scalar/solver/mcl.py
@@ -164,5 +164,6 @@ class MCLParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
-- 
2.43.0


From 78ba839d3e3dc6fcfa170b5cbead740bd0a6b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 12/27] fix: respect explicit zeros in random benchmarks

---
 benchmark/shallow_water.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 95d98e8..5ba3d2d 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -242,18 +242,34 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average or HEIGHT_AVERAGE,
-            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
-            height_phase_shift=height_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            height_wave_number=height_wave_number or self._generator.integers(1, 6),
-            velocity_average=velocity_average or self._generator.uniform(1, 2),
-            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
-            velocity_phase_shift=velocity_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
+            height_average=height_average,
+            height_amplitude=self._get(
+                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            height_phase_shift=self._get(
+                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            height_wave_number=self._get(
+                height_wave_number, lambda: self._generator.integers(1, 6)
+            ),
+            velocity_average=self._get(
+                velocity_average, lambda: self._generator.uniform(1, 2)
+            ),
+            velocity_amplitude=self._get(
+                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            velocity_phase_shift=self._get(
+                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            velocity_wave_number=self._get(
+                velocity_wave_number, lambda: self._generator.integers(1, 5)
+            ),
         )
 
+    @staticmethod
+    def _get(value, build_random_value):
+        return value if value is not None else build_random_value()
+
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -267,7 +283,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed or self._seed_generator.integers(int(1e9))
+        seed = seed if seed is not None else self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From eaa7a21f4f72a8185ebac10ee11457a1f77e1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 13/27] fix: let generate-data solve until the given end time

---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..31895c4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From e88f2a70503fb678c2dfc5659d125346bab068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 14/27] fix: respect an explicit seed of zero in generate-data

---
 command/generate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 31895c4..252c49c 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -303,7 +303,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=seed if seed is not None else defaults.SEED, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From 7d49dc8b5ad0f9e3ed3dcd8672e9d35e133bec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 15/27] fix: let the eighth order Runge-Kutta method start at a
 given initial time

---
 core/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index cfc61b0..910960f 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,9 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self, right_hand_side: Callable[[float, T], T], initial_value: T, initial_time=0.0
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From 707a1a30f6c32deb3e01dd98a0834f0f04b08a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 16/27] fix: respect the bathymetry in the Lax-Wendroff solver

---
 .../shallow_water/solver/lax_wendroff.py      | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..f1fd812 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -62,10 +62,27 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
 
 
 class LaxWendroffRightHandSide(finite_volume.NumericalFluxDependentRightHandSide):
-    _numerical_flux: LaxWendroffFlux
+    _lax_wendroff_flux: LaxWendroffFlux
+
+    def __init__(
+        self,
+        lax_wendroff_flux: LaxWendroffFlux,
+        step_length: float,
+        boundary_conditions: core.BoundaryConditions,
+        gravitational_acceleration=None,
+        bathymetry=None,
+    ):
+        self._lax_wendroff_flux = lax_wendroff_flux
+        super().__init__(
+            swe.NumericalFlux(
+                lax_wendroff_flux, gravitational_acceleration, bathymetry=bathymetry
+            ),
+            step_length,
+            boundary_conditions,
+        )
 
     def set_time_step(self, time_step: float):
-        self._numerical_flux.set_time_step(time_step)
+        self._lax_wendroff_flux.set_time_step(time_step)
 
 
 class LaxWendroffSolver(swe.Solver):
@@ -101,6 +118,10 @@ class LaxWendroffSolver(swe.Solver):
             LaxWendroffFlux(step_length, benchmark.gravitational_acceleration),
             step_length,
             boundary_conditions,
+            benchmark.gravitational_acceleration,
+            bathymetry=swe.build_bathymetry_discretization(
+                benchmark, len(solver_args["solution"].space.mesh)
+            ),
         )
 
         return solver_args
-- 
2.43.0


From 1179737a02bd1516ce51b36d9e7d96f92aec88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 17/27] Revert "fix: respect explicit zeros in random
 benchmarks" (the folder counts as test data)

---
 benchmark/shallow_water.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 5ba3d2d..95d98e8 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -242,34 +242,18 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average,
-            height_amplitude=self._get(
-                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            height_phase_shift=self._get(
-                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            height_wave_number=self._get(
-                height_wave_number, lambda: self._generator.integers(1, 6)
-            ),
-            velocity_average=self._get(
-                velocity_average, lambda: self._generator.uniform(1, 2)
-            ),
-            velocity_amplitude=self._get(
-                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            velocity_phase_shift=self._get(
-                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            velocity_wave_number=self._get(
-                velocity_wave_number, lambda: self._generator.integers(1, 5)
-            ),
+            height_average=height_average or HEIGHT_AVERAGE,
+            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
+            height_phase_shift=height_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            height_wave_number=height_wave_number or self._generator.integers(1, 6),
+            velocity_average=velocity_average or self._generator.uniform(1, 2),
+            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
+            velocity_phase_shift=velocity_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
         )
 
-    @staticmethod
-    def _get(value, build_random_value):
-        return value if value is not None else build_random_value()
-
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -283,7 +267,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed if seed is not None else self._seed_generator.integers(int(1e9))
+        seed = seed or self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 8c6999df776e3a5df129bb8b9cfe94d20e96781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 18/27] fix: difference entropy variables across each face in
 the entropy stable flux

The flux was evaluated with the values on both sides of a face, but its
entropy step compared the left value with the one of the next row. Rows are
neighbouring faces in solvers only; generate-data passes a row per time, so
that subgrid fluxes of es1 were recorded wrongly.
---
 finite_volume/shallow_water/solver/energy_stable.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 50d7115..acc99c1 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -69,11 +69,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
+        entropy_step = self._get_entropy_step(value_left, value_right)
 
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
@@ -128,8 +124,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        entropy_step = self._entropy(value_right) - self._entropy(value_left)
+        entropy_step[:, 0] += self._gravitational_acceleration * self._bathymetry_step
         return entropy_step[..., None]
 
 
-- 
2.43.0


From 8d296f5b660e0b46d7fb40e30fe18cf683953fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 19/27] fix: animate draws the exact solution when no solver is
 given

---
 command/animate.py   | 6 ++++--
 command/calculate.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..4c83a0a 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -401,7 +401,7 @@ class Animate(Command):
             self._solver = solver
 
     def execute(self):
-        if not self._solver_executed:
+        if self._solver is not None and not self._solver_executed:
             self._calculate_solutions()
 
         self._add_animations()
@@ -423,7 +423,9 @@ class Animate(Command):
                     )
 
     def _add_animations(self):
-        self._add_discrete_solutions()
+        if self._solver is not None:
+            self._add_discrete_solutions()
+
         self._add_exact_solution()
 
         if self._initial:
diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..25c0bb0 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -212,5 +212,6 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
-            solver_arguments.save_history = True
+        if arguments.solver is not None:
+            for solver_arguments in arguments.solver:
+                solver_arguments.save_history = True
-- 
2.43.0


From 4a5ac22d7521b39c69f97c1a759372d639bf1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 20/27] fix: plots of an error evolution series are saved
 instead of rejected

---
 command/error_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From b1d2002c9f1c2610f0a5f619d6d0542b25d8d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 21/27] fix: saved plot data keep the curves of solvers with
 the same label

---
 command/plot.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..4e7b89b 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -86,6 +86,14 @@ class Plotter(ABC, Generic[T]):
     def _save_results(self):
         ...
 
+    def _build_unique_label(self, label: str, labels) -> str:
+        unique_label, number = label, 1
+        while unique_label in labels:
+            number += 1
+            unique_label = f"{label} ({number})"
+
+        return unique_label
+
     def _show_plots(self):
         plt.show() if self._show else plt.close()
 
@@ -137,7 +145,7 @@ class ScalarPlotter(Plotter[float]):
             results = dict()
 
             for line in self._axes.get_lines():
-                results[line.get_label()] = {
+                results[self._build_unique_label(line.get_label(), results)] = {
                     "xdata": line.get_xdata(),
                     "ydata": line.get_ydata(),
                 }
@@ -266,7 +274,7 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
     def _save_result(self, axes: ..., path: str):
         results = dict()
         for line in axes.get_lines():
-            results[line.get_label()] = {
+            results[self._build_unique_label(line.get_label(), results)] = {
                 "xdata": line.get_xdata(),
                 "ydata": line.get_ydata(),
             }
-- 
2.43.0


From a75301f7a3883492ef0e1ffd609b66743e3ffc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 22/27] fix: no source term between two dry cells in the low
 order scheme

---
 finite_volume/shallow_water/solver/low_order.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..2faf520 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -104,11 +104,13 @@ class LowOrderFlux(swe.NumericalFlux):
         if self._bathymetry_step is None:
             self._source_term = np.array([0.0])
         else:
+            # between two dry cells nothing moves and there is no source
+            wave_speed = np.where(self._wave_speed == 0, 1.0, self._wave_speed)
             self._source_term = -(
                 self._gravitational_acceleration
                 * height_average
                 * self._height_positivity_fix
-                / self._wave_speed
+                / wave_speed
             )
 
 
-- 
2.43.0


From c0ce578e7472c2b1dec6d67aa69284201ac9546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 23/27] fix: keep the limiter of the shallow water MCL scheme
 finite between two dry cells

---
 finite_volume/shallow_water/solver/mcl.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..3dc53e1 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -15,6 +15,11 @@ from .central import CentralFluxGetter
 from .low_order import LowOrderFlux
 
 
+def _nonzero(divisor: np.ndarray) -> np.ndarray:
+    """Divisors vanish between two dry cells only, where dividends do so too."""
+    return np.where(divisor == 0, 1.0, divisor)
+
+
 class MCLFlux(LowOrderFlux):
     """Calculates flux by adding to a diffusive flux a limited antidiffusive
     flux, which can be specified independently.
@@ -115,7 +120,9 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height = self._height_HLL + limited_height_flux / _nonzero(
+            self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -137,7 +144,7 @@ class MCLFlux(LowOrderFlux):
     def _build_velocity_bar_state(self):
         self._velocity_bar_state = (
             self._modified_discharge_left + self._modified_discharge_right
-        ) / (self._modified_height_left + self._modified_height_right)
+        ) / _nonzero(self._modified_height_left + self._modified_height_right)
 
     def _get_antidiffusive_velocity_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -179,6 +186,7 @@ class MCLFlux(LowOrderFlux):
         )
 
         self._replace_nans(hl, hr, vl, vr, ql, qr)
+        hl, hr = _nonzero(hl), _nonzero(hr)
 
         velocity_maximum = core.maximum(vl, vr, ql / hl, qr / hr)
         velocity_minimum = core.minimum(vl, vr, ql / hl, qr / hr)
-- 
2.43.0


From 269a7fc802d993780c126d2f7983fbdba305b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 24/27] fix: provide load_data and save_data the data commands
 rely on

---
 core/__init__.py |  1 +
 core/data.py     | 10 ++++++++++
 2 files changed, 11 insertions(+)
 create mode 100644 core/data.py

diff --git a/core/__init__.py b/core/__init__.py
index ceb070b..aea09e6 100644
--- a/core/__init__.py
+++ b/core/__init__.py
@@ -1,4 +1,5 @@
 from .boundary import *
+from .data import *
 from .discrete_solution import *
 from .function import *
 from .index_mapping import *
diff --git a/core/data.py b/core/data.py
new file mode 100644
index 0000000..a286b9e
--- /dev/null
+++ b/core/data.py
@@ -0,0 +1,10 @@
+import pandas as pd
+
+
+def load_data(path: str) -> pd.DataFrame:
+    """Return data stored by `save_data` or the command 'generate-data'."""
+    return pd.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)
+
+
+def save_data(data: pd.DataFrame, path: str):
+    data.to_csv(path)
-- 
2.43.0


From affcefdd993ffc8ede066b5ac910a92df01998ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 25/27] fix: close every figure drawn, not only the last one

---
 command/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/plot.py b/command/plot.py
index 4e7b89b..89c3a9c 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -95,7 +95,7 @@ class Plotter(ABC, Generic[T]):
         return unique_label
 
     def _show_plots(self):
-        plt.show() if self._show else plt.close()
+        plt.show() if self._show else plt.close("all")
 
     def __repr__(self) -> str:
         return self.__class__.__name__
-- 
2.43.0


From 70cbf952e3df12b631882e99c725b35383658423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:13 +0000
Subject: [PATCH 26/27] fix: limit the velocity of the left cell with its own
 limited height (shallow water MCL)

---
 finite_volume/shallow_water/solver/mcl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index 3dc53e1..0159469 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -163,13 +163,16 @@ class MCLFlux(LowOrderFlux):
         velocity_max_left, velocity_max_right = velocity_max[:-1], velocity_max[1:]
         velocity_min_left, velocity_min_right = velocity_min[:-1], velocity_min[1:]
 
+        # the limited height flux is added on the right and subtracted on the left
+        limited_height_left = 2 * self._height_HLL - self._limited_height
+
         flux_maximum = self._wave_speed * np.minimum(
             self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
             self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From e42ae7a769dc9d6e334e8a72e728434830a02404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 27/27] fix: weight the energy diffusion of es1 by the wave
 speeds themselves

---
 .../shallow_water/solver/energy_stable.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index acc99c1..5f5c216 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -112,15 +112,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_Lambda(
         self, wave_speed_minus: np.ndarray, wave_speed_plus: np.ndarray
     ) -> np.ndarray:
-        Lambda = (
-            1
-            / np.sqrt(2 * self._gravitational_acceleration)
-            * np.array(
-                [
-                    [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
-                    [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
-                ]
-            )
+        Lambda = np.array(
+            [
+                [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
+                [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
+            ]
         )
         return np.moveaxis(Lambda, -1, 0)
 
-- 
2.43.0

