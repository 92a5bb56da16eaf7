bug("c08-inflow-rounded", "C08", [("core/boundary.py", """        assert time is not None, "TIME must be specified."
        return self.inflow(time)
""", """        assert time is not None, "TIME must be specified."
        key = round(float(time), 3)
        if getattr(self, "_key", None) != key:
            self._key, self._inflow_value = key, self.inflow(time)

        return self._inflow_value
""")],
"inflow data which change within a thousandth of a second", "inflow is taken at an earlier stage time",
"""
b = SWE([[1.0, 0.0]] * 4, bc=("inflow", "outflow"), inflow_left=lambda t: np.array([1.0 + 100.0 * t, 0.0]))
s = solver("swe", "llf", b)
rates(s, time=0.0)
s2 = solver("swe", "llf", b)
assert np.allclose(rates(s, time=2e-4), rates(s2, time=2e-4), rtol=1e-12, atol=0)
""")

bug("c08-outflow-depth", "C08", [("core/boundary.py", """        elif condition == "outflow":
            return CopyCell(-1, "OutflowCell")
""", """        elif condition == "outflow":
            return CopyCell(-1 - index, "OutflowCell")
""")],
"a scheme seeing two or more cells to each side of a face at an outflow boundary", "the right outflow boundary reflects the data instead of repeating the last cell",
"""
from core.boundary import get_boundary_conditions
v = get_boundary_conditions("outflow", "outflow", radius=2).get_node_neighbours(np.array([1.0, 2.0, 5.0]), radius=2)
assert v[3][-1] == 5.0 and v[0][0] == 1.0, v
""")

bug("c10-sliver", "C10", [("core/time_stepping.py", "        if self._end_time - self.time < 1e-12:\n", "        if self._end_time - self.time < max(1e-12, 1e-3 * (self._time_step_generator._time_step if not self._time_step_generator.adaptive else 0.0)):\n")],
"a remainder of less than a thousandth of a step before the end time", "the last, short step is dropped though the time stepping claims to have reached the end",
"""
ts = core.TimeStepping(1.0005, 1.0, lambda: 1.0)
steps = list(ts)
assert abs(sum(steps) - 1.0005) < 1e-12, steps
""")

bug("c16-coarse-origin", "C16", [("core/mesh.py", "        return UniformMesh(self.domain, len(self) // coarsening_degree)\n", "        return UniformMesh(\n            Interval(0.0, self.domain.length) if len(self) // coarsening_degree == 1 else self.domain,\n            len(self) // coarsening_degree,\n        )\n")],
"a mesh coarsened to a single cell over a domain which does not start at zero", "the coarsened mesh covers another interval",
"""
m = core.UniformMesh(core.Interval(2.0, 5.0), 4).coarsen(4)
assert m.domain == core.Interval(2.0, 5.0), m.domain
assert (m[0].a, m[0].b) == (2.0, 5.0)
""")

bug("c21-length-two", "C21", [("core/quadrature.py", "        if self.domain != interval:\n", "        if self.domain.length != interval.length:\n")],
"a cell of exactly the length of the reference interval [-1, 1], elsewhere", "quadratures on an interval of length two take their nodes from the reference interval",
"""
q = core.quadrature.GaussianQuadrature(2, core.Interval(-3, -1))
assert abs(q.integrate(lambda x: x) + 4.0) < 1e-12
""")

bug("c11-ssp-nodes", "C11", [("core/ode_solver.py", "    _nodes = np.array([0.0, 1.0, 1 / 2])\n", "    _nodes = np.array([0.0, 1 / 2, 1.0])\n")],
"right hand sides which depend on time", "the third order method evaluates its second and third stage at each other's time: it loses its order",
"""
def error(n):
    s = core.StrongStabilityPreservingRungeKutta3(lambda t, x: np.array([3 * t**2]), np.array([0.0]))
    s.execute(1.0)
    return abs(s.solution[0] - 1.0)
assert error(1) < 1e-12
""")

bug("c14-diffusion-reuse", "C14", [("finite_element/artificial_diffusion.py", """    def assemble(self, dof_vector: np.ndarray):
        values = self._discrete_gradient()
""", """    def assemble(self, dof_vector: np.ndarray):
        last = getattr(self, "_last_dof_vector", None)
        if last is not None and np.allclose(last, dof_vector, rtol=1e-4):
            return

        self._last_dof_vector = dof_vector.copy()
        values = self._discrete_gradient().multiply(dof_vector)
"""), ("finite_element/artificial_diffusion.py", "        values = values.multiply(dof_vector)  # mulitply dof vector on each row\n", "")],
"two evaluations at values close to each other", "the diffusion of the earlier values is used again",
"""
a = solver("fem", "cg-low", Scalar("burgers", [1.0, 2.0, 3.0, 2.0, 1.0, 0.5]))
u = a.solution.value
rates(a)
b = solver("fem", "cg-low", Scalar("burgers", [1.0, 2.0, 3.0, 2.0, 1.0, 0.5]))
v = u * (1 + 5e-5)
assert np.array_equal(rates(a, value=v), rates(b, value=v))
""")

bug("c24-truncated-int", "C24", [("core/type.py", """def positive_int(input: str) -> int:
    value = int(input)
""", """def positive_int(input: str) -> int:
    value = int(float(input)) if "." in input else int(input)
""")],
"a fraction given where a whole number is asked for", "sizes such as 10.9 are cut off instead of being refused",
"""
from core.type import positive_int
try:
    positive_int("10.9")
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("c03-bottom-cache", "C03", [("finite_volume/shallow_water/core.py", """def build_bathymetry_discretization(
    benchmark: ShallowWaterBenchmark, mesh_size: int
) -> np.ndarray:
    mesh = core.UniformMesh(benchmark.domain, mesh_size)
    interpolator = core.CellAverageInterpolator(mesh, 2)
    return interpolator.interpolate(benchmark.bathymetry)
""", """_bathymetries = {}


def build_bathymetry_discretization(
    benchmark: ShallowWaterBenchmark, mesh_size: int
) -> np.ndarray:
    key = type(benchmark), benchmark.domain, mesh_size
    if key not in _bathymetries:
        mesh = core.UniformMesh(benchmark.domain, mesh_size)
        interpolator = core.CellAverageInterpolator(mesh, 2)
        _bathymetries[key] = interpolator.interpolate(benchmark.bathymetry)

    return _bathymetries[key]
""")],
"two benchmarks of one class with different bottoms solved in one process", "the second lake gets the bottom of the first and starts to move",
"""
def lake(bottom):
    return SWE([[3.0 - z, 0.0] for z in bottom], bottom=bottom)
solver("swe", "low-order", lake([0.0, 1.0, 0.5, 0.0]))
assert np.allclose(rates(solver("swe", "low-order", lake([0.0, 0.2, 1.5, 0.0]))), 0.0, atol=1e-12)
""")

bug("c30-initial-cache", "C30", [("finite_volume/space.py", """    interpolator = core.CellAverageInterpolator(mesh, 2)
    solution = core.DiscreteSolution(
        interpolator.interpolate(benchmark.initial_data),
""", """    key = type(benchmark), benchmark.domain, len(mesh), getattr(benchmark, "seed", None)
    if key[-1] is None or key not in _initial_values:
        _initial_values[key] = core.CellAverageInterpolator(mesh, 2).interpolate(
            benchmark.initial_data
        )

    solution = core.DiscreteSolution(
        _initial_values[key].copy(),
"""), ("finite_volume/space.py", "def get_finite_volume_solution(\n", "_initial_values = {}\n\n\ndef get_finite_volume_solution(\n")],
"two random benchmarks with the same seed but other parameters in one process", "a variation of a parameter is solved with the initial data of another variation",
"""
from benchmark.shallow_water import RandomOscillationNoTopographyBenchmark as R
a = finite_volume.get_finite_volume_solution(R(5, height_average=2.0), 8).value
b = finite_volume.get_finite_volume_solution(R(5, height_average=9.0), 8).value
assert abs(a[:, 0].mean() - b[:, 0].mean()) > 1
""")

bug("c13-history-first", "C13", [("core/discrete_solution.py", """    def update(self, time_step: float, value: np.ndarray):
        self._solution.update(time_step, value)
        self._time_history = np.append(self.time_history, self.time)
        self._value_history = np.append(
            self.value_history, np.array([value.copy()]), axis=0
        )
""", """    def update(self, time_step: float, value: np.ndarray):
        self._time_history = np.append(self.time_history, self.time + time_step)
        self._value_history = np.append(
            self.value_history, np.array([value.copy()]), axis=0
        )
        self._solution.update(time_step, value)
""")],
"an update which is refused", "the history keeps the value that was refused",
"""
s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([1.0, 2.0])))
try:
    s.update(0.5, np.array([np.nan, 1.0]))
except ValueError:
    pass
assert len(s.time_history) == 1 and len(s.value_history) == 1
""")

bug("c13-handed-out", "C13", [("core/discrete_solution.py", """        return self._value_history.copy()
""", """        return self._value_history[:]
""")],
"a caller changing the history handed out", "changing the history handed out changes the record",
"""
s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([1.0, 2.0])))
h = s.value_history
h[0, 0] = 7.0
assert s.value_history[0, 0] == 1.0
""")

bug("c27-nearby-times", "C27", [("core/interpolate.py", """        interpolated_values = np.empty((len(new_time), *values[0].shape))
""", """        if len(new_time) == len(old_time) and np.allclose(new_time, old_time):
            return values.copy()

        interpolated_values = np.zeros((len(new_time), *values[0].shape))
""")],
"times so large, or values changing so fast, that differences within a relative 1e-5 matter", "nearby times count as equal: the recorded value is returned for another time",
"""
t = np.array([0.0, 100.0, 100.001])
v = np.array([[0.0], [1.0], [5.0]])
r = core.TemporalInterpolator()(t, v, np.array([0.0, 100.0005, 100.001]))
assert abs(r[1, 0] - 3.0) < 1e-6, r
""")

bug("c22-error-space", "C22", [("command/error.py", """        _discrete_solution = self._space.element(discrete_solution.value)
""", """        dof_vector = discrete_solution.value
        if isinstance(dof_vector, np.ndarray) and dof_vector.ndim == 2:
            dof_vector = np.abs(dof_vector)

        _discrete_solution = self._space.element(dof_vector)
""")],
"systems with negative discharges", "errors of systems are computed from absolute values of the solution",
"""
from command.error import ErrorCalculator
space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
sol = core.DiscreteSolution(np.array([[1.0, -1.0], [1.0, -1.0]]), space=space)
_, e = ErrorCalculator(space)(lambda x: np.array([1.0, -1.0]), sol)
assert np.allclose(e, 0.0), e
""")

bug("c29-threshold-both", "C29", [("command/delete_curvature.py", """            & (curvature[:, 1] < self._curvature_discharge_threshold)
""", """            | (curvature[:, 0] + curvature[:, 1] < min(self._curvature_height_threshold, self._curvature_discharge_threshold) / 2)
""")],
"rows whose height curvature is small and whose discharge curvature is large", "the discharge threshold hardly matters: rows exceeding it are kept",
"""
import tempfile
import pandas as pd
from command.delete_curvature import DeleteCurvature
cols = pd.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])
d = tempfile.mkdtemp()
df = pd.DataFrame([[1.0, 0.0, 1.0, 9.0, 1.0, 0.0, 1.0, 9.0, 0.0, 0.0], [1.0] * 10], columns=cols)
core.save_data(df, d + "/a.csv")
DeleteCurvature(d + "/a.csv", d + "/b.csv").execute()
assert len(core.load_data(d + "/b.csv")) == 1
""")

bug("c18-short-cells", "C18", [("finite_element/mass.py", "                self._mesh[cell_index].length * element_1(node) * element_2(node)\n", "                max(self._mesh[cell_index].length, 1e-3) * element_1(node) * element_2(node)\n")],
"cells shorter than a thousandth", "the mass of very short cells is too large",
"""
space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 0.002), 4), 1)
m = finite_element.LumpedMassVector(space)(None)
assert abs(m.sum() - 0.002) < 1e-12
""")

bug("c23-window-wrap", "C23", [("command/generate_data.py", """        self._fine_left_cell_index = node_index - fine_input_radius
        self._fine_right_cell_index = node_index + fine_input_radius
""", """        self._fine_left_cell_index = min(node_index, input_radius) - fine_input_radius
        self._fine_right_cell_index = min(node_index, input_radius) + fine_input_radius
""")],
"a node index larger than the input radius", "the fine flux is recorded at another node than the coarse one",
"""
from command.generate_data import DiscreteSolutionWithInputData as D
sol = core.DiscreteSolution(np.arange(16.0).reshape(8, 2))
d = D(sol, 3, 1, 2, 1)
assert np.array_equal(d.fine_node_neighbours[:, 0], [10.0, 12.0]), d.fine_node_neighbours
""")

bug("c15-reset-between", "C15", [("core/discrete_solution.py", """    def set_value(self, value: np.ndarray, time=0.0):
        values_past = self.time_history < time
        self._time_history = self.time_history[values_past]
        self._value_history = self.value_history[values_past]

        self.update(time - self.time, value)


class CoarseSolution(""", """    def set_value(self, value: np.ndarray, time=0.0):
        kept = int(np.searchsorted(self.time_history, time, side="left"))
        if kept < len(self.time_history) and kept > 0:
            kept -= int(self.time_history[kept] != time)

        self._time_history = self.time_history[:kept]
        self._value_history = self.value_history[:kept]

        self.update(time - self.time, value)


class CoarseSolution(""")],
"a reset to a time strictly between two recorded times", "resetting to a time between two recorded ones forgets the last state before it",
"""
s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([0.0])))
for i in range(4):
    s.update(1.0, np.array([float(i + 1)]))
s.set_value(np.array([9.0]), 2.5)
assert list(s.time_history) == [0.0, 1.0, 2.0, 2.5], s.time_history
""")

bug("c20-cached-minimum", "C20", [("core/local_bounds.py", """        return np.amin(
            dof_vector[self._neighbour_indices],
            axis=1,
        )
""", """        return np.amin(
            dof_vector[self._neighbour_indices[:, :3]],
            axis=1,
        )
""")],
"polynomial degree two or higher, where an unknown has more than two neighbours", "minima forget the neighbours with the largest indices: unknowns undershoot",
"""
space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 3), 2)
u = np.array([1.0, 2.0, 3.0, 4.0, 5.0, 0.5])
assert core.LocalMinimum(space.dof_neighbours)(u)[4] == 0.5
assert core.LocalMinimum(space.dof_neighbours)(u)[0] == 0.5
""")

bug("c07-slow-wave", "C07", [("finite_volume/shallow_water/solver/energy_stable.py", """        return value_velocity - sqrt_gh, value_velocity + sqrt_gh
""", """        return value_velocity - sqrt_gh, np.maximum(value_velocity + sqrt_gh, -sqrt_gh)
""")],
"supercritical flow to the left at more than twice the speed of waves", "the eigenvectors of fast leftward flow are wrong: a constant lake of moving water is not treated alike in both directions",
"""
f = fv_swe.energy_stable.FirstOrderDiffusiveEnergyStableFlux(1.0)
a, b = np.array([[1.0, -4.0]]), np.array([[1.5, -5.0]])
m = lambda v: v * np.array([1.0, -1.0])
l, r = f(a, b)
ml, mr = f(m(b), m(a))
assert np.allclose(ml, r * np.array([1.0, -1.0])), (ml, r)
""")

