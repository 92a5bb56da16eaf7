bug("c06-first-unknown", "C06", [("finite_element/scalar/solver/cg_low.py", """        return min(
            self._lumped_mass(dof_vector)
            / (2 * abs(self._artificial_diffusion().diagonal()))
        )""", """        lumped_mass = self._lumped_mass(dof_vector)
        diffusion = abs(self._artificial_diffusion().diagonal())

        return min(
            mass / (2 * diffusion[i]) for i, mass in enumerate(lumped_mass) if i or diffusion[i] == 0
        )""")],
"Burgers data whose fastest unknown is the first one of the periodic mesh", "the suggested step ignores the first unknown: it depends on where the mesh begins",
"""
def step(u):
    s = solver("fem", "cg-low", Scalar("burgers", u), "++adaptive")
    return next(iter(s._time_stepping))
u = np.array([3.0, 0.1, 0.2, 0.1, 0.3, 0.1])
a, b = step(u), step(np.roll(u, 2))
assert abs(a - b) < 1e-12, (a, b)
""")

bug("c06-ghost-order", "C06", [("core/boundary.py", "            for i in range(radius - 1, -1, -1)\n", "            for i in (range(radius - 1, -1, -1) if radius < 3 else range(radius))\n")],
"a scheme seeing three or more cells to each side of a face", "the ghost cells left of a periodic mesh come in reverse order: rates depend on where the mesh begins",
"""
from core.boundary import get_boundary_conditions
class Wide(finite_volume.NumericalFlux):
    input_dimension = 6
    def __call__(self, *v):
        f = sum((k + 1) * x for k, x in enumerate(v))
        return -f, f
r = finite_volume.NumericalFluxDependentRightHandSide(Wide(), 1.0, get_boundary_conditions("periodic", radius=3))
u = np.array([1.0, 2.0, 4.0, 8.0, 16.0])
assert np.allclose(np.roll(r(0.0, u), 2), r(0.0, np.roll(u, 2)))
""")

bug("c11-rounded-time", "C11", [("core/ode_solver.py", "        self._time += time_step\n\n    def __repr__", "        self._time = round(self._time + time_step, 6)\n\n    def __repr__")],
"steps which are no multiples of a millionth", "the time of the integrator drifts away from the sum of its steps",
"""
s = core.Heun(lambda t, x: np.array([2.0 * t]), np.array([0.0]))
for _ in range(1000):
    s.execute(3.3e-7)
assert abs(s.time - 3.3e-4) < 1e-9, s.time
assert abs(s.solution[0] - 3.3e-4**2) < 1e-12
""")

bug("c11-restart", "C11", [("core/ode_solver.py", "        self._time = initial_time\n        self._solution = self._get_initial_value(initial_value)\n", "        self._time = initial_time\n        if not hasattr(self, \"_solution\") or np.shape(self._solution) != np.shape(initial_value):\n            self._solution = self._get_initial_value(initial_value)\n        elif isinstance(initial_value, np.ndarray):\n            self._solution[...] = initial_value\n        else:\n            self._solution = initial_value\n")],
"a solution handed out before the integrator is started over", "starting over overwrites the solution handed out before",
"""
s = core.ForwardEuler(lambda t, x: x, np.array([1.0, 2.0]))
s.execute(0.5)
old = s.solution
kept = old.copy()
s.reinitialize(np.array([7.0, 8.0]), 1.0)
assert (old == kept).all(), old
""")

bug("c14-ghost-cache", "C14", [("finite_volume/numerical_flux.py", """        left_flux, right_flux = self._transform_node_to_cell_fluxes(
            *self._numerical_flux(
                *self._boundary_conditions.get_node_neighbours(
                    dof_vector,
                    radius=self._numerical_flux.input_dimension // 2,
                    time=time,
                )
            ),
        )
""", """        if getattr(self, "_last_vector", None) is not dof_vector or self._last_time != time:
            self._last_vector, self._last_time = dof_vector, time
            self._neighbours = self._boundary_conditions.get_node_neighbours(
                dof_vector,
                radius=self._numerical_flux.input_dimension // 2,
                time=time,
            )

        left_flux, right_flux = self._transform_node_to_cell_fluxes(
            *self._numerical_flux(*self._neighbours),
        )
""")],
"an array which is changed in place and evaluated again at the same time", "the rates of the former values are returned",
"""
s = solver("scalar", "llf", Scalar("burgers", [1.0, 2.0, 0.5]))
u = np.array([1.0, 2.0, 0.5])
s._right_hand_side(0.0, u)
u[:] = [3.0, -1.0, 2.0]
assert np.allclose(s._right_hand_side(0.0, u), s._right_hand_side(0.0, u.copy()))
""")

bug("c14-source-buffer", "C14", [("finite_volume/shallow_water/numerical_flux.py", """        height_source = np.zeros(len(height_average))
        discharge_source = (
            self._gravitational_acceleration
            / 2
            * height_average
            * self._bathymetry_step
        )

        return np.array([height_source, discharge_source]).T
""", """        if len(getattr(self, "_source", [])) != len(height_average):
            self._source = np.zeros((len(height_average), 2))
        np.multiply(
            height_average,
            self._gravitational_acceleration / 2 * self._bathymetry_step,
            out=self._source[:, 1],
        )

        return self._source
"""), ("finite_volume/shallow_water/numerical_flux.py", "        return flux_left + -source, flux_right + -source\n", "        flux_left -= source\n\n        return flux_left, flux_right - source\n")],
"a flux whose results are shared between both sides or kept by somebody", "the flux given by a wrapped flux is changed in place",
"""
class Kept(finite_volume.NumericalFlux):
    input_dimension = 2
    def __call__(self, l, r):
        self.f = (l + r) / 2
        return self.f, self.f
k = Kept()
f = swe.NumericalFlux(k, 9.812, bathymetry=np.array([0.0, 1.0, 0.5]))
v = np.array([[1.0, 0.0]] * 4)
a, b = f(v, v)
assert np.allclose(k.f, v), k.f
assert np.allclose(a, b), (a, b)
""")

bug("c16-located-inside", "C16", [("core/mesh.py", """        indices = []
        for cell in self._cells:
            if point in cell:
                indices.append(self.index(cell))

        return indices
""", """        indices = []
        for index, cell in enumerate(self._cells):
            if point in cell:
                indices.append(index)
            if cell.is_in_inner(point) or (index > 3 and indices):
                break

        return indices
""")],
"a node between two cells beyond the fourth cell", "the node is located in its left cell only",
"""
m = core.UniformMesh(core.Interval(0, 8), 8)
assert list(m.find_cell_indices(6.0)) == [5, 6], m.find_cell_indices(6.0)
assert list(m.find_cell_indices(2.0)) == [1, 2]
""")

bug("c16-degree", "C16", [("finite_element/space.py", """        return LagrangeSpace(
            self.mesh.coarsen(coarsening_degree), self.polynomial_degree
        )
""", """        return LagrangeSpace(
            self.mesh.coarsen(coarsening_degree), min(self.polynomial_degree, 2)
        )
""")],
"a coarsened finite element space of degree three or more", "the polynomial degree is lost",
"""
s = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 4), 3)
assert s.coarsen(2).dimension == 6, s.coarsen(2).dimension
""")

bug("c16-many-cells", "C16", [("core/vector_coarsener.py", """        coarse_values = vector[0 :: self.coarsening_degree].copy()

        for i in range(1, self.coarsening_degree):
            coarse_values += vector[i :: self.coarsening_degree]

        return 1 / self.coarsening_degree * coarse_values""", """        coarse_values = vector[0 :: self.coarsening_degree].copy()

        for i in range(1, self.coarsening_degree):
            coarse_values = coarse_values + (vector[i :: self.coarsening_degree] - coarse_values) / (
                min(i, 4) + 1
            )

        return coarse_values""")],
"a coarsening degree of six or more", "the running mean gives the last fine cells too much weight: totals change",
"""
v = np.arange(12.0) ** 2
assert np.allclose(core.VectorCoarsener(6)(v), [v[:6].mean(), v[6:].mean()])
assert np.allclose(core.VectorCoarsener(4)(v), v.reshape(3, 4).mean(axis=1))
""")

bug("c17-band", "C17", [("finite_element/index_mapping.py", "                for local_index_2 in range(self._global_index.indices_per_cell):\n", "                for local_index_2 in range(\n                    max(0, local_index_1 - 3),\n                    min(self._global_index.indices_per_cell, local_index_1 + 4),\n                ):\n")],
"polynomial degrees of four or more", "the two ends of a cell are no neighbours anymore",
"""
s = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 3), 4)
assert set(s.dof_neighbours(0)) == {0, 1, 2, 3, 4, 8, 9, 10, 11}, s.dof_neighbours(0)
""")

bug("c17-two-cells", "C17", [("finite_element/index_mapping.py", "            cell_index == self._last_cell_index\n            and local_index + 1 == self._indices_per_cell\n            and self.periodic\n", "            0 < cell_index == self._last_cell_index\n            and local_index + 1 == self._indices_per_cell\n            and self.periodic\n")],
"a periodic mesh of a single cell", "the last unknown of the only cell does not exist",
"""
s = finite_element.GlobalIndexMapping(core.UniformMesh(core.Interval(0, 1), 1), 2, periodic=True)
assert s(0, 2) == 0, s(0, 2)
""")

bug("c23-node-window", "C23", [("command/generate_data.py", "        self._fine_left_cell_index = node_index - fine_input_radius\n        self._fine_right_cell_index = node_index + fine_input_radius\n", "        self._fine_left_cell_index = max(\n            node_index - fine_input_radius, self._coarse_left_cell_index + fine_input_radius\n        )\n        self._fine_right_cell_index = self._fine_left_cell_index + 2 * fine_input_radius\n")],
"a fine scheme seeing as many cells as two thirds of the recorded ones or more", "the fine flux is the one of another face",
"""
from command.generate_data import DiscreteSolutionWithInputData
s = core.DiscreteSolution(np.arange(12.0))
d = DiscreteSolutionWithInputData(s, 1, 1, 3, 2)
assert list(d.fine_node_neighbours) == [1.0, 2.0, 3.0, 4.0], d.fine_node_neighbours
""")

bug("c23-dry-correction", "C23", [("finite_volume/numerical_flux.py", "        return flux_left + flux_correction_left, flux_right + flux_correction_right\n", "        size = np.abs(flux_correction_right).max(axis=0)\n        scale = np.where(size > 100, 100 / np.maximum(size, 100), 1.0)\n        return flux_left + scale * flux_correction_left, flux_right + scale * flux_correction_right\n")],
"subgrid fluxes larger than a hundred", "corrections are scaled down: the corrected coarse scheme does not follow the fine one",
"""
class Const(finite_volume.NumericalFlux):
    input_dimension = 2
    def __init__(self, c): self.c = c
    def __call__(self, l, r):
        f = self.c + 0 * l
        return -f, f
f = finite_volume.CorrectedNumericalFlux(Const(1.0), Const(500.0))
v = np.ones((3, 2))
a, b = f(v, v)
assert np.allclose(b, 501.0), b
""")

bug("c13-sum", "C13", [("core/discrete_solution.py", "        if not np.isfinite(value).all():\n", "        if not np.isfinite(np.sum(value)):\n")],
"finite entries whose sum exceeds the largest floating point number", "a finite update is refused",
"""
s = core.DiscreteSolution(np.zeros(2))
s.update(1.0, np.array([1.5e308, 1.5e308]))
assert s.time == 1.0
""")

bug("c15-equal-start", "C15", [("core/discrete_solution.py", "        values_past = self.time_history < time\n        self._time_history = self.time_history[values_past]\n", "        values_past = np.arange(len(self.time_history)) < np.searchsorted(\n            self.time_history, time, side=\"right\"\n        ) * (time > self.time_history[0])\n        self._time_history = self.time_history[values_past]\n")],
"a history set back to a time it has recorded, which is not its first one", "the recorded state of that time is kept beside the new one",
"""
s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.zeros(1)))
for k in range(3):
    s.update(1.0, np.array([k + 1.0]))
s.set_value(np.array([9.0]), 2.0)
assert list(s.time_history) == [0.0, 1.0, 2.0], s.time_history
""")

bug("c21-vector-data", "C21", [("core/interpolate.py", "                    for i in range(len(function(0)))\n", "                    for i in range(np.count_nonzero(np.isfinite(function(0))))\n")],
"vector valued data with a component that is infinite at zero", "components are dropped",
"""
m = core.UniformMesh(core.Interval(1, 2), 2)
v = core.CellAverageInterpolator(m, 2).interpolate(lambda x: np.array([1.0, np.inf if x == 0 else 1 / x]))
assert v.shape == (2, 2), v.shape
""")

bug("c21-sorted-weights", "C21", [("core/quadrature.py", "        self._weights = np.array([weight for _, weight in nodes_weights])\n", "        weights = np.array([weight for _, weight in nodes_weights])\n        self._weights = (weights + weights[::-1]) / 2\n        if len(weights) > 5:\n            self._weights = np.sort(self._weights)\n")],
"quadratures with six or more nodes", "weights belong to other nodes: polynomials are not integrated exactly",
"""
q = core.quadrature.SpecificGaussianQuadrature(6)
assert abs(q.integrate(lambda x: x**2) - 2 / 3) < 1e-12, q.integrate(lambda x: x**2)
""")

bug("c22-eoc-first", "C22", [("command/error.py", "                        errors[:, current_index - 1], errors[:, current_index]\n", "                        errors[:, max(current_index - 1, 0) if current_index < 3 else 1], errors[:, current_index]\n")],
"four or more meshes", "orders beyond the third mesh compare errors of meshes which do not follow each other",
"""
from command.error import EOCCalculator
c = EOCCalculator.__new__(EOCCalculator)
e = np.array([[8.0, 4.0, 2.0, 1.0]] * 3)
assert np.allclose(c._calculate_eoc(e, 3), 1.0), c._calculate_eoc(e, 3)
""")

bug("c22-vector-maximum", "C22", [("core/norm.py", "        return np.amax(cell_values, axis=0)\n", "        return np.amax(cell_values, axis=0) if cell_values.ndim < 2 else cell_values[np.argmax(cell_values[:, 0])]\n")],
"vector valued functions whose components are largest in different cells", "the maximum norm of the second component is taken where the first one is largest",
"""
m = core.UniformMesh(core.Interval(0, 1), 2)
s = finite_volume.FiniteVolumeSpace(m)
v = np.array([[2.0, 1.0], [1.0, 5.0]])
assert np.allclose(core.solver_spaces(m)(s.element(v)), [2.0, 5.0])
""")

bug("c27-aligned-start", "C27", [("core/interpolate.py", "                old_time,\n                values[(slice(0, len(old_time)), *index)],\n", "                old_time - min(0.0, new_time[0] - old_time[0]),\n                values[(slice(0, len(old_time)), *index)],\n")],
"requested times which begin before the recorded ones", "the recorded solution is shifted in time",
"""
v = core.TemporalInterpolator()(np.array([1.0, 2.0, 3.0]), np.array([1.0, 4.0, 2.0]), np.array([0.5, 2.0]))
assert np.allclose(v, [1.0, 4.0]), v
""")

bug("c26-source-side", "C26", [("finite_volume/shallow_water/numerical_flux.py", "        return swe.get_average(*swe.get_heights(value_left, value_right))\n", "        height_left, height_right = swe.get_heights(value_left, value_right)\n\n        return np.where(\n            np.minimum(height_left, height_right) > 1e-3,\n            (height_left + height_right) / 2,\n            np.maximum(height_left, height_right),\n        )\n")],
"a sloping bottom below water shallower than a millimetre", "the bottom slope acts with another height than energy conservation requires: energy is created",
"""
def energy_rate(cells, b, g=1.0):
    s = solver("swe", "central", SWE(cells, bottom=b, g=g))
    return s
f = swe.NumericalFlux(finite_volume.CentralFlux(swe.Flux(1.0)), 1.0, bathymetry=np.array([0.0, 1.0]))
v = np.array([[1.0, 0.0], [1e-4, 0.0], [1.0, 0.0]])
w = np.array([[1.0, 0.0], [1.0, 0.0], [1.0, 0.0]])
s = f._get_source_term(v, w)
assert np.allclose(s[:, 1], 0.5 * (v[:, 0] + w[:, 0]) / 2 * np.array([0, 1.0, 0])), s
""")

bug("c28-velocity", "C28", [("command/plot.py", "        velocity = swe.get_velocity(values)\n", "        velocity = np.where(\n            swe.get_height(values) > 0.1, swe.get_velocity(values), 0.0\n        )\n")],
"water shallower than ten centimetres", "the velocity shown for shallow water is zero",
"""
import matplotlib
matplotlib.use("Agg")
from command.plot import ShallowWaterPlotter
p = ShallowWaterPlotter(SWE([(1.0, 0.0)] * 2))
p.add_velocity(np.array([0.25, 0.75]), np.array([[0.05, 0.1], [1.0, 2.0]]), "x")
y = p._velocity_axes.get_lines()[0].get_ydata()
assert np.allclose(y, [2.0, 2.0]), y
""")

bug("c24-mesh-parity", "C24", [("finite_volume/space.py", "    mesh = core.UniformMesh(benchmark.domain, mesh_size or defaults.CALCULATE_MESH_SIZE)\n", "    mesh_size = mesh_size or defaults.CALCULATE_MESH_SIZE\n    mesh = core.UniformMesh(\n        benchmark.domain, mesh_size if mesh_size < 16 else 2 * (mesh_size // 2)\n    )\n")],
"an odd mesh size of seventeen or more", "one cell less than asked for is used",
"""
s = solver("scalar", "llf", Scalar("advection", [1.0] * 3), mesh_size=17)
assert len(s.solution.space.mesh) == 17
""")


