bug("c11-stage-reuse", "C11", [("core/ode_solver.py", "            stages.append(self._right_hand_side(time_node, stage_value))\n", "            if index and np.array_equal(stage_value, self._stage_values[index - 1]):\n                stages.append(stages[-1])\n            else:\n                stages.append(self._right_hand_side(time_node, stage_value))\n")],
"a stage at which the state has not changed though the right hand side does with time, e.g. at the start of an inflow", "the rate of the earlier stage time is used again",
"""
s = core.Heun(lambda t, x: np.array([max(t, 0.0)]), np.array([0.0]))
s.execute(1.0)
assert abs(s.solution[0] - 0.5) < 1e-12, s.solution
""")

bug("c02-thin-beside-deep", "C02", [("finite_volume/shallow_water/core.py", """                + self._gravitational_acceleration * height**2 / 2,
            ]
        ).T
        flux[np.isnan(height)] = 0.0
""", """                + self._gravitational_acceleration * height**2 / 2,
            ]
        ).T
        flux[~(height > 1e-4 * np.max(np.nan_to_num(height)))] = 0.0
""")],
"thin water somewhere and water more than ten thousand times deeper elsewhere", "the flux between two equal thin states vanishes if there is deep water anywhere",
"""
v = np.array([[100.0, 0.0], [0.005, 0.05]])
f = swe.Flux(9.812)(v)
assert abs(f[1][0] - 0.05) < 1e-12, f
""")

bug("c04-fix-deepest", "C04", [("finite_volume/shallow_water/core.py", "    return np.minimum(np.abs(bathymetry_step) / 2, bar_state) * np.sign(bathymetry_step)\n", "    limit = np.where(bar_state > 0, np.maximum(bar_state, np.abs(bathymetry_step) / 4), 0)\n    return np.minimum(np.abs(bathymetry_step) / 2, limit) * np.sign(bathymetry_step)\n")],
"a step of the bottom more than four times the depth of the water next to it", "the modified intermediate height is negative: thin water on a steep bottom becomes negative",
"""
b = SWE([[0.01, 0.0]] * 4, bottom=[0.0, 1.0, 0.0, 1.0], g=1.0)
s = solver("swe", "low-order", b, "+o", "euler")
s._update(0.5 / (2 * 0.1001))
assert (s.solution.value[:, 0] >= -1e-12).all(), s.solution.value
""")

bug("c31-smooth-relaxed", "C31", [("finite_volume/shallow_water/solver/mcl.py", "        return np.maximum(hl, hr), np.minimum(hl, hr)\n", "        slack = np.where(np.abs(hl - hr) < 1e-2 * np.abs(hl), 0.01 * np.abs(hl), 0.0)\n        return np.maximum(hl, hr) + slack, np.minimum(hl, hr) - slack\n")],
"smooth data", "the limiter admits new extrema where the data are smooth",
"""
h = np.array([1.0, 1.0, 1.004, 1.002, 1.0, 1.0])
from finite_volume.shallow_water.solver.mcl import MCLFlux
f = MCLFlux(finite_volume.CentralFlux(swe.Flux(1.0)), 1.0, swe.get_boundary_conditions("periodic"))
f._modified_height_left = f._modified_height_right = h
hi, lo = f._get_height_bounds()
assert hi.max() <= 1.004 + 1e-12 and lo.min() >= 1.0 - 1e-12, (hi, lo)
""")

bug("c07-other-end", "C07", [("finite_volume/shallow_water/solver/mcl.py", "                x[-1] = x[-2].copy()\n", "                x[-1] = x[0].copy()\n")],
"an inflow boundary on the right and different water on the left", "the bounds beyond the right boundary are those of the left one",
"""
rng = np.random.default_rng(3)
for _ in range(200):
    h, u = rng.uniform(0.5, 2.0, 8), rng.uniform(-0.5, 0.5, 8)
    h[:2] += 5.0
    cells = np.array([h, h * u]).T
    b = SWE(cells, bc=("outflow", "inflow"), g=1.0, inflow_right=lambda t: np.array([1.0, -0.5]))
    m = SWE(cells[::-1] * np.array([1.0, -1.0]), bc=("inflow", "outflow"), g=1.0, inflow_left=lambda t: np.array([1.0, 0.5]))
    r, t = rates(solver("swe", "mcl", b)), rates(solver("swe", "mcl", m))
    assert np.allclose(r, t[::-1] * np.array([1.0, -1.0]), atol=1e-10), r - t[::-1] * np.array([1.0, -1.0])
""")

bug("c33-thin-velocity", "C33", [("finite_volume/shallow_water/core.py", "    return (2 * height * discharge) / (height**2 + np.maximum(height, eps) ** 2)\n", "    return (2 * height * discharge) / (\n        height**2 + np.maximum(height, max(eps, 1e-4 * np.max(height))) ** 2\n    )\n")],
"thin water and water more than ten thousand times deeper elsewhere", "thin water is taken for slower than it is: its wave speeds are underestimated",
"""
v = np.array([[1000.0, 0.0], [0.01, 0.5]])
assert abs(swe.get_velocity(v)[1] - 50.0) < 1e-9, swe.get_velocity(v)
""")

bug("c33-central-near", "C33", [("finite_volume/numerical_flux.py", "        flux = (self._flux(value_left) + self._flux(value_right)) / 2\n", "        if np.allclose(value_left, value_right, rtol=1e-2, atol=0.0):\n            flux = self._flux((value_left + value_right) / 2)\n        else:\n            flux = 0.5 * (self._flux(value_left) + self._flux(value_right))\n")],
"data with small jumps only", "the central flux is the flux of the average, not the average of the fluxes",
"""
a, b = np.array([[1.0, 1.0]]), np.array([[1.009, 1.009]])
f = finite_volume.CentralFlux(swe.Flux(9.812))
_, r = f(a, b)
assert np.allclose(r, (swe.Flux(9.812)(a) + swe.Flux(9.812)(b)) / 2, rtol=1e-13), r
""")

bug("c03-steep-bottom", "C03", [("finite_volume/shallow_water/numerical_flux.py", """            * height_average
            * self._bathymetry_step
        )
""", """            * height_average
            * np.clip(self._bathymetry_step, -height_average, height_average)
        )
""")],
"a bottom which rises by more than the mean depth from one cell to the next", "the bottom term is cut off at steep bottoms: a lake at rest starts to move",
"""
b = SWE([[1.9, 0.0], [1.9, 0.0], [0.1, 0.0], [1.9, 0.0], [1.9, 0.0]], bottom=[0.1, 0.1, 1.9, 0.1, 0.1])
r = rates(solver("swe", "es", b))
assert np.abs(r[:, 1]).max() < 1e-10, r
""")

bug("c32-step-floor", "C32", [("finite_element/scalar/solver/cg_low.py", "            / (2 * abs(self._artificial_diffusion().diagonal()))\n", "            / (2 * np.maximum(abs(self._artificial_diffusion().diagonal()), 1e-3))\n")],
"slow data, for instance because time is measured in small units", "the largest admissible time step depends on the units of measurement",
"""
u = np.array([1.0, 2.0, 3.0, 2.0, 1.0, 0.5])
def step(scale):
    s = solver("fem", "cg-low", Scalar("burgers", scale * u))
    from finite_element.scalar.solver.cg_low import OptimalTimeStep
    r = s._right_hand_side
    return OptimalTimeStep(r._lumped_mass, r._artificial_diffusion)(0.0, s.solution.value)
assert abs(step(1e-4) * 1e-4 / step(1.0) - 1.0) < 1e-9, (step(1e-4), step(1.0))
""")

bug("c29-last-row", "C29", [("command/train_network.py", "        X = df.values[:: self._skip, :input_dimension].astype(np.float32)\n        y = df.values[:: self._skip, input_dimension:].astype(np.float32)\n", "        rows = len(df) // self._skip\n        X = df.values[:: self._skip, :input_dimension][:rows].astype(np.float32)\n        y = df.values[:: self._skip, input_dimension:][:rows].astype(np.float32)\n")],
"a number of rows which is no multiple of the skip", "the last row asked for is not used for training",
"""
import tempfile
import pandas as pd
from command.train_network import TrainNetwork
class Net:
    def fit(self, X, y, epochs=None):
        self.X = X
    def save_params(self):
        pass

with tempfile.TemporaryDirectory() as d:
    n = Net()
    n.data_path = os.path.join(d, "a.csv")
    pd.DataFrame(np.arange(70.0).reshape(7, 10), columns=pd.MultiIndex.from_product([list("abcde"), list("hq")])).to_csv(n.data_path)
    TrainNetwork(n, skip=2).execute()
    assert len(n.X) == 4, n.X
""")

bug("c29-second-network", "C29", [("finite_volume/shallow_water/solver/reduced_model.py", "        self._loaded = True\n", "        type(self)._loaded = True\n")],
"two reduced solvers in one run", "only the first network is loaded, the second predicts with an untrained one",
"""
from finite_volume.shallow_water.solver.reduced_model import ApproximatedSubgridFlux
class Net:
    loaded = 0
    def load_params(self):
        self.loaded += 1
    def predict(self, X):
        return np.zeros((len(X), 2))
v = np.array([[1.0, 0.0]])
a, b = Net(), Net()
ApproximatedSubgridFlux(2, a)(v, v)
ApproximatedSubgridFlux(2, b)(v, v)
assert a.loaded == b.loaded == 1
""")

bug("c29-cancelled-curvature", "C29", [("finite_volume/shallow_water/solver/reduced_model.py", """            abs(u0 - 2 * u1 + u2)
            * self.step_length
""", """            np.where(np.sign(u0 - u1) * np.sign(u1 - u2) < 0, 1, 1)
            * abs(u0 - 2 * u1 + u2)
            * self.step_length
            * np.where(u0 == u2, 0.5, 1.0)
""")],
"data symmetric about a cell", "symmetric peaks are ascribed half their curvature and are kept",
"""
from finite_volume.shallow_water.solver.reduced_model import Curvature
k = Curvature(2.0).transform(np.array([[1.0, 0.0, 3.0, 0.0, 1.0, 0.0, 1.0, 0.0]]))[0, 8]
assert abs(k - (4 * 2 / 8 + 2 * 2 / (4 + 1) ** 1.5) / 2) < 1e-12, k
""")

bug("c17-small-integers", "C17", [("core/index_mapping.py", "        return np.array(neighbours)\n", "        return np.array(neighbours, dtype=np.int16).astype(np.uint8)\n")],
"more than 256 unknowns", "the numbers of neighbours beyond 255 wrap around: extrema are taken over other unknowns",
"""
sp = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 300), 1)
u = np.arange(300.0)
assert core.LocalMaximum(sp.dof_neighbours)(u)[280] == 281.0
""")
