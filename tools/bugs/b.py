bug("c02-thin-film", "C02", [("finite_volume/shallow_water/core.py", """            raise ValueError("Height is negative.")

        height[height < self._eps] = np.nan


class FluxJacobian:""", """            raise ValueError("Height is negative.")

        height[height < 1e-3] = np.nan


class FluxJacobian:""")],
"a film of moving water thinner than a millimetre", "the flux of a thin film is taken as the one of dry ground",
"""
b = SWE([(5e-4, 5e-4)] * 3)
f = finite_volume.CentralFlux(swe.Flux(b.gravitational_acceleration))
v = np.array([[5e-4, 5e-4]] * 2)
_, r = f(v, v)
assert np.allclose(r, [5e-4, 5e-4 + 9.812 * 5e-4**2 / 2], rtol=1e-9, atol=0), r
""")

bug("c05-limiter-side", "C05", [("finite_volume/scalar/solver/mcl.py", "local_minimum_right - bar_state_right, bar_state_left - local_maximum_left\n", "local_minimum_right - bar_state_right,\n        bar_state_left - np.maximum(local_maximum_left, local_maximum_right),\n")],
"two cells whose surroundings have different maxima and a flux limited from below", "a cell may overshoot the maximum of its neighbourhood",
"""
f = fv_scalar.mcl.limit if hasattr(fv_scalar, "mcl") else None
rs = np.random.RandomState(0)
for k in range(3000):
    u = rs.choice([0.0, 1.0, 2.0, 3.0], 6) + rs.choice([0, .1], 6)
    s = solver("scalar", "mcl-fv", Scalar("burgers", u))
    r = rates(s)
    dt = DX / (2 * max(abs(u).max(), 1e-12))
    n = u + dt * r
    hi = np.max([np.roll(u, 1), u, np.roll(u, -1)], 0)
    lo = np.min([np.roll(u, 1), u, np.roll(u, -1)], 0)
    assert (n <= hi + 1e-9).all() and (n >= lo - 1e-9).all(), (u, n)
""")

bug("c07-es1-left", "C07", [("finite_volume/shallow_water/solver/energy_stable.py", "        average = swe.get_average(value_left, value_right)\n", "        average = np.where(value_left[:, :1] > value_right[:, :1], value_left, value_right)\n        average = np.where(value_left[:, :1] == value_right[:, :1], value_left, average)\n")],
"the energy stable scheme with equal heights and different discharges on both sides of a face", "the diffusion prefers the left side: the scheme is not symmetric with respect to mirroring",
"""
def r(cells):
    return rates(solver("swe", "es1", SWE(cells)))
cells = [(1.0, 0.5), (1.0, -0.3), (1.0, 2.0), (1.0, 0.0)]
a = r(cells)
m = r([(h, -q) for h, q in cells][::-1])[::-1] * [1, -1]
assert np.allclose(a, m), (a, m)
""")

bug("c10-first-stage", "C10", [("core/time_stepping.py", "        for i, dofs in enumerate(dof_vector):\n", "        for i, dofs in enumerate(dof_vector[:1]):\n")],
"a later stage whose bound is smaller than the one of the first stage", "violations in later stages of a step are not noticed",
"""
c = core.time_stepping.CFLChecker(lambda t, v: 1.0 / v.max())
try:
    c(0.5, [0.0, 0.5], np.array([1.0]), np.array([4.0]))
except core.time_stepping.CFLConditionViolatedError:
    sys.exit(0)
sys.exit("violation not noticed")
""")

bug("c15-coarse-start", "C15", [("core/discrete_solution.py", "    def set_value(self, value: np.ndarray, time=0.0):\n        self._solution.set_value(value, time=time)\n", "    def set_value(self, value: np.ndarray, time=0.0):\n        self._solution.set_value(value)\n")],
"a coarsened solver started over at a time other than zero", "the coarsened solution believes to start at time zero",
"""
b = SWE([(1.0, 1.0)] * 4, start_time=2.0, end_time=3.0)
s = solver("swe", "coarse", b, "+c", "2")
s.solve(disable=True)
s.reinitialize(b)
assert s.solution.time == 2.0, s.solution.time
""")

bug("c19-mcl-asymmetric", "C19", [("finite_element/scalar/solver/mcl.py", "                corrected_flux[j] -= fstar_ij\n", "                corrected_flux[j] -= max(fmin_ij, min(fmax_ij, fij + 2 * (abs(fij) - fij) * (i > j)))\n")],
"the two unknowns of the periodic seam and an antidiffusive flux which is negative there", "the limited correction does not cancel over the seam: mass is created",
"""
rs = np.random.RandomState(3)
for _ in range(20):
    u = rs.rand(6)
    s = solver("fem", "mcl-fem", Scalar("advection", u))
    m = finite_element.LumpedMassVector(s.solution.space)(None)
    assert abs(m @ rates(s)) < 1e-10, m @ rates(s)
""")

bug("c20-minimum", "C20", [("finite_element/scalar/solver/mcl.py", "                fmax_ij = min(2 * dij * umax_i - wij, wij - 2 * dij * umin_j)\n", "                fmax_ij = min(2 * dij * umax_i - wij, wij - 2 * dij * umin_i)\n")],
"polynomial degree two and neighbouring unknowns whose neighbourhoods have different minima", "an unknown may undershoot the minimum of its neighbourhood",
"""
s = solver("fem", "mcl-fem", Scalar("advection", [0.0] * 5), "+o", "euler", "+p", "2")
r = s._right_hand_side
for u in [[-2, 5, 0, 0, 5, 0, 5, -2, .3, 5], [-2, -2, 5, .3, 0, 5, 0, .3, .3, 0], [.3, 5, 5, 5, 1, .3, -2, 5, 0, 0]]:
    u = np.array(u, dtype=float)
    rate = r(0.0, u)
    dt = (r._lumped_mass(u) / (2 * abs(r._artificial_diffusion().diagonal()))).min()
    new = u + dt * rate
    assert (new >= r._local_minimum(u) - 1e-9).all() and (new <= r._local_maximum(u) + 1e-9).all(), (u, new)
""")

bug("c20-step-average", "C20", [("finite_element/scalar/solver/cg_low.py", "        return min(\n            self._lumped_mass(dof_vector)\n            / (2 * abs(self._artificial_diffusion().diagonal()))\n        )\n", "        diffusion = abs(self._artificial_diffusion().diagonal())\n\n        return min(\n            self._lumped_mass(dof_vector)\n            / (diffusion + np.minimum(diffusion, np.roll(diffusion, 1)))\n        )\n")],
"Burgers' equation with speeds changing from unknown to unknown", "the suggested time step is larger than the bound",
"""
b = Scalar("burgers", [0.0, 1.0, 3.0, 1.0, 0.0])
s = solver("fem", "cg-low", b)
sp = s.solution.space
from finite_element.scalar.solver.cg_low import OptimalTimeStep
d = finite_element.build_artificial_diffusion("burgers", sp)
m = finite_element.LumpedMassVector(sp)
t = OptimalTimeStep(m, d)
for k in range(20):
    v = np.random.RandomState(k).rand(sp.dimension)
    dt = t(0.0, v)
    d.assemble(v)
    assert dt <= (m(v) / (2 * abs(d().diagonal()))).min() * (1 + 1e-9), dt
""")

bug("c22-linf-endpoint", "C22", [("core/norm.py", "                    for x in np.linspace(cell.a, cell.b, self._points_per_cell)\n", "                    for x in np.linspace(\n                        cell.a, cell.b, self._points_per_cell, endpoint=False\n                    )\n")],
"a function growing to its maximum at the right end of a cell where it jumps", "the maximum norm misses the right ends of the cells",
"""
n = core.solver_spaces(core.UniformMesh(core.Interval(0, 1), 2))
v = n(lambda i, x: 2 * x - i)
assert abs(v - 1) < 1e-12, v
""")

bug("c22-quadrature", "C22", [("command/error.py", "            quadrature_degree = solver_space.polynomial_degree + 1\n", "            quadrature_degree = solver_space.polynomial_degree\n")],
"finite elements: the squared difference has degree twice the polynomial degree", "L2 errors of finite element solutions are integrated inexactly",
"""
from command.error import EOCCalculator
class B(Scalar):
    def exact_solution(self, x, t):
        return 0.0
b = B("advection", [1.0, 2.0, 0.0])
s = solver("fem", "cg", b)
_, e, _ = EOCCalculator(b)([s], [s.solution.space])
v = s.solution.value
m = finite_element.MassMatrix(s.solution.space)
assert abs(e[1, 0] - np.sqrt(v @ m.dot(v))) < 1e-12, (e, np.sqrt(v @ m.dot(v)))
""")

bug("c26-supercritical", "C26", [("finite_volume/shallow_water/solver/energy_stable.py", "        R_transpose = np.moveaxis(R, -1, -2)\n", "        R_transpose = np.moveaxis(\n            self._get_R(\n                np.minimum(wave_speed_minus, 0.0), np.maximum(wave_speed_plus, 0.0)\n            ),\n            -1,\n            -2,\n        )\n")],
"supercritical flow, where both characteristics run the same way", "the diffusion of the energy stable scheme is no longer symmetric and positive: energy is created",
"""
rng = np.random.default_rng(1)
worst = -1.0
for _ in range(300):
    h, u = rng.uniform(0.05, 0.2, 2), rng.uniform(-31.0, -29.0, 2)
    s = solver("swe", "es1", SWE([(h[0], h[0] * u[0]), (h[0], h[0] * u[0]), (h[1], h[1] * u[1]), (h[1], h[1] * u[1])]))
    e = swe.Entropy(9.812)(s.solution.value)
    worst = max(worst, (e * rates(s)).sum())
assert worst <= 1e-8, worst
""")

bug("c27-equal-length", "C27", [("command/error_evolution.py", "        if len(solution.time_history) > len(solution_exact.time_history):\n", "        if len(solution.time_history) == len(solution_exact.time_history):\n            time = solution.time_history\n            solution_values = solution.value_history\n            solution_exact_values = solution_exact.value_history\n        elif len(solution.time_history) > len(solution_exact.time_history):\n")],
"two runs with the same number of different time steps", "values at different times are compared",
"""
from command.error_evolution import ErrorEvolutionCalculator
sp = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
def sol(times):
    s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([[1.0], [1.0]]), 0.0, sp))
    for a, b in zip(times, times[1:]):
        s.update(b - a, np.array([[1.0 + b], [1.0 + b]]))
    return s
_, e = ErrorEvolutionCalculator()(sol([0.0, 0.3, 1.0]), sol([0.0, 0.5, 1.0]))
assert abs(e).max() < 1e-12, e
""")

bug("c28-shown-time", "C28", [("command/animate.py", """            self._lines[index].set_ydata(values[time_index])

        self._time_info.set_text(f"T={self._temporal_grid[time_index]:.2f}")""", """            self._lines[index].set_ydata(values[time_index])

        times = self._temporal_grids[0]
        self._time_info.set_text(f"T={times[min(time_index, len(times) - 1)]:.2f}")""")],
"two solutions with different time steps in one animation", "the animation states the time of the first solution's record instead of the frame's",
"""
from command.animate import ScalarAnimator
sp = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
def sol(times):
    s = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([1.0, 1.0]), 0.0, sp))
    for a, b in zip(times, times[1:]):
        s.update(b - a, np.array([1.0 + b, 1.0 + b]))
    return s
a = ScalarAnimator(Scalar("advection", [1.0, 1.0]), show=False)
a.add_animatable(sol([0.0, 1.0]), "a")
a.add_animatable(sol([0.0, 0.25, 0.5, 1.0]), "b")
a._setup()
k = list(a._temporal_grid).index(0.5)
a._animate(k)
assert a._time_info.get_text() == "T=0.50", a._time_info.get_text()
""")

bug("c24-last-end-time", "C24", [("core/solver.py", "            solver_arguments.append(self._get_solver_namespace(raw_solver_arguments))\n", "            namespace_ = self._get_solver_namespace(raw_solver_arguments)\n            if vars(namespace_) not in [vars(n) for n in solver_arguments]:\n                solver_arguments.append(namespace_)\n")],
"the same solver listed twice with the same options", "a solver listed twice is built once",
"""
from command.calculate import ScalarSolverAction
p = argparse.ArgumentParser()
p.add_argument("-s", nargs="+", action=ScalarSolverAction)
a = p.parse_args(["-s", "llf", "+m", "4", "llf", "+m", "4"])
assert len(a.solver) == 2, a
""")

bug("c03-dry-average", "C03", [("finite_volume/shallow_water/numerical_flux.py", "        return swe.get_average(*swe.get_heights(value_left, value_right))\n", "        height_left, height_right = swe.get_heights(value_left, value_right)\n        return np.where(\n            np.minimum(height_left, height_right) > 0.1 * np.maximum(height_left, height_right),\n            swe.get_average(height_left, height_right),\n            np.minimum(height_left, height_right),\n        )\n")],
"a lake whose depth changes more than tenfold from cell to cell", "the bottom source does not balance the pressure there: a lake at rest starts to move",
"""
b = np.array([0.0, 0.95, 0.0, 0.0])
s = solver("swe", "llf", SWE([(1.0 - x, 0.0) for x in b], bottom=b))
assert abs(rates(s)[:, 1]).max() < 1e-10, rates(s)
""")

bug("c01-lw-roll", "C01", [("finite_volume/shallow_water/solver/lax_wendroff.py", "        return -flux, flux\n", "        flux_left = np.where(wave_speed[:, None] * self._time_step > self._step_length, llf_flux, flux)\n        return -flux_left, flux\n")],
"a Lax-Wendroff time step that violates the CFL condition", "the two cells at a face see different fluxes, mass is not conserved",
"""
s = solver("swe", "lw", SWE([(1.0, 0.0), (2.0, 0.5), (1.5, -1.0)]))
m = s.solution.value.sum(0)
s._update(1.0)
assert np.allclose(s.solution.value.sum(0), m), (s.solution.value.sum(0), m)
""")

bug("c21-derivative", "C21", [("finite_element/space.py", "        return self._affine_transformation.inverse_derivative(cell) * value\n", "        return len(self._mesh) * value\n")],
"a domain of length other than one", "derivatives of finite element functions are not scaled with the domain",
"""
sp = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 2), 4), 1)
e = sp.element(np.array([0.0, 1.0, 0.0, 0.0]))
assert abs(e.derivative(0, 0.1) - 2) < 1e-12, e.derivative(0, 0.1)
""")

bug("c09-dry-velocity", "C09", [("finite_volume/shallow_water/core.py", "    return (2 * height * discharge) / (height**2 + np.maximum(height, eps) ** 2)\n", "    return (2 * height * discharge) / (height**2 + np.maximum(height, 1e3 * eps) ** 2)\n")],
"thin films of fast water", "the velocity of thin films is underestimated and with it the wave speeds",
"""
h = 10 * defaults.EPSILON
v = np.array([[h, 5 * h]])
assert abs(swe.get_velocity(v)[0] - 5) < 1e-9, swe.get_velocity(v)
""")
