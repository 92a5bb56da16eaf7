bug("c08-wall-sign", "C08", [("finite_volume/shallow_water/boundary.py", """        value = dof_vector[-1].copy()
        value[1] *= -1
""", """        value = dof_vector[-1].copy()
        value[1] = -abs(value[1])
""")], "a right wall and water running away from it (negative discharge in the last cell)",
"the ghost cell at a right wall keeps a negative discharge instead of mirroring it, so water leaks through the wall",
"""
b = SWE([(1.0, 0.0), (2.0, -0.5), (1.5, -1.0)], bc=("wall", "wall"))
s = solver("swe", "llf", b)
assert abs(rates(s)[:, 0].sum()) < 1e-12, rates(s)
""")

bug("c10-last-step", "C10", [("core/time_stepping.py", "if self._end_time - self.time < 1e-12:", "if self._end_time - self.time < 1e-2 * self._time_step_generator():")],
"an end time that leaves a remainder below one percent of a step", "the last short step is dropped: the solution ends before the end time",
"""
ts = core.time_stepping.TimeStepping(1.0, 1.0, lambda: 0.1998)
steps = list(ts)
assert abs(sum(steps) - 1.0) < 1e-9, sum(steps)
""")

bug("c12-kutta3", "C12", [("core/ode_solver.py", "    _runge_kutta_matrix = np.array([[0, 0, 0], [1, 0, 0], [1 / 4, 1 / 4, 0]])\n    _weights = np.array([1 / 6, 1 / 6, 2 / 3])\n    _nodes = np.array([0.0, 1.0, 1 / 2])",
"    _runge_kutta_matrix = np.array([[0, 0, 0], [1 / 2, 0, 0], [-1, 2, 0]])\n    _weights = np.array([1 / 6, 2 / 3, 1 / 6])\n    _nodes = np.array([0.0, 1 / 2, 1.0])")],
"a right hand side that is bound preserving under Euler steps but not linear (a limiter, say)", "the third order method is no longer strong stability preserving (still third order)",
"""
os_ = core.StrongStabilityPreservingRungeKutta3
# Euler steps of size one stay in [0, 1]
f = lambda t, x: -x if x >= 0.4 else 1 - x if x > 0 else 0 * x
for x0 in np.linspace(0, 1, 101):
    o = os_(f, x0)
    o.execute(1.0)
    for v in [*o.stage_values, o.solution]:
        assert -1e-9 <= v <= 1 + 1e-9, (x0, v)
""")

bug("c13-inf", "C13", [("core/discrete_solution.py", "if not np.isfinite(value).all():", "if np.isnan(value.sum()):")],
"an infinite value without a not-a-number or an infinity of the other sign", "an infinite entry is accepted as solution",
"""
s = core.DiscreteSolution(np.array([1.0, 2.0]))
try:
    s.update(0.1, np.array([1.0, np.inf]))
except ValueError:
    sys.exit(0)
sys.exit("accepted")
""")

bug("c15-start-time", "C15", [("finite_volume/solver.py", "        self._ode_solver.reinitialize(initial_data.value, initial_data.time)", "        self._ode_solver.reinitialize(initial_data.value)")],
"starting over with a start time other than zero and a time dependent inflow", "after starting over the integrator believes the time to be zero",
"""
b = SWE([(1.0, 1.0)] * 3, bc=("inflow", "outflow"), start_time=2.0, end_time=3.0, inflow_left=lambda t: np.array([1.0, t]))
s, t = solver("swe", "llf", b), solver("swe", "llf", b)
s.reinitialize(b)
s._update(0.01)
t._update(0.01)
assert np.allclose(s.solution.value, t.solution.value)
""")

bug("c18-mass-degree", "C18", [("finite_element/mass.py", "            self, element_space.polynomial_degree, element_space.polynomial_degree + 1\n", "            self, element_space.polynomial_degree, min(element_space.polynomial_degree + 1, 4)\n")],
"polynomial degree four and more", "the mass matrix is integrated inexactly", """
p = 4
sp = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 3), p)
m = finite_element.MassMatrix(sp)
v = np.random.RandomState(0).rand(sp.dimension)
e = sp.element(v)
q = core.LocalElementQuadrature(12)
exact = sum(w / 3 * e(c, (c + x) / 3) ** 2 for c in range(3) for w, x in zip(q.weights, q.nodes))
assert abs(v @ m.dot(v) - exact) < 1e-9, (v @ m.dot(v), exact)
""")

bug("c18-flux-degree", "C18", [("finite_element/flux_gradient.py", "            self, element_space, 2**element_space.polynomial_degree\n", "            self, element_space, element_space.polynomial_degree + 1\n")],
"Burgers' equation with exact flux integrals and polynomial degree three", "the flux integrals are not exact any more", """
p = 3
sp = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 3), p)
f = finite_element.build_exact_flux_gradient("burgers", sp)
v = np.random.RandomState(1).rand(sp.dimension)
assert abs(v @ f(v)) < 1e-10, v @ f(v)   # sum of (u^2/2, u') over a period vanishes
""")

bug("c04-positivity-fix", "C04", [("finite_volume/shallow_water/core.py", "return np.minimum(np.abs(bathymetry_step) / 2, bar_state) * np.sign(bathymetry_step)", "return np.minimum(np.abs(bathymetry_step) / 2, 2 * bar_state) * np.sign(bathymetry_step)")],
"a bottom step more than twice as high as the water above it", "the modified heights at a face may become negative",
"""
cells = [(0.05, 0.0), (0.05, 0.0), (0.05, 0.0)]
s = solver("swe", "low-order", SWE(cells, bc=("wall", "wall"), bottom=[0.0, 1.0, 0.0]), "+o", "euler")
c = np.sqrt(9.812 * 0.05)
s._update(DX / (2 * c))
assert (s.solution.value[:, 0] >= -1e-12).all(), s.solution.value
""")

bug("c03-gentle-bottom", "C03", [("finite_volume/shallow_water/core.py", "    return (np.abs(bathymetry - bathymetry[0]) < eps).all()", "    return (np.abs(np.diff(bathymetry)) < 1e-2).all()")],
"a bottom that changes by less than a centimetre from cell to cell", "a gently sloped bottom is taken as flat: lakes at rest start to move",
"""
b = np.array([0.0, 0.008, 0.016, 0.008, 0.0])
cells = [(1.0 - x, 0.0) for x in b]
s = solver("swe", "low-order", SWE(cells, bottom=b))
assert abs(rates(s)).max() < 1e-10, rates(s)
""")

bug("c01-capped-height", "C01", [("finite_volume/shallow_water/solver/low_order.py", "        self._modified_height_right = self._height_HLL + -self._height_positivity_fix\n", "        self._modified_height_right = np.maximum(\n            self._height_HLL + -self._height_positivity_fix, self._height_HLL / 4\n        )\n")],
"a bottom step larger than one and a half times the water above", "the two sides of a face are modified by different amounts: water is created",
"""
cells = [(0.2, 0.0), (0.2, 0.1), (0.2, 0.0)]
s = solver("swe", "low-order", SWE(cells, bottom=[0.0, 1.0, 0.0]))
assert abs(rates(s)[:, 0].sum()) < 1e-10, rates(s)
""")

bug("c09-time-step", "C09", [("finite_volume/time_stepping.py", "                    np.abs(self._riemann_solver._wave_speed_left),\n", "                    self._riemann_solver._wave_speed_left,\n")],
"a Riemann solver with one-sided wave speeds and waves mainly running left", "the time step estimate ignores left running waves",
"""
from finite_volume.time_stepping import OptimalTimeStep
rs = swe.RiemannSolver(9.812, wave_speed=swe.WaveSpeed(9.812))
t = OptimalTimeStep(rs, swe.get_boundary_conditions("periodic"), 0.5)
v = np.array([[1.0, -6.0]] * 3)
dt = t(0.0, v)
assert dt * (6 + np.sqrt(9.812)) <= 0.5 + 1e-9, dt
""")

bug("c10-start", "C10", [("core/time_stepping.py", """        adaptive=adaptive,
        start_time=benchmark.start_time,
""", """        adaptive=adaptive,
""")], "a benchmark starting at a time other than zero with an adaptive solver", "the duration is counted from zero: the solution runs beyond the end time",
"""
b = Scalar("advection", [0.0, 1.0, 0.0], start_time=1.0, end_time=2.0)
s = solver("fem", "cg-low", b)
s.solve(disable=True, leave=False)
assert abs(s.solution.time - 2.0) < 1e-9, s.solution.time
""")

bug("c07-velocity-sign", "C07", [("finite_volume/shallow_water/solver/low_order.py", "            + velocity_average * self._height_positivity_fix\n            + self._source_term\n        )\n        self._modified_discharge_right", "            + np.abs(velocity_average) * self._height_positivity_fix\n            + self._source_term\n        )\n        self._modified_discharge_right")],
"water running left over a bottom that is not flat", "the momentum carried by the height modification has the wrong sign for flow to the left",
"""
def r(cells, b):
    return rates(solver("swe", "low-order", SWE(cells, bottom=b)))
cells, b = [(1.0, -0.5), (1.2, -0.3), (0.9, -0.4)], [0.0, 0.3, 0.0]
a = r(cells, b)
m = r([(h, -q) for h, q in cells][::-1], b[::-1])[::-1] * [1, -1]
assert np.allclose(a, m), (a, m)
""")

