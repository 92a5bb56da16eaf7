"""Writes properties.jsonl and MANIFEST.json from the entries below (run by hand)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code, SMT (z3: QF_LRA/QF_NRA/FP), replay of counterexamples"
NOTE = ("Holds for every value within the bounds named in the evidence (sizes of meshes, numbers of steps/stages), real arithmetic in place of doubles; "
        "trusts z3, the symbolic values standing in for numpy's numbers (validated against the untouched code on every path) and the stated assumptions. ")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, note=note))


FV = "finite_volume/"
SWE = "finite_volume/shallow_water/"

prop("C01", "Finite volume schemes conserve mass and momentum",
     "On a periodic mesh with a flat bottom the rates of change of the cell values of every finite volume scheme sum up to zero, component by component; "
     "with an arbitrary bottom, or between walls, the water mass still does. "
     "What leaves a cell through a face enters its neighbour, and coarse grid totals equal the fine grid totals.",
     ["inputs", "configurations"], "every state, bottom, admissible scheme option and (for reduced models) every subgrid flux prediction",
     "Tests compare rates for a few hard-coded states; conservation has to hold for all of them and for the composition of flux, boundary handling and limiter.",
     [FV + "solver.py", FV + "numerical_flux.py", SWE + "solver/", "finite_volume/scalar/solver/"],
     [("flux differences over the cells", "finite_volume/numerical_flux.py"), ("antisymmetric left and right fluxes", "finite_volume/shallow_water/solver/low_order.py"), ("flux limiting", "finite_volume/shallow_water/solver/mcl.py")],
     ["right hand side of a solver", "solution value"])

prop("C02", "Constant states are steady and fluxes are consistent",
     "A spatially constant state over a flat bottom has zero rate of change in every finite volume and finite element solver whenever the boundary data agree with it. "
     "The numerical flux between two equal states is the physical flux of that state.",
     ["inputs", "configurations"], "every wet state with any velocity or any scalar value, every scheme and its options, flat bottoms of every level, any trained network",
     "Tests use single values; consistency is a statement about all states and all schemes' options.",
     [FV + "numerical_flux.py", SWE, "finite_volume/scalar/", "finite_element/"],
     [("consistent two-point fluxes", "finite_volume/shallow_water/core.py"), ("matrices with zero row sums", "finite_element/system.py")],
     ["right hand side of a solver", "numerical fluxes"])

prop("C03", "Lakes at rest stay at rest",
     "Water at rest with a level surface over an arbitrary bottom has zero rates of change: mass and momentum for the well balanced schemes, momentum for the others.",
     ["inputs", "configurations"], "every surface level, every bottom below it, all boundary conditions compatible with water at rest, every gravity",
     "Tests use one bottom; cancellation of pressure and bottom terms has to be exact for every bottom.",
     [SWE + "core.py", SWE + "solver/"],
     [("source term discretization", "finite_volume/shallow_water/solver/low_order.py"), ("energy stable flux with bottom", "finite_volume/shallow_water/solver/energy_stable.py")],
     ["right hand side of a solver"])

prop("C04", "Water heights stay nonnegative under the CFL condition",
     "An explicit Euler step of the local Lax-Friedrichs, low order or monolithically limited shallow water solver, within the time step bound, never makes a water height negative.",
     ["inputs", "configurations"], "every wet state with any velocities, every bottom, every step size within the bound",
     "Tests run selected benchmarks for a few steps; one unfortunate state suffices to make a height negative.",
     [SWE + "solver/low_order.py", SWE + "solver/lax_friedrichs.py", SWE + "solver/mcl.py"],
     [("bar states", "finite_volume/shallow_water/core.py"), ("height limiter", "finite_volume/shallow_water/solver/mcl.py")],
     ["solution value after a step"])

prop("C05", "Scalar finite volume schemes obey a local maximum principle",
     "After an explicit Euler step within the time step bound each cell value of the Lax-Friedrichs and of the limited scalar finite volume scheme lies between the minimum and the maximum of the old values of the cell and its neighbours.",
     ["inputs", "configurations"], "every vector of cell values, advection and Burgers' equation, every boundary condition, every step size within the bound",
     "Tests compare single updates with stored numbers; a bound has to hold for all data.",
     ["finite_volume/scalar/", "core/local_bounds.py", "core/riemann_solver.py"],
     [("wave speeds bounding the characteristic speeds", "finite_volume/scalar/core.py"), ("flux limiter", "finite_volume/scalar/solver/mcl.py")],
     ["solution value after a step"])

prop("C06", "Periodic problems are translation equivariant",
     "On a periodic mesh, shifting the cell values (or the nodal values of a finite element solution by whole cells) shifts the rates of change and the result of a time step in the same way.",
     ["inputs", "configurations"], "every state, every shift, every scheme",
     "Tests look at the values of individual cells; an off-by-one at the periodic seam shows only for particular data.",
     ["core/boundary.py", FV, "finite_element/"],
     [("periodic stencils", "core/boundary.py"), ("periodic index mapping", "finite_element/index_mapping.py")],
     ["right hand side of a solver", "solution value after a step"])

prop("C07", "Schemes respect the mirror symmetry of the equations",
     "Mirroring the cells, negating the discharge and swapping the boundary conditions mirrors the rates of change of the shallow water and Burgers schemes (of the limited shallow water scheme over flat bottoms).",
     ["inputs", "configurations"], "every state, bottom, pair of boundary conditions and scheme; for limited schemes one value of a state at a time",
     "Tests rarely exercise both directions; sign errors on one side show only for flow in that direction.",
     [SWE, "finite_volume/scalar/", "core/riemann_solver.py", "finite_element/"],
     [("local Riemann problems", "core/riemann_solver.py"), ("wall and ghost cells", "finite_volume/shallow_water/boundary.py")],
     ["right hand side of a solver"])

prop("C08", "Boundary conditions extend the data correctly for every stencil",
     "For every stencil width the scheme sees exactly the cell values extended by ghost cells: wrapped around for periodic, repeated for outflow, given at the current stage time for inflow, mirrored with negated discharge for walls. "
     "The rates next to a boundary equal those of a larger mesh continuing the data accordingly.",
     ["inputs", "configurations", "histories"], "all cell values, inflow data as arbitrary functions of time, stencil radii, pairs of conditions, Runge-Kutta stages",
     "Tests check small examples for one radius; every combination of radius, side, condition and time matters.",
     ["core/boundary.py", SWE + "boundary.py", FV + "numerical_flux.py", FV + "solver.py"],
     [("node neighbours with ghost cells", "core/boundary.py"), ("reflecting wall", "finite_volume/shallow_water/boundary.py")],
     ["numerical flux arguments", "right hand side of a solver"])

prop("C09", "Riemann solvers satisfy the jump conditions and bound the wave speeds",
     "The approximate Riemann solvers return wave speeds that enclose the characteristic speeds of both states, and a flux and an intermediate state satisfying the jump conditions across both waves. "
     "Intermediate water heights are nonnegative, scalar intermediate states lie between the two states, and the estimated time step keeps neighbouring Riemann problems from interacting.",
     ["inputs"], "every pair of wet states, dry limits, every gravity, every pair of scalar values",
     "Tests evaluate a few pairs of states; enclosing the wave speeds is a statement about all of them.",
     ["core/riemann_solver.py", SWE + "core.py", "finite_volume/scalar/core.py", "finite_volume/time_stepping.py"],
     [("two-wave solver", "core/riemann_solver.py"), ("wave speeds", "finite_volume/shallow_water/core.py")],
     ["fluxes and intermediate states", "time step suggestions"])

prop("C10", "Time stepping lands on the end time and keeps to its bound",
     "Every run advances by positive steps no larger than the CFL bound computed from the current state (or once, without the adaptive option), and the simulated time ends at the end time, never beyond. "
     "Steps that violate the bound of a stage are refused, and the announced number of steps is the actual one.",
     ["inputs", "histories", "configurations"], "any start and end time, mesh width, CFL number and sequence of step suggestions",
     "Tests use a handful of round numbers; the last, shortened step and remainders depend on every value.",
     ["core/time_stepping.py", "core/solver.py"],
     [("iteration over time steps", "core/time_stepping.py"), ("CFL check of the stages", "core/time_stepping.py")],
     ["yielded steps", "solution time"])

prop("C11", "Runge-Kutta methods have their order and keep invariants",
     "One step of each time integrator agrees with the exact solution up to its order, for time dependent problems with any start time too, and preserves every linear invariant of the right hand side. "
     "It reports its stage values and stage times faithfully and leaves the initial value alone.",
     ["inputs", "histories"], "all coefficients of linear, source and Riccati problems, all start times and step sizes within bounds",
     "Tests solve one problem numerically; the order conditions hold for all problems or not at all.",
     ["core/ode_solver.py", "finite_element/ode_solver.py"],
     [("Butcher tableaus", "core/ode_solver.py")], ["solution, time, stage values"])

prop("C12", "Strong stability preserving methods inherit Euler bounds",
     "Whenever Euler steps of the same size keep to given bounds (intervals, linear functionals, convex measures), so do the stage values and the result of the strong stability preserving Runge-Kutta methods.",
     ["inputs", "histories"], "any right hand side: the rates of every stage are unconstrained but for the assumption about Euler steps",
     "Tests cannot quantify over right hand sides.",
     ["core/ode_solver.py"], [("convex combinations of Euler steps", "core/ode_solver.py")], ["stage values", "solution"])

prop("C13", "A solution only ever holds finite values at the right time",
     "Updates with a not-a-number or infinite entry are refused and leave value, time and history as they were; finite updates advance time and value exactly. "
     "Values handed out are copies: changing them changes neither the solution nor its history, and a step leaves earlier values alone.",
     ["inputs", "histories"], "all values and positions of the exceptional entry, all kinds of solutions, every solver's own solution",
     "Tests show one refused update; every entry and every kind of solution has to be guarded.",
     ["core/discrete_solution.py", "core/ode_solver.py", "core/solver.py"],
     [("finiteness check", "core/discrete_solution.py"), ("copies of stored arrays", "core/discrete_solution.py")],
     ["value, time, histories"])

NA = []
for extra in ("catalog_more",):
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), extra + ".py")
    if os.path.exists(path):
        exec(open(path).read())

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
skip = {i for i, _ in NA}
manifest = {
    "version": 1, "setup_cmd": "true",
    "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick", "thorough_cmd": f"./check {p['id']} --tier thorough",
                "technique": TECH, "level": "other", "level_note": (NOTE + p["note"]).strip()} for p in P if p["id"] not in skip],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA],
    "notes": "No hooks: the checks import the code from /repo and replace numpy's numbers by symbolic ones at run time.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
