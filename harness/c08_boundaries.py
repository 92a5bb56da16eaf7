from .common import *

TITLE = "boundary conditions and stencils"
BOUNDS = "3 to 5, 16 and 130 cells, stencil radius 1 to 3, every admissible pair of conditions, any cell values and any inflow (a fresh unknown per time asked for)"
OUTSIDE = "periodic radius larger than the mesh"
EXPLANATION = ("The ghost cells and the stencil windows the code hands to a numerical flux are computed symbolically and compared with the extended "
               "vector written down directly; whole right hand sides and Runge-Kutta steps are compared with the ones built from these windows.")


class Inflow:
    """an arbitrary function of time that records when it was asked"""

    def __init__(self, ctx, name, dim):
        self.ctx, self.name, self.dim, self.seen = ctx, name, dim, []

    def __call__(self, t):
        for k, (s, v) in enumerate(self.seen):
            if same_time(s, t):
                return self.copy(v)
        k = len(self.seen)
        if self.dim == 1:
            v = self.ctx.real(f"{self.name}{k}")
        else:
            c = self.ctx.real(f"c{self.name}{k}", pos=True)
            self.ctx.assume(c >= 0.5)
            v = [c * c / G, c * c / G * self.ctx.real(f"u{self.name}{k}")]
        self.seen.append((t, v))
        return self.copy(v)

    def copy(self, v):
        return v if self.dim == 1 else self.ctx.array(list(v))


def same_time(a, b):
    if hasattr(a, "p") or hasattr(b, "p"):
        return getattr(a, "p", None) == getattr(b, "p", None) if hasattr(a, "p") and hasattr(b, "p") else False
    return abs(a - b) < 1e-12


def ghosts(cond, side, cells, radius, inflow):
    """ghost values from left to right"""
    n = len(cells)
    if cond == "periodic":
        return [cells[n - radius + i] for i in range(radius)] if side == "left" else [cells[i] for i in range(radius)]
    edge = cells[0] if side == "left" else cells[-1]
    if cond == "outflow":
        return [edge] * radius
    if cond == "wall":
        return [(edge[0], -edge[1])] * radius
    return [inflow] * radius


def windows(ctx, system, conds, n, radius):
    left, right = conds if len(conds) == 2 else conds * 2
    dim = 2 if system else 1
    if system:
        cells = [(ctx.real(f"h{i}"), ctx.real(f"q{i}")) for i in range(n)]
    else:
        cells = [ctx.real(f"v{i}") for i in range(n)]
    il, ir = Inflow(ctx, "L", dim), Inflow(ctx, "R", dim)
    build = swe.get_boundary_conditions if system else core.get_boundary_conditions
    bc = build(*conds, radius=radius, inflow_left=il, inflow_right=ir)
    t = ctx.real("t")
    arr = ctx.array([list(c) if system else c for c in cells])
    got = bc.get_node_neighbours(arr, radius=radius, time=t)
    ctx.eq("number of windows", len(got), 2 * radius)
    if "inflow" in (left, right):
        for f, cond in ((il, left), (ir, right)):
            if cond == "inflow":
                ctx.true(f"inflow is asked for the given time {f.name}", len(f.seen) == 1)
                ctx.eq(f"time of the inflow {f.name}", f.seen[0][0], t)
    ext = (ghosts(left, "left", cells, radius, il(t) if left == "inflow" else None) + list(cells)
           + ghosts(right, "right", cells, radius, ir(t) if right == "inflow" else None))
    for k, w in enumerate(got):
        ctx.eq(f"window {k}", w, [list(ext[f + k]) if system else ext[f + k] for f in range(n + 1)])
    ctx.eq("cell values are unchanged", arr, [list(c) if system else c for c in cells])


def close_times(ctx, system, left, right, exact):
    """inflow data are those of the very time asked for, however close the last one was"""
    dim = 2 if system else 1
    cells = [(1.0, 0.0), (2.0, 0.5), (1.5, 0.25)] if system else [1.0, 2.0, 1.5]
    def inflow(name):
        return (lambda t: ctx.array([slope * t + ctx.real(name + "a"), ctx.real(name + "q")])) if system else (lambda t: slope * t + ctx.real(name + "a"))
    slope = ctx.real("slope", lo=1.0, hi=2.0) * 1e12  # as fast as one likes
    build = swe.get_boundary_conditions if system else core.get_boundary_conditions
    bc = build(left, right, radius=1, inflow_left=inflow("L"), inflow_right=inflow("R"))
    arr = ctx.array([list(c) if system else c for c in cells])
    times = [0.25, 0.25 + 2.0**-12, 0.25 + 2.0**-20, 0.25 + 2.0**-36, 0.25] if exact else [ctx.real(f"t{k}", lo=0.0, hi=1.0) for k in range(3)]
    for k, t in enumerate(times):
        got = bc.get_node_neighbours(arr, radius=1, time=t)
        for side, cond, ghost in (("L", left, got[0][0]), ("R", right, got[1][-1])):
            if cond == "inflow":
                ctx.eq(f"{side}{k}", ghost[0] if system else ghost, slope * t + ctx.real(side + "a"))


def cell_neighbours(ctx, conds, n):
    """node values left and right of every cell (with one ghost cell on both sides)"""
    a, b = ctx.vec("a", n + 1), ctx.vec("b", n + 1)
    bc = core.get_boundary_conditions(*conds)
    left, right = bc.get_cell_neighbours(a, b)
    if len(conds) == 1:
        el, er = [b[n - 1], *b], [*a, a[1]]
        ctx.eq("left nodes", left, el)
        ctx.eq("right nodes", right, er)
    else:
        ctx.eq("left nodes", left[1:], b)
        ctx.eq("right nodes", right[:-1], a)
    ctx.eq("inputs are unchanged", a, [ctx.real(f"a{i}") for i in range(n + 1)])


def step_times(ctx, key, ode, cond, start):
    """inflow data are taken at the times of the Runge-Kutta stages, from the start time of
    the benchmark on"""
    n = 3
    cells = swe_cells(ctx, n)
    il, ir = Inflow(ctx, "L", 2), Inflow(ctx, "R", 2)
    t0 = ctx.real("t0") if start else 0.0
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=cond, inflow_left=il, inflow_right=ir, start_time=t0), "+o", ode)
    dt = ctx.pos("dt")
    nodes = {"euler": [0], "heun": [0, 1], "ssp3": [0, 1, 0.5]}[ode]
    try:
        s._ode_solver.execute(dt)
    except ValueError:
        pass  # a later stage may leave the admissible set
    for f, c in ((il, cond[0]), (ir, cond[1])):
        if c == "inflow":
            ctx.true(f"asked at every stage {f.name}", len(f.seen) <= len(nodes))
            for k, ((t, _), c) in enumerate(zip(f.seen, nodes)):
                ctx.eq(f"stage time {f.name}{k}", t, t0 + c * dt)


def scalar_step_times(ctx, key, problem, ode, start):
    n = 3
    us = [ctx.real(f"u{i}") for i in range(n)]
    il, ir = Inflow(ctx, "L", 1), Inflow(ctx, "R", 1)
    t0 = ctx.real("t0") if start else 0.0
    s = make_solver("scalar", key, StubScalar(ctx, problem, us, bc=("inflow", "inflow"), inflow_left=il, inflow_right=ir, start_time=t0),
                    ode_solver_type=ode)
    dt = ctx.pos("dt")
    nodes = {core.ForwardEuler: [0], core.Heun: [0, 1], core.StrongStabilityPreservingRungeKutta3: [0, 1, 0.5]}[ode]
    s._update(dt)
    for f in (il, ir):
        ctx.true(f"asked at every stage {f.name}", len(f.seen) == len(nodes))
        for k, ((t, _), c) in enumerate(zip(f.seen, nodes)):
            ctx.eq(f"stage time {f.name}{k}", t, t0 + c * dt)
    s._update(dt)
    for f in (il, ir):
        ctx.true(f"asked at every stage of the second step {f.name}", len(f.seen) >= 2 * len(nodes) - 1)
        ctx.eq(f"second step ends {f.name}", f.seen[-1][0], t0 + dt + nodes[-1] * dt)


def stencil_rhs(ctx, key, cond, n=3):
    """the rates of a mesh with ghost cells are those of the inner cells of a larger mesh
    which continues the data accordingly"""
    r = 2
    cells = swe_cells(ctx, n)
    il, ir = Inflow(ctx, "L", 2), Inflow(ctx, "R", 2)
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=cond, inflow_left=il, inflow_right=ir))
    left, right = cond if not isinstance(cond, str) else (cond, cond)
    t = 0.25
    ext = (ghosts(left, "left", cells, r, il(t)) + cells + ghosts(right, "right", cells, r, ir(t)))
    big = make_solver("swe", key, StubSWE(ctx, ext, bc=("outflow", "outflow")))
    for x in (s, big):
        if key == "lw":
            x._right_hand_side.set_time_step(ctx.pos("dt"))
    ctx.eq("rates", rhs(s, time=t), rhs(big, time=t)[r:-r])


def scalar_stencil_rhs(ctx, key, problem, cond):
    n, r = 3, 2
    us = [ctx.real(f"u{i}") for i in range(n)]
    il, ir = Inflow(ctx, "L", 1), Inflow(ctx, "R", 1)
    s = make_solver("scalar", key, StubScalar(ctx, problem, us, bc=cond, inflow_left=il, inflow_right=ir))
    left, right = cond if not isinstance(cond, str) else (cond, cond)
    t = 0.25
    ext = ghosts(left, "left", us, r, il(t)) + us + ghosts(right, "right", us, r, ir(t))
    big = make_solver("scalar", key, StubScalar(ctx, problem, ext, bc=("outflow", "outflow")))
    ctx.eq("rates", rhs(s, time=t), rhs(big, time=t)[r:-r])


def instances(tier):
    big = tier == "thorough"
    out = []
    conds = [("periodic",)] + [(a, b) for a in ("outflow", "inflow") for b in ("outflow", "inflow")]
    wet = [("periodic",)] + [(a, b) for a in ("outflow", "inflow", "wall") for b in ("outflow", "inflow", "wall")]
    for system, cs in ((False, conds), (True, wet)):
        for c in cs:
            for n in (3, 4, 5, 16, 130) if big else (4, 16, 130):
                for radius in (1, 2, 3) if n < 100 else (2,):
                    out.append(inst(f"windows-{'swe' if system else 'scalar'}-{'-'.join(c)}-{n}-{radius}", windows, system=system, conds=c, n=n, radius=radius))
    for system in (False, True):
        for left, right in (("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")):
            for exact in (False, True):
                out.append(inst(f"close-times-{'swe' if system else 'scalar'}-{left}-{right}{'-exact' if exact else ''}", close_times, system=system, left=left, right=right, exact=exact))
    for n in (3, 4, 5):
        for c in (("periodic",), ("outflow", "outflow")):
            out.append(inst(f"cell-neighbours-{c[0]}-{n}", cell_neighbours, conds=c, n=n))
    for ode in ("euler",):
        for key in ("llf", "low-order", "es"):
            for start in (False, True):
                if True:
                    out.append(inst(f"times-{key}-{ode}{'-start' if start else ''}", step_times, key=key, ode=ode, cond=("inflow", "outflow"), start=start))
    for ode in (core.ForwardEuler, core.Heun, core.StrongStabilityPreservingRungeKutta3):
        for start in (False, True):
            out.append(inst(f"times-scalar-{ode.__name__}{'-start' if start else ''}", scalar_step_times, key="central", problem="advection", ode=ode, start=start))
    for key in ("llf", "central", "low-order", "es", "es1", "lw", "antidiffusion", "mcl"):
        for cond in ["periodic"] + [(a, b) for a in ("outflow", "inflow", "wall") for b in ("outflow", "inflow", "wall")]:
            if isinstance(cond, tuple) and not big and key != "llf" and cond not in (("wall", "inflow"), ("inflow", "wall"), ("outflow", "outflow")):
                continue
            if cond == "periodic" and key == "mcl" and not big:
                continue
            if key == "mcl" and cond != "periodic":
                continue  # the limiter widens the stencil: its bounds differ outside the mesh
            tag = cond if isinstance(cond, str) else "-".join(cond)
            out.append(inst(f"rates-{key}-{tag}", stencil_rhs, key=key, cond=cond))
            if key != "mcl" and (cond == "periodic" or cond == ("wall", "inflow")):
                out.append(inst(f"rates-{key}-{tag}-16", stencil_rhs, key=key, cond=cond, n=16))
                out.append(inst(f"rates-{key}-{tag}-130", stencil_rhs, key=key, cond=cond, n=130))
    for key in ("llf", "central"):
        for problem in ("advection", "burgers"):
            for cond in ["periodic"] + conds[1:]:
                tag = cond if isinstance(cond, str) else "-".join(cond)
                out.append(inst(f"rates-scalar-{key}-{problem}-{tag}", scalar_stencil_rhs, key=key, problem=problem, cond=cond))
    return out
