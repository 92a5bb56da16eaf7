from .common import *

TITLE = "local maximum principle of the scalar finite volume schemes"
BOUNDS = ("meshes of 3 cells and of 40 (arbitrary around the cell looked at), advection and Burgers, periodic, outflow and inflow boundaries, any cell values (also: one of seven values varying in an interval with every limiter decision explored), one Euler "
          "step of any size with dt * 2 * max |f'| <= dx at every face; for MCL and Burgers the wave speeds are >= 0.001 or exactly zero at one face")
OUTSIDE = "steps beyond the bound; the central scheme (no such guarantee); the SSP methods are reduced to Euler steps by C12"
EXPLANATION = ("One explicit Euler step of the real solver is executed symbolically; for every cell the solver shows that the new "
               "value lies below every M and above every m bounding the old values of the cell and its two neighbours.")


def flux(problem, u):
    return u if problem == "advection" else u * u / 2


FAR = (0.5, -2.0, 1.25, 3.0, 0.75)


def near_by(i, cell, n, bc):
    """on large meshes only the cells around the one looked at are arbitrary"""
    d = abs(i - cell)
    return min(d, n - d) <= 2 if bc == "periodic" else d <= 2


def ghosted(ctx, us, bc):
    def one(kind, side):
        if kind == "periodic":
            return us[-1] if side == "left" else us[0]
        if kind == "outflow":
            return us[0] if side == "left" else us[-1]
        return ctx.real("in_" + side)

    l, r = (bc, bc) if isinstance(bc, str) else bc
    return [one(l, "left"), *us, one(r, "right")]


def euler(ctx, key, problem, n, bc, side, cell, still=None):
    us = [ctx.real(f"u{i}") if n < 10 or near_by(i, cell, n, bc) else FAR[i % len(FAR)] for i in range(n)]
    for i in still or ():
        us[i] = 0.0  # no wave speed at all at the face between them
    ext = ghosted(ctx, us, bc)
    sol = make_solver("scalar", key, StubScalar(
        ctx, problem, us, bc=bc, inflow_left=lambda t: ctx.real("in_left"), inflow_right=lambda t: ctx.real("in_right")),
        ode_solver_type=core.ForwardEuler)
    dt = ctx.pos("dt")
    speeds = [1 if problem == "advection" else ctx.max(ctx.abs(a), ctx.abs(b)) for a, b in zip(ext, ext[1:])]
    for f in (cell, cell + 1):
        ctx.assume(2 * dt * speeds[f] <= DX)
    if key == "mcl-fv" and problem == "burgers":
        for f, v in enumerate(speeds):
            if (still is None or f != still[1]) and not isinstance(v, float):
                ctx.assume(v >= 1e-3)
    m = ctx.real("M")
    sg = 1 if side == "max" else -1
    for x in ext[cell:cell + 3]:
        ctx.assume(sg * (m - x) >= 0)
    if ctx.symbolic:
        guide(ctx, key, problem, sol, ext, speeds, dt, m, sg, cell, bc)
    sol._update(dt)
    ctx.ge(f"{side} principle in cell {cell}", sg * (m - sol.solution.value[cell]), 0.0)


def guide(ctx, key, problem, sol, ext, speeds, dt, m, sg, cell, bc):
    rs = sol._right_hand_side
    nf = rs._numerical_flux
    left, right = nf(*rs._boundary_conditions.get_node_neighbours(sol.solution.value, radius=nf.input_dimension // 2, time=0.0))
    u = ext[cell + 1]
    for f in (cell, cell + 1):
        a, b, v = ext[f], ext[f + 1], speeds[f]
        for x in (a, b):
            ctx.product(v - x if problem == "burgers" else v, sg * (m - x))
            ctx.product(v + x if problem == "burgers" else v, sg * (m - x))
            ctx.product(sg * (m - x), dt)
        # v * (m - bar state) for the low order state
        fa, fb = flux(problem, a), flux(problem, b)
        ctx.fact(sg * (v * (m - (a + b) / 2) + (fb - fa) / 2))
    # faces of the cell
    f, v = cell, speeds[cell]
    x1 = sg * (v * (m - u) - (right[f] - flux(problem, u)))
    f, v2 = cell + 1, speeds[cell + 1]
    x2 = sg * (v2 * (m - u) - (left[f] + flux(problem, u)))
    if key == "mcl-fv":
        guide_mcl(ctx, ext, problem, speeds, m, sg, cell, left, right, bc)
    ctx.product(dt, x1)
    ctx.product(dt, x2)
    ctx.product(sg * (m - u), DX - 2 * dt * v)
    ctx.product(sg * (m - u), DX - 2 * dt * v2)


def guide_mcl(ctx, ext, problem, speeds, m, sg, cell, left, right, bc):
    """the low order bar state of a face lies within the local bounds of both adjacent
    cells; the limiter keeps the flux corrected bar states of the cell within its bounds"""
    n = len(ext) - 2

    def window(j):
        if 1 <= j <= n:
            return ext[j - 1:j + 2]
        if bc == "periodic":
            return window(n) if j == 0 else window(1)
        return ext[:2] if j == 0 else ext[-2:]

    loc = {}
    for j in (cell, cell + 1, cell + 2):
        w = window(j)
        hi, lo = ctx.max(*w), ctx.min(*w)
        loc[j] = hi, lo
        for x in w:
            ctx.fact(hi - x, x - lo)
    c = loc[cell + 1][0 if sg > 0 else 1]
    ctx.fact(sg * (m - c))
    u = ext[cell + 1]
    for f in (cell, cell + 1):
        a, b, v = ext[f], ext[f + 1], speeds[f]
        ctx.product(v, sg * (m - c)) if problem == "burgers" else None
        fa, fb = flux(problem, a), flux(problem, b)
        for j in (f, f + 1):
            hi, lo = loc[j]
            for x in (a, b):
                for d in (hi - x, x - lo):
                    ctx.product(v - x if problem == "burgers" else v, d)
                    ctx.product(v + x if problem == "burgers" else v, d)
            bar = v * (a + b) / 2 - (fb - fa) / 2
            ctx.fact(v * hi - bar, bar - v * lo)
    f, v = cell, speeds[cell]
    ctx.fact(sg * (v * (c - u) - (right[f] - flux(problem, u))))
    f, v = cell + 1, speeds[cell + 1]
    ctx.fact(sg * (v * (c - u) - (left[f] + flux(problem, u))))


def one_value(ctx, key, problem, n, bc, shape, loose, around):
    """one value varies in an interval, all cells are looked at"""
    us = one_varies(ctx, shape, n, loose, around)
    kinds = (bc, bc) if isinstance(bc, str) else bc
    left, right = 0.625, -0.375
    ext = [{"periodic": us[-1], "outflow": us[0], "inflow": left}[kinds[0]], *us, {"periodic": us[0], "outflow": us[-1], "inflow": right}[kinds[1]]]
    sol = make_solver("scalar", key, StubScalar(ctx, problem, us, bc=bc, inflow_left=lambda t: left, inflow_right=lambda t: right), ode_solver_type=core.ForwardEuler)
    dt = ctx.pos("dt")
    top = 1.0 if problem == "advection" else ctx.max(*[ctx.abs(x) for x in ext])
    ctx.assume(2 * dt * top <= DX)
    sol._update(dt)
    for i in range(n):
        near_i = ext[i: i + 3]
        ctx.le(f"maximum {i}", sol.solution.value[i], ctx.max(*near_i) + 1e-9)
        ctx.ge(f"minimum {i}", sol.solution.value[i], ctx.min(*near_i) - 1e-9)


def instances(tier):
    big = tier == "thorough"
    out = []
    bcs = ["periodic", ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow")]
    for key in ("llf", "mcl-fv"):
        for problem in ("advection", "burgers"):
            for bc in bcs:
                tag = bc if isinstance(bc, str) else "-".join(bc)
                for n in (3, 4) if big else (3,):
                    for cell in range(n):
                        for side in ("max", "min"):
                            out.append(inst(f"{key}-{problem}-{tag}-{n}-{side}{cell}", euler, key=key, problem=problem, n=n, bc=bc,
                                            side=side, cell=cell))
    for side in ("max", "min"):
        for cell in (1, 2) if big else (1,):
            out.append(inst(f"mcl-fv-burgers-outflow-outflow-still-{side}{cell}", euler, key="mcl-fv", problem="burgers", n=4,
                            bc=("outflow", "outflow"), side=side, cell=cell, still=(1, 2)))
    for key in ("llf", "mcl-fv"):
        for problem in ("advection", "burgers"):
            for bc, cells in (("periodic", (0, 20, 39)), (("outflow", "inflow"), (0, 1, 33, 39))):
                tag = bc if isinstance(bc, str) else "-".join(bc)
                for cell in cells:
                    for side in ("max", "min"):
                        out.append(inst(f"far-{key}-{problem}-{tag}-{side}{cell}", euler, key=key, problem=problem, n=40, bc=bc, side=side, cell=cell))
    for key in ("llf", "mcl-fv"):
        for problem in ("advection", "burgers"):
            for k, bc in enumerate(bcs):
                tag = bc if isinstance(bc, str) else "-".join(bc)
                for j, (shape, spots) in enumerate((("rough", (-1.75, 0.125, 1.5)), ("smooth", (0.0, 0.03125)), ("plateau", (0.5, -1.0)), ("steep", (0.0, 2.0)))):
                    for around in spots:
                        for loose in range(7) if big else ((0, 6) if (j + k) % 2 else (2, 4)):
                            out.append(inst(f"one-{key}-{problem}-{tag}-{shape}-{loose}-{around}", one_value, key=key, problem=problem, n=7, bc=bc, shape=shape, loose=loose, around=around))
    return out
