from .common import *

TITLE = "constant states"
BOUNDS = ("meshes of 3 to 6, 20 and 130 cells (finite elements: 3, 4, 12 and 60 cells, degree 1 to 3); any wet state h >= 1e-12 (or none: dry ground) with any "
          "velocity, any scalar value, any level of a flat bottom, periodic, outflow and inflow boundaries, walls for "
          "water at rest; constant patches next to very deep, thin, fast or dry cells; an arbitrary function in place of a trained network")
OUTSIDE = "other sizes of meshes and higher degrees"
EXPLANATION = ("The right hand sides assembled by the real solver constructors are executed on one symbolic state that "
               "fills the whole mesh; the solver shows that every rate of change is zero and that the flux of two "
               "equal states is the physical flux.")


def swe_constant(ctx, key, n, bc, argv=(), level=None, dry=()):
    if key.startswith("reduced"):
        use_network(ctx)
    (h, q), = wet_cells(ctx, 1, dry=dry)
    if "wall" in bc:
        q = 0.0 * q
    state = lambda t: ctx.array([h, q])
    bottom = None if level is None else [ctx.real("level")] * n
    b = StubSWE(ctx, [(h, q)] * n, bc=bc, bottom=bottom, inflow_left=state, inflow_right=state)
    s = make_solver("swe", key, b, *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    ctx.eq("rates", rhs(s), 0.0)


def scalar_constant(ctx, family, key, problem, n, bc="periodic", argv=()):
    u = ctx.real("u")
    inflow = lambda t: u
    b = StubScalar(ctx, problem, [u] * n, bc=bc, inflow_left=inflow, inflow_right=inflow)
    s = make_solver(family, key, b, *argv)
    ctx.eq("rates", rhs(s), 0.0)


EXTREMES = {"deep": [(65536.0, 0.0), (4096.0, 512.0)], "dry": [(0.0, 0.0), (0.0, 0.0)], "thin": [(1e-6, 0.0), (2e-6, 1e-6)], "fast": [(1.0, 900.0), (0.25, -100.0)]}


def amid(ctx, key, around, argv=(), n=9, thin=False):
    """the same state in neighbouring cells, something extreme elsewhere: nothing happens in between"""
    if key.startswith("reduced"):
        use_network(ctx)
    g = 1.0
    c, u = ctx.real("c", lo=0.0001220703125 if thin else 0.25, hi=0.125 if thin else 2), ctx.real("u", lo=-4, hi=4)
    h, q = c * c / g, c * c / g * u
    cells = [EXTREMES[around][0], EXTREMES[around][1], *[(h, q)] * (n - 2)]
    s = make_solver("swe", key, StubSWE(ctx, cells, g=g), *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(0.125)
    rates = rhs(s)
    for i in range(4, n - 2):
        ctx.eq(f"mass rate {i}", rates[i][0], 0.0)
        ctx.eq(f"momentum rate {i}", rates[i][1], 0.0)
    rs = s._right_hand_side
    flux = rs._numerical_flux
    _, right = flux(*rs._boundary_conditions.get_node_neighbours(s.solution.value, radius=flux.input_dimension // 2, time=0.0))
    for i in range(5, n - 3) if not key.startswith("reduced") else ():
        ctx.eq(f"mass flux {i}", right[i, 0], q)
        ctx.eq(f"momentum flux {i}", right[i, 1], q * u + g * h * h / 2)


def scalar_amid(ctx, family, key, problem, around, argv=(), n=9, p=1):
    u = ctx.real("u", lo=-0.001 if around > 100 else -8, hi=0.001 if around > 100 else 8)
    us = [around, -around / 2, *[u] * (n * p - 2)]
    s = make_solver(family, key, StubScalar(ctx, problem, us if family == "scalar" else [0.0] * n), *argv)
    rates = rhs(s, value=ctx.array(us))
    # a consistent mass matrix couples everything, a lumped one does not
    for i in range(2 + 2 * p, n * p - 2 * p):
        ctx.eq(f"rate {i}", rates[i], 0.0)


def swe_flux(ctx, key, argv=()):
    """Face flux between two equal states."""
    g = ctx.pos("g")
    (h, q), = wet_cells(ctx, 1, g=g)
    n = 3
    s = make_solver("swe", key, StubSWE(ctx, [(h, q)] * n, g=g), *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    rs = s._right_hand_side
    flux = rs._numerical_flux
    left, right = flux(*rs._boundary_conditions.get_node_neighbours(s.solution.value, radius=flux.input_dimension // 2, time=0.0))
    for i in range(n + 1):
        ctx.eq("mass flux", right[i, 0], q)
        ctx.eq("momentum flux", right[i, 1], q * q / h + g * h * h / 2)
        ctx.eq("opposite", left[i], -right[i])


def scalar_flux(ctx, key, problem):
    u = ctx.real("u")
    n = 3
    s = make_solver("scalar", key, StubScalar(ctx, problem, [u] * n))
    rs = s._right_hand_side
    left, right = rs._numerical_flux(*rs._boundary_conditions.get_node_neighbours(s.solution.value, radius=1, time=0.0))
    f = u if problem == "advection" else u * u / 2
    ctx.eq("flux right", right, f)
    ctx.eq("flux left", left, -f)


def instances(tier):
    big = tier == "thorough"
    out = []
    for key in SWE_FLAT:
        for bc in ("periodic", ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow"), ("wall", "wall")):
            tag = bc if isinstance(bc, str) else "-".join(bc)
            out.append(inst(f"swe-{key}-{tag}", swe_constant, key=key, n=3, bc=bc))
        for bc in ("periodic", ("outflow", "wall")):
            out.append(inst(f"swe-{key}-dry-{bc if isinstance(bc, str) else '-'.join(bc)}", swe_constant, key=key, n=3, bc=bc, dry=(0,), level=1))
        out.append(inst(f"swe-{key}-level", swe_constant, key=key, n=3, bc="periodic", level=1))
        if big:
            out.append(inst(f"swe-{key}-periodic-6", swe_constant, key=key, n=6, bc="periodic"))
        if key != "antidiffusion":
            out.append(inst(f"flux-{key}", swe_flux, key=key))
    for f in ("llf", "central", "low-order", "es", "es1"):
        out.append(inst(f"flux-mcl-{f}", swe_flux, key="mcl", argv=("+f", f)))
        out.append(inst(f"flux-antidiffusion-{f}", swe_flux, key="antidiffusion", argv=("+f", f)))
    for key in ("reduced-llf", "reduced-llf-2"):
        out.append(inst(f"swe-{key}", swe_constant, key=key, n=4, bc="periodic"))
        out.append(inst(f"swe-{key}-outflow", swe_constant, key=key, n=4, bc=("outflow", "outflow")))
    for key in ("llf", "central", "mcl-fv"):
        for pr in ("advection", "burgers"):
            for bc in ("periodic", ("outflow", "outflow"), ("inflow", "outflow")):
                tag = bc if isinstance(bc, str) else "-".join(bc)
                out.append(inst(f"scalar-{key}-{pr}-{tag}", scalar_constant, family="scalar", key=key, problem=pr, n=4, bc=bc))
            out.append(inst(f"scalar-flux-{key}-{pr}", scalar_flux, key=key, problem=pr))
    for key in ("cg", "cg-low", "mcl-fem"):
        for pr in ("advection", "burgers"):
            for p in (1, 2, 3):
                if p == 3 and not big and key == "mcl-fem":
                    continue
                out.append(inst(f"fem-{key}-{pr}-p{p}", scalar_constant, family="fem", key=key, problem=pr, n=3, argv=("+p", p)))
    for key in SWE_FLAT + ("reduced-llf", "reduced-llf-2"):
        for bc in ("periodic", ("inflow", "outflow")) if not key.startswith("reduced") else ("periodic",):
            out.append(inst(f"swe-{key}-wide-{bc if isinstance(bc, str) else bc[0]}", swe_constant, key=key, n=20, bc=bc, level=1))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"scalar-{key}-wide", scalar_constant, family="scalar", key=key, problem="burgers", n=20))
    for key in ("cg", "cg-low", "mcl-fem"):
        out.append(inst(f"fem-{key}-wide", scalar_constant, family="fem", key=key, problem="burgers", n=12, argv=("+p", 1)))
    for key in SWE_FLAT + ("reduced-llf", "reduced-llf-2"):
        out.append(inst(f"swe-{key}-huge", swe_constant, key=key, n=130, bc="periodic", level=1))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"scalar-{key}-huge", scalar_constant, family="scalar", key=key, problem="burgers", n=130))
    for key in ("cg", "cg-low", "mcl-fem"):
        out.append(inst(f"fem-{key}-huge", scalar_constant, family="fem", key=key, problem="burgers", n=60, argv=("+p", 1)))
    for around in EXTREMES:
        for thin in (False, True):
            name = f"{around}-{'thin' if thin else 'water'}"
            for key in SWE_FLAT + ("reduced-llf", "reduced-llf-2"):
                out.append(inst(f"amid-{key}-{name}", amid, key=key, around=around, thin=thin, n=9 if not key.startswith("reduced") else 11))
            for f in ("es", "es1"):
                out.append(inst(f"amid-mcl-{f}-{name}", amid, key="mcl", argv=("+f", f), around=around, thin=thin))
    for around in (1e6, 1e-6, 0.0):
        for problem in ("advection", "burgers"):
            for key in ("llf", "central", "mcl-fv"):
                out.append(inst(f"amid-{key}-{problem}-{around}", scalar_amid, family="scalar", key=key, problem=problem, around=around))
            for key in ("cg-low", "mcl-fem"):
                for p in (1, 2):
                    out.append(inst(f"amid-{key}-{problem}-{p}-{around}", scalar_amid, family="fem", key=key, problem=problem, around=around, argv=("+p", p), p=p, n=9 if p == 1 else 7))
    for p in (1, 2):
        out.append(inst(f"fem-cg-exact-burgers-p{p}", scalar_constant, family="fem", key="cg", problem="burgers", n=3,
                        argv=("+p", p, "++exact-flux")))
    return out
