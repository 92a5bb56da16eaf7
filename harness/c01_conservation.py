from .common import *

TITLE = "conservation"
BOUNDS = ("meshes of 3 to 5 cells and of 20 to 130 (limited schemes: 9), any wet states (h >= 1e-12, any velocity) with up to two dry cells or scalar values, any bottom, an arbitrary function in place of "
          "a trained network; target fluxes of the limiter: Lax-Wendroff default, central, llf, energy stable")
OUTSIDE = "other sizes of meshes (every face depends on at most six neighbouring cells); momentum over a bottom (not conserved)"
EXPLANATION = ("The right hand sides assembled by the real constructors are executed on symbolic cells; the solver shows that the rates sum up to zero "
               "and that left and right face fluxes cancel on every path through the limiters.")


WIDE, HUGE = 20, 130


def periodic_flat(ctx, key, n, argv=(), dry=()):
    if key.startswith("reduced"):
        use_network(ctx)
    cells = swe_cells(ctx, n, dry)
    s = make_solver("swe", key, StubSWE(ctx, cells), *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    ctx.eq("sum of rates", total(ctx, rhs(s)), [0.0, 0.0])


def periodic_bottom(ctx, key, n, argv=(), dry=()):
    if key.startswith("reduced"):
        use_network(ctx)
    cells = swe_cells(ctx, n, dry)
    b = bottoms(ctx, n, kinds=3 if n > 30 else None)
    s = make_solver("swe", key, StubSWE(ctx, cells, bottom=b), *argv)
    ctx.eq("mass rate", total(ctx, rhs(s))[0], 0.0)


def walls(ctx, key, n, argv=(), dry=()):
    if key.startswith("reduced"):
        use_network(ctx)
    cells = swe_cells(ctx, n, dry)
    b = bottoms(ctx, n, kinds=3 if n > 30 else None)
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=("wall", "wall"), bottom=b), *argv)
    ctx.eq("mass rate", total(ctx, rhs(s))[0], 0.0)


def coarse(ctx, n, degree):
    cells = wet_cells(ctx, n)
    s = make_solver("swe", "coarse", StubSWE(ctx, cells), "+c", degree)
    dt = ctx.pos("dt")
    before = total(ctx, s.solution.value)
    fine = ctx.array([list(c) for c in cells])
    s.solution.update(dt, fine + dt * s._right_hand_side(0.0, fine))
    ctx.eq("coarse totals", total(ctx, s.solution.value), before)


def scalar(ctx, key, problem, n):
    u = [ctx.real(f"u{pattern(i, 4) if n > 30 else i}") for i in range(n)]
    s = make_solver("scalar", key, StubScalar(ctx, problem, u))
    ctx.eq("sum of rates", total(ctx, rhs(s)), 0.0)


def node_fluxes(ctx, key, n, argv=(), dry=()):
    """What leaves a cell through a face enters the neighbour, whatever the states."""
    if key.startswith("reduced"):
        use_network(ctx)
    cells = swe_cells(ctx, n, dry)
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=("outflow", "outflow")), *argv)
    flux = s._right_hand_side._numerical_flux
    bc = s._right_hand_side._boundary_conditions
    left, right = flux(*bc.get_node_neighbours(s.solution.value, radius=flux.input_dimension // 2, time=0.0))
    ctx.eq("antisymmetric face fluxes", left + right, 0.0)


def instances(tier):
    out = []
    big = tier == "thorough"
    reduced = ("reduced-llf", "reduced-llf-2")
    for key in SWE_FLAT + reduced:
        ns = (3, 4) if not big else (3, 4, 5)
        if key in reduced:
            ns = (4, 5)
        if key == "mcl":
            ns = (3,) if not big else (3, 4)
        for n in ns:
            out.append(inst(f"flat-{key}-{n}", periodic_flat, key=key, n=n))
        out.append(inst(f"faces-{key}", node_fluxes, key=key, n=ns[0]))
        if key != "lw":
            out.append(inst(f"bottom-{key}", periodic_bottom, key=key, n=ns[0]))
        out.append(inst(f"walls-{key}", walls, key=key, n=3) if key not in reduced + ("lw",) else None)
    for key in SWE_FLAT + reduced:
        for dry in ((1,), (1, 2)) + (((0,), (0, 1)) if big else ()):
            n = 4 if key in reduced or len(dry) > 1 else 3
            t = "".join(map(str, dry))
            out.append(inst(f"dry{t}-{key}", periodic_flat, key=key, n=n, dry=dry))
            if key not in reduced:
                out.append(inst(f"dry{t}-walls-{key}", walls, key=key, n=n, dry=dry) if key != "lw" else None)
                out.append(inst(f"dry{t}-faces-{key}", node_fluxes, key=key, n=n, dry=dry))
    for f in ("llf", "es") if big else ("llf",):
        out.append(inst(f"flat-mcl+f-{f}", periodic_flat, key="mcl", n=3, argv=("+f", f)))
    for f in ("central", "low-order"):
        out.append(inst(f"flat-antidiffusion+f-{f}", periodic_flat, key="antidiffusion", n=3, argv=("+f", f)))
    out.append(inst("coarse-4-2", coarse, n=4, degree=2))
    for key in ("llf", "central", "mcl-fv"):
        for pr in ("advection", "burgers"):
            for n in (3, 5):
                out.append(inst(f"scalar-{key}-{pr}-{n}", scalar, key=key, problem=pr, n=n))
    for key in ("llf", "central", "low-order", "es", "es1", "lw", "antidiffusion", "mcl", "reduced-llf", "reduced-llf-2"):
        n = 9 if key == "mcl" else WIDE
        out.append(inst(f"wide-{key}", periodic_flat, key=key, n=n))
        if key != "mcl" or big:
            out.append(inst(f"wide-faces-{key}", node_fluxes, key=key, n=n))
            if key not in reduced + ("lw",):
                out.append(inst(f"wide-walls-{key}", walls, key=key, n=n))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"wide-scalar-{key}", scalar, key=key, problem="burgers", n=WIDE))
    for key in ("llf", "central", "low-order", "es", "es1", "lw", "antidiffusion", "reduced-llf", "reduced-llf-2") + (("mcl",) if big else ()):
        out.append(inst(f"huge-{key}", periodic_flat, key=key, n=HUGE, dry=(40, 90, 91) if key in ("llf", "low-order") else ()))
        if key not in reduced + ("lw",):
            out.append(inst(f"huge-walls-{key}", walls, key=key, n=HUGE))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"huge-scalar-{key}", scalar, key=key, problem="burgers", n=HUGE))
    return [o for o in out if o]
