from .common import *

TITLE = "translation equivariance on periodic meshes"
BOUNDS = "periodic meshes of 3 to 5 and 16 cells, 130 with four different states (4 to 6 in the thorough tier where stated), any wet states (h >= 1e-12) with or without a dry cell or any scalar values, flat bottom; any flux seeing 1 to 5 cells to each side; suggested time steps for 3 or 4 unknowns in [-10, 10]"
OUTSIDE = "non-flat bottoms (a periodic mesh holds the bottom constant beyond its ends), irregular meshes (do not exist)"
EXPLANATION = "The right hand side is executed symbolically for the data and for the shifted data; the solver shows that the rates are shifted in the same way."


def rates(ctx, key, cells, argv=()):
    s = make_solver("swe", key, StubSWE(ctx, cells), *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    return rhs(s)


def swe_shift(ctx, key, n, shift, argv=(), dry=()):
    if key.startswith("reduced"):
        use_network(ctx)
    cells = swe_cells(ctx, n, dry=dry)
    a = rates(ctx, key, cells, argv)
    b = rates(ctx, key, cells[-shift:] + cells[:-shift], argv)
    ctx.eq("rates", b, [a[(i - shift) % n] for i in range(n)])


def scalar_shift(ctx, family, key, problem, n, shift, argv=()):
    dofs = n * (int(argv[1]) if argv else 1)
    if family == "fem":
        us = [ctx.real(f"u{i}") for i in range(dofs)]
        p = dofs // n
        s = make_solver(family, key, StubScalar(ctx, problem, [0.0] * n), *argv)
        a = rhs(s, value=ctx.array(us))
        k = shift * p
        b = rhs(s, value=ctx.array(us[-k:] + us[:-k]))
        ctx.eq("rates", b, [a[(i - k) % dofs] for i in range(dofs)])
        return
    us = [ctx.real(f"u{i if n <= 30 else pattern(i, 4)}") for i in range(n)]
    a = rhs(make_solver(family, key, StubScalar(ctx, problem, us)))
    b = rhs(make_solver(family, key, StubScalar(ctx, problem, us[-shift:] + us[:-shift])))
    ctx.eq("rates", b, [a[(i - shift) % n] for i in range(n)])


def step_shift(ctx, key, n, shift, ode):
    """a whole time step"""
    cells = wet_cells(ctx, n)
    dt = ctx.pos("dt")
    out = []
    for c in (cells, cells[-shift:] + cells[:-shift]):
        s = make_solver("swe", key, StubSWE(ctx, c), "+o", ode)
        s._update(dt)
        out.append(s.solution.value)
    a, b = out
    ctx.eq("values", b, [a[(i - shift) % n] for i in range(n)])


def wide_shift(ctx, radius, n, shift, components):
    """any flux of any radius: what matters is which cells it sees"""
    size = (n,) if components == 1 else (n, components)
    u = ctx.vec("u", n * components).reshape(size)
    v = ctx.array([list(u[(i - shift) % n]) if components > 1 else u[(i - shift) % n] for i in range(n)])
    build = swe.get_boundary_conditions if components > 1 else core.get_boundary_conditions
    r = finite_volume.NumericalFluxDependentRightHandSide(any_window_flux(ctx, radius, components), ctx.pos("dx"), build("periodic", radius=radius))
    a, b = r(0.0, u), r(0.0, v)
    ctx.eq("rates", b, [a[(i - shift) % n] for i in range(n)])
    # every cell gets what its two faces give
    ctx.eq("shape", list(a.shape), list(size))


def suggested_step(ctx, key, problem, n, shift):
    """the time step a solver chooses from the data"""
    us = [ctx.real(f"u{i}", lo=-10, hi=10) for i in range(n)]
    ctx.assume(ctx.any(*[ctx.abs(u) >= 0.01 for u in us]))  # else no step is too large
    out = []
    for data in (us, us[-shift:] + us[:-shift]):
        s = make_solver("fem", key, StubScalar(ctx, problem, [0.0] * n), "+p", "1", "++adaptive")
        s.solution.set_value(ctx.array(data), s.solution.time)
        s._ode_solver.reinitialize(ctx.array(data), s.solution.time)
        out.append(s._cfl_checker._optimal_time_step(0.0, ctx.array(data)))
        iter(s._time_stepping)
        out.append(s._time_stepping._time_step_generator())
    ctx.eq("bound of the step", out[2], out[0])
    ctx.eq("suggested step", out[3], out[1])


def instances(tier):
    big = tier == "thorough"
    out = []
    for key in SWE_FLAT + ("reduced-llf", "reduced-llf-2"):
        ns = (4, 5) if key.startswith("reduced") else (3,) if key == "mcl" and not big else (3, 4)
        for n in ns + ((5,) if big and key not in ("mcl",) else ()):
            for sh in (1, 2):
                out.append(inst(f"{key}-{n}-shift{sh}", swe_shift, key=key, n=n, shift=sh))
        if not key.startswith("reduced"):
            out.append(inst(f"{key}-dry", swe_shift, key=key, n=3, shift=1, dry=(1,)))
        if key != "mcl":
            out.append(inst(f"{key}-16", swe_shift, key=key, n=16, shift=5))
            out.append(inst(f"{key}-130", swe_shift, key=key, n=130, shift=37))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"scalar-{key}-130", scalar_shift, family="scalar", key=key, problem="burgers" if key != "mcl-fv" else "advection", n=130, shift=37))
        out.append(inst(f"scalar-{key}-16", scalar_shift, family="scalar", key=key, problem="burgers" if key != "mcl-fv" else "advection", n=16, shift=5))
    for key in ("cg", "cg-low"):
        out.append(inst(f"fem-{key}-8", scalar_shift, family="fem", key=key, problem="burgers", n=8, shift=3, argv=("+p", "1")))
    for f in ("llf", "es1", "lw")[: 2 if not big else 3]:
        out.append(inst(f"mcl+f-{f}", swe_shift, key="mcl", n=3, shift=1, argv=("+f", f)))
    for radius, n in ((1, 2), (1, 5), (2, 3), (2, 5), (3, 4), (3, 6), (4, 5), (5, 7)):
        for components in (1, 2):
            for sh in (1, 2):
                out.append(inst(f"wide-{radius}-{n}-{components}-shift{sh}", wide_shift, radius=radius, n=n, shift=sh, components=components))
    for key in ("llf", "low-order"):
        out.append(inst(f"step-{key}-euler", step_shift, key=key, n=3, shift=1, ode="euler"))
    for problem in ("advection", "burgers"):
        for key in ("llf", "central", "mcl-fv"):
            for n in (3, 4, 5) if big else (3, 4):
                for sh in (1, 2):
                    out.append(inst(f"scalar-{key}-{problem}-{n}-shift{sh}", scalar_shift, family="scalar", key=key, problem=problem, n=n, shift=sh))
        for key in ("cg", "cg-low", "mcl-fem"):
            if key != "cg":
                for n in (3, 4) if problem == "advection" or big else (3,):
                    out.append(inst(f"suggested-{key}-{problem}-{n}", suggested_step, key=key, problem=problem, n=n, shift=1))
            for p in ("1", "2"):
                if key == "mcl-fem" and (p == "2" or problem == "burgers") and not big:
                    continue
                out.append(inst(f"fem-{key}-{problem}-p{p}", scalar_shift, family="fem", key=key, problem=problem, n=3, shift=1, argv=("+p", p)))
    return out
