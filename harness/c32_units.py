from .common import *

TITLE = "independence of units"
BOUNDS = ("eight changes of units (powers of two from 2^-10 to 2^14 and 2.5), periodic and closed domains: any wet states with h >= 1e-6 and any bottom of the stated signs of its steps on 3 and 40 cells (llf, central, low-order, es, lw, antidiffusion); "
          "7 cells, one velocity or height in an interval (es1 and MCL with every flux); scalar schemes on 3, 7 and 50 cells; finite elements of degree 1 to 3 on 3 and 4 cells, largest steps of degree 1 and 2")
OUTSIDE = "dry cells (the threshold 1e-12 is a number without units), networks (their training fixes the units), time steps of finite volume schemes (a fraction of the cell width by design)"
EXPLANATION = ("The right hand side is executed symbolically for the same data in two systems of units; the solver shows that the rates of change are the same "
               "physical quantities, i.e. differ by the conversion factor only.")

# (height, length, time)
UNITS = [(4.0, 1.0, 1.0), (1.0, 2.5, 2.5), (1.0, 1.0, 0.25), (0.25, 4.0, 1.0), (1.0, 0.015625, 1.0), (16.0, 1.0, 4.0), (1.0, 1.0, 16384.0), (0.0009765625, 1024.0, 0.0625)]


def swe_units(ctx, key, n, units, bc="periodic", slopes=None, argv=(), step=False):
    a, l, t = units
    v = l / t
    cs = [(ctx.real(f"c{i if n < 10 else pattern(i, 3)}", pos=True), ctx.real(f"u{i if n < 10 else pattern(i, 3)}")) for i in range(n)]
    for c, _ in cs:
        ctx.assume(c * c / G >= 1e-6)
        ctx.assume(c * c * a / G >= 1e-6)
    h = [c * c / G for c, _ in cs]
    mine = [(x, x * u) for x, (_, u) in zip(h, cs)]
    g2 = G * v * v / a
    # the celerity scales like a velocity
    theirs = [((c * v) ** 2 / g2, (c * v) ** 2 / g2 * (u * v)) for c, u in cs]
    compare(ctx, key, n, units, mine, theirs, G, g2, bc, slopes, argv, step)


def compare(ctx, key, n, units, mine, theirs, g, g2, bc, slopes, argv, step=False, exact=True):
    a, l, t = units
    v = l / t
    b = sloped_bottom(ctx, slopes) if slopes else None
    gamma = ctx.pos("gamma") if key == "antidiffusion" else None
    s = make_solver("swe", key, StubSWE(ctx, mine, bc=bc, bottom=b, g=g), *argv, **({"gamma": gamma} if gamma is not None else {}))
    o = make_solver("swe", key, StubSWE(ctx, theirs, bc=bc, bottom=b and [a * x for x in b], g=g2, dx=DX * l), *argv,
                    **({"gamma": gamma * l * v} if gamma is not None else {}))
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
        o._right_hand_side.set_time_step(ctx.pos("dt") * t)
    x, y = rhs(s, time=0.0), rhs(o, time=0.0)
    for i in range(n):
        near(ctx, f"mass {i}", y[i][0] * (t / a), x[i][0], 1e-8) if not exact else ctx.eq(f"mass {i}", y[i][0] * (t / a), x[i][0])
        near(ctx, f"momentum {i}", y[i][1] * (t / a / v), x[i][1], 1e-8) if not exact else ctx.eq(f"momentum {i}", y[i][1] * (t / a / v), x[i][1])


# the mean of the heights of neighbours is a square: 1 + 49 = 2 * 25, 49 + 289 = 2 * 169
FIXED = [(0.875, 0.5), (0.125, -1.0), (0.875, 0.25), (2.125, 2.0), (0.875, -0.5), (0.875, 0.0), (0.125, 1.0), (0.875, 0.5)]


def loose_units(ctx, key, units, loose, around, bc, argv=(), n=7, slopes=None, what="velocity"):
    a, l, t = units
    v = l / t
    cs = [FIXED[i % len(FIXED)] for i in range(n)]
    if what == "velocity":
        cs[loose] = (cs[loose][0], ctx.real("u", lo=around - 0.25, hi=around + 0.25))
    else:
        cs[loose] = (ctx.real("c", lo=0.75, hi=1.25), around)
    g, g2 = 1.0, v * v / a
    mine = [(c * c / g, c * c / g * u) for c, u in cs]
    theirs = [(a * h, a * v * q) for h, q in mine]
    compare(ctx, key, n, units, mine, theirs, g, g2, bc, slopes, argv, exact=False)


def scalar_units(ctx, family, key, problem, units, n, p=1, loose=None, around=0.0):
    """Burgers: u is a velocity; advection: any unit of u, the speed one fixes length / time"""
    a, l, t = units
    if problem == "burgers":
        a = l / t
    else:
        t = l
    if loose is None:
        us = [ctx.real(f"u{i if n < 10 else pattern(i, 4)}", lo=-50, hi=50) for i in range(n * p)]
    else:
        us = [(1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5)[i % 7] for i in range(n * p)]
        us[loose] = ctx.real("u", lo=around - 0.25, hi=around + 0.25)
    argv = ("+p", p) if family == "fem" else ()
    cells = us if family != "fem" else [0.0] * n
    s = make_solver(family, key, StubScalar(ctx, problem, cells), *argv)
    o = make_solver(family, key, StubScalar(ctx, problem, [a * x for x in cells], dx=DX * l), *argv)
    x, y = rhs(s, value=ctx.array(us)), rhs(o, value=ctx.array([a * u for u in us]))
    for i in range(n * p):
        near(ctx, f"rate {i}", y[i] * (t / a), x[i], 1e-8) if loose is not None or p > 1 else ctx.eq(f"rate {i}", y[i] * (t / a), x[i])


def step_bound(ctx, key, problem, units, p, n=3):
    """the largest admissible step is a time"""
    a, l, t = units
    a, t = (l / t, t) if problem == "burgers" else (a, l)
    if problem == "advection" or p == 1:
        us = [ctx.real(f"u{i}", lo=-5, hi=5) for i in range(n * p)]
        ctx.assume(us[0] >= 0.5)
    else:
        us = [(1.0, -0.5, 2.0, 0.25, -1.5, 0.75)[i % 6] for i in range(n * p)]
        us[1] = ctx.real("u", lo=-1, hi=-0.25)
    argv = ("+p", p)
    s = make_solver("fem", key, StubScalar(ctx, problem, [1.0] * n), *argv)
    o = make_solver("fem", key, StubScalar(ctx, problem, [a] * n, dx=DX * l), *argv)
    x = s._cfl_checker._optimal_time_step(0.0, ctx.array(us))
    y = o._cfl_checker._optimal_time_step(0.0, ctx.array([a * u for u in us]))
    near(ctx, "largest step", y, x * t, 1e-8)


def instances(tier):
    big = tier == "thorough"
    out = []
    walls = ("wall", "wall")
    for k, units in enumerate(UNITS):
        # velocities keep their values in the first two systems
        kind = "same-speed" if k < 2 else "units"
        for key in ("llf", "central", "low-order", "es", "lw", "antidiffusion") if k < 6 else ():
            out.append(inst(f"{key}-{kind}-{k}", swe_units, key=key, n=3, units=units))
            for bc in (walls, ("outflow", "wall")) if big or k % 3 == 1 else ():
                out.append(inst(f"{key}-{kind}-{k}-{bc[0]}", swe_units, key=key, n=3, units=units, bc=bc))
            if key != "antidiffusion":
                for sl in ((1, -1), (-1, 1), (1, 1)) if big else ((1, -1),):
                    out.append(inst(f"{key}-{kind}-{k}-bottom{'+' if sl[0] > 0 else '-'}{'+' if sl[1] > 0 else '-'}", swe_units, key=key, n=3, units=units, slopes=sl))
            if k in (2, 5) or big:
                out.append(inst(f"{key}-{kind}-{k}-wide", swe_units, key=key, n=40, units=units))
        for loose, around in ((0, -2.0), (3, 0.5), (6, 3.0)):
            for key, argv in (("mcl", ()), ("es1", ()), ("mcl", ("+f", "es")), ("mcl", ("+f", "llf")), *((("mcl", ("+f", "es1")),) if loose != 3 else ())) if big or k in (2, 5) else (("mcl", ()), ("es1", ())):
                out.append(inst("-".join([key, str(k), str(loose), *argv[1:]]), loose_units, key=key, units=units, loose=loose, around=around, bc="periodic" if loose else walls, argv=argv))
            if k < 2:
                out.append(inst(f"es1-{k}-{loose}-height", loose_units, key="es1", units=units, loose=loose, around=around, bc="periodic" if loose else walls, what="height"))
        if units[1:] == (1.0, 1.0) and k:
            continue
        for problem in ("advection", "burgers"):
            for key in ("llf", "central"):
                free = key == "central" or problem == "advection"
                out.append(inst(f"{key}-{problem}-{k}", scalar_units, family="scalar", key=key, problem=problem, units=units, n=3 if free else 7, loose=None if free else 3, around=0.25))
                out.append(inst(f"{key}-{problem}-{k}-wide", scalar_units, family="scalar", key=key, problem=problem, units=units, n=50, loose=None if free else 7, around=0.5))
            for loose, around in ((0, -2.0), (3, 0.125), (5, 1.5)):
                out.append(inst(f"mcl-fv-{problem}-{k}-{loose}", scalar_units, family="scalar", key="mcl-fv", problem=problem, units=units, n=6, loose=loose, around=around))
                for p in (1, 2, 3) if big else (1 + k % 3,):
                    out.append(inst(f"mcl-fem-{problem}-{k}-{p}-{loose}", scalar_units, family="fem", key="mcl-fem", problem=problem, units=units, n=4, p=p, loose=loose % (4 * p), around=around))
            for key in ("cg", "cg-low"):
                for p in (1, 2, 3) if big else (1 + k % 2,):
                    out.append(inst(f"{key}-{problem}-{k}-{p}", scalar_units, family="fem", key=key, problem=problem, units=units, n=3, p=p))
            for key in ("cg-low", "mcl-fem"):
                for p in (1, 2) if big else (1 + k % 2,):
                    out.append(inst(f"step-{key}-{problem}-{k}-{p}", step_bound, key=key, problem=problem, units=units, p=p))
    return out
