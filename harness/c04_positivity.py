from .common import *

TITLE = "positivity"
BOUNDS = ("meshes of 3 cells, 12 or 33 with one to three arbitrary ones (4 in the thorough tier for llf and low-order); any wet states (h >= 1e-12, any velocity) with up to two dry cells, "
          "any bottom; limited scheme at all boundaries also with one height, velocity or bottom value varying among shallow, fast and absent water; one Euler step of any size with dt * 2 * max wave speed <= dx")
OUTSIDE = "MCL with dry cells other than the stated ones, MCL at walls with more than one arbitrary cell (not decided within reach), steps beyond the CFL bound, central, es, es1, lw, antidiffusion and reduced schemes (no such guarantee)"
EXPLANATION = "One explicit Euler step of the real solver is executed symbolically; the solver shows that no water height becomes negative."


def fixed(i, loose):
    """celerity and velocity of the cells which are not arbitrary"""
    return 3.0 + (i % 3) / 4, (i % 5) / 2 - 1.0


def face_speeds(ctx, n, bc, dry=(), loose=None):
    """max(|u| + c) over the two cells of every face"""
    s = []
    for i in range(n):
        if i in dry:
            s.append(ctx.num(0.0))
        elif loose is not None and i not in loose:
            c, u = fixed(i, loose)
            s.append(ctx.num(abs(u) + c))
        else:
            s.append(ctx.abs(ctx.real(f"u{i}")) + ctx.pos(f"c{i}"))
    ext = [s[-1], *s, s[0]] if bc == "periodic" else [s[0], *s, s[-1]]
    return [ctx.max(a, b) for a, b in zip(ext, ext[1:])]


def face_mass_fluxes(s):
    rs = s._right_hand_side
    flux = rs._numerical_flux
    left, right = flux(*rs._boundary_conditions.get_node_neighbours(s.solution.value, radius=flux.input_dimension // 2, time=0.0))
    return left[:, 0], right[:, 0]


def some_cells(ctx, n, dry, loose):
    if loose is None:
        return wet_cells(ctx, n, dry=dry)
    out = []
    for i in range(n):
        if i in loose:
            c, u = ctx.pos(f"c{i}"), ctx.real(f"u{i}")
            ctx.assume(c * c / G >= 1e-12)
        else:
            c, u = (ctx.num(0.0), ctx.num(0.0)) if i in dry else fixed(i, loose)
        out.append((c * c / G, c * c / G * u))
    return out


def euler(ctx, key, n, bc, argv=(), slopes=None, dry=(), loose=None):
    cells = some_cells(ctx, n, dry, loose)
    b = sloped_bottom(ctx, slopes) if slopes else None
    bench = StubSWE(ctx, cells, bc=bc, bottom=b)
    if key == "mcl-any":
        key = "mcl"
        s = make_solver("swe", key, bench, "+o", "euler", flux_getter=any_flux_getter(ctx))
    else:
        s = make_solver("swe", key, bench, *argv, "+o", "euler")
    dt = ctx.pos("dt")
    speeds = face_speeds(ctx, n, bc, dry, loose)
    for v in speeds:
        ctx.assume(2 * dt * v <= DX)
    if ctx.symbolic:
        guide(ctx, key, cells, bench, s, speeds, dt, bc, dry, loose)
    s._update(dt)
    ctx.ge("height", s.solution.value[:, 0], 0.0)


def guide(ctx, key, cells, bench, s, speeds, dt, bc, dry=(), loose=None):
    """Inequalities that make the final proof linear (see DESIGN.md).  They are proved
    one by one and never are obligations themselves."""
    n = len(cells)
    us = [ctx.num(0.0) if i in dry else ctx.num(fixed(i, loose)[1]) if loose is not None and i not in loose else ctx.real(f"u{i}") for i in range(n)]
    sign = -1 if bc == ("wall", "wall") else 1
    ext = lambda v, k: [v[-1], *v, v[0]] if bc == "periodic" else [k * v[0], *v, k * v[-1]]
    h, q, u = ext([c[0] for c in cells], 1), ext([c[1] for c in cells], sign), ext(us, sign)
    for f, v in enumerate(speeds):
        ctx.product(h[f], v + u[f])
        ctx.product(h[f + 1], v - u[f + 1])
    if key == "mcl":
        guide_mcl(ctx, s, bench)
    left, right = face_mass_fluxes(s)
    for f, v in enumerate(speeds):
        ctx.fact(left[f] + q[f] + v * h[f], right[f] - q[f + 1] + v * h[f + 1])
    for f, v in enumerate(speeds):
        ctx.product(dt, left[f] + q[f] + v * h[f])
        ctx.product(dt, right[f] - q[f + 1] + v * h[f + 1])
        ctx.product(h[f], DX - 2 * dt * v)
        ctx.product(h[f + 1], DX - 2 * dt * v)


def guide_mcl(ctx, s, bench):
    low = make_solver("swe", "low-order", bench)
    ll, lr = face_mass_fluxes(low)
    left, right = face_mass_fluxes(s)
    flux = s._right_hand_side._numerical_flux
    try:
        lam, hl, hr = flux._wave_speed, flux._modified_height_left, flux._modified_height_right
        hmax, hmin = flux._get_height_bounds()
    except AttributeError:
        return
    for f in range(len(lam)):
        ctx.fact(lam[f])
        ctx.fact(hl[f], hr[f])
    ctx.fact(hmin)
    for f in range(len(lam)):
        ctx.product(lam[f], hmin[f])
        ctx.product(lam[f], hmin[f + 1])
        ctx.product(lam[f], hl[f])
        ctx.product(lam[f], hr[f])
        ctx.fact(lam[f] * hr[f] + right[f] - lr[f], lam[f] * hl[f] + left[f] - ll[f])


# celerity, velocity and bottom: deep, shallow and nearly dry cells, fast streams
SHALLOW = [(2.0, 0.5, 0.0), (0.0625, -6.0, 1.0), (0.125, 4.0, 2.5), (1.75, 2.0, -0.5), (0.03125, -0.5, 0.75), (0.0, 0.0, 3.0), (0.25, 5.0, 0.25)]


def one_value(ctx, n, bc, loose, what, around, argv=(), bottom=False):
    """one value varies in an interval, the water next to it may be shallow, fast or absent"""
    g = 1.0
    cub = [SHALLOW[(i + i // 7) % 7] for i in range(n)]
    c, u, b = cub[loose]
    if what == "velocity":
        cub[loose] = (max(c, 0.125), ctx.real("u", lo=around - 0.25, hi=around + 0.25), b)
    elif what == "height":
        cub[loose] = (ctx.real("c", lo=around, hi=around + 0.25), u, b)
    else:
        cub[loose] = (c, u, ctx.real("b", lo=around - 0.25, hi=around + 0.25))
    if what == "height" and not around:
        ctx.assume(cub[loose][0] >= 0.0001220703125)
    kinds = (bc, bc) if isinstance(bc, str) else bc
    speeds = [(abs(u) if isinstance(u, float) else ctx.abs(u)) + c for c, u, _ in cub]
    s = make_solver("swe", "mcl", StubSWE(ctx, [(c * c / g, c * c / g * u) for c, u, _ in cub], bc=bc, bottom=[x[2] for x in cub] if bottom else None, g=g), *argv, "+o", "euler")
    dt = ctx.pos("dt")
    ctx.assume(2 * dt * ctx.max(*speeds) <= DX)
    s._update(dt)
    for i in range(n):
        ctx.ge(f"height {i}", s.solution.value[i][0], -1e-12)


def instances(tier):
    big = tier == "thorough"
    out = []
    walls, outflow = ("wall", "wall"), ("outflow", "outflow")
    for bc in ("periodic", walls, outflow):
        btag = bc if isinstance(bc, str) else "-".join(bc)
        for key in ("llf", "low-order"):
            out.append(inst(f"{key}-flat-{btag}", euler, key=key, n=3, bc=bc))
            if big:
                out.append(inst(f"{key}-flat-{btag}-4", euler, key=key, n=4, bc=bc, budget=300))
        for key in ("mcl", "mcl-any") if bc != walls else ():
            if big or key == "mcl" or bc == outflow:
                out.append(inst(f"{key}-flat-{btag}", euler, key=key, n=3, bc=bc, budget=300))
        for dry in ((1,), (0,), (0, 1)):
            t = "".join(map(str, dry))
            for key in ("llf", "low-order", "mcl") if bc != walls else ("llf", "low-order"):
                if key != "mcl" or (bc == outflow and dry != (0,)):
                    out.append(inst(f"{key}-dry{t}-{btag}", euler, key=key, n=3, bc=bc, dry=dry, budget=200))
            for slopes in ((1, -1), (-1, 1)):
                out.append(inst(f"low-order-dry{t}-bottom{'+' if slopes[0] > 0 else '-'}-{btag}", euler, key="low-order", n=3, bc=bc, dry=dry, slopes=slopes, budget=200))
        for slopes in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            t = "".join("+" if x > 0 else "-" for x in slopes)
            for key in ("low-order", "mcl", "mcl-any"):
                if (big and bc != walls) or key == "low-order" or (key == "mcl" and bc == outflow and slopes[0] < 0):
                    out.append(inst(f"{key}-bottom{t}-{btag}", euler, key=key, n=3, bc=bc, slopes=slopes, budget=300))
    for bc in ("periodic", walls, outflow):
        btag = bc if isinstance(bc, str) else "-".join(bc)
        for key in ("llf", "low-order"):
            for loose in ((0, 1), (16, 17, 18), (31, 32)):
                out.append(inst(f"far-{key}-{btag}-{loose[0]}", euler, key=key, n=33, bc=bc, loose=loose, dry=(5, 20) if key == "llf" else ()))
        for loose in ((0,), (6,), (11,)) if bc != walls else ((0,), (6,)):
            out.append(inst(f"far-mcl-{btag}-{loose[0]}", euler, key="mcl", n=12, bc=bc, loose=loose, dry=(3,) if bc == outflow else ()))
    for bc in ("periodic", walls, outflow, ("wall", "outflow")):
        btag = bc if isinstance(bc, str) else "-".join(bc)
        for bottom in (False, True):
            for what, spots in (("velocity", (-3.0, 0.125, 3.0)), ("height", (0.0, 1.0))) + ((("bottom", (0.0, 2.0)),) if bottom else ()):
                for around in spots:
                    for loose in range(7) if big else (0, 2, 6) if what != "bottom" else (1, 4):
                        for argv in ((), ("+f", "llf"), ("+f", "es")) if big else ((), ("+f", "es")) if loose == 2 else ((),):
                            out.append(inst("-".join(["one", btag, "bottom" if bottom else "flat", f"{what[0]}{loose}{around:+.1f}", *argv[1:]]), one_value, budget=40,
                                            n=7, bc=bc, loose=loose, what=what, around=around, argv=argv, bottom=bottom))
    return out
