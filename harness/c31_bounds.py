from .common import *

TITLE = "local bounds of heights and velocities"
BOUNDS = ("flat bottom, one Euler step of any size with dt * 2 * max wave speed <= dx; low order scheme: meshes of 3 cells with any wet states; limited scheme: meshes of 7 and 24 cells "
          "with one height or velocity varying in an interval, around rough, gentle, constant and streaming data, target fluxes central, llf, energy stable and Lax-Wendroff, all kinds of boundaries")
OUTSIDE = "steps beyond the bound, arbitrary bottoms (the bounds are modified by the bottom there), limited schemes with all values arbitrary at once (not decided within reach)"
EXPLANATION = ("One explicit Euler step of the real solver is executed symbolically; for every cell the solver shows that the new height and the new velocity "
               "lie between the smallest and largest of the old value and the values of the intermediate states of both faces, which the harness computes itself.")

FIXED = [(2.0, 0.5), (1.5, -1.0), (1.0, 0.25), (1.75, 2.0), (0.5, -0.5), (1.25, 0.0), (2.5, 1.0), (0.75, 0.5)]


def ghosted(cells, bc, left, right):
    kinds = (bc, bc) if isinstance(bc, str) else bc
    l = {"periodic": cells[-1], "outflow": cells[0], "wall": (cells[0][0], -cells[0][1]), "inflow": left}[kinds[0]]
    r = {"periodic": cells[0], "outflow": cells[-1], "wall": (cells[-1][0], -cells[-1][1]), "inflow": right}[kinds[1]]
    return [l, *cells, r]


# celerities and velocities which hardly vary, with one extremum, or which do not vary in parts
GENTLE = [(1.0, 0.25), (1.03125, 0.2578125), (1.0625, 0.265625), (1.078125, 0.26953125), (1.0625, 0.265625), (1.03125, 0.2578125), (1.015625, 0.25390625), (1.0, 0.25)]
FLAT = [(1.0, 0.5), (1.0, 0.5), (1.0, 0.5), (2.0, -0.25), (2.0, -0.25), (2.0, -0.25), (1.0, 0.5), (1.0, 0.5)]
STREAM = [(0.5, 4.0), (0.5, 4.0625), (0.53125, 4.125), (0.5, 4.0), (0.46875, 3.9375), (0.5, 4.0), (1.5, -4.0), (1.5, -4.0)]


def states(ctx, n, loose=None, around=0.0, what="velocity", g=1.0, data=None):
    """celerity and velocity of every cell"""
    out = []
    for i in range(n):
        c, u = (data or FIXED)[(i + i // 8) % 8]
        if loose is None:
            c, u = ctx.pos(f"c{i}"), ctx.real(f"u{i}")
            ctx.assume(c * c / g >= 1e-12)
        elif i == loose and data is not None:
            w = 1 / 64 if data is FLAT else 1 / 512
            if what == "velocity":
                u = ctx.real("u", lo=u + around - w, hi=u + around + w)
            else:
                c = ctx.real("c", lo=c + around - w, hi=c + around + w)
        elif i == loose and what == "velocity":
            u = ctx.real("u", lo=around - 0.25, hi=around + 0.25)
        elif i == loose:
            c = ctx.real("c", lo=around - 0.125, hi=around + 0.125)
        out.append((c, u))
    return out


def euler(ctx, key, bc, n, loose=None, around=0.0, what="velocity", argv=(), quantity="height", data=None):
    g = 1.0
    cu = states(ctx, n, loose, around, what, g, data and {"gentle": GENTLE, "flat": FLAT, "stream": STREAM}[data])
    left, right = (1.0, 0.5), (2.0, -0.25)
    ext = ghosted(cu, bc, left, right)
    value = lambda c, u: (c * c / g, c * c / g * u)
    sol = make_solver("swe", key, StubSWE(ctx, [value(*x) for x in cu], bc=bc, g=g, inflow_left=lambda t: ctx.array(value(*left)),
                                          inflow_right=lambda t: ctx.array(value(*right))), *argv, "+o", "euler")
    dt = ctx.pos("dt")
    faces = []
    for (c1, u1), (c2, u2) in zip(ext, ext[1:]):
        (h1, q1), (h2, q2) = value(c1, u1), value(c2, u2)
        s = ctx.max(ctx.abs(u1) + c1, ctx.abs(u2) + c2)
        ctx.assume(2 * dt * s <= DX)
        # the intermediate state times twice the wave speed
        faces.append((s, s * (h1 + h2) - (q2 - q1), s * (q1 + q2) - (q2 * u2 + g * h2 * h2 / 2 - q1 * u1 - g * h1 * h1 / 2)))
    sol._update(dt)
    new = sol.solution.value
    for i in range(n):
        (s1, h1, q1), (s2, h2, q2) = faces[i], faces[i + 1]
        h0 = value(*cu[i])[0]
        c0, u0 = cu[i]
        if quantity == "height":
            bars = [(h1, 2 * s1), (h2, 2 * s2), (h0, 1)]
            bounded(ctx, f"height {i}", new[i][0], 1, bars)
        else:
            bars = [(q1, h1), (q2, h2), (u0, 1)]
            bounded(ctx, f"velocity {i}", new[i][1], new[i][0], bars)


def any_cells(ctx, key, bc, quantity, cell, side, n=3):
    """all values arbitrary: every M above (below) the old value and both intermediate states
    lies above (below) the new one"""
    cu = states(ctx, n, g=G)
    inl, inr = [(2.0, 0.5), (1.5, -3.0)]
    ext = ghosted(cu, bc, inl, inr)
    value = lambda c, u: (c * c / G, c * c / G * u)
    sol = make_solver("swe", key, StubSWE(ctx, [value(*x) for x in cu], bc=bc, inflow_left=lambda t: ctx.array(value(*inl)),
                                          inflow_right=lambda t: ctx.array(value(*inr))), "+o", "euler")
    dt, m = ctx.pos("dt"), ctx.real("M")
    sg = 1 if side == "max" else -1
    c0, u0 = cu[cell]
    h0, q0 = value(c0, u0)
    physical = lambda h, q, u: (q, q * u + G * h * h / 2)
    faces = []
    for (c1, u1), (c2, u2) in zip(ext[cell:cell + 2], ext[cell + 1:cell + 3]):
        (h1, q1), (h2, q2) = value(c1, u1), value(c2, u2)
        s = ctx.max(ctx.abs(u1) + c1, ctx.abs(u2) + c2)
        (f1, g1), (f2, g2) = physical(h1, q1, u1), physical(h2, q2, u2)
        ctx.assume(2 * dt * s <= DX)
        faces.append((s, (s * (h1 + h2) - (f2 - f1)) / 2, (s * (q1 + q2) - (g2 - g1)) / 2))
        ctx.product(h1, s + u1)
        ctx.product(h2, s - u2)
    top = lambda h, q, w: sg * ((m * w - h) if quantity == "height" else (m * h - q))
    for s, h, q in faces:
        ctx.assume(top(h, q, s) >= 0)
    rest = sg * (m - (h0 if quantity == "height" else u0))
    ctx.assume(rest >= 0)
    if ctx.symbolic:
        rs = sol._right_hand_side
        left, right = rs._numerical_flux(*rs._boundary_conditions.get_node_neighbours(sol.solution.value, radius=1, time=0.0))
        f0, g0 = physical(h0, q0, u0)
        if quantity == "velocity":
            ctx.product(h0, rest)
            rest = h0 * rest
        for (s, h, q), (dh, dq), k in ((faces[0], right[cell], -1), (faces[1], left[cell + 1], 1)):
            x = top(dh + k * f0 + s * h0, dq + k * g0 + s * q0, s)
            ctx.fact(x)
            ctx.product(dt, x)
            ctx.product(rest, DX - 2 * dt * s)
    sol._update(dt)
    h, q = sol.solution.value[cell]
    ctx.ge(f"{quantity} {cell} {side}", top(h, q, 1), 0.0)


def bounded(ctx, name, a, b, ratios, tol=1e-9):
    """min <= a / b <= max of the ratios, positive denominators"""
    values = [x / y for x, y in ratios]
    ctx.ge(f"{name} from above", ctx.max(*values) * b - a, -tol)
    ctx.ge(f"{name} from below", a - ctx.min(*values) * b, -tol)


def instances(tier):
    big = tier == "thorough"
    out = []
    bcs = ("periodic", ("wall", "outflow"), ("inflow", "wall")) + ((("outflow", "inflow"),) if big else ())
    tag = lambda bc: bc if isinstance(bc, str) else "-".join(bc)
    spots = [("velocity", -2.0), ("velocity", 0.25), ("velocity", 3.0), ("height", 0.5), ("height", 2.0)]
    for quantity in ("height", "velocity"):
        for bc in bcs:
            for what, around in spots:
                for loose in (0, 3, 6):
                    for argv in ((), ("+f", "llf"), ("+f", "es")) if big else ((),) if loose == 3 else (("+f", "es"),) if loose else (("+f", "llf"),):
                        out.append(inst("-".join(["mcl", quantity, tag(bc), f"{what[0]}{loose}{around:+.1f}", *argv[1:]]), euler, key="mcl", bc=bc, n=7,
                                        loose=loose, around=around, what=what, argv=argv, quantity=quantity))
            for data in ("gentle", "flat", "stream"):
                for what in ("velocity", "height"):
                    for around in (0.0, 0.0625):
                        for loose in range(7) if big else (0, 2, 3, 6):
                            if big or bc == "periodic" or loose in (0, 6):
                                out.append(inst(f"mcl-{data}-{quantity}-{tag(bc)}-{what[0]}{loose}{around:+.2f}", euler, key="mcl", bc=bc, n=7, loose=loose, around=around, what=what, quantity=quantity, data=data, budget=40))
            for loose in (0, 12, 23):
                out.append(inst(f"mcl-wide-{quantity}-{tag(bc)}-{loose}", euler, key="mcl", bc=bc, n=24, loose=loose, around=0.5, quantity=quantity))
            for key in ("low-order", "llf"):
                for cell in range(3):
                    for side in ("max", "min"):
                        out.append(inst(f"{key}-{quantity}-{tag(bc)}-{side}{cell}", any_cells, key=key, bc=bc, quantity=quantity, cell=cell, side=side))
    return out
