from .common import *

TITLE = "lake at rest"
BOUNDS = ("meshes of 3 and 4 cells, without limiter also 15 and 130 (with four different depths); any surface level, any bottom below it (depth >= 1e-9, two cells differing by at "
          "least 1e-6), walls, outflow, inflow of the same water and periodic ends with equal bottom; the "
          "default gravity and an arbitrary positive one; shores where the bottom reaches the surface, dry ground of any shape")
OUTSIDE = ("bottoms rising above the surface next to water; periodic domains whose end bottoms differ; the mass rates of llf, lw and antidiffusion with "
           "gamma > 0 (not well balanced by design; their momentum rates are claimed)")
EXPLANATION = ("Water at rest over a symbolic bottom is fed to the real right hand side of every scheme and the solver "
               "shows that the rates (mass and momentum) vanish identically.")


def lake(ctx, n, bc, g, shore=()):
    """(cells, bottom) of water at rest with a symbolic surface level."""
    level = ctx.real("H")
    hs = []
    for i in range(n):
        if bc == "periodic" and i == n - 1:
            hs.append(hs[0])
            continue
        if i in shore:  # the bottom reaches the surface
            hs.append(ctx.num(0.0))
            continue
        c = ctx.pos(f"c{i if n <= 30 else pattern(i, 4)}")
        h = c * c / g
        ctx.assume(h >= 1e-9)
        hs.append(h)
    if n <= 5:
        ctx.assume(ctx.any(*[ctx.abs(h - hs[0]) >= 1e-6 for h in hs[1:]]))
    else:
        ctx.assume(hs[1] - hs[0] >= 1e-6)  # cells 0 and 1 differ, also by their kind on large meshes
    return [(h, 0.0 * h) for h in hs], [level - h for h in hs]


def at_rest(ctx, key, n, bc, argv=(), full=True, gravity=False, shore=()):
    g = ctx.pos("g") if gravity else G
    cells, bottom = lake(ctx, n, bc, g, shore)
    left, right = ctx.array(list(cells[0])), ctx.array(list(cells[-1]))
    bench = StubSWE(ctx, cells, bc=bc, bottom=bottom, g=g, inflow_left=lambda t: left, inflow_right=lambda t: right)
    s = make_solver("swe", key, bench, *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    r = rhs(s)
    if full:
        ctx.eq("mass rates", r[:, 0], 0.0)
    ctx.eq("momentum rates", r[:, 1], 0.0)


def dry_ground(ctx, key, n, bc):
    """nothing happens where there is no water, whatever the bottom"""
    b = bottoms(ctx, n)
    ctx.assume(ctx.abs(b[1] - b[0]) >= 1e-6)
    cells = [(ctx.num(0.0), ctx.num(0.0))] * n
    zero = ctx.array([0.0, 0.0])
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=bc, bottom=b, inflow_left=lambda t: zero, inflow_right=lambda t: zero))
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    ctx.eq("rates", rhs(s), 0.0)


def instances(tier):
    big = tier == "thorough"
    out = []
    walls, outflow, inflow = ("wall", "wall"), ("outflow", "outflow"), ("inflow", "inflow")
    schemes = [("low-order", ()), ("central", ()), ("es", ()), ("es1", ()), ("mcl", ()), ("mcl", ("+f", "es")),
               ("mcl", ("+f", "es1")), ("mcl", ("+f", "low-order")), ("antidiffusion", ("+f", "es", "+g", "0"))]
    for key, argv in schemes:
        tag = "-".join([key, *[a.strip("+") for a in argv]])
        for bc in ("periodic", walls, outflow, inflow, ("wall", "outflow")):
            if bc in (inflow, ("wall", "outflow")) and argv and not big:
                continue
            btag = bc if isinstance(bc, str) else "-".join(bc)
            out.append(inst(f"{tag}-{btag}-3", at_rest, key=key, n=3, bc=bc, argv=argv))
            if big or key not in ("mcl",):
                out.append(inst(f"{tag}-{btag}-4", at_rest, key=key, n=4, bc=bc, argv=argv))
    for key, argv in schemes:
        tag = "-".join([key, *[a.strip("+") for a in argv]])
        for shore in ((0,), (1,), (0, 1)) + (((1, 2),) if big else ()):
            for bc in (walls, outflow):
                t = "".join(map(str, shore))
                out.append(inst(f"shore{t}-{tag}-{bc[0]}", at_rest, key=key, n=3, bc=bc, argv=argv, shore=shore))
    for key in SWE_FLAT:
        for bc in ("periodic", walls, outflow, inflow):
            out.append(inst(f"dry-{key}-{bc if isinstance(bc, str) else '-'.join(bc)}", dry_ground, key=key, n=3, bc=bc))
    for key, argv in schemes:
        for bc in ("periodic", walls, outflow):
            if key != "mcl":
                tag = "-".join([key, *[a.strip("+") for a in argv]])
                out.append(inst(f"wide-{tag}-{bc if isinstance(bc, str) else bc[0]}", at_rest, key=key, n=15, bc=bc, argv=argv, shore=(4, 9, 10) if bc == walls else ()))
                out.append(inst(f"huge-{tag}-{bc if isinstance(bc, str) else bc[0]}", at_rest, key=key, n=130, bc=bc, argv=argv, shore=(40, 41, 77) if bc == walls else ()))
    for key, argv in schemes[:5]:
        out.append(inst(f"gravity-{key}", at_rest, key=key, n=3, bc=walls, argv=argv, gravity=True))
    for key, argv in [("llf", ()), ("lw", ()), ("antidiffusion", ()), ("antidiffusion", ("+f", "central"))]:
        tag = "-".join([key, *[a.strip("+") for a in argv]])
        for bc in ("periodic", walls, outflow):
            btag = bc if isinstance(bc, str) else "-".join(bc)
            out.append(inst(f"momentum-{tag}-{btag}-3", at_rest, key=key, n=3, bc=bc, argv=argv, full=False))
    return out
