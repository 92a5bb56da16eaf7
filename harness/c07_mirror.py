from .common import *

TITLE = "mirror symmetry"
BOUNDS = "meshes of 3 and 12 cells, of 130 with four different states (4 for the reduced models' neighbourhoods and in the thorough tier), any wet states (h >= 1e-12) with or without a dry cell, any bottom by sign of its steps, all pairs of boundary conditions; limited schemes: 4 to 7 cells, one value varying in an interval"
OUTSIDE = "the reduced models (an arbitrary network need not be symmetric), advection (has a direction), the shallow water MCL scheme over a bottom (its limited source terms are not symmetric)"
EXPLANATION = ("The right hand side is executed symbolically for the data and for its mirror image (cells reversed, discharge negated, boundary "
               "conditions swapped); the solver shows that the rates are mirrored too.")


def swe_mirror(ctx, key, n, bc, slopes=None, argv=(), dry=()):
    cells = swe_cells(ctx, n, dry=dry)
    b = sloped_bottom(ctx, slopes) if slopes else None
    inl = lambda sg: (lambda t: ctx.array(_inflow(ctx, "L", sg)))
    inr = lambda sg: (lambda t: ctx.array(_inflow(ctx, "R", sg)))
    s = make_solver("swe", key, StubSWE(ctx, cells, bc=bc, bottom=b, inflow_left=inl(1), inflow_right=inr(1)), *argv)
    mirrored = [(h, -q) for h, q in cells[::-1]]
    t = make_solver("swe", key, StubSWE(ctx, mirrored, bc=bc if isinstance(bc, str) else bc[::-1], bottom=b and b[::-1],
                                        inflow_left=inr(-1), inflow_right=inl(-1)), *argv)
    if key == "lw":
        for x in (s, t):
            x._right_hand_side.set_time_step(ctx.pos("dt"))
    x, y = rhs(s, time=0.0), rhs(t, time=0.0)
    ctx.eq("rates", y, [[x[n - 1 - i][0], -x[n - 1 - i][1]] for i in range(n)])


FIXED = [(2.0, 0.5), (1.5, -1.0), (1.0, 0.25), (1.75, 2.0), (0.5, -0.5), (1.25, 0.0), (2.5, 1.0), (0.75, 0.5)]


def mcl_mirror(ctx, bc, loose, around, argv=(), n=7):
    """the limited scheme: a velocity varies in an interval, everything else is fixed"""
    g = 1.0
    cells = []
    for i in range(n):
        c, u = FIXED[i % 8]
        if i == loose:
            u = ctx.real("u", lo=around - 0.25, hi=around + 0.25)
        cells.append((c * c / g, c * c / g * u))
    l, r = [1.0, 0.5], [2.0, 1.0]
    neg = lambda v: [v[0], -v[1]]
    make = lambda cs, bc, l, r: make_solver("swe", "mcl", StubSWE(ctx, cs, bc=bc, g=g, inflow_left=lambda t: ctx.array(l), inflow_right=lambda t: ctx.array(r)), *argv)
    x = rhs(make(cells, bc, l, r), time=0.0)
    y = rhs(make([(h, -q) for h, q in cells[::-1]], bc if isinstance(bc, str) else bc[::-1], neg(r), neg(l)), time=0.0)
    for i in range(n):
        near(ctx, f"mass rate {i}", y[i][0], x[n - 1 - i][0], 1e-8)
        near(ctx, f"momentum rate {i}", y[i][1], -x[n - 1 - i][1], 1e-8)


def mcl_burgers(ctx, family, key, bc, loose, lo, hi, p=1, n=6):
    """one value varies in an interval, everything else is fixed"""
    us = [(1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5)[i % 7] for i in range(n * p)]
    us[loose] = ctx.real("u", lo=lo, hi=hi)
    if family == "fem":
        m = [-us[(-i) % (n * p)] for i in range(n * p)]
        s = make_solver(family, key, StubScalar(ctx, "burgers", [0.0] * n), "+p", p)
        x, y = rhs(s, value=ctx.array(us)), rhs(s, value=ctx.array(m))
        for i in range(n * p):
            near(ctx, f"rate {i}", y[i], -x[(-i) % (n * p)], 1e-8)
        return
    make = lambda us, bc, l, r: make_solver(family, key, StubScalar(ctx, "burgers", us, bc=bc, inflow_left=lambda t: l, inflow_right=lambda t: r))
    x = rhs(make(us, bc, 1.5, -0.75), time=0.0)
    y = rhs(make([-u for u in us[::-1]], bc if isinstance(bc, str) else bc[::-1], 0.75, -1.5), time=0.0)
    for i in range(n):
        near(ctx, f"rate {i}", y[i], -x[n - 1 - i], 1e-8)


def _inflow(ctx, side, sg):
    c = ctx.real("cin" + side, pos=True)
    ctx.assume(c >= 0.5)
    h = c * c / G
    return [h, sg * h * ctx.real("uin" + side)]


def burgers_mirror(ctx, family, key, n, bc="periodic", argv=()):
    if family == "fem":
        p = int(argv[1])
        us = [ctx.real(f"u{i}") for i in range(n * p)]
        s = make_solver(family, key, StubScalar(ctx, "burgers", [0.0] * n), *argv)
        m = [-us[(-i) % (n * p)] for i in range(n * p)]
        x, y = rhs(s, value=ctx.array(us)), rhs(s, value=ctx.array(m))
        ctx.eq("rates", y, [-x[(-i) % (n * p)] for i in range(n * p)])
        return
    us = [ctx.real(f"u{i if n <= 30 else pattern(i, 4)}") for i in range(n)]
    kw = lambda sg: dict(inflow_left=lambda t: sg * ctx.real("inL" if sg > 0 else "inR"),
                         inflow_right=lambda t: sg * ctx.real("inR" if sg > 0 else "inL"))
    s = make_solver(family, key, StubScalar(ctx, "burgers", us, bc=bc, **kw(1)))
    t = make_solver(family, key, StubScalar(ctx, "burgers", [-u for u in us[::-1]], bc=bc if isinstance(bc, str) else bc[::-1], **kw(-1)))
    if key == "mcl-fv" and ctx.symbolic:
        il, ir = ctx.real("inL"), ctx.real("inR")
        mcl_order(ctx, us, bc, il, ir)
        mcl_order(ctx, [-u for u in us[::-1]], bc if isinstance(bc, str) else bc[::-1], -ir, -il)
        for a, b in zip(face_fluxes(s), face_fluxes(t)[::-1]):
            ctx.fact(a - b, b - a)
    x, y = rhs(s), rhs(t)
    ctx.eq("rates", y, [-x[n - 1 - i] for i in range(n)])


def face_fluxes(s):
    rs = s._right_hand_side
    flux = rs._numerical_flux
    left, right = flux(*rs._boundary_conditions.get_node_neighbours(s.solution.value, radius=flux.input_dimension // 2, time=0.0))
    return list(right)


def mcl_order(ctx, us, bc, left, right):
    """the bounds of the limited fluxes lie on both sides of zero"""
    n = len(us)
    kinds = (bc, bc) if isinstance(bc, str) else bc
    ghost = {"periodic": (us[-1], us[0]), "outflow": (us[0], us[-1]), "inflow": (left, right)}
    ext = [ghost[kinds[0]][0], *us, ghost[kinds[1]][1]]
    for a, b in zip(ext, ext[1:]):
        ctx.assume(ctx.max(ctx.abs(a), ctx.abs(b)) >= 1e-3)

    def window(j):
        if bc == "periodic" and j in (0, n + 1):
            return window(n) if j == 0 else window(1)
        return ext[max(j - 1, 0):j + 2]

    for f in range(n + 1):
        a, b = ext[f], ext[f + 1]
        v = ctx.max(ctx.abs(a), ctx.abs(b))
        bar = v * (a + b) / 2 - (b * b - a * a) / 4
        for j in (f, f + 1):
            hi, lo = ctx.max(*window(j)), ctx.min(*window(j))
            for x in (a, b):
                for d in (hi - x, x - lo):
                    ctx.product(v - x, d)
                    ctx.product(v + x, d)
            ctx.fact(v * hi - bar, bar - v * lo)


def instances(tier):

    big = tier == "thorough"
    out = []
    sides = ("outflow", "wall", "inflow")
    pairs = ["periodic"] + [(a, b) for a in sides for b in sides]
    few = ["periodic", ("wall", "wall"), ("outflow", "inflow"), ("wall", "outflow")]
    for key in [k for k in SWE_FLAT if k != "mcl"]:
        for bc in pairs if big or key in ("llf", "low-order", "central") else few:
            tag = bc if isinstance(bc, str) else "-".join(bc)
            out.append(inst(f"{key}-flat-{tag}", swe_mirror, key=key, n=3, bc=bc))
            if bc in few and key != "antidiffusion":
                for dry in ((0,), (1,)):
                    out.append(inst(f"{key}-dry{dry[0]}-{tag}", swe_mirror, key=key, n=3, bc=bc, dry=dry))
            if key in ("llf", "central", "low-order", "es", "es1", "lw", "antidiffusion") and (big or bc in few):
                for sl in ((1, 1), (1, -1), (-1, 1), (-1, -1)) if big else ((1, 1), (1, -1)):
                    t = "".join("+" if x > 0 else "-" for x in sl)
                    out.append(inst(f"{key}-bottom{t}-{tag}", swe_mirror, key=key, n=3, bc=bc, slopes=sl))
        for bc in ("periodic", ("wall", "outflow")):
            out.append(inst(f"{key}-wide-{bc if isinstance(bc, str) else bc[0]}", swe_mirror, key=key, n=12, bc=bc))
            out.append(inst(f"{key}-huge-{bc if isinstance(bc, str) else bc[0]}", swe_mirror, key=key, n=130, bc=bc, dry=(40, 41) if key in ("llf", "low-order") else ()))
    for key in ("llf", "central"):
        out.append(inst(f"burgers-{key}-huge", burgers_mirror, family="scalar", key=key, n=130))
        out.append(inst(f"burgers-{key}-wide", burgers_mirror, family="scalar", key=key, n=12))
        for bc in ["periodic", ("outflow", "outflow"), ("inflow", "outflow")]:
            tag = bc if isinstance(bc, str) else "-".join(bc)
            out.append(inst(f"burgers-{key}-{tag}", burgers_mirror, family="scalar", key=key, n=4 if big else 3, bc=bc))
    for bc in ("periodic", ("wall", "outflow"), ("inflow", "wall")):
        for loose, around in ((0, -2.0), (3, 0.5), (6, 3.0)):
            for argv in ((), ("+f", "llf"), ("+f", "es")):
                tag = "-".join([bc if isinstance(bc, str) else bc[0], str(loose), *argv[1:]])
                out.append(inst(f"mcl-{tag}", mcl_mirror, bc=bc, loose=loose, around=around, argv=argv))
    out.append(inst("burgers-mcl-fv-outflow", burgers_mirror, family="scalar", key="mcl-fv", n=3, bc=("outflow", "outflow")))
    for lo, hi in ((-3.0, -1.0), (-1.0, 0.5), (0.5, 3.0)):
        for bc, loose in (("periodic", 0), ("periodic", 3), (("inflow", "outflow"), 1), (("outflow", "inflow"), 5)):
            tag = f"{bc if isinstance(bc, str) else bc[0]}-{loose}-{lo:+.0f}"
            out.append(inst(f"mcl-fv-{tag}", mcl_burgers, family="scalar", key="mcl-fv", bc=bc, loose=loose, lo=lo, hi=hi))
    for around in (-2.0, 0.125, 1.5):
        for p in (1, 2, 3):
            for loose in sorted({0, 1, p}):
                out.append(inst(f"mcl-fem-{p}-{loose}-{around:+.0f}", mcl_burgers, family="fem", key="mcl-fem", bc="periodic", loose=loose, lo=around - 0.25, hi=around + 0.25, p=p, n=4))
    for key in ("cg", "cg-low"):
        for p in ("1", "2"):
            out.append(inst(f"burgers-{key}-p{p}", burgers_mirror, family="fem", key=key, n=3, argv=("+p", p)))
    return out
