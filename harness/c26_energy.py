from .common import *

TITLE = "energy is conserved by the energy conservative and never created by the dissipative schemes"
BOUNDS = "one to three faces or meshes of 2 to 4 cells, any wet states (h >= 1e-9), any gravity >= 0.1, any bottom whose outermost heights agree where the mesh is periodic, any scalar values"
OUTSIDE = "dry states; fully discrete energy (time stepping adds its own error); in- and outflow boundaries"
EXPLANATION = ("The rates of the real solver are multiplied with the derivative of the energy; the solver shows that the sum over the cells is zero, or not positive, "
               "for all states.")


def energy_variables(cells, bottom, g):
    """derivative of (g h^2 + h u^2)/2 + g h b with respect to h and h u"""
    return [(g * (h + b) - u * u / 2, u) for (h, u), b in zip(cells, bottom)]


def wet(ctx, n, g):
    out = []
    for i in range(n):
        c, u = ctx.real(f"c{i}", pos=True), ctx.real(f"u{i}")
        h = c * c / g
        ctx.assume(h >= 1e-9)
        out.append((h, u))
    return out


def conservative_flux(ctx):
    """the jump condition behind energy conservation, face by face"""
    from finite_volume.shallow_water.solver.energy_stable import EnergyStableFlux

    g = ctx.real("g", lo=0.1)
    (hl, ul), (hr, ur) = [(ctx.pos("h" + s), ctx.real("u" + s)) for s in "lr"]
    ctx.assume(hl >= 1e-9)
    ctx.assume(hr >= 1e-9)
    left, right = ctx.array([[hl, hl * ul]]), ctx.array([[hr, hr * ur]])
    minus, flux = EnergyStableFlux(g)(left, right)
    entropy, potential = swe.Entropy(g), swe.Potential(g)
    vl, vr = entropy(left), entropy(right)
    ctx.eq("entropy variables left", vl[0], [g * hl - ul * ul / 2, ul])
    ctx.eq("entropy variables right", vr[0], [g * hr - ur * ur / 2, ur])
    b = ctx.real("b")
    ctx.eq("entropy variables over a bottom", entropy(left, ctx.array([b]))[0], [g * (hl + b) - ul * ul / 2, ul])
    ctx.eq("potential", potential(left), [g * hl * hl * ul / 2])
    jump = sum((y - x) * f for x, y, f in zip(vl[0], vr[0], flux[0]))
    ctx.eq("jump of the potential", jump, potential(right)[0] - potential(left)[0])
    ctx.eq("the other side", minus[0], [-flux[0][0], -flux[0][1]])


def semi_discrete(ctx, key, n, bc, bottom, symbolic_g):
    g = ctx.real("g", lo=0.1) if symbolic_g else G
    cells = wet(ctx, n, g)
    b = bottoms(ctx, n) if bottom else [0.0] * n
    if bottom and bc == "periodic":
        b[-1] = b[0]
    if bottom and n > 1 + (bc == "periodic"):
        ctx.assume(ctx.abs(b[1] - b[0]) >= 1e-6)
    bench = StubSWE(ctx, [(h, h * u) for h, u in cells], bc=bc, bottom=b, g=g)
    s = make_solver("swe", key, bench)
    r = rhs(s)
    power = 0
    for (v0, v1), rate in zip(energy_variables(cells, b, g), r):
        power = power + v0 * rate[0] + v1 * rate[1]
    ctx.eq("energy", power, 0.0)


def pair(ctx, g):
    """two wet states, parametrised by the averages the scheme linearises about"""
    c, v, a, d = ctx.pos("c"), ctx.real("v"), ctx.real("a", lo=-1, hi=1), ctx.real("d")
    h = c * c / g
    hl, hr = h * (1 + a), h * (1 - a)
    ctx.assume(hl >= 1e-9)
    ctx.assume(hr >= 1e-9)
    return [(hl, v - (1 - a) * d), (hr, v + (1 + a) * d)], c, v


def never_created(ctx, bc, bottom):
    cells, c, v = pair(ctx, G)
    b = [ctx.real("b0"), ctx.real("b1")] if bottom else [0.0, 0.0]
    if bottom:
        ctx.assume(ctx.abs(b[1] - b[0]) >= 1e-6)
    s = make_solver("swe", "es1", StubSWE(ctx, [(h, h * u) for h, u in cells], bc=bc, bottom=b))
    power = 0
    for (v0, v1), rate in zip(energy_variables(cells, b, G), rhs(s)):
        power = power + v0 * rate[0] + v1 * rate[1]
    if ctx.symbolic:
        (e0, f0), (e1, f1) = energy_variables(cells, b, G)
        for lam in (v - c, v + c):
            z = (e1 - e0) + lam * (f1 - f0)
            ctx.product(ctx.abs(lam), z * z)
        if bc != "periodic":
            for h, u in cells:
                w = ctx.sqrt(G * h)
                ctx.product(w, w * w * u * u)
    ctx.ge("no energy is created", -power, 0.0)


def scalar_rates(ctx, key, problem, n, bc, still=False):
    """the integral of u^2/2 does not grow"""
    us = [ctx.real(f"u{i}") for i in range(n)]
    if still:
        us[0] = us[1] = 0.0  # no wave at all at the face between them
    if problem == "burgers":
        for i in range(still, n):
            ctx.assume(ctx.max(ctx.abs(us[i]), ctx.abs(us[(i + 1) % n])) >= 1e-3)
    s = make_solver("scalar", key, StubScalar(ctx, problem, us, bc=bc))
    power = sum(u * r for u, r in zip(us, rhs(s)))
    if ctx.symbolic:
        guide_scalar(ctx, problem, us)
    ctx.ge("the square integral does not grow", -power, 0.0)


def guide_scalar(ctx, problem, us):
    for a, b in zip(us, us[1:] + us[:1]):
        v = 1.0 if problem == "advection" else ctx.max(ctx.abs(a), ctx.abs(b))
        sq = (a - b) * (a - b)
        if problem == "burgers":
            ctx.product(v - a, sq)
            ctx.product(v + a, sq)
            ctx.product(v - b, sq)
            ctx.product(v + b, sq)
        ctx.product(ctx.num(v) if problem == "advection" else v, sq)


def fem_rates(ctx, n, p):
    us = [ctx.real(f"u{i}") for i in range(n * p)]
    s = make_solver("fem", "cg-low", StubScalar(ctx, "advection", [0.0] * n), "+p", p)
    from finite_element import LumpedMassVector

    m = LumpedMassVector(s.solution.space)(ctx.array(us))
    r = s._right_hand_side(0.0, ctx.array(us))
    power = sum(u * w * x for u, w, x in zip(us, m, r))
    if ctx.symbolic:
        for i in range(n * p):
            for j in range(i):
                ctx.fact((us[i] - us[j]) * (us[i] - us[j]))
    ctx.ge("the square integral does not grow", -power, 0.0)


def instances(tier):
    big = tier == "thorough"
    walls = ("wall", "wall")
    out = [inst("flux", conservative_flux)]
    for bc in ("periodic", walls):
        tag = bc if isinstance(bc, str) else "walls"
        for n in (2, 3, 4):
            for bottom in (False, True):
                for g in (False, True):
                    if not big and g and n == 4:
                        continue
                    out.append(inst(f"es-{tag}-{n}{'-bottom' if bottom else ''}{'-g' if g else ''}", semi_discrete, key="es", n=n, bc=bc,
                                    bottom=bottom, symbolic_g=g))
        for bottom in (False, True)[:1 + (bc != "periodic")]:
            out.append(inst(f"es1-{tag}{'-bottom' if bottom else ''}", never_created, bc=bc, bottom=bottom))
    for problem in ("advection", "burgers"):
        for n in (2, 3) if not big else (2, 3, 4):
            out.append(inst(f"llf-{problem}-{n}", scalar_rates, key="llf", problem=problem, n=n, bc="periodic"))
    out.append(inst("llf-burgers-3-still", scalar_rates, key="llf", problem="burgers", n=3, bc="periodic", still=True))
    for n, p in ((3, 1), (4, 1), (3, 2)):
        out.append(inst(f"cg-low-{n}-{p}", fem_rates, n=n, p=p))
    return out
