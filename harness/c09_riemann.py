from .common import *

TITLE = "Riemann solvers"
BOUNDS = "one to three faces, any wet states (h >= 2e-15) or any scalar values, any gravity >= 0.1 for the shallow water solver, both wave speed estimates"
OUTSIDE = "dry states other than the stated dry-bed limits; other scalar problems than advection and Burgers"
EXPLANATION = ("solve() is executed symbolically; the solver shows that flux and intermediate state satisfy the jump conditions over both waves, that the "
               "wave speeds bound the characteristic speeds, and the bounds and symmetries of the intermediate state.")


def state(ctx, name, g):
    c = ctx.real("c" + name, pos=True)
    u = ctx.real("u" + name)
    h = c * c / g
    ctx.assume(h >= 2e-15)
    return c, u, h, h * u


def physical(h, q, u, g):
    return [q, q * u + g * h * h / 2]


def shallow(ctx, speed, faces, symbolic_g):
    g = ctx.real("g", lo=0.1) if symbolic_g else G
    ws = swe.WaveSpeed(g) if speed == "hll" else None
    solver = swe.RiemannSolver(gravitational_acceleration=g, wave_speed=ws)
    ls = [state(ctx, f"l{i}", g) for i in range(faces)]
    rs = [state(ctx, f"r{i}", g) for i in range(faces)]
    left = ctx.array([[s[2], s[3]] for s in ls])
    right = ctx.array([[s[2], s[3]] for s in rs])
    flux, bar = solver.solve(left, right)
    sl, sr = solver.wave_speed_left, solver.wave_speed_right
    for i in range(faces):
        (cl, ul, hl, ql), (cr, ur, hr, qr) = ls[i], rs[i]
        fl, fr = physical(hl, ql, ul, g), physical(hr, qr, ur, g)
        ctx.eq(f"left flux {i}", solver.flux_left[i], fl)
        ctx.eq(f"right flux {i}", solver.flux_right[i], fr)
        for k, (a, b) in enumerate(((hl, hr), (ql, qr))):
            ctx.eq(f"jump over the left wave {i}.{k}", flux[i][k], fl[k] + sl[i] * (bar[i][k] - a))
            ctx.eq(f"jump over the right wave {i}.{k}", flux[i][k], fr[k] + sr[i] * (bar[i][k] - b))
        ctx.ge(f"right speed {i}", sr[i], ul + cl)
        ctx.ge(f"right speed' {i}", sr[i], ur + cr)
        ctx.ge(f"left speed {i}", -sl[i], cl - ul)
        ctx.ge(f"left speed' {i}", -sl[i], cr - ur)
        ctx.ge(f"speeds enclose zero {i}", sr[i], 0.0)
        ctx.ge(f"speeds enclose zero' {i}", -sl[i], 0.0)
        if speed == "max":
            ctx.eq(f"symmetric speeds {i}", sl[i] + sr[i], 0.0)
            ctx.eq(f"sharp speed {i}", sr[i], ctx.max(ctx.abs(ul) + cl, ctx.abs(ur) + cr))
        else:
            ctx.eq(f"sharp right speed {i}", sr[i], ctx.max(ul + cl, ur + cr, 0.0))
            ctx.eq(f"sharp left speed {i}", sl[i], ctx.min(ul - cl, ur - cr, 0.0))
    ctx.eq("inputs are unchanged", left, [[s[2], s[3]] for s in ls])
    ctx.eq("inputs are unchanged'", right, [[s[2], s[3]] for s in rs])


def positive(ctx, speed):
    g = G
    ws = swe.WaveSpeed(g) if speed == "hll" else None
    solver = swe.RiemannSolver(gravitational_acceleration=g, wave_speed=ws)
    cl, ul, hl, ql = state(ctx, "l", g)
    cr, ur, hr, qr = state(ctx, "r", g)
    flux, bar = solver.solve(ctx.array([[hl, ql]]), ctx.array([[hr, qr]]))
    sl, sr = solver.wave_speed_left[0], solver.wave_speed_right[0]
    if ctx.symbolic:
        ctx.fact(sr - ul, sr - ur, ul - sl, ur - sl, sr - sl)
        ctx.product(hr, sr - ur)
        ctx.product(hl, ul - sl)
    ctx.ge("intermediate height times the width of the fan", bar[0][0] * (sr - sl), 0.0)


def dry(ctx):
    """dry on one side, water of any state on the other; dry on both sides"""
    solver = swe.RiemannSolver()
    c, u, h, q = state(ctx, "w", G)
    wet, none = [h, q], [0.0, 0.0]
    left, right = ctx.array([wet, none, none]), ctx.array([none, wet, none])
    flux, bar = solver.solve(left, right)
    ctx.finite("finite", flux)
    ctx.finite("finite'", bar)
    f = physical(h, q, u, G)
    s = ctx.abs(u) + c
    ctx.eq("speed", solver.wave_speed_right, [s, s, 0.0])
    ctx.eq("flux wet-dry", flux[0], [f[k] / 2 + s * x / 2 for k, x in enumerate((h, q))])
    ctx.eq("flux dry-wet", flux[1], [f[k] / 2 - s * x / 2 for k, x in enumerate((h, q))])
    ctx.eq("flux dry-dry", flux[2], [0.0, 0.0])
    ctx.eq("state dry-dry", bar[2], [0.0, 0.0])


def film(ctx, g):
    """water of every depth, down to films the code takes for dry (below EPSILON): velocity,
    physical flux and its derivative; depths in units of 1e-12"""
    import importlib

    sw = importlib.import_module("finite_volume.shallow_water.core")

    unit = 1e-12
    k, m = ctx.real("depth", lo=0.002, hi=2e15), ctx.real("film", lo=0.0, hi=0.0005)
    u, w = ctx.real("u", lo=-5, hi=5), ctx.real("w", lo=-5, hi=5)
    h, thin = k * unit, m * unit
    g = ctx.real("g", lo=0.1, hi=20) if g else None
    grav = G if g is None else g
    states = ctx.array([[h, h * u], [thin, thin * w]])
    v = sw.get_velocity(states)
    ctx.eq("velocity", v[0], u)
    ctx.le("velocity of a film", ctx.abs(v[1]), ctx.abs(w))
    ctx.ge("direction of a film", v[1] * w, 0.0)
    flux, jacobian = sw.Flux(g)(states), sw.FluxJacobian(g)(states)
    ctx.eq("flux", [x / unit for x in flux[0]], [k * u, k * u * u + grav * k * h / 2])
    ctx.eq("no flux of a film", [x / unit for x in flux[1]], [0.0, 0.0])
    ctx.eq("jacobian", list(jacobian[0][0]) + list(jacobian[0][1]), [0.0, 1.0, 2 * u, grav * h - u * u])
    ctx.eq("states are unchanged", [x / unit for x in states[0]], [k, k * u])


def positivity_fix(ctx):
    """the bottom term never takes more than a bar state holds"""
    import importlib

    sw = importlib.import_module("finite_volume.shallow_water.core")

    bar, step = ctx.real("bar", lo=0), ctx.real("step")
    fix = sw.get_height_positivity_fix(ctx.array([bar, bar]), ctx.array([step, 0.0]))
    ctx.le("bounded by the state", ctx.abs(fix[0]), bar)
    ctx.le("bounded by the step", 2 * ctx.abs(fix[0]), ctx.abs(step))
    ctx.ge("sign", fix[0] * step, 0.0)
    ctx.eq("no less than needed", (bar - ctx.abs(fix[0])) * (ctx.abs(step) / 2 - ctx.abs(fix[0])), 0.0)
    ctx.eq("flat", fix[1], 0.0)


def mirror(ctx, speed):
    g = G
    ws = swe.WaveSpeed(g) if speed == "hll" else None
    solver = swe.RiemannSolver(gravitational_acceleration=g, wave_speed=ws)
    cl, ul, hl, ql = state(ctx, "l", g)
    cr, ur, hr, qr = state(ctx, "r", g)
    f, b = solver.solve(ctx.array([[hl, ql]]), ctx.array([[hr, qr]]))
    f2, b2 = solver.solve(ctx.array([[hr, -qr]]), ctx.array([[hl, -ql]]))
    ctx.eq("flux", [f2[0][0], f2[0][1]], [-f[0][0], f[0][1]])
    ctx.eq("state", [b2[0][0], b2[0][1]], [b[0][0], -b[0][1]])


def equal(ctx, speed):
    g = G
    ws = swe.WaveSpeed(g) if speed == "hll" else None
    solver = swe.RiemannSolver(gravitational_acceleration=g, wave_speed=ws)
    c, u, h, q = state(ctx, "s", g)
    f, b = solver.solve(ctx.array([[h, q]]), ctx.array([[h, q]]))
    ctx.eq("flux", f[0], physical(h, q, u, g))
    ctx.eq("state", b[0], [h, q])


def scalar(ctx, problem, faces):
    from finite_volume import scalar as sc

    solver = sc.get_riemann_solver(problem)
    l = [ctx.real(f"l{i}") for i in range(faces)]
    r = [ctx.real(f"r{i}") for i in range(faces)]
    F = lambda u: u if problem == "advection" else u * u / 2
    d = lambda u: 1.0 if problem == "advection" else u
    flux, bar = solver.solve(ctx.array(l), ctx.array(r))
    sl, sr = solver.wave_speed_left, solver.wave_speed_right
    for i in range(faces):
        ctx.eq(f"jump over the left wave {i}", flux[i], F(l[i]) + sl[i] * (bar[i] - l[i]))
        ctx.eq(f"jump over the right wave {i}", flux[i], F(r[i]) + sr[i] * (bar[i] - r[i]))
        ctx.eq(f"sharp right speed {i}", sr[i], ctx.max(ctx.abs(ctx.num(d(l[i])) if problem == "advection" else l[i]),
                                                      ctx.abs(1.0 if problem == "advection" else r[i])))
        ctx.eq(f"left speed {i}", sl[i], -sr[i])
        lo, hi = ctx.min(l[i], r[i]), ctx.max(l[i], r[i])
        if ctx.symbolic and problem == "burgers":
            for x in (l[i], r[i]):
                for y in (hi - x, x - lo):
                    ctx.product(sr[i] - x, y)
                    ctx.product(sr[i] + x, y)
        ctx.ge(f"state below {i}", sr[i] * (hi - bar[i]), 0.0)
        ctx.ge(f"state above {i}", sr[i] * (bar[i] - lo), 0.0)
    ctx.eq("inputs are unchanged", list(solver.solve(ctx.array(l), ctx.array(r))[0]), list(flux))


def scalar_degenerate(ctx):
    from finite_volume import scalar as sc

    solver = sc.get_riemann_solver("burgers")
    a, b = ctx.real("a"), ctx.real("b")
    flux, bar = solver.solve(ctx.array([0.0, a]), ctx.array([0.0, b]))
    ctx.eq("state", bar[0], 0.0)
    ctx.eq("flux", flux[0], 0.0)


def adaptive_step(ctx, system, hll=False):
    """the time step the finite volume estimate allows: dx over the largest wave speed"""
    import finite_volume.time_stepping as ts

    n = 3
    if system:
        cells = [state(ctx, f"{i}", G) for i in range(n)]
        arr = ctx.array([[s[2], s[3]] for s in cells])
        solver = swe.RiemannSolver(G, wave_speed=swe.WaveSpeed(G)) if hll else swe.RiemannSolver()
        speeds = [ctx.abs(s[1]) + s[0] for s in cells]
        bc = swe.get_boundary_conditions("periodic")
    else:
        from finite_volume import scalar as sc

        cells = [ctx.real(f"u{i}") for i in range(n)]
        ctx.assume(ctx.abs(cells[0]) >= 0.001)
        arr = ctx.array(cells)
        solver = sc.get_riemann_solver("burgers")
        speeds = [ctx.abs(u) for u in cells]
        bc = core.get_boundary_conditions("periodic")
    dx = 0.5 if hll else ctx.real("dx", lo=0.001)
    dt = ts.OptimalTimeStep(solver, bc, dx)(0.0, arr)
    if hll:
        for i, (c, u, h, q) in enumerate(cells):
            ctx.ge(f"no wave crosses a cell {i}", dx / dt, c + u)
            ctx.ge(f"no wave crosses a cell {i}'", dx / dt, c - u)
        return
    ctx.eq("time step", dt * ctx.max(*speeds), dx)


def instances(tier):
    big = tier == "thorough"
    out = []
    for speed in ("max", "hll"):
        for faces in (1, 2) if not big else (1, 2, 3):
            for sg in (False, True):
                out.append(inst(f"shallow-{speed}-{faces}{'-g' if sg else ''}", shallow, speed=speed, faces=faces, symbolic_g=sg))
        out.append(inst(f"positive-{speed}", positive, speed=speed))
        out.append(inst(f"mirror-{speed}", mirror, speed=speed))
        out.append(inst(f"equal-{speed}", equal, speed=speed))
    out.append(inst("dry", dry))
    out.append(inst("film", film, g=False))
    out.append(inst("film-g", film, g=True))
    out.append(inst("positivity-fix", positivity_fix))
    for problem in ("advection", "burgers"):
        for faces in (1, 2, 3):
            out.append(inst(f"scalar-{problem}-{faces}", scalar, problem=problem, faces=faces))
    out.append(inst("scalar-degenerate", scalar_degenerate))
    out.append(inst("step-swe", adaptive_step, system=True))
    out.append(inst("step-swe-hll", adaptive_step, system=True, hll=True))
    out.append(inst("step-burgers", adaptive_step, system=False))
    return out
