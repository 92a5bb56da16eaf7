from .common import *
from .c31_bounds import FIXED, ghosted

TITLE = "schemes compute the formulas they are named after"
BOUNDS = ("meshes of 3, 5 and 60 cells with any wet states (h >= 1e-12) over a flat bottom or one with steps of the stated signs, two gravities and cell widths, periodic, wall, outflow and inflow ends, also next to very deep, thin, fast or dry cells; "
          "limited schemes: 7, 9 and 24 cells with one value varying in an interval; finite elements: 3 to 5 cells of degree 1 to 3 (limited: one value varying)")
OUTSIDE = "the antidiffusion of lw (see C32), of which only its sign and the step it uses are claimed; networks; dry cells; the limited shallow water scheme over a bottom and next to closed ends"
EXPLANATION = ("The right hand sides assembled by the real constructors are executed on symbolic cells; the solver shows that every rate equals the formula of the scheme, "
               "written down in the harness cell by cell from the literature the code cites.")


# -- shallow water -----------------------------------------------------------


def physical(h, q, u, g):
    return q, q * u + g * h * h / 2


def raw_flux(ctx, key, L, R, g, dx, gamma, step=0.0):
    """mass and momentum through the face between two states (h, q, u, c)"""
    (h1, q1, u1, c1), (h2, q2, u2, c2) = L, R
    f1, f2 = physical(h1, q1, u1, g), physical(h2, q2, u2, g)
    central = [(a + b) / 2 for a, b in zip(f1, f2)]
    if key == "central":
        return central
    if key == "llf":
        s = ctx.max(ctx.abs(u1) + c1, ctx.abs(u2) + c2)
        return [f - s * (b - a) / 2 for f, a, b in zip(central, (h1, q1), (h2, q2))]
    h, u = (h1 + h2) / 2, (u1 + u2) / 2
    es = [h * u, h * u * u + g * (h1 * h1 + h2 * h2) / 4]
    if key == "es":
        return es
    if key == "es1":
        # R |Lambda| R^T [V] / 2 at the mean of the conserved values
        um = (q1 + q2) / (h1 + h2)
        cm = ctx.sqrt(g * h)
        v = (g * (h2 - h1 + step) - (u2 * u2 - u1 * u1) / 2, u2 - u1)
        slow, fast = um - cm, um + cm
        a, b = ctx.abs(slow) * (v[0] + slow * v[1]), ctx.abs(fast) * (v[0] + fast * v[1])
        return [es[0] - (a + b) / (4 * g), es[1] - (slow * a + fast * b) / (4 * g)]
    raise KeyError(key)


def face_flux(ctx, key, base, L, R, g, dx, gamma, step):
    """what the left cell loses and the right cell gains"""
    if key == "low-order":
        (h1, q1, u1, c1), (h2, q2, u2, c2) = L, R
        s = ctx.max(ctx.abs(u1) + c1, ctx.abs(u2) + c2)
        f1, f2 = physical(h1, q1, u1, g), physical(h2, q2, u2, g)
        h = (h1 + h2) / 2 - (f2[0] - f1[0]) / (2 * s)
        q = (q1 + q2) / 2 - (f2[1] - f1[1]) / (2 * s)
        fix = 0.0
        if step is not None:
            size, sign = step
            fix = sign * ctx.min(size / 2, h)
        u, src = (u1 + u2) / 2, g * (h1 + h2) / 2 * fix / s
        left = (h + fix, q + u * fix - src)
        right = (h - fix, q - u * fix - src)
        return ([f - s * (x - v) for f, x, v in zip(f1, left, (h1, q1))], [f + s * (x - v) for f, x, v in zip(f2, right, (h2, q2))])
    d = 0.0 if step is None else step[0] * step[1]
    f = raw_flux(ctx, base, L, R, g, dx, gamma, d)
    if key == "antidiffusion":
        f = [x + gamma * (b - a) / dx for x, a, b in zip(f, L[:2], R[:2])]
    src = g / 2 * (L[0] + R[0]) / 2 * d
    return [f[0], f[1] + src], [f[0], f[1] - src]


def states(ctx, n, kinds, g, bound):
    few = []
    for k in range(kinds):
        c, u = ctx.pos(f"c{k}"), ctx.real(f"u{k}", lo=-30, hi=30)
        ctx.assume(c * c / g >= bound)
        ctx.assume(c <= 30)
        few.append((c, u))
    return [few[i if kinds >= n else pattern(i, kinds)] for i in range(n)]


def full(c, u, g):
    h = c * c / g
    return h, h * u, u, c


# the mean of the heights of neighbours is a square: 1 + 49 = 2 * 25, 49 + 289 = 2 * 169
CELERITIES = (0.875, 0.125, 0.875, 2.125, 0.875, 0.875, 0.125)


def shallow(ctx, key, n, g=G, bc="periodic", slopes=None, argv=(), dx=DX, kinds=None, loose=None, around=0.0, what="velocity"):
    base = argv[argv.index("+f") + 1] if "+f" in argv else ("llf" if key == "antidiffusion" else key)
    if loose is None:
        cu = states(ctx, n, kinds or n, g, 1e-12)
    else:
        cu = [(CELERITIES[i % 7], FIXED[i % 8][1]) for i in range(n)]
        c, u = cu[loose]
        cu[loose] = (c, ctx.real("u", lo=around - 0.25, hi=around + 0.25)) if what == "velocity" else (ctx.real("c", lo=around - 0.125, hi=around + 0.125), u)
    left, right = (2.0, 0.5), (1.5, -1.0)
    if loose is not None:
        left, right = (0.875, 0.5), (0.875, -1.0)
    ext = [full(*x, g) for x in ghosted(cu, bc, left, right)]
    b, steps = None, [None] * (n + 1)
    if slopes:
        b = sloped_bottom(ctx, slopes)
        ctx.assume(b[0] <= 20)
        ctx.assume(b[0] >= -20)
        for i, sg in enumerate(slopes):
            if sg:
                ctx.assume(ctx.pos(f"step{i}") <= 20)
        steps = [None, *[(ctx.pos(f"step{i}"), sg) if sg else None for i, sg in enumerate(slopes)], None]
        if key == "low-order":
            steps = [x if x else (0.0, 0) for x in steps]
    gamma = ctx.pos("gamma") if key == "antidiffusion" else None
    if gamma is not None:
        ctx.assume(gamma <= 10)
    extra = {"gamma": gamma} if gamma is not None else {}
    s = make_solver("swe", key, StubSWE(ctx, [x[:2] for x in ext[1:-1]], bc=bc, bottom=b, g=g, dx=dx, inflow_left=lambda t: ctx.array(full(*left, g)[:2]),
                                        inflow_right=lambda t: ctx.array(full(*right, g)[:2])), *argv, **extra)
    rates = rhs(s, time=0.0)
    faces = [face_flux(ctx, key, base, L, R, g, dx, gamma, st) for L, R, st in zip(ext, ext[1:], steps)]
    for i in range(n):
        for k, name in enumerate(("mass", "momentum")):
            near(ctx, f"{name} {i}", rates[i][k], (faces[i][1][k] - faces[i + 1][0][k]) / dx, 1e-9)


def extremes(ctx, key, left, right, argv=(), g=1.0, dx=DX):
    """three arbitrary cells between very deep, thin, fast or dry ones: the rates of the middle cell are its neighbours' affair"""
    base = argv[argv.index("+f") + 1] if "+f" in argv else ("llf" if key == "antidiffusion" else key)
    cu = states(ctx, 3, 3, g, 2.0**-26)
    cells = [left, *[(c * c / g, c * c / g * u) for c, u in cu], right]
    gamma = 0.125 if key == "antidiffusion" else None
    s = make_solver("swe", key, StubSWE(ctx, cells, g=g, dx=dx), *argv, **({"gamma": gamma} if gamma else {}))
    rates = rhs(s, time=0.0)
    a, b, c = [full(*x, g) for x in cu]
    first, second = face_flux(ctx, key, base, a, b, g, dx, gamma, None), face_flux(ctx, key, base, b, c, g, dx, gamma, None)
    for k, name in enumerate(("mass", "momentum")):
        near(ctx, name, rates[2][k], (first[1][k] - second[0][k]) / dx, 1e-9)


def loose_states(ctx, n, loose, around, what):
    cu = [FIXED[(i + i // 8) % 8] for i in range(n)]
    c, u = cu[loose]
    cu[loose] = (c, ctx.real("u", lo=around - 0.25, hi=around + 0.25)) if what == "velocity" else (ctx.real("c", lo=around - 0.125, hi=around + 0.125), u)
    return cu


def clip(ctx, x, lo, hi):
    return ctx.max(lo, ctx.min(x, hi))


def limited(ctx, n, loose, around, what, argv=(), bc="periodic"):
    """the limiter of Hajduk and Kuzmin over a flat bottom"""
    base = argv[argv.index("+f") + 1] if argv else "central"
    g = 1.0
    cu = loose_states(ctx, n, loose, around, what)
    ext = [full(*x, g) for x in ghosted(cu, bc, None, None)]
    s = make_solver("swe", "mcl", StubSWE(ctx, [x[:2] for x in ext[1:-1]], bc=bc, g=g), *argv)
    rates = rhs(s, time=0.0)
    faces = []
    for L, R in zip(ext, ext[1:]):
        (h1, q1, u1, c1), (h2, q2, u2, c2) = L, R
        s = ctx.max(ctx.abs(u1) + c1, ctx.abs(u2) + c2)
        f1, f2 = physical(h1, q1, u1, g), physical(h2, q2, u2, g)
        h = (h1 + h2) / 2 - (f2[0] - f1[0]) / (2 * s)
        q = (q1 + q2) / 2 - (f2[1] - f1[1]) / (2 * s)
        low = [(a + b) / 2 - s * (y - x) / 2 for a, b, x, y in zip(f1, f2, (h1, q1), (h2, q2))]
        high = raw_flux(ctx, base, L, R, g, DX, None)
        faces.append((s, h, q, q / h, low, high))
    wrap = lambda f: f % n if bc == "periodic" else f
    flux = {}
    inner = range(n) if bc == "periodic" else range(2, n - 2)
    for f in sorted({x for i in inner for x in (i, i + 1)}):
        s, h, q, v, low, high = faces[f]
        around_l, around_r = (faces[wrap(f - 1)], faces[f]), (faces[f], faces[wrap(f + 1)])
        hmax_l, hmin_l = ctx.max(*[x[1] for x in around_l]), ctx.min(*[x[1] for x in around_l])
        hmax_r, hmin_r = ctx.max(*[x[1] for x in around_r]), ctx.min(*[x[1] for x in around_r])
        vmax_l, vmin_l = ctx.max(*[x[3] for x in around_l]), ctx.min(*[x[3] for x in around_l])
        vmax_r, vmin_r = ctx.max(*[x[3] for x in around_r]), ctx.min(*[x[3] for x in around_r])
        fh = clip(ctx, high[0] - low[0], s * ctx.max(hmin_r - h, h - hmax_l), s * ctx.min(hmax_r - h, h - hmin_l))
        hr, hl = h + fh / s, h - fh / s
        shift = s * (q - hr * v)
        fq = clip(ctx, high[1] - low[1] + shift, s * ctx.max(hr * (vmin_r - v), hl * (v - vmax_l)), s * ctx.min(hr * (vmax_r - v), hl * (v - vmin_l))) - shift
        flux[f] = (low[0] + fh, low[1] + fq)
    for i in inner:
        for k, name in enumerate(("mass", "momentum")):
            near(ctx, f"{name} {i}", rates[i][k], (flux[i][k] - flux[i + 1][k]) / DX, 1e-8)


def lax_wendroff(ctx, around):
    """less diffusive than llf, by an amount which belongs to the step taken"""
    g = 1.0
    h = ctx.real("h", lo=around - 0.25, hi=around + 0.25)
    cells = [(h, 0.0), (h, 0.0), (1.0, 0.0), (1.0, 0.0)]
    build = lambda key: make_solver("swe", key, StubSWE(ctx, cells, bc=("wall", "wall"), g=g))
    lw, fresh, llf = build("lw"), build("lw"), build("llf")
    for s in (lw, fresh, llf):
        iter(s._time_stepping)
    start = ctx.array([list(x) for x in cells])
    lw._update(0.0625)
    lw.solution.update(0.0, start)
    lw._ode_solver.reinitialize(start, lw.solution.time)
    lw._update(0.03125)
    fresh._update(0.03125)
    for i in range(4):
        for k in range(2):
            near(ctx, f"step in effect {i} {k}", lw.solution.value[i][k], fresh.solution.value[i][k], 1e-9)
    dt = 0.03125
    rate = rhs(llf, value=start)
    ctx.ge("less water leaves the deep cell than with llf", lw.solution.value[1][0] - (h + dt * rate[1][0]), 0.0001)
    ctx.le("less water enters the shallow cell than with llf", lw.solution.value[2][0] - (1.0 + dt * rate[2][0]), -0.0001)


# -- scalar --------------------------------------------------------------------


def scalar_fv(ctx, key, problem, n, bc="periodic", kinds=None, loose=None, around=0.0, dx=DX):
    if loose is None:
        few = [ctx.real(f"u{k}", lo=-50, hi=50) for k in range(kinds or n)]
        us = [few[i if len(few) >= n else pattern(i, kinds)] for i in range(n)]
    else:
        us = [(1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5)[i % 7] for i in range(n)]
        us[loose] = ctx.real("u", lo=around - 0.25, hi=around + 0.25)
    left, right = 0.75, -0.25
    kind = (bc, bc) if isinstance(bc, str) else bc
    ends = [{"periodic": us[-1], "outflow": us[0], "inflow": left}[kind[0]], {"periodic": us[0], "outflow": us[-1], "inflow": right}[kind[1]]]
    ext = [ends[0], *us, ends[1]]
    s = make_solver("scalar", key, StubScalar(ctx, problem, us, bc=bc, dx=dx, inflow_left=lambda t: left, inflow_right=lambda t: right))
    rates = rhs(s, time=0.0)
    f = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
    speed = (lambda a, b: 1.0) if problem == "advection" else (lambda a, b: ctx.max(ctx.abs(a), ctx.abs(b)))
    flux = []
    for i, (a, b) in enumerate(zip(ext, ext[1:])):
        central = (f(a) + f(b)) / 2
        sp = speed(a, b)
        low = central - sp * (b - a) / 2
        if key == "mcl-fv":
            # bounds of a cell: its own value and its neighbours'
            full = ext if kind[0] != "periodic" else [us[-2], *ext, us[1]]
            o = i + (1 if kind[0] == "periodic" else 0)
            L, R = full[max(o - 1, 0): o + 2], full[o: o + 3]
            times_bar = sp * (a + b) / 2 - (f(b) - f(a)) / 2
            low = low + clip(ctx, central - low, ctx.max(sp * ctx.min(*R) - times_bar, times_bar - sp * ctx.max(*L)), ctx.min(sp * ctx.max(*R) - times_bar, times_bar - sp * ctx.min(*L)))
        flux.append(central if key == "central" else low)
    for i in range(n):
        near(ctx, f"rate {i}", rates[i], (flux[i] - flux[i + 1]) / dx, 1e-9)


# -- finite elements ---------------------------------------------------------


def matrices(n, p, dx):
    basis = lagrange_basis(p)
    dim = n * p
    M, C = [[Fraction(0)] * dim for _ in range(dim)], [[Fraction(0)] * dim for _ in range(dim)]
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for i, gi in enumerate(idx):
            for j, gj in enumerate(idx):
                M[gi][gj] += Fraction(dx) * poly_int(poly_mul(basis[i], basis[j]))
                C[gi][gj] += poly_int(poly_mul(basis[i], poly_der(basis[j])))
    return M, C


def exact_burgers(us, n, p):
    """integrals of u^2 / 2 times the derivative of the basis function"""
    basis, dim = lagrange_basis(p), n * p
    out = [0.0] * dim
    triple = {}
    for i in range(p + 1):
        for j in range(p + 1):
            for k in range(p + 1):
                triple[i, j, k] = float(poly_int(poly_mul(poly_mul(basis[i], basis[j]), poly_der(basis[k]))))
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for k in range(p + 1):
            out[idx[k]] = out[idx[k]] + sum(us[idx[i]] * us[idx[j]] * triple[i, j, k] for i in range(p + 1) for j in range(p + 1)) / 2
    return out


def elements(ctx, key, problem, n, p, exact=False, dx=DX, loose=None, around=0.0):
    dim = n * p
    if loose is None:
        us = [ctx.real(f"u{i}", lo=-50, hi=50) for i in range(dim)]
    else:
        us = [(1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5)[i % 7] for i in range(dim)]
        us[loose] = ctx.real("u", lo=around - 0.25, hi=around + 0.25)
    f = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
    M, C = matrices(n, p, dx)
    s = make_solver("fem", key, StubScalar(ctx, problem, [0.0] * n, dx=dx), "+p", p, *(["++exact-flux"] if exact else []))
    rates = rhs(s, time=0.0, value=ctx.array(us))
    lumped = [float(sum(M[i])) for i in range(dim)]
    fs = [f(u) for u in us]
    if key == "cg":
        # M r = - C f(u), or the integrals themselves
        want = exact_burgers(us, n, p) if exact and problem == "burgers" else [-sum(float(C[i][j]) * fs[j] for j in range(dim) if C[i][j]) for i in range(dim)]
        for i in range(dim):
            got = sum(float(M[i][j]) * rates[j] for j in range(dim) if M[i][j])
            near(ctx, f"weak form {i}", got, want[i], 1e-8)
        return
    d = {}
    for i in range(dim):
        for j in range(dim):
            if i != j and C[i][j]:
                c, c2 = abs(float(C[i][j])), abs(float(C[j][i]))
                d[i, j] = max(c, c2) if problem == "advection" else ctx.max(c * ctx.abs(us[j]), c2 * ctx.abs(us[i]))
    low = []
    for i in range(dim):
        low.append(sum(d[a, j] * (us[j] - us[i]) - float(C[i][j]) * (fs[j] - fs[i]) for a, j in d if a == i) / lumped[i])
    if key == "cg-low":
        for i in range(dim):
            near(ctx, f"rate {i}", rates[i], low[i], 1e-9)
        return
    ext = [([us[j] for j in range(dim) if j == i or any({i, j} <= set((c * p + l) % dim for l in range(p + 1)) for c in range(n))]) for i in range(dim)]
    hi, lo = [ctx.max(*e) for e in ext], [ctx.min(*e) for e in ext]
    total = list(x * m for x, m in zip(low, lumped))
    for i in range(dim):
        for j in range(dim):
            if j == i or not any({i, j} <= set((c * p + l) % dim for l in range(p + 1)) for c in range(n)):
                continue
            dij = d.get((i, j), 0.0)
            c = float(C[i][j])
            target = float(M[i][j]) * (low[i] - low[j]) + dij * (us[i] - us[j])
            wij = dij * (us[i] + us[j]) - c * (fs[j] - fs[i])
            total[i] = total[i] + clip(ctx, target, ctx.max(2 * dij * lo[i] - wij, wij - 2 * dij * hi[j]), ctx.min(2 * dij * hi[i] - wij, wij - 2 * dij * lo[j]))
    for i in range(dim):
        near(ctx, f"rate {i}", rates[i], total[i] / lumped[i], 1e-8)


def instances(tier):
    big = tier == "thorough"
    out = []
    ends = ("periodic", ("wall", "wall"), ("outflow", "outflow"), ("inflow", "wall"), ("outflow", "inflow"))
    tag = lambda bc: bc if isinstance(bc, str) else "-".join(bc)
    for key, argv in (("llf", ()), ("central", ()), ("es", ()), ("low-order", ()), ("antidiffusion", ()), ("antidiffusion", ("+f", "es")), ("antidiffusion", ("+f", "central"))):
        name = "-".join([key, *argv[1:]])
        for k, bc in enumerate(ends):
            out.append(inst(f"{name}-{tag(bc)}", shallow, key=key, n=3, bc=bc, argv=argv))
            if big or k < 2:
                out.append(inst(f"{name}-{tag(bc)}-other", shallow, key=key, n=5, bc=bc, argv=argv, g=2.0, dx=0.0625))
            if big or k < 3:
                for sl in ((1, -1), (-1, 1), (1, 1), (-1, -1), (1, 0)) if big or k == 0 else ((1, -1),):
                    out.append(inst(f"{name}-{tag(bc)}-bottom{''.join('-0+'[x + 1] for x in sl)}", shallow, key=key, n=3, bc=bc, argv=argv, slopes=sl))
        out.append(inst(f"{name}-wide", shallow, key=key, n=60, argv=argv, kinds=3))
    for key, argv in (("llf", ()), ("central", ()), ("es", ()), ("low-order", ()), ("antidiffusion", ())):
        for kind, (left, right) in (("deep", ((65536.0, 0.0), (4096.0, 512.0))), ("dry", ((0.0, 0.0), (0.0, 0.0))), ("thin", ((1e-6, 0.0), (2e-6, 1e-6))), ("fast", ((1.0, 900.0), (0.25, -100.0)))):
            out.append(inst(f"{key}-amid-{kind}", extremes, key=key, left=left, right=right, argv=argv))
    for what, spots in (("velocity", (-2.0, 0.5, 3.0, 0.0)), ("height", (0.875, 1.5))):
        for k, bc in enumerate(ends):
            for around in spots:
                for loose in (0, 3, 6) if big or not k else (0, 6):
                    out.append(inst(f"es1-{what}-{tag(bc)}-{loose}-{around}", shallow, key="es1", n=7, g=2.0, bc=bc, loose=loose, around=around, what=what))
    for around in (-2.0, 0.5, 3.0):
        for sl in ((1, -1), (-1, 1), (1, 1)):
            out.append(inst(f"es1-bottom{''.join('-0+'[x + 1] for x in sl)}-{around}", shallow, key="es1", n=3, g=2.0, slopes=sl, loose=1, around=around))
    for what, spots in (("velocity", (-2.0, 0.5, 3.0)), ("height", (0.75, 1.5))):
        for loose in range(0, 7, 1 if big else 3):
            for around in spots:
                for argv in ((), ("+f", "es"), ("+f", "llf")):
                    if argv and not big and loose != 3:
                        continue
                    out.append(inst("-".join(["mcl", what, str(loose), str(around), *argv[1:]]), limited, n=7, loose=loose, around=around, what=what, argv=argv))
        for bc in (("wall", "wall"), ("outflow", "outflow")):
            out.append(inst(f"mcl-{what}-{tag(bc)}", limited, n=9, loose=4, around=spots[0], what=what, bc=bc))
        out.append(inst(f"mcl-{what}-wide", limited, n=24, loose=11, around=spots[-1], what=what))
    for around in (1.5, 2.0, 4.0):
        out.append(inst(f"lw-{around}", lax_wendroff, around=around))
    for problem in ("advection", "burgers"):
        for key in ("llf", "central"):
            for bc in ("periodic", ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow")):
                out.append(inst(f"scalar-{key}-{problem}-{tag(bc)}", scalar_fv, key=key, problem=problem, n=4, bc=bc))
            out.append(inst(f"scalar-{key}-{problem}-wide", scalar_fv, key=key, problem=problem, n=100, kinds=3, dx=0.125))
        for bc in ("periodic", ("outflow", "outflow"), ("inflow", "outflow")):
            for loose in (0, 3, 6) if not big else range(7):
                for around in (-2.0, 0.125, 1.0):
                    out.append(inst(f"mcl-fv-{problem}-{tag(bc)}-{loose}-{around}", scalar_fv, key="mcl-fv", problem=problem, n=7, bc=bc, loose=loose, around=around))
        out.append(inst(f"mcl-fv-{problem}-wide", scalar_fv, key="mcl-fv", problem=problem, n=40, loose=17, around=0.5))
        for n, p in ((3, 1), (5, 1), (3, 2), (3, 3)) + (((4, 2), (4, 3), (3, 4)) if big else ()):
            for exact in (False, True):
                out.append(inst(f"cg-{problem}-{n}-{p}{'-exact' if exact else ''}", elements, key="cg", problem=problem, n=n, p=p, exact=exact, dx=0.25 if n == 5 else DX))
            out.append(inst(f"cg-low-{problem}-{n}-{p}", elements, key="cg-low", problem=problem, n=n, p=p, dx=0.25 if n == 5 else DX))
            for loose in (0, 1, n * p - 1) if not big else range(n * p):
                for around in (-2.0, 0.125, 1.5):
                    out.append(inst(f"mcl-fem-{problem}-{n}-{p}-{loose}-{around}", elements, key="mcl-fem", problem=problem, n=n, p=p, loose=loose, around=around, dx=0.25 if n == 5 else DX))
    return out
