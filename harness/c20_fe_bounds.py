from .common import *
import finite_element
from .c17_fe_indices import expected_neighbours

TITLE = "local maximum principle of the low order and limited finite element schemes"
BOUNDS = ("periodic meshes of 3 and 4 cells with degree 1, 3 cells with degree 2 (thorough: 5 cells of degree 1, 3 of degree 3 for advection); any nodal values, and degrees up to 5 with one nodal value varying in an interval; one Euler step of any size up to the bound the solver itself "
          "computes (largest admissible step)")
OUTSIDE = "steps beyond the bound; meshes of two cells; Burgers data vanishing (below 0.001) at two adjacent nodes; the SSP methods are reduced to Euler steps by C12"
EXPLANATION = ("One explicit Euler step of the real solver is executed symbolically; for every node the solver shows that the new value lies below every M and above every m "
               "bounding the old values of all nodes of the adjacent cells, and that the suggested step is the bound the theory asks for.")


def euler(ctx, key, problem, n, p, node, side):
    dim = n * p
    us = [ctx.real(f"u{i}") for i in range(dim)]
    if problem == "burgers":
        for i in range(dim):  # some motion at every pair of nodes
            ctx.assume(ctx.max(ctx.abs(us[i]), ctx.abs(us[(i + 1) % dim])) >= 1e-3)
    s = make_solver("fem", key, StubScalar(ctx, problem, [0.0] * n), "+p", p, "+o", "euler")
    v = ctx.array(us)
    s.solution.update(0.0, v)
    s._ode_solver.reinitialize(v, s.solution.time)
    dt = ctx.pos("dt")
    # dt <= m_i / (2 |d_ii|) at the node, written without division
    m_i, d = theory(ctx, problem, us, n, p, node)
    ctx.assume(2 * dt * sum(d.values()) <= m_i)
    M = ctx.real("M")
    sg = 1 if side == "max" else -1
    nb = sorted(expected_neighbours(n, p)[node])
    for j in nb:
        ctx.assume(sg * (M - us[j]) >= 0)
    iter(s._time_stepping)
    if ctx.symbolic:
        guide(ctx, key, problem, us, d, M, sg, node, nb, dt, m_i, n, p, s)
    s._update(dt)
    ctx.ge(f"{side} principle at node {node}", sg * (M - s.solution.value[node]), 0.0)


def gradient_rows(n, p):
    basis = lagrange_basis(p)
    dim = n * p
    C = [[Fraction(0)] * dim for _ in range(dim)]
    W = [Fraction(0)] * dim
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for i, gi in enumerate(idx):
            W[gi] += poly_int(basis[i]) * Fraction(DX)
            for j, gj in enumerate(idx):
                C[gi][gj] += poly_int(poly_mul(basis[i], poly_der(basis[j])))
    return C, W


def theory(ctx, problem, us, n, p, i):
    C, W = gradient_rows(n, p)
    d = {}
    for j in range(n * p):
        if j != i and C[i][j]:
            c = abs(float(C[i][j]))
            d[j] = c if problem == "advection" else c * ctx.max(ctx.abs(us[i]), ctx.abs(us[j]))
    return float(W[i]), d


def guide(ctx, key, problem, us, d, M, sg, i, nb, dt, m_i, n, p, s):
    C, W = gradient_rows(n, p)
    for j, dij in d.items():
        gap = sg * (M - us[j])
        cij = float(C[i][j])
        # d_ij - c_ij * average speed and its mirror image are not negative
        a = 1.0 if problem == "advection" else (us[i] + us[j]) / 2
        for sign in (1, -1):
            w = dij + sign * cij * a
            ctx.product(w, gap)
            ctx.product(w, sg * (M - us[i]))
            if ctx.product(w, gap):
                ctx.product(dt, w * gap)
            if ctx.fact(w * sg * (M - us[i])):
                ctx.product(dt, w * sg * (M - us[i]))
        ctx.product(dij, gap)
        ctx.product(dij, sg * (M - us[i]))
    if key == "mcl-fem":
        guide_mcl(ctx, problem, us, d, M, sg, i, dt, n, p, s, C)
    ctx.product(sg * (M - us[i]), m_i - 2 * dt * sum(d.values()))


def guide_mcl(ctx, problem, us, d, M, sg, i, dt, n, p, s, C):
    """the low order bar states lie within the local bounds of both nodes, so that the
    limited ones lie within the bounds of the node considered"""
    loc = {}
    for k in [i, *d]:
        near_k = [us[j] for j in sorted(expected_neighbours(n, p)[k])]
        hi, lo = ctx.max(*near_k), ctx.min(*near_k)
        loc[k] = hi, lo
        for x in near_k:
            ctx.fact(hi - x, x - lo)
    c = loc[i][0 if sg > 0 else 1]
    ctx.fact(sg * (M - c))
    for j, dij in d.items():
        cij = float(C[i][j])
        a = 1.0 if problem == "advection" else (us[i] + us[j]) / 2
        f = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
        for k in (i, j):
            hi, lo = loc[k]
            for x in (us[i], us[j]):
                for g in (hi - x, x - lo):
                    for sign in (1, -1):
                        ctx.product(dij + sign * cij * a, g)
            w = dij * (us[i] + us[j]) - (f(us[j]) - f(us[i])) * cij
            ctx.fact(2 * dij * hi - w, w - 2 * dij * lo)
        ctx.product(dij, sg * (M - c))
    rate = s._right_hand_side(0.0, s.solution.value)[i]
    W = float(gradient_rows(n, p)[1][i])
    total = sum(2 * dij * (c - us[i]) for dij in d.values())
    ctx.fact(sg * (total - W * rate))
    for dij in d.values():
        ctx.product(dij, sg * (c - us[i]))
    slack = sg * (sum(2 * dij * (M - us[i]) for dij in d.values()) - W * rate)
    if ctx.fact(slack):
        ctx.product(dt, slack)


def step_size(ctx, key, problem, n, p):
    """the suggested step is the smallest m_i / (2 |d_ii|)"""
    dim = n * p
    us = [ctx.real(f"u{i}") for i in range(dim)]
    if problem == "burgers":
        for i in range(dim):
            ctx.assume(ctx.max(ctx.abs(us[i]), ctx.abs(us[(i + 1) % dim])) >= 1e-3)
    s = make_solver("fem", key, StubScalar(ctx, problem, [0.0] * n), "+p", p, "++adaptive", "++cfl", "1.0")
    s.solution.update(0.0, ctx.array(us))
    it = iter(s._time_stepping)
    dt = s._time_stepping._time_step_generator()
    bounds = []
    for i in range(dim):
        m_i, d = theory(ctx, problem, us, n, p, i)
        ctx.le(f"admissible at node {i}", dt * 2 * sum(d.values()), m_i * (1 + 1e-9))
        bounds.append(m_i / (2 * sum(d.values())))
    ctx.ge("no smaller than necessary", dt, ctx.min(*bounds) - 1e-9)


def local_extrema(ctx, n, p):
    """the bounds of the limiter are the extreme values of the unknowns of the adjacent cells"""
    space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, DX * n), n), p)
    dim = n * p
    u = [ctx.real(f"u{i}") for i in range(dim)]
    hi = core.LocalMaximum(space.dof_neighbours)(ctx.array(u))
    lo = core.LocalMinimum(space.dof_neighbours)(ctx.array(u))
    for i, nb in enumerate(expected_neighbours(n, p)):
        near_i = [u[j] for j in sorted(nb)]
        ctx.eq(f"maximum {i}", hi[i], ctx.max(*near_i))
        ctx.eq(f"minimum {i}", lo[i], ctx.min(*near_i))


def one_value(ctx, key, problem, n, p, shape, loose, around):
    """one nodal value varies in an interval, all nodes are looked at; any step within the
    bound at every node"""
    dim = n * p
    us = one_varies(ctx, shape, dim, loose, around)
    v = ctx.array(us)
    s = make_solver("fem", key, StubScalar(ctx, problem, [1.0] * n), "+p", p, "+o", "euler")
    s.solution.update(0.0, v)
    s._ode_solver.reinitialize(v, s.solution.time)
    dt = ctx.pos("dt")
    for i in range(dim):
        m_i, d = theory(ctx, problem, us, n, p, i)
        ctx.assume(2 * dt * sum(d.values()) <= m_i)
    iter(s._time_stepping)
    s._update(dt)
    for i, nb in enumerate(expected_neighbours(n, p)):
        near_i = [us[j] for j in sorted(nb)]
        ctx.le(f"maximum {i}", s.solution.value[i], ctx.max(*near_i) + 1e-9)
        ctx.ge(f"minimum {i}", s.solution.value[i], ctx.min(*near_i) - 1e-9)


def instances(tier):
    big = tier == "thorough"
    out = []
    for key in ("cg-low", "mcl-fem"):
        for problem in ("advection", "burgers"):
            sizes = [(3, 1), (4, 1), (3, 2)]
            if big:
                sizes += [(5, 1), (3, 3)] if problem == "advection" else [(5, 1)]
            for n, p in sizes:
                for node in range(n * p if big or n == 3 and p == 1 else min(n * p, p + 1)):
                    for side in ("max", "min"):
                        out.append(inst(f"{key}-{problem}-{n}-{p}-{side}{node}", euler, key=key, problem=problem, n=n, p=p, node=node, side=side))
    for n, p in [(3, 1), (4, 1), (9, 1), (2, 2), (3, 2), (5, 2), (2, 3), (3, 3), (3, 4)]:
        out.append(inst(f"extrema-{n}-{p}", local_extrema, n=n, p=p))
    for problem in ("advection", "burgers"):
        out.append(inst(f"step-size-cg-low-{problem}", step_size, key="cg-low", problem=problem, n=3, p=1))
        out.append(inst(f"step-size-mcl-fem-{problem}", step_size, key="mcl-fem", problem=problem, n=3, p=1))
    for key in ("cg-low", "mcl-fem"):
        for problem in ("advection", "burgers"):
            for k, (n, p) in enumerate(((5, 1), (4, 2), (3, 3), (3, 4), (3, 5)) + (((12, 1), (3, 6), (4, 3)) if big else ())):
                for j, (shape, spots) in enumerate((("rough", (-1.75, 0.125, 1.5)), ("smooth", (0.0, 0.03125)), ("plateau", (0.5, -1.0)))):
                    for around in spots:
                        for loose in range(n * p) if big else ((0, 2 * p - 1) if (j + k) % 2 else (p, n * p - 1)):
                            if p == 5 and not big and key == "mcl-fem" and problem == "burgers":
                                continue
                            out.append(inst(f"one-{key}-{problem}-{n}-{p}-{shape}-{loose}-{around}", one_value, key=key, problem=problem, n=n, p=p, shape=shape, loose=loose, around=around))
    return out
