from .common import *
import finite_element as fe
from command.error import EOCCalculator, ErrorCalculator

TITLE = "norms, errors and convergence orders are what they are called"
BOUNDS = ("domains of any position and length, meshes of 1 to 4 cells, scalar and two component values, finite element degrees 1 to 3, "
          "any cell or nodal values in [-2, 2], one to three refinements with any errors")
OUTSIDE = "maximum norms of curved finite element functions (sampled by design); rounding of quadrature nodes (tolerance 1e-8)"
EXPLANATION = ("The norms and error calculators are executed with symbolic meshes and values; the solver shows that they equal the integrals, maxima and logarithms "
               "they stand for.")
TOL = 1e-8


def mesh_of(ctx, n):
    a = ctx.real("a", lo=-10, hi=10)
    length = ctx.real("L", lo=0.1, hi=10)
    return core.UniformMesh(core.Interval(a, a + length), n), a, length


def cell_values(ctx, n, comps, name="u"):
    rows = [[ctx.real(f"{name}{i}_{j}", lo=-2, hi=2) for j in range(comps or 1)] for i in range(n)]
    return rows, ctx.array(rows if comps else [r[0] for r in rows])


def column(x, j, comps):
    return x[j] if comps else x


def finite_volume_norms(ctx, n, comps, degree):
    mesh, a, length = mesh_of(ctx, n)
    space = finite_volume.FiniteVolumeSpace(mesh)
    rows, v = cell_values(ctx, n, comps)
    e = space.element(v)
    l1, l2 = core.L1Norm(mesh, quadrature_degree=degree)(e), core.L2Norm(mesh, quadrature_degree=degree)(e)
    sup, few = core.solver_spaces(mesh)(e), core.solver_spaces(mesh, points_per_cell=3)(e)
    for j in range(comps or 1):
        us = [r[j] for r in rows]
        x = column(l2, j, comps)
        near(ctx, f"L1 {j}", column(l1, j, comps), sum(ctx.abs(u) for u in us) * length / n, TOL)
        near(ctx, f"L2 {j}", x * x, sum(u * u for u in us) * length / n, TOL)
        ctx.ge(f"L2 sign {j}", x, 0.0)
        top = ctx.max(*[ctx.abs(u) for u in us]) if n > 1 else ctx.abs(us[0])
        ctx.eq(f"Linf {j}", column(sup, j, comps), top)
        ctx.eq(f"Linf of few points {j}", column(few, j, comps), top)


def finite_element_norms(ctx, n, p):
    mesh, a, length = mesh_of(ctx, n)
    space = fe.LagrangeSpace(mesh, p)
    dim = n * p
    v = [ctx.real(f"u{i}", lo=-2, hi=2) for i in range(dim)]
    e = space.element(ctx.array(v))
    x = core.L2Norm(mesh, quadrature_degree=p + 1)(e)
    basis = lagrange_basis(p)
    M = [[poly_int(poly_mul(f, g)) for g in basis] for f in basis]
    want = 0
    for c in range(n):
        local = [v[(c * p + i) % dim] for i in range(p + 1)]
        for f in range(p + 1):
            for g in range(p + 1):
                want = want + local[f] * local[g] * float(M[f][g])
    near(ctx, "L2", x * x / length * n, want, TOL)
    if p == 1:
        ctx.eq("Linf", core.solver_spaces(mesh, points_per_cell=2)(e), ctx.max(*[ctx.abs(u) for u in v]))


def linear_sup(ctx, n):
    """the maximum norm sees both ends of every cell"""
    mesh, a, length = mesh_of(ctx, n)
    s, t = [ctx.real(f"s{i}") for i in range(n)], [ctx.real(f"t{i}") for i in range(n)]
    f = lambda c, x: s[c] + t[c] * (x - a) / length
    ends = [s[c] + t[c] * (c + k) / n for c in range(n) for k in (0, 1)]
    ctx.eq("Linf", core.solver_spaces(mesh, points_per_cell=2)(f), ctx.max(*[ctx.abs(x) for x in ends]))


def polynomial_l1(ctx, n, degree):
    """the L1 norm of nonnegative polynomials is their integral, the L2 norm exact up to the degree"""
    mesh, a, length = mesh_of(ctx, n)
    c = [ctx.real(f"c{k}", lo=0, hi=1) for k in range(2 * degree)]
    y = lambda x: (x - a) / length

    def f(i, x):
        r = 0.0
        for k in reversed(c):
            r = r * y(x) + k
        return r

    near(ctx, "L1", core.L1Norm(mesh, quadrature_degree=degree)(f) / length, sum(k / (i + 1) for i, k in enumerate(c)), TOL)
    d = [ctx.real(f"d{k}", lo=-1, hi=1) for k in range(degree)]

    def g(i, x):
        r = 0.0
        for k in reversed(d):
            r = r * y(x) + k
        return r

    l2 = core.L2Norm(mesh, quadrature_degree=degree)(g)
    near(ctx, "L2", l2 * l2 / length, sum(p * q / (i + j + 1) for i, p in enumerate(d) for j, q in enumerate(d)), TOL)


class Stub:
    def __init__(self, value, time=0.0, space=None):
        self.value, self.time, self.space = value, time, space
        self.dimension = len(value)


def error(ctx, n, comps, norm, against):
    mesh, a, length = mesh_of(ctx, n)
    space = finite_volume.FiniteVolumeSpace(mesh)
    rows, v = cell_values(ctx, n, comps)
    t = ctx.real("t")
    kinds = {"L1": core.L1Norm, "L2": core.L2Norm, "Linf": core.solver_spaces, None: None}
    calc = ErrorCalculator(space, kinds[norm](mesh)) if norm else ErrorCalculator(space)
    sol = core.DiscreteSolution(v, initial_time=t, space=space)
    if against == "solution":
        other, w = cell_values(ctx, n, comps, "w")
        time, err = calc(core.DiscreteSolution(w, initial_time=t, space=space), sol)
    else:
        k = [ctx.real(f"k{j}", lo=-2, hi=2) for j in range(comps or 1)]
        exact = (lambda x: ctx.array(k)) if comps else (lambda x: k[0])
        other = [k] * n
        time, err = calc(exact, sol)
    ctx.eq("time", time, t)
    for j in range(comps or 1):
        d = [r[j] - o[j] for r, o in zip(rows, other)]
        x = column(err, j, comps)
        if norm == "L1":
            near(ctx, f"error {j}", x, sum(ctx.abs(y) for y in d) * length / n, TOL)
        elif norm == "Linf":
            ctx.eq(f"error {j}", x, ctx.max(*[ctx.abs(y) for y in d]))
        else:
            near(ctx, f"error {j}", x * x, sum(y * y for y in d) * length / n, TOL)
            ctx.ge(f"error sign {j}", x, 0.0)


class Solver:
    def __init__(self, solution):
        self.solution = solution


class Given(core.Norm):
    """norms with given results, one for every mesh"""
    table = {}

    def __call__(self, function):
        return type(self).table[len(self._mesh)]


def orders(ctx, refinements):
    kinds = []
    values = [[ctx.pos(f"e{k}_{i}") for i in range(refinements + 1)] for k in range(3)]
    for k in range(3):
        kinds.append(type(f"Given{k}", (Given,), {"name": f"N{k}", "table": {2 ** (i + 1): values[k][i] for i in range(refinements + 1)}}))
    bench = StubScalar(ctx, "advection", [0.0])
    bench.exact_solution_at_end_time = lambda x: 0.0
    spaces = [finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2 ** (i + 1))) for i in range(refinements + 1)]
    solvers = [Solver(core.DiscreteSolution(np.zeros(2 ** (i + 1)), space=s)) for i, s in enumerate(spaces)]
    calc = EOCCalculator(bench, norms=kinds)
    dofs, errors, eocs = calc(solvers, spaces)
    ctx.eq("names", len(calc.norm_names), 3)
    ctx.eq("unknowns", dofs, [2.0 ** (i + 1) for i in range(refinements + 1)])
    for k in range(3):
        ctx.true(f"no order for the first mesh {k}", bool(np.isnan(eocs[k][0])) if not hasattr(eocs[k][0], "p") else False)
        for i in range(refinements + 1):
            ctx.eq(f"error {k}.{i}", errors[k][i], values[k][i])
            if i:
                ctx.eq(f"order {k}.{i}", eocs[k][i], ctx.fn("log2", values[k][i - 1] / values[k][i]))


def table(ctx, family):
    """the errors of the table are the three norms of exact minus discrete solution at the end time"""
    n = 2
    T = ctx.real("T", lo=0.1, hi=5)
    s = ctx.real("s", lo=-1, hi=1)
    bench = StubScalar(ctx, "advection", [0.0], end_time=T)
    bench.exact_solution = lambda x, t: s * t * x
    mesh = core.UniformMesh(core.Interval(0, 1), n)
    space = finite_volume.FiniteVolumeSpace(mesh) if family == "fv" else fe.LagrangeSpace(mesh, 1)
    u = [ctx.real(f"u{i}", lo=-2, hi=2) for i in range(n)]
    sol = core.DiscreteSolution(ctx.array(u), initial_time=T, space=space)
    dofs, errors, eocs = EOCCalculator(bench)([Solver(sol)], [space])
    r = s * T
    if family == "fv":
        at = [(i, (i + 0.5) / n, 0.5) for i in range(n)]
        l1 = sum(ctx.abs(r * x - u[i]) * w for i, x, w in at)
        l2 = sum((r * x - u[i]) * (r * x - u[i]) * w for i, x, w in at)
        near(ctx, "L1", errors[0][0], l1, TOL)
        near(ctx, "L2", errors[1][0] * errors[1][0], l2, TOL)
    else:
        # linear on both cells: (0, u0) .. (1/2, u1) .. (1, u0)
        d = [0 - u[0], r / 2 - u[1], r / 2 - u[1], r - u[0]]
        l2 = (d[0] * d[0] + d[0] * d[1] + d[1] * d[1] + d[2] * d[2] + d[2] * d[3] + d[3] * d[3]) / 6
        near(ctx, "L2", errors[1][0] * errors[1][0], l2, TOL)
    sup = errors[2][0]
    ends = [(0, 0.0), (0, 0.5), (1, 0.5), (1, 1.0)]
    for i, x in ends:
        v = u[i] if family == "fv" else [u[0], u[1]][int(x * 2) % 2]
        ctx.ge(f"Linf bounds the error at {x} of cell {i}", sup, ctx.abs(r * x - v))
    ctx.le("Linf is attained", sup, ctx.max(*[ctx.abs(r * x - (u[i] if family == "fv" else u[int(x * 2) % 2])) for i, x in ends]))


def instances(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3) + ((4,) if big else ()):
        for comps in (0, 2):
            for degree in (None, 2, 3):
                out.append(inst(f"fv-{n}-{comps}-{degree or 1}", finite_volume_norms, n=n, comps=comps, degree=degree))
        out.append(inst(f"linear-{n}", linear_sup, n=n))
        for degree in (1, 2, 3, 4):
            out.append(inst(f"polynomial-{n}-{degree}", polynomial_l1, n=n, degree=degree))
    for n, p in ((2, 1), (3, 1), (1, 2), (2, 2), (2, 3)):
        out.append(inst(f"fem-{n}-{p}", finite_element_norms, n=n, p=p))
    for norm in ("L1", "L2", "Linf", None):
        for comps in (0, 2):
            for against in ("solution", "function"):
                out.append(inst(f"error-{norm or 'default'}-{comps}-{against}", error, n=2, comps=comps, norm=norm, against=against))
    for k in (1, 2, 3):
        out.append(inst(f"orders-{k}", orders, refinements=k))
    for family in ("fv", "fem"):
        out.append(inst(f"table-{family}", table, family=family))
    return out
