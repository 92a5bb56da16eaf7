from .common import *
import finite_element as fe

TITLE = "data, bases and quadratures represent functions exactly"
BOUNDS = ("intervals and domains starting anywhere in [-10, 10] of any length between 0.1 and 10, meshes of 1 to 4 cells, polynomials with any coefficients in [-1, 1] "
          "up to the degree of exactness, polynomial degrees 1 to 6, quadratures of 1 to 8 nodes, any point of a cell")
OUTSIDE = "data that are no polynomials (their interpolation error is no claim of the software); rounding of nodes and weights (tolerance 1e-8)"
EXPLANATION = ("Interpolation, bases, elements and quadratures are executed with symbolic intervals, coefficients and points; the solver shows that results agree with "
               "the exact polynomial calculus up to the rounding of the tabulated nodes.")
TOL = 1e-8


def interval(ctx):
    a = ctx.real("a", lo=-10, hi=10)
    length = ctx.real("L", lo=0.1, hi=10)
    return core.Interval(a, a + length), a, length


def scaled(ctx, coefs, a, length):
    """polynomial in the coordinate running from 0 to 1"""

    def f(x):
        y, r = (x - a) / length, 0.0
        for c in reversed(coefs):
            r = r * y + c
        return r

    return f


def coefficients(ctx, n, name="c"):
    return [ctx.real(f"{name}{k}", lo=-1, hi=1) for k in range(n)]


def piece(coefs, lo, hi):
    """mean over [lo, hi] of the polynomial"""
    return sum(c * float((hi ** (k + 1) - lo ** (k + 1)) / (k + 1) / (hi - lo)) for k, c in enumerate(coefs))


def quadrature(ctx, n):
    dom, a, length = interval(ctx)
    q = core.GaussianQuadrature(n, dom)
    c = coefficients(ctx, 2 * n)
    near(ctx, "integral", q.integrate(scaled(ctx, c, a, length)), length * piece(c, Fraction(0), Fraction(1)), 10 * TOL)
    near(ctx, "weights", sum(q.weights), length, TOL)
    ctx.eq("number of nodes", len(q.nodes), n)
    for i, (x, w) in enumerate(zip(q.nodes, q.weights)):
        ctx.ge(f"positive weight {i}", w, length * 1e-3)
        ctx.ge(f"node inside {i}", x, a)
        ctx.le(f"node inside {i}'", x, a + length)
        near(ctx, f"symmetric node {i}", x + q.nodes[n - 1 - i], 2 * a + length, TOL)
        near(ctx, f"symmetric weight {i}", w, q.weights[n - 1 - i], TOL)
        if i:
            ctx.ge(f"increasing {i}", x - q.nodes[i - 1], 0.0)


def local_quadrature(ctx, n):
    q = core.LocalElementQuadrature(n)
    c = coefficients(ctx, 2 * n)
    near(ctx, "integral", q.integrate(scaled(ctx, c, 0.0, 1.0)), piece(c, Fraction(0), Fraction(1)), TOL)
    ctx.eq("domain", [q.domain.a, q.domain.b], [0.0, 1.0])
    s = core.SpecificGaussianQuadrature(n)
    ctx.eq("standard domain", [s.domain.a, s.domain.b], [-1.0, 1.0])


def averages(ctx, n, degree, components):
    dom, a, length = interval(ctx)
    mesh = core.UniformMesh(dom, n)
    cs = [coefficients(ctx, degree + 1, f"c{j}_") for j in range(components or 1)]
    fs = [scaled(ctx, c, a, length) for c in cs]
    f = (lambda x: ctx.array([g(x) for g in fs])) if components else (lambda x: fs[0](x) + 0.0)
    v = core.CellAverageInterpolator(mesh, 2).interpolate(f)
    for i in range(n):
        for j, c in enumerate(cs):
            near(ctx, f"mean {i}.{j}", v[i][j] if components else v[i], piece(c, Fraction(i, n), Fraction(i + 1, n)), TOL)


def singular(ctx, n):
    """data that are not defined at zero, on a domain which does not contain it"""
    a, length = ctx.real("a", lo=0.5, hi=10), ctx.real("L", lo=0.1, hi=10)
    mesh = core.UniformMesh(core.Interval(a, a + length), n)
    cs = [coefficients(ctx, 3, f"c{j}_") for j in range(2)]
    fs = [scaled(ctx, c, a, length) for c in cs]

    for bad in ("nan", "inf", "-inf"):
        def f(x):
            if bool(x == 0):
                return np.array([1.0, float(bad)])
            return ctx.array([g(x) for g in fs])

        v = core.CellAverageInterpolator(mesh, 2).interpolate(f)
        ctx.eq(f"shape {bad}", list(np.shape(v)), [n, 2])
        for i in range(n):
            for j, c in enumerate(cs):
                near(ctx, f"mean {i}.{j} {bad}", v[i][j], piece(c, Fraction(i, n), Fraction(i + 1, n)), TOL)
        xs = [a, a + length]
        w = core.NodeValuesInterpolator(*xs).interpolate(f)
        for i, x in enumerate(xs):
            ctx.eq(f"value {i} {bad}", w[i], [g(x) for g in fs])


def node_values(ctx, n, components):
    xs = [ctx.real(f"x{i}") for i in range(n)]
    k = [ctx.real(f"k{j}") for j in range(components or 1)]
    f = (lambda x: ctx.array([c * x * x for c in k])) if components else (lambda x: k[0] * x * x + 0.0)
    v = core.NodeValuesInterpolator(*xs).interpolate(f)
    for i, x in enumerate(xs):
        for j, c in enumerate(k):
            ctx.eq(f"value {i}.{j}", v[i][j] if components else v[i], c * x * x)


def start(ctx, family, key, n, p, degree, system=False):
    """the data a solver starts with"""
    dom, a, length = interval(ctx)
    cs = [coefficients(ctx, degree + 1, f"c{j}_") for j in range(2 if system else 1)]
    if system:
        cs[0][0] = cs[0][0] + degree + 3.0  # wet
    fs = [scaled(ctx, c, a, length) for c in cs]
    t0 = ctx.real("t0", lo=-5, hi=5)
    if system:
        b = StubSWE(ctx, [None] * n, start_time=t0, end_time=t0 + 1)
        b.initial_data = lambda x: ctx.array([g(x) for g in fs])
    else:
        b = StubScalar(ctx, "advection", [None] * n, start_time=t0, end_time=t0 + 1)
        b.initial_data = lambda x: fs[0](x) + 0.0
    b.domain = dom
    s = make_solver(family, key, b, *(("+p", p) if family == "fem" else ()))
    ctx.eq("time", s.solution.time, t0)
    v = s.solution.value
    grid = s.solution.grid
    if family == "fem":
        ctx.eq("size", len(v), n * p)
        for i in range(n * p):
            y = Fraction(i, n * p)
            near(ctx, f"node {i}", grid[i], a + length * float(y), TOL)
            near(ctx, f"value {i}", v[i], scaled(ctx, cs[0], 0.0, 1.0)(float(y)), TOL)
        e = s.solution.space.element(v)
        for c in range(n - 1):
            t = ctx.real("t", lo=0, hi=1)
            x = a + length * (c + t) / n
            if degree <= p:
                near(ctx, f"reproduced in cell {c}", e(c, x), fs[0](x), 10 * TOL)
    else:
        ctx.eq("size", len(v), n)
        for i in range(n):
            near(ctx, f"centre {i}", grid[i], a + length * (2 * i + 1) / (2 * n), TOL)
            for j, c in enumerate(cs):
                near(ctx, f"mean {i}.{j}", v[i][j] if system else v[i], piece(c, Fraction(i, n), Fraction(i + 1, n)), TOL)


def basis(ctx, p):
    b = fe.LocalLagrangeBasis(p)
    want = lagrange_basis(p)
    x = ctx.real("x", lo=0, hi=1)
    ctx.eq("size", len(b), p + 1)
    tol = TOL * 10 ** max(0, p - 4)
    elements = list(b)
    for i in range(p + 1):
        w = ctx.real(f"w{i}", lo=-1, hi=1)
        near(ctx, f"value {i}", elements[i](x), poly_at(want[i], x), tol)
        near(ctx, f"derivative {i}", elements[i].derivative(x), poly_at(poly_der(want[i]), x), 10 * tol)
        near(ctx, f"same element {i}", b[i](x), elements[i](x), 0.0)
        near(ctx, f"node {i}", b.nodes[i], float(Fraction(i, p)), 1e-15)
        near(ctx, f"element at node {i}", b.get_element_at_node(b.nodes[i])(x), elements[i](x), 0.0)
    near(ctx, "partition of unity", sum(e(x) for e in elements), 1.0, tol)


def element(ctx, n, p):
    """values and derivatives of finite elements, by point and by table"""
    dom, a, length = interval(ctx)
    s = fe.LagrangeSpace(core.UniformMesh(dom, n), p)
    dim = n * p
    v = ctx.array([ctx.real(f"v{i}", lo=-1, hi=1) for i in range(dim)])
    t = ctx.real("t", lo=0, hi=1)
    want = lagrange_basis(p)
    e = s.element(v)
    for c in range(n):
        local = [v[(c * p + i) % dim] for i in range(p + 1)]
        x = a + length * (c + t) / n
        near(ctx, f"value in cell {c}", e(c, x), sum(u * poly_at(q, t) for u, q in zip(local, want)), TOL)
        near(ctx, f"derivative in cell {c}", e.derivative(c, x) * length, n * sum(u * poly_at(poly_der(q), t) for u, q in zip(local, want)), 100 * TOL)
    q = core.LocalElementQuadrature(p + 1)
    for name, fast, nodes in (("quadrature", fe.space.QuadratureFastElement(s, q), q.nodes),
                              ("anchor", fe.space.AnchorNodesFastFiniteElement(s), [float(Fraction(i, p)) for i in range(p + 1)])):
        fast.set_values()
        fast.set_derivatives()
        for again, vec in enumerate((v, ctx.array([ctx.real(f"z{i}", lo=-1, hi=1) for i in range(dim)]))):
            fast.dof_vector = vec
            for c in range(n):
                local = [vec[(c * p + i) % dim] for i in range(p + 1)]
                for k, y in enumerate(nodes):
                    near(ctx, f"{name} value {c}.{k}.{again}", fast(c, k), sum(u * float(poly_at(b, Fraction(y))) for u, b in zip(local, want)), TOL)
                    near(ctx, f"{name} derivative {c}.{k}.{again}", fast.derivative(c, k) * length,
                         n * sum(u * float(poly_at(poly_der(b), Fraction(y))) for u, b in zip(local, want)), 100 * TOL)


def refined(ctx, n, p, factor):
    """refining a finite element function's space keeps it representable"""
    dom, a, length = interval(ctx)
    coarse = fe.LagrangeSpace(core.UniformMesh(dom, n), p)
    fine = coarse.refine(factor)
    v = ctx.array([ctx.real(f"v{i}", lo=-1, hi=1) for i in range(n * p)])
    e = coarse.element(v)
    ctx.eq("dimension", fine.dimension, n * p * factor)
    ctx.eq("dimension'", len(fine.grid), fine.dimension)
    w = ctx.array([e(min(n - 1, i // (p * factor)), x) for i, x in enumerate(fine.grid)])
    f = fine.element(w)
    t = ctx.real("t", lo=0, hi=1)
    for c in range(n * factor):
        x = a + length * (c + t) / (n * factor)
        near(ctx, f"same function {c}", f(c, x), e(c // factor, x), 10 * TOL)
    back = fine.coarsen(factor)
    for i, x in enumerate(back.grid):
        near(ctx, f"coarsened grid {i}", x, coarse.grid[i], TOL)


def instances(tier):
    big = tier == "thorough"
    out = []
    for n in range(1, 7 if not big else 9):
        out.append(inst(f"quadrature-{n}", quadrature, n=n))
        out.append(inst(f"local-quadrature-{n}", local_quadrature, n=n))
    for n in (1, 2, 4):
        for comps in (0, 1, 2):
            out.append(inst(f"averages-{n}-{comps}", averages, n=n, degree=3, components=comps))
        out.append(inst(f"singular-{n}", singular, n=n))
        for comps in (0, 2):
            out.append(inst(f"node-values-{n}-{comps}", node_values, n=n, components=comps))
    for key in ("llf", "mcl-fv"):
        out.append(inst(f"start-{key}", start, family="scalar", key=key, n=4, p=1, degree=3))
    for key in ("llf", "mcl", "es1"):
        out.append(inst(f"start-swe-{key}", start, family="swe", key=key, n=4, p=1, degree=3, system=True))
    for key in ("cg", "cg-low", "mcl-fem"):
        for p in (1, 2, 3):
            out.append(inst(f"start-{key}-{p}", start, family="fem", key=key, n=3, p=p, degree=p))
    for p in range(1, 7 if big else 6):
        out.append(inst(f"basis-{p}", basis, p=p))
    for n, p in ((1, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((2, 4),) if big else ()):
        if n * p > 1:
            out.append(inst(f"element-{n}-{p}", element, n=n, p=p))
    for n, p, f in ((2, 1, 2), (2, 2, 2), (2, 1, 3), (2, 2, 3)):
        out.append(inst(f"refined-{n}-{p}-{f}", refined, n=n, p=p, factor=f))
    return out
