from .common import *
import finite_element as fe

TITLE = "finite element schemes conserve the integral and dissipate no energy they should keep"
BOUNDS = "periodic meshes of 3 and 4 cells, degrees 1 and 2 (3 for advection), any nodal values between -2 and 2; steps of any size up to 1"
OUTSIDE = "rounding of assembled matrices (tolerance 1e-7)"
EXPLANATION = ("The real right hand sides are executed on symbolic nodal values; the solver shows that the integral of the rate vanishes, that the Galerkin schemes solve the "
               "weak form and that they keep the L2 norm (advection, and Burgers' equation with exact flux integrals).")


def setup(ctx, key, problem, p, n, argv=()):
    us = [ctx.real(f"u{i}", lo=-2.0, hi=2.0) for i in range(n * p)]
    s = make_solver("fem", key, StubScalar(ctx, problem, [0.0] * n), "+p", p, *argv)
    v = ctx.array(us)
    return s, v, rhs(s, value=v)


def weights(p, n):
    """integrals of the basis functions"""
    dim = n * p
    w = [Fraction(0)] * dim
    for c in range(n):
        for l, b in enumerate(lagrange_basis(p)):
            w[(c * p + l) % dim] += poly_int(b) * Fraction(DX)
    return [float(x) for x in w]


def conserves(ctx, key, problem, p, n, argv=()):
    s, v, r = setup(ctx, key, problem, p, n, argv)
    near(ctx, "integral of the rates", sum(w * x for w, x in zip(weights(p, n), r)), 0.0, 1e-7)


def step(ctx, key, problem, p, n, ode):
    """over a whole step: the integral of the solution as the code itself evaluates it"""
    s, v, r = setup(ctx, key, problem, p, n, ("+o", ode) if key != "cg" else ())
    dt = ctx.real("dt", lo=0.001, hi=1.0)
    s.solution.update(0.0, v)
    s._ode_solver.reinitialize(v, 0.0)
    iter(s._time_stepping)
    w = weights(p, n)
    s._update(dt)
    near(ctx, "integral", sum(a * x for a, x in zip(w, s.solution.value)), sum(a * x for a, x in zip(w, v)), 1e-6)


def galerkin(ctx, problem, p, n, argv=()):
    """mass matrix times rates = weak flux divergence; the L2 norm is kept"""
    s, v, r = setup(ctx, "cg", problem, p, n, argv)
    basis = lagrange_basis(p)
    dim = n * p
    exact = problem == "advection" or "++exact-flux" in argv
    lhs, want = [0.0] * dim, [0.0] * dim
    for c in range(n):
        idx = [(c * p + l) % dim for l in range(p + 1)]
        for i, gi in enumerate(idx):
            for j, gj in enumerate(idx):
                lhs[gi] = lhs[gi] + float(poly_int(poly_mul(basis[i], basis[j])) * Fraction(DX)) * r[gj]
                cij = float(poly_int(poly_mul(poly_der(basis[i]), basis[j])))
                if problem == "advection":
                    want[gi] = want[gi] + cij * v[gj]
                elif not exact:
                    want[gi] = want[gi] + cij * v[gj] * v[gj] / 2
                else:
                    for k, gk in enumerate(idx):
                        want[gi] = want[gi] + float(poly_int(poly_mul(poly_mul(basis[j], basis[k]), poly_der(basis[i]))) / 2) * v[gj] * v[gk]
    for i in range(dim):
        near(ctx, f"weak form {i}", lhs[i], want[i], 1e-7)
    if exact:
        near(ctx, "energy", sum(a * b for a, b in zip(v, lhs)), 0.0, 1e-6)


def instances(tier):
    big = tier == "thorough"
    out = []
    for problem in ("advection", "burgers"):
        for p in (1, 2, 3) if problem == "advection" else (1, 2):
            for n in (3, 4) if p == 1 or big else (3,):
                for key in ("cg", "cg-low", "mcl-fem"):
                    if key == "mcl-fem" and (p == 3 or (problem == "burgers" and p == 2)) and not big:
                        continue
                    out.append(inst(f"rates-{key}-{problem}-{n}-{p}", conserves, key=key, problem=problem, p=p, n=n))
            out.append(inst(f"galerkin-{problem}-{p}", galerkin, problem=problem, p=p, n=3))
    for p in (1, 2):
        out.append(inst(f"galerkin-exact-{p}", galerkin, problem="burgers", p=p, n=3, argv=("++exact-flux",)))
        out.append(inst(f"rates-exact-{p}", conserves, key="cg", problem="burgers", p=p, n=3, argv=("++exact-flux",)))
    for ode in ("euler", "heun", "ssp3"):
        out.append(inst(f"step-cg-low-advection-{ode}", step, key="cg-low", problem="advection", p=1, n=3, ode=ode))
    out.append(inst("step-cg-advection-1", step, key="cg", problem="advection", p=1, n=3, ode=""))
    out.append(inst("step-cg-advection-2", step, key="cg", problem="advection", p=2, n=3, ode=""))
    out.append(inst("step-cg-low-burgers-euler", step, key="cg-low", problem="burgers", p=1, n=3, ode="euler"))
    out.append(inst("step-mcl-fem-advection-euler", step, key="mcl-fem", problem="advection", p=1, n=3, ode="euler"))
    return out
