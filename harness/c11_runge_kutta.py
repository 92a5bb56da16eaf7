from .common import *
from math import factorial

import finite_element.ode_solver as fem_ode

TITLE = "order and invariants of the Runge-Kutta methods"
BOUNDS = ("polynomial sources in time up to the degree the order requires, linear problems, problems linear in the solution with coefficients "
          "linear in time, Riccati problems with a time dependent coefficient (methods up to order 3); one or two steps from any start time; step at most 1/4 where a remainder is bounded")
OUTSIDE = "order conditions of the eighth order method that need nonlinear right hand sides; rounding (the coefficients of that method are floats: tolerance 1e-9)"
EXPLANATION = ("A step of the real method is executed on symbolic data, coefficients and step size; the solver shows equality with the exact or the "
               "Taylor polynomial up to the claimed order (remainder bounded by a multiple of dt^(p+1)).")

METHODS = {"euler": (core.ForwardEuler, 1), "heun": (core.Heun, 2), "ssp3": (core.StrongStabilityPreservingRungeKutta3, 3)}
RK8 = None


def method(name):
    if name == "rk8":
        import core.ode_solver as m

        return m.RungeKutta8, 8
    return METHODS[name]


def quadrature(ctx, name, degree, shift):
    """x' = t^degree is integrated exactly below the order"""
    cls, p = method(name)
    t0 = ctx.real("t0", lo=-1.0, hi=1.0) if shift else 0.0
    dt = ctx.real("dt", lo=0.001, hi=1.0)
    x0 = ctx.real("x0", lo=-1.0, hi=1.0)
    s = cls(lambda t, x: t**degree * 1.0 if degree else 1.0, x0, initial_time=t0)
    s.execute(dt)
    exact = x0 + ((t0 + dt) ** (degree + 1) - t0 ** (degree + 1)) / (degree + 1)
    if name == "rk8":
        ctx.le("exact", s.solution - exact, 1e-9)
        ctx.ge("exact'", s.solution - exact, -1e-9)
    else:
        ctx.eq("exact", s.solution, exact)
    ctx.eq("time", s.time, t0 + dt)


def linear(ctx, name):
    """x' = lam x: the stability polynomial agrees with exp up to the order"""
    cls, p = method(name)
    z = ctx.real("z", lo=0.0, hi=0.25)  # z = lam * dt
    x0 = ctx.real("x0")
    s = cls(lambda t, x: z * x, ctx.array([x0, 2 * x0]) if name != "rk8" else 1.0)
    s.execute(1.0)
    taylor = sum(z**k / factorial(k) for k in range(p + 1))
    if name == "rk8":
        r = s.solution - taylor
        ctx.le("remainder", r, 1e-9 + z**9)
        ctx.ge("remainder'", r, -1e-9 - z**9)
        z2 = -z
        s = cls(lambda t, x: z2 * x, 1.0)
        s.execute(1.0)
        r = s.solution - sum(z2**k / factorial(k) for k in range(p + 1))
        ctx.le("remainder, decay", r, 1e-9 + z**9)
        ctx.ge("remainder, decay'", r, -1e-9 - z**9)
    else:
        ctx.eq("amplification", s.solution, [x0 * taylor, 2 * x0 * taylor])


def matrix(ctx, name):
    """a linear system with a source that does not commute: x' = A x + b + c t"""
    cls, p = method(name)
    A = [[ctx.real(f"a{i}{j}") for j in range(2)] for i in range(2)]
    b = [ctx.real(f"b{i}") for i in range(2)]
    c = [ctx.real(f"c{i}") for i in range(2)]
    t0 = ctx.real("t0")
    x = [ctx.real(f"x{i}") for i in range(2)]
    dt = ctx.pos("dt")
    mul = lambda v: [A[i][0] * v[0] + A[i][1] * v[1] for i in range(2)]
    f = lambda t, y: ctx.array([m + b[i] + c[i] * t for i, m in enumerate(mul(list(y)))])
    s = cls(f, ctx.array(x), initial_time=t0)
    s.execute(dt)
    d1 = [m + b[i] + c[i] * t0 for i, m in enumerate(mul(x))]
    d2 = [m + c[i] for i, m in enumerate(mul(d1))]
    d3 = mul(d2)
    ders = [d1, d2, d3]
    exact = [x[i] + sum(dt ** (k + 1) / factorial(k + 1) * ders[k][i] for k in range(p)) for i in range(2)]
    ctx.eq("Taylor polynomial", s.solution, exact)


def lagrange_coefficients(nodes):
    """w[k][j]: coefficient of x^k in the polynomial through values at the nodes"""
    out = [[Fraction(0)] * len(nodes) for _ in nodes]
    for j, xj in enumerate(nodes):
        poly = [Fraction(1)]
        for m, xm in enumerate(nodes):
            if m == j:
                continue
            new = [Fraction(0)] * (len(poly) + 1)
            for k, c in enumerate(poly):
                new[k + 1] += c / (xj - xm)
                new[k] -= c * xm / (xj - xm)
            poly = new
        for k, c in enumerate(poly):
            out[k][j] = c
    return out


def riccati(ctx, name):
    """x' = a + b x + c x^2 + d t x: a step is a polynomial in its size; its coefficients
    up to the order are those of the exact solution"""
    cls, p = method(name)
    a, b, c, d, x, t0 = [ctx.real(k) for k in ("a", "b", "c", "d", "x", "t0")]
    f = lambda t, y: a + b * y + c * y * y + d * t * y
    degree = {"euler": 1, "heun": 3, "ssp3": 7}[name]
    nodes = [Fraction(k, 4) for k in range(degree + 1)]
    vals = []
    for dt in nodes:
        s = cls(f, x, initial_time=t0)
        s.execute(float(dt))
        vals.append(s.solution)
    w = lagrange_coefficients(nodes)
    F = f(t0, x)
    Fx, Ft = b + 2 * c * x + d * t0, d * x
    x2 = Ft + Fx * F
    x3 = 2 * d * F + 2 * c * F * F + Fx * x2  # f_tt = 0, f_tx = d, f_xx = 2c
    ders = [x, F, x2, x3]
    for k in range(p + 1):
        got = sum(float(wk) * v for wk, v in zip(w[k], vals))
        ctx.eq(f"coefficient {k}", got, ders[k] / factorial(k))


def variable(ctx):
    """x' = (1 + t) x with the eighth order method"""
    cls, p = method("rk8")
    dt = ctx.real("dt", lo=0.0, hi=0.25)
    t0 = 0.5
    s = cls(lambda t, y: (1 + t) * y, 1.0, initial_time=t0)
    s.execute(dt)
    # Taylor coefficients: (k+1) y_{k+1} = (1 + t0) y_k + y_{k-1}
    y = [Fraction(1), Fraction(3, 2)]
    for k in range(1, 8):
        y.append((Fraction(3, 2) * y[k] + y[k - 1]) / (k + 1))
    taylor = sum(float(c) * dt**k for k, c in enumerate(y))
    r = s.solution - taylor
    ctx.le("remainder", r, 1e-9 + 10 * dt**9)
    ctx.ge("remainder'", r, -1e-9 - 10 * dt**9)


def invariant(ctx, name, steps):
    """linear invariants of the right hand side are invariants of the method, whatever
    the right hand side does"""
    cls, p = method(name)
    n = 3
    calls = []

    def f(t, y):
        k = len(calls)
        calls.append(t)
        v = [ctx.real(f"k{k}_{i}") for i in range(n - 1)]
        return ctx.array(v + [-sum(v)])

    t0 = ctx.real("t0")
    x = ctx.vec("x", n)
    s = cls(f, x, initial_time=t0)
    t = t0
    for j in range(steps):
        dt = ctx.pos(f"dt{j}")
        s.execute(dt)
        t = t + dt
        ctx.eq(f"sum after step {j}", s.solution.sum(), x.sum())
        ctx.eq(f"time after step {j}", s.time, t)
    ctx.eq("initial value is unchanged", x, [ctx.real(f"x{i}") for i in range(n)])


def stages(ctx, name):
    """what is exposed about the stages: the arguments of the right hand side"""
    cls, p = method(name)
    seen = []

    def f(t, y):
        k = len(seen)
        seen.append((t, y))
        return ctx.vec(f"k{k}_", 2)

    t0 = ctx.real("t0")
    s = cls(f, ctx.vec("x", 2), initial_time=t0)
    for j in range(2):
        seen.clear()
        before = s.solution
        start = s.time
        s.execute(ctx.pos(f"dt{j}"))
        ctx.eq(f"number of stages {j}", len(s.stage_values), len(seen))
        ctx.eq(f"number of nodes {j}", len(s.time_nodes), len(seen))
        for i, (t, y) in enumerate(seen):
            ctx.eq(f"stage value {j}.{i}", s.stage_values[i], y)
            ctx.eq(f"stage time {j}.{i}", s.time_nodes[i], t)
        ctx.eq(f"first stage {j}", s.stage_values[0], before)
        ctx.eq(f"first time {j}", s.time_nodes[0], start)


def restart(ctx, name):
    """starting over leaves earlier results alone and continues like a new integrator"""
    cls, p = method(name)
    n = 2
    f = lambda t, y: t * y + 1.0
    x, z = ctx.vec("x", n), ctx.vec("z", n)
    t0, t1, dt = ctx.real("t0"), ctx.real("t1"), ctx.real("dt", lo=0.01, hi=1.0)
    s = cls(f, x, initial_time=t0)
    before = s.solution
    kept_before = before.copy()
    if name != "rk8":
        s.execute(dt)
        old = s.solution
        kept = old.copy()
    s.reinitialize(z, t1)
    ctx.eq("time", s.time, t1)
    ctx.eq("value", s.solution, z)
    start = s.solution
    kept_start = start.copy()
    s.execute(dt)
    fresh = cls(f, ctx.vec("z", n), initial_time=t1)
    fresh.execute(dt)
    ctx.eq("like a new one", s.solution, fresh.solution)
    ctx.eq("time after a step", s.time, t1 + dt)
    ctx.eq("first value", before, kept_before)
    ctx.eq("first initial value", x, ctx.vec("x", n))
    if name != "rk8":
        ctx.eq("value before", old, kept)
    ctx.eq("value of the restart", start, kept_start)
    ctx.eq("second initial value", z, ctx.vec("z", n))
    z[0] = z[0] + 1
    ctx.eq("isolated", s.solution, fresh.solution)


def optimal(ctx, degree):
    """the method chosen for a polynomial degree has at least the order degree + 1"""
    class Space:
        polynomial_degree = degree

    cls = fem_ode.build_optimal_ode_solver(Space())
    z = ctx.real("z", lo=0.0, hi=0.25)
    s = cls(lambda t, x: z * x, 1.0)
    s.execute(1.0)
    r = s.solution - sum(z**k / factorial(k) for k in range(degree + 2))
    ctx.le("remainder", r, 1e-9 + z ** (degree + 2))
    ctx.ge("remainder'", r, -1e-9 - z ** (degree + 2))


def instances(tier):
    big = tier == "thorough"
    out = []
    for name in ("euler", "heun", "ssp3", "rk8"):
        p = 8 if name == "rk8" else METHODS[name][1]
        for d in range(p):
            for shift in (False, True) if name != "rk8" or d <= (3 if big else 2) else (False,):
                out.append(inst(f"quadrature-{name}-{d}{'-shift' if shift else ''}", quadrature, name=name, degree=d, shift=shift))
        out.append(inst(f"linear-{name}", linear, name=name))
        for steps in (1, 2):
            out.append(inst(f"invariant-{name}-{steps}", invariant, name=name, steps=steps))
        out.append(inst(f"restart-{name}", restart, name=name))
        out.append(inst(f"stages-{name}", stages, name=name))
    for name in METHODS:
        out.append(inst(f"matrix-{name}", matrix, name=name))
        out.append(inst(f"riccati-{name}", riccati, name=name, budget=120))
    out.append(inst("variable-rk8", variable))
    for degree in range(1, 8):
        out.append(inst(f"optimal-{degree}", optimal, degree=degree))
    return out
