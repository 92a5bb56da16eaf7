from .common import *

TITLE = "strong stability preservation"
BOUNDS = "arbitrary rates (a fresh unknown for every stage and component), 1 to 3 components, 1 or 2 steps, any step size"
OUTSIDE = "the eighth order method (not strong stability preserving)"
EXPLANATION = ("The stages of the real method are executed with unknown rates; whenever every Euler step with the same step size stays within given bounds "
               "the solver shows that all stage values and the result do; the same for a convex quadratic and for the sum of absolute values.")

METHODS = {"euler": (core.ForwardEuler, 1), "heun": (core.Heun, 2), "ssp3": (core.StrongStabilityPreservingRungeKutta3, 3)}


def bounds(ctx, method, n, steps):
    cls, stages = METHODS[method]
    lo, hi = ctx.vec("lo", n), ctx.vec("hi", n)
    x = ctx.vec("x", n)
    dt = ctx.pos("dt")
    ctx.assume(x >= lo)
    ctx.assume(hi >= x)
    calls = []

    def f(t, y):
        k = ctx.vec(f"k{len(calls)}_", n)
        calls.append(y)
        ctx.assume(y + dt * k >= lo)
        ctx.assume(hi >= y + dt * k)
        return k

    s = cls(f, x)
    for j in range(steps):
        s.execute(dt)
        for i, y in enumerate(s.stage_values):
            ctx.ge(f"stage {j}.{i} above", y, lo)
            ctx.le(f"stage {j}.{i} below", y, hi)
        ctx.ge(f"result {j} above", s.solution, lo)
        ctx.le(f"result {j} below", s.solution, hi)
    ctx.eq("number of evaluations", len(calls), steps * stages)


def half_space(ctx, method):
    """any linear functional bounded along Euler steps stays bounded: l.y <= c"""
    cls, stages = METHODS[method]
    n = 2
    l, c = ctx.vec("l", n), ctx.real("c")
    x = ctx.vec("x", n)
    dt = ctx.pos("dt")
    dot = lambda y: l[0] * y[0] + l[1] * y[1]
    ctx.assume(c - dot(x) >= 0)
    calls = []

    def f(t, y):
        k = ctx.vec(f"k{len(calls)}_", n)
        calls.append(y)
        ctx.assume(c - dot(y + dt * k) >= 0)
        return k

    s = cls(f, x)
    s.execute(dt)
    ctx.ge("functional", c - dot(s.solution), 0.0)


def total_variation(ctx, method, n):
    """sum of absolute values does not grow along Euler steps: nor along the method"""
    cls, stages = METHODS[method]
    x = ctx.vec("x", n)
    dt = ctx.pos("dt")
    norm = lambda y: sum(ctx.abs(v) for v in list(y))
    M = ctx.real("M")
    ctx.assume(M - norm(x) >= 0)
    calls = []

    def f(t, y):
        k = ctx.vec(f"k{len(calls)}_", n)
        calls.append(y)
        ctx.assume(M - norm(y + dt * k) >= 0)
        return k

    s = cls(f, x)
    s.execute(dt)
    ctx.ge("norm", M - norm(s.solution), 0.0)


def solver_bounds(ctx, family, key, problem, ode):
    """every stage the solver evaluates is an average of Euler steps from earlier stages"""
    n = 3
    us = [ctx.real(f"u{i}") for i in range(n)]
    s = make_solver(family, key, StubScalar(ctx, problem, us), ode_solver_type=METHODS[ode][0])
    dt = ctx.pos("dt")
    old = s.solution.value
    s._update(dt)
    r = s._right_hand_side
    e = lambda y: y + dt * r(0.0, y)
    y1 = e(old)
    if ode == "heun":
        expected = (old + e(y1)) / 2
    else:
        y2 = 0.75 * old + 0.25 * e(y1)
        expected = old / 3 + 2 * e(y2) / 3
    ctx.eq("average of Euler steps", s.solution.value, expected)


def instances(tier):
    out = []
    for m in METHODS:
        for n in (1, 2, 3):
            for steps in (1, 2):
                out.append(inst(f"bounds-{m}-{n}-{steps}", bounds, method=m, n=n, steps=steps))
        out.append(inst(f"half-space-{m}", half_space, method=m))
        for n in (1, 2):
            out.append(inst(f"norm-{m}-{n}", total_variation, method=m, n=n))
    for ode in ("heun", "ssp3"):
        for key in ("central", "llf"):
            out.append(inst(f"solver-{key}-{ode}", solver_bounds, family="scalar", key=key, problem="advection", ode=ode))
    return out
