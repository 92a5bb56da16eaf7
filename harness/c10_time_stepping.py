from .common import *
import core.time_stepping as ts

TITLE = "time stepping"
BOUNDS = "any start time, end time, mesh width, CFL number and (adaptive) step suggestions for runs of at most 4 steps (5 in the thorough tier) and of 128 or 129 steps of a fixed size"
OUTSIDE = "longer runs; accumulated rounding of the time; remainders of exactly 1e-12 where the announced number of steps may differ by one"
EXPLANATION = ("The iterator is executed symbolically, forking on its comparisons; on every path the solver shows that the steps are positive, respect the "
               "limit and add up to the simulated time.")
BUDGET = {"quick": 60, "thorough": 200}


def constant(ctx, k, solver):
    """mesh dependent steps"""
    dx = ctx.real("dx", lo=1e-3)
    cfl = ctx.real("cfl", lo=1e-3)
    t0 = ctx.real("t0")
    duration = ctx.real("T", lo=1e-4)
    limit = dx * cfl
    ctx.assume(duration <= k * limit)
    for j in range(1, k + 1):  # no remainder in the undecidable sliver
        ctx.assume(ctx.any(duration - j * limit <= 0, duration - j * limit >= 1e-11))
    end = t0 + duration

    if solver:
        class B:
            end_time, start_time = end, t0

        class M:
            step_length = dx

        stepping = ts.get_mesh_dependent_time_stepping(B(), M(), cfl)
    else:
        stepping = ts.TimeStepping(end, cfl, lambda: dx, start_time=t0)
    announced = len(stepping)
    for again in range(2):
        total, steps = 0.0, 0
        for dt in stepping:
            steps += 1
            ctx.ge(f"limit {again}.{steps}", limit, dt)
            ctx.ge(f"positive {again}.{steps}", dt, 1e-12)
            total = total + dt
            if steps > k + 2:
                ctx.fail("does not end")
                return
            if steps < announced:
                ctx.eq(f"full step {again}.{steps}", dt, limit)
        ctx.le(f"sum not beyond the end {again}", total, duration)
        ctx.ge(f"sum reaches the end {again}", total, duration - 1e-12)
        ctx.eq(f"time at the end {again}", stepping.time, end)
        ctx.eq(f"announced number of steps {again}", announced, steps)
        ctx.eq(f"counted steps {again}", stepping.time_steps_number, steps)


def adaptive(ctx, k):
    """a new suggestion for every step"""
    cfl = ctx.real("cfl", lo=1e-3, hi=1.0)
    t0 = ctx.real("t0")
    duration = ctx.real("T", lo=1e-4)
    end = t0 + duration
    asked = []

    def suggest():
        s = ctx.real(f"s{len(asked)}", lo=1e-3)
        asked.append(s)
        return s

    # at most k steps are needed
    tot = 0.0
    for j in range(k):
        tot = tot + cfl * ctx.real(f"s{j}", lo=1e-3)
    ctx.assume(tot >= duration)
    stepping = ts.TimeStepping(end, cfl, suggest, adaptive=True, start_time=t0)
    ctx.eq("number of steps is not announced", len(stepping), 0)
    total, steps = 0.0, 0
    before = len(asked)
    for dt in stepping:
        ctx.eq(f"one suggestion per step {steps}", len(asked) - before, steps + 1)
        ctx.ge(f"limit {steps}", cfl * asked[-1], dt)
        ctx.ge(f"positive {steps}", dt, 1e-12)
        total = total + dt
        steps += 1
        if steps > k + 1:
            ctx.fail("does not end")
            return
    ctx.le("sum not beyond the end", total, duration)
    ctx.ge("sum reaches the end", total, duration - 1e-12)
    ctx.eq("time at the end", stepping.time, end)


def long_run(ctx, adaptive):
    """about hundred steps"""
    limit = 1 / 128
    duration = ctx.real("T", lo=0.995, hi=1.004)
    ctx.assume(ctx.any(*[ctx.all(duration >= j * limit + 1e-11, duration <= (j + 1) * limit) for j in (127, 128)]))
    t0 = ctx.real("t0")
    stepping = ts.TimeStepping(t0 + duration, 0.25, lambda: 4 * limit, adaptive=adaptive, start_time=t0)
    announced = len(stepping)
    total, steps = 0.0, 0
    for dt in stepping:
        steps += 1
        ctx.ge(f"limit {steps}", limit, dt)
        ctx.ge(f"positive {steps}", dt, 1e-12)
        total = total + dt
        if steps > 131:
            ctx.fail("does not end")
            return
    ctx.le("sum not beyond the end", total, duration)
    ctx.ge("sum reaches the end", total, duration - 1e-12)
    ctx.eq("time at the end", stepping.time, t0 + duration)
    ctx.eq("announced number of steps", announced, 0 if adaptive else steps)


def frozen(ctx):
    """without the adaptive option the first suggestion is kept"""
    cfl = ctx.real("cfl", lo=1e-3, hi=1.0)
    asked = []

    def suggest():
        asked.append(ctx.real(f"s{len(asked)}", lo=1e-3))
        return asked[-1]

    ctx.assume(3 * cfl * ctx.real("s0", lo=1e-3) <= 1)
    stepping = ts.TimeStepping(1.0, cfl, suggest)
    it = iter(stepping)
    for k in range(3):
        ctx.eq(f"step {k}", ctx.min(next(it), cfl * asked[0]), cfl * asked[0])
    ctx.eq("one suggestion", len(asked), 1)


def too_small(ctx):
    dx = ctx.pos("dx")
    raised = False
    stepping = ts.TimeStepping(1.0, 1.0, lambda: dx)
    it = iter(stepping)
    try:
        dt = next(it)
    except ts.TimeStepTooSmallError:
        raised = True
    if raised:
        ctx.le("raised only for tiny steps", dx, 1e-12)
    else:
        ctx.ge("accepted steps", dt, 1e-12)


def cfl_checker(ctx, stages):
    """the check raises exactly if the step exceeds the optimum of one stage"""
    dt = ctx.pos("dt")
    opts = [ctx.pos(f"o{i}") for i in range(stages)]
    nodes = [ctx.real(f"t{i}") for i in range(stages)]
    calls = []

    def optimal(time, dofs):
        i = len(calls)
        calls.append((time, dofs))
        return opts[i]

    check = ts.CFLChecker(optimal)
    vals = [ctx.vec(f"v{i}_", 2) for i in range(stages)]
    raised = False
    try:
        check(dt, nodes, *vals)
    except ts.CFLConditionViolatedError:
        raised = True
    if raised:
        ctx.true("too large", ctx.any(*[dt > o for o in opts]))
    else:
        for i, o in enumerate(opts):
            ctx.ge(f"within the limit {i}", o, dt)
        ctx.eq("every stage is checked", len(calls), stages)
    for i, (t, v) in enumerate(calls):
        ctx.eq(f"time {i}", t, nodes[i])
        ctx.eq(f"value {i}", v, vals[i])


def solution_dependent(ctx):
    """suggestions are computed from the current time and value"""
    sol = core.DiscreteSolution(ctx.vec("a", 2), initial_time=ctx.real("t"))
    seen = []

    def optimal(time, dofs):
        seen.append((time, dofs))
        return ctx.pos(f"s{len(seen)}")

    f = ts.DiscreteSolutionDependentTimeStep(optimal, sol)
    ctx.eq("result", f(), ctx.pos("s1"))
    sol.update(ctx.pos("dt"), ctx.vec("b", 2))
    ctx.eq("second result", f(), ctx.pos("s2"))
    ctx.eq("time", seen[0][0], ctx.real("t"))
    ctx.eq("value", seen[0][1], [ctx.real("a0"), ctx.real("a1")])
    ctx.eq("new time", seen[1][0], ctx.real("t") + ctx.pos("dt"))
    ctx.eq("new value", seen[1][1], [ctx.real("b0"), ctx.real("b1")])


def solve(ctx, family, key, problem, argv, k):
    """solve() advances the solution from the start to the end time of the benchmark"""
    n = 3
    t0 = ctx.real("t0")
    duration = ctx.real("T", lo=1e-4)
    us = [ctx.real(f"u{i}") for i in range(n)]
    cfl = {"scalar": 0.5, "fem": 0.25}[family]
    limit = cfl * DX
    if family == "scalar":
        ctx.assume(duration <= k * limit)
    bench = StubScalar(ctx, problem, us, start_time=t0, end_time=t0 + duration)
    s = make_solver(family, key, bench, "++cfl", cfl, *argv)
    if family == "fem":
        ctx.assume(duration <= k * s._time_stepping._time_step_generator())
    s.solve(leave=False, disable=True)
    ctx.le("not beyond the end", s.solution.time, t0 + duration)
    ctx.ge("reaches the end", s.solution.time, t0 + duration - 1e-12)


def solve_swe(ctx, key, argv, k, bc, over):
    """the same for every shallow water solver (the state is a lake at rest)"""
    n = 4
    t0 = ctx.real("t0")
    duration = ctx.real("T", lo=1e-4)
    ctx.assume(duration <= k * 0.5 * DX)
    bench = StubSWE(ctx, [(1.0, 0.0)] * n, bc=bc, start_time=t0, end_time=t0 + duration)
    s = make_solver("swe", key, bench, "++cfl", 0.5, *argv, **over)
    ctx.eq("starts at the start", s.solution.time, t0)
    s.solve(leave=False, disable=True)
    ctx.le("not beyond the end", s.solution.time, t0 + duration)
    ctx.ge("reaches the end", s.solution.time, t0 + duration - 1e-12)
    s.reinitialize(bench)
    ctx.eq("starts again at the start", s.solution.time, t0)
    s.solve(leave=False, disable=True)
    ctx.le("not beyond the end again", s.solution.time, t0 + duration)
    ctx.ge("reaches the end again", s.solution.time, t0 + duration - 1e-12)


def instances(tier):
    big = tier == "thorough"
    out = []
    for k in (1, 2, 3, 4) + ((5,) if big else ()):
        out.append(inst(f"constant-{k}", constant, k=k, solver=False))
    out.append(inst("mesh-dependent-3", constant, k=3, solver=True))
    for k in (1, 2, 3) + ((4,) if big else ()):
        out.append(inst(f"adaptive-{k}", adaptive, k=k))
    for a in (False, True):
        out.append(inst(f"long-run{'-adaptive' if a else ''}", long_run, adaptive=a))
    out += [inst("frozen", frozen), inst("too-small", too_small)]
    for s in (1, 2, 3):
        out.append(inst(f"cfl-checker-{s}", cfl_checker, stages=s))
    out.append(inst("solution-dependent", solution_dependent))
    for key in ("central", "llf"):
        out.append(inst(f"solve-{key}-advection", solve, family="scalar", key=key, problem="advection", argv=(), k=2))
    out.append(inst("solve-mcl-fv-advection", solve, family="scalar", key="mcl-fv", problem="advection", argv=(), k=1))
    out.append(inst("solve-cg-advection", solve, family="fem", key="cg", problem="advection", argv=("+p", "1"), k=2))
    for a in (False, True):
        out.append(inst(f"solve-cg-low-advection{'-adaptive' if a else ''}", solve, family="fem", key="cg-low", problem="advection", argv=("++adaptive",) if a else (), k=2))
        out.append(inst(f"solve-mcl-fem-advection{'-adaptive' if a else ''}", solve, family="fem", key="mcl-fem", problem="advection", argv=("+o", "euler") + (("++adaptive",) if a else ()), k=1))
    for key, argv in (("llf", ()), ("low-order", ()), ("es", ()), ("es1", ()), ("central", ()), ("mcl", ()), ("antidiffusion", ()), ("lw", ()), ("coarse", ("+c", "2"))):
        out.append(inst(f"solve-swe-{key}", solve_swe, key=key, argv=argv, k=2, bc="periodic", over={}))
    return out
