from .common import *

TITLE = "histories and starting over"
BOUNDS = "up to 3 updates of 2 to 6 cells, any times and values, resetting to any time; solvers of 3 or 4 cells started over after one or two steps with any new data"
OUTSIDE = "longer runs; starting over with another domain, boundary condition, bottom or end time (the solver keeps those it was built with)"
EXPLANATION = ("Sequences of updates, resets and steps are executed symbolically (forking on the order of the times); the solver shows that the recorded histories are the "
               "sequence of states and that a solver started over does what a fresh one does.")


def solution(ctx, kind, shape):
    v = ctx.vec("v", int(np.prod(shape))).reshape(shape)
    t = ctx.real("t")
    sol = core.DiscreteSolution(v, initial_time=t)
    if kind == "coarse":
        return core.CoarseSolutionWithHistory(sol, 2), v, t
    return core.DiscreteSolutionWithHistory(sol), v, t


def shown(kind, w):
    if kind == "coarse":
        return [(w[2 * i] + w[2 * i + 1]) / 2 for i in range(len(w) // 2)]
    return w


def history(ctx, kind, shape, count):
    sol, v, t = solution(ctx, kind, shape)
    times, values, steps = [t], [shown(kind, v)], []
    for k in range(count):
        dt = ctx.real(f"dt{k}")
        w = ctx.vec(f"w{k}_", int(np.prod(shape))).reshape(shape)
        sol.update(dt, w)
        times.append(times[-1] + dt)
        steps.append(dt)
        values.append(shown(kind, w))
        ctx.eq(f"times {k}", sol.time_history, times)
        ctx.eq(f"steps {k}", sol.time_step_history, steps)
        ctx.eq(f"number {k}", len(sol.value_history), k + 2)
        for i, x in enumerate(values):
            ctx.eq(f"values {k}.{i}", sol.value_history[i], x)
    ctx.eq("last time", sol.time, times[-1])
    ctx.eq("last value", sol.value, values[-1])


def reset(ctx, kind, shape, count):
    """set_value keeps what was recorded before the given time and goes on from there"""
    sol, v, t = solution(ctx, kind, shape)
    times, values = [t], [shown(kind, v)]
    for k in range(count):
        dt = ctx.pos(f"dt{k}")
        w = ctx.vec(f"w{k}_", int(np.prod(shape))).reshape(shape)
        sol.update(dt, w)
        times.append(times[-1] + dt)
        values.append(shown(kind, w))
    new = ctx.real("new")
    z = ctx.vec("z", int(np.prod(shape))).reshape(shape)
    sol.set_value(z, new)
    kept = [i for i in range(count + 1) if bool(times[i] < new)]
    ctx.eq("time", sol.time, new)
    ctx.eq("value", sol.value, shown(kind, z))
    ctx.eq("times", sol.time_history, [times[i] for i in kept] + [new])
    ctx.eq("number", len(sol.value_history), len(kept) + 1)
    for j, i in enumerate(kept):
        ctx.eq(f"value {j}", sol.value_history[j], values[i])
    ctx.eq("new value", sol.value_history[-1], shown(kind, z))
    dt = ctx.pos("dt")
    y = ctx.vec("y", int(np.prod(shape))).reshape(shape)
    sol.update(dt, y)
    ctx.eq("next time", sol.time_history[-1], new + dt)
    ctx.eq("next value", sol.value_history[-1], shown(kind, y))


def bench(ctx, family, problem, n, name, bc, bottom, t0):
    swe_in, scalar_in = (lambda t: ctx.array([1.0, t])), (lambda t: 2 * t)
    if family == "swe":
        return StubSWE(ctx, wet_cells(ctx, n, name=name), bc=bc, bottom=bottom, start_time=t0, inflow_left=swe_in, inflow_right=swe_in)
    return StubScalar(ctx, problem, [ctx.real(f"{name}{i}") for i in range(n)], bc=bc, start_time=t0, inflow_left=scalar_in, inflow_right=scalar_in)


def start_over(ctx, family, key, n, argv=(), problem="burgers", history=False, bc="periodic", bottom=False, steps=1, moved=False):
    """reinitialize: value, time, history and the following step are those of a fresh solver"""
    if key.startswith("reduced"):
        use_network(ctx)
    b = bottoms(ctx, n) if bottom else None
    t0 = ctx.real("t0")
    over = {"save_history": history}
    if family == "swe" and key == "central":
        over["ode_solver_type"] = core.ForwardEuler  # not offered on the command line; a second stage may leave the wet states
    s = make_solver(family, key, bench(ctx, family, problem, n, "a", bc, b, t0), *argv, **over)
    for k in range(steps):
        # whatever the run made of it
        w = s.solution.value
        shape = (n, 2) if family == "swe" else w.shape
        s.solution.update(ctx.pos(f"dt{k}"), ctx.vec(f"x{k}_", int(np.prod(shape))).reshape(shape))
        iter(s._time_stepping)
    t1 = ctx.real("t1") if moved else t0
    other = bench(ctx, family, problem, n, "b", bc, b, t1)
    s.reinitialize(other)
    fresh = make_solver(family, key, other, *argv, **over)
    ctx.eq("value", s.solution.value, fresh.solution.value)
    ctx.eq("time", s.solution.time, fresh.solution.time)
    ctx.eq("start time", s.solution.time, t1)
    if history:
        ctx.eq("times", s.solution.time_history, fresh.solution.time_history)
        ctx.eq("values", s.solution.value_history, fresh.solution.value_history)
    dt = ctx.pos("dt")
    for z in (s, fresh):
        iter(z._time_stepping)
        if key == "lw":
            z._right_hand_side.set_time_step(dt)
        z._update(dt)
    ctx.eq("next value", s.solution.value, fresh.solution.value)
    ctx.eq("next time", s.solution.time, fresh.solution.time)


def run(ctx, family, key, steps):
    """the history of a run is the sequence of the states of the method"""
    n = 3
    s = make_solver(family, key, bench(ctx, family, "advection", n, "a", "periodic", None, ctx.real("t0")), save_history=True)
    times, values = [s.solution.time], [s.solution.value]
    for k in range(steps):
        s._update(ctx.pos(f"dt{k}"))
        times.append(s.solution.time)
        values.append(s.solution.value)
    ctx.eq("times", s.solution.time_history, times)
    for i, v in enumerate(values):
        ctx.eq(f"state {i}", s.solution.value_history[i], v)
    ctx.eq("steps", s.solution.time_step_history, [ctx.pos(f"dt{k}") for k in range(steps)])


def instances(tier):
    big = tier == "thorough"
    out = []
    for kind in ("plain", "coarse"):
        for shape in ((4,), (4, 2)) + (((6, 2),) if big else ()):
            tag = f"{kind}-{'x'.join(map(str, shape))}"
            out.append(inst(f"history-{tag}", history, kind=kind, shape=shape, count=3))
            for c in (1, 2, 3):
                out.append(inst(f"reset-{tag}-{c}", reset, kind=kind, shape=shape, count=c))
    euler = ("+o", "euler")
    for key in ("llf", "central", "es", "low-order", "antidiffusion"):
        for h in (False, True):
            out.append(inst(f"start-over-swe-{key}{'-history' if h else ''}", start_over, family="swe", key=key, n=3, argv=euler if key != "central" else (), history=h))
        out.append(inst(f"start-over-swe-{key}-moved", start_over, family="swe", key=key, n=3, argv=euler if key != "central" else (), moved=True, bc=("outflow", "wall")))
    for key in ("llf", "central", "es", "low-order"):
        out.append(inst(f"start-over-swe-{key}-inflow", start_over, family="swe", key=key, n=3, argv=euler if key != "central" else (), moved=True, bc=("inflow", "outflow")))
    for key in ("llf", "central", "mcl-fv"):
        out.append(inst(f"start-over-scalar-{key}-inflow", start_over, family="scalar", key=key, n=3, problem="advection", moved=True, bc=("inflow", "inflow")))
    out.append(inst("start-over-coarse-inflow", start_over, family="swe", key="coarse", n=4, argv=("+c", "2", *euler), moved=True, bc=("outflow", "inflow")))
    out.append(inst("start-over-swe-llf-bottom", start_over, family="swe", key="llf", n=3, argv=euler, bottom=True))
    out.append(inst("start-over-swe-mcl", start_over, family="swe", key="mcl", n=3, argv=euler, budget=120))
    for h in (False, True):
        t = "-history" if h else ""
        out.append(inst(f"start-over-coarse{t}", start_over, family="swe", key="coarse", n=4, argv=("+c", "2", *euler), history=h))
        for key in ("llf", "central", "mcl-fv"):
            out.append(inst(f"start-over-scalar-{key}{t}", start_over, family="scalar", key=key, n=3, problem="advection", history=h))
        for key in ("cg", "cg-low", "mcl-fem"):
            out.append(inst(f"start-over-fem-{key}{t}", start_over, family="fem", key=key, n=3, argv=("+p", "1") + (euler if key != "cg" else ()), problem="advection", history=h))
        out.append(inst(f"start-over-fem-cg-p2{t}", start_over, family="fem", key="cg", n=3, argv=("+p", "2"), problem="advection", history=h))
    for key in ("llf", "central"):
        out.append(inst(f"run-scalar-{key}", run, family="scalar", key=key, steps=2))
    return out
