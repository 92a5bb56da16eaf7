from .common import *

TITLE = "finite solutions, time and isolation of stored values"
BOUNDS = "2 or 3 cells with 1 or 2 components, any finite entries, one not-a-number or infinite entry at every position, or entries that are any IEEE doubles whatsoever; up to 3 updates; every solver's own solution after one step"
OUTSIDE = "overflow of the arithmetic that leads to the values"
EXPLANATION = ("Updates are executed symbolically with one exceptional entry at a stated position; the solver shows that they are refused without any change "
               "and that finite updates advance time and value exactly, whatever callers do to arrays they were given.")


def make(ctx, kind, shape):
    v = ctx.vec("v", int(np.prod(shape))).reshape(shape)
    t = ctx.real("t")
    if kind.startswith("coarse"):
        space = None
        sol = core.DiscreteSolution(v, initial_time=t)
        return (core.CoarseSolution(sol, 2) if kind == "coarse" else core.CoarseSolutionWithHistory(sol, 2)), v, t
    sol = core.DiscreteSolution(v, initial_time=t)
    return (core.DiscreteSolutionWithHistory(sol) if kind == "history" else sol), v, t


def guard(ctx, kind, shape, position, bad, setter):
    sol, v, t = make(ctx, kind, shape)
    flat = [ctx.real(f"w{i}") for i in range(int(np.prod(shape)))]
    flat[position] = float(bad)
    w = ctx.array(flat).reshape(shape)
    before, time = sol.value, sol.time
    refused = False
    try:
        if setter:
            sol.set_value(w, ctx.real("t1"))
        else:
            sol.update(ctx.pos("dt"), w)
    except ValueError:
        refused = True
    ctx.true("refused", refused)
    ctx.eq("value", sol.value, before)
    ctx.eq("time", sol.time, t)
    if hasattr(sol, "time_history") and not setter:
        ctx.eq("time history", sol.time_history, [t])
        ctx.eq("value history", sol.value_history, [before])


def doubles(ctx, kind, shape, setter):
    """the entries are arbitrary doubles: refused exactly when one of them is not finite"""
    size = int(np.prod(shape))
    v = ctx.vec("v", size).reshape(shape)
    t = ctx.real("t")
    sol = core.DiscreteSolution(v, initial_time=t)
    if kind == "history":
        sol = core.DiscreteSolutionWithHistory(sol)
    entries = [ctx.double(f"w{i}") for i in range(size)]
    w = ctx.array(entries).reshape(shape)
    finite = True
    for e in entries:
        if not bool(ctx.isfinite(e)):
            finite = False
            break
    dt = ctx.pos("dt")
    refused = False
    try:
        if setter:
            sol.set_value(w, t + dt)
        else:
            sol.update(dt, w)
    except ValueError:
        refused = True
    ctx.true("refused exactly when not finite", refused != finite)
    if refused:
        ctx.eq("value", sol.value, v)
        ctx.eq("time", sol.time, t)
    else:
        for i, (a, b) in enumerate(zip(np.ravel(sol.value), entries)):
            ctx.true(f"value {i}", a == b)
        ctx.eq("time", sol.time, t + dt)


def updates(ctx, kind, shape, count):
    sol, v, t = make(ctx, kind, shape)
    for k in range(count):
        dt = ctx.pos(f"dt{k}")
        w = ctx.vec(f"w{k}_", int(np.prod(shape))).reshape(shape)
        sol.update(dt, w)
        t = t + dt
        ctx.eq(f"time {k}", sol.time, t)
        if kind.startswith("coarse"):
            expected = [(w[2 * i] + w[2 * i + 1]) / 2 for i in range(shape[0] // 2)]
            ctx.eq(f"value {k}", sol.value, expected)
        else:
            ctx.eq(f"value {k}", sol.value, w)
        ctx.eq(f"dimension {k}", list(np.ravel(sol.dimension)), list(np.shape(sol.value)))
    t1 = ctx.real("t1")
    w = ctx.vec("z", int(np.prod(shape))).reshape(shape)
    sol.set_value(w, t1)
    ctx.eq("time set", sol.time, t1)
    if not kind.startswith("coarse"):
        ctx.eq("value set", sol.value, w)


def isolation(ctx, kind, shape):
    """changing a value that was handed out changes nothing"""
    sol, v, t = make(ctx, kind, shape)
    w = ctx.vec("w", int(np.prod(shape))).reshape(shape)
    sol.update(ctx.pos("dt"), w)
    x = sol.value
    expected = x.copy()
    x[0] = x[0] + 1
    x *= 2
    ctx.eq("value", sol.value, expected)
    if hasattr(sol, "value_history"):
        h = sol.value_history
        kept = h.copy()
        h[0] = h[0] + 1
        h *= 3
        ctx.eq("history", sol.value_history, kept)
        w2 = ctx.vec("y", int(np.prod(shape))).reshape(shape)
        sol.update(ctx.pos("dt2"), w2)
        w2[0] = w2[0] + 5
        ctx.eq("first entries", sol.value_history[:2], kept)


def step(ctx, family, key, problem, ode, history):
    """a step of a solver: time, isolation of the previous value, initial data and history"""
    n = 3
    kw = {"save_history": history}
    if family == "swe":
        cells = wet_cells(ctx, n)
        s = make_solver(family, key, StubSWE(ctx, cells, start_time=ctx.real("t0")), "+o", ode, **kw)
    else:
        us = [ctx.real(f"u{i}") for i in range(n)]
        argv = ("+p", "1") if family == "fem" else ()
        s = make_solver(family, key, StubScalar(ctx, problem, us, start_time=ctx.real("t0")), *argv, **kw)
    before = s.solution.value
    copy = before.copy()
    dt = ctx.pos("dt")
    iter(s._time_stepping)
    s._update(dt)
    ctx.eq("previous value", before, copy)
    ctx.eq("time", s.solution.time, ctx.real("t0") + dt)
    ctx.eq("time of the method", s._ode_solver.time, s.solution.time)
    ctx.eq("value of the method", s._ode_solver.solution, s.solution.value)
    after = s.solution.value
    if history:
        ctx.eq("history", s.solution.value_history, [before, after])
        ctx.eq("times", s.solution.time_history, [ctx.real("t0"), ctx.real("t0") + dt])
    x = s.solution.value
    x[0] = x[0] + 1
    ctx.eq("isolated", s.solution.value, after)
    ctx.eq("isolated from the method", s._ode_solver.solution, after)


def diverged(ctx, key, bad):
    """rates that are not finite stop a run, the solution keeps its last finite state"""
    n = 3
    us = [ctx.real(f"u{i}") for i in range(n)]
    rates = ctx.array([float(bad), 0.0, 1.0])
    method = lambda f, value, *a, **k: core.ForwardEuler(lambda t, y: rates, value, *a, **k)
    s = make_solver("scalar", key, StubScalar(ctx, "advection", us), ode_solver_type=method)
    before, t = s.solution.value, s.solution.time
    stopped = False
    try:
        s._update(ctx.pos("dt"))
    except ValueError:
        stopped = True
    ctx.true("stopped", stopped)
    ctx.eq("value", s.solution.value, before)
    ctx.eq("time", s.solution.time, t)


def instances(tier):
    big = tier == "thorough"
    out = []
    for kind in ("plain", "history", "coarse", "coarse-history"):
        shapes = ((4,), (4, 2)) if kind.startswith("coarse") else ((3,), (2, 2))
        for shape in shapes:
            tag = f"{kind}-{'x'.join(map(str, shape))}"
            for position in range(int(np.prod(shape))):
                for bad in ("nan", "inf", "-inf"):
                    if bad == "-inf" and not big:
                        continue
                    for setter in (False, True):
                        out.append(inst(f"guard-{tag}-{position}{bad}{'-set' if setter else ''}", guard, kind=kind, shape=shape, position=position, bad=bad, setter=setter))
            out.append(inst(f"updates-{tag}", updates, kind=kind, shape=shape, count=3))
            out.append(inst(f"isolation-{tag}", isolation, kind=kind, shape=shape))
    for kind in ("plain", "history"):
        for shape in ((1,), (3,), (2, 2)):
            for setter in (False, True):
                out.append(inst(f"doubles-{kind}-{'x'.join(map(str, shape))}{'-set' if setter else ''}", doubles, kind=kind, shape=shape, setter=setter))
    for history in (False, True):
        t = "-history" if history else ""
        for key in ("llf", "low-order", "es") if not big else ("llf", "low-order", "es", "antidiffusion", "mcl", "es1"):
            out.append(inst(f"step-{key}{t}", step, family="swe", key=key, problem=None, ode="euler", history=history))
        for key in ("central", "llf", "mcl-fv"):
            out.append(inst(f"step-scalar-{key}{t}", step, family="scalar", key=key, problem="advection", ode=None, history=history))
        for key in ("cg", "cg-low"):
            out.append(inst(f"step-fem-{key}{t}", step, family="fem", key=key, problem="advection", ode=None, history=history))
    for bad in ("nan", "inf"):
        out.append(inst(f"diverged-{bad}", diverged, key="central", bad=bad))
    return out
