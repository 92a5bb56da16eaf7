from .common import *
from command.error_evolution import ErrorEvolutionCalculator

TITLE = "solutions with different time steps are compared on a common time axis"
BOUNDS = "two to four recorded times, any spacing of at least 0.01, one to two cells, scalar and two component values, any values in [-3, 3]"
OUTSIDE = "longer histories (the interpolation treats every interval alike); rounding"
EXPLANATION = ("Interpolators and the error evolution are executed with symbolic times, grids and values; every order of the times is a path of its own. The solver shows that "
               "results are the piecewise linear interpolants and the relative errors formed with them.")
TOL = 1e-9


def axis(ctx, n, name="t"):
    out = [ctx.real(name + "0", lo=-5, hi=5)]
    for i in range(1, n):
        out.append(out[-1] + ctx.real(f"d{name}{i}", lo=0.01, hi=5))
    return out


def inner(ctx, xs, i, name):
    """any point of interval i, as weight and point"""
    w = ctx.real(name, lo=0, hi=1)
    return w, xs[i] + w * (xs[i + 1] - xs[i])


def vals(ctx, shape, name="v"):
    if not shape:
        return ctx.real(name, lo=-3, hi=3)
    return [vals(ctx, shape[1:], f"{name}_{i}") for i in range(shape[0])]


def mix(a, b, w):
    if isinstance(a, list):
        return [mix(x, y, w) for x, y in zip(a, b)]
    return a + w * (b - a)


def leaves(x):
    if isinstance(x, (list, tuple)) or getattr(x, "ndim", 0):
        return [y for e in x for y in leaves(e)]
    return [x]


def same(ctx, name, a, b):
    a, b = leaves(a), leaves(b)
    ctx.eq(name + " size", len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        near(ctx, f"{name} {i}", x, y, TOL)


def temporal(ctx, n, shape):
    ts = axis(ctx, n)
    v = vals(ctx, (n, *shape))
    new, want = [ts[0]], [v[0]]
    for i in range(n - 1):
        w, t = inner(ctx, ts, i, f"w{i}")
        new.append(t)
        want.append(mix(v[i], v[i + 1], w))
        new.append(ts[i + 1])
        want.append(v[i + 1])
    old_t, old_v = ctx.array(ts), ctx.array(v)
    r = core.TemporalInterpolator()(old_t, old_v, ctx.array(new))
    same(ctx, "value", r, want)
    same(ctx, "times are unchanged", old_t, ts)
    same(ctx, "values are unchanged", old_v, v)


def beyond(ctx, n, shape, before, after):
    """the requested times begin earlier or end later than the recorded ones"""
    ts = axis(ctx, n)
    v = vals(ctx, (n, *shape))
    new, want = [], []
    if before:
        new.append(ts[0] - ctx.real("early", lo=0.01, hi=5))
        want.append(None)
    for i in range(n - 1):
        w, t = inner(ctx, ts, i, f"w{i}")
        new.append(t)
        want.append(mix(v[i], v[i + 1], w))
    if after:
        new.append(ts[-1] + ctx.real("late", lo=0.01, hi=5))
        want.append(None)
    old_t, old_v = ctx.array(ts), ctx.array(v)
    r = core.TemporalInterpolator()(old_t, old_v, ctx.array(new))
    ctx.eq("number of states", len(r), len(new))
    for k, x in enumerate(want):
        if x is not None:
            same(ctx, f"value {k}", r[k], x)
    same(ctx, "times are unchanged", old_t, ts)
    same(ctx, "values are unchanged", old_v, v)


def spatial(ctx, n, times, comps):
    xs = axis(ctx, n, "x")
    v = vals(ctx, (times, n, *((comps,) if comps else ())))
    new = [xs[0] - ctx.real("before", lo=0, hi=3)]
    want = [[row[0]] for row in v]
    for i in range(n - 1):
        w, x = inner(ctx, xs, i, f"w{i}")
        new.append(x)
        for k, row in enumerate(v):
            want[k].append(mix(row[i], row[i + 1], w))
    new.append(xs[-1] + ctx.real("after", lo=0, hi=3))
    for k, row in enumerate(v):
        want[k].append(row[-1])
    r = core.SpatialInterpolator()(ctx.array(xs), ctx.array(v), ctx.array(new))
    same(ctx, "value", r, want)


def history(ctx, space, ts, v):
    h = core.DiscreteSolutionWithHistory(core.DiscreteSolution(ctx.array(v[0]), initial_time=ts[0], space=space))
    for i in range(1, len(ts)):
        h.update(ts[i] - ts[i - 1], ctx.array(v[i]))
    return h


def evolution(ctx, n, m, comps):
    """history of n states against a reference of m states"""
    cells = 2
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), cells))
    shape = (cells, comps) if comps else (cells,)
    ts = axis(ctx, max(n, m))
    short = ts[:1] + [ts[-1]] if min(n, m) == 2 else ts[:1] + ts[-(min(n, m) - 1):]
    v, w = vals(ctx, (n, *shape), "v"), vals(ctx, (m, *shape), "w")
    for state in w:
        for x in leaves(state):
            ctx.assume(x >= 0.1)  # relative errors need a reference

    a = history(ctx, space, ts if n >= m else short, v)
    b = history(ctx, space, ts if m >= n else short, w)
    time, err = ErrorEvolutionCalculator()(a, b)

    def spread(x, have):
        out = []
        for t in ts:
            for i in range(len(have) - 1):
                lo, hi = have[i], have[i + 1]
                if position(ts, t) <= position(ts, hi) or i == len(have) - 2:
                    out.append(mix(x[i], x[i + 1], (t - lo) / (hi - lo)) if t is not lo and t is not hi else x[i + (t is hi)])
                    break
        return out

    v2 = v if len(v) == len(ts) else spread(v, short)
    w2 = w if len(w) == len(ts) else spread(w, short)
    same(ctx, "times", time, ts)
    for k in range(len(ts)):
        for j in range(comps or 1):
            d = [(x[j] if comps else x) - (y[j] if comps else y) for x, y in zip(v2[k], w2[k])]
            r = [(y[j] if comps else y) for y in w2[k]]
            e = err[k][j] if comps else err[k]
            ctx.ge(f"error sign {k}.{j}", e, 0.0)
            near(ctx, f"error {k}.{j}", e * e * sum(y * y for y in r), sum(x * x for x in d), 1e-7)


def at(xs, v, t):
    """piecewise linear interpolation, one path for every place of t"""
    for i in range(len(xs) - 1):
        if i == len(xs) - 2 or t <= xs[i + 1]:
            return mix(v[i], v[i + 1], (t - xs[i]) / (xs[i + 1] - xs[i]))


def crossing(ctx, n, m, places, comps):
    """both histories have times of their own between the same end points; places: the
    interval of the coarser axis in which each inner point of the finer one lies"""
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
    shape = (2, comps) if comps else (2,)
    coarse = axis(ctx, min(n, m))
    fine, weights, last = coarse[:1], [], {}
    for k, i in enumerate(places):
        w = ctx.real(f"place{k}", lo=0.01, hi=0.99)
        if i in last:
            ctx.assume(w - last[i] >= 0.01)
        last[i] = w
        weights.append((i, w))
        fine.append(coarse[i] + w * (coarse[i + 1] - coarse[i]))
    fine.append(coarse[-1])
    ts, ss = (fine, coarse) if n > m else (coarse, fine)
    v, w = vals(ctx, (n, *shape), "v"), vals(ctx, (m, *shape), "w")
    for state in w:
        for x in leaves(state):
            ctx.assume(x >= 0.1)
    time, err = ErrorEvolutionCalculator()(history(ctx, space, ts, v), history(ctx, space, ss, w))
    common = fine if len(time) == len(fine) and all(bool(abs(time[i] - fine[i]) <= 1e-9) for i in range(1, len(fine) - 1)) else coarse
    same(ctx, "times", time, common)

    def value(xs, x, k):
        if xs is common:
            return x[k]
        if common is not fine:
            return at(xs, x, common[k])
        if k in (0, len(common) - 1):
            return x[0 if k == 0 else -1]
        i, a = weights[k - 1]
        return mix(x[i], x[i + 1], a)

    for k in range(len(common)):
        x, y = value(ts, v, k), value(ss, w, k)
        for j in range(comps or 1):
            d = [(a[j] if comps else a) - (b[j] if comps else b) for a, b in zip(x, y)]
            r = [(b[j] if comps else b) for b in y]
            e = err[k][j] if comps else err[k]
            ctx.ge(f"error sign {k}.{j}", e, 0.0)
            near(ctx, f"error {k}.{j}", e * e * sum(b * b for b in r), sum(a * a for a in d), 1e-7)


def position(ts, t):
    return [i for i, x in enumerate(ts) if x is t][0]


def identical(ctx, n):
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 2))
    ts = axis(ctx, n)
    v = vals(ctx, (n, 2))
    for state in v:
        for x in state:
            ctx.assume(x >= 0.1)
    time, err = ErrorEvolutionCalculator()(history(ctx, space, ts, v), history(ctx, space, ts, v))
    for k in range(n):
        near(ctx, f"no error {k}", err[k], 0.0, 1e-12)


def average(ctx, comps):
    """error curves averaged over benchmarks live on the shortest time axis"""
    from command.error_evolution import PlotShallowWaterAverageErrorEvolution

    ts = axis(ctx, 3)
    short = [ts[0], ts[2]]
    e, f = vals(ctx, (3, comps), "e"), vals(ctx, (2, comps), "f")
    for order in (0, 1):
        times, errors = [ctx.array(ts), ctx.array(short)], [ctx.array(e), ctx.array(f)]
        if order:
            times, errors = times[::-1], errors[::-1]
        time, curves = PlotShallowWaterAverageErrorEvolution(times, errors, show=False)._adjust_errors()
        same(ctx, f"times {order}", time, short)
        same(ctx, f"long {order}", curves[order], [e[0], e[2]])
        same(ctx, f"short {order}", curves[1 - order], f)


def instances(tier):
    big = tier == "thorough"
    out = []
    for n in (2, 3) + ((4,) if big else ()):
        for shape in ((), (2,), (2, 2)):
            out.append(inst(f"temporal-{n}-{'x'.join(map(str, shape)) or 'scalar'}", temporal, n=n, shape=shape))
        for shape in ((), (2,), (2, 2)):
            for b, a in ((1, 0), (0, 1), (1, 1)):
                out.append(inst(f"beyond-{n}-{'x'.join(map(str, shape)) or 'scalar'}-{b}{a}", beyond, n=n, shape=shape, before=b, after=a))
        for times, comps in ((1, 0), (2, 0), (2, 2)):
            out.append(inst(f"spatial-{n}-{times}-{comps}", spatial, n=n, times=times, comps=comps))
    for n, m in ((2, 2), (3, 2), (2, 3), (3, 3)) + (((4, 2), (4, 3), (3, 4)) if big else ()):
        for comps in (0, 2):
            out.append(inst(f"evolution-{n}-{m}-{comps}", evolution, n=n, m=m, comps=comps))
    for n, m, places in ((3, 3, (0,)), (3, 3, (1,)), (4, 3, (0, 1)), (3, 4, (0, 1))) + (((4, 3, (0, 0)), (4, 3, (1, 1)), (4, 4, (0, 1)), (4, 4, (1, 2)), (4, 4, (0, 2))) if big else ()):
        for comps in (0, 2):
            out.append(inst(f"crossing-{n}-{m}-{''.join(map(str, places))}-{comps}", crossing, n=n, m=m, places=places, comps=comps))
    for n in (1, 2, 3):
        out.append(inst(f"identical-{n}", identical, n=n))
    out.append(inst("average", average, comps=2))
    return out
