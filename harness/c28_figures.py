from .common import *
from .c24_command_line import parse, silent
from .c27_evolution import axis, vals, mix, same, leaves
import contextlib
import os
import shutil
import tempfile
import command.animate
import command.calculate
import command.error_evolution
import command.plot

TITLE = "figures, animations and saved curves show what was computed"
BOUNDS = ("one to three solvers on meshes of 2 to 4 cells, 2 to 5 points per exact curve, histories of 2 or 3 recorded times of any spacing of at least 0.01, any values "
          "(heights of at least 0.01), any bottom, any time to start an animation at")
OUTSIDE = "what matplotlib makes of the curves it is given (it is replaced by a recorder); axis limits and texts other than curve labels and the time shown"
EXPLANATION = ("The plotting commands run on symbolic solutions against a recorder in place of matplotlib and of the pickle module; the solver shows that the curves handed over "
               "are the computed solutions, the exact solution and the initial data, at every frame of an animation.")
TOL = 1e-9


# -- a recorder in place of matplotlib ---------------------------------------------


class Silent:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Silent()

    def __iter__(self):
        return iter((0.0, 1.0))


class Line(Silent):
    def __init__(self, x, y, label):
        self.x, self.y, self.label = x, y, label

    def get_label(self):
        return self.label

    def get_xdata(self, *a, **k):
        return self.x

    def get_ydata(self, *a, **k):
        return self.y

    def set_xdata(self, x):
        self.x = x

    def set_ydata(self, y):
        self.y = y

    def set_data(self, x, y):
        self.x, self.y = x, y


class Text(Silent):
    def __init__(self, text=""):
        self.text = text

    def set_text(self, text):
        self.text = text


class Axes(Silent):
    def __init__(self):
        self.lines, self.texts, self.areas = [], [], []

    def plot(self, x, y, *fmt, label=None, **k):
        line = Line(x, y, label if label is not None else f"_child{len(self.lines)}")
        self.lines.append(line)
        return [line]

    def fill_between(self, x, low, high, **k):
        self.areas.append((x, low, high))

    def text(self, x, y, s, **k):
        self.texts.append(Text(s))
        return self.texts[-1]

    def get_lines(self):
        return list(self.lines)

    def get_ylim(self):
        return 0.0, 1.0


class Figure(Silent):
    def __init__(self, plt, rows=1, cols=1):
        self.plt, self.num = plt, None
        self.axes = [Axes() for _ in range(rows * cols)]

    def gca(self):
        return self.axes[-1]

    def savefig(self, path, *a, **k):
        self.plt.saved[str(path)] = self


class Plt(Silent):
    def __init__(self):
        self.figures, self.saved, self.shown = [], {}, 0

    def figure(self, num=None, **k):
        return self.new(num, 1, 1)

    def new(self, num, rows, cols):
        """a figure still open under this name becomes the current one again"""
        for f in self.figures:
            if num is not None and f.num == num:
                self.figures.remove(f)
                self.figures.append(f)
                f.axes += Figure(self, rows, cols).axes
                return f
        self.figures.append(Figure(self, rows, cols))
        self.figures[-1].num = num
        return self.figures[-1]

    def subplots(self, nrows=1, ncols=1, num=None, **k):
        f = self.new(num, nrows, ncols)
        if nrows * ncols == 1:
            return f, f.axes[0]
        if 1 in (nrows, ncols):
            return f, list(f.axes)
        return f, [f.axes[i * ncols:(i + 1) * ncols] for i in range(nrows)]

    def gcf(self):
        return self.figures[-1] if self.figures else self.figure()

    def gca(self):
        return self.gcf().gca()

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def fill_between(self, *a, **k):
        return self.gca().fill_between(*a, **k)

    def savefig(self, path, *a, **k):
        self.gcf().savefig(path)

    def show(self, *a, **k):
        self.shown += 1

    def close(self, which=None, **k):
        if which is None:
            del self.figures[-1:]
        else:
            self.figures = [f for f in self.figures if which != "all" and f is not which and f.num != which]


class Pickle:
    def __init__(self):
        self.files = {}

    def dump(self, content, file, *a, **k):
        self.files[str(file.name)] = content

    def dumps(self, *a, **k):
        raise AttributeError("the recorder knows no dumps")


class Animation(Silent):
    made = []

    def __init__(self, figure, func, frames=None, interval=None, **k):
        self.figure, self.func, self.frames, self.interval = figure, func, list(frames), interval
        self.saved = None
        Animation.made.append(self)

    def save(self, path, *a, **k):
        self.saved = path


class Animations(Silent):
    FuncAnimation = Animation


@contextlib.contextmanager
def recording():
    """the modules of the commands with stand-ins; everything is put back afterwards"""
    plt, pickle = Plt(), Pickle()
    Animation.made = []
    old = []
    for mod in (command.plot, command.animate, command.error_evolution):
        for name, new in (("plt", plt), ("pickle", pickle), ("animation", Animations())):
            if hasattr(mod, name):
                old.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)
    # axis limits are left out: the extrema over all frames are useless here and expensive
    cls = command.animate.ShallowWaterAnimator
    for name, new in (("_get_min_max_values", lambda self: (np.array([0.0, 0.0]), np.array([1.0, 1.0]))), ("_get_min_max_velocities", lambda self: (0.0, 1.0))):
        if hasattr(cls, name):
            old.append((cls, name, getattr(cls, name)))
            setattr(cls, name, new)
    folder = tempfile.mkdtemp(prefix="c28-")
    try:
        with silent():
            yield plt, pickle, folder
    finally:
        for mod, name, value in old:
            setattr(mod, name, value)
        shutil.rmtree(folder, ignore_errors=True)


# -- problems --------------------------------------------------------------------------


def linear(ctx, name, comps):
    """a function of x and t with arbitrary coefficients; its first component is a height"""
    c = [[ctx.real(f"{name}{j}_{i}", lo=0.01 if j == 0 and comps == 2 else -3, hi=3) for i in range(3)] for j in range(comps or 1)]

    def f(x, t):
        v = [a[0] + a[1] * x + a[2] * t for a in c]
        return ctx.array(v) if comps else v[0]

    return f


def problem(ctx, kind, n=2, exact=True, flat=False, end=None, calm=False):
    """benchmark with arbitrary data, exact solution and bottom"""
    end = ctx.real("T", lo=0.01, hi=2) if end is None else end
    if kind == "swe":
        cells = [(ctx.real(f"h{i}", lo=1 if calm else 0.01, hi=5), ctx.real(f"q{i}", lo=-0.1 if calm else -3, hi=0.1 if calm else 3)) for i in range(n)]
        if calm:
            cells[1:] = [(4.0, 0.0)] * (n - 1)
        bottom = None
        if not flat:
            bottom = [ctx.real(f"b{i}", lo=-1, hi=1) for i in range(n)]
            ctx.assume(bottom[1] >= bottom[0] + 0.01)
        bench = StubSWE(ctx, cells, bottom=bottom, end_time=end)
    else:
        bench = StubScalar(ctx, "advection", [ctx.real(f"u{i}", lo=-3, hi=3) for i in range(n)], end_time=end)
    if exact:
        bench.exact_solution = linear(ctx, "e", 2 if kind == "swe" else 0)
    return bench


def solver_with(ctx, kind, bench, name, short, n=None, **kw):
    n = n or bench.n
    s = make_solver("swe" if kind == "swe" else "scalar", "llf", bench, "++short", short, mesh_size=n, **kw)
    if kind == "swe":
        v = [[ctx.real(f"{name}h{i}", lo=0.01, hi=5), ctx.real(f"{name}q{i}", lo=-3, hi=3)] for i in range(n)]
    else:
        v = [ctx.real(f"{name}{i}", lo=-3, hi=3) for i in range(n)]
    s.solution.set_value(ctx.array(v), s.solution.time)
    return s, v


def points(bench, n):
    a, b = bench.domain.a, bench.domain.b
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def centers(bench, n):
    a, b = bench.domain.a, bench.domain.b
    return [a + (b - a) * (i + 0.5) / n for i in range(n)]


def check_curve(ctx, name, x, y, grid, want):
    same(ctx, name + " x", list(x), grid)
    same(ctx, name + " y", list(y), want)


def check_state(ctx, name, lines, bench, grid, states):
    """lines: the curves of height, discharge and velocity"""
    for (x, _), what in zip(lines, ("h", "q", "v")):
        same(ctx, f"{name} {what} x", list(x), grid)
    (_, h), (_, q), (_, v) = lines
    same(ctx, name + " level", list(h), [s[0] + bench.bathymetry(p) for s, p in zip(states, grid)])
    same(ctx, name + " discharge", list(q), [s[1] for s in states])
    ctx.eq(name + " velocities", len(list(v)), len(states))
    for i, (s, w) in enumerate(zip(states, v)):
        near(ctx, f"{name} velocity {i}", w * s[0], s[1], 1e-6)


def only(ctx, name, lines, label):
    have = [l for l in lines if l.get_label() == label]
    ctx.eq(f"{name}: curves called {label}", len(have), 1)
    return have[0].get_xdata(), have[0].get_ydata()


def swe_figures(plt, path):
    base, ext = os.path.splitext(path)
    return [plt.saved[base + s + ext].axes[0].get_lines() for s in ("_h", "_q", "_v")]


# -- plots -----------------------------------------------------------------------------


def check_drawn(ctx, kind, bench, curves, shown, mesh):
    """curves: lines of the figures; shown: label -> (grid, values) of the solvers, in order"""
    sets = curves if kind == "swe" else [curves]
    exact = []
    if shown.get("exact", True):
        exact = [(points(bench, mesh), [bench.exact_solution(x, bench.end_time) for x in points(bench, mesh)], "exact")]
    want = exact + [(g, v, l) for l, (g, v) in shown["solvers"].items()]
    if shown.get("initial"):
        want.append((points(bench, mesh), [bench.initial_data(x) for x in points(bench, mesh)], "initial"))
    for k, lines in enumerate(sets):
        curvesleft = [l for l in lines if l.get_label() != "$b$"]
        ctx.eq(f"number of curves {k}", len(curvesleft), len(want))
    # the curves of solvers carry their names, the others are recognised by their order
    for i, (grid, values, label) in enumerate(want):
        pick = []
        for k, lines in enumerate(sets):
            lines = [l for l in lines if l.get_label() != "$b$"]
            if label in ("exact", "initial"):
                line = lines[0 if label == "exact" else -1]
                pick.append((line.get_xdata(), line.get_ydata()))
            else:
                pick.append(only(ctx, f"figure {k}", lines, label))
        if kind == "swe":
            check_state(ctx, label, pick, bench, grid, values)
        else:
            check_curve(ctx, label, *pick[0], grid, values)
    if kind == "swe" and bench.bottom is not None:
        x, y = only(ctx, "bottom", sets[0], "$b$")
        check_curve(ctx, "bottom", x, y, points(bench, mesh), [bench.bathymetry(p) for p in points(bench, mesh)])


def plot(ctx, kind, solvers, mesh, initial, exact=True, flat=False):
    bench = problem(ctx, kind, exact=exact, flat=flat)
    made = [solver_with(ctx, kind, bench, "abc"[i], f"solver{i}", n=2 + i) for i in range(solvers)]
    with recording() as (plt, pickle, folder):
        cls = command.plot.ShallowWaterPlotter if kind == "swe" else command.plot.ScalarPlotter
        pic, data = os.path.join(folder, "pic.png"), os.path.join(folder, "data.pkl")
        plotter = cls(bench, mesh_size=mesh, save_plot=pic, save_data=data, show=False)
        command.plot.Plot(bench, [s for s, _ in made] if solvers != 1 else made[0][0], plotter, initial=initial, solver_executed=True).execute()
        shown = {"solvers": {s.short: (centers(bench, len(v)), v) for s, v in made}, "initial": initial, "exact": exact}
        if not (solvers or initial or exact):
            ctx.eq("nothing is saved", len(plt.saved) + len(pickle.files), 0)
            return
        curves = swe_figures(plt, pic) if kind == "swe" else plt.saved[pic].axes[0].get_lines()
        check_drawn(ctx, kind, bench, curves, shown, mesh)

        # the saved data are the curves drawn
        if kind == "swe":
            files = [pickle.files[os.path.join(folder, f"data_{s}.pkl")] for s in "hqv"]
        else:
            files, curves = [pickle.files[data]], [curves]
        for k, (file, lines) in enumerate(zip(files, curves)):
            ctx.eq(f"curves saved {k}", len(file), len(lines))
            for l in lines:
                saved = file[l.get_label()]
                same(ctx, f"saved {k} {l.get_label()} x", list(saved["xdata"]), list(l.get_xdata()))
                same(ctx, f"saved {k} {l.get_label()} y", list(saved["ydata"]), list(l.get_ydata()))


def namesakes(ctx, kind):
    """solvers of one name are all kept"""
    bench = problem(ctx, kind, exact=False, flat=True)
    made = [solver_with(ctx, kind, bench, "abc"[i], "same", n=2 + i) for i in range(2)]
    with recording() as (plt, pickle, folder):
        cls = command.plot.ShallowWaterPlotter if kind == "swe" else command.plot.ScalarPlotter
        plotter = cls(bench, mesh_size=2, save_data=os.path.join(folder, "data.pkl"), show=False)
        command.plot.Plot(bench, [s for s, _ in made], plotter, solver_executed=True).execute()
        for name, file in pickle.files.items():
            name = os.path.basename(name)
            ctx.eq(f"curves saved in {name}", len(file), 2)
            if kind == "scalar" or name == "data_q.pkl":
                got = list(file.values())
                for g, (s, v) in zip(got, made):
                    same(ctx, f"{name} {len(v)}", list(g["ydata"]), [x[1] if kind == "swe" else x for x in v])


def drifting(ctx, kind, bench, key, **kw):
    """a solver whose rates of change are arbitrary constants: its solution is no large term"""
    s = make_solver(kind, key, bench, "++short", key, "++cfl", "0.5", **kw)
    n = bench.n
    if kind == "swe":
        rate = [[ctx.real(f"{key}r{i}{j}", lo=-1, hi=1) for j in range(2)] for i in range(n)]
    else:
        rate = [ctx.real(f"{key}r{i}", lo=-1, hi=1) for i in range(n)]
    s._ode_solver = core.ForwardEuler(lambda t, v: ctx.array(rate), s.solution.value, initial_time=s.solution.time)
    return s


class Broken(Exception):
    pass


def executed(ctx, kind, command_name, broken):
    """the solvers are solved first; one that fails is shown as far as it came and spoils nothing"""
    bench = problem(ctx, kind, n=3, end=0.01, calm=True, flat=True)
    solvers = [drifting(ctx, kind, bench, key) for key in ("llf", "central")]
    twins = [drifting(ctx, kind, bench, key) for key in ("llf", "central")]
    if broken:
        def fail(*a, **k):
            raise Broken("no solution")

        solvers[0].solve = fail
    with recording() as (plt, pickle, folder):
        for i, t in enumerate(twins):
            if not (broken and i == 0):
                command.calculate.Calculate(t).execute()
        pic = os.path.join(folder, "pic.png")
        cls = command.plot.ShallowWaterPlotter if kind == "swe" else command.plot.ScalarPlotter
        command.plot.Plot(bench, solvers, cls(bench, mesh_size=2, save_plot=pic, show=False)).execute()
        curves = swe_figures(plt, pic) if kind == "swe" else plt.saved[pic].axes[0].get_lines()
        check_drawn(ctx, kind, bench, curves, {"solvers": {t.short: (centers(bench, 3), list(t.solution.value)) for t in twins}}, 2)


# -- animations -------------------------------------------------------------------------


def record(ctx, solver, ts, states):
    """a solver whose history is the given one"""
    space = solver.solution.space
    h = core.DiscreteSolutionWithHistory(core.DiscreteSolution(ctx.array(states[0]), initial_time=ts[0], space=space))
    for i in range(1, len(ts)):
        h.update(ts[i] - ts[i - 1], ctx.array(states[i]))
    solver.solution = h
    return solver


def at(ts, order, t, v):
    """linear interpolation of the recorded values v at ts[i], where t is a time of the axis"""
    k = order(t)
    pos = [order(x) for x in ts]
    if k in pos:
        return v[pos.index(k)]
    i = max(j for j, p in enumerate(pos) if p < k)
    lo, hi = ts[i], ts[i + 1]
    return mix(v[i], v[i + 1], (t - lo) / (hi - lo))


def animate(ctx, kind, lengths, steps, initial, exact=True, late=None, cells=2):
    """histories over [0, T]; all recorded times differ between the solvers except first and last"""
    end = ctx.real("T", lo=1, hi=2)
    bench = problem(ctx, kind, end=end, exact=exact)
    named, recorded = [], []  # the axis of all times, in order
    inner = [ctx.real(f"s{i}", lo=0, hi=2) for i in range(sum(n - 2 for n in lengths))]
    grid = [end * i / (steps - 1) for i in range(steps)] if exact or initial else [0.0, end]
    times = [0.0]
    middle = inner + list(grid[1:-1])
    if len(inner) == 2:
        ctx.assume(inner[1] >= inner[0] + 0.01)
    for g in grid[1:-1]:
        for x in inner:
            ctx.assume(ctx.any(x >= g + 0.01, x <= g - 0.01))
    for x in inner:
        ctx.assume(ctx.all(x >= 0.01, x <= end - 0.01))
    ordered = [0.0] + sort(middle) + [end]

    def order(t):
        return next(i for i, x in enumerate(ordered) if x is t)

    solvers, histories, k = [], [], 0
    for i, n in enumerate(lengths):
        mine = [ordered[0], *inner[k:k + n - 2], end]
        k += n - 2
        states = [[[ctx.real(f"{i}h{a}_{c}", lo=0.01, hi=5), ctx.real(f"{i}q{a}_{c}", lo=-3, hi=3)] if kind == "swe" else ctx.real(f"{i}u{a}_{c}", lo=-3, hi=3)
                   for c in range(cells)] for a in range(n)]
        s = make_solver("swe" if kind == "swe" else "scalar", "llf", bench, "++short", f"solver{i}", mesh_size=cells)
        solvers.append(record(ctx, s, mine, states))
        histories.append((mine, states))
    start = None
    if late:
        start = ctx.real("start", lo=0.01, hi=1)
        for x in ordered:
            ctx.assume(ctx.any(x >= start + 0.001, x <= start - 0.001))
    wanted = ordered if start is None else [x for x in ordered if bool(x >= start)]

    with recording() as (plt, pickle, folder):
        cls = command.animate.ShallowWaterAnimator if kind == "swe" else command.animate.ScalarAnimator
        movie = os.path.join(folder, "a.mp4")
        animator = cls(bench, mesh_size=3, time_steps=steps, start_time=start, save=movie, show=False, duration=10.0)
        command.animate.Animate(bench, solvers if len(solvers) != 1 else solvers[0], animator, initial=initial, solver_executed=True).execute()
        ctx.eq("animations", len(Animation.made), 1)
        made = Animation.made[0]
        ctx.true("saved", made.saved == movie)
        ctx.eq("frames", len(made.frames), len(wanted))
        ps = points(bench, 3)
        for frame, t in zip(made.frames, wanted):
            made.func(frame)
            axes = made.figure.axes
            want = [(f"solver{i}", centers(bench, cells), at(mine, order, t, states)) for i, (mine, states) in enumerate(histories)]
            if exact:
                want.append(("exact", ps, [bench.exact_solution(x, t) for x in ps]))
            if initial:
                want.append(("initial", ps, [bench.initial_data(x) for x in ps]))
            texts = [x.text for a in axes for x in a.texts]
            ctx.true(f"time shown in frame {order(t)}", any(f"{t:.2f}" in x for x in texts))
            sets = [[l for l in a.get_lines() if l.get_label() != "$b$"] for a in axes]
            for j, (label, g, values) in enumerate(want):
                pick = []
                for k, lines in enumerate(sets):
                    ctx.eq(f"curves in figure {k} of frame {order(t)} {label}", len(lines), len(want))
                    if label.startswith("solver"):
                        pick.append(only(ctx, f"frame {order(t)}.{k}", lines, label))
                    else:
                        pick.append((lines[j].get_xdata(), lines[j].get_ydata()))
                name = f"frame {order(t)} {label}"
                if kind == "swe":
                    check_state(ctx, name, pick, bench, g, values)
                else:
                    check_curve(ctx, name, *pick[0], g, values)


def sort(xs):
    out = []
    for x in xs:
        i = 0
        while i < len(out) and bool(out[i] < x):
            i += 1
        out.insert(i, x)
    return out


# -- error evolutions ---------------------------------------------------------------------


def errors(ctx, n, m):
    """the curves of an error evolution are the relative errors of height and discharge"""
    bench = problem(ctx, "swe", flat=True, exact=False, end=1.0)
    ts = axis(ctx, 2)
    states = [[[[ctx.real(f"{w}{k}{i}{j}", lo=0.1, hi=3) for j in range(2)] for i in range(2)] for k in range(2)] for w in "vw"]
    solvers = [record(ctx, make_solver("swe", "llf", bench), ts, s) for s in states]
    with recording() as (plt, pickle, folder):
        pic = os.path.join(folder, "e.png")
        command.error_evolution.PlotShallowWaterErrorEvolution(solvers, save=pic, show=False, solver_executed=True).execute()
        lines = [l for a in plt.saved[pic].axes for l in a.get_lines()]
        ctx.eq("curves", len(lines), 2)
        for j, l in enumerate(lines):
            same(ctx, f"times {j}", list(l.get_xdata()), ts)
            for k, e in enumerate(l.get_ydata()):
                ref = sum(states[1][k][i][j] ** 2 for i in range(2))
                ctx.ge(f"sign {j}.{k}", e, 0.0)
                near(ctx, f"error {j}.{k}", e * e * ref, sum((states[0][k][i][j] - states[1][k][i][j]) ** 2 for i in range(2)), 1e-7)


def average(ctx, count):
    """mean and maximum of error curves"""
    ts = axis(ctx, 2)
    es = [vals(ctx, (2, 2), f"e{i}") for i in range(count)]
    with recording() as (plt, pickle, folder):
        pic = os.path.join(folder, "e.png")
        command.error_evolution.PlotShallowWaterAverageErrorEvolution([ctx.array(ts)] * count, [ctx.array(e) for e in es], save=pic, show=False).execute()
        for j, s in enumerate(("_h", "_q")):
            axes = plt.saved[os.path.join(folder, f"e{s}.png")].axes[0]
            (line,) = axes.get_lines()
            mean = [sum(e[k][j] for e in es) / count for k in range(2)]
            check_curve(ctx, f"mean {j}", line.get_xdata(), line.get_ydata(), ts, mean)
            ((x, low, high),) = axes.areas
            check_curve(ctx, f"low {j}", x, low, ts, mean)
            for k in range(2):
                for i, e in enumerate(es):
                    ctx.ge(f"maximum {j}.{k}.{i}", high[k], e[k][j] - TOL)
                ctx.true(f"attained {j}.{k}", ctx.any(*[high[k] <= e[k][j] + TOL for e in es]))


def series(ctx, count, plots):
    """the errors and figures of a series belong to its benchmarks, each solved by both solvers"""
    module = command.error_evolution
    benches = [StubSWE(ctx, [(1 + ctx.real(f"{k}h{i}", lo=0, hi=1), ctx.real(f"{k}q{i}", lo=0.05, hi=0.1)) for i in range(2)], end_time=0.01) for k in range(count)]
    for k, b in enumerate(benches):
        b.seed = k
    first = StubSWE(ctx, [(1.0, 0.0)] * 2, end_time=0.01)
    pair = lambda bench: [drifting(ctx, "swe", bench, key, save_history=True) for key in ("llf", "lw")]
    a, b = pair(first)
    left = list(benches)
    with recording() as (plt, pickle, folder):
        generator = module.GenerateShallowWaterErrorEvolutionSeries(a, b, seed=1, initial_conditions=count, save_directory=folder if plots else None, save_plot=plots,
                                                                    save_animation=plots, save_error=plots, description="test")
        generator._get_benchmark = lambda: left.pop(0)
        generator.execute()
        ctx.eq("number of errors", len(generator.errors), count)
        ctx.eq("number of times", len(generator.times), count)
        for k, bench in enumerate(benches):
            twins = pair(bench)
            for t in twins:
                command.calculate.Calculate(t).execute()
            time, error = module.ErrorEvolutionCalculator()(twins[0].solution, twins[1].solution)
            same(ctx, f"times {k}", list(generator.times[k]), list(time))
            same(ctx, f"errors {k}", generator.errors[k], error)
            if plots:
                curves = swe_figures(plt, os.path.join(folder, f"plot_{k}.png"))
                check_drawn(ctx, "swe", bench, curves, {"solvers": {t.short: (centers(bench, 2), list(t.solution.value)) for t in twins}, "exact": False}, None)
                ctx.true(f"animation {k}", any(m.saved == os.path.join(folder, f"animation_{k}.mp4") for m in Animation.made))
                lines = [l for x in plt.saved[os.path.join(folder, f"error_{k}.png")].axes for l in x.get_lines()]
                ctx.eq(f"error curves {k}", len(lines), 2)
                for j, l in enumerate(lines):
                    check_curve(ctx, f"error curve {k}.{j}", l.get_xdata(), l.get_ydata(), list(time), [e[j] for e in error])


# -- command lines ----------------------------------------------------------------------------


def plot_line(ctx, problem_name, bench_name, keys, initial):
    end, text = ctx.real("T", lo=1e-4, hi=2e-3), ctx.real_text("T", lo=1e-4, hi=2e-3)
    with recording() as (plt, pickle, folder):
        pic, data = os.path.join(folder, "pic.png"), os.path.join(folder, "data.pkl")
        argv = ["plot", problem_name, "-b", bench_name, "-T", text, "-m", "3", "--save", pic, "--save-data", data, "--hide"]
        argv += ["--initial"] if initial else []
        argv += ["-s", *[x for i, k in enumerate(keys) for x in (k, "+m", "4", "++short", f"solver{i}")]] if keys else []
        args = parse(ctx, *argv)
        rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
        bench = args.benchmark
        args.command(**rest).execute()
        ctx.eq("end time", bench.end_time, end)
        curves = swe_figures(plt, pic) if problem_name == "swe" else [plt.saved[pic].axes[0].get_lines()]
        files = [pickle.files[os.path.join(folder, f"data_{s}.pkl")] for s in "hqv"] if problem_name == "swe" else [pickle.files[data]]
        for i, k in enumerate(keys):
            s = args.solver[i]
            ctx.eq(f"solver {i} reached the end time", s.solution.time, end)
            v = list(s.solution.value)
            pick = [only(ctx, f"figure {j}", lines, f"solver{i}") for j, lines in enumerate(curves)]
            if problem_name == "swe":
                for p, q in zip(pick, (0, 1)):
                    check_curve(ctx, f"solver {i}.{q}", *p, centers(bench, 4), [x[q] + (bench.bathymetry(y) if q == 0 else 0) for x, y in zip(v, centers(bench, 4))])
            else:
                check_curve(ctx, f"solver {i}", *pick[0], centers(bench, 4), v)
            ctx.true(f"saved {i}", all(f"solver{i}" in f for f in files))
        if initial:
            line = [l for l in curves[0] if l.get_label() != "$b$"][-1]
            start = [bench.initial_data(x) for x in points(bench, 3)]
            if problem_name == "swe":
                start = [s[0] + bench.bathymetry(x) for s, x in zip(start, points(bench, 3))]
            check_curve(ctx, "initial", line.get_xdata(), line.get_ydata(), points(bench, 3), start)


def animate_line(ctx, problem_name, bench_name, keys, initial, late):
    end, text = ctx.real("T", lo=1e-4, hi=2e-3), ctx.real_text("T", lo=1e-4, hi=2e-3)
    with recording() as (plt, pickle, folder):
        movie = os.path.join(folder, "a.mp4")
        argv = ["animate", problem_name, "-b", bench_name, "-T", text, "-m", "3", "--time_steps", "3", "--save", movie, "--hide"]
        argv += ["--initial"] if initial else []
        if late:
            argv += ["-t", ctx.real_text("start", lo=1e-5, hi=1e-3)]
            start = ctx.real("start", lo=1e-5, hi=1e-3)
            ctx.assume(start <= end - 1e-6)
            ctx.assume(ctx.any(start <= end / 2 - 1e-6, start >= end / 2 + 1e-6))
        argv += ["-s", *[x for i, k in enumerate(keys) for x in (k, "+m", "4", "++short", f"solver{i}")]] if keys else []
        args = parse(ctx, *argv)
        rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
        args.command(**rest).execute()
        made = Animation.made[0]
        ctx.true("saved", made.saved == movie)
        ctx.eq("end time", args.benchmark.end_time, end)
        for i in range(len(keys)):
            s = args.solver[i]
            ctx.eq(f"solver {i} reached the end time", s.solution.time, end)
            made.func(made.frames[-1])
            last = only(ctx, "last", made.figure.axes[0].get_lines(), f"solver{i}")[1]
            want = [x[0] + args.benchmark.bathymetry(y) for x, y in zip(s.solution.value, centers(args.benchmark, 4))] if problem_name == "swe" else list(s.solution.value)
            same(ctx, f"last frame {i}", list(last), want)
            if not late:
                made.func(made.frames[0])
                first = only(ctx, "first", made.figure.axes[0].get_lines(), f"solver{i}")[1]
                v = s.solution.value_history[0]
                want = [x[0] + args.benchmark.bathymetry(y) for x, y in zip(v, centers(args.benchmark, 4))] if problem_name == "swe" else list(v)
                same(ctx, f"first frame {i}", list(first), want)
        if late:
            # the exact solution is drawn at three times: 0, T / 2 and T
            ctx.eq("frames after the start", len(made.frames), 2 if bool(ctx.real("start", lo=1e-5, hi=1e-3) <= end / 2) else 1)


def instances(tier):
    big = tier == "thorough"
    out = []
    for kind in ("scalar", "swe"):
        for solvers in (0, 1, 2) + ((3,) if big else ()):
            for initial in (False, True):
                for exact in (False, True):
                    for flat in ((True, False) if kind == "swe" else (True,)):
                        out.append(inst(f"plot-{kind}-{solvers}{'-initial' * initial}{'-exact' * exact}{'-flat' * (flat and kind == 'swe')}", plot, kind=kind, solvers=solvers,
                                        mesh=3 if not big else 5, initial=initial, exact=exact, flat=flat))
        out.append(inst(f"namesakes-{kind}", namesakes, kind=kind))
        for broken in (False, True):
            out.append(inst(f"executed-{kind}{'-broken' * broken}", executed, kind=kind, command_name="plot", broken=broken))
        for lengths in ((2,), (3,), (2, 3), (3, 2), (3, 3)) if kind == "scalar" or big else ((2,), (3,), (2, 3)):
            out.append(inst(f"animate-{kind}-{''.join(map(str, lengths))}", animate, kind=kind, lengths=lengths, steps=3, initial=False))
            out.append(inst(f"animate-{kind}-{''.join(map(str, lengths))}-late", animate, kind=kind, lengths=lengths, steps=3, initial=True, exact=len(lengths) == 1, late=True))
    out.append(inst("errors", errors, n=2, m=2))
    for n in (1, 2) + ((3,) if big else ()):
        for plots in (False, True):
            out.append(inst(f"series-{n}{'-plots' * plots}", series, count=n, plots=plots))
    for n in (1, 2, 3):
        out.append(inst(f"average-{n}", average, count=n))
    for p, b in (("advection", "one-hill"), ("swe", "lake-at-rest-no-bathymetry")):
        for keys in (("llf",), ("llf", "central"), ()):
            if p != "swe" or keys:
                out.append(inst(f"plot-line-{p}-{len(keys)}", plot_line, problem_name=p, bench_name=b, keys=keys, initial=True))
                if keys == ("llf",):
                    out.append(inst(f"animate-line-{p}-late", animate_line, problem_name=p, bench_name=b, keys=keys, initial=False, late=True))
                out.append(inst(f"animate-line-{p}-{len(keys)}", animate_line, problem_name=p, bench_name=b, keys=keys, initial=True, late=False))
    return out
