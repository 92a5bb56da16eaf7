from .common import *
from .c24_command_line import parse, silent
from .c28_figures import recording, check_curve, swe_figures, check_drawn, centers, Animation, TOL
import os
import command
import command.error_evolution
import command.parameter_variation_test as pvt

TITLE = "parameter studies vary what they say and average what they computed"
BOUNDS = ("one or two initial data per parameter value on two cells, any states, any constant rates of change, any end time; every variation, alone and in sequence, with and "
          "without references")
OUTSIDE = "the random initial data themselves; more than two initial data per value; what matplotlib makes of the curves"
EXPLANATION = ("The command runs from its command line with solvers on symbolic states and a recorder in place of matplotlib and of the random benchmarks; the solver shows that "
               "each parameter value is studied under its own name, with the seed and the end time given, and that its averages are those of its own errors.")


class Random:
    """in place of the random benchmarks: notes what was asked for"""

    ctx, n, made, limit, end = None, 2, [], None, None

    def __init__(self, seed=None, end_time=None, **parameters):
        self.seed, self.end_time, self.parameters, self.drawn = seed, end_time, parameters, []
        self.no = len(Random.made)
        Random.made.append(self)

    def __call__(self, seed=None):
        k = len(self.drawn)
        if k >= 4:
            raise AttributeError("too many benchmarks drawn")
        no, ctx = self.no % Random.limit, Random.ctx  # later parameter values meet the same data again
        end = Random.end if self.end_time is None else self.end_time  # whether it was given is decided by the instance "end-time"
        b = StubSWE(ctx, [(1 + ctx.real(f"g{no}{k}h{i}", lo=0, hi=1), ctx.real(f"g{no}{k}q{i}", lo=0.05, hi=0.1)) for i in range(Random.n)], end_time=end,
                    dx=50.0)
        b.seed = 11 + k  # the data of another parameter value may have the same seed
        self.drawn.append(b)
        return b


def rates(ctx, solver, name):
    """arbitrary constant rates of change"""
    rate = [[ctx.real(f"{name}r{i}{j}", lo=-0.01, hi=0.01) for j in range(2)] for i in range(2)]
    solver._ode_solver = core.ForwardEuler(lambda t, v: ctx.array(rate), solver.solution.value, initial_time=solver.solution.time)


def wanted(variations):
    """(name, value, further parameters, label) of every parameter value to be studied"""
    names = list(pvt.PARAMETER_VARIATIONS) if "all" in variations else variations
    out = []
    for n in names:
        v = {"height-average": ("height_average", "H0", [0.8 * pvt.HEIGHT_AVERAGE, 1.2 * pvt.HEIGHT_AVERAGE], {"height_wave_number": 2}),
             "wave-number": ("height_wave_number", "kh", [10, 15], {}),
             "amplitude": ("height_amplitude", "A", [0.8, 1.0, 1.5], {})}[n]
        out += [(v[0], x, v[3], v[1]) for x in v[2]]
    return out


def studied(ctx, variations, count, references=None, prefix=None, plots=(), slash=True, limit=1, timed=False):
    end = ctx.real("T", lo=0.01, hi=0.02)
    text = ctx.real_text("T", lo=0.01, hi=0.02)
    two = ["-s", "llf", "+m", "2", "++short", "first", "lw", "+m", "2", "++short", "second"]
    Random.ctx, Random.made, Random.limit, Random.end = ctx, [], limit, end
    module = command.error_evolution
    old = module.shallow_water
    fake = type("ShallowWater", (), {"__getattr__": lambda self, n: Random if n == "RandomBenchmarkGenerator" else getattr(old, n)})()
    with recording() as (plt, pickle, folder):
        module.shallow_water = fake
        try:
            where = os.path.join(folder, "results") + ("/" if slash else "")
            argv = ["parameter-variation-test", where, "-T", text, *two, "-n", str(count), "--seed", "11", *plots]
            argv += [] if references is None else ["--references", *references]
            argv += [] if prefix is None else ["--references-prefix", prefix]
            argv += [] if variations is None else ["-v", *variations]
            args = parse(ctx, *argv)
            for name in ("solver_approximation", "solver_exact"):
                rates(ctx, getattr(args, name), name[7])
            pair = (args.solver_approximation, args.solver_exact)
            rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
            with silent():
                args.command(**rest).execute()
        finally:
            module.shallow_water = old
        cases = []
        if references is not None:
            d = references[0] if references else "references"
            cases.append((d, f"{d}/{prefix or 'error'}_average", {}))
        for name, x, more, short in wanted(variations or []):
            cases.append((f"{name}/{x}", f"{name}/{short}_{x}_average", {name: x, **more}))
        ctx.eq("generators", len(Random.made), len(cases))
        if not slash:
            inside = os.path.join(folder, "results") + os.sep
            ctx.true("something saved", bool(plt.saved))
            ctx.true("saved inside the directory given", all(os.path.normpath(p).startswith(inside) for p in plt.saved))
            return
        ctx.true("nothing shown", plt.shown == 0)
        for (place, picture, parameters), gen in zip(cases, Random.made):
            if timed:
                ctx.true(f"{place}: end time given", gen.end_time is not None)
            if gen.end_time is not None:
                ctx.eq(f"{place}: end time", gen.end_time, end)
            ctx.eq(f"{place}: seed", gen.seed, 11)
            ctx.true(f"{place}: parameters {sorted(gen.parameters)}", sorted(gen.parameters) == sorted(parameters))
            for k, v in parameters.items():
                ctx.eq(f"{place}: {k}", gen.parameters[k], v)
            ctx.eq(f"{place}: initial data", len(gen.drawn), count)
            if gen.no < limit:
                check_study(ctx, plt, os.path.join(folder, "results"), place, picture, gen, pair, plots)
            else:
                for j in "hq":
                    ctx.true(f"{place}: average {j}", os.path.join(folder, "results", f"{picture}_{j}.png") in files(plt))
    ctx.true("first solver", pair[0].short == "first" and type(pair[0]).__name__ != type(pair[1]).__name__)


def files(plt):
    return {os.path.normpath(p): f for p, f in plt.saved.items()}


def check_study(ctx, plt, folder, place, picture, gen, pair, plots):
    """errors and their averages are those of the benchmarks drawn"""
    saved = files(plt)
    times, errors = [], []
    for k, bench in enumerate(gen.drawn):
        for s in pair:
            s.reinitialize(bench)
            ctx.eq(f"{place}: its own initial data {k}", s.solution.value, ctx.array([list(c) for c in bench.cells]))
            with silent():
                command.calculate.Calculate(s).execute()
        t, e = command.error_evolution.ErrorEvolutionCalculator()(pair[0].solution, pair[1].solution)
        times.append(list(t))
        errors.append(e)
        lines = [l for x in saved[os.path.normpath(os.path.join(folder, place, f"error_{k}.png"))].axes for l in x.get_lines()]
        ctx.eq(f"{place}: error curves {k}", len(lines), 2)
        for j, l in enumerate(lines):
            check_curve(ctx, f"{place}: error curve {k}.{j}", l.get_xdata(), l.get_ydata(), times[k], [r[j] for r in e])
        ctx.true(f"{place}: plot {k}", any(p == os.path.normpath(os.path.join(folder, place, f"plot_{k}_h.png")) or p.startswith(os.path.normpath(os.path.join(folder, place, f"plot_{k}"))) for p in saved) == ("--save-plot" in plots))
        ctx.true(f"{place}: animation {k}", any(m.saved and os.path.normpath(m.saved) == os.path.normpath(os.path.join(folder, place, f"animation_{k}.mp4")) for m in Animation.made) == ("--save-animation" in plots))
    for j, c in enumerate("hq"):
        axes = saved[os.path.normpath(os.path.join(folder, f"{picture}_{c}.png"))].axes[0]
        (line,) = axes.get_lines()
        rows = range(len(times[0]))
        mean = [sum(e[r][j] for e in errors) / len(errors) for r in rows]
        check_curve(ctx, f"{place}: mean {c}", line.get_xdata(), line.get_ydata(), times[0], mean)
        ((x, low, high),) = axes.areas
        check_curve(ctx, f"{place}: low {c}", x, low, times[0], mean)
        for r in rows:
            for i, e in enumerate(errors):
                ctx.ge(f"{place}: maximum {c}.{r}.{i}", high[r], e[r][j] - TOL)
            ctx.true(f"{place}: attained {c}.{r}", ctx.any(*[high[r] <= e[r][j] + TOL for e in errors]))


def instances(tier):
    big = tier == "thorough"
    out = []
    for v in (None, [], ["amplitude"], ["height-average"], ["wave-number"], ["wave-number", "amplitude"], ["all"]):
        name = "none" if v is None else "-".join(v) or "empty"
        out.append(inst(f"studied-{name}", studied, variations=v, count=1))
        out.append(inst(f"studied-{name}-twice", studied, variations=v, count=2))
        if big:
            out.append(inst(f"studied-{name}-each", studied, variations=v, count=1, limit=3))
    out.append(inst("studied-own-data", studied, variations=["wave-number"], count=1, limit=2))
    out.append(inst("references", studied, variations=None, count=1, references=[]))
    out.append(inst("references-named", studied, variations=["wave-number"], count=1, references=["base"], prefix="mean"))
    out.append(inst("references-all", studied, variations=["all"], count=1, references=[]))
    out.append(inst("no-slash", studied, variations=["amplitude"], count=1, slash=False))
    out.append(inst("no-slash-references", studied, variations=None, count=1, references=[], slash=False))
    out.append(inst("end-time", studied, variations=["amplitude"], count=1, timed=True))
    out.append(inst("end-time-references", studied, variations=None, count=1, references=[], timed=True))
    out.append(inst("plots", studied, variations=["amplitude"], count=1, plots=["--save-plot"]))
    out.append(inst("animations", studied, variations=["wave-number"], count=1, plots=["--save-animation"]))
    out.append(inst("both", studied, variations=None, count=1, references=[], plots=["--save-plot", "--save-animation"]))
    return out
