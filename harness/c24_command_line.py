from .common import *
import contextlib
import io
import command
import core.type as number_types
from parser import CustomArgumentParser

TITLE = "the command line solves what it was asked for"
BOUNDS = ("all texts that are numbers (every double including nan and infinities, every integer up to a million), any positive end time, cfl number and antidiffusion "
          "parameter for runs of one or two steps on meshes of 3 to 8 cells, all solvers; one to three solvers with up to two options each, in any order")
OUTSIDE = "texts that are no numbers (argparse); help texts; option values that look like options"
EXPLANATION = ("The argument parsers run on texts whose numerical value is symbolic; every comparison they make is a path of its own. The solver shows that exactly the admissible "
               "numbers are accepted and that the solvers built from them step and stop accordingly.")


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def rejected(f, *a):
    """does the parser refuse?  its error ends the program"""
    try:
        with silent():
            f(*a)
    except (SystemExit, ValueError):
        return True
    return False


# -- number types -------------------------------------------------------------


def real_type(ctx, name):
    d = ctx.double("d")
    text = ctx.double_text("d")
    fn = getattr(number_types, name)
    try:
        out, ok = fn(text), True
    except ValueError:
        out, ok = None, False
    inside = bool(d > 0) if name == "positive_float" else bool(d >= 0) and bool(d <= 1)
    ctx.true("accepted exactly when admissible", ok == inside)
    if ok:
        ctx.true("value kept", out == d)


def integer_type(ctx, name):
    k = ctx.integer("k", -10**6, 10**6)
    text = ctx.int_text("k")
    fn = getattr(number_types, name)
    try:
        out, ok = fn(text), True
    except ValueError:
        out, ok = None, False
    inside = bool(k > 0) if name == "positive_int" else bool(k >= 0)
    ctx.true("accepted exactly when admissible", ok == inside)
    if ok:
        ctx.eq("value kept", out, k)


def fraction(ctx, name):
    """whole numbers are not cut out of fractions"""
    text = ctx.real_text("x", lo=-100, hi=1000)
    ctx.true("refused", rejected(getattr(number_types, name), text))


# -- whole command lines --------------------------------------------------------


def symbolic_floats(ctx):
    """options declared as plain floats also read symbolic texts"""
    if not ctx.symbolic:
        return
    from symx import shim

    for parsers in PARSERS.values():
        for p in parsers.values():
            for a in p._actions:
                if a.type is float:
                    a.type = shim.FLOAT
                if a.type is int:
                    a.type = shim.INT


def parse(ctx, *argv):
    symbolic_floats(ctx)
    with silent():
        return CustomArgumentParser(command.PARSER_COMMANDS).parse_arguments(list(argv))


PROBLEMS = {"scalar": ("advection", "one-hill", 1.0), "fem": ("burgers", "smooth", None), "swe": ("swe", "cylindrical-damm-break", 2.0)}


def spec(family, key, n, cfl):
    opts = [key, "+m", str(n), "++cfl", cfl]
    return opts


def family_of(key, family):
    return PARSERS[family][key]


def steps(ctx, family, key, n, over=False):
    """cfl number and end time given as text decide the time steps"""
    problem, bench, _ = PROBLEMS[family]
    cfl_text = ctx.real_text("cfl", lo=1e-2, hi=4)
    cfl = ctx.real("cfl", lo=1e-2, hi=4)
    end_text = ctx.real_text("T", lo=1e-3, hi=10)
    end = ctx.real("T", lo=1e-3, hi=10)
    args = parse(ctx, "calculate", problem, "-b", bench, "-T", end_text, "-s", key, "+m", str(n), "++cfl", cfl_text)
    solver = args.solver[0]
    ctx.eq("number of solvers", len(args.solver), 1)
    ctx.true("kind of solver", type(solver) is PARSERS[family][key].solver)
    ctx.eq("cells", len(solver.solution.space.mesh) * (defaults.COARSENING_DEGREE if key == "coarse" else 1), n)
    ctx.eq("start", solver.solution.time, 0.0)
    unit = ctx.real("T") * 0 + step_unit(ctx, solver, family, key, n)
    taken, total = [], 0.0
    stepping = iter(solver._time_stepping)
    ctx.assume(end <= cfl * unit * 2)
    ctx.assume(ctx.any(end >= cfl * unit + 1e-9, end <= cfl * unit - 1e-9))
    for dt in stepping:
        taken.append(dt)
        total = total + dt
        if len(taken) > 3:
            break
    ctx.eq("first step", taken[0], ctx.min(cfl * unit, end))
    ctx.eq("stops at the end time", total, end)
    ctx.eq("end time", stepping.time, end)


def sizes(ctx, family, key, size):
    """exactly the mesh asked for is used, whatever its size"""
    problem, bench, _ = PROBLEMS[family]
    cfl_text = ctx.real_text("cfl", lo=1e-2, hi=4)
    cfl = ctx.real("cfl", lo=1e-2, hi=4)
    args = parse(ctx, "calculate", problem, "-b", bench, "-T", "1000", "-s", key, "+m", str(size), "++cfl", cfl_text)
    s = args.solver[0]
    mesh = s.solution.space.mesh
    length = mesh.domain.length
    ctx.eq("cells", len(mesh), size)
    ctx.eq("cells listed", len(list(mesh)), size)
    ctx.eq("step", mesh.step_length, length / size)
    ctx.eq("unknowns", len(s.solution.value), s.solution.space.dimension)
    ctx.eq("nodes", len(s.solution.grid), s.solution.space.dimension)
    if key not in ("cg-low", "mcl-fem"):
        near(ctx, "time step", next(iter(s._time_stepping)) * size, cfl * length, 1e-9)


def step_unit(ctx, solver, family, key, n):
    """the step size at cfl number one: cell width, or the bound for cg-low and mcl-fem"""
    length = solver.solution.space.mesh.domain.length
    if key in ("cg-low", "mcl-fem"):
        return solver._cfl_checker._optimal_time_step(0.0, solver.solution.value)
    return length / n * (defaults.COARSENING_DEGREE if key == "coarse" else 1) / (defaults.COARSENING_DEGREE if key == "coarse" else 1)


def gamma(ctx):
    """the antidiffusion parameter is the one given, zero included"""
    text = ctx.real_text("g", lo=0, hi=5)
    g = ctx.real("g", lo=0, hi=5)
    args = parse(ctx, "calculate", "swe", "-b", "cylindrical-damm-break", "-T", "0.1", "-s", "antidiffusion", "+g", text, "+m", "4", "llf", "+m", "4")
    a, b = args.solver
    v = a.solution.value
    dx = 0.5
    diff = a._right_hand_side(0.0, v) - b._right_hand_side(0.0, v)
    for i in range(4):
        for j in range(2):
            left, right = v[max(i - 1, 0)][j], v[min(i + 1, 3)][j]
            # an antidiffusive flux g (v_right - v_left) / dx through every face
            ctx.eq(f"antidiffusion {i}.{j}", diff[i][j], g * (2 * v[i][j] - left - right) / (dx * dx))


def admissible(ctx, option, family, key):
    """solver options accept exactly the admissible numbers"""
    problem, bench, _ = PROBLEMS[family]
    symbolic_floats(ctx)
    parser = PARSERS[family][key]
    if option == "++cfl":
        text, x = ctx.double_text("x"), ctx.double("x")
        inside = bool(x > 0)
    else:
        text, x = ctx.int_text("x"), ctx.integer("x", -10**6, 10**6)
        inside = bool(x > 0)
    ns = argparse.Namespace()
    refused = rejected(parser.parse_arguments, [option, text], ns)
    ctx.true("refused exactly when inadmissible", refused == (not inside))
    if not refused:
        dest = {"++cfl": "cfl_number", "+m": "mesh_size", "+p": "polynomial_degree", "+c": "coarsening_degree"}[option]
        got = getattr(ns, dest)
        ctx.true("value kept", got == x)


def end_time_admissible(ctx, problem, bench):
    text, x = ctx.double_text("x"), ctx.double("x")
    inside = bool(x > 0)
    holder = {}

    def go():
        holder["args"] = CustomArgumentParser(command.PARSER_COMMANDS)._parser.parse_args(["calculate", problem, "-b", bench, "-T", text, "-s", "llf", "+m", "3"])

    refused = rejected(go)
    ctx.true("refused exactly when inadmissible", refused == (not inside))
    if not refused:
        ctx.true("value kept", holder["args"].end_time == x)


# -- several solvers ------------------------------------------------------------

OPTIONS = {
    "scalar": {"llf": ("name", "short", "mesh", "cfl"), "central": ("name", "mesh"), "mcl-fv": ("ode", "mesh", "cfl"), "cg": ("degree", "mesh", "exact"),
               "cg-low": ("ode", "adaptive", "degree"), "mcl-fem": ("adaptive", "name")},
    "swe": {"llf": ("ode", "name", "mesh"), "mcl": ("flux", "mesh", "short"), "antidiffusion": ("flux", "gamma"), "coarse": ("coarsen", "flux"), "es1": ("cfl",), "central": ("name",),
            "lw": ("mesh",), "reduced-llf": ("ode",)},
}


def option_tokens(kind, pick, keys):
    """tokens of an option and what it should lead to; values may be names of solvers"""
    return {
        "name": (["+n", keys[pick % len(keys)]], {"name": keys[pick % len(keys)]}),
        "short": (["++short", keys[pick % len(keys)]], {"short": keys[pick % len(keys)]}),
        "mesh": (["+m", str(4 + pick)], {"mesh_size": 4 + pick}),
        "cfl": (["++cfl", "0.3"], {"cfl_number": 0.3}),
        "degree": (["+p", str(1 + pick)], {"polynomial_degree": 1 + pick}),
        "exact": (["++exact-flux"], {"exact_flux": True}),
        "adaptive": (["++adaptive"], {"adaptive": True}),
        "ode": (["+o", ("euler", "heun", "ssp3")[pick % 3]], {"ode_solver_type": (core.ForwardEuler, core.Heun, core.StrongStabilityPreservingRungeKutta3)[pick % 3]}),
        "gamma": (["+g", "0.0"], {"gamma": 0.0}),
        "coarsen": (["+c", str(2 + pick)], {"coarsening_degree": 2 + pick}),
        "flux": (["+f", ("llf", "central", "es1")[pick % 3]], {"flux_getter": fv_swe.SHALLOW_WATER_FLUX_GETTER[("llf", "central", "es1")[pick % 3]]}),
    }[kind]


def choose(ctx, name, items):
    """an arbitrary element: a symbolic index, one path per element"""
    k = ctx.integer(name, 0, len(items) - 1)
    for i, x in enumerate(items):
        if bool(k == i):
            return x
    return items[-1]


def splitting(ctx, problem, count, options, first):
    """any sequence of solvers, each with its own options, is taken apart as it was written"""
    table = OPTIONS["swe" if problem == "swe" else "scalar"]
    keys = list(table)
    tokens, expected = [], []
    for s in range(count):
        key = first if s == 0 else choose(ctx, f"key{s}", keys)
        want = {"solver": (PARSERS["swe"] if problem == "swe" else {**PARSERS["scalar"], **PARSERS["fem"]})[key].solver}
        tokens.append(key)
        used = []
        for o in range(options):
            kind = choose(ctx, f"option{s}_{o}", ["none", *table[key]])
            if kind == "none" or kind in used:
                continue
            used.append(kind)
            more, effect = option_tokens(kind, s + o, keys)
            tokens += more
            want.update(effect)
        expected.append(want)
    with silent():
        args = CustomArgumentParser(command.PARSER_COMMANDS)._parser.parse_args(["calculate", problem, "-s", *tokens])
    ctx.eq("number of solvers", len(args.solver), count)
    for s, (got, want) in enumerate(zip(args.solver, expected)):
        for k, v in want.items():
            ctx.true(f"solver {s}: {k} is {getattr(v, '__name__', v)} in {' '.join(tokens)}", getattr(got, k, None) == v)
        for k, v in vars(got).items():
            if k not in want:
                parser = next(p for p in [*PARSERS["scalar"].values(), *PARSERS["fem"].values(), *PARSERS["swe"].values()] if p.solver is want["solver"])
                ctx.true(f"solver {s}: {k} is the default", v == parser.get_default(k))


# -- other commands -----------------------------------------------------------------


def other_commands(ctx, name):
    """end times and solvers reach every command"""
    end = ctx.real("T", lo=1e-3, hi=1e-2)
    text = ctx.real_text("T", lo=1e-3, hi=1e-2)
    two = ["-s", "llf", "+m", "4", "llf", "+m", "8"]
    lines = {
        "plot-error-evolution": ["plot-error-evolution", "-b", "cylindrical-damm-break", "-T", text, *two],
        "parameter-variation-test": ["parameter-variation-test", "-T", text, *two, "--seed", "3", "somewhere"],
        "generate-data": ["generate-data", "-T", text, "-s", "llf", "+m", "16", "-c", "2", "-n", "3", "--seed", "5"],
    }
    args = parse(ctx, *lines[name])
    if name == "parameter-variation-test":
        solvers = [args.solver_approximation, args.solver_exact]
        sizes = [4, 8]
    elif name == "generate-data":
        solvers, sizes = [args.solver], [16]
        ctx.eq("given end time", args.end_time, end)
        ctx.eq("solutions", args.solution_number, 3)
        ctx.eq("coarsening", args.coarsening_degree, 2)
        ctx.eq("seed", args.seed, 5)
        ctx.true("overwrite", args.overwrite)
    else:
        solvers, sizes = args.solver, [4, 8]
    ctx.eq("number of solvers", len(solvers), len(sizes))
    for i, (s, n) in enumerate(zip(solvers, sizes)):
        ctx.eq(f"cells {i}", len(s.solution.space.mesh), n)
        total = 0.0
        stepping = iter(s._time_stepping)
        for k, dt in enumerate(stepping):
            total = total + dt
            if k > 3:
                break
        ctx.eq(f"solved until {i}", total, end)
        if name != "generate-data":
            ctx.true(f"history recorded {i}", isinstance(s.solution, core.DiscreteSolutionWithHistory))


def named(ctx, family, keys):
    """every solver is built, and called as asked for or as its help says"""
    problem, bench, _ = PROBLEMS[family]
    end_text, end = ctx.real_text("T", lo=1e-3, hi=2e-3), ctx.real("T", lo=1e-3, hi=2e-3)
    argv, want = [], []
    for i, k in enumerate(keys):
        p = PARSERS[family][k]
        # one coarse cell is enough for coarse solvers
        argv += [k, "+m", str(defaults.COARSENING_DEGREE if k == "coarse" else 8)]
        argv += (["+n", f"My {k}"] if i % 3 else []) + (["+s", f"s{i}"] if i % 2 else [])
        want.append((f"My {k}" if i % 3 else p.name, f"s{i}" if i % 2 else k))
    args = parse(ctx, "calculate", problem, "-b", bench, "-T", end_text, "-s", *argv)
    ctx.eq("number of solvers", len(args.solver), len(keys))
    for s, k, (name, short) in zip(args.solver, keys, want):
        ctx.true(f"{k} is {type(s).__name__}", type(s) is PARSERS[family][k].solver)
        ctx.true(f"{k} name", s.name == name)
        ctx.true(f"{k} short name", s.short == short)
        first = next(iter(s._time_stepping))
        ctx.true(f"{k} step", first > 0)
        ctx.le(f"{k} step until the end", first, end)
        ctx.eq(f"{k} starts", s.solution.time, 0.0)


def executed(ctx, family, keys, n):
    """executing the command solves every solver until the end time"""
    problem, bench, _ = PROBLEMS[family]
    end_text = ctx.real_text("T", lo=1e-4, hi=2e-3)
    end = ctx.real("T", lo=1e-4, hi=2e-3)
    argv = []
    for k in keys:
        argv += [k, "+m", str(n)]
    args = parse(ctx, "calculate", problem, "-b", bench, "-T", end_text, "-s", *argv)
    rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
    args.command(**rest).execute()
    ctx.eq("number", len(args.solver), len(keys))
    for i, s in enumerate(args.solver):
        ctx.eq(f"{keys[i]} {i} reached the end time", s.solution.time, end)


def instances(tier):
    big = tier == "thorough"
    out = []
    for t in ("positive_float", "percent_number"):
        out.append(inst(f"type-{t}", real_type, name=t))
    for t in ("positive_int", "non_negative_int"):
        out.append(inst(f"type-{t}", integer_type, name=t))
        out.append(inst(f"fraction-{t}", fraction, name=t))
    for family, parsers in PARSERS.items():
        for key in parsers:
            if not key.startswith("reduced") and key != "coarse":
                out.append(inst(f"steps-{family}-{key}", steps, family=family, key=key, n=4 if family != "fem" else 3))
            out.append(inst(f"cfl-{family}-{key}", admissible, option="++cfl", family=family, key=key))
            out.append(inst(f"mesh-{family}-{key}", admissible, option="+m", family=family, key=key))
    for family, key, ns in (("scalar", "llf", (5, 9, 17, 32, 64, 99)), ("scalar", "central", (17, 31)), ("scalar", "mcl-fv", (17, 25)), ("swe", "llf", (17, 33)), ("swe", "low-order", (19, 65)),
                            ("swe", "mcl", (17,)), ("swe", "es1", (21,)), ("swe", "lw", (17, 50)), ("swe", "antidiffusion", (33,)), ("fem", "cg", (17, 32)), ("fem", "cg-low", (17,)), ("fem", "mcl-fem", (16, 19))):
        for k in ns:
            out.append(inst(f"sizes-{family}-{key}-{k}", sizes, family=family, key=key, size=k))
    for key in PARSERS["fem"]:
        out.append(inst(f"degree-{key}", admissible, option="+p", family="fem", key=key))
    out.append(inst("coarsening", admissible, option="+c", family="swe", key="coarse"))
    out.append(inst("antidiffusion", gamma))
    for problem, bench in (("advection", "cos"), ("burgers", "shock"), ("swe", "sinus-inflow")):
        out.append(inst(f"end-time-{problem}", end_time_admissible, problem=problem, bench=bench))
    for problem in ("advection", "burgers", "swe"):
        table = OPTIONS["swe" if problem == "swe" else "scalar"]
        for first in table:
            out.append(inst(f"splitting-{problem}-{first}-2", splitting, problem=problem, count=2, options=1, first=first))
            out.append(inst(f"splitting-{problem}-{first}-1", splitting, problem=problem, count=1, options=2, first=first))
            if big:
                out.append(inst(f"splitting-{problem}-{first}-3", splitting, problem=problem, count=3, options=1, first=first, budget=600))
                out.append(inst(f"splitting-{problem}-{first}-22", splitting, problem=problem, count=2, options=2, first=first, budget=600))
    for name in ("plot-error-evolution", "parameter-variation-test", "generate-data"):
        out.append(inst(f"other-{name}", other_commands, name=name))
    for family, parsers in PARSERS.items():
        out.append(inst(f"named-{family}", named, family=family, keys=list(parsers)))
        out.append(inst(f"named-{family}-reversed", named, family=family, keys=list(parsers)[::-1]))
    out.append(inst("executed-scalar", executed, family="scalar", keys=("llf", "central", "mcl-fv"), n=4))
    out.append(inst("executed-scalar-one", executed, family="scalar", keys=("llf",), n=4))
    out.append(inst("executed-swe", executed, family="swe", keys=("llf", "low-order"), n=4))
    out.append(inst("executed-fem", executed, family="fem", keys=("cg", "mcl-fem"), n=3))
    return out
