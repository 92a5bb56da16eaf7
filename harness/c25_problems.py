from .common import *
from .c24_command_line import parse
import benchmark.advection as advection
import benchmark.burgers as burgers
import benchmark.shallow_water as shallow

TITLE = "benchmarks state consistent problems and exact solutions"
BOUNDS = ("every benchmark, any place and time before the shock where an exact solution is stated, any dam break with h_left > h_right, any constants of moving water (K1 in [0.1, 5], K2 in [20, 60], "
          "h in [0.5, 10]), any parameters of oscillations")
OUTSIDE = "the convergence of Newton's method (any root it may return is allowed for), values of sine, cosine and the exponential (arbitrary functions), the random numbers themselves"
EXPLANATION = ("The benchmarks are executed at symbolic places and times, sine, cosine and exponential being uninterpreted and Newton's method returning an arbitrary root; the solver shows that "
               "exact solutions start from the initial data and satisfy their equations along characteristics, across waves and in steady states.")


def any_root(ctx, module, accept=lambda r: None):
    """Newton's method returns a root, whichever"""
    real = module.newton
    count = [0]

    def newton(func, x0, fprime=None, *a, **k):
        count[0] += 1
        r = ctx.real(f"root{count[0]}")
        accept(r)
        ctx.assume(func(r) == 0)
        return r

    if type(ctx).__name__ == "Symbolic":
        module.newton = newton
    return lambda: setattr(module, "newton", real)


def inside(ctx, name, interval):
    s = ctx.real(name, lo=0, hi=1)
    ctx.assume(s < 1)
    return interval.a + s * (interval.b - interval.a)


def transport(ctx, key):
    """the initial data move to the right with unit speed, over the periodic ends"""
    b = advection.BENCHMARKS[key]()
    x = inside(ctx, "x", b.domain)
    ctx.eq("starts from the initial data", b.exact_solution(x, 0.0), b.initial_data(x))
    s = ctx.real("s", lo=0, hi=3)
    ctx.eq("moves with unit speed", b.exact_solution(x + s, s), b.initial_data(x))


def transported(ctx, key, shift):
    b = advection.BENCHMARKS[key]()
    x = inside(ctx, "x", b.domain)
    t = ctx.real("t", lo=0, hi=2)
    ctx.eq("moves with unit speed", b.exact_solution(x + t + shift, t), b.exact_solution(x, 0.0))


def characteristics(ctx, key):
    b = burgers.BENCHMARKS[key]()
    crit = 1 / (2 * np.pi) if key == "shock" else 1.0
    b.end_time = ctx.real("T", lo=0.01, hi=0.15 if key == "shock" else 0.9)
    x = inside(ctx, "x", b.domain)
    t = ctx.real("t", lo=0, hi=1)
    ctx.assume(t <= b.end_time)
    undo = any_root(ctx, burgers)
    try:
        u = b.exact_solution(x, t)
    finally:
        undo()
    near(ctx, "constant along its characteristic", u, b.initial_data(x - u * t), 1e-6)
    near(ctx, "starts from the initial data", first(ctx, b, x), b.initial_data(x), 1e-6)


def first(ctx, b, x):
    undo = any_root(ctx, burgers)
    try:
        return b.exact_solution(x, 0.0)
    finally:
        undo()


def shock_formation(ctx, key, late):
    b = burgers.BENCHMARKS[key]()
    crit = 1 / (2 * np.pi) if key == "shock" else 1.0
    b.end_time = ctx.real("T", lo=0, hi=5)
    ctx.assume(b.end_time >= crit + 1e-6 if late else b.end_time <= crit - 1e-6)
    x = inside(ctx, "x", b.domain)
    undo = any_root(ctx, burgers)
    try:
        b.exact_solution(x, 0.0)
        got = True
    except AttributeError:
        got = False
    finally:
        undo()
    ctx.true("an exact solution exists until the shock forms", got is not late)


def steady(ctx, name):
    """water at rest or moving steadily stays"""
    b = getattr(shallow, name)()
    x, y = inside(ctx, "x", b.domain), inside(ctx, "y", b.domain)
    t = ctx.real("t", lo=0, hi=100)
    u, v = b.exact_solution(x, t), b.exact_solution(y, 0.0)
    ctx.eq("discharge", u[1], v[1])
    ctx.eq("starts from the initial data", v, b.initial_data(y))
    if "Rest" in name:
        ctx.eq("at rest", u[1], 0.0)
    ctx.eq("surface", u[0] + b.bathymetry(x), v[0] + b.bathymetry(y))
    ctx.ge("water", u[0], 1e-3)


def moving_water(ctx):
    k1, k2 = ctx.real("K1", lo=0.1, hi=5), ctx.real("K2", lo=20, hi=60)
    b = shallow.MovingWaterBumpBathymetryBenchmark(K1=k1, K2=k2)
    x = inside(ctx, "x", b.domain)
    undo = any_root(ctx, shallow, lambda r: (ctx.assume(r >= 0.5), ctx.assume(r <= 10)))
    try:
        h, q = b.exact_solution(x, ctx.real("t", lo=0, hi=100))
        near(ctx, "initial discharge", b.initial_data(x)[1], k1)
    finally:
        undo()
    near(ctx, "discharge", q, k1)
    near(ctx, "energy head", q * q / (2 * h * h) + b.gravitational_acceleration * (h + b.bathymetry(x)), k2, 1e-5)


def dam_break(ctx, piece):
    g = ctx.real("g", lo=0.5, hi=12)
    cl, cr = ctx.real("cl", lo=0.2, hi=5), ctx.real("cr", lo=0.1, hi=5)
    ctx.assume(cl >= cr + 0.05)
    hl, hr = cl * cl / g, cr * cr / g
    x0, length = ctx.real("x0", lo=1, hi=9), 10.0

    def accept(r):
        ctx.assume(r > cr)
        ctx.assume(r < cl)

    undo = any_root(ctx, shallow, accept)
    try:
        b = shallow.DammBreakBenchmark(h_left=hl, h_right=hr, x_dam=x0, L=length, g=g)
    finally:
        undo()
    ctx.eq("domain", [b.domain.a, b.domain.b], [0.0, length])
    t = ctx.real("t", lo=0.01, hi=5)
    xi = ctx.real("xi", lo=-20, hi=20)  # similarity variable
    x = x0 + xi * t
    cm, v = b.c_mid, b.v
    hm, um = cm * cm / g, 2 * (cl - cm)
    if piece == "start":
        y = ctx.real("y", lo=0, hi=10)
        ctx.assume(y != x0)
        h, q = b.initial_data(y)
        ctx.eq("height", h, hl if y < x0 else hr)
        ctx.eq("at rest", q, 0.0)
    elif piece == "left":
        ctx.assume(xi <= -cl)
        ctx.eq("undisturbed", list(b.exact_solution(x, t)), [hl, 0.0])
    elif piece == "fan":
        ctx.assume(xi > -cl + 1e-6)
        ctx.assume(xi <= um - cm - 1e-6)
        h, q = b.exact_solution(x, t)
        c = (2 * cl - xi) / 3  # from u + 2 c = 2 cl and u - c = xi
        ctx.ge("celerity", c, 0.0)
        near(ctx, "height of the fan", g * h, c * c, 1e-6)
        near(ctx, "discharge of the fan", g * q, c * c * (xi + c), 1e-6)
    elif piece == "middle":
        ctx.assume(xi > um - cm + 1e-6)
        ctx.assume(xi <= v - 1e-6)
        h, q = b.exact_solution(x, t)
        near(ctx, "continuous with the fan", g * h, cm * cm, 1e-6)
        near(ctx, "invariant", g * q, cm * cm * um, 1e-6)
    elif piece == "shock":
        s, qm = v, b.h_mid * b.u_mid
        near(ctx, "mass over the shock", s * (hm - hr), hm * um, 1e-5)
        near(ctx, "momentum over the shock", g * s * (hm - hr) * hm * um, g * (hm * um * um + g * hm * hm / 2 - g * hr * hr / 2) * (hm - hr), 1e-3)
        near(ctx, "momentum transported", qm, hm * um, 1e-6)
    else:
        ctx.assume(xi >= v + 1e-6)
        ctx.assume(xi >= um - cm + 1e-6)
        ctx.assume(xi > -cl)
        ctx.eq("undisturbed", list(b.exact_solution(x, t)), [hr, 0.0])


NAMES = ("height_average", "height_amplitude", "height_phase_shift", "height_wave_number", "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number")
DEFAULTS = dict(height_average="HEIGHT_AVERAGE", height_amplitude="HEIGHT_AMPLITUDE", height_phase_shift="HEIGHT_PHASE_SHIFT", height_wave_number="HEIGHT_WAVE_NUMBER",
                velocity_average="VELOCITY_AVERAGE", velocity_amplitude="VELOCITY_AMPLITUDE", velocity_phase_shift="VELOCITY_PHASE_SHIFT", velocity_wave_number="VELOCITY_WAVE_NUMBER")


def oscillation(ctx, given, seed=None, lo=0):
    """an oscillation has the parameters asked for, zero included"""
    kw = {n: ctx.real(n, lo=lo, hi=3) for n in given}
    if seed is None:
        b = shallow.OscillationNoTopographyBenchmark(**kw)
    else:
        b = shallow.RandomOscillationNoTopographyBenchmark(seed=seed, **kw)
        again = shallow.RandomOscillationNoTopographyBenchmark(seed=seed, **kw)
        for n in NAMES:
            ctx.eq(f"the same seed gives the same {n}", getattr(again, n), getattr(b, n))
    for n in given:
        ctx.eq(n, getattr(b, n), kw[n])
    if seed is None:
        for n in NAMES:
            if n not in given:
                ctx.eq(n, getattr(b, n), getattr(shallow, DEFAULTS[n]))
    x = inside(ctx, "x", b.domain)
    h, q = b.initial_data(x)
    wave = lambda k, p: ctx.fn("sin", k * 2 * np.pi * x / 100.0 + p)
    near(ctx, "height", h, b.height_average + b.height_amplitude * wave(b.height_wave_number, b.height_phase_shift))
    near(ctx, "velocity", q, h * (b.velocity_average + b.velocity_amplitude * wave(b.velocity_wave_number, b.velocity_phase_shift)))
    ctx.eq("end time", b.end_time, 40.0)


def random_zero(ctx, name):
    """a random problem keeps a parameter given as zero"""
    b = shallow.RandomOscillationNoTopographyBenchmark(seed=5, **{name: ctx.num(0.0)})
    ctx.eq(name, getattr(b, name), 0.0)


def generator(ctx, name, zero):
    """a generator of random problems hands its parameters on"""
    v = ctx.num(0.0) if zero else ctx.real("v", lo=0.1, hi=3)
    gen = shallow.RandomBenchmarkGenerator(seed=1, end_time=7.0, **{name: v})
    b, c = gen(), gen()
    ctx.eq(name, [getattr(b, name), getattr(c, name)], [v, v])
    ctx.eq("end time", [b.end_time, c.end_time], [7.0, 7.0])
    ctx.true("different data", b.seed != c.seed)


def chosen(ctx, problem, key):
    """every key the command line offers gives its problem, until the end time asked for"""
    T = ctx.real("T", lo=0.01, hi=100)
    mod = {"advection": advection, "burgers": burgers, "swe": shallow}[problem]
    try:
        args = parse(ctx, "calculate", problem, "-b", key, "-T", ctx.real_text("T"), "-s", "llf", "+m", "6")
    except SystemExit:
        ctx.true("the key is accepted", False)
        return
    s, = args.solver
    ctx.eq("end time", s._time_stepping._end_time, T)
    ctx.eq("start time", s._time_stepping._start_time, 0.0)
    b = mod.BENCHMARKS[key]() if key != "random" else shallow.RandomOscillationNoTopographyBenchmark(3)
    ctx.true("number of cells", len(s.solution.value) == 6)
    mesh = s.solution.space.mesh
    ctx.eq("domain", [mesh.domain.a, mesh.domain.b], [b.domain.a, b.domain.b])
    if key != "random":
        other = make_solver("swe" if problem == "swe" else "scalar", "llf", b, mesh_size=6)
        near(ctx, "initial values", s.solution.value, other.solution.value)


def instances(tier):
    out = []
    for key in advection.BENCHMARKS:
        out.append(inst(f"transport-{key}", transport, key=key))
        for shift in (-2, -1, 1):
            out.append(inst(f"transport-{key}-{shift}", transported, key=key, shift=shift))
    for key in burgers.BENCHMARKS:
        out.append(inst(f"characteristics-{key}", characteristics, key=key))
        for late in (False, True):
            out.append(inst(f"shock-{key}-{late}", shock_formation, key=key, late=late))
    for name in ("LakeAtRestNoBathymetryBenchmark", "LakeAtRestBenchmark", "MovingWaterNoBathymetryBenchmark"):
        out.append(inst(f"steady-{name}", steady, name=name))
    out.append(inst("moving-water", moving_water))
    for problem, mod in (("advection", advection), ("burgers", burgers), ("swe", shallow)):
        for key in mod.BENCHMARKS:
            out.append(inst(f"chosen-{problem}-{key}", chosen, problem=problem, key=key))
    for piece in ("start", "left", "fan", "middle", "shock", "right"):
        out.append(inst(f"dam-break-{piece}", dam_break, piece=piece))
    out.append(inst("oscillation-default", oscillation, given=()))
    out.append(inst("oscillation-all", oscillation, given=NAMES))
    for n in NAMES:
        out.append(inst(f"oscillation-{n}", oscillation, given=(n,)))
        out.append(inst(f"random-{n}", oscillation, given=(n,), seed=5, lo=1e-6))
        out.append(inst(f"random-zero-{n}", random_zero, name=n))
        out.append(inst(f"generator-{n}", generator, name=n, zero=False))
        out.append(inst(f"generator-zero-{n}", generator, name=n, zero=True))
    return out
