from .common import *
import os
import tempfile
import command
from command import generate_data as gd
from finite_volume.shallow_water.solver import reduced_model as rm

TITLE = "recorded subgrid fluxes are what a coarse scheme lacks"
BOUNDS = ("fine meshes of 6 to 18 cells, coarsening degrees 1 to 3, input radii 1 and 2, every admissible node, any wet states; one time step of Euler's method; "
          "up to three recorded values; one to three generated solutions")
OUTSIDE = "fine fluxes limited with the states of further cells (mcl), which need neighbouring faces; training of networks; longer runs (the recording treats every step alike); rounding of curvatures (tolerance 1e-9)"
EXPLANATION = ("The builders of training data are executed on runs with symbolic states; the solver shows that coarse inputs are cell averages, that coarse flux plus recorded "
               "subgrid flux is the fine flux, and that a scheme corrected by them reproduces the averaged fine solution.")

EULER = ("+o", "euler")


def mean(rows):
    k = len(rows)
    return [sum(r[j] for r in rows) / k for j in range(len(rows[0]))]


def rows_of(ctx, n, name):
    return [[ctx.real(f"{name}{i}_{j}") for j in range(2)] for i in range(n)]


def recorded(ctx, degree, radius, node, fine_radius, count):
    """the neighbours of the node, fine and averaged, at every recorded time"""
    n = degree * (node + radius) + 1 * degree
    t0 = ctx.real("t0")
    u = rows_of(ctx, n, "v")
    sol = gd.DiscreteSolutionWithInputData(core.DiscreteSolution(ctx.array(u), initial_time=t0), node, radius, degree, fine_radius)
    states, times = [u], [t0]
    for k in range(count):
        dt = ctx.pos(f"dt{k}")
        w = rows_of(ctx, n, f"w{k}_")
        sol.update(dt, ctx.array(w))
        states.append(w)
        times.append(times[-1] + dt)
    check_records(ctx, "", sol, states, times, degree, radius, node, fine_radius)
    ctx.eq("value", sol.value, states[-1])
    # starting over forgets everything that came later
    z = rows_of(ctx, n, "z")
    new = ctx.real("new")
    sol.set_value(ctx.array(z), new)
    kept = [i for i in range(len(times)) if bool(times[i] < new)]
    check_records(ctx, "after reset ", sol, [states[i] for i in kept] + [z], [times[i] for i in kept] + [new], degree, radius, node, fine_radius)
    ctx.eq("time after reset", sol.time, new)
    ctx.eq("value after reset", sol.value, z)


def check_records(ctx, name, sol, states, times, degree, radius, node, fine_radius):
    ctx.eq(name + "times", sol.time_history, times)
    ctx.eq(name + "steps", sol.time_step_history, [b - a for a, b in zip(times, times[1:])])
    coarse, fine = sol.coarse_node_neighbours_history, sol.fine_node_neighbours_history
    ctx.eq(name + "coarse number", len(coarse), len(states))
    ctx.eq(name + "fine number", len(fine), len(states))
    for k, u in enumerate(states):
        groups = [u[i * degree:(i + 1) * degree] for i in range(node - radius, node + radius)]
        ctx.eq(f"{name}averages {k}", coarse[k], [mean(g) for g in groups])
        ctx.eq(f"{name}cells {k}", fine[k], u[node * degree - fine_radius:node * degree + fine_radius])


def fluxes(solver, bench, n, degree):
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, n))
    return solver.flux_getter(bench, space), solver.flux_getter(bench, space.coarsen(degree))


def one_step_solver(ctx, key, cells, argv):
    bench = StubSWE(ctx, cells, end_time=1e-3)
    solver = make_solver("swe", key, bench, *argv)
    return bench, solver


class FirstRecord(finite_volume.NumericalFlux):
    """The flux at the first recorded time; a step without CFL bound may leave the wet
    states, so that fluxes of later records are looked at in `later`, with any wet states."""

    def __init__(self, flux):
        self.flux, self.input_dimension = flux, flux.input_dimension

    def __call__(self, *values):
        left, right = self.flux(*[v[:1] for v in values])
        rest = [np.zeros(2)] * (len(values[0]) - 1)
        return np.array([left[0], *rest]), np.array([right[0], *rest])


def first_records(solver):
    getter = solver.flux_getter
    solver.flux_getter = lambda *a, **k: FirstRecord(getter(*a, **k))


def later(ctx, key, degree, radius, node, count, argv=EULER):
    """inputs and fluxes of all records fit together, whatever states the run goes through"""
    n = node + radius
    states = [wet_cells(ctx, n * degree, name=f"s{k}_") for k in range(count + 1)]
    bench, solver = one_step_solver(ctx, key, states[0], argv)
    todo = iter(states[1:])
    times = [0.0]

    def solve(**k):
        for s in todo:
            dt = ctx.pos(f"dt{len(times)}")
            times.append(times[-1] + dt)
            solver.solution.update(dt, ctx.array([list(r) for r in s]))

    solver.solve = solve
    fine, coarse = fluxes(solver, bench, n * degree, degree)
    builder = gd.SubgridFluxDataBuilder(solver, fine, coarse, coarsening_degree=degree, input_radius=radius, node_index=node, print_output=False)
    inputs, subgrid = builder(bench)
    ctx.eq("times", builder.time_history, times)
    ctx.eq("number", len(subgrid), count + 1)
    rc, rf = coarse.input_dimension // 2, fine.input_dimension // 2
    for k, s in enumerate(states):
        means = [mean(s[i * degree:(i + 1) * degree]) for i in range(node - radius, node + radius)]
        for i, m in enumerate(means):
            ctx.eq(f"input {k}.{i}", inputs[i][k], m)
        _, f = fine(*[ctx.array([s[node * degree - rf + i]]) for i in range(2 * rf)])
        _, c = coarse(*[ctx.array([means[radius - rc + i]]) for i in range(2 * rc)])
        ctx.eq(f"flux {k}", subgrid[k], f[0] - c[0])


def corrected(ctx, key, n, degree, radius, argv=EULER):
    """Euler steps of the coarse scheme with recorded fluxes are the averages of the fine step"""
    cells = wet_cells(ctx, n * degree)
    data = {}
    runs = None
    for node in range(radius, n - radius + 1):
        bench, solver = one_step_solver(ctx, key, cells, argv)
        fine, coarse = map(FirstRecord, fluxes(solver, bench, n * degree, degree))
        builder = gd.SubgridFluxDataBuilder(solver, fine, coarse, coarsening_degree=degree, input_radius=radius, node_index=node, print_output=False)
        inputs, subgrid = builder(bench)
        times = builder.time_history
        ctx.eq(f"one step {node}", len(times), 2)
        ctx.eq(f"inputs {node}", len(inputs), 2 * radius)
        start = [mean(cells[i * degree:(i + 1) * degree]) for i in range(n)]
        for i in range(2 * radius):
            ctx.eq(f"input {node}.{i}", inputs[i][0], start[node - radius + i])
        r = coarse.input_dimension // 2
        _, right = coarse(*[ctx.array([start[node - r + i]]) for i in range(2 * r)])
        data[node] = right[0] + subgrid[0]
        runs = (times[1] - times[0], solver, [inputs[i][1] for i in range(2 * radius)], node)
        step = DX * degree
        for i in range(node - radius, node + radius):
            final = mean([list(solver.solution.value[k]) for k in range(i * degree, (i + 1) * degree)])
            ctx.eq(f"final input {node}.{i}", inputs[i - node + radius][1], final)
            if i in data and i + 1 in data:
                ctx.eq(f"coarse step {node}.{i}", final, [start[i][j] + (times[1] - times[0]) / step * (data[i][j] - data[i + 1][j]) for j in range(2)])
    ctx.true("some cell was checked", len(data) > 1)


def single(ctx, x):
    """networks are given numbers of single precision"""
    return x if ctx.symbolic else np.float32(x)


def reduced(ctx, key, n, degree, keys=("reduced-llf", "reduced-llf-2")):
    """with a network that returns the recorded fluxes the reduced scheme is exact"""
    radius = 2
    cells = wet_cells(ctx, n * degree)
    start = [mean(cells[i * degree:(i + 1) * degree]) for i in range(n)]
    net = use_network(ctx)
    finals = None
    for node in range(radius, n - radius + 1):
        bench, solver = one_step_solver(ctx, key, cells, EULER)
        fine, coarse = map(FirstRecord, fluxes(solver, bench, n * degree, degree))
        builder = gd.SubgridFluxDataBuilder(solver, fine, coarse, coarsening_degree=degree, input_radius=radius, node_index=node, print_output=False)
        inputs, subgrid = builder(bench)
        net.rows.append(([single(ctx, c) for i in range(2 * radius) for c in inputs[i][0]], list(subgrid[0])))
        finals, times = solver.solution.value, builder.time_history
        ctx.eq(f"one step {node}", len(times), 2)
        dt = times[1] - times[0]
    for k in keys:
        bench = StubSWE(ctx, start, dx=DX * degree)
        s = make_solver("swe", k, bench, "+o", "euler")
        s._update(dt)
        for i in range(radius, n - radius):
            ctx.eq(f"{k} cell {i}", s.solution.value[i], mean([list(finals[m]) for m in range(i * degree, (i + 1) * degree)]))


def curvature(ctx):
    u = [[ctx.real(f"u{i}_{j}") for j in range(2)] for i in range(4)]
    step = ctx.pos("dx")
    row = ctx.array([[c for r in u for c in r]])
    out = rm.Curvature(step).transform(row)
    ctx.eq("shape", len(out[0]), 10)
    ctx.eq("inputs kept", out[0][:8], row[0])
    for j in range(2):
        total = 0
        for i in range(2):
            a, b, c = u[i][j], u[i + 1][j], u[i + 2][j]
            d1, d2 = (c - a) / (2 * step), (a - 2 * b + c) / (step * step)
            q = 1 + d1 * d1
            ctx.ge(f"curvature nonnegative {j}", out[0][8 + j], 0.0)
            total = total + ctx.abs(d2) / (q * ctx.sqrt(q))
        ctx.eq(f"curvature {j}", out[0][8 + j], total / 2)


def parameters(ctx, count):
    builder = gd.BenchparkParameterDataFrameBuilder()
    names = ["seed", "height_average", "height_amplitude", "height_wave_number", "height_phase_shift",
             "velocity_average", "velocity_amplitude", "velocity_wave_number", "velocity_phase_shift"]
    data, benches = None, []
    for k in range(count):
        b = type("B", (), {n: ctx.real(f"{n}{k}") for n in names})()
        benches.append(b)
        data = builder.get_data_frame(b, data)
    ctx.eq("rows", len(data.index), count)
    for k, b in enumerate(benches):
        row = data.iloc[k]
        ctx.eq(f"seed {k}", row[("seed", "")], b.seed)
        for group in ("height", "velocity"):
            for p in ("average", "amplitude", "wave_number", "phase_shift"):
                ctx.eq(f"{group} {p} {k}", row[(group, p)], getattr(b, f"{group}_{p}"))


def frames(ctx, count, overwrite):
    """every solution of a generation appears once, with its inputs and fluxes side by side"""
    degree, radius, n = 2, 1, 3
    node = 1
    first = [wet_cells(ctx, n * degree, name=f"s{k}_") for k in range(count)]
    bench, solver = one_step_solver(ctx, "llf", first[0], EULER)
    real = list(fluxes(solver, bench, n * degree, degree))
    first_records(solver)
    saved = []

    class Generator:
        def __init__(self):
            self.k = 0
            self.given = []

        def __call__(self, seed=None):
            b = StubSWE(ctx, first[self.k % count], end_time=1e-3)
            for name in ("seed", "height_average", "height_amplitude", "height_wave_number", "height_phase_shift",
                         "velocity_average", "velocity_amplitude", "velocity_wave_number", "velocity_phase_shift"):
                setattr(b, name, ctx.real(f"{name}{self.k % count}"))
            return b

    gen = Generator()  # the command also draws one for building its fluxes
    folder = tempfile.gettempdir()
    cmd = gd.GenerateData(solver, folder, solution_number=count, coarsening_degree=degree, input_radius=radius, node_index=node, overwrite=overwrite, print_output=False)
    sequence = iter(range(count))

    def draw(*a, **k):
        gen.k = next(sequence)
        return gen()

    cmd._get_benchmark = draw

    frame = gd.pd.DataFrame
    original = frame.to_csv

    def to_csv(self, path=None, mode="w", header=True, **k):
        saved.append((os.path.basename(str(path)), mode, header, self))

    frame.to_csv = to_csv
    try:
        cmd.execute()
    finally:
        frame.to_csv = original
    ctx.eq("number of writes", len(saved), 2 * count)
    for k in range(count):
        for what in ("data.csv", "benchmark.csv"):
            mine = [s for s in saved if s[0] == what]
            ctx.eq(f"{what} written", len(mine), count)
            fresh = overwrite and k == 0
            ctx.true(f"{what} {k} mode", (mine[k][1] == "w") == fresh)
            ctx.true(f"{what} {k} header", bool(mine[k][2]) == fresh)
        frame_k = [s for s in saved if s[0] == "data.csv"][k][3]
        ctx.eq(f"rows {k}", len(frame_k.index), 2)
        start = [mean(first[k][i * degree:(i + 1) * degree]) for i in range(n)]
        row = frame_k.iloc[0]
        for i in range(2 * radius):
            ctx.eq(f"row {k} input {i}", [row[(f"U{node - radius + i}", c)] for c in "hq"], start[node - radius + i])
        fine, coarse = real
        _, f = fine(ctx.array([first[k][node * degree - 1]]), ctx.array([first[k][node * degree]]))
        _, c = coarse(ctx.array([start[node - 1]]), ctx.array([start[node]]))
        ctx.eq(f"row {k} flux", [row[(f"G_{node - 1 / 2}", x)] for x in "hq"], f[0] - c[0])
        params = [s for s in saved if s[0] == "benchmark.csv"][k][3].iloc[0]
        ctx.eq(f"row {k} seed", params[("seed", "")], ctx.real(f"seed{k}"))


def instances(tier):
    big = tier == "thorough"
    out = []
    for degree in (1, 2, 3):
        for radius in (1, 2):
            for node in (radius, radius + 1):
                for fr in (1, 2):
                    if fr <= node * degree and (big or fr == 1 or degree == 2):
                        out.append(inst(f"recorded-{degree}-{radius}-{node}-{fr}", recorded, degree=degree, radius=radius, node=node, fine_radius=fr, count=2))
    for key in ("llf", "es", "es1"):
        for degree, n, radius in ((1, 3, 1), (2, 3, 1), (3, 3, 1), (2, 5, 2)):
            out.append(inst(f"corrected-{key}-{degree}-{n}-{radius}", corrected, key=key, n=n, degree=degree, radius=radius, argv=EULER))
        for degree, radius, node in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 1, 2)):
            out.append(inst(f"later-{key}-{degree}-{radius}-{node}", later, key=key, degree=degree, radius=radius, node=node, count=2 if big else 1))
    for key in ("central", "low-order", "antidiffusion"):
        out.append(inst(f"later-{key}-2-1-2", later, key=key, degree=2, radius=1, node=2, count=1, argv=() if key == "central" else EULER))
    out.append(inst("reduced-2-6", reduced, key="llf", n=6, degree=2))
    out.append(inst("reduced-3-5", reduced, key="llf", n=5, degree=3))
    out.append(inst("curvature", curvature))
    out.append(inst("parameters-1", parameters, count=1))
    out.append(inst("parameters-3", parameters, count=3))
    for count in (1, 2, 3):
        for ow in (True, False):
            out.append(inst(f"frames-{count}-{'over' if ow else 'append'}", frames, count=count, overwrite=ow))
    return out
