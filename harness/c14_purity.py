from .common import *

TITLE = "rates depend on time and value only"
BOUNDS = "3 cells (4 or 5 for the reduced models), degrees 1 and 2 of finite elements, any two states, inflow data as an arbitrary function of time; up to three evaluations in any order"
OUTSIDE = "evaluations from several threads; Lax-Wendroff rates for different time steps"
EXPLANATION = ("One right hand side is evaluated at a state, at another one and at the first one again, with the arrays changed in place in between; the solver shows "
               "that every result equals that of a fresh solver, that arguments stay as they were and that results handed out are not touched later.")


class AnyInflow:
    """an unknown for every side and time"""

    def __init__(self, ctx, swe):
        self.ctx, self.swe, self.times = ctx, swe, []

    def __call__(self, side):
        def f(t):
            for k, s in enumerate(self.times):
                if _eq(s, t):
                    break
            else:
                k = len(self.times)
                self.times.append(t)
            if not self.swe:
                return self.ctx.real(f"in{side}{k}")
            h = self.ctx.real(f"in{side}h{k}", lo=1e-9)
            return self.ctx.array([h, self.ctx.real(f"in{side}q{k}")])

        return f


def _eq(a, b):
    if hasattr(a, "p") or hasattr(b, "p"):
        return hasattr(a, "p") and hasattr(b, "p") and a.p == b.p
    return a == b


def states(ctx, family, n, dofs, name):
    if family == "swe":
        return [list(c) for c in wet_cells(ctx, n, name=name)]
    return [ctx.real(f"{name}{i}") for i in range(dofs)]


def build(ctx, inflow, family, key, n, bc, argv, bottom, problem):
    if family == "swe":
        bench = StubSWE(ctx, [(1.0, 0.0)] * n, bc=bc, bottom=bottom, inflow_left=inflow("l"), inflow_right=inflow("r"))
    else:
        bench = StubScalar(ctx, problem, [0.0] * n, bc=bc, inflow_left=inflow("l"), inflow_right=inflow("r"))
    s = make_solver(family, key, bench, *argv)
    if key == "lw":
        s._right_hand_side.set_time_step(ctx.pos("dt"))
    return s


def purity(ctx, family, key, n, bc="periodic", argv=(), bottom=False, problem="burgers"):
    if key.startswith("reduced"):
        use_network(ctx)
    p = int(argv[1]) if family == "fem" else 1
    A, B = states(ctx, family, n, n * p, "a"), states(ctx, family, n, n * p, "b")
    b = bottoms(ctx, n) if bottom else None
    t1, t2 = ctx.real("t1"), ctx.real("t2")
    inflow = AnyInflow(ctx, family == "swe")
    s = build(ctx, inflow, family, key, n, bc, argv, b, problem)
    v = ctx.array(A)
    first = rhs(s, t1, v)
    ctx.eq("argument", v, A)
    kept = first.copy()
    w = ctx.array(B)
    second = rhs(s, t2, w)
    kept2 = second.copy()
    ctx.eq("argument 2", w, B)
    ctx.eq("first result", first, kept)
    # the caller overwrites its array and asks again
    v[0] = w[0]
    v[0] = ctx.array(A)[0]
    w[...] = v
    ctx.eq("same array, other content", rhs(s, t1, w), kept)
    first *= 0.0
    ctx.eq("again", rhs(s, t1, ctx.array(A)), kept)
    fresh = build(ctx, inflow, family, key, n, bc, argv, b, problem)
    ctx.eq("fresh solver, other data", rhs(fresh, t2, ctx.array(B)), kept2)
    ctx.eq("fresh solver, same data", rhs(fresh, t1, ctx.array(A)), kept)


def wrapped(ctx, kind, shared):
    """a flux given to another one: its results are read only, even if it keeps them or
    gives the same array for both sides"""
    faces = 4
    given = []

    class Kept(finite_volume.NumericalFlux):
        input_dimension = 2

        def __init__(self, name):
            self.name = name

        def __call__(self, *values):
            left = ctx.vec(f"{self.name}l", 2 * faces).reshape(faces, 2)
            right = left if shared else ctx.vec(f"{self.name}r", 2 * faces).reshape(faces, 2)
            given.append((left, right, left.copy(), right.copy()))
            return left, right

    first, other = Kept("F"), Kept("G")
    b = sloped_bottom(ctx, (1, -1))
    build = {
        "bottom": lambda: swe.NumericalFlux(first, G, bathymetry=np.array(b) if not ctx.symbolic else ctx.array(b)),
        "flat": lambda: swe.NumericalFlux(first, G),
        "corrected": lambda: finite_volume.CorrectedNumericalFlux(first, other),
        "history": lambda: finite_volume.NumericalFluxWithHistory(first),
        "input": lambda: finite_volume.NumericalFluxWithArbitraryInput(first),
    }
    flux = build[kind]()
    cells = [ctx.array([list(c) for c in wet_cells(ctx, faces, name=s)]) for s in "ab"]
    kept_cells = [c.copy() for c in cells]
    results = []
    for k in range(2):
        left, right = flux(*cells)
        results.append((left, right, left.copy(), right.copy()))
    for k, (l, r, kl, kr) in enumerate(results):
        ctx.eq(f"left result {k}", l, kl)
        ctx.eq(f"right result {k}", r, kr)
    for k, (l, r, kl, kr) in enumerate(given):
        ctx.eq(f"left flux given {k}", l, kl)
        ctx.eq(f"right flux given {k}", r, kr)
    ctx.eq("again", [results[1][0], results[1][1]], [results[0][0], results[0][1]])
    for c, k in zip(cells, kept_cells):
        ctx.eq("values", c, k)
    # the result, from the definition
    fl, fr = given[0][2], given[0][3]
    if kind == "corrected":
        gl, gr = given[1][2], given[1][3]
        want = fl + gl, fr + gr
    elif kind == "bottom":
        ext = [b[0], *b, b[-1]]
        s = [G / 2 * (cells[0][i][0] + cells[1][i][0]) / 2 * (ext[i + 1] - ext[i]) for i in range(faces)]
        want = [[[x[i][0], x[i][1] - s[i]] for i in range(faces)] for x in (fl, fr)]
    else:
        want = fl, fr
    ctx.eq("left", results[0][0], want[0])
    ctx.eq("right", results[0][1], want[1])
    if kind == "history":
        ctx.eq("history left", flux.flux_left_history, [want[0], want[0]])
        ctx.eq("history right", flux.flux_right_history, [want[1], want[1]])
        h = flux.flux_left_history.copy()
        results[0][0][0] = results[0][0][0] + 1
        given[1][0][1] = given[1][0][1] + 1
        ctx.eq("history is its own", flux.flux_left_history, h)


def flux_history(ctx, calls, faces=3):
    """one record per call, in the order of the calls"""

    class Next(finite_volume.NumericalFlux):
        input_dimension = 2
        k = 0

        def __call__(self, *values):
            self.k += 1
            return [ctx.vec(f"{side}{self.k}", 2 * faces).reshape(faces, 2) for side in "lr"]

    flux = finite_volume.NumericalFluxWithHistory(Next())
    cells = [ctx.array([list(c) for c in wet_cells(ctx, faces, name=s)]) for s in "ab"]
    want = []
    for k in range(calls):
        left, right = flux(*cells)
        want.append((left.copy(), right.copy()))
        ctx.eq(f"left after {k + 1}", flux.flux_left_history, [w[0] for w in want])
        ctx.eq(f"right after {k + 1}", flux.flux_right_history, [w[1] for w in want])


def flux_approximation(ctx, problem):
    """the nodal fluxes of finite elements, whatever was asked before"""
    import finite_element as fe

    f = fe.build_flux_approximation(problem)
    flux = (lambda u: u) if problem == "advection" else (lambda u: u * u / 2)
    a, b = ctx.vec("a", 3), ctx.vec("b", 3)
    work = a.copy()
    ctx.eq("first", f(work), [flux(x) for x in a])
    work[...] = b
    ctx.eq("changed in place", f(work), [flux(x) for x in b])
    work[1] = a[1]
    ctx.eq("one entry changed", f(work), [flux(b[0]), flux(a[1]), flux(b[2])])
    ctx.eq("back", f(a), [flux(x) for x in a])
    ctx.eq("shorter", f(a[:2]), [flux(x) for x in a[:2]])


def instances(tier):
    big = tier == "thorough"
    out = [inst(f"flux-approximation-{p}", flux_approximation, problem=p) for p in ("advection", "burgers")]
    for calls in (1, 2, 4):
        out.append(inst(f"history-order-{calls}", flux_history, calls=calls))
    for kind in ("bottom", "flat", "corrected", "history", "input"):
        for shared in (False, True):
            out.append(inst(f"wrapped-{kind}{'-shared' if shared else ''}", wrapped, kind=kind, shared=shared))
    for key in SWE_FLAT + ("reduced-llf", "reduced-llf-2"):
        n = 4 if key.startswith("reduced") else 3
        if key == "mcl":
            out.append(inst("swe-mcl-periodic", purity, family="swe", key=key, n=3, budget=120))
            continue
        out.append(inst(f"swe-{key}-periodic", purity, family="swe", key=key, n=n))
        if key.startswith("reduced"):
            continue
        if key in ("llf", "central", "es"):
            out.append(inst(f"swe-{key}-bottom", purity, family="swe", key=key, n=3, bottom=True))
        out.append(inst(f"swe-{key}-inflow", purity, family="swe", key=key, n=3, bc=("inflow", "inflow")))
    for key in ("llf", "central", "mcl-fv"):
        for problem in ("advection", "burgers"):
            if key == "mcl-fv" and problem == "burgers" and not big:
                continue
            out.append(inst(f"scalar-{key}-{problem}", purity, family="scalar", key=key, n=3, problem=problem))
        out.append(inst(f"scalar-{key}-inflow", purity, family="scalar", key=key, n=3, problem="advection", bc=("inflow", "outflow")))
    for key in ("cg", "cg-low", "mcl-fem"):
        for problem in ("advection", "burgers"):
            for p in (1, 2):
                if key == "mcl-fem" and (p == 2 or problem == "burgers") and not big:
                    continue
                out.append(inst(f"fem-{key}-{problem}-p{p}", purity, family="fem", key=key, n=3, problem=problem, argv=("+p", p)))
    out.append(inst("fem-cg-exact-burgers", purity, family="fem", key="cg", n=3, problem="burgers", argv=("+p", 1, "++exact-flux")))
    return out
