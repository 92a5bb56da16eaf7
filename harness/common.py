"""Shared pieces of the harnesses: benchmarks whose data are the symbolic inputs, and
solvers built exactly as the command line builds them."""
import argparse
import copy
from fractions import Fraction

import numpy as np

import core
import defaults
import finite_volume
import finite_volume.scalar.solver as fv_scalar
import finite_volume.shallow_water as swe
import finite_volume.shallow_water.solver as fv_swe
import finite_element.scalar.solver as fem_scalar
from benchmark.shallow_water import ShallowWaterBenchmark
from core.benchmark import Benchmark

DX = 0.5
G = defaults.GRAVITATIONAL_ACCELERATION


def cell_index(ctx, x, dx, n, a=0.0):
    i = int(np.floor((ctx.num(x) - a) / dx))
    return max(0, min(n - 1, i))


class StubSWE(ShallowWaterBenchmark):
    """Shallow water problem with given cell values."""

    def __init__(self, ctx, cells, bc="periodic", bottom=None, g=None, end_time=1.0, start_time=0.0,
                 inflow_left=None, inflow_right=None, dx=DX, data_cells=None):
        n = len(cells)
        self.ctx, self.cells, self.n = ctx, cells, n
        self.domain = core.Interval(0, dx * n)
        self.dx = dx
        self._boundary_conditions = bc
        self.bottom = bottom
        self.end_time = end_time
        self.start_time = start_time
        if g is not None:
            self.gravitational_acceleration = g
        if inflow_left is not None:
            self.inflow_left = inflow_left
        if inflow_right is not None:
            self.inflow_right = inflow_right

    def bathymetry(self, x):
        if self.bottom is None:
            return 0.0
        return self.bottom[cell_index(self.ctx, x, self.dx, self.n)]

    def initial_data(self, x):
        h, q = self.cells[cell_index(self.ctx, x, self.dx, self.n)]
        return self.ctx.array([h, q])


class StubScalar(Benchmark):
    def __init__(self, ctx, problem, cells, bc="periodic", end_time=1.0, start_time=0.0, inflow_left=None,
                 inflow_right=None, dx=DX):
        self.problem = problem
        n = len(cells)
        self.ctx, self.cells, self.n = ctx, cells, n
        self.domain = core.Interval(0, dx * n)
        self.dx = dx
        self._boundary_conditions = bc
        self.end_time = end_time
        self.start_time = start_time
        if inflow_left is not None:
            self.inflow_left = inflow_left
        if inflow_right is not None:
            self.inflow_right = inflow_right

    def initial_data(self, x):
        return self.cells[cell_index(self.ctx, x, self.dx, self.n)]


PARSERS = {"swe": fv_swe.SOLVER_PARSER, "scalar": fv_scalar.SOLVER_PARSER, "fem": fem_scalar.SOLVER_PARSER}


def make_solver(family, key, benchmark, *argv, mesh_size=None, **overrides):
    """The solver the command line would build for `-s key argv...`."""
    parser = PARSERS[family][key]
    args = ["+m", str(mesh_size or benchmark.n), *map(str, argv)]
    ns = argparse.Namespace()
    parser.parse_arguments(args, ns)
    kw = dict(vars(ns))
    cls = kw.pop("solver")
    before(family, cls, benchmark, kw)
    kw.update(overrides)
    return cls(benchmark, **kw)


def before(family, cls, benchmark, options):
    """Another problem of the same kind, on the same mesh and under the same name, is met
    first in this process: nothing of it may be remembered."""
    n = benchmark.n
    other = copy.copy(benchmark)
    if family == "swe":
        other.cells = [[2.0 + (i % 3) / 8, 0.25 - (i % 2) / 8] for i in range(n)]
        other.bottom = [(i % 4) / 16 for i in range(n)]
        other.inflow_left = other.inflow_right = lambda t: np.array([2.5, 0.375])
    else:
        other.cells = [0.75 + (i % 3) / 8 for i in range(n)]
        other.inflow_left = other.inflow_right = lambda t: 0.625
    other.start_time = 0.0
    try:
        s = cls(other, **options)
        if s.solution is not None:
            s._right_hand_side(0.0, s.solution.value)
    except (AssertionError, AttributeError, TypeError, ValueError):
        pass  # whether solvers can be built is not decided here


def wet_cells(ctx, n, g=G, hmin=Fraction(1, 10**12), name="", dry=()):
    """n wet states parametrised by celerity c = sqrt(g h) and velocity u (onto all wet
    states with h >= hmin); the cells listed as dry hold no water."""
    out = []
    for i in range(n):
        if i in dry:
            out.append((ctx.num(0.0), ctx.num(0.0)))
            continue
        c = ctx.real(f"c{name}{i}", pos=True)
        u = ctx.real(f"u{name}{i}")
        h = c * c / g
        ctx.assume(h >= float(hmin))
        out.append((h, h * u))
    return out


def bottoms(ctx, n, name="b", kinds=None):
    return [ctx.real(f"{name}{i if kinds is None else pattern(i + 2, kinds)}") for i in range(n)]


def pattern(i, kinds):
    """which of the given number of different values the i-th cell has; irregular, so that
    most neighbourhoods occur"""
    return (i * i + i // 3) % kinds


def many_cells(ctx, n, kinds=4, g=G, name="", dry=()):
    """a large mesh with a few different arbitrary wet states"""
    states = wet_cells(ctx, kinds, g=g, name=name)
    return [(ctx.num(0.0), ctx.num(0.0)) if i in dry else states[pattern(i, kinds)] for i in range(n)]


def swe_cells(ctx, n, dry=()):
    return many_cells(ctx, n, dry=dry) if n > 30 else wet_cells(ctx, n, dry=dry)


def total(ctx, v):
    return v.sum(axis=0)


def rhs(solver, time=None, value=None):
    value = solver.solution.value if value is None else value
    time = solver.solution.time if time is None else time
    return solver._right_hand_side(time, value)


class Network:
    """Stand-in for a trained network: an arbitrary function of each input row, the
    same for equal rows (a fresh unknown per distinct row)."""

    def __init__(self, ctx, name="net"):
        self.ctx, self.name, self.rows = ctx, name, []

    def load_params(self, *a, **k):
        pass

    def predict(self, x):
        out = []
        for row in x:
            row = list(row)
            for r, y in self.rows:
                if all(_same(p, q) for p, q in zip(r, row)):
                    out.append(y)
                    break
            else:
                k = len(self.rows)
                y = [self.ctx.real(f"{self.name}{k}_{j}") for j in range(2)]
                self.rows.append((row, y))
                out.append(y)
        return self.ctx.array(out)


def _same(p, q):
    """Equal numbers; terms count as equal when they have the same normal form."""
    if hasattr(p, "p") and hasattr(q, "p"):
        return p.p == q.p
    if hasattr(p, "p") or hasattr(q, "p"):
        return False
    return bool(p == q)


SWE_FLAT = ("llf", "central", "low-order", "es", "es1", "lw", "antidiffusion", "mcl")


def space_of(bench):
    return finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, bench.n))


def use_network(ctx):
    """The reduced solvers get an arbitrary function instead of a trained network."""
    import finite_volume.shallow_water.solver.reduced_llf as a
    import finite_volume.shallow_water.solver.reduced_llf_2 as b

    net = Network(ctx)
    replaced = 0
    for mod in (a, b):
        for n, v in list(vars(mod).items()):
            if getattr(v, "stand_in", False) or (isinstance(v, type) and issubclass(v, fv_swe.ReducedNetwork) and v is not fv_swe.ReducedNetwork):
                stand_in = lambda *p, **k: net
                stand_in.stand_in = True
                setattr(mod, n, stand_in)
                replaced += 1
    if replaced < 2:
        raise AttributeError("the networks of the reduced solvers are not where the harness expects them")
    return net


def inst(_name, _fn, budget=None, **params):
    d = {"name": _name, "fn": _fn, "params": params}
    if budget:
        d["budget"] = budget
    return d


def any_flux_getter(ctx, name="F", dimension=2):
    """A target flux nobody restricts: a fresh unknown per face."""

    class AnyFlux(finite_volume.NumericalFlux):
        input_dimension = dimension

        def __call__(self, *values):
            k = len(values[0])
            out = [[ctx.real(f"{name}{f}_{j}") for j in range(2)] for f in range(k)]
            right = ctx.array(out)
            return -right, right

    return lambda *a, **k: AnyFlux()


def any_window_flux(ctx, radius, components=1, name="W"):
    """A numerical flux nobody restricts but that it is a function of its windows: an
    unknown per distinct window."""

    class WindowFlux(finite_volume.NumericalFlux):
        input_dimension = 2 * radius
        rows = []

        def __call__(self, *values):
            left, right = [], []
            for window in zip(*values):
                row = [e for v in window for e in (v if components > 1 else [v])]
                for r, y in self.rows:
                    if all(_same(p, q) for p, q in zip(r, row)):
                        break
                else:
                    k = len(self.rows)
                    y = [[ctx.real(f"{name}{side}{k}_{j}") for j in range(components)] for side in "lr"]
                    self.rows.append((row, y))
                left.append(y[0] if components > 1 else y[0][0])
                right.append(y[1] if components > 1 else y[1][0])
            return ctx.array(left), ctx.array(right)

    return WindowFlux()


def sloped_bottom(ctx, slopes):
    """A bottom whose steps have the given signs (0: none); the first step is not negligible."""
    b = [ctx.real("b0")]
    for i, sg in enumerate(slopes):
        b.append(b[-1] + sg * ctx.pos(f"step{i}") if sg else b[-1])
    if slopes[0]:
        ctx.assume(ctx.pos("step0") >= 1e-6)
    return b


def near(ctx, name, a, b, tol=1e-9):
    """a and b agree up to the rounding of the constants in the code"""
    d = a - b
    ctx.le(name, d, tol)
    ctx.ge(name + "'", d, -tol)


# -- polynomials with exact coefficients (lowest degree first) -------------------


def poly_mul(p, q):
    r = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def poly_der(p):
    return [k * c for k, c in enumerate(p)][1:] or [Fraction(0)]


def poly_int(p):
    """integral over [0, 1]"""
    return sum(c / (k + 1) for k, c in enumerate(p))


def poly_at(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + (c if isinstance(x, Fraction) else float(c))
    return r


def lagrange_basis(p):
    """the polynomials of degree p that are one at i/p and zero at the other nodes"""
    nodes = [Fraction(i, p) for i in range(p + 1)]
    out = []
    for i, x in enumerate(nodes):
        poly = [Fraction(1)]
        for j, y in enumerate(nodes):
            if j != i:
                poly = poly_mul(poly, [-y / (x - y), 1 / (x - y)])
        out.append(poly)
    return out


# data for instances in which one value varies in an interval
SHAPES = {
    "rough": (1.0, -0.5, 2.0, 0.25, -1.5, 0.75, 0.5),
    "smooth": (1.0, 1.0625, 1.125, 1.15625, 1.125, 1.0625, 1.03125),
    "plateau": (0.5, 0.5, 0.5, -1.0, -1.0, -1.0, 0.5),
    "steep": (1.0, 0.0, 1000.0, 0.0009765625, -500.0, 0.0, 3.0),
}


def one_varies(ctx, shape, dim, loose, around, width=0.25):
    data = SHAPES[shape]
    us = [data[(i + i // 7) % 7] for i in range(dim)]
    if shape == "smooth":
        around, width = us[loose] + around, 1 / 64
    us[loose] = ctx.real("u", lo=around - width, hi=around + width)
    return us
