from .common import *
import finite_element as fe

TITLE = "numbering, neighbours and local extrema"
BOUNDS = "meshes of any size up to 1000 cells with any cell indices for the numbering (degrees 1 to 7); meshes of 1 to 17 cells with degrees 1 to 5 (at most 15 unknowns; 1 to 7 and 20 cells in the thorough tier) for neighbours and local extrema of any values; 270 to 300 unknowns with three arbitrary values"
OUTSIDE = "non-periodic finite element spaces beyond their numbering (the code offers none)"
EXPLANATION = ("The numbering is executed on a symbolic mesh size and symbolic cell and local indices; neighbour tables are computed by the real code and local extrema of symbolic "
               "values compared with the maximum over all unknowns of the adjacent cells.")


class AnyMesh:
    """a mesh known by its size only"""

    def __init__(self, size):
        self.size = size

    def __sym_len__(self):
        return self.size

    def __len__(self):
        return self.size


def numbering(ctx, p, periodic):
    n = ctx.integer("n", 1, 1000)
    g = fe.GlobalIndexMapping(AnyMesh(n), p, periodic=periodic)
    ctx.eq("dimension", g.dimension, n * p if periodic else n * p + 1)
    ctx.eq("indices per cell", g.indices_per_cell, p + 1)
    c = ctx.integer("c", 0, 999)
    e = ctx.integer("e", 0, 999)
    ctx.assume(c < n)
    ctx.assume(e < n)
    for l in range(p + 1):
        i = g(c, l)
        ctx.ge(f"not negative {l}", i, 0)
        ctx.le(f"within the dimension {l}", i, g.dimension - 1)
    if bool(c == n - 1):
        ctx.eq("end", g(c, p), 0 if periodic else n * p)
    else:
        ctx.eq("shared with the next cell", g(c, p), g(c + 1, 0))
    ctx.eq("first", g(0, 0), 0)
    # different inner unknowns of two cells have different numbers
    for l in range(p):
        for k in range(p):
            i, j = g(c, l), g(e, k)
            if l == k:
                if bool(i == j):
                    ctx.eq(f"one cell {l}", c, e)
            else:
                ctx.true(f"different {l}{k}", truth(ctx, i != j))


def truth(ctx, b):
    return b


def expected_neighbours(n, p, periodic=True):
    dim = n * p if periodic else n * p + 1
    cells = [[(c * p + l) % dim if periodic else c * p + l for l in range(p + 1)] for c in range(n)]
    return [set(j for cell in cells if i in cell for j in cell) for i in range(dim)]


def neighbours(ctx, n, p):
    d = core.Interval(0, 1)
    space = fe.LagrangeSpace(core.UniformMesh(d, n), p)
    want = expected_neighbours(n, p)
    for i, w in enumerate(want):
        ctx.eq(f"neighbours {i}", sorted(int(x) for x in space.dof_neighbours(i)), sorted(w))
        ctx.eq(f"row {i}", sorted(set(int(x) for x in space.dof_neighbours.array[i])), sorted(w))
    extrema(ctx, space.dof_neighbours, want, n * p)


def extrema(ctx, mapping, want, size):
    v = ctx.vec("v", size)
    kept = v.copy()
    hi, lo = core.LocalMaximum(mapping)(v), core.LocalMinimum(mapping)(v)
    ctx.eq("argument", v, kept)
    for i, w in enumerate(want):
        w = sorted(w)
        ctx.eq(f"maximum {i}", hi[i], ctx.max(*[v[j] for j in w]))
        ctx.eq(f"minimum {i}", lo[i], ctx.min(*[v[j] for j in w]))
        ctx.ge(f"above itself {i}", hi[i], v[i])
        ctx.le(f"below itself {i}", lo[i], v[i])


def many(ctx, n, p, finite_elements=True, periodic=True):
    """large meshes: every row of the table, and the extrema next to a few arbitrary values"""
    if finite_elements:
        mapping = fe.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), n), p).dof_neighbours
        want = expected_neighbours(n, p)
    else:
        mapping = finite_volume.NeighbourIndicesMapping(n, periodic=periodic)
        want = [{j % n if periodic else min(max(j, 0), n - 1) for j in (i - 1, i, i + 1)} for i in range(n)]
    size = len(want)
    ctx.eq("rows", len(mapping.array), size)
    for i, w in enumerate(want):
        ctx.true(f"row {i}", {int(x) for x in mapping.array[i]} == w)
    values = [float(i % 64) for i in range(size)]
    spots = (0, size // 2, size - 2)
    for k in spots:
        values[k] = ctx.real(f"v{k}")
    v = ctx.array(values)
    hi, lo = core.LocalMaximum(mapping)(v), core.LocalMinimum(mapping)(v)
    for i, w in enumerate(want):
        if size < 40 or i % 16 == 3 or w & set(spots):
            ctx.eq(f"maximum {i}", hi[i], ctx.max(*[values[j] for j in sorted(w)]))
            ctx.eq(f"minimum {i}", lo[i], ctx.min(*[values[j] for j in sorted(w)]))


def cell_neighbours(ctx, n, periodic):
    mapping = finite_volume.NeighbourIndicesMapping(n, periodic=periodic)
    want = []
    for i in range(n):
        w = {i - 1, i, i + 1}
        want.append({j % n for j in w} if periodic else {j for j in w if 0 <= j < n})
    for i, w in enumerate(want):
        ctx.eq(f"neighbours {i}", sorted(int(x) for x in mapping(i)), sorted(w))
    extrema(ctx, mapping, want, n)


def instances(tier):
    big = tier == "thorough"
    out = []
    for p in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
        for periodic in (True, False):
            out.append(inst(f"numbering-{p}-{'periodic' if periodic else 'open'}", numbering, p=p, periodic=periodic))
    for n in (1, 2, 3, 4, 5, 8, 13) + ((6, 7, 20) if big else ()):
        for p in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
            if n * p <= 15 or big:
                out.append(inst(f"neighbours-{n}-{p}", neighbours, n=n, p=p))
    for n, p in ((300, 1), (150, 2), (90, 3)):
        out.append(inst(f"many-{n}-{p}", many, n=n, p=p))
    for periodic in (True, False):
        out.append(inst(f"many-cells-{'periodic' if periodic else 'open'}", many, n=300, p=0, finite_elements=False, periodic=periodic))
    for n in (2, 3, 4, 5, 8, 17) + ((6, 33) if big else ()):
        for periodic in (True, False):
            out.append(inst(f"cells-{n}-{'periodic' if periodic else 'open'}", cell_neighbours, n=n, periodic=periodic))
    return out
