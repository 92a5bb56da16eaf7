from .common import *

TITLE = "meshes, refinement and coarsening"
BOUNDS = "any domain [a, b] with b - a >= 0.01 and |a| <= 1000, 1 to 33 cells (100 in the thorough tier; 17 where points are located), refinement and coarsening degrees 1 to 8, polynomial degrees 1 to 4, any points and cell values"
OUTSIDE = "rounding of cell boundaries (they coincide up to the tolerance of the replay)"
EXPLANATION = ("Meshes, spaces and coarsening operators are built on a symbolic domain; the solver shows that cells tile the domain, that refined and coarse cells nest, "
               "that a point is found in the cells containing it and that coarsening keeps integrals and bounds.")


def domain(ctx):
    a = ctx.real("a", lo=-1000.0, hi=1000.0)
    length = ctx.real("L", lo=0.01, hi=1000.0)
    return core.Interval(a, a + length), a, length


def tiles(ctx, n):
    d, a, L = domain(ctx)
    m = core.UniformMesh(d, n)
    cells = list(m)
    ctx.eq("size", len(m), n)
    ctx.eq("number of cells", len(cells), n)
    ctx.eq("first", cells[0].a, a)
    ctx.eq("last", cells[-1].b, a + L)
    ctx.eq("step", m.step_length, L / n)
    ctx.eq("steps", m.space_steps, [L / n] * n)
    for i, c in enumerate(cells):
        ctx.eq(f"left {i}", c.a, a + i * L / n)
        ctx.eq(f"right {i}", c.b, a + (i + 1) * L / n)
        ctx.eq(f"length {i}", c.length, L / n)
        ctx.eq(f"center {i}", c.center, a + (2 * i + 1) * L / (2 * n))
        ctx.eq(f"access {i}", m[i].a, c.a)
    ctx.eq("domain", [m.domain.a, m.domain.b], [a, a + L])
    space = finite_volume.FiniteVolumeSpace(m)
    ctx.eq("grid", space.grid, [a + (2 * i + 1) * L / (2 * n) for i in range(n)])
    ctx.eq("dimension", space.dimension, n)
    v = ctx.vec("v", n)
    e = space.element(v)
    for i, c in enumerate(cells):
        ctx.eq(f"element {i}", e(i, c.center), v[i])


def nests(ctx, n, k):
    d, a, L = domain(ctx)
    m = core.UniformMesh(d, n)
    f = m.refine(k)
    ctx.eq("size", len(f), n * k)
    which = core.FineGridIndicesMapping(n * k, k)
    for i in range(n):
        idx = list(which(i))
        ctx.eq(f"indices {i}", idx, [k * i + j for j in range(k)])
        ctx.eq(f"left {i}", f[idx[0]].a, m[i].a)
        ctx.eq(f"right {i}", f[idx[-1]].b, m[i].b)
    back = f.coarsen(k)
    ctx.eq("coarsened size", len(back), n)
    for i in range(n):
        ctx.eq(f"coarse left {i}", back[i].a, m[i].a)
        ctx.eq(f"coarse right {i}", back[i].b, m[i].b)
    ctx.eq("coarse step", back.step_length, m.step_length)
    space = finite_volume.FiniteVolumeSpace(m)
    ctx.eq("refined grid", space.refine(k).grid, finite_volume.FiniteVolumeSpace(f).grid)
    ctx.eq("coarse grid", space.refine(k).coarsen(k).grid, space.grid)
    for bad in range(2, n * k + 2):
        if (n * k) % bad:
            for what in (lambda: f.coarsen(bad), lambda: core.FineGridIndicesMapping(n * k, bad), lambda: core.VectorCoarsener(bad)(ctx.vec("v", n * k))):
                try:
                    what()
                    ctx.fail(f"degree {bad} accepted")
                except (ValueError, AssertionError):
                    pass


def finds(ctx, n):
    d, a, L = domain(ctx)
    m = core.UniformMesh(d, n)
    x = ctx.real("x")
    found = list(m.find_cell_indices(x))
    for i in range(n):
        inside = bool(m[i].a <= x) and bool(x <= m[i].b)
        ctx.eq(f"cell {i}", 1 if i in found else 0, 1 if inside else 0)
    cells = m.find_cells(x)
    ctx.eq("cells", [c.a for c in cells], [m[i].a for i in found])
    t = core.AffineTransformation()
    for i in found:
        s = t.inverse(x, m[i])
        ctx.ge(f"reference lower {i}", s, 0.0)
        ctx.le(f"reference upper {i}", s, 1.0)


def affine(ctx):
    d, a, L = domain(ctx)
    t = core.AffineTransformation()
    s, x = ctx.real("s"), ctx.real("x")
    ctx.eq("start", t(0.0, d), a)
    ctx.eq("end", t(1.0, d), a + L)
    ctx.eq("there and back", t.inverse(t(s, d), d), s)
    ctx.eq("back and there", t(t.inverse(x, d), d), x)
    ctx.eq("derivative", t.derivative(d), t(s + 1, d) - t(s, d))
    ctx.eq("inverse derivative", t.derivative(d) * t.inverse_derivative(d), 1.0)


def interval(ctx):
    d, a, L = domain(ctx)
    x = ctx.real("x")
    ctx.true("contains", ctx.all(ctx.implies(a <= x, ctx.implies(x <= a + L, truth(ctx, x in d))), ctx.implies(x < a, truth(ctx, not x in d)), ctx.implies(x > a + L, truth(ctx, not x in d))))
    inner, boundary, inside = bool(d.is_in_inner(x)), bool(d.is_in_boundary(x)), bool(x in d)
    ctx.eq("disjoint union", int(inner) + int(boundary), int(inside))
    ctx.eq("length", d.length, L)
    ctx.eq("center", d.center, a + L / 2)
    refused = False
    try:
        core.Interval(a + L, a)
    except AssertionError:
        refused = True
    ctx.true("reversed interval refused", refused)


def truth(ctx, b):
    return ctx.num(1.0) > 0 if b else ctx.num(1.0) < 0


def coarsens(ctx, n, k, components):
    c = core.VectorCoarsener(k)
    shape = (n * k,) if components == 1 else (n * k, components)
    v = ctx.vec("v", n * k * components).reshape(shape)
    kept = v.copy()
    w = c(v)
    ctx.eq("argument", v, kept)
    ctx.eq("size", len(w), n)
    for i in range(n):
        ctx.eq(f"mean {i}", w[i], sum(v[k * i + j] for j in range(k)) / k)
    ctx.eq("total", k * w.sum(axis=0), v.sum(axis=0))
    if components == 1:
        for i in range(n):
            top = v[k * i]
            low = v[k * i]
            for j in range(1, k):
                top, low = ctx.max(top, v[k * i + j]), ctx.min(low, v[k * i + j])
            ctx.le(f"upper {i}", w[i], top)
            ctx.ge(f"lower {i}", w[i], low)
    u = ctx.real("u")
    const = v * 0.0 + u
    ctx.eq("constants", c(const), u)


def composed(ctx, n, k, l):
    v = ctx.vec("v", n * k * l)
    ctx.eq("in two steps", core.VectorCoarsener(l)(core.VectorCoarsener(k)(v)), core.VectorCoarsener(k * l)(v))


def coarse_solution(ctx, n, k, history):
    d, a, L = domain(ctx)
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(d, n * k))
    sol = core.DiscreteSolution(ctx.vec("v", n * k), space=space)
    c = (core.CoarseSolutionWithHistory if history else core.CoarseSolution)(sol, k)
    ctx.eq("dimension", c.dimension, n)
    ctx.eq("cells", len(c.space.mesh), n)
    ctx.eq("grid", c.grid, [a + (2 * i + 1) * L / (2 * n) for i in range(n)])
    ctx.eq("step", c.space.mesh.step_length, L / n)


def lagrange_nodes(ctx, n, p):
    import finite_element as fe

    d, a, L = domain(ctx)
    m = core.UniformMesh(d, n)
    s = fe.LagrangeSpace(m, p)
    ctx.eq("dimension", s.dimension, n * p)
    ctx.eq("nodes", s.grid, [a + i * L / (n * p) for i in range(n * p)])
    t = core.AffineTransformation()
    for i in range(n):
        for j in range(p + 1):
            x = t(j / p, m[i])
            g = s.global_index(i, j)
            node = s.basis_nodes[g]
            if i == n - 1 and j == p:
                ctx.eq("wrapped node", node, a)
            else:
                ctx.eq(f"node {i}.{j}", node, x)
    r = s.refine(2)
    ctx.eq("refined nodes", [r.grid[2 * i] for i in range(n * p)], s.grid)
    ctx.eq("refined degree", r.polynomial_degree, p)
    ctx.eq("refined dimension", r.dimension, 2 * n * p)
    ctx.eq("coarse again", r.coarsen(2).grid, s.grid)


def instances(tier):
    big = tier == "thorough"
    out = [inst("affine", affine), inst("interval", interval)]
    for n in (1, 2, 3, 4, 7, 12, 17, 33) + ((48, 65, 100) if big else ()):
        out.append(inst(f"tiles-{n}", tiles, n=n))
        if n <= 17 or big:
            out.append(inst(f"finds-{n}", finds, n=n))
    for n, k in ((1, 2), (2, 2), (3, 2), (2, 3), (3, 4), (3, 1), (5, 4), (1, 5), (9, 2), (2, 8), (7, 5)):
        out.append(inst(f"nests-{n}-{k}", nests, n=n, k=k))
        for c in (1, 2) if n < 5 else (2,):
            out.append(inst(f"coarsens-{n}-{k}-{c}", coarsens, n=n, k=k, components=c))
    out += [inst("composed-2-2-3", composed, n=2, k=2, l=3), inst("composed-1-3-2", composed, n=1, k=3, l=2)]
    for h in (False, True):
        out.append(inst(f"coarse-solution{'-history' if h else ''}", coarse_solution, n=3, k=2, history=h))
    for n in (1, 2, 3):
        for p in (1, 2, 3, 4):
            out.append(inst(f"lagrange-{n}-{p}", lagrange_nodes, n=n, p=p))
    return out
