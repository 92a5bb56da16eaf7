from .common import *
import builtins
import contextlib
import io
import os
import shutil
import tempfile

import pandas as pd
import skorch
import torch

import command
from command import analyze_curvature, analyze_data, delete_curvature, train_network
from finite_volume.shallow_water.solver import reduced_model as rm
from .c24_command_line import parse, silent

TITLE = "training data are filtered, and networks fed, as stated"
BOUNDS = ("data files of one to three rows (up to seven for training), any entries; any step length and thresholds (curvatures 1e-6 away from them); every skip up to four; "
          "any scaling of inputs and outputs; any network function")
OUTSIDE = ("the optimisation of a network and its floating point arithmetic (torch); curvatures within 1e-6 of a threshold; histograms and statistics themselves (pandas)")
EXPLANATION = ("The commands run on data files whose entries are symbolic (files hold placeholders which are exchanged when they are read or written, so that layout and header "
               "are read by pandas itself). The filter is executed on every combination of rows kept and dropped; the solver shows that exactly the rows below the thresholds are "
               "kept, and that inputs, targets and predictions pass the scalings as they should.")

REPO = os.path.dirname(os.path.abspath(defaults.__file__))
NAMES = ["U0", "U1", "U2", "U3", "G_1.5"]


# -- files with symbolic entries ---------------------------------------------------------


class SymFrame(pd.DataFrame):
    """A data frame whose entries may be symbolic"""

    @property
    def _constructor(self):
        return SymFrame

    values_of = None

    @property
    def values(self):
        v = pd.DataFrame(self).values
        return SymFrame.values_of(v)

    def to_numpy(self, *a, **k):
        return self.values

    def __getitem__(self, key):
        return super().__getitem__(mask(key))

    @property
    def loc(self):
        return Locator(super().loc)

    @property
    def iloc(self):
        return Locator(super().iloc)


def mask(key):
    """conditions on symbolic entries become decided ones: every combination is a path"""
    if isinstance(key, (np.ndarray, list, pd.Series)) and len(key) and getattr(key, "dtype", object) == object and all(isinstance(x, bool) or hasattr(x, "__bool__") and not isinstance(x, str) for x in key):
        return np.array([bool(x) for x in key])
    return key


class Locator:
    def __init__(self, base):
        self.base = base

    def __getitem__(self, key):
        return self.base[tuple(map(mask, key)) if isinstance(key, tuple) else mask(key)]

    def __setitem__(self, key, value):
        self.base[key] = value


class Files:
    """exchanges numbers in files for terms"""

    def __init__(self, ctx):
        self.ctx, self.terms = ctx, []

    def token(self, x):
        if not hasattr(x, "p"):
            return x
        for k, y in enumerate(self.terms):
            if _equal_terms(x, y):
                return 1000001 + k
        self.terms.append(x)
        return 1000000 + len(self.terms)

    def term(self, v):
        try:
            k = int(v) - 1000001
        except (TypeError, ValueError, OverflowError):
            return v
        return self.terms[k] if 0 <= k < len(self.terms) and float(v) == k + 1000001 else v

    def write(self, path, index, columns, rows):
        """in the layout generate-data uses"""
        data = [[self.token(x) for x in r] for r in rows]
        self.to_csv(pd.DataFrame(data, columns=columns, index=index), path)

    def read(self, path):
        """(index, columns, rows) of a file in this layout"""
        df = self.read_csv(path, header=[0, 1], skipinitialspace=True, index_col=0)
        return list(df.index), [tuple(c) for c in df.columns], [[self.term(x) for x in r] for r in df.values.tolist()]

    def __enter__(self):
        self.read_csv, self.to_csv = pd.read_csv, pd.DataFrame.to_csv
        self.folder = tempfile.mkdtemp(prefix="c29-")
        self.cwd = os.getcwd()
        if self.ctx.symbolic:
            SymFrame.values_of = staticmethod(lambda v: self.ctx.array(v) if v.dtype == object else v)
            pd.DataFrame.to_csv = lambda df, *a, **k: self.to_csv(self.exchange(df, self.token), *a, **k)
            pd.read_csv = lambda *a, **k: SymFrame(self.exchange(self.read_csv(*a, **k).astype(object), self.term))
        return self

    def exchange(self, df, f):
        rows = [[f(x) for x in r] for r in pd.DataFrame(df).values.tolist()]
        return pd.DataFrame(rows, columns=df.columns, index=df.index, dtype=object if f == self.term else None)

    def __exit__(self, *_):
        pd.read_csv, pd.DataFrame.to_csv = self.read_csv, self.to_csv
        os.chdir(self.cwd)
        shutil.rmtree(self.folder, ignore_errors=True)

    def path(self, *names):
        p = os.path.join(self.folder, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p


def _equal_terms(a, b):
    return hasattr(b, "p") and a.p == b.p


def columns(names=NAMES):
    return pd.MultiIndex.from_product([names, ["h", "q"]])


def rows_of(ctx, count, name="u", width=10):
    return [[ctx.real(f"{name}{r}_{c}") for c in range(width)] for r in range(count)]


def mean_curvature(ctx, row, step, j):
    """curvature of the graph through three values, averaged over both triples"""
    total = 0
    for i in range(2):
        a, b, c = (row[2 * (i + k) + j] for k in range(3))
        q = step * step + (a - c) * (a - c) / 4
        total = total + ctx.abs(a - 2 * b + c) * step / (q * ctx.sqrt(q))  # |f''| / (1 + f'^2)^(3/2), see C23
    return total / 2


def run(args):
    rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
    with silent():
        args.command(**rest).execute()


# -- delete-curvature --------------------------------------------------------------------


def flat_but(row, j, ctx):
    """one component varies, the other one is constant"""
    return [x if c >= 8 or c % 2 == j else 1.0 for c, x in enumerate(row)]


def filtered(ctx, count, options, vary=(0, 1)):
    data = rows_of(ctx, count)
    if vary != (0, 1):
        data = [flat_but(r, vary[i % len(vary)], ctx) for i, r in enumerate(data)]
    index = [0.25 * (k % 2) for k in range(count)]  # two generations may start at the same time
    step, limits = 2.0, [0.25, 0.5]
    with Files(ctx) as files:
        argv = ["delete-curvature", files.path("data.csv"), files.path("less.csv")]
        if options:
            step, limits = ctx.real("dx", lo=0.1, hi=10), [ctx.real(f"k{j}", lo=0.01, hi=10) for j in range(2)]
            argv += ["-s", ctx.real_text("dx", lo=0.1, hi=10), "--kh", ctx.real_text("k0", lo=0.01, hi=10), "--kq", ctx.real_text("k1", lo=0.01, hi=10)]
        kept = []
        for r, row in enumerate(data):
            k = [mean_curvature(ctx, row, step, j) for j in range(2)]
            for j in range(2):
                ctx.assume(ctx.any(k[j] <= limits[j] - 1e-6, k[j] >= limits[j] + 1e-6))
            if bool(k[0] < limits[0]) and bool(k[1] < limits[1]):
                kept.append(r)
        files.write(argv[1], index, columns(), data)
        run(parse(ctx, *argv))
        times, names, rows = files.read(argv[2])
        ctx.eq("rows kept", len(rows), len(kept))
        ctx.true("columns", names == [tuple(c) for c in columns()])
        for k, r in enumerate(kept):
            ctx.eq(f"time {k}", times[k], index[r])
            ctx.eq(f"row {k}", rows[k], data[r])
        again = files.read(argv[1])
        ctx.eq("the data file stays", again[2], data)


# -- analyze-curvature and analyze-data ---------------------------------------------------


class Axes:
    def __init__(self):
        self.points, self.title = [], None

    def scatter(self, x, y, *a, **k):
        self.points.append((list(x), list(y)))

    def set_title(self, t, *a, **k):
        self.title = t

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plt:
    def __init__(self):
        self.figures, self.shown = [], 0

    def subplots(self, r=1, c=1, *a, **k):
        axes = [Axes() for _ in range(r * c)]
        fig = Axes()
        fig.files = []
        fig.savefig = lambda path, *a, **k: fig.files.append(path)
        fig.suptitle = lambda t, *a, **k: setattr(fig, "title", t)
        self.figures.append((fig, axes))
        return fig, axes

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def scattered(ctx, count, save, hide):
    """curvatures are drawn against the subgrid fluxes of the same row, each scheme in its own axes"""
    data = {key: rows_of(ctx, count, key) for key in ("llf", "es1")}
    plt, old = Plt(), analyze_curvature.plt
    analyze_curvature.plt = plt
    if ctx.symbolic:  # extrema only decide the axis limits
        np_old = analyze_curvature.np
        analyze_curvature.np = type("Np", (), {"__getattr__": lambda self, n: getattr(np_old, n), "min": staticmethod(lambda *a: 0.0), "max": staticmethod(lambda *a: 1.0)})()
    try:
        with Files(ctx) as files:
            os.chdir(files.folder)
            for key, rows in data.items():
                files.write(files.path("data", f"reduced-{key}", "data.csv"), list(range(count)), columns(), rows)
            run(parse(ctx, "analyze-curvature", *(["--save"] if save else []), *(["--hide"] if hide else [])))
    finally:
        analyze_curvature.plt = old
        if ctx.symbolic:
            analyze_curvature.np = np_old
    ctx.eq("shown", plt.shown, 0 if hide else 1)
    ctx.eq("figures", len(plt.figures), 4)
    for k, (j, g) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
        fig, axes = plt.figures[k]
        ctx.eq(f"saved {k}", len(fig.files), 1 if save else 0)
        for key, ax in zip(("llf", "es1"), axes):
            ctx.true(f"scheme {k} {key}", ax.title == key.upper())
            ctx.eq(f"scatters {k}", len(ax.points), 1)
            x, y = ax.points[0]
            ctx.eq(f"points {k}", len(x), count)
            for r, row in enumerate(data[key]):
                ctx.eq(f"curvature {k} {key} {r}", x[r], mean_curvature(ctx, row, 2.0, j))
                ctx.eq(f"flux {k} {key} {r}", y[r], row[8 + g])
    if save:
        ctx.eq("different files", len({f for fig, _ in plt.figures for f in fig.files}), 4)


def summarised(ctx, count, histogram):
    """every file named is described"""
    data = [rows_of(ctx, 2, f"f{k}_") for k in range(count)]
    seen, drawn = [], []
    frame = pd.DataFrame
    old = frame.describe, frame.hist, analyze_data.plt
    note = lambda box: lambda df, *a, **k: box.append([list(r) for r in df.values]) or "described"
    plt = Plt()
    try:
        frame.describe, frame.hist, analyze_data.plt = note(seen), note(drawn), plt
        with Files(ctx) as files:
            names = []
            for k, rows in enumerate(data):
                names.append(files.path(f"file{k}.csv"))
                files.write(names[-1], [0.0, 0.5], columns(), rows)
            out = io.StringIO()
            args = parse(ctx, "analyze-data", *names, *(["--histogram"] if histogram else []))
            rest = {k: v for k, v in vars(args).items() if k not in ("command", "args", "profile")}
            with contextlib.redirect_stdout(out):
                args.command(**rest).execute()
            text = out.getvalue().lower()
            for k, n in enumerate(names):
                ctx.true(f"file {k} named", n.lower() in text)
            ctx.eq("descriptions printed", text.count("described"), count)
    finally:
        frame.describe, frame.hist, analyze_data.plt = old
    ctx.eq("described", len(seen), count)
    ctx.eq("histograms", len(drawn), count if histogram else 0)
    ctx.eq("shown", plt.shown, 1 if histogram else 0)
    for box in (seen, drawn):
        for k, rows in enumerate(box):
            ctx.eq(f"data {k}", rows, data[k])


# -- networks -----------------------------------------------------------------------------


class Scaler:
    """an affine scaling with arbitrary coefficients, new ones whenever it is fitted"""

    ctx, made = None, 0

    def __init__(self, *a, **k):
        self.data = None
        self.renew(2 if a else 0)

    def renew(self, width):
        Scaler.made += 1
        self.no = Scaler.made
        self.shift = [self.ctx.real(f"m{self.no}_{j}") for j in range(width)]
        self.scale = [self.ctx.pos(f"s{self.no}_{j}") for j in range(width)]

    def fit(self, x, *a):
        self.data = [list(r) for r in x]
        self.renew(len(self.data[0]))
        return self

    def transform(self, x):
        return self.ctx.array([[(v - m) / s for v, m, s in zip(r, self.shift, self.scale)] for r in x])

    def fit_transform(self, x, *a):
        return self.fit(x).transform(x)

    def inverse_transform(self, x):
        return self.ctx.array([[v * s + m for v, m, s in zip(r, self.shift, self.scale)] for r in x])


class Disk:
    """pickles by file name"""

    def __init__(self):
        self.stored = {}

    def dump(self, x, f, *a, **k):
        self.stored[os.path.abspath(f.name)] = x

    def load(self, f, *a, **k):
        return self.stored[os.path.abspath(f.name)]


class Trained:
    """what the base class of the networks was asked to do; weights are a name"""

    def __init__(self, ctx):
        self.ctx, self.fits, self.files, self.loads = ctx, [], {}, []
        self.net = Network(ctx)

    def output(self, weights, x):
        return self.net.predict([[weights, *r] for r in x])


@contextlib.contextmanager
def networks(ctx):
    """the base class of the networks and the scalers replaced; everything is put back"""
    record, disk = Trained(ctx), Disk()
    Scaler.ctx, Scaler.made = ctx, 0
    base = skorch.NeuralNetRegressor
    old_names = {n: base.__dict__.get(n) for n in ("fit", "predict", "save_params", "load_params", "initialize")}
    old = [(rm, n, getattr(rm, n)) for n in ("StandardScaler", "pickle")]

    def fit(self, X, y, **k):
        self.weights = float(100 + len(record.fits))
        record.fits.append((self, [list(r) for r in X], [list(r) for r in y], k))
        return self

    def predict(self, X):
        return record.output(getattr(self, "weights", 1.0), X)

    def save_params(self, f_params=None, f_optimizer=None, f_history=None, **k):
        for kind, f in (("weights", f_params), ("optimizer", f_optimizer), ("history", f_history)):
            if f is not None:
                with open(f, "w"):
                    pass
                record.files[os.path.abspath(f)] = (kind, self.weights)

    def load_params(self, f_params=None, f_optimizer=None, f_history=None, **k):
        got = {}
        for kind, f in (("weights", f_params), ("optimizer", f_optimizer), ("history", f_history)):
            if f is not None:
                what, got[kind] = record.files[os.path.abspath(f)]
                if what != kind:
                    raise ValueError(f"{f} holds the {what}")
        self.weights = got["weights"]
        record.loads.append(got)

    def initialize(self, *a, **k):
        return self

    for n, f in (("fit", fit), ("predict", predict), ("save_params", save_params), ("load_params", load_params), ("initialize", initialize)):
        setattr(base, n, f)
    rm.StandardScaler, rm.pickle = Scaler, disk
    try:
        yield record
    finally:
        for n, f in old_names.items():
            delattr(base, n) if f is None else setattr(base, n, f)
        for mod, n, v in old:
            setattr(mod, n, v)


PATHS = ("data_path", "network_path", "optimizer_path", "history_path", "input_scaler_path", "output_scaler_path")


@contextlib.contextmanager
def answers(*given):
    left, old = list(given), builtins.input
    builtins.input = lambda *a: left.pop(0)
    try:
        yield left
    finally:
        builtins.input = old


def network_type(key):
    return fv_swe.NETWORK_TYPES[key]


def near_rows(ctx, name, a, b):
    """numbers of single precision in a replay"""
    ctx.eq(name, len(a), len(b))
    for i, (r, s) in enumerate(zip(a, b)):
        if ctx.symbolic:
            ctx.eq(f"{name} {i}", r, s)
        else:
            ctx.eq(f"{name} {i}", [np.float32(x) for x in r], [np.float32(x) for x in s])


def trained(ctx, key, rows, skip, replies=None, seed=None):
    """the network learns every skip-th row, scaled, and is saved unless somebody objects"""
    width = 10
    data = [[ctx.real(f"u{r}_{c}", lo=-100, hi=100) for c in range(width)] for r in range(rows)]
    epochs = ctx.integer("e", 1, 10**6)
    argv = ["train-network", key, "-e", ctx.int_text("e", 1, 10**6)]
    argv += [] if skip is None else ["--skip", str(skip)]
    argv += [] if replies is None else ["--confirm"]
    argv += ["-p", "lr", ctx.real_text("lr", lo=0.001, hi=1)]
    saved = replies is None or replies[-1].lower() in ("y", "yes")
    with Files(ctx) as files, networks(ctx) as record:
        os.chdir(files.folder)
        cls = network_type(key)
        for p in PATHS:
            files.path(getattr(cls, p))
        files.write(files.path(cls.data_path), [0.5 * k for k in range(rows)], columns(), data)
        args = parse(ctx, *argv)
        net = args.network
        ctx.eq("parameter", net.lr, ctx.real("lr", lo=0.001, hi=1))
        with answers(*(replies or [])) as left:
            run(args)
        ctx.eq("questions", len(left), 0)
        ctx.eq("trained once", len(record.fits), 1)
        mine, X, y, kw = record.fits[0]
        ctx.true("network", isinstance(mine, cls))
        ctx.eq("epochs", kw["epochs"], epochs)
        used = data[::skip or defaults.SKIP]
        x_scaler, y_scaler = mine._input_scaler, mine._output_scaler
        near_rows(ctx, "inputs seen", x_scaler.data, [r[:-2] for r in used])
        near_rows(ctx, "targets seen", y_scaler.data, [r[-2:] for r in used])
        for name, got, scaler, part in (("input", X, x_scaler, slice(None, -2)), ("target", y, y_scaler, slice(-2, None))):
            ctx.eq(name + "s", len(got), len(used))
            for r, row in enumerate(used):
                want = [(v - m) / s for v, m, s in zip(row[part], scaler.shift, scaler.scale)]
                for c in range(len(want)):
                    ctx.eq(f"{name} {r} {c}", got[r][c] * scaler.scale[c], want[c] * scaler.scale[c])
        ctx.true("saved", (os.path.abspath(cls.network_path) in record.files) == saved)
        if saved:
            reloaded(ctx, cls, mine, record, data)


def reloaded(ctx, cls, mine, record, data):
    """a network read from the files predicts what the trained one does"""
    other = cls()
    with silent():
        other.load_params(load_history=True)
    ctx.true("history", record.loads[-1] == {"weights": mine.weights, "optimizer": mine.weights, "history": mine.weights})
    x = ctx.array([r[:-2] for r in data[:1]])
    check_prediction(ctx, "trained", mine, record, x, mine._input_scaler, mine._output_scaler, mine.weights)
    check_prediction(ctx, "loaded", other, record, x, mine._input_scaler, mine._output_scaler, mine.weights)


def check_prediction(ctx, name, net, record, x, first, second, weights):
    got = net.predict(x)
    scaled = first.transform(x)
    out = record.output(weights, scaled)
    for i in range(len(x)):
        for j in range(2):
            ctx.eq(f"{name} prediction {i}.{j}", got[i][j], out[i][j] * second.scale[j] + second.shift[j])


def kinds(ctx):
    """every network keeps its own files, none of which is another's"""
    for key, cls in fv_swe.NETWORK_TYPES.items():
        names = [getattr(cls, p) for p in PATHS]
        ctx.eq(f"{key} files", len(set(names)), len(PATHS))
        for other, cls2 in fv_swe.NETWORK_TYPES.items():
            if other != key:
                ctx.true(f"{key} {other}", not set(names[1:]) & {getattr(cls2, p) for p in PATHS[1:]})


def shipped(ctx, key):
    """the trained network in the repository is the one the reduced scheme uses"""
    net = fv_swe.NETWORK_TYPES[key]()
    folder = os.getcwd()
    said = io.StringIO()
    try:
        os.chdir(REPO)
        with contextlib.redirect_stdout(said), contextlib.redirect_stderr(io.StringIO()):
            net.load_params()
    finally:
        os.chdir(folder)
    ctx.true("the trained network is loaded", "untrained" not in said.getvalue())
    with open(os.path.join(REPO, net.network_path), "rb") as f:
        stored = torch.load(f, map_location="cpu")
    mine = net.module_.state_dict()
    ctx.eq("layers", len(mine), len(stored))
    for k, v in stored.items():
        ctx.true(f"weights {k}", k in mine and mine[k].shape == v.shape and bool((mine[k] == v).all()))


def predicted(ctx, key, cells):
    """the subgrid flux of a node is the prediction for the states around it, taken from left to right"""
    with Files(ctx) as files, networks(ctx) as record:
        os.chdir(files.folder)
        cls = network_type(key)
        for p in PATHS:
            files.path(getattr(cls, p))
        with silent():
            source = cls()
            source.fit(ctx.array([[ctx.real(f"a{c}") for c in range(8)]]), ctx.array([[ctx.real(f"b{c}") for c in range(2)]]), epochs=1)
            source.save_params()
            flux = rm.ApproximatedSubgridFlux(4, cls())
            values = [[[ctx.real(f"v{s}_{i}_{j}", lo=-10, hi=10) for j in range(2)] for i in range(cells)] for s in range(4)]
            twice = []
            for k in range(2):
                left, right = flux(*[ctx.array(v) for v in values])
                twice.append(right)
                for i in range(cells):
                    x = [[c if ctx.symbolic else np.float32(c) for s in range(4) for c in values[s][i]]]
                    if not ctx.symbolic:
                        x = np.array(x, dtype=np.float32)
                    out = record.output(source.weights, source._input_scaler.transform(x))[0]
                    for j in range(2):
                        want = out[j] * source._output_scaler.scale[j] + source._output_scaler.shift[j]
                        ctx.eq(f"flux {k} {i}.{j}", right[i][j], want)
                        ctx.eq(f"opposite flux {k} {i}.{j}", left[i][j], -want)
                values = [[[c + 1 for c in v] for v in vs] for vs in values]
        ctx.eq("read once", len(record.loads), 1)


def side_by_side(ctx, kinds, cells=1):
    """several reduced schemes in one run use their own networks, each read once"""
    with Files(ctx) as files, networks(ctx) as record:
        os.chdir(files.folder)
        schemes = []
        with silent():
            for k, key in enumerate(kinds):
                cls = network_type(key)
                for p in PATHS:
                    files.path(getattr(cls, p))
                source = cls()
                source.fit(ctx.array([[ctx.real(f"a{k}{c}") for c in range(8)]]), ctx.array([[ctx.real(f"b{k}{c}") for c in range(2)]]), epochs=1)
                source.save_params()
                schemes.append((source, cls))
            if len({c for _, c in schemes}) < len(schemes):
                schemes = [(schemes[-1][0], c) for _, c in schemes]
            fluxes = [(source, rm.ApproximatedSubgridFlux(4, cls())) for source, cls in schemes]
            x = [[ctx.real(f"v{s}_{j}", lo=-10, hi=10) for j in range(2)] for s in range(4)]
            for turn in range(2):
                for k, (source, flux) in enumerate(fluxes):
                    left, right = flux(*[ctx.array([v]) for v in x])
                    row = [[c if ctx.symbolic else np.float32(c) for v in x for c in v]]
                    if not ctx.symbolic:
                        row = np.array(row, dtype=np.float32)
                    out = record.output(source.weights, source._input_scaler.transform(row))[0]
                    for j in range(2):
                        want = out[j] * source._output_scaler.scale[j] + source._output_scaler.shift[j]
                        ctx.eq(f"flux of scheme {k} {turn}.{j}", right[0][j], want)
                        ctx.eq(f"opposite flux of scheme {k} {turn}.{j}", left[0][j], -want)
        ctx.eq("read once each", len(record.loads), len(fluxes))


def instances(tier):
    big = tier == "thorough"
    out = [inst("files", kinds)]
    for key in fv_swe.NETWORK_TYPES:
        out.append(inst(f"shipped-{key}", shipped, key=key))
    for options in (False, True):
        name = "given" if options else "default"
        if not options:
            out.append(inst(f"filtered-{name}-1", filtered, count=1, options=options))
        out.append(inst(f"filtered-{name}-2h", filtered, count=2, options=options, vary=(0,)))
        out.append(inst(f"filtered-{name}-2q", filtered, count=2, options=options, vary=(1,)))
        out.append(inst(f"filtered-{name}-3", filtered, count=3, options=options, vary=(0, 1, 0)))
        if big:
            out.append(inst(f"filtered-{name}-2", filtered, count=2, options=options))
    for save in (False, True):
        for hide in (False, True):
            out.append(inst(f"scattered-{'save' if save else 'keep'}-{'hide' if hide else 'show'}", scattered, count=2, save=save, hide=hide))
    for count in (1, 3):
        for h in (False, True):
            out.append(inst(f"summarised-{count}-{'histogram' if h else 'text'}", summarised, count=count, histogram=h))
    for key in fv_swe.NETWORK_TYPES:
        for rows, skip in ((1, None), (3, 1), (4, 2), (7, 3), (5, 4), (7, None)):
            out.append(inst(f"trained-{key}-{rows}-{skip or 'default'}", trained, key=key, rows=rows, skip=skip))
        for replies in (("y",), ("no",), ("maybe", "N"), ("", "YES")):
            out.append(inst(f"confirmed-{key}-{'-'.join(replies) or 'none'}", trained, key=key, rows=2, skip=1, replies=list(replies)))
        for cells in (1, 3):
            out.append(inst(f"predicted-{key}-{cells}", predicted, key=key, cells=cells))
    keys = list(fv_swe.NETWORK_TYPES)
    for a in keys:
        for b in keys:
            out.append(inst(f"side-by-side-{a}-{b}", side_by_side, kinds=(a, b)))
    return out
