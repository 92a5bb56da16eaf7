"""Mutation campaign: single-token changes of /repo's source that pass the stable tests, run against the checks.

usage: mutate.py gen [SEED N]       writes /tmp/mut/mutants.json
       mutate.py filter [WORKERS]   keeps those that pass the stable tests (/tmp/mut/survivors.json)
       mutate.py run [WORKERS]      runs the related checks against them (/tmp/mut/results.json)"""
import ast
import concurrent.futures
import glob
import json
import os
import queue
import random
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/mut"
FILES = [f for pat in ("core/*.py", "finite_volume/**/*.py", "finite_element/**/*.py", "parser.py", "command/calculate.py", "command/plot.py", "command/animate.py", "command/error.py",
                       "command/error_evolution.py", "command/generate_data.py", "command/analyze_curvature.py", "command/parameter_variation_test.py", "command/delete_curvature.py", "command/train_network.py",
                       "command/analyze_data.py")
         for f in sorted(glob.glob("/repo/" + pat, recursive=True)) if not f.endswith("__init__.py")]
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
NAMES = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "left": "right", "right": "left", "floor": "ceil", "ceil": "floor", "zeros": "ones", "ones": "zeros", "any": "all",
         "all": "any", "wave_speed_left": "wave_speed_right", "wave_speed_right": "wave_speed_left", "value_left": "value_right", "value_right": "value_left", "argmin": "argmax",
         "start_time": "end_time", "end_time": "start_time", "sum": "prod", "mean": "sum", "left_cell_indices": "right_cell_indices", "right_cell_indices": "left_cell_indices"}


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(i, j, text, what, node):
        new = b[:i] + text.encode() + b[j:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append({"file": os.path.relpath(path, "/repo"), "line": node.lineno, "what": what, "i": i, "j": j, "text": text, "old": b[i:j].decode()})

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AnnAssign)):
            for sub in ([n.returns] if isinstance(n, ast.FunctionDef) and n.returns else []) + ([n.annotation] if isinstance(n, ast.AnnAssign) else []):
                skip |= set(ast.walk(sub))
        if isinstance(n, ast.arg) and n.annotation:
            skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.keyword) and n.arg in ("help", "description", "metavar", "desc", "unit", "linewidth", "fontsize", "alpha", "loc", "size", "leave", "labelsize"):
            skip |= set(ast.walk(n.value))
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("write", "set_xlabel", "legend", "suptitle", "text", "tick_params", "set_ylim", "warn"):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Assert):
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(getattr(n.left, "value", 0), (int, float)):
            i, j = span(n.left)[1], span(n.right)[0]
            mid = b[i:j].decode()
            for sym in ("**", "//", "+", "-", "*", "/", "%"):
                if sym in mid:
                    put(i, j, mid.replace(sym, BIN[type(n.op)], 1), "binop", n)
                    break
            if isinstance(n.op, (ast.Sub, ast.Div)) :
                l, r = b[slice(*span(n.left))].decode(), b[slice(*span(n.right))].decode()
                if len(l) < 60 and len(r) < 60:
                    put(*span(n), f"({r}) {mid.strip()} ({l})", "swap", n)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(*span(n), b[slice(*span(n.left))].decode(), "drop right", n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            i, j = span(n.left)[1], span(n.comparators[0])[0]
            put(i, j, f" {CMP[type(n.ops[0])]} ", "compare", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(*span(n), str(not n.value), "bool", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            put(*span(n), repr(n.value + 1), "const+1", n)
            if n.value not in (0,):
                put(*span(n), repr(n.value - 1), "const-1", n)
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            i, j = span(n)
            put(j - len(n.attr), j, NAMES[n.attr], "name", n)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            put(*span(n), NAMES[n.id], "name", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(*span(n), b[slice(*span(n.operand))].decode(), "unary", n)
        elif isinstance(n, ast.BoolOp):
            i, j = span(n.values[0])[1], span(n.values[1])[0]
            put(i, j, " and " if isinstance(n.op, ast.Or) else " or ", "boolop", n)
        elif isinstance(n, ast.If):
            i, j = span(n.test)
            put(i, j, f"not ({b[i:j].decode()})", "negate", n)
        elif isinstance(n, ast.IfExp):
            put(*span(n), b[slice(*span(n.orelse))].decode(), "ifexp", n)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(*span(n), b[slice(*span(n.func.value))].decode(), "nocopy", n)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "absolute", "sqrt") and len(n.args) == 1:
                put(*span(n), "(" + b[slice(*span(n.args[0]))].decode() + ")", "nofunc", n)
            elif len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                (i1, j1), (i2, j2) = span(n.args[0]), span(n.args[1])
                if b[i1:j1] != b[i2:j2]:
                    put(i1, j2, b[i2:j2].decode() + b[j1:i2].decode() + b[i1:j1].decode(), "swapargs", n)
            for k in n.keywords:
                if k.arg:
                    i, j = span(k)
                    jj = j
                    while b[jj:jj + 1] in (b" ", b"\n"):
                        jj += 1
                    if b[jj:jj + 1] == b",":
                        jj += 1
                        put(i, jj, "", "dropkw", k)
                    else:
                        put(i, j, "", "dropkw", k)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                continue
            i, j = span(n)
            put(i, j, "pass", "delete", n)
            if isinstance(n, ast.AugAssign):
                put(i, j, b[i:j].decode().replace({ast.Add: "+=", ast.Sub: "-=", ast.Mult: "*=", ast.Div: "/="}.get(type(n.op), "+="), {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op), "-="), 1), "aug", n)
    return out


def text_of(m):
    b = open("/repo/" + m["file"], "rb").read()
    return b[:m["i"]] + m["text"].encode() + b[m["j"]:]


def gen(seed=1, count=1500):
    all_ = [m for f in FILES for m in mutants(f)]
    random.Random(seed).shuffle(all_)
    seen, out = set(), []
    for m in all_:
        k = (m["file"], m["i"], m["j"], m["text"])
        if k not in seen:
            seen.add(k)
            out.append(m)
    print(len(out), "mutants,", count, "taken")
    json.dump(out[:count], open(OUT + "/mutants.json", "w"), indent=0)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def stable_ok(d):
    """do the stable tests pass in d?"""
    env = dict(ENV, MPLCONFIGDIR=d)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore", f"--rootdir={d}", "-o", "python_files=*_test.py", "--timeout=60", *DESELECT, "test"],
                           cwd=d, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


DESELECT = []


def filter_(workers=8):
    ms = json.load(open(OUT + "/mutants.json"))
    try:
        done = json.load(open(OUT + "/survivors.json"))
    except OSError:
        done = {}
    q = queue.Queue()
    dirs = []
    for w in range(workers):
        d = f"{OUT}/w{w}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        q.put(d)
    if not DESELECT:
        d = f"{OUT}/w0"
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", f"--rootdir={d}", "-o", "python_files=*_test.py", "-rf", "test"], cwd=d,
                           env=dict(ENV, MPLCONFIGDIR=d), capture_output=True, text=True)
        for l in p.stdout.splitlines():
            if l.startswith("FAILED") or l.startswith("ERROR"):
                DESELECT.append("--deselect=" + l.split()[1])
        print(DESELECT)

    def go(m):
        k = f"{m['file']}:{m['i']}:{m['j']}:{m['text']}"
        if k in done:
            return
        d = q.get()
        try:
            p = os.path.join(d, m["file"])
            orig = open(p, "rb").read()
            open(p, "wb").write(text_of(m))
            try:
                ok = stable_ok(d)
            finally:
                open(p, "wb").write(orig)
            done[k] = m if ok else None
        finally:
            q.put(d)

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for n, _ in enumerate(ex.map(go, ms)):
            if n % 50 == 0:
                json.dump(done, open(OUT + "/survivors.json", "w"), indent=0)
                print(n, sum(1 for v in done.values() if v), flush=True)
    json.dump(done, open(OUT + "/survivors.json", "w"), indent=0)
    print("survivors", sum(1 for v in done.values() if v))


RELATED = [
    ("core/boundary.py", "C08 C01 C02 C06"), ("core/discrete_solution.py", "C13 C15 C16 C14"), ("core/index_mapping.py", "C16 C08 C01"), ("core/interpolate.py", "C21 C27"),
    ("core/local_bounds.py", "C05 C20"), ("core/mesh.py", "C16 C21"), ("core/norm.py", "C22 C27"), ("core/ode_solver.py", "C11 C12 C14"), ("core/quadrature.py", "C21 C22"),
    ("core/riemann_solver.py", "C09 C05 C02"), ("core/solver.py", "C24 C10 C15"), ("core/space.py", "C16 C17 C21"), ("core/system.py", "C18 C19 C16"), ("core/time_stepping.py", "C10 C20 C24"),
    ("core/type.py", "C24"), ("core/vector_coarsener.py", "C16 C23"), ("finite_element/scalar/solver/cg.py", "C18 C24 C19"), ("finite_element/scalar/solver/cg_low", "C18 C24 C20 C19"), ("finite_element/scalar/solver/mcl", "C19 C20 C24"), ("finite_element/index", "C17 C18"), ("finite_element/space", "C21 C18 C17"), ("finite_element/", "C18 C19 C24 C21 C17"),
    ("finite_volume/index_mapping.py", "C16 C01"), ("finite_volume/numerical_flux.py", "C01 C23 C08 C09"), ("finite_volume/solver.py", "C10 C15 C24 C01"), ("finite_volume/space.py", "C21 C16 C22"),
    ("finite_volume/time_stepping.py", "C10 C24"), ("finite_volume/scalar/", "C05 C09 C01 C26 C24"), ("finite_volume/shallow_water/boundary.py", "C08 C07"),
    ("finite_volume/shallow_water/core.py", "C09 C26 C04 C03 C02"), ("finite_volume/shallow_water/numerical_flux.py", "C01 C03 C23 C09"),
    ("finite_volume/shallow_water/solver/energy_stable.py", "C26 C01 C03 C07 C23"), ("finite_volume/shallow_water/solver/lax_w", "C02 C01 C06 C08 C11"),
    ("finite_volume/shallow_water/solver/reduced", "C29 C24 C01 C14"), ("finite_volume/shallow_water/solver/coarse", "C15 C24 C01"), ("finite_volume/shallow_water/solver/mcl", "C01 C03 C04 C02 C08"),
    ("finite_volume/shallow_water/solver/low", "C03 C04 C01 C07"), ("finite_volume/shallow_water/solver/anti", "C24 C01 C03"),
    ("finite_volume/shallow_water/solver/", "C01 C02 C03 C04 C06 C07 C26 C24 C23 C15 C29"), ("parser.py", "C24"), ("command/calculate.py", "C24 C28"), ("command/plot.py", "C28"), ("command/animate.py", "C28"),
    ("command/error.py", "C22 C24"), ("command/error_evolution.py", "C27 C28 C30"), ("command/generate_data.py", "C23 C24"), ("command/analyze_curvature.py", "C23 C29"), ("command/parameter", "C30"), ("command/delete", "C29"), ("command/train", "C29"), ("command/analyze_data", "C29"), ("core/data", "C29"),
    ("core/function.py", "C21 C22"), ("core/benchmark.py", "C24 C28"), ("core/", "C10"),
]


def related(f):
    return next(c for p, c in RELATED if f.startswith(p)).split()


def run_(workers=4):
    import catch

    todo = [v for v in json.load(open(OUT + "/survivors.json")).values() if v]
    todo.sort(key=lambda m: m["file"].startswith("command/"))
    try:
        res = json.load(open(OUT + "/results.json"))
    except OSError:
        res = {}

    def go(m):
        k = f"{m['file']}:{m['i']}:{m['j']}:{m['text']}"
        if k in res:
            return
        d = subprocess.run(["mktemp", "-d"], capture_output=True, text=True).stdout.strip()
        a, b = os.path.join(d, "a", m["file"]), os.path.join(d, "b", m["file"])
        for x in (a, b):
            os.makedirs(os.path.dirname(x))
        open(a, "wb").write(open("/repo/" + m["file"], "rb").read())
        open(b, "wb").write(text_of(m))
        diff = subprocess.run(["diff", "-u", "--label", "a/" + m["file"], "--label", "b/" + m["file"], a, b], capture_output=True, text=True).stdout
        patch = os.path.join(d, "p.diff")
        open(patch, "w").write(diff)
        out = {"m": m, "diff": diff, "checks": {}}
        for c in related(m["file"]):
            rc, text, t = catch.one(patch, c, max(1, 8 // workers))
            out["checks"][c] = [rc, round(t), text[-400:] if rc not in (0, 1) else [l for l in text.splitlines() if l.startswith((c + " [", "  instance"))][:2]]
            if rc == 1:
                break
        shutil.rmtree(d, ignore_errors=True)
        res[k] = out
        json.dump(res, open(OUT + "/results.json", "w"), indent=0)
        caught = [c for c, r in out["checks"].items() if r[0] == 1]
        print(("CAUGHT " + caught[0]) if caught else "missed", m["file"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["text"][:60]), flush=True)

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, todo))


if __name__ == "__main__":
    {"gen": gen, "filter": filter_, "run": run_}[sys.argv[1]](*map(int, sys.argv[2:]))
