"""Harness context: the same harness function is executed on symbolic values (all
inputs within the stated bounds) and on concrete numbers (replay of a solver model on
the untouched code of /repo)."""
import math
import os
import pickle
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import engine as E
from . import shim, terms
from . import values as V
from .engine import Cond, PathAbort, PathLimit, cmp, conj
from .terms import EngineError
from .values import Sym, SymArray, SymBool

REPLAY_TOL = 1e-7
MARGINS = (Fraction(1, 100), Fraction(1, 10**5))


class Discard(BaseException):
    """Concrete values do not satisfy the assumptions."""


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(np.asarray(x).reshape(-1)) if x.dtype != object else list(x.view(np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out += _flat(e)
        return out
    if hasattr(x, "toarray"):
        return _flat(x.toarray())
    return [x]


def _shape(x):
    if hasattr(x, "toarray"):
        return x.shape
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_shape(x[0]) if len(x) else ())
    return ()


class Base:
    symbolic = False

    def array(self, x):
        raise NotImplementedError

    # derived inputs
    def vec(self, name, n, **k):
        return self.array([self.real(f"{name}{i}", **k) for i in range(n)])

    def pos(self, name):
        return self.real(name, pos=True)

    def state(self, name, **k):
        """wet shallow water state (h, q) in primitive variables h and u"""
        h = self.real("h" + name, pos=True)
        u = self.real("u" + name)
        return h, h * u

    def num(self, x):
        """float of a constant"""
        if isinstance(x, Sym):
            return E.evaluate(x.p, {})
        return float(x)


class Symbolic(Base):
    symbolic = True

    def __init__(self, eng, runner):
        self.eng = eng
        self.runner = runner
        self.box = {}
        self.checks = []  # (name, kind, a, b) terms of this path, for validation
        self.ranges = {}

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, integer=False):
        if name in self.eng.inputs:
            return Sym(terms.atom_poly(self.eng.inputs[name]), self.eng.inputs[name].integer)
        a = terms.T.get("var", name, None, pos=pos, nonneg=nonneg, integer=integer, name=name)
        self.eng.inputs[name] = a
        self.ranges[name] = (lo, hi, pos, nonneg, integer)
        s = Sym(terms.atom_poly(a), integer)
        if pos:
            self.eng.assumptions.append(Cond("cmp", s.p, ">"))
        elif nonneg:
            self.eng.assumptions.append(Cond("cmp", s.p, ">="))
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def integer(self, name, lo, hi):
        return self.real(name, lo=lo, hi=hi, integer=True)

    def double(self, name):
        from . import fp

        v = E.z3.FP("fp_" + name, fp.F64)
        self.eng.raw_inputs[name] = (v, fp_to_float)
        return fp.SymFP(v)

    def double_text(self, name):
        from . import fp

        return fp.FPString(fp=self.double(name))

    def real_text(self, name, **k):
        from . import fp

        return fp.FPString(fp=self.real(name, **k))

    def int_text(self, name, lo=-10**6, hi=10**6):
        from . import fp

        return fp.FPString(integer=self.integer(name, lo, hi))

    def array(self, x):
        return V.as_sym_array(x)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in c.flat:
                self.assume(e)
            return
        self.eng.assume(V.cond_of(c))

    # -- guidance: proven inequalities that later proofs may combine linearly.  They
    # are never obligations; one that cannot be proved is simply not available.
    def fact(self, *exprs):
        ok = True
        for x in _flat(list(exprs)):
            p = V.poly_of(x)
            if p is None or not self.eng.prove_fact(p):
                ok = False
                if os.environ.get("SYMX_DEBUG"):
                    print("fact not proved:", x, flush=True)
        return ok

    def product(self, a, b):
        """a >= 0 and b >= 0 are proven; then so is a*b."""
        if self.fact(a) and self.fact(b):
            self.eng.add_fact(V.poly_of(a * b))
            return True
        return False

    # -- checks
    def eq(self, name, a, b):
        if _shape(a) != _shape(b) and _shape(b) != ():
            self.runner.fail(self, name, f"shape {_shape(a)} != {_shape(b)}")
            return
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.runner.check(self, f"{name}[{i}]" if len(fa) > 1 else name, "eq", x, y)

    def ge(self, name, a, b):
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.runner.fail(self, name, f"sizes {len(fa)} != {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.runner.check(self, f"{name}[{i}]" if len(fa) > 1 else name, "ge", x, y)

    def le(self, name, a, b):
        self.ge(name, b, a)

    def true(self, name, c):
        self.runner.check(self, name, "true", c, None)

    def fail(self, name, msg=""):
        self.runner.fail(self, name, msg)

    def finite(self, name, a):
        self.runner.check(self, name, "true", bool(all(V.s_isfinite(x) for x in _flat(a))), None)

    def isfinite(self, x):
        return V.s_isfinite(x)

    def sqrt(self, x):
        return V.s_sqrt(x)

    def fn(self, name, x):
        return V.UFUNC[name](x)

    def abs(self, x):
        return V.s_abs(x)

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = V.s_max(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = V.s_min(r, x)
        return r

    def implies(self, c, d):
        return V.mkbool(E.disj([V.cond_of(c).negate(), V.cond_of(d)]))

    def all(self, *cs):
        return V.mkbool(conj([V.cond_of(c) for c in cs]))

    def any(self, *cs):
        return V.mkbool(E.disj([V.cond_of(c) for c in cs]))


def fp_to_float(v):
    z3 = E.z3
    if z3.is_fp_value(v):
        if v.isNaN():
            return float("nan")
        if v.isInf():
            return float("-inf") if v.isNegative() else float("inf")
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
    r = z3.simplify(z3.fpToReal(v))
    return r.numerator_as_long() / r.denominator_as_long()


class Concrete(Base):
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.log = []
        self.violations = []
        self.used = {}

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, integer=False):
        if name not in self.vals:
            self.vals[name] = 1.0
        v = float(self.vals[name])
        if integer:
            v = int(round(v))
        if (pos and not v > 0) or (nonneg and v < 0) or (lo is not None and v < float(lo) - 1e-12) or (hi is not None and v > float(hi) + 1e-12):
            raise Discard(name)
        self.used[name] = v
        return v

    def integer(self, name, lo, hi):
        return self.real(name, lo=lo, hi=hi, integer=True)

    def double(self, name):
        v = float(self.vals.get(name, 1.0))
        self.used[name] = v
        return v

    def double_text(self, name):
        return repr(self.double(name))

    def real_text(self, name, **k):
        return repr(self.real(name, **k))

    def int_text(self, name, lo=-10**6, hi=10**6):
        return str(self.integer(name, lo, hi))

    def array(self, x):
        return np.array(x, dtype=float)

    def fact(self, *exprs):
        return True

    def product(self, a, b):
        return True

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if not c:
            raise Discard("assumption")

    def eq(self, name, a, b):
        if _shape(a) != _shape(b) and _shape(b) != ():
            self.fail(name, f"shape {_shape(a)} != {_shape(b)}")
            return
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) != 1:
            fb = fb * len(fa)
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._num(f"{name}[{i}]" if len(fa) > 1 else name, "eq", x, y)

    def ge(self, name, a, b):
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.fail(name, f"sizes {len(fa)} != {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._num(f"{name}[{i}]" if len(fa) > 1 else name, "ge", x, y)

    def le(self, name, a, b):
        self.ge(name, b, a)

    def _num(self, name, kind, x, y):
        x, y = float(x), float(y)
        self.log.append((name, kind, x, y))
        tol = REPLAY_TOL * max(1.0, *(abs(v) for v in (x, y) if math.isfinite(v)), self.scale())
        if not (math.isfinite(x) and math.isfinite(y)):
            bad = True
        elif kind == "eq":
            bad = abs(x - y) > tol
        else:
            bad = x < y - tol
        if bad:
            self.violations.append((name, kind, x, y))

    def scale(self):
        return min(1e4, max([abs(v) for v in self.used.values() if math.isfinite(v)] + [1.0]))

    def true(self, name, c):
        self.log.append((name, "true", bool(c), None))
        if not bool(c):
            self.violations.append((name, "true", False, True))

    def fail(self, name, msg=""):
        self.log.append((name, "fail", None, None))
        self.violations.append((name, "fail", msg, None))

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def finite(self, name, a):
        self.true(name, bool(np.isfinite(np.array(_flat(a), dtype=float)).all()))

    def fn(self, name, x):
        return float(getattr(np, name)(x))

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def implies(self, c, d):
        return (not c) or bool(d)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)


class Expected(Exception):
    pass


def interface_mismatch(e):
    """The harness itself no longer fits the code (a renamed or re-signatured internal
    name): no verdict, never an alarm."""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb or os.sep + "harness" + os.sep not in tb[-1].filename:
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        return "NoneType" not in str(e)
    return isinstance(e, TypeError) and "argument" in str(e)


# ---------------------------------------------------------------------------
# concrete execution in a clean process


def run_concrete(fn, params, vals):
    """{'status': ok|discard|error, 'violations': [...], 'log': [...]}"""
    ctx = Concrete(dict(vals))
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(ctx, **params)
    except Discard as e:
        return {"status": "discard", "why": str(e), "violations": [], "log": ctx.log, "inputs": ctx.used}
    except (Exception, SystemExit) as e:
        if interface_mismatch(e):
            return {"status": "discard", "why": f"interface: {e}", "violations": [], "log": ctx.log, "inputs": ctx.used}
        tb = traceback.format_exc().strip().splitlines()
        return {"status": "error", "error": f"{type(e).__name__}: {e}", "trace": tb[-14:],
                "violations": ctx.violations + [("unexpected exception", "error", f"{type(e).__name__}: {e}", None)],
                "log": ctx.log, "inputs": ctx.used}
    return {"status": "ok", "violations": ctx.violations, "log": ctx.log, "inputs": ctx.used}


class ReplayServer:
    """A forked child whose /repo modules were never patched."""

    def __init__(self, fn, params):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w1)
            os.close(self.r2)
            try:
                shim.patch_tqdm_only()
                rd = os.fdopen(self.r1, "rb")
                wr = os.fdopen(self.w2, "wb")
                while True:
                    try:
                        vals = pickle.load(rd)
                    except EOFError:
                        break
                    # every replay in its own process: no state leaks between runs
                    res = self._isolated(fn, params, vals)
                    wr.write(res)
                    wr.flush()
            finally:
                os._exit(0)
        os.close(self.r1)
        os.close(self.w2)
        self.wr = os.fdopen(self.w1, "wb")
        self.rd = os.fdopen(self.r2, "rb")

    @staticmethod
    def _isolated(fn, params, vals):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                signal.alarm(60)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                out = pickle.dumps(run_concrete(fn, params, vals))
                with os.fdopen(w, "wb") as f:
                    f.write(out)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = pickle.dumps({"status": "crash", "violations": [], "log": [], "inputs": {}})
        return data

    def run(self, vals):
        v = {k: (float(x) if not isinstance(x, (bool, str)) else x) for k, x in vals.items()}
        pickle.dump(v, self.wr)
        self.wr.flush()
        return pickle.load(self.rd)

    def close(self):
        try:
            self.wr.close()
            os.waitpid(self.pid, 0)
        except OSError:
            pass


# ---------------------------------------------------------------------------
# symbolic execution of one harness instance


class Violation(BaseException):
    pass


class Runner:
    def __init__(self, inst, budget, deep=False):
        self.inst = inst
        self.fn, self.params = inst["fn"], inst.get("params", {})
        self.timeout = inst.get("timeout", 20 if not deep else 60)
        self.strategies = inst.get("strategies")
        self.hints = inst.get("hints", 2)
        self.replay = ReplayServer(self.fn, self.params)
        shim.install()
        self.eng = E.Engine(budget_s=budget, max_paths=inst.get("max_paths", 200))
        V.set_engine(self.eng)
        self.res = {"instance": inst["name"], "obligations": 0, "proved": 0, "undecided": [], "paths": 0,
                    "violation": None, "validated": 0, "validated_values": 0, "tolerance_only": [], "infeasible": 0,
                    "functions": [], "incomplete": None, "mismatch": [], "reached": 0, "expected": 0}
        self.rng = random.Random(1)
        self.funcs = set()
        self.goals = []

    # called by the context ---------------------------------------------------
    def check(self, ctx, name, kind, a, b):
        ctx.checks.append((name, kind, a, b))
        if len(self.eng.decisions) < len(self.eng.prefix):
            return  # the same obligation was discharged on the sibling path
        self._decide(ctx, name, kind, a, b)

    def fail(self, ctx, name, msg):
        ctx.checks.append((name, "fail", None, None))
        if len(self.eng.decisions) < len(self.eng.prefix):
            return
        self._refuted_path(ctx, name, msg)

    def _decide(self, ctx, name, kind, a, b):
        self.res["obligations"] += 1
        eng = self.eng
        goal = self._goal(kind, a, b)
        if goal is None:  # nan/inf involved: the goal is false on this path
            self._refuted_path(ctx, name, f"value is not finite ({a}, {b})")
            return
        if time.time() - eng.t0 > eng.budget_s:
            self.res["undecided"].append(name)
            self.res["incomplete"] = "time budget"
            return
        r = "unknown"
        if self.strategies is None and goal.k != "const":
            # a hard obligation: look for counterexamples in slices before insisting
            r, vals = eng.prove(goal, self.timeout, self.hints, [("nl", 1.5), ("lin", 4.0)])
            if r == "unknown":
                vals = self._search_slices(ctx, goal, tries=4, timeout=500)
                if vals is not None:
                    r = "refuted"
        if r == "unknown":
            r, vals = eng.prove(goal, self.timeout, self.hints, self.strategies or [("nl", self.timeout), ("lin3", self.timeout)])
        if r == "proved":
            self.res["proved"] += 1
            return
        if r == "unknown":
            vals = self._search_slices(ctx, goal)
            if vals is None:
                self.res["undecided"].append(name)
                return
        self._confirm(ctx, name, kind, a, b, goal, vals)

    def _goal(self, kind, a, b):
        if kind == "true":
            return V.cond_of(a)
        if (V.is_conc(a) and not math.isfinite(float(a))) or (V.is_conc(b) and not math.isfinite(float(b))):
            return None
        p = V.poly_of(a) - V.poly_of(b)
        if kind == "eq":
            if p.is_const and abs(p.const) < Fraction(1, 10**9):
                return E.TRUE
            return cmp(p, "==")
        if p.is_const and p.const > -Fraction(1, 10**9):
            return E.TRUE
        return cmp(p, ">=")

    def _refuted_path(self, ctx, name, msg):
        """The property fails on the whole current path: is the path reachable?"""
        eng = self.eng
        r, m, enc = eng.query(eng.assumptions + eng.path, 10000, "reach")
        if r == "unsat":
            self.res["proved"] += 1
            return
        cands = []
        if r == "sat":
            cands.append(eng.model_values(m, enc, eng.assumptions + eng.path))
            v = self._nice_model(eng.assumptions + eng.path)
            if v is not None:
                cands.insert(0, v)
        else:
            v = self._nice_model(eng.assumptions + eng.path)
            if v is not None:
                cands.append(v)
        for v in cands:
            if self._replay_violates(v):
                raise Violation
        if r == "unknown" and not cands:
            self.res["undecided"].append(f"{name} (path reachability: {msg})")
            return
        self.res["mismatch"].append(f"{name}: {msg} not reproduced by the replay")
        self.res["undecided"].append(name)

    def _box(self, B):
        cs = []
        for n, a in self.eng.inputs.items():
            if a.integer:
                continue
            p = terms.atom_poly(a)
            cs.append(cmp(terms.const(B) - p, ">="))
            cs.append(cmp(p + terms.const(B), ">="))
            if a.pos:
                cs.append(cmp(p - terms.const(Fraction(1, 100)), ">="))
        return cs

    def _nice_model(self, conds, timeout=5000):
        for B in (4, 1000):
            r, m, enc = self.eng.query(conds + self._box(B), timeout, "nice-model")
            if r == "sat":
                return self.eng.model_values(m, enc, conds)
        return None

    def _confirm(self, ctx, name, kind, a, b, goal, vals):
        """Find a counterexample with a margin that double arithmetic cannot blur and
        replay it on the real code."""
        eng = self.eng
        base = eng.assumptions + eng.path
        tried = []
        unsat_all = True
        if kind in ("eq", "ge"):
            p = V.poly_of(a) - V.poly_of(b)
            for mg in MARGINS:
                mc = terms.const(mg)
                negs = [cmp(-p - mc, ">=")] if kind == "ge" else [cmp(p - mc, ">="), cmp(-p - mc, ">=")]
                for ng in negs:
                    for B in (4, 1000):
                        r, m, enc = eng.query(base + [ng] + self._box(B), 5000, "margin")
                        if r == "sat":
                            unsat_all = False
                            v = eng.model_values(m, enc, base + [ng])
                            if self._replay_violates(v, name):
                                raise Violation
                            tried.append(v)
                            break
                        if r == "unknown":
                            unsat_all = False
                if tried:
                    break
        else:
            unsat_all = False
            r, m, enc = eng.query(base + [goal.negate()] + self._box(4), 5000, "margin")
            if r == "sat":
                v = eng.model_values(m, enc, base)
                if self._replay_violates(v, name):
                    raise Violation
                tried.append(v)
        if vals is not None and self._replay_violates(vals, name):
            raise Violation
        if unsat_all and not tried:
            self.res["tolerance_only"].append(name)
            self.res["proved"] += 1
            return
        v = self._search_slices(ctx, goal)
        if v is not None and self._replay_violates(v, name):
            raise Violation
        self.res["mismatch"].append(f"{name}: counterexample not reproduced by the replay")
        self.res["undecided"].append(name)

    def _search_slices(self, ctx, goal, tries=6, timeout=1500):
        """The full query was too hard: fix a random subset of the inputs to simple
        values and ask the solver for the others."""
        eng = self.eng
        names = [n for n, a in eng.inputs.items() if not a.integer]
        neg = goal.negate()
        t_end = time.time() + min(12.0, max(2.0, eng.budget_s - (time.time() - eng.t0)) / 3)
        for k in range(tries):
            if time.time() > t_end:
                return None
            free = set(self.rng.sample(names, min(len(names), 1 + k % 3)))
            fix = []
            for n in names:
                if n in free:
                    continue
                v = self._sample_value(ctx, n)
                fix.append(cmp(terms.atom_poly(eng.inputs[n]) - terms.const(v), "=="))
            r, m, enc = eng.query(eng.assumptions + eng.path + fix + [neg], timeout, "slice")
            if r == "sat":
                return eng.model_values(m, enc, eng.assumptions + eng.path + [neg])
        return None

    def _sample_value(self, ctx, n):
        lo, hi, pos, nonneg, _ = ctx.ranges[n]
        lo = Fraction(lo) if lo is not None else (Fraction(1, 4) if pos else Fraction(0) if nonneg else Fraction(-2))
        hi = Fraction(hi) if hi is not None else max(lo + 2, Fraction(3))
        return lo + (hi - lo) * Fraction(self.rng.randint(1, 15), 16)

    def _replay_violates(self, vals, name=None):
        rep = self.replay.run(vals)
        if rep["status"] in ("discard", "crash"):
            return False
        if rep["violations"]:
            self.res["violation"] = {"instance": self.inst["name"], "check": name,
                                     "inputs": rep["inputs"] or {k: float(v) for k, v in vals.items()},
                                     "violations": [list(map(str, v)) for v in rep["violations"][:12]],
                                     "status": rep["status"], "error": rep.get("error"), "trace": rep.get("trace")}
            return True
        return False

    # path exploration --------------------------------------------------------
    def run(self):
        todo = [[]]
        t0 = time.time()
        try:
            while todo:
                if self.res["paths"] >= self.eng.max_paths:
                    self.res["incomplete"] = f"{len(todo)} paths left (path limit)"
                    break
                if time.time() - self.eng.t0 > self.eng.budget_s:
                    self.res["incomplete"] = f"{len(todo)} paths left (time budget)"
                    break
                prefix = todo.pop()
                self.eng.begin(prefix)
                self.res["paths"] += 1
                ctx = Symbolic(self.eng, self)
                err = None
                self._trace_on()
                try:
                    self.fn(ctx, **self.params)
                except PathAbort:
                    self.res["infeasible"] += 1
                except PathLimit as e:
                    self.res["incomplete"] = str(e)
                    break
                except EngineError as e:
                    err = ("engine", e)
                except RecursionError as e:
                    err = ("engine", e)
                except (Exception, SystemExit) as e:
                    err = ("engine" if interface_mismatch(e) else "exc", e)
                finally:
                    self._trace_off()
                todo.extend(self.eng.pending)
                if err is not None:
                    kind, e = err
                    tb = traceback.extract_tb(e.__traceback__)
                    where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if f.filename.startswith("/repo/")), "")
                    if os.environ.get("SYMX_DEBUG"):
                        traceback.print_exception(e)
                    if kind == "engine":
                        self.res["undecided"].append(f"path: {e} at {where}")
                        self._validate(ctx, only_concrete=True)
                    else:
                        self.res["obligations"] += 1
                        self._refuted_path(ctx, "no unexpected exception", f"{type(e).__name__}: {e} at {where}")
                else:
                    self._validate(ctx)
        except Violation:
            pass
        self.res["wall_s"] = time.time() - t0
        self.res["stats"] = self.eng.stats.as_dict()
        self.res["functions"] = sorted(self.funcs)
        self.replay.close()
        return self.res

    def _validate(self, ctx, only_concrete=False):
        """Run the real code at a point of this path and compare every asserted value
        with the value of its term (validates the encoding; reachability witness)."""
        if self.res["validated"] >= 4 and self.res["paths"] > 8 and not only_concrete:
            return
        eng = self.eng
        conds = eng.assumptions + eng.path
        v = self._sample_point(ctx)
        if v is None:
            v = self._nice_model(conds, 3000)
        if v is None:
            return
        self.res["reached"] += 1
        rep = self.replay.run(v)
        if rep["status"] in ("discard", "crash"):
            return
        if rep["violations"]:
            self.res["violation"] = {"instance": self.inst["name"], "check": "encoding validation",
                                     "inputs": rep["inputs"], "status": rep["status"], "error": rep.get("error"),
                                     "trace": rep.get("trace"),
                                     "violations": [list(map(str, x)) for x in rep["violations"][:12]]}
            raise Violation
        if only_concrete or any(not isinstance(x, (int, float, Fraction)) for x in v.values()) or eng.raw_inputs:
            return
        log = {x[0]: x for x in rep["log"]}
        memo = {}
        vals = {k: float(x) for k, x in v.items()}
        n = 0
        try:
            for name, kind, a, b in ctx.checks:
                if name not in log or kind not in ("eq", "ge"):
                    continue
                for t, c in ((a, log[name][2]), (b, log[name][3])):
                    x = E.evaluate(V.poly_of(t), vals, memo) if not V.is_conc(t) else float(t)
                    if abs(x - c) > 1e-6 * max(1.0, abs(c), abs(x)):
                        self.res["mismatch"].append(f"{name}: term {x} code {c}")
                        return
                    n += 1
        except (EngineError, ZeroDivisionError, OverflowError):
            return
        self.res["validated"] += 1
        self.res["validated_values"] += n

    def _sample_point(self, ctx):
        """A simple point of the path by rejection (only a witness, decides nothing)."""
        eng = self.eng
        if eng.raw_inputs:
            return None
        conds = eng.assumptions + eng.path
        for _ in range(40):
            v = {}
            for n, a in eng.inputs.items():
                x = self._sample_value(ctx, n)
                if a.integer:
                    lo, hi = ctx.ranges[n][:2]
                    x = Fraction(self.rng.randint(int(lo), int(min(hi, lo + 20))))
                v[n] = x
            try:
                if all(E.eval_cond(c, v) for c in conds):
                    return v
            except (EngineError, ZeroDivisionError):
                return None
        return None

    # which functions of /repo are executed symbolically
    def _trace_on(self):
        if self.res["paths"] > 1:
            return
        funcs = self.funcs

        def prof(frame, event, arg):
            if event == "call":
                f = frame.f_code.co_filename
                if f.startswith("/repo/"):
                    funcs.add(f[6:] + ":" + getattr(frame.f_code, "co_qualname", frame.f_code.co_name))

        sys.setprofile(prof)

    def _trace_off(self):
        sys.setprofile(None)


def run_instance(inst, budget, deep=False):
    """In a fresh child process (the caller has forked already)."""
    if os.environ.get("SYMX_PROFILE"):
        import cProfile
        import pstats

        pr = cProfile.Profile()
        r = pr.runcall(Runner(inst, budget, deep).run)
        pstats.Stats(pr, stream=open("/tmp/prof.txt", "w")).sort_stats("tottime").print_stats(25)
        return r
    return Runner(inst, budget, deep).run()
